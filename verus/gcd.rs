// ---- greatest common divisor
pub open spec fn igcd(a: int, b: int) -> int decreases b { if b <= 0 { a } else { igcd(b, a % b) } }
pub proof fn dv_lin(d: int, a: int, b: int, x: int, y: int) requires d > 0, a % d == 0, b % d == 0 ensures (x * a + y * b) % d == 0, (x * a - y * b) % d == 0
{
    div_eq(a, d); div_eq(b, d); let (p, q) = (a / d, b / d);
    assert(x * a + y * b == (x * p + y * q) * d + 0 && x * a - y * b == (x * p - y * q) * d + 0) by (nonlinear_arith) requires a == p * d + 0, b == q * d + 0;
    div_uniq(x * a + y * b, x * p + y * q, d, 0); div_uniq(x * a - y * b, x * p - y * q, d, 0);
}
pub proof fn dv_le(d: int, a: int) requires d > 0, a > 0, a % d == 0 ensures d <= a
{ div_eq(a, d); let q = a / d; assert(q >= 1) by (nonlinear_arith) requires a == q * d, a > 0, d > 0; assert(q * d >= d) by (nonlinear_arith) requires q >= 1, d > 0; }
// the greatest common divisor divides both numbers and every common divisor divides it
pub proof fn igcd_is(a: int, b: int) requires a >= 0, b >= 0
    ensures igcd(a, b) >= 0, igcd(a, b) == 0 ==> a == 0 && b == 0, igcd(a, b) > 0 ==> a % igcd(a, b) == 0 && b % igcd(a, b) == 0,
        forall|d: int| d > 0 && a % d == 0 && b % d == 0 ==> #[trigger] (igcd(a, b) % d) == 0
    decreases b
{
    if b > 0 {
        div_eq(a, b); let q = a / b; let r = a % b; igcd_is(b, r); let g = igcd(b, r);
        assert forall|d: int| d > 0 && a % d == 0 && b % d == 0 implies #[trigger] (g % d) == 0 by { dv_lin(d, a, b, 1, q); assert(1 * a - q * b == r); }
        if g > 0 { dv_lin(g, b, r, q, 1); assert(q * b + 1 * r == a); }
    } else if a > 0 { div_uniq(a, 1, a, 0); div_uniq(0, 0, a, 0); assert(1 * a == a && 0 * a == 0); }
}
pub proof fn igcd_same(a: int, b: int, c: int, e: int)
    requires a >= 0, b >= 0, c >= 0, e >= 0, forall|d: int| d > 0 ==> ((#[trigger] (a % d) == 0 && b % d == 0) == (c % d == 0 && e % d == 0))
    ensures igcd(a, b) == igcd(c, e)
{
    igcd_is(a, b); igcd_is(c, e); let (g, h) = (igcd(a, b), igcd(c, e));
    if g > 0 { assert(a % g == 0); assert(h % g == 0); } if h > 0 { assert(a % h == 0); assert(g % h == 0); }
    if g > 0 && h > 0 { dv_le(g, h); dv_le(h, g); }
    else if g > 0 { let d = g + 1; all0(d); assert(a % d == 0); assert(g % d == 0); dv_le(d, g); }
    else if h > 0 { let d = h + 1; all0(d); assert(a % d == 0); assert(h % d == 0); dv_le(d, h); }
}
pub proof fn all0(d: int) requires d > 0 ensures 0int % d == 0 { div_uniq(0, 0, d, 0); assert(0 * d == 0); }
pub proof fn igcd_comm(a: int, b: int) requires a >= 0, b >= 0 ensures igcd(a, b) == igcd(b, a) { igcd_same(a, b, b, a); }
pub proof fn igcd_0(a: int) ensures igcd(a, 0) == a { }
pub proof fn uni_back(x: int, y: int, a: int, b: int, c: int, d: int) requires a * d - b * c == 1 ensures x == d * (a * x - b * y) + b * (d * y - c * x), y == c * (a * x - b * y) + a * (d * y - c * x)
{
    assert(d * (a * x - b * y) + b * (d * y - c * x) == (a * d - b * c) * x) by (nonlinear_arith);
    assert(c * (a * x - b * y) + a * (d * y - c * x) == (a * d - b * c) * y) by (nonlinear_arith);
    assert(1 * x == x && 1 * y == y);
}
// a unimodular change of the two numbers keeps their common divisors
pub proof fn igcd_lin(x: int, y: int, a: int, b: int, c: int, d: int)
    requires x >= 0, y >= 0, a * d - b * c == 1, a * x - b * y >= 0, d * y - c * x >= 0
    ensures igcd(a * x - b * y, d * y - c * x) == igcd(x, y), x == d * (a * x - b * y) + b * (d * y - c * x), y == c * (a * x - b * y) + a * (d * y - c * x)
{
    let (u, v) = (a * x - b * y, d * y - c * x);
    uni_back(x, y, a, b, c, d);
    assert forall|k: int| k > 0 implies ((#[trigger] (u % k) == 0 && v % k == 0) == (x % k == 0 && y % k == 0)) by {
        if u % k == 0 && v % k == 0 { dv_lin(k, u, v, d, b); dv_lin(k, u, v, c, a); }
        if x % k == 0 && y % k == 0 { dv_lin(k, x, y, a, b); dv_lin(k, y, x, d, c); }
    }
    igcd_same(u, v, x, y);
}
// Lehmer's step: the cofactors a, b, c, d found on the leading parts x0 = X / P, y0 = Y / P
#[verifier::opaque] pub open spec fn leh(x: int, y: int, a: int, b: int, c: int, d: int, it: int, x0: int, y0: int) -> bool {
    x == a * x0 - b * y0 && y == d * y0 - c * x0 && a * d - b * c == 1 && 1 <= a <= 0x7fff_ffff && 0 <= b <= 0x7fff_ffff && 0 <= c <= 0x7fff_ffff && 1 <= d <= 0x7fff_ffff && b <= x && c <= y && it >= 0
    && (it == 0 ==> a == 1 && b == 0 && c == 0 && d == 1 && x == x0 && y == y0) && (it >= 1 ==> b >= 1) && (it >= 2 ==> c >= 1) && (it % 2 == 1 ==> x + a <= y - c && it <= b) && (it % 2 == 0 ==> it <= d && b >= it - 1 && (it >= 2 ==> y + d <= x - b))
}
pub open spec fn lead(x: int, y: int, x0: int, y0: int, p: int) -> bool { p > 0 && x0 == x / p && y0 == y / p }
pub proof fn leh_0(x: int, y: int) requires x >= 0, y >= 0 ensures leh(x, y, 1, 0, 0, 1, 0, x, y) { reveal(leh); }
pub proof fn leh_get(x: int, y: int, a: int, b: int, c: int, d: int, it: int, x0: int, y0: int) requires leh(x, y, a, b, c, d, it, x0, y0)
    ensures 1 <= a <= 0x7fff_ffff, 0 <= b <= 0x7fff_ffff, 0 <= c <= 0x7fff_ffff, 1 <= d <= 0x7fff_ffff, b <= x, c <= y, it >= 0, it == 0 ==> b == 0 && a == 1 && c == 0 && d == 1 && x == x0 && y == y0, it >= 1 ==> b >= 1, it <= 0x7fff_ffff,
        it % 2 == 1 ==> x + a <= y - c && it <= b, it % 2 == 0 ==> it <= d && (it >= 2 ==> y + d <= x - b)
{ reveal(leh); }
pub proof fn leh_odd(x: int, y: int, a: int, b: int, c: int, d: int, it: int, x0: int, y0: int, q: int)
    requires leh(x, y, a, b, c, d, it, x0, y0), it % 2 == 0, y > 0, q == x / y, x >= y, a + q * c <= 0x7fff_ffff, b + q * d <= 0x7fff_ffff, x - q * y >= b + q * d, x - q * y + a + q * c <= y - c
    ensures leh(x - q * y, y, a + q * c, b + q * d, c, d, it + 1, x0, y0), 0 <= x - q * y < y, it + 1 <= b + q * d
{
    reveal(leh); div_eq(x, y); 
    assert(q >= 1) by (nonlinear_arith) requires x == q * y + x % y, x % y < y, x >= y, y > 0;
    assert(q * d >= d && q * c >= 0) by (nonlinear_arith) requires q >= 1, d >= 1, c >= 0;
    assert(x - q * y == (a + q * c) * x0 - (b + q * d) * y0) by (nonlinear_arith) requires x == a * x0 - b * y0, y == d * y0 - c * x0;
    assert((a + q * c) * d - (b + q * d) * c == a * d - b * c) by (nonlinear_arith);
}
pub proof fn leh_even(x: int, y: int, a: int, b: int, c: int, d: int, it: int, x0: int, y0: int, q: int)
    requires leh(x, y, a, b, c, d, it, x0, y0), it % 2 == 1, x > 0, q == y / x, d + q * b <= 0x7fff_ffff, c + q * a <= 0x7fff_ffff, y - q * x >= c + q * a, y - q * x + d + q * b <= x - b
    ensures leh(x, y - q * x, a, b, c + q * a, d + q * b, it + 1, x0, y0), 0 <= y - q * x < x, x < y, it + 1 <= d + q * b
{
    reveal(leh); div_eq(y, x);
    assert(q >= 1) by (nonlinear_arith) requires y == q * x + y % x, y % x < x, y >= x, x > 0;
    assert(q * b >= b && q * a >= a) by (nonlinear_arith) requires q >= 1, b >= 1, a >= 1;
    assert(y - q * x == (d + q * b) * y0 - (c + q * a) * x0) by (nonlinear_arith) requires x == a * x0 - b * y0, y == d * y0 - c * x0;
    assert(a * (d + q * b) - b * (c + q * a) == a * d - b * c) by (nonlinear_arith);
}
// the step on the full numbers
pub proof fn leh_step(X: int, Y: int, x: int, y: int, a: int, b: int, c: int, d: int, it: int, x0: int, y0: int, p: int)
    requires leh(x, y, a, b, c, d, it, x0, y0), lead(X, Y, x0, y0, p), it >= 1, X >= Y >= 0
    ensures ({ let (u, v) = (a * X - b * Y, d * Y - c * X); 0 <= u <= Y && 0 <= v <= Y && igcd(u, v) == igcd(X, Y) && (it % 2 == 1 ==> u < v) && (it % 2 == 0 ==> v < u) && u + v < X + Y })
{
    reveal(leh); div_eq(X, p); div_eq(Y, p); let (e, f) = (X % p, Y % p); let (u, v) = (a * X - b * Y, d * Y - c * X);
    assert(u == x * p + a * e - b * f && v == y * p + d * f - c * e) by (nonlinear_arith) requires u == a * X - b * Y, v == d * Y - c * X, X == x0 * p + e, Y == y0 * p + f, x == a * x0 - b * y0, y == d * y0 - c * x0;
    assert(0 <= a * e < a * p && 0 <= b * f <= b * p && 0 <= d * f < d * p && 0 <= c * e <= c * p) by (nonlinear_arith) requires 0 <= e < p, 0 <= f < p, a >= 1, b >= 0, d >= 1, c >= 0;
    assert((x - b) * p >= 0 && (y - c) * p >= 0) by (nonlinear_arith) requires x >= b, y >= c, p > 0;
    assert((x - b) * p == x * p - b * p && (y - c) * p == y * p - c * p) by (nonlinear_arith);
    if it % 2 == 1 { assert(x * p + a * p <= y * p - c * p) by (nonlinear_arith) requires x + a <= y - c, p > 0; } else { assert(y * p + d * p <= x * p - b * p) by (nonlinear_arith) requires y + d <= x - b, p > 0; }
    igcd_lin(X, Y, a, b, c, d);
    assert(a * v >= v) by (nonlinear_arith) requires a >= 1, v >= 0; mul_pos(c, u);
    if it % 2 == 0 { assert(c * u >= u) by (nonlinear_arith) requires c >= 1, u >= 0; mul_pos(a, v); }
}
// the result of a step computed modulo a power that exceeds it
pub proof fn mod_exact(z: int, lo: int, k: int, n: int) requires 0 <= z < n, 0 <= lo < n, z == lo + k * n ensures z == lo
{ assert(k == 0) by (nonlinear_arith) requires 0 <= z < n, 0 <= lo < n, z == lo + k * n; assert(0 * n == 0); }

pub proof fn buf_len(x: BitsBuffer, y: BitsBuffer) requires bbok(x), bbok(y), bv(x) >= bv(y) ensures y._length <= x._length
{ bv_pv(x); bv_pv(y); pv_bound(x._bits@, 0, x._length as int); if y._length > 0 { pw_pos(y._length - 1); if x._length < y._length { pv_ge(y._bits@, 0, y._length as int); pw_mono(x._length as int, y._length - 1); } } }
pub proof fn bv_2(x: BitsBuffer) requires bbok(x), x._length <= 2, x._bits@.len() >= 2 ensures bv(x) == x._bits@[0] + B * x._bits@[1], x._length > 0 ==> bv(x) > 0, x._length == 0 ==> bv(x) == 0
{ pv_top0(x._bits@, 0, x._bits@.len() as int, 2); pv_2(x._bits@, 0); bv_pos(x); if x._length == 0 { pv_zero(x._bits@, 0, x._bits@.len() as int); } }
pub proof fn bv_pos(x: BitsBuffer) requires bbok(x) ensures x._length > 0 ==> bv(x) >= pw(x._length - 1) && bv(x) > 0, bv(x) < pw(x._length as int)
{ bv_pv(x); pv_bound(x._bits@, 0, x._length as int); if x._length > 0 { pv_ge(x._bits@, 0, x._length as int); pw_pos(x._length - 1); } else { pw_1(); } }
pub proof fn prod31(a: int, x: int) requires 0 <= a <= 0x7fff_ffff, 0 <= x <= 0xffff_ffff ensures 0 <= a * x <= 0x7fff_fffe_8000_0001
{ assert(0 <= a * x <= 0x7fff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a <= 0x7fff_ffff, 0 <= x <= 0xffff_ffff; }
pub proof fn lc_step(s: int, p: int, xc: int, a: int, b: int, px: int, py: int, xi: int, yi: int, lo: int, xc2: int)
    requires s + xc * p == a * px - b * py, a * xi - b * yi + xc == lo + xc2 * B
    ensures s + lo * p + xc2 * (B * p) == a * (px + xi * p) - b * (py + yi * p)
{ assert(s + lo * p + xc2 * (B * p) == a * (px + xi * p) - b * (py + yi * p)) by (nonlinear_arith) requires s + xc * p == a * px - b * py, a * xi - b * yi + xc == lo + xc2 * B; }
pub proof fn lc_end(s: int, p: int, xc: int, a: int, b: int, px: int, py: int, X: int, hi: int)
    requires s + xc * p == a * px - b * py, X == px + p * hi, 0 <= a * X - b * py < p, 0 <= s < p ensures s == a * X - b * py
{ let k = xc + a * hi; assert(a * X - b * py == s + k * p) by (nonlinear_arith) requires s + xc * p == a * px - b * py, X == px + p * hi, k == xc + a * hi; mod_exact(a * X - b * py, s, k, p); }
pub proof fn div_mono(a: int, b: int, p: int) requires a >= b, p > 0 ensures a / p >= b / p { vstd::arithmetic::div_mod::lemma_div_is_ordered(b, a, p); }
// the leading 64 bits of three limbs
pub proof fn top_bits(h: int, m: int, l: int, z: int)
    requires 0 <= h, 0 <= m < B, 0 <= l < B, 0 <= z <= 31, h * p2(z) < B
    ensures h * p2(32 + z) <= 0x1_0000_0000_0000_0000 - p2(32 + z), m * p2(z) <= p2(32 + z) - p2(z), (h * p2(32 + z)) % p2(32 + z) == 0, (h * p2(32 + z) + m * p2(z)) % p2(z) == 0, 0 <= l / p2(32 - z) < p2(z),
        h * p2(32 + z) + m * p2(z) + l / p2(32 - z) == (h * B * B + m * B + l) / p2(32 - z), 0 <= h * p2(32 + z), 0 <= m * p2(z), p2(z) >= 1, p2(32 + z) == B * p2(z)
{
    p2_32(); p2_add(32, z); p2_add(32 - z, z); let (P, Q, R) = (p2(z), p2(32 - z), p2(32 + z)); p2_pos(z); p2_pos(32 - z); p2_pos(32 + z);
    let b = B as int; assert(h < Q) by (nonlinear_arith) requires h * P < Q * P, P >= 1;
    assert((h + 1) * P <= Q * P) by (nonlinear_arith) requires h + 1 <= Q, P >= 1; assert((h + 1) * P == h * P + P) by (nonlinear_arith);
    assert(h * (b * P) == b * (h * P)) by (nonlinear_arith); assert(b * (h * P) <= b * (b - P)) by (nonlinear_arith) requires h * P <= b - P, b > 0; assert(b * (b - P) == b * b - b * P) by (nonlinear_arith);
    mul_pos(h, P); mul_pos(b, h * P); mul_pos(m, P);
    assert((m + 1) * P <= b * P) by (nonlinear_arith) requires m + 1 <= b, P >= 1; assert((m + 1) * P == m * P + P) by (nonlinear_arith);
    div_uniq(h * R, h, R, 0);
    assert(h * R + m * P == (h * B + m) * P + 0) by (nonlinear_arith) requires R == B * P; div_uniq(h * R + m * P, h * B + m, P, 0);
    div_eq(l, Q); let (lq, lr) = (l / Q, l % Q);
    assert(lq < P) by (nonlinear_arith) requires lq * Q < Q * P, Q >= 1; assert(lq >= 0) by (nonlinear_arith) requires lq * Q + lr == l, lr < Q, l >= 0, Q >= 1;
    assert((h * (b * P) + m * P + lq) * Q == h * b * (Q * P) + m * (Q * P) + lq * Q) by (nonlinear_arith);
    div_uniq(h * B * B + m * B + l, h * R + m * P + lq, Q, lr);
}
// the top limb with z leading zeros removed
pub proof fn lead_of(X: int, Y: int, T: int, U: int, n3: int, z: int, x: int, y: int)
    requires X >= Y >= 0, n3 >= 0, 0 <= z <= 31, T == X / pw(n3), U == Y / pw(n3), x == T / p2(32 - z) / 2, y == U / p2(32 - z) / 2
    ensures x >= y, lead(X, Y, x, y, pw(n3) * (p2(32 - z) * 2))
{
    pw_pos(n3); p2_pos(32 - z); div_twice(T, p2(32 - z), 2); div_twice(U, p2(32 - z), 2); div_twice(X, pw(n3), p2(32 - z) * 2); div_twice(Y, pw(n3), p2(32 - z) * 2);
    let p = pw(n3) * (p2(32 - z) * 2); assert(p > 0) by (nonlinear_arith) requires p == pw(n3) * (p2(32 - z) * 2), pw(n3) >= 1, p2(32 - z) >= 1; div_mono(X, Y, p);
}
// three limbs of a number, from limb n - 3 on, when the number has k limbs
pub proof fn lead3(s: Seq<u32>, k: int, n: int) requires n >= 3, 0 <= k <= n ensures pv(s, 0, k) / pw(n - 3) == (if k == n { s[n - 3] + B * s[n - 2] + B * B * s[n - 1] } else if k == n - 1 { s[n - 3] + B * s[n - 2] } else if k == n - 2 { s[n - 3] as int } else { 0 })
{
    if k >= n - 3 { pv_mod(s, k, n - 3); if k == n { pv_3(s, n - 3); } else if k == n - 1 { pv_2(s, n - 3); } else if k == n - 2 { pv_1(s, n - 3); } else { pv_1(s, n - 3); } }
    else { pv_bound(s, 0, k); pw_mono(k, n - 3); floor_small(pv(s, 0, k), pw(n - 3)); }
}
pub proof fn top_le(T: int, U: int, h: int, m: int, l: int, g: int, e: int, f: int) requires T >= U, T == l + B * m + B * B * h, U == f + B * e + B * B * g, 0 <= m < B, 0 <= l < B, e >= 0, f >= 0, g >= 0 ensures g <= h, T == h * B * B + m * B + l, U == g * B * B + e * B + f
{ let b = B as int;
  assert(b * b * h == h * b * b && b * b * g == g * b * b && b * m == m * b && b * e == e * b) by (nonlinear_arith);
  if g > h { let w = b * b; assert(w * g >= w * (h + 1)) by (nonlinear_arith) requires g >= h + 1, w > 0; assert(w * (h + 1) == w * h + w) by (nonlinear_arith); mul_pos(b, e); } }

pub proof fn igcd_step(a: int, b: int) requires b > 0 ensures igcd(a, b) == igcd(b, a % b), 0 <= a % b < b { div_eq(a, b); }
pub proof fn lc_end2(s: int, p: int, yc: int, d: int, c: int, px: int, py: int, X: int, hi: int)
    requires s + yc * p == d * py - c * px, X == px + p * hi, 0 <= d * py - c * X < p, 0 <= s < p ensures s == d * py - c * X
{ let k = yc - c * hi; assert(d * py - c * X == s + k * p) by (nonlinear_arith) requires s + yc * p == d * py - c * px, X == px + p * hi, k == yc - c * hi; mod_exact(d * py - c * X, s, k, p); }
// the two halves of one round of Lehmer's loop, under the conditions the loop tests
pub proof fn leh_both(x: int, y: int, a: int, b: int, c: int, d: int, it: int, x0: int, y0: int)
    requires leh(x, y, a, b, c, d, it, x0, y0), it % 2 == 0, y > 0, x >= y
    ensures ({ let q = x / y; let r = a + q * c; let s = b + q * d; let t = x - q * y;
        0 <= t < y && q >= 1 && q * y <= x && 0 <= q * c && 0 <= q * d && 0 <= q * y && c <= y && b <= x && b >= 0 && c >= 0 && it >= 0 && c <= 0x7fff_ffff && d <= 0x7fff_ffff && a <= 0x7fff_ffff && b <= 0x7fff_ffff
        && (r <= 0x7fff_ffff && s <= 0x7fff_ffff && t >= s && t + r <= y - c ==> leh(t, y, r, s, c, d, it + 1, x0, y0) && s >= 1 && it + 1 <= s
            && (t > 0 ==> ({ let q2 = y / t; let r2 = d + q2 * s; let s2 = c + q2 * r; let t2 = y - q2 * t; 0 <= t2 < t && q2 >= 1 && q2 * t <= y && 0 <= q2 * s && 0 <= q2 * r && 0 <= q2 * t && s <= t
                && (r2 <= 0x7fff_ffff && s2 <= 0x7fff_ffff && t2 >= s2 && t2 + r2 <= t - s ==> leh(t, t2, r, s, s2, r2, it + 2, x0, y0) && it + 2 <= r2 && t2 <= t) }))) })
{
    leh_get(x, y, a, b, c, d, it, x0, y0); div_eq(x, y); let q = x / y; let r = a + q * c; let s = b + q * d; let t = x - q * y;
    assert(q >= 1) by (nonlinear_arith) requires x == q * y + x % y, x % y < y, x >= y, y > 0;
    mul_pos(q, c); mul_pos(q, d); mul_pos(q, y);
    if r <= 0x7fff_ffff && s <= 0x7fff_ffff && t >= s && t + r <= y - c {
        leh_odd(x, y, a, b, c, d, it, x0, y0, q); leh_get(t, y, r, s, c, d, it + 1, x0, y0);
        if t > 0 {
            div_eq(y, t); let q2 = y / t; let r2 = d + q2 * s; let s2 = c + q2 * r; let t2 = y - q2 * t;
            assert(q2 >= 1) by (nonlinear_arith) requires y == q2 * t + y % t, y % t < t, y >= t, t > 0;
            mul_pos(q2, s); mul_pos(q2, r); mul_pos(q2, t);
            if r2 <= 0x7fff_ffff && s2 <= 0x7fff_ffff && t2 >= s2 && t2 + r2 <= t - s { leh_even(t, y, r, s, c, d, it + 1, x0, y0, q2); leh_get(t, t2, r, s, s2, r2, it + 2, x0, y0); }
        }
    }
}
