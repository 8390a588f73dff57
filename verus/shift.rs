pub proof fn div_twice(x: int, a: int, b: int) requires a > 0, b > 0 ensures (x / a) / b == x / (a * b)
{
    div_eq(x, a); let y = x / a; let r = x % a; div_eq(y, b); let q = y / b; let t = y % b; 
    assert(x == q * (a * b) + (a * t + r)) by (nonlinear_arith) requires x == y * a + r, y == q * b + t;
    assert(0 <= a * t + r && a * t + r < a * b) by (nonlinear_arith) requires 0 <= t <= b - 1, 0 <= r < a, a > 0;
    div_uniq(x, q, a * b, a * t + r);
}
pub proof fn ones_mod(s: int) requires 0 <= s < 32 ensures 0xffff_ffffint % p2(s) == p2(s) - 1
{ p2_32(); p2_add(s, 32 - s); p2_pos(s); let S = p2(s); let T = p2(32 - s); assert(0xffff_ffff == (T - 1) * S + (S - 1)) by (nonlinear_arith) requires S * T == B; div_uniq(0xffff_ffff, T - 1, S, S - 1); }
// ---- shifting limb arrays by s < 32 bits and d limbs
pub proof fn shift_pw(shift: int, d: int, s: int) requires shift >= 0, d == shift / 32, s == shift - d * 32 ensures 0 <= s < 32, 0 <= d, d * 32 <= shift, p2(shift) == p2(s) * pw(d), p2(s) * p2(32 - s) == B, p2(s) >= 1, p2(32 - s) >= 1, pw(d) >= 1, p2(shift) >= pw(d)
{ mul_le(1, 1, 1, 1); lemma_fundamental_div_mod(shift, 32); lemma_mod_bound(shift, 32); p2_32(); p2_pw(d); p2_add(s, 32 * d); p2_add(s, 32 - s); p2_pos(s); p2_pos(32 - s); pw_pos(d); let a = p2(s); let b = pw(d); assert(a * b >= b) by (nonlinear_arith) requires a >= 1, b >= 1; }
pub proof fn shift_cases(x: int, s: int)
    ensures x * p2(0) == x, x / p2(0) == x, s == -0x8000_0000 ==> (x / p2(0x7fff_ffff)) / p2(1) == x / p2(-s) && (x * p2(0x7fff_ffff)) * p2(1) == x * p2(-s)
{
    p2_32(); unit(x); assert(x / 1 == x);
    if s == -0x8000_0000 { p2_add(0x7fff_ffff, 1); p2_pos(0x7fff_ffff); div_twice(x, p2(0x7fff_ffff), 2); assoc(x, p2(0x7fff_ffff), p2(1)); }
}
// one limb of a left shift: X = x + r*P (the digits so far and the next), z the stored digit, c/c2 the carries
pub proof fn shl_step(x: int, z: int, c: int, r: int, c2: int, d: int, s: int, P: int)
    requires 0 < s < 32, 0 <= r < B, z + c * P == x * p2(s), d == (r % p2(32 - s)) * p2(s) + c, c2 == r / p2(32 - s), P >= 1
    ensures (z + d * P) + c2 * (B * P) == (x + r * P) * p2(s), 0 <= c2 < p2(s)
{
    p2_32(); p2_add(s, 32 - s); p2_pos(s); p2_pos(32 - s); let S = p2(s); let T = p2(32 - s); div_eq(r, T); let m = r % T;
    assert(r * S == c2 * B + m * S) by (nonlinear_arith) requires r == c2 * T + m, S * T == B;
    assert(c2 < S) by (nonlinear_arith) requires c2 * T <= r, r < B, S * T == B, T >= 1;
    assert(d * P == (m * S) * P + c * P) by (nonlinear_arith) requires d == m * S + c;
    assert((r * S) * P == (c2 * B) * P + (m * S) * P) by (nonlinear_arith) requires r * S == c2 * B + m * S;
    assoc(c2, B, P); assert((x + r * P) * S == x * S + (r * S) * P) by (nonlinear_arith);
}
// digits moved up by d limbs, S * magnitude
pub proof fn shl_end(xd: Seq<u32>, zd: Seq<u32>, d: int, shift: int, S: int)
    requires 0 <= d, zd.len() == xd.len() + d + 1, zeros(zd, 0, d), pv(zd, d, xd.len() as int + 1) == val(xd) * S, p2(shift) == S * pw(d)
    ensures val(zd) == val(xd) * p2(shift)
{ pv_split(zd, 0, zd.len() as int, d); pv_zero(zd, 0, d); assoc(val(xd), S, pw(d)); comm(pw(d), pv(zd, d, xd.len() as int + 1)); }
// one limb of a right shift, from the top: hi the limbs above, w the stored digits, c the carry
pub proof fn shr_step(hi: int, w: int, c: int, r: int, c2: int, z: int, s: int, E: int, P: int)
    requires 0 < s < 32, 0 <= r < B, w * p2(s) + c == hi + E * P, 0 <= c < p2(s), z == r / p2(s) + c * p2(32 - s), c2 == r % p2(s)
    ensures (z + B * w) * p2(s) + c2 == (r + B * hi) + E * (B * P), 0 <= c2 < p2(s), c * p2(32 - s) % p2(32 - s) == 0, r / p2(s) < p2(32 - s), c2 * p2(32 - s) < B
{
    p2_32(); p2_add(s, 32 - s); p2_pos(s); p2_pos(32 - s); let S = p2(s); let T = p2(32 - s); div_eq(r, S); let q = r / S;
    assert(z * S == q * S + c * B) by (nonlinear_arith) requires z == q + c * T, S * T == B;
    assert(q < T) by (nonlinear_arith) requires q * S <= r, r < B, S * T == B, S >= 1;
    assert(c2 * T < B) by (nonlinear_arith) requires c2 < S, S * T == B, T >= 1, c2 >= 0;
    lemma_mod_multiples_basic(c, T);
    assert((z + B * w) * S == z * S + B * (w * S)) by (nonlinear_arith); assert(E * (B * P) == B * (E * P)) by (nonlinear_arith); dist(B, hi + E * P, c); dist(B, hi, E * P); comm(B, c);
}
// the shifted limbs against the floor of the quotient: x = A - N*pw(n) with N = 1 for a negative value
pub proof fn shr_end(xd: Seq<u32>, d: int, n: int, zv: int, c: int, s: int, N: int, shift: int)
    requires 0 <= d, 0 <= n, d + n == xd.len(), 0 <= s < 32, zv * p2(s) + c == pv(xd, d, n) + (if N == 1 { p2(s) - 1 } else { 0 }) * pw(n), 0 <= c < p2(s), p2(shift) == p2(s) * pw(d), N == 0 || N == 1
    ensures N == 1 ==> shr_rel(xd, d, n, zv, s), (val(xd) - N * pw(xd.len() as int)) / p2(shift) == zv - N * pw(n)
{
    pv_split(xd, 0, d + n, d); pv_bound(xd, 0, d); pw_pos(d); pw_add(d, n); let S = p2(s); assert(N == 1 ==> (zv * p2(s) + c) == pv(xd, d, n) + (p2(s) - 1) * pw(n)); let D = pw(d); let lo = pv(xd, 0, d); let h = pv(xd, d, n); let q = zv - N * pw(n); let W = pw(n);
    assert(h - N * W == q * S + c) by {
        if N == 1 { assert((S - 1) * W == S * W - W) by (nonlinear_arith); dist(S, zv, W); comm(S, zv); comm(S, zv - W); assert(1 * W == W); } else { assert(0 * W == 0); } }
    assert(N * pw(d + n) == D * (N * W)) by (nonlinear_arith) requires pw(d + n) == D * W; dist(D, h, N * W);
    let x = val(xd) - N * pw(d + n);
    assert(x == lo + D * (q * S + c));
    assert(x == q * (S * D) + (D * c + lo)) by (nonlinear_arith) requires x == lo + D * (q * S + c);
    assert(0 <= D * c + lo && D * c + lo < S * D) by (nonlinear_arith) requires 0 <= c <= S - 1, 0 <= lo < D, D >= 1;
    div_uniq(x, q, S * D, D * c + lo);
}
// a right shift past the whole magnitude
pub proof fn shr_out(x: int, n: int, d: int, shift: int) requires 0 <= n <= d, -pw(n) <= x < pw(n), p2(shift) >= pw(d) ensures x / p2(shift) == (if x < 0 { -1int } else { 0 })
{ pw_mono(n, d); pw_pos(n); floor_small(x, p2(shift)); }
// the shifted limbs of a negative value, sign limb included: what complementing them gives
pub open spec fn shr_rel(xd: Seq<u32>, d: int, n: int, zv: int, s: int) -> bool { exists|c: int| 0 <= c < p2(s) && #[trigger] (zv * p2(s) + c) == pv(xd, d, n) + (p2(s) - 1) * pw(n) }
pub proof fn shr_neg(xd: Seq<u32>, zd: Seq<u32>, d: int, n: int, s: int)
    requires 0 <= s < 32, 0 <= d, 1 <= n, d + n == xd.len(), zd.len() == n || zd.len() == n + 1, shr_rel(xd, d, n, pv(zd, 0, n), s), zd.len() == n + 1 ==> zd[n] == 0xffff_ffff, zd.len() == n && s == 0 ==> xd[d + n - 1] != 0
    ensures val(zd) > 0, pw(zd.len() as int) - val(zd) == pw(n) - pv(zd, 0, n)
{
    pv_bound(zd, 0, n); pw_pos(n - 1); let W = pw(n); assert(W == B * pw(n - 1)); let zv = pv(zd, 0, n); p2_pos(s); let S = p2(s);
    if zd.len() == n + 1 { assert(0xffff_ffff * W == B * W - W) by (nonlinear_arith); assert(0xffff_ffff * W > 0) by (nonlinear_arith) requires W > 0; }
    else {
        let c = choose|c: int| 0 <= c < p2(s) && #[trigger] (zv * p2(s) + c) == pv(xd, d, n) + (p2(s) - 1) * pw(n); pv_bound(xd, d, n);
        if s == 0 { p2_32(); pv_ge(xd, d, n); assert(0 * W == 0); assert(zv * 1 == zv); }
        else { p2_32(); p2_mono(1, s); if zv == 0 { assert(0 * S == 0); assert((S - 1) * W >= B * (S - 1)) by (nonlinear_arith) requires W >= B, S >= 2; } }
    }
}
