// ---- mathematical vocabulary of the contracts, and the lemma library
pub open spec const B: int = 0x1_0000_0000;
pub open spec fn pw(n: int) -> int decreases n { if n <= 0 { 1 } else { B * pw(n - 1) } }
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
// value of the n limbs of s from offset o
pub open spec fn pv(s: Seq<u32>, o: int, n: int) -> int decreases n { if n <= 0 { 0 } else { pv(s, o, n - 1) + s[o + n - 1] * pw(n - 1) } }
pub open spec fn val(s: Seq<u32>) -> int { pv(s, 0, s.len() as int) }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }

pub open spec fn dec_nat(n: int) -> Seq<i8> decreases n { if n < 10 { Seq::empty().push((n + 48) as i8) } else { dec_nat(n / 10).push((n % 10 + 48) as i8) } }
pub open spec fn dec_int(n: int) -> Seq<i8> { if n < 0 { Seq::empty().push(45i8) + dec_nat(-n) } else { dec_nat(n) } }

pub proof fn lemma_div_bounds(a: int, b: int) requires b > 0, a >= 0 ensures b * (a / b) <= a, a < b * (a / b) + b, 0 <= a % b < b, a == b * (a / b) + a % b, 0 <= a / b <= a, a % b <= a
{ assert(b * (a / b) <= a && a < b * (a / b) + b && a == b * (a / b) + a % b && 0 <= a / b <= a) by (nonlinear_arith) requires b > 0, a >= 0; }

pub proof fn pw_pos(n: int) ensures pw(n) >= 1 decreases n { if n > 0 { pw_pos(n - 1); } }
pub proof fn pw_1() ensures pw(0) == 1, pw(1) == B, pw(2) == B * B, pw(3) == B * B * B { assert(pw(0) == 1); assert(pw(1) == B * pw(0)); assert(pw(2) == B * pw(1)); assert(pw(3) == B * pw(2)); }
pub proof fn pw_add(a: int, b: int) requires a >= 0, b >= 0 ensures pw(a + b) == pw(a) * pw(b) decreases b
{ if b > 0 { pw_add(a, b - 1); assert(pw(a + b) == B * pw(a + b - 1)); assert(B * (pw(a) * pw(b - 1)) == pw(a) * (B * pw(b - 1))) by (nonlinear_arith); } else { assert(pw(b) == 1); } }
pub proof fn pw_mono(a: int, b: int) requires a <= b ensures pw(a) <= pw(b) decreases b - a
{ pw_pos(b); if a < b { pw_mono(a, b - 1); if b > 0 { pw_pos(b - 1); } } }
pub proof fn pw_strict(a: int, b: int) requires 0 <= a < b ensures pw(a) < pw(b), B * pw(a) <= pw(b)
{ pw_mono(a, b - 1); pw_pos(b - 1); }
pub proof fn p2_pos(n: int) ensures p2(n) >= 1 decreases n { if n > 0 { p2_pos(n - 1); } }
pub proof fn p2_add(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a + b) == p2(a) * p2(b) decreases b
{ if b > 0 { p2_add(a, b - 1); assert(2 * (p2(a) * p2(b - 1)) == p2(a) * (2 * p2(b - 1))) by (nonlinear_arith); } else { assert(p2(b) == 1); } }
pub proof fn p2_mono(a: int, b: int) requires a <= b ensures p2(a) <= p2(b) decreases b - a
{ p2_pos(b); if a < b { p2_mono(a, b - 1); if b > 0 { p2_pos(b - 1); } } }
pub proof fn p2_32() ensures p2(32) == B, p2(31) == 0x8000_0000, p2(64) == B * B, p2(0) == 1, p2(1) == 2
{ reveal_with_fuel(p2, 33); p2_add(32, 32); }
pub proof fn p2_pw(n: int) requires n >= 0 ensures p2(32 * n) == pw(n) decreases n
{ p2_32(); if n > 0 { p2_pw(n - 1); p2_add(32, 32 * (n - 1)); assert(32 * n == 32 + 32 * (n - 1)); } else { assert(p2(0) == 1); } }

pub proof fn pv_bound(s: Seq<u32>, o: int, n: int) ensures 0 <= pv(s, o, n), pv(s, o, n) < pw(n) || n <= 0, n >= 0 ==> pv(s, o, n) <= pw(n) - 1 decreases n
{ if n > 0 { pv_bound(s, o, n - 1); pw_pos(n - 1); let d = s[o + n - 1] as int; let p = pw(n - 1); assert(0 <= d * p && d * p <= (B - 1) * p) by (nonlinear_arith) requires 0 <= d <= B - 1, p >= 1; } }
pub proof fn pv_frame(s: Seq<u32>, t: Seq<u32>, o: int, n: int) requires forall|k: int| o <= k < o + n ==> s[k] == t[k] ensures pv(s, o, n) == pv(t, o, n) decreases n
{ if n > 0 { pv_frame(s, t, o, n - 1); } }
// a store outside the window, and a store of its top limb
pub broadcast proof fn pv_upd(s: Seq<u32>, i: int, x: u32, o: int, n: int) requires 0 <= i < s.len() ensures i < o || i >= o + n ==> #[trigger] pv(s.update(i, x), o, n) == pv(s, o, n), n >= 1 && i == o + n - 1 ==> pv(s.update(i, x), o, n) == pv(s, o, n - 1) + x * pw(n - 1)
{ if i < o || i >= o + n { pv_frame(s.update(i, x), s, o, n); } if n >= 1 && i == o + n - 1 { pv_frame(s.update(i, x), s, o, n - 1); } }
pub proof fn pv_upd_at(s: Seq<u32>, i: int, x: u32, o: int, n: int) requires 0 <= i < s.len(), o <= i < o + n ensures pv(s.update(i, x), o, n) == pv(s, o, n) + (x - s[i]) * pw(i - o) decreases n
{ pw_pos(i - o); if i < o + n - 1 { pv_upd_at(s, i, x, o, n - 1); } else { pv_upd(s, i, x, o, n); assert(pv(s, o, n) == pv(s, o, n - 1) + s[o + n - 1] * pw(n - 1)); let p = pw(n - 1); let a = x as int; let b = s[i] as int; assert(a * p == b * p + (a - b) * p) by (nonlinear_arith); } }
pub proof fn pv_shift(s: Seq<u32>, a: int, t: Seq<u32>, b: int, n: int) requires forall|k: int| 0 <= k < n ==> s[#[trigger] (a + k)] == t[b + k] ensures pv(s, a, n) == pv(t, b, n) decreases n
{ if n > 0 { pv_shift(s, a, t, b, n - 1); assert(s[a + (n - 1)] == t[b + (n - 1)]); } }
pub proof fn pv_split(s: Seq<u32>, o: int, n: int, m: int) requires 0 <= m <= n ensures pv(s, o, n) == pv(s, o, m) + pw(m) * pv(s, o + m, n - m) decreases n
{ if n > m { pv_split(s, o, n - 1, m); pw_add(m, n - 1 - m); let d = s[o + n - 1] as int; let a = pv(s, o + m, n - 1 - m); let p = pw(m); let q = pw(n - 1 - m);
    assert(p * (a + d * q) == p * a + d * (p * q)) by (nonlinear_arith); assert((o + m) + (n - m) - 1 == o + n - 1); assert(pv(s, o + m, n - m) == a + d * q); }
  else { assert(pv(s, o + m, n - m) == 0); assert(pw(m) * 0 == 0) by (nonlinear_arith); } }
pub proof fn pv_zero(s: Seq<u32>, o: int, n: int) requires forall|k: int| o <= k < o + n ==> s[k] == 0 ensures pv(s, o, n) == 0 decreases n
{ if n > 0 { pv_zero(s, o, n - 1); assert(0 * pw(n - 1) == 0); } }
pub proof fn pv_low(s: Seq<u32>, o: int, n: int) requires n >= 1 ensures pv(s, o, n) == s[o] + B * pv(s, o + 1, n - 1)
{ pv_split(s, o, n, 1); pw_1(); assert(pv(s, o, 1) == pv(s, o, 0) + s[o] * pw(0)); }
// zero limbs on top
pub proof fn pv_top0(s: Seq<u32>, o: int, n: int, m: int) requires 0 <= m <= n, forall|k: int| o + m <= k < o + n ==> s[k] == 0 ensures pv(s, o, n) == pv(s, o, m)
{ pv_split(s, o, n, m); pv_zero(s, o + m, n - m); assert(pw(m) * 0 == 0) by (nonlinear_arith); }
// a nonzero top limb
pub proof fn pv_ge(s: Seq<u32>, o: int, n: int) requires n >= 1, s[o + n - 1] != 0 ensures pv(s, o, n) >= pw(n - 1)
{ pv_bound(s, o, n - 1); pw_pos(n - 1); let d = s[o + n - 1] as int; let p = pw(n - 1); assert(d * p >= p) by (nonlinear_arith) requires d >= 1, p >= 1; }
pub proof fn pv_1(s: Seq<u32>, o: int) ensures pv(s, o, 1) == s[o], pv(s, o, 0) == 0 { reveal_with_fuel(pv, 3); pw_1(); }
pub proof fn pv_2(s: Seq<u32>, o: int) ensures pv(s, o, 2) == s[o] + B * s[o + 1]
{ pv_1(s, o); pw_1(); assert(pv(s, o, 2) == pv(s, o, 1) + s[o + 1] * pw(1)); }
pub proof fn pv_3(s: Seq<u32>, o: int) ensures pv(s, o, 3) == s[o] + B * s[o + 1] + B * B * s[o + 2]
{ pv_2(s, o); pw_1(); assert(pv(s, o, 3) == pv(s, o, 2) + s[o + 2] * pw(2)); assert(s[o + 2] * pw(2) == B * B * s[o + 2]) by (nonlinear_arith) requires pw(2) == B * B; }
// every non-overlapping window keeps its value
#[verifier::opaque] pub open spec fn same_out(a: Seq<u32>, b: Seq<u32>, o: int, n: int) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() && !(o <= k < o + n) ==> a[k] == #[trigger] b[k] }
pub open spec fn zeros(s: Seq<u32>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> s[k] == 0 }

// multiply an equation by a power
pub proof fn step3(p: int, l: int, r: int, c: int, b: int, c2: int) requires l + r + c == b + c2 * B ensures l * p + r * p + c * p == b * p + c2 * (B * p)
{ assert(l * p + r * p + c * p == b * p + c2 * (B * p)) by (nonlinear_arith) requires l + r + c == b + c2 * B; }
pub proof fn step4(p: int, l: int, r: int, q: int, c: int, b: int, c2: int) requires l + r + q + c == b + c2 * B ensures l * p + r * p + q * p + c * p == b * p + c2 * (B * p)
{ assert(l * p + r * p + q * p + c * p == b * p + c2 * (B * p)) by (nonlinear_arith) requires l + r + q + c == b + c2 * B; }
pub proof fn mul_pos(a: int, b: int) requires a >= 0, b >= 0 ensures a * b >= 0 { assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
pub proof fn mul_le(a: int, b: int, c: int, d: int) requires 0 <= a <= b, 0 <= c <= d ensures 0 <= a * c <= b * d { assert(0 <= a * c <= b * d) by (nonlinear_arith) requires 0 <= a <= b, 0 <= c <= d; }
pub proof fn mul_lt(a: int, b: int, c: int, d: int) requires 0 <= a < b, 0 <= c < d ensures 0 <= a * c < b * d { assert(0 <= a * c < b * d) by (nonlinear_arith) requires 0 <= a < b, 0 <= c < d; }
pub proof fn dist(a: int, b: int, c: int) ensures a * (b + c) == a * b + a * c, (b + c) * a == b * a + c * a, a * (b - c) == a * b - a * c, (b - c) * a == b * a - c * a { assert(a * (b + c) == a * b + a * c && (b + c) * a == b * a + c * a && a * (b - c) == a * b - a * c && (b - c) * a == b * a - c * a) by (nonlinear_arith); }
pub proof fn comm(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn assoc(a: int, b: int, c: int) ensures a * (b * c) == (a * b) * c { assert(a * (b * c) == (a * b) * c) by (nonlinear_arith); }
// a carry out of a value that fits is zero
pub proof fn carry0(lo: int, c: int, n: int) requires lo >= 0, c >= 0, lo + c * pw(n) < pw(n) ensures c == 0
{ pw_pos(n); let p = pw(n); assert(c == 0) by (nonlinear_arith) requires lo >= 0, c >= 0, lo + c * p < p, p >= 1; }

// ---- IEEE 754 binary64 bit patterns: sign, exponent, mantissa fields
pub open spec fn dneg(b: int) -> bool { b / 0x8000_0000_0000_0000 % 2 == 1 }
pub open spec fn dexp(b: int) -> int { b / 0x10_0000_0000_0000 % 2048 }
pub open spec fn dman(b: int) -> int { b % 0x10_0000_0000_0000 }
// finite double b is exactly the integer x
pub open spec fn dbl_is(b: int, x: int) -> bool {
    let e = dexp(b); let m = dman(b);
    if e == 2047 { false }
    else if e == 0 { m == 0 && x == 0 }
    else { let mag = iabs(x); dneg(b) == (x < 0) && (if e >= 1075 { mag == (m + 0x10_0000_0000_0000) * p2(e - 1075) } else { mag * p2(1075 - e) == m + 0x10_0000_0000_0000 }) }
}

pub proof fn borrow0(lo: int, c: int, n: int) requires 0 <= lo <= pw(n) - 1, -2 <= c <= 0, lo + c * pw(n) >= 0 ensures c == 0
{ pw_pos(n); let p = pw(n); assert(c == 0) by (nonlinear_arith) requires 0 <= lo <= p - 1, c <= 0, lo + c * p >= 0, p >= 1; }
pub proof fn upd3(p: int, d: int, l: int, c: int, r: int, c2: int) requires l + c + r == d + c2 * B ensures (d - l) * p + c2 * (B * p) == c * p + r * p
{ assert((d - l) * p + c2 * (B * p) == c * p + r * p) by (nonlinear_arith) requires l + c + r == d + c2 * B; }
pub proof fn upd4(p: int, d: int, l: int, c: int, r: int, q: int, c2: int) requires l + c + r + q == d + c2 * B ensures (d - l) * p + c2 * (B * p) == c * p + r * p + q * p
{ assert((d - l) * p + c2 * (B * p) == c * p + r * p + q * p) by (nonlinear_arith) requires l + c + r + q == d + c2 * B; }
// equal limbs above i, so limb i decides
pub proof fn cmp_top(s: Seq<u32>, a: int, t: Seq<u32>, b: int, n: int, i: int) requires 0 <= i < n, forall|k: int| i < k < n ==> #[trigger] s[a + k] == t[b + k]
    ensures s[a + i] < t[b + i] ==> pv(s, a, n) < pv(t, b, n), s[a + i] > t[b + i] ==> pv(s, a, n) > pv(t, b, n)
{
    pv_split(s, a, n, i + 1); pv_split(t, b, n, i + 1);
    assert forall|k: int| 0 <= k < n - i - 1 implies s[#[trigger] ((a + i + 1) + k)] == t[(b + i + 1) + k] by { let j = i + 1 + k; assert(s[a + j] == t[b + j]); }
    pv_shift(s, a + i + 1, t, b + i + 1, n - i - 1);
    pv_bound(s, a, i); pv_bound(t, b, i); pw_pos(i);
    let x = s[a + i] as int; let y = t[b + i] as int; let p = pw(i);
    assert(pv(s, a, i + 1) == pv(s, a, i) + x * p); assert(pv(t, b, i + 1) == pv(t, b, i) + y * p);
    if x < y { assert((y - x) * p >= p) by (nonlinear_arith) requires y - x >= 1, p >= 1; assert((y - x) * p == y * p - x * p) by (nonlinear_arith); }
    if x > y { assert((x - y) * p >= p) by (nonlinear_arith) requires x - y >= 1, p >= 1; assert((x - y) * p == x * p - y * p) by (nonlinear_arith); }
}

pub proof fn step3m(p: int, l: int, r: int, c: int, b: int, c2: int) requires l - r + c == b + c2 * B ensures l * p - r * p + c * p == b * p + c2 * (B * p)
{ assert(l * p - r * p + c * p == b * p + c2 * (B * p)) by (nonlinear_arith) requires l - r + c == b + c2 * B; }
pub proof fn upd3m(p: int, d: int, l: int, c: int, r: int, c2: int) requires l + c - r == d + c2 * B ensures (d - l) * p + c2 * (B * p) == c * p - r * p
{ assert((d - l) * p + c2 * (B * p) == c * p - r * p) by (nonlinear_arith) requires l + c - r == d + c2 * B; }
pub proof fn upd4m(p: int, d: int, l: int, c: int, r: int, q: int, c2: int) requires l + c - r - q == d + c2 * B ensures (d - l) * p + c2 * (B * p) == c * p - r * p - q * p
{ assert((d - l) * p + c2 * (B * p) == c * p - r * p - q * p) by (nonlinear_arith) requires l + c - r - q == d + c2 * B; }

// what a callee leaves alone keeps its value
pub broadcast proof fn pv_same(a: Seq<u32>, b: Seq<u32>, o: int, n: int, w: int, m: int) requires #[trigger] same_out(a, b, o, n), w >= 0, w + m <= a.len(), w + m <= o || o + n <= w ensures #[trigger] pv(b, w, m) == pv(a, w, m)
{ reveal(same_out); pv_frame(b, a, w, m); }
pub broadcast proof fn so_refl(a: Seq<u32>, o: int, n: int) ensures #[trigger] same_out(a, a, o, n) { reveal(same_out); }
pub broadcast proof fn so_len(a: Seq<u32>, b: Seq<u32>, o: int, n: int) requires #[trigger] same_out(a, b, o, n) ensures a.len() == b.len() { reveal(same_out); }
pub broadcast proof fn so_at(a: Seq<u32>, b: Seq<u32>, o: int, n: int, k: int) requires #[trigger] same_out(a, b, o, n), 0 <= k < a.len(), k < o || k >= o + n ensures a[k] == #[trigger] b[k] { reveal(same_out); }
pub broadcast proof fn so_upd(a: Seq<u32>, b: Seq<u32>, o: int, n: int, i: int, x: u32) requires same_out(a, b, o, n), 0 <= i < b.len(), o <= i < o + n ensures #[trigger] same_out(a, b.update(i, x), o, n) { reveal(same_out); }
pub broadcast proof fn so_trans(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>, o: int, n: int, o2: int, n2: int) requires same_out(a, b, o, n), #[trigger] same_out(b, c, o2, n2), n2 <= 0 || (o <= o2 && o2 + n2 <= o + n) ensures #[trigger] same_out(a, c, o, n) { reveal(same_out); }
pub broadcast group auto_pv { pv_upd, pv_same, so_refl, so_len, so_at, so_upd, so_trans }
// division is determined by its equation
pub proof fn div_uniq(a: int, q: int, b: int, r: int) requires a == q * b + r, 0 <= r < b ensures q == a / b, r == a % b
{ lemma_fundamental_div_mod_converse(a, b, q, r); }
pub proof fn div_eq(a: int, b: int) requires b > 0 ensures a == (a / b) * b + a % b, 0 <= a % b < b, a >= 0 ==> a / b >= 0
{ lemma_fundamental_div_mod(a, b); comm(a / b, b); lemma_mod_bound(a, b); if a >= 0 { lemma_div_pos_is_pos(a, b); } }
pub proof fn unit(a: int) ensures a * pw(0) == a, pw(0) * a == a, a * 0 == 0, 0 * a == 0, a * p2(0) == a, pw(0) == 1 { pw_1(); p2_32(); assert(a * 1 == a); }
