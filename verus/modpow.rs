// ---- modular power
pub open spec fn rok(r: FastReducer) -> bool {
    let k = r._modulus@.len() as int;
    1 <= k <= 0x3000_0000 && r._modulus@[k - 1] != 0 && 0 <= r._muLength <= r._mu@.len() && r._mu@.len() == k + 2 && r._q1@.len() == 2 * k + 3 && r._q2@.len() == 2 * k + 1
    && pv(r._mu@, 0, r._muLength as int) == pw(2 * k) / val(r._modulus@)
}
pub proof fn red_small(x: BitsBuffer, m: Seq<u32>) requires bbok(x), 1 <= m.len(), m[m.len() - 1] != 0 ensures x._length < m.len() ==> bv(x) % val(m) == bv(x)
{ if x._length < m.len() { bv_pv(x); val_pos(m); pv_bound(x._bits@, 0, x._length as int); pw_mono(x._length as int, m.len() - 1); floor_small(bv(x), val(m)); div_eq(bv(x), val(m)); unit(val(m)); } }
// a remainder computed in place: its upper limbs come out zero
pub proof fn small_top(s: Seq<u32>, l: int, k: int) requires 0 <= k <= l, pv(s, 0, l) < pw(k) ensures zeros(s, k, l), pv(s, 0, l) == pv(s, 0, k) decreases l - k
{
    if k < l { let n = l - 1; let p = pw(n); pv_bound(s, 0, n); pw_mono(k, n); pw_pos(n);
        if s[n] >= 1 { let d = s[n] as int; assert(d * p >= p) by (nonlinear_arith) requires d >= 1, p >= 1; assert(false); }
        assert(0 * p == 0); small_top(s, n, k); }
}
pub proof fn red_big(s: Seq<u32>, l: int, m: Seq<u32>) requires 1 <= m.len() <= l <= s.len(), 0 <= pv(s, 0, l) < val(m), m[m.len() - 1] != 0 ensures zeros(s, m.len() as int, l), pv(s, 0, l) == pv(s, 0, m.len() as int)
{ val_pos(m); small_top(s, l, m.len() as int); }
pub proof fn top1(s: Seq<u32>, n: int) requires s.len() == n + 1, n >= 0, s[n] == 1, zeros(s, 0, n) ensures val(s) == pw(n) { pv_zero(s, 0, n); assert(1 * pw(n) == pw(n)); }
// length of a number with a known bound
pub proof fn len_le(s: Seq<u32>, l: int, n: int) requires 0 <= l <= s.len(), n >= 0, l > 0 ==> s[l - 1] != 0, pv(s, 0, l) < pw(n) ensures l <= n
{ if l > n { pv_ge(s, 0, l); pw_mono(n, l - 1); } }
// a - b modulo p, from the two residues
pub proof fn sub_wrap(x: int, y: int, p: int) requires p > 0, 0 <= x - y < p ensures x % p >= y % p ==> x % p - y % p == x - y, x % p < y % p ==> x % p - y % p + p == x - y
{ div_eq(x, p); div_eq(y, p); let a = x / p; let b = y / p; let d = a - b; dist(p, a, b); assert((a - b) * p == a * p - b * p) by (nonlinear_arith);
  assert(d * p == x - y - (x % p - y % p)); 
  assert(d == 0 || d == 1) by (nonlinear_arith) requires d * p == x - y - (x % p - y % p), 0 <= x - y < p, 0 <= x % p < p, 0 <= y % p < p, p > 0; assert(1 * p == p); }
pub proof fn pv_mod(s: Seq<u32>, l: int, k: int) requires 0 <= k <= l ensures pv(s, 0, k) == pv(s, 0, l) % pw(k), pv(s, 0, l) / pw(k) == pv(s, k, l - k)
{ pv_split(s, 0, l, k); pv_bound(s, 0, k); pw_pos(k); comm(pw(k), pv(s, k, l - k)); div_uniq(pv(s, 0, l), pv(s, k, l - k), pw(k), pv(s, 0, k)); }
pub proof fn mod_step(r: int, m: int) requires m > 0 ensures (r - m) % m == r % m
{ div_eq(r, m); let q = r / m; dist(m, q, 1); assert((q - 1) * m == q * m - m) by (nonlinear_arith); div_uniq(r - m, q - 1, m, r % m); }
pub proof fn mod_sub(x: int, q: int, m: int) requires m > 0 ensures (x - q * m) % m == x % m
{ div_eq(x, m); let a = x / m; assert((a - q) * m == a * m - q * m) by (nonlinear_arith); div_uniq(x - q * m, a - q, m, x % m); }
// Barrett: the estimated quotient is at most two too small
pub proof fn barrett(x: int, m: int, k: int)
    requires k >= 1, pw(k - 1) <= m < pw(k), 0 <= x < pw(2 * k)
    ensures ({ let mu = pw(2 * k) / m; let a = x / pw(k - 1); let q1 = a * mu; let q3 = q1 / pw(k + 1);
        0 <= q3 && 0 <= q1 < pw(2 * k + 2) && 0 <= x - q3 * m < pw(k + 1) && q3 * m >= 0 && 0 <= mu <= pw(k + 1) })
{
    let (p1, p2_, n) = (pw(k - 1), pw(k + 1), pw(2 * k)); pw_add(k - 1, k + 1); pw_pos(k - 1); pw_pos(k + 1); pw_add(k + 1, k + 1);
    let mu = n / m; let a = x / p1; let q1 = a * mu; let q3 = q1 / p2_;
    div_eq(n, m); div_eq(x, p1); mul_pos(a, mu); div_eq(q1, p2_); mul_pos(q3, m);
    assert(mu <= p2_) by (nonlinear_arith) requires mu * m <= n, n == p1 * p2_, p1 <= m, p1 >= 1, p2_ >= 1;
    assert(a < p2_) by (nonlinear_arith) requires a * p1 <= x, x < n, n == p1 * p2_, p1 >= 1;
    assert(q1 < p2_ * p2_) by (nonlinear_arith) requires q1 == a * mu, 0 <= a < p2_, 0 <= mu <= p2_, p2_ >= 1;
    // lower bound
    let qm = q3 * m;
    assert(qm * p2_ <= a * n) by (nonlinear_arith) requires qm == q3 * m, q3 * p2_ <= a * mu, mu * m <= n, a >= 0, m > 0;
    assert(qm <= x) by (nonlinear_arith) requires qm * p2_ <= a * n, n == p1 * p2_, a * p1 <= x, p2_ >= 1;
    // upper bound
    let u = (q3 + 1) * m; dist(p2_, q3, 1);
    assert(u * p2_ >= a * (n - m)) by (nonlinear_arith) requires u == (q3 + 1) * m, (q3 + 1) * p2_ >= a * mu, mu * m >= n - m, a >= 0, m > 0;
    assert(u * p2_ * p1 >= a * p1 * (n - m)) by (nonlinear_arith) requires u * p2_ >= a * (n - m), p1 >= 1;
    assert(m <= n) by { pw_mono(k, 2 * k); }
    assert(a * p1 * (n - m) >= (x - p1) * (n - m)) by (nonlinear_arith) requires a * p1 > x - p1, n - m >= 0;
    assert((x - p1) * (n - m) >= x * n - 2 * m * n) by (nonlinear_arith) requires 0 <= x < n, 0 <= p1 <= m <= n;
    assert(u * p2_ * p1 == u * n) by (nonlinear_arith) requires n == p1 * p2_;
    assert(x <= u + 2 * m) by (nonlinear_arith) requires u * n >= x * n - 2 * m * n, n >= 1;
    assert(u == qm + m) by (nonlinear_arith) requires u == (q3 + 1) * m, qm == q3 * m;
    assert(3 * m < p2_) by { assert(p2_ == B * pw(k)); }
}
// ---- exponent by squaring, modulo m
pub open spec fn mp(r: int, v: int, e: int, m: int) -> int { (r * ipow(v, e)) % m }
pub proof fn mmod(x: int, y: int, m: int) requires m > 0 ensures (x * y) % m == ((x % m) * y) % m, (x * y) % m == (x * (y % m)) % m, (x * y) % m == ((x % m) * (y % m)) % m
{ vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(x, y, m); vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(x, y, m); vstd::arithmetic::div_mod::lemma_mul_mod_noop(x, y, m); }
pub proof fn ipow_mod(v: int, e: int, m: int) requires m > 0, e >= 0 ensures ipow(v % m, e) % m == ipow(v, e) % m decreases e
{ if e > 0 { ipow_mod(v, e - 1, m); mmod(v, ipow(v, e - 1), m); mmod(v % m, ipow(v % m, e - 1), m); vstd::arithmetic::div_mod::lemma_mod_twice(v, m); } }
pub proof fn mp_mod(r: int, v: int, e: int, m: int) requires m > 0, e >= 0 ensures mp(r, v, e, m) == mp(r % m, v % m, e, m), mp(r, v, e, m) == mp(r, v % m, e, m)
{ ipow_mod(v, e, m); mmod(r, ipow(v, e), m); mmod(r % m, ipow(v % m, e), m); mmod(r, ipow(v % m, e), m); vstd::arithmetic::div_mod::lemma_mod_twice(r, m); }
pub proof fn mp_0(r: int, v: int, m: int) requires m > 0 ensures mp(r, v, 0, m) == r % m { assert(r * 1 == r); }
pub proof fn mp_step(r: int, v: int, e: int, m: int) requires m > 0, e >= 0
    ensures e % 2 == 1 ==> mp(r, v, e, m) == mp((r * v) % m, (v * v) % m, e / 2, m), e % 2 == 0 ==> mp(r, v, e, m) == mp(r, (v * v) % m, e / 2, m), e == 1 ==> mp(r, v, e, m) == mp((r * v) % m, v, 0, m)
{
    if e == 0 { mp_0(r, v, m); mp_0(r, (v * v) % m, m); }
    else { pow_step(r, v, e); mp_mod(r * v, v * v, e / 2, m); mp_mod(r, v * v, e / 2, m); if e == 1 { mp_0((r * v) % m, v, m); vstd::arithmetic::div_mod::lemma_mod_twice(r * v, m); } }
}
// the exponent still to do: the rest of limb i and the limbs above it
pub open spec fn rest(p: int, j: int, hi: int) -> int { p + p2(32 - j) * hi }
pub proof fn rest_step(p: int, j: int, hi: int) requires 0 <= j < 32, 0 <= p < p2(32 - j), hi >= 0 ensures rest(p, j, hi) % 2 == p % 2, rest(p, j, hi) / 2 == rest(p / 2, j + 1, hi), p / 2 < p2(31 - j), rest(p, j, hi) >= 0
{ let t = p2(31 - j); assert(p2(32 - j) == 2 * t); let h = t * hi; mul_pos(t, hi); p2_pos(31 - j); assert((2 * t) * hi == 2 * h) by (nonlinear_arith) requires h == t * hi; }
pub proof fn div_p0(x: int) ensures x / p2(0) == x { p2_32(); assert(x / 1 == x); }
pub proof fn shr_next(p: int, j: int) requires 0 <= j ensures (p / p2(j)) / 2 == p / p2(j + 1) { p2_32(); p2_add(j, 1); p2_pos(j); div_twice(p, p2(j), 2); }
pub proof fn rest_top(s: Seq<u32>, i: int) requires 0 <= i < s.len() ensures pv(s, i, s.len() - i) == rest(s[i] as int, 0, pv(s, i + 1, s.len() - i - 1)), pv(s, i + 1, s.len() - i - 1) >= 0, s[i] < p2(32), rest(0, 32, pv(s, i + 1, s.len() - i - 1)) == pv(s, i + 1, s.len() - i - 1)
{ pv_low(s, i, s.len() - i); pv_bound(s, i + 1, s.len() - i - 1); assert(p2(32) == B) by { p2_32(); } let h = pv(s, i + 1, s.len() - i - 1); assert(1 * h == h); }
pub proof fn fits(x: int, m: int) requires 0 <= x < m ensures x % m == x { floor_small(x, m); div_eq(x, m); unit(m); }
// the remainder of a division has no limbs above the divisor's length
pub proof fn len_small(t: Seq<u32>, m: Seq<u32>) requires m.len() >= 1, m[m.len() - 1] != 0, m.len() <= t.len(), 0 <= val(t) < val(m) ensures zeros(t, m.len() as int, t.len() as int)
{ red_big(t, t.len() as int, m); }
pub proof fn modpow_sign(v: int, e: int, m: int) requires e >= 0, m != 0
    ensures ({ let a = ipow(iabs(v), e) % iabs(m); let t = trem(ipow(v, e), m); 0 <= a < iabs(m) && t == (if v < 0 && e % 2 == 1 { -a } else { a }) })
{
    let p = ipow(iabs(v), e); ipow_pos(iabs(v), e); ipow_neg(iabs(v), e); tdiv_sign(ipow(v, e), m); div_eq(p, iabs(m)); div_eq(0, iabs(m)); unit(iabs(m)); fits(0, iabs(m));
}
