// ---- decimal text
pub open spec fn t10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * t10(n - 1) } }
pub spec const D9: int = 1_000_000_000;
// value of the base 10^9 digits
pub open spec fn nv(s: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0 } else { nv(s, n - 1) + s[n - 1] * t10(9 * (n - 1)) } }
pub open spec fn nvh(s: Seq<u32>, j: int, n: int) -> int decreases n - j { if j >= n { 0 } else { s[j] + D9 * nvh(s, j + 1, n) } }
pub open spec fn lt9(s: Seq<u32>, n: int) -> bool { forall|k: int| 0 <= k < n ==> s[k] < 1_000_000_000 }
pub proof fn t10_pos(n: int) ensures t10(n) >= 1 decreases n { if n > 0 { t10_pos(n - 1); } }
pub proof fn t10_add(a: int, b: int) requires a >= 0, b >= 0 ensures t10(a + b) == t10(a) * t10(b) decreases b
{ if b > 0 { t10_add(a, b - 1); let x = t10(a); let y = t10(b - 1); assert(10 * (x * y) == x * (10 * y)) by (nonlinear_arith); } else { assert(t10(a) * 1 == t10(a)); } }
pub proof fn t10_9() ensures t10(9) == D9, t10(0) == 1, t10(1) == 10 { reveal_with_fuel(t10, 11); }
pub proof fn t10_next(k: int) requires k >= 0 ensures t10(9 * (k + 1)) == D9 * t10(9 * k), t10(9 * k) >= 1 { t10_9(); t10_add(9 * k, 9); comm(t10(9 * k), t10(9)); t10_pos(9 * k); }
pub proof fn t10_mono(a: int, b: int) requires a <= b ensures t10(a) <= t10(b) decreases b - a { if a < b { t10_mono(a, b - 1); t10_pos(b - 1); } }
pub proof fn t10_lt(a: int, b: int, v: int) requires t10(a) <= v, v < t10(b) ensures a < b { if b <= a { t10_mono(b, a); } }
pub proof fn nv_frame(s: Seq<u32>, t: Seq<u32>, n: int) requires forall|k: int| 0 <= k < n ==> s[k] == t[k] ensures nv(s, n) == nv(t, n) decreases n { if n > 0 { nv_frame(s, t, n - 1); } }
pub proof fn nv_bound(s: Seq<u32>, n: int) requires n >= 0, lt9(s, n) ensures 0 <= nv(s, n) < t10(9 * n), n > 0 && s[n - 1] != 0 ==> nv(s, n) >= t10(9 * (n - 1)) decreases n
{
    t10_9(); if n > 0 { nv_bound(s, n - 1); t10_next(n - 1); let T = t10(9 * (n - 1)); let d = s[n - 1] as int; assert(0 <= d * T <= (D9 - 1) * T) by (nonlinear_arith) requires 0 <= d < D9, T >= 1; assert((D9 - 1) * T == D9 * T - T) by (nonlinear_arith);
        if d != 0 { assert(d * T >= T) by (nonlinear_arith) requires d >= 1, T >= 1; } }
}
// one digit of multiplying by 2^32 and adding
pub proof fn nv_step(s: Seq<u32>, t: Seq<u32>, X: int, i: int, c: int, d: int, r: int, q: int)
    requires i >= 0, forall|k: int| 0 <= k < i ==> s[k] == t[k], t[i] == r, nv(s, i) + c * t10(9 * i) == X, d * B + c == q * D9 + r
    ensures nv(t, i + 1) + q * t10(9 * (i + 1)) == X + (d * B) * t10(9 * i)
{ nv_frame(s, t, i); t10_next(i); let T = t10(9 * i); assert(q * (D9 * T) + r * T == (d * B) * T + c * T) by (nonlinear_arith) requires d * B + c == q * D9 + r; }
pub proof fn nv_mulB(X: int, d: int, T: int) ensures (X + d * T) * B == X * B + (d * B) * T { assert((X + d * T) * B == X * B + (d * B) * T) by (nonlinear_arith); }
pub proof fn nv_top(s: Seq<u32>, X: int, n: int) requires n >= 1, lt9(s, n), nv(s, n) >= X, X >= t10(9 * (n - 1)) ensures s[n - 1] != 0
{ if s[n - 1] == 0 { nv_bound(s, n - 1); assert(0 * t10(9 * (n - 1)) == 0); } }
pub proof fn p29(k: int) requires k >= 0 ensures p2(29 * k) <= t10(9 * k) decreases k
{ if k > 0 { p29(k - 1); p2_tabc(); p2_add(29 * (k - 1), 29); t10_next(k - 1); p2_add(23, 6); let x = p2(29 * (k - 1)); let y = t10(9 * (k - 1)); p2_pos(29 * (k - 1)); assert(x * 0x2000_0000 <= D9 * y) by (nonlinear_arith) requires 0 <= x <= y; } }
pub proof fn dec_cap(v: int, n: int, k: int) requires k >= 0, n >= 0, t10(9 * k) <= v, v < pw(n) ensures 29 * k < 32 * n
{ p29(k); p2_pw(n); if 29 * k >= 32 * n { p2_mono(32 * n, 29 * k); } }
pub proof fn nv_split(s: Seq<u32>, j: int, n: int) requires 0 <= j <= n ensures nv(s, n) == nv(s, j) + t10(9 * j) * nvh(s, j, n), nvh(s, j, n) >= 0 decreases n - j
{ if j < n { nv_split(s, j + 1, n); t10_next(j); let T = t10(9 * j); let d = s[j] as int; let h = nvh(s, j + 1, n); assert(d * T + (D9 * T) * h == T * (d + D9 * h)) by (nonlinear_arith); } else { assert(t10(9 * j) * 0 == 0); } }
pub proof fn dig_nv(s: Seq<u32>, j: int, n: int) requires 0 <= j < n, lt9(s, n) ensures (nv(s, n) / t10(9 * j)) % t10(9) == s[j], j == n - 1 ==> nv(s, n) / t10(9 * j) == s[j]
{ nv_split(s, j, n); nv_bound(s, j); t10_9(); t10_pos(9 * j); let h = nvh(s, j, n); comm(t10(9 * j), h); div_uniq(nv(s, n), h, t10(9 * j), nv(s, j)); let g = nvh(s, j + 1, n); assert(h == s[j] + D9 * g); comm(D9, g); div_uniq(h, g, D9, s[j] as int); if j == n - 1 { assert(g == 0); } }
pub proof fn emod(x: int, r: int) requires x >= 0, r >= 1 ensures (x % t10(r)) % 10 == x % 10, (x % t10(r)) / 10 == (x / 10) % t10(r - 1)
{
    t10_pos(r - 1); let T = t10(r - 1); div_eq(x, 10); let y = x / 10; div_eq(y, T); let h = y / T; let l = y % T; let b = x % 10;
    assert((h * T + l) * 10 + b == h * (10 * T) + (l * 10 + b)) by (nonlinear_arith); div_uniq(x, h, 10 * T, l * 10 + b); div_uniq(l * 10 + b, l, 10, b);
}
pub proof fn t10_div(V: int, n: int) requires V >= 0, n >= 0 ensures (V / t10(n)) / 10 == V / t10(n + 1), V / t10(n) >= 0, (V / t10(n) > 0) == (V >= t10(n)), 0 <= (V / t10(n)) % 10 < 10
{ t10_pos(n); t10_add(n, 1); t10_9(); div_twice(V, t10(n), 10); div_eq(V, t10(n)); let q = V / t10(n); let T = t10(n);
  assert((q > 0) == (V >= T)) by (nonlinear_arith) requires q >= 0, q * T <= V, V < q * T + T, T >= 1; }
#[verifier::opaque] pub open spec fn dlow(s: Seq<i8>, V: int, e: int, n: int) -> bool { 0 <= n <= e && e <= s.len() && forall|p: int| 0 <= p < n ==> #[trigger] s[e - 1 - p] == 48 + (V / t10(p)) % 10 }
pub broadcast proof fn dlow_put(s: Seq<i8>, V: int, e: int, n: int, i: int, v: i8) requires #[trigger] dlow(s, V, e, n), n < e, i == e - 1 - n, v == 48 + (V / t10(n)) % 10 ensures dlow(#[trigger] s.update(i, v), V, e, n + 1)
{ reveal(dlow); assert forall|p: int| 0 <= p < n + 1 implies #[trigger] s.update(i, v)[e - 1 - p] == 48 + (V / t10(p)) % 10 by { if p < n { assert(s[e - 1 - p] == 48 + (V / t10(p)) % 10); } } }
pub broadcast proof fn dlow_oth(s: Seq<i8>, V: int, e: int, n: int, i: int, v: i8) requires #[trigger] dlow(s, V, e, n), 0 <= i < e - n ensures dlow(#[trigger] s.update(i, v), V, e, n)
{ reveal(dlow); assert forall|p: int| 0 <= p < n implies #[trigger] s.update(i, v)[e - 1 - p] == 48 + (V / t10(p)) % 10 by { assert(s[e - 1 - p] == 48 + (V / t10(p)) % 10); } }
pub proof fn dlow_0(s: Seq<i8>, V: int, e: int) requires 0 <= e <= s.len() ensures dlow(s, V, e, 0) { reveal(dlow); }
pub proof fn dec_seq(w: Seq<i8>, V: int) requires w.len() >= 1, t10(w.len() as int - 1) <= V || (V == 0 && w.len() == 1), V < t10(w.len() as int), forall|p: int| 0 <= p < w.len() ==> #[trigger] w[w.len() - 1 - p] == 48 + (V / t10(p)) % 10 ensures w == dec_nat(V) decreases w.len()
{
    let n = w.len() as int; t10_9(); t10_pos(n - 1);
    assert(w[n - 1 - 0] == 48 + (V / t10(0)) % 10); assert(V / 1 == V);
    if n == 1 { assert(w =~= dec_nat(V)); }
    else {
        t10_pos(n - 2); assert(t10(n - 1) == 10 * t10(n - 2)); let x = w.drop_last(); assert(x.len() == n - 1); let U = V / 10;
        assert forall|p: int| 0 <= p < x.len() implies #[trigger] x[x.len() - 1 - p] == 48 + (U / t10(p)) % 10 by { assert(w[n - 1 - (p + 1)] == 48 + (V / t10(p + 1)) % 10); t10_pos(p); div_twice(V, 10, t10(p)); }
        dec_seq(x, U); assert(w =~= x.push(w[n - 1]));
    }
}
pub proof fn dec_done(s: Seq<i8>, V: int, e: int, n: int) requires dlow(s, V, e, n), n >= 1, t10(n - 1) <= V, V < t10(n) ensures s.subrange(e - n, e) == dec_nat(V)
{ reveal(dlow); let w = s.subrange(e - n, e); assert forall|p: int| 0 <= p < w.len() implies #[trigger] w[w.len() - 1 - p] == 48 + (V / t10(p)) % 10 by { assert(s[e - 1 - p] == 48 + (V / t10(p)) % 10); } dec_seq(w, V); }
// ---- parsing
pub open spec fn isdig(c: i8) -> bool { 48 <= c <= 57 }
pub open spec fn dstart(s: Seq<i8>) -> int { if s.len() > 0 && (s[0] == 45 || s[0] == 43) { 1 } else { 0 } }
// end of the run of digits from i on
pub open spec fn drun(s: Seq<i8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && isdig(s[i]) { drun(s, i + 1) } else { i } }
pub open spec fn pdv(s: Seq<i8>, a: int, i: int) -> int decreases i - a { if i <= a { 0 } else { pdv(s, a, i - 1) * 10 + (s[i - 1] - 48) } }
pub open spec fn parse_val(s: Seq<i8>) -> int { let a = dstart(s); let v = pdv(s, a, drun(s, a)); if s.len() > 0 && s[0] == 45 { -v } else { v } }
// a value with k decimal digits fits into k / 8 + 1 limbs
pub proof fn dec_limbs(b: Seq<u32>, k: int) requires k >= 0, b.len() > 0 ==> b[b.len() - 1] != 0, val(b) < t10(k) ensures b.len() <= k / 8 + 1
{ if b.len() > 0 { val_pos(b); let n = b.len() - 1; p2_pw(n); t10_p2(k); if 32 * n >= 4 * k { p2_mono(4 * k, 32 * n); } } }
pub proof fn t10_p2(k: int) requires k >= 0 ensures t10(k) <= p2(4 * k) decreases k { if k > 0 { t10_p2(k - 1); p2_tabc(); p2_add(4 * (k - 1), 4); p2_pos(4 * (k - 1)); } }
pub proof fn pdv_step(s: Seq<i8>, a: int, i: int) requires a <= i < s.len(), isdig(s[i]), 0 <= pdv(s, a, i) < t10(i - a) ensures pdv(s, a, i + 1) == pdv(s, a, i) * 10 + (s[i] - 48), 0 <= pdv(s, a, i + 1) < t10(i + 1 - a), pdv(s, a, i) * 10 < t10(i + 1 - a) {}
pub proof fn dec_nat_facts(n: int) requires n >= 0 ensures ({ let d = dec_nat(n); d.len() >= 1 && pdv(d, 0, d.len() as int) == n && (forall|k: int| 0 <= k < d.len() ==> isdig(#[trigger] d[k])) && (n > 0 ==> d[0] != 48) && (n == 0 ==> d.len() == 1) }) decreases n
{
    let d = dec_nat(n); reveal_with_fuel(pdv, 2);
    if n < 10 { assert(d[0] == n + 48); } else { dec_nat_facts(n / 10); let p = dec_nat(n / 10); assert(d.drop_last() =~= p); pdv_frame(p, d, 0, 0, p.len() as int); assert(d[0] == p[0]); }
}
pub proof fn pdv_frame(s: Seq<i8>, t: Seq<i8>, a: int, b: int, n: int) requires n >= 0, forall|k: int| 0 <= k < n ==> s[a + k] == #[trigger] t[b + k] ensures pdv(s, a, a + n) == pdv(t, b, b + n) decreases n { if n > 0 { pdv_frame(s, t, a, b, n - 1); assert(t[b + (n - 1)] == s[a + (n - 1)]); } }
pub proof fn drun_all(s: Seq<i8>, i: int) requires 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> isdig(#[trigger] s[k]) ensures drun(s, i) == s.len() decreases s.len() - i { if i < s.len() { drun_all(s, i + 1); } }
// parsing the decimal text gives the value back
pub proof fn dec_roundtrip(x: int) ensures parse_val(dec_int(x)) == x
{
    let s = dec_int(x); let d = dec_nat(iabs(x)); dec_nat_facts(iabs(x)); let n = d.len() as int;
    if x < 0 { assert(s[0] == 45); assert forall|k: int| 0 <= k < n implies d[0 + k] == #[trigger] s[1 + k] by {} pdv_frame(d, s, 0, 1, n); assert forall|k: int| 1 <= k < s.len() implies isdig(#[trigger] s[k]) by { assert(isdig(d[k - 1])); } drun_all(s, 1); }
    else { assert(isdig(d[0])); drun_all(s, 0); }
}
// the limit of the number of base 10^9 digits after n limbs
pub proof fn dec_carry(XN: int, lo: int, c: int, cd: int, n: int) requires cd >= 0, n >= 1, lo >= 0, c >= 0, lo + c * t10(9 * cd) == XN, XN < pw(n) ensures c > 0 ==> 29 * cd < 32 * n, c >= D9 ==> 29 * (cd + 1) < 32 * n
{
    let T = t10(9 * cd); t10_next(cd); if c > 0 { assert(c * T >= T) by (nonlinear_arith) requires c >= 1, T >= 1; dec_cap(XN, n, cd); }
    if c >= D9 { assert(c * T >= D9 * T) by (nonlinear_arith) requires c >= D9, T >= 1; dec_cap(XN, n, cd + 1); }
}
// writing the carry as one or two digits
pub proof fn dec_push(t: Seq<u32>, s: Seq<u32>, cd: int, m: int, c: int)
    requires 0 <= cd, 0 <= c < B, forall|k: int| 0 <= k < cd ==> s[k] == t[k], m == (if c == 0 { cd } else if c < D9 { cd + 1 } else { cd + 2 }), c > 0 ==> t[cd] == c % D9, c >= D9 ==> t[cd + 1] == c / D9
    ensures nv(t, m) == nv(s, cd) + c * t10(9 * cd)
{
    reveal_with_fuel(nv, 3); assert(9 * (cd + 2 - 1) == 9 * (cd + 1)); nv_frame(s, t, cd); t10_next(cd); div_eq(c, D9); let T = t10(9 * cd);
    if c >= D9 { let q = c / D9; let r = c % D9; assert(r * T + q * (D9 * T) == (q * D9 + r) * T) by (nonlinear_arith); } else if c > 0 { div_uniq(c, 0, D9, c); } else { assert(0 * T == 0); }
}
