// ---- the integer a BigInteger stands for
pub open spec fn sb(sign: int, b: Seq<u32>) -> int { if b.len() == 0 { sign } else { sign * val(b) } }
pub open spec fn wfsb(sign: int, b: Seq<u32>) -> bool {
    if b.len() == 0 { -0x8000_0000 < sign < 0x8000_0000 }
    else { (sign == 1 || sign == -1) && b[b.len() - 1] != 0 && (b.len() == 1 ==> b[0] >= 0x8000_0000) }
}
pub open spec fn bi(x: BigInteger) -> int { sb(x._sign as int, x._bits@) }
// the canonical form
pub open spec fn wf(x: BigInteger) -> bool { wfsb(x._sign as int, x._bits@) }
// operand size the proofs cover: 2^28 limbs (8.6 * 10^9 bits)
pub open spec fn okb(x: BigInteger) -> bool { wf(x) && x._bits@.len() <= 0x1000_0000 }
pub open spec fn samebi(a: BigInteger, b: BigInteger) -> bool { a._sign == b._sign && a._bits@ == b._bits@ }
pub proof fn val_1(b: Seq<u32>) requires b.len() == 1 ensures val(b) == b[0] { pv_1(b, 0); }
pub proof fn val_pos(b: Seq<u32>) requires b.len() >= 1, b[b.len() - 1] != 0 ensures val(b) >= pw(b.len() - 1), val(b) >= 1, val(b) < pw(b.len() as int), b.len() >= 2 ==> val(b) >= B
{ pv_ge(b, 0, b.len() as int); pv_bound(b, 0, b.len() as int); pw_pos(b.len() - 1); if b.len() >= 2 { pw_1(); pw_mono(1, b.len() - 1); } }
pub proof fn mulsign(s: int, v: int) ensures s == 1 ==> s * v == v, s == -1 ==> s * v == -v { assert(1 * v == v); assert(-1 * v == -v); }
// sign and magnitude of a canonical value
pub proof fn bi_sign(s: int, b: Seq<u32>) requires wfsb(s, b) ensures (s < 0) == (sb(s, b) < 0), (s == 0) == (sb(s, b) == 0), b.len() > 0 ==> sb(s, b) == (if s < 0 { -val(b) } else { val(b) }), b.len() > 0 ==> iabs(sb(s, b)) == val(b) && val(b) >= 0x8000_0000 && val(b) >= pw(b.len() - 1) && val(b) < pw(b.len() as int), b.len() == 0 ==> iabs(sb(s, b)) < 0x8000_0000
{ if b.len() > 0 { val_pos(b); mulsign(s, val(b)); if b.len() == 1 { val_1(b); } } }
pub proof fn pv_inj(a: Seq<u32>, b: Seq<u32>, n: int) requires 0 <= n <= a.len(), n <= b.len(), pv(a, 0, n) == pv(b, 0, n) ensures forall|k: int| 0 <= k < n ==> a[k] == b[k] decreases n
{ if n > 0 { pv_bound(a, 0, n - 1); pv_bound(b, 0, n - 1); let p = pw(n - 1); pw_pos(n - 1); let x = a[n - 1] as int; let y = b[n - 1] as int;
    lemma_fundamental_div_mod_converse(pv(a, 0, n), p, x, pv(a, 0, n - 1)); lemma_fundamental_div_mod_converse(pv(b, 0, n), p, y, pv(b, 0, n - 1)); pv_inj(a, b, n - 1); } }
// one representation per integer
pub proof fn bi_uniq(s: int, a: Seq<u32>, t: int, b: Seq<u32>) requires wfsb(s, a), wfsb(t, b), sb(s, a) == sb(t, b) ensures s == t, a == b
{
    bi_sign(s, a); bi_sign(t, b);
    if a.len() == 0 || b.len() == 0 { }
    else {
        if a.len() < b.len() { pw_mono(a.len() as int, b.len() - 1); } if b.len() < a.len() { pw_mono(b.len() as int, a.len() - 1); }
        pv_inj(a, b, a.len() as int); assert(a =~= b);
    }
}
pub proof fn tdiv_sign(x: int, y: int) requires y != 0
    ensures tdiv(x, y) == (if (x < 0) != (y < 0) { -(iabs(x) / iabs(y)) } else { iabs(x) / iabs(y) }), trem(x, y) == (if x < 0 { -(iabs(x) % iabs(y)) } else { iabs(x) % iabs(y) }),
        iabs(x) < iabs(y) ==> tdiv(x, y) == 0 && trem(x, y) == x, 0 <= iabs(x) / iabs(y) <= iabs(x), 0 <= iabs(x) % iabs(y) < iabs(y), iabs(x) % iabs(y) <= iabs(x)
{
    let a = iabs(x); let b = iabs(y); div_eq(a, b); lemma_div_bounds(a, b);
    let q = a / b; let t = tdiv(x, y); if x == 0 { assert(0int / b == 0) by (nonlinear_arith) requires b > 0; }
    assert(t == (if (x < 0) != (y < 0) { -q } else { q }));
    assert(y * t == (if x < 0 { -(b * q) } else { b * q })) by (nonlinear_arith) requires t == (if (x < 0) != (y < 0) { -q } else { q }), y == b || y == -b, (y < 0) == (y == -b), b > 0;
    comm(b, q);
    if a < b { if q >= 1 { assert(q * b >= b) by (nonlinear_arith) requires q >= 1, b > 0; } assert(q == 0); assert(0 * b == 0); }
}
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub proof fn mul_signs(a: int, b: int) ensures a * b == (if (a < 0) != (b < 0) { -(iabs(a) * iabs(b)) } else { iabs(a) * iabs(b) }), iabs(a) * iabs(b) == iabs(b) * iabs(a)
{ assert(a * b == (if (a < 0) != (b < 0) { -(iabs(a) * iabs(b)) } else { iabs(a) * iabs(b) })) by (nonlinear_arith) requires iabs(a) == (if a < 0 { -a } else { a }), iabs(b) == (if b < 0 { -b } else { b }); comm(iabs(a), iabs(b)); }
pub proof fn mul_small(a: int, b: int) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000 ensures -0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000
{ assert(-0x4000_0000_0000_0000 <= a * b && a * b <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires -0x8000_0000 <= a <= 0x8000_0000, -0x8000_0000 <= b <= 0x8000_0000; }
// fewer limbs, smaller value
pub proof fn len_lt(a: Seq<u32>, b: Seq<u32>) requires b.len() > 0 ==> b[b.len() - 1] != 0 ensures 0 < a.len() < b.len() ==> val(a) < val(b), a.len() == 0 && b.len() > 0 ==> val(b) > 0
{ if b.len() > 0 { val_pos(b); if 0 < a.len() < b.len() { pv_bound(a, 0, a.len() as int); pw_mono(a.len() as int, b.len() - 1); } } }
pub proof fn neg_sign(s: int, b: Seq<u32>) requires wfsb(s, b) ensures -1 * s == -s, wfsb(-s, b), sb(-s, b) == -sb(s, b), -0x8000_0000 < s < 0x8000_0000
{ if b.len() > 0 { mulsign(s, val(b)); mulsign(-s, val(b)); } }
