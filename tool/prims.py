"""The C++ machine operations the translation uses, with their meaning on this platform (LP64, two's complement).
Bodies that Verus can check are checked; the rest are marked external_body and listed as trusted."""
import re
W = {'u8': (8, 0), 'u32': (32, 0), 'u64': (64, 0), 'i8': (8, 1), 'i32': (32, 1), 'i64': (64, 1), 'u16': (16, 0), 'i16': (16, 1)}

def rng(t):
    w, s = W[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

def prims():
    o = []
    a = o.append
    a('''#[derive(Clone, Copy)] pub enum Exc { DivideByZero, Overflow, OutOfRange, Runtime, Other }
#[derive(Clone, Copy)] pub struct F64 { pub bits: u64 }
pub struct F32 { pub bits: u32 }
pub struct DoubleULong { pub uu: u64 }
pub open spec fn wrap_u8(x: int) -> int { x % 0x100 }
pub open spec fn wrap_u16(x: int) -> int { x % 0x1_0000 }
pub open spec fn wrap_i16(x: int) -> int { (x + 0x8000) % 0x1_0000 - 0x8000 }
pub open spec fn wrap_u32(x: int) -> int { x % 0x1_0000_0000 }
pub open spec fn wrap_u64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
pub open spec fn wrap_i8(x: int) -> int { (x + 0x80) % 0x100 - 0x80 }
pub open spec fn wrap_i32(x: int) -> int { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }
pub open spec fn wrap_i64(x: int) -> int { (x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 }
// C++ truncating division
pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
// assert(e) of the C++ source: an obligation
pub fn cassert(b: bool) requires b { }
// a throw where the contract allows none
pub fn no_throw_() requires false { }
pub fn unreached_<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
''')
    for t in W:
        a('pub fn arb_%s() -> (r: %s) { 0 }' % (t, t))
    a('pub fn arb_bool() -> (r: bool) { false }')
    for t in ('u32', 'u64'):
        w = W[t][0]; M = 1 << w
        h = 1 << (w // 2)
        a('pub fn add_%s(a: %s, b: %s) -> (r: %s) ensures a + b < %d ==> r == a + b, a + b >= %d ==> r == a + b - %d { a.wrapping_add(b) }' % (t, t, t, t, M, M, M))
        a('pub fn sub_%s(a: %s, b: %s) -> (r: %s) ensures a >= b ==> r == a - b, a < b ==> r == a - b + %d { a.wrapping_sub(b) }' % (t, t, t, t, M))
        a('pub fn neg_%s(a: %s) -> (r: %s) ensures a == 0 ==> r == 0, a > 0 ==> r == %d - a { (0%s).wrapping_sub(a) }' % (t, t, t, M, t))
        a('''pub fn mul_%s(a: %s, b: %s) -> (r: %s) ensures a as int * b as int == b as int * a as int, r as int == (a as int * b as int) %% %d, a as int * b as int < %d ==> r as int == a as int * b as int,
    a < %d && b < %d ==> r as int == a as int * b as int && a as int * b as int <= %d { proof { mul_pos(a as int, b as int); lemma_mul_is_commutative(a as int, b as int); if a < %d && b < %d { mul_le(a as int, %d, b as int, %d); } } a.wrapping_mul(b) }''' % (t, t, t, t, M, M, h, h, (h - 1) * (h - 1), h, h, h - 1, h - 1))
        a('pub fn div_%s(a: %s, b: %s) -> (r: %s) requires b != 0 ensures r as int == a as int / b as int, b as int * r as int <= a as int, (a as int) < b as int * r as int + b as int, r <= a { proof { lemma_div_bounds(a as int, b as int); } a / b }' % (t, t, t, t))
        a('pub fn rem_%s(a: %s, b: %s) -> (r: %s) requires b != 0 ensures r as int == a as int %% b as int, r < b, r <= a { proof { lemma_div_bounds(a as int, b as int); } a %% b }' % (t, t, t, t))
        a('pub fn not_%s(a: %s) -> (r: %s) ensures r == %d - a { proof { assert(!a == %d%s - a) by (bit_vector); } !a }' % (t, t, t, M - 1, M - 1, t))
        for n, op in (('and', '&'), ('or', '|'), ('xor', '^')):
            a('pub fn %s_%s(a: %s, b: %s) -> (r: %s) ensures r == a %s b, r == b %s a, %s { %s proof { assert(a %s b == b %s a) by (bit_vector); } a %s b }' % (n, t, t, t, t, op, op,
              {'and': 'r <= a, r <= b', 'or': 'r >= a, r >= b, (r == 0) == (a == 0 && b == 0)', 'xor': '(r == 0) == (a == b)'}[n],
              {'and': 'proof { assert(a & b <= a && a & b <= b) by (bit_vector); }', 'or': 'proof { assert(a | b >= a && a | b >= b && ((a | b == 0) == (a == 0 && b == 0))) by (bit_vector); }', 'xor': 'proof { assert((a ^ b == 0) == (a == b)) by (bit_vector); }'}[n], op, op, op))
        # variable shifts
        a('''pub fn shl_%(t)s(a: %(t)s, s: i32) -> (r: %(t)s) requires 0 <= s < %(w)d ensures r as int == (a as int * p2(s as int)) %% %(M)d, a as int * p2(s as int) < %(M)d ==> r as int == a as int * p2(s as int),
    r as int %% p2(s as int) == 0, r as int == (a as int %% p2(%(w)d - s as int)) * p2(s as int), r == a << s { proof { shl_facts_%(t)s(a, s as %(t)s); } a << s }
proof fn shl_facts_%(t)s(a: %(t)s, s: %(t)s) requires s < %(w)d ensures (a << s) as int == (a as int * p2(s as int)) %% %(M)d, a as int * p2(s as int) < %(M)d ==> (a << s) as int == a as int * p2(s as int), (a << s) as int %% p2(s as int) == 0, (a << s) as int == (a as int %% p2(%(w)d - s as int)) * p2(s as int)
{
    let S = p2(s as int); p2_pos(s as int); p2_32(); p2_add(32, 32); assert(p2(%(w)d) == %(M)d);
    if s == 0 { assert(a << s == a) by (bit_vector) requires s == 0; assert(a as int * 1 == a); floor_small(a as int, %(M)d); div_uniq(a as int, a as int, 1, 0); }
    else {
        let t = (%(w)d - s) as %(t)s; let P = p2(t as int); p2_pos(t as int); p2_add(t as int, s as int); p2_pow2(t as nat); p2_pow2(s as nat);
        vstd::bits::lemma_%(t)s_shr_is_div(a, t); let q = a >> t; div_eq(a as int, P); vstd::bits::lemma_%(t)s_shl_is_mul(q, t);
        let low = (a - (q << t)) as %(t)s; assert(a << s == low << s && q << t <= a) by (bit_vector) requires low == sub(a, q << t), q == a >> t, t == sub(%(w)d, s), 0 < s, s < %(w)d;
        assert(low as int == a as int %% P); let l = low as int; let A = a as int; let Q = q as int;
        assert(0 <= l * S < %(M)d) by (nonlinear_arith) requires 0 <= l < P, S >= 1, P * S == %(M)d;
        vstd::bits::lemma_%(t)s_shl_is_mul(low, s);
        assert(A * S == Q * %(M)d + l * S) by (nonlinear_arith) requires A == Q * P + l, P * S == %(M)d;
        div_uniq(A * S, Q, %(M)d, l * S); div_uniq(l * S, l, S, 0);
        if A * S < %(M)d { assert(Q == 0); }
    }
}
pub fn shr_%(t)s(a: %(t)s, s: i32) -> (r: %(t)s) requires 0 <= s < %(w)d ensures r as int == a as int / p2(s as int), r as int * p2(s as int) <= a, r == a >> s { proof { p2_pow2(s as nat); p2_pos(s as int); vstd::bits::lemma_%(t)s_shr_is_div(a, s as %(t)s); div_eq(a as int, p2(s as int)); } a >> s }
pub fn or_at_%(t)s(a: %(t)s, b: %(t)s, Ghost(s): Ghost<int>) -> (r: %(t)s) ensures r == a | b, a as int %% p2(s) == 0 && (b as int) < p2(s) && 0 <= s < %(w)d ==> r as int == a as int + b as int { proof { if a as int %% p2(s) == 0 && (b as int) < p2(s) && 0 <= s < %(w)d { %(os)s(a, b, s); } } a | b }''' % dict(t=t, w=w, M=M, os='or_sum' if w == 32 else 'or_sum64'))
    for t in ('i32', 'i64'):
        w = W[t][0]; lo, hi = rng(t)
        small = 1 << (w // 2)
        D = dict(t=t, u='u%d' % w, wd='i%d' % (2 * w), w=w, lo=lo, hi=hi, h=small >> 1, h1=(small >> 1) - 1, sm=small, M=1 << w, H=1 << (w - 1))
        a('''pub fn mul_%(t)s(a: %(t)s, b: %(t)s) -> (r: %(t)s) requires (-%(h)d < a < %(h)d && -%(sm)d <= b <= %(sm)d) || (%(lo)d <= a as int * b as int && a as int * b as int <= %(hi)d) ensures r as int == a as int * b as int
{ proof { let x = a as int; let y = b as int; if -%(h)d < x < %(h)d && -%(sm)d <= y <= %(sm)d { assert(-(%(h1)d * %(sm)d) <= x * y && x * y <= %(h1)d * %(sm)d) by (nonlinear_arith) requires -%(h)d < x < %(h)d, -%(sm)d <= y <= %(sm)d; } } a * b }
proof fn tdiv_facts_%(t)s(a: int, b: int) requires b != 0 ensures a >= 0 && b > 0 ==> tdiv(a, b) == a / b && trem(a, b) == a %% b, a >= 0 && b < 0 ==> tdiv(a, b) == -(a / (-b)) && trem(a, b) == a %% (-b), a < 0 && b > 0 ==> tdiv(a, b) == -((-a) / b) && trem(a, b) == -((-a) %% b), a < 0 && b < 0 ==> tdiv(a, b) == (-a) / (-b) && trem(a, b) == -((-a) %% (-b)),
    0 <= iabs(a) / iabs(b) <= iabs(a), iabs(b) >= 2 ==> 2 * (iabs(a) / iabs(b)) <= iabs(a), 0 <= iabs(a) %% iabs(b) <= iabs(a)
{
    let x = iabs(a); let y = iabs(b); lemma_div_bounds(x, y); let q = x / y; let r = x %% y; let t = if (a >= 0) == (b > 0) { q } else { -q };
    assert(y >= 2 ==> 2 * q <= x) by (nonlinear_arith) requires y * q <= x, q >= 0;
    assert(tdiv(a, b) == t); assert(b * t == (if a >= 0 { y * q } else { -(y * q) })) by (nonlinear_arith) requires (b == y && b > 0) || (b == -y && b < 0), t == (if (a >= 0) == (b > 0) { q } else { -q });
}
pub fn div_%(t)s(a: %(t)s, b: %(t)s) -> (r: %(t)s) requires b != 0, !(a == %(t)s::MIN && b == -1) ensures r as int == tdiv(a as int, b as int)
{ proof { tdiv_facts_%(t)s(a as int, b as int); } let x = if a >= 0 { a as %(u)s } else { (-(a as %(wd)s)) as %(u)s }; let y = if b >= 0 { b as %(u)s } else { (-(b as %(wd)s)) as %(u)s }; let q = x / y; assert(q as int == iabs(a as int) / iabs(b as int)); if (a >= 0) == (b > 0) { q as %(t)s } else { (-(q as %(wd)s)) as %(t)s } }
pub fn rem_%(t)s(a: %(t)s, b: %(t)s) -> (r: %(t)s) requires b != 0, !(a == %(t)s::MIN && b == -1) ensures r as int == trem(a as int, b as int)
{ proof { tdiv_facts_%(t)s(a as int, b as int); lemma_div_bounds(iabs(a as int), iabs(b as int)); } let x = if a >= 0 { a as %(u)s } else { (-(a as %(wd)s)) as %(u)s }; let y = if b >= 0 { b as %(u)s } else { (-(b as %(wd)s)) as %(u)s }; let q = x %% y; assert(q as int == iabs(a as int) %% iabs(b as int)); if a >= 0 { q as %(t)s } else { (-(q as %(wd)s)) as %(t)s } }''' % D)
        a('pub fn not_%s(a: %s) -> (r: %s) ensures r == -1 - a { -1 - a }' % (t, t, t))
        a('pub fn cabs_%s(a: %s) -> (r: %s) requires a > %s::MIN ensures r == if a < 0 { -a } else { a as int } { if a < 0 { -a } else { a } }' % (t, t, t, t))
        for n, op in (('and', '&'), ('or', '|'), ('xor', '^')):
            fact = {'and': '', 'or': '', 'xor': ', (r < 0) == ((a < 0) != (b < 0)), (r == 0) == (a == b)'}[n]
            hx = '0x%xu%d' % (1 << (w - 1), w); pf = 'proof { assert(((x ^ y) >= %s) == ((x >= %s) != (y >= %s)) && ((x ^ y) == 0) == (x == y)) by (bit_vector); }' % (hx, hx, hx) if n == 'xor' else ''
            a('pub fn %s_%s(a: %s, b: %s) -> (r: %s) ensures wrap_u%d(r as int) == ((wrap_u%d(a as int) as u%d) %s (wrap_u%d(b as int) as u%d)) as int, wrap_u%d(r as int) == ((wrap_u%d(b as int) as u%d) %s (wrap_u%d(a as int) as u%d)) as int%s { let x = cast_%s_u%d(a); let y = cast_%s_u%d(b); let r = x %s y; proof { assert(x %s y == y %s x) by (bit_vector); } %s cast_u%d_%s(r) }' % (n, t, t, t, t, w, w, w, op, w, w, w, w, w, op, w, w, fact, t, w, t, w, op, op, op, pf, w, t))
        a('''pub fn sar_%(t)s(a: %(t)s, s: i32) -> (r: %(t)s) requires 0 <= s < %(w)d ensures r as int == (a as int) / p2(s as int)
{ proof { let p = p2(s as int); p2_pos(s as int); let x = a as int; let y = -1 - x; div_eq(x, p); div_eq(y, p); if x < 0 { let q = y / p; let e = y %% p; assert(x == (-1 - q) * p + (p - 1 - e)) by (nonlinear_arith) requires -1 - x == q * p + e; div_uniq(x, -1 - q, p, p - 1 - e); lemma_div_bounds(y, p); } else { lemma_div_bounds(x, p); } }
  if a >= 0 { shr_%(u)s(a as %(u)s, s) as %(t)s } else { -1 - (shr_%(u)s((-1 - a) as %(u)s, s) as %(t)s) } }
pub fn shl_%(t)s(a: %(t)s, s: i32) -> (r: %(t)s) requires 0 <= s < %(w)d, a >= 0, a as int * p2(s as int) <= %(t)s::MAX ensures r as int == a as int * p2(s as int) { proof { p2_pos(s as int); mul_pos(a as int, p2(s as int)); } shl_%(u)s(a as %(u)s, s) as %(t)s }''' % D)
    for t, w in (('u32', 32), ('u64', 64)):
        a('''pub fn bclz_%s(a: %s) -> (r: i32) requires a != 0 ensures 0 <= r < %d, p2(%d - r) <= a, a < p2(%d - r), p2(%d) <= a * p2(r as int), a * p2(r as int) < p2(%d)
{ let mut r: i32 = 0; let mut x: %s = a; proof { p2_32(); p2_add(32, 32); p2_add(31, 32); }
  while x < %s invariant 0 <= r < %d, x == a * p2(r as int), x >= 1, p2(%d) == %s, p2(%d) == %s, a * p2(r as int) >= p2(r as int) decreases %d - r
  { proof { p2_add(r as int, 1); p2_32(); assoc(a as int, p2(r as int), 2); assert(a * p2(r + 1) >= p2(r + 1)) by (nonlinear_arith) requires a * p2(r as int) >= p2(r as int), p2(r + 1) == 2 * p2(r as int); if r >= %d { p2_mono(%d, r as int); } } x = x * 2; r = r + 1; }
  proof { p2_add(%d - r, r as int); p2_add(%d - r, r as int); p2_pos(r as int); let q = p2(r as int); assert(p2(%d - r) <= a) by (nonlinear_arith) requires p2(%d - r) * q == p2(%d), a * q >= p2(%d), q >= 1; assert(a < p2(%d - r)) by (nonlinear_arith) requires p2(%d - r) * q == p2(%d), a * q < p2(%d), q >= 1; }
  r }''' % (t, t, w, w - 1, w, w - 1, w, t, hex(1 << (w - 1)), w, w - 1, hex(1 << (w - 1)) + 'int', w, hex(1 << w) + 'int', w, w - 1, w - 1, w - 1, w, w - 1, w - 1, w - 1, w - 1, w, w, w, w))
    for t in ('u32', 'u64', 'i32', 'i64'):
        a('pub fn cmax_%s(a: %s, b: %s) -> (r: %s) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }' % (t, t, t, t))
        a('pub fn cmin_%s(a: %s, b: %s) -> (r: %s) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }' % (t, t, t, t))
    for f in W:
        for t in W:
            (w1, s1), (w2, s2) = W[f], W[t]
            if f == t or (w2 > w1 and (not s1 or s2)): continue
            lo, hi = rng(t); flo, fhi = rng(f)
            e = ['r as int == wrap_%s(a as int)' % t, '%d <= a && a <= %d ==> r == a' % (max(lo, flo), min(hi, fhi))]
            if w1 == w2:
                M = 1 << w1
                e.append(('a > %d ==> r == a - %d' % (hi, M)) if s2 else ('a < 0 ==> r == a + %d' % M))
            a('pub fn cast_%s_%s(a: %s) -> (r: %s) ensures %s { %s }' % (f, t, f, t, ', '.join(e), '((a as i128 + %d) %% %d) as %s' % (1 << 64, 1 << w2, t) if not s2 else '((a as i128 + %d) %% %d - %d) as %s' % ((1 << 64) + (1 << (w2 - 1)), 1 << w2, 1 << (w2 - 1), t)))
    for e in ('u32', 'u8', 'i8', 'i64'):
        V = 'Vec<%s>' % e
        a('''pub fn vsize_%(e)s(v: &%(V)s) -> (r: u64) ensures r == v@.len() { v.len() as u64 }
pub fn vempty_%(e)s(v: &%(V)s) -> (r: bool) ensures r == (v@.len() == 0) { v.len() == 0 }
pub fn vget_%(e)s(v: &%(V)s, i: u64) -> (r: %(e)s) requires i < v@.len() ensures r == v@[i as int] { v[i as usize] }
pub fn vset_%(e)s(v: &mut %(V)s, i: u64, x: %(e)s) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { v.set(i as usize, x); }
pub fn vback_%(e)s(v: &%(V)s) -> (r: %(e)s) requires 0 < v@.len() ensures r == v@[v@.len() - 1] { v[v.len() - 1] }
pub fn vec_empty_%(e)s() -> (r: %(V)s) ensures r@ == Seq::<%(e)s>::empty() { Vec::new() }
pub fn vec_of1_%(e)s(a: %(e)s) -> (r: %(V)s) ensures r@ == Seq::<%(e)s>::empty().push(a) { let mut v = Vec::new(); v.push(a); v }
pub fn vec_of2_%(e)s(a: %(e)s, b: %(e)s) -> (r: %(V)s) ensures r@ == Seq::<%(e)s>::empty().push(a).push(b) { let mut v = Vec::new(); v.push(a); v.push(b); v }
pub fn vec_new_%(e)s(n: u64) -> (r: %(V)s) requires n <= 0x1fff_ffff_ffff_ffff ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == 0 { vec_fill_new_%(e)s(n, 0) }
pub fn vec_fill_new_%(e)s(n: u64, x: %(e)s) -> (r: %(V)s) requires n <= 0x1fff_ffff_ffff_ffff ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == x
{ let mut r = Vec::new(); let mut i = 0u64; while i < n invariant i <= n, r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == x decreases n - i { r.push(x); i = i + 1; } r }
pub fn vec_range_%(e)s(v: &%(V)s, f: i64, l: i64) -> (r: %(V)s) requires 0 <= f <= l <= v@.len() ensures r@ == v@.subrange(f as int, l as int)
{ let mut r = Vec::new(); let mut i = f; while i < l invariant 0 <= f <= i <= l <= v@.len(), r@ == v@.subrange(f as int, i as int) decreases l - i { r.push(v[i as usize]); i = i + 1; } r }
pub fn vec_ptrlen_%(e)s(v: &%(V)s, f: i64, n: u64) -> (r: %(V)s) requires 0 <= f, f + n <= v@.len() ensures r@ == v@.subrange(f as int, f + n)
{ let mut r = Vec::new(); let mut i = 0u64; while i < n invariant 0 <= f, i <= n, f + n <= v@.len(), r@ == v@.subrange(f as int, f + i) decreases n - i { let vlen = v.len(); r.push(v[(f as u64 + i) as usize]); i = i + 1; } r }
pub fn vfill_%(e)s(v: &mut %(V)s, f: i64, l: i64, x: %(e)s) requires 0 <= f <= l <= old(v)@.len() ensures final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == (if f <= k < l { x } else { old(v)@[k] })
{ let ghost v0 = v@; let mut i = f; while i < l invariant 0 <= f <= i <= l <= v@.len(), v@.len() == v0.len(), forall|k: int| 0 <= k < v0.len() ==> #[trigger] v@[k] == (if f <= k < i { x } else { v0[k] }) decreases l - i { v.set(i as usize, x); i = i + 1; } }
pub fn vcopy_%(e)s(s: &%(V)s, f: i64, l: i64, d: &mut %(V)s, o: i64) requires 0 <= f <= l <= s@.len(), 0 <= o, o + (l - f) <= old(d)@.len() ensures final(d)@.len() == old(d)@.len(), forall|k: int| 0 <= k < old(d)@.len() ==> #[trigger] final(d)@[k] == (if o <= k < o + (l - f) { s@[f + (k - o)] } else { old(d)@[k] })
{ let ghost d0 = d@; let mut i = f; while i < l invariant 0 <= f <= i <= l <= s@.len(), 0 <= o, d@.len() == d0.len(), o + (l - f) <= d0.len(), forall|k: int| 0 <= k < d0.len() ==> #[trigger] d@[k] == (if o <= k < o + (i - f) { s@[f + (k - o)] } else { d0[k] }) decreases l - i { let dl = d.len(); d.set((o as u64 + (i - f) as u64) as usize, s[i as usize]); i = i + 1; } }
pub fn vclear_%(e)s(v: &mut %(V)s) ensures final(v)@ == Seq::<%(e)s>::empty() { *v = Vec::new(); }
pub fn vpush_%(e)s(v: &mut %(V)s, x: %(e)s) ensures final(v)@ == old(v)@.push(x) { v.push(x); }
pub fn vpop_%(e)s(v: &mut %(V)s) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.subrange(0, old(v)@.len() - 1) { v.pop(); }
pub fn vresize_%(e)s(v: &mut %(V)s, n: u64, x: %(e)s) requires n <= 0x1fff_ffff_ffff_ffff ensures final(v)@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] final(v)@[k] == (if k < old(v)@.len() { old(v)@[k] } else { x })
{ let ghost v0 = v@; if v.len() as u64 > n { v.truncate(n as usize); } else { while (v.len() as u64) < n invariant v0.len() <= v@.len() <= n, forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == (if k < v0.len() { v0[k] } else { x }) decreases n - v@.len() { v.push(x); } } }
pub fn vswap_%(e)s(a: &mut %(V)s, b: &mut %(V)s) ensures final(a)@ == old(b)@, final(b)@ == old(a)@ { core::mem::swap(a, b); }
pub fn vec_eq_%(e)s(a: &%(V)s, b: &%(V)s) -> (r: bool) ensures r == (a@ == b@)
{ if a.len() != b.len() { return false; } let mut i = 0usize; while i < a.len() invariant i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k] decreases a@.len() - i { if a[i] != b[i] { return false; } i = i + 1; } assert(a@ =~= b@); true }
pub fn clone_vec_%(e)s(a: &%(V)s) -> (r: %(V)s) ensures r@ == a@ { a.clone() }
// raw pointers: offset into a container; element access is in bounds, pointer arithmetic stays within [begin, end]
pub fn pld_%(e)s(v: &%(V)s, o: i64, i: i64) -> (r: %(e)s) requires 0 <= o + i < v@.len() ensures r == v@[o + i] { let vlen = v.len(); v[(o as i128 + i as i128) as usize] }
pub fn pst_%(e)s(v: &mut %(V)s, o: i64, i: i64, x: %(e)s) requires 0 <= o + i < old(v)@.len() ensures final(v)@ == old(v)@.update(o + i, x) { let vlen = v.len(); v.set((o as i128 + i as i128) as usize, x); }
pub fn padd_%(e)s(v: &%(V)s, o: i64, i: i64) -> (r: i64) requires 0 <= o + i <= v@.len() ensures r == o + i { proof { vlen_max(v); } (o as i128 + i as i128) as i64 }
pub fn paddr_%(e)s(v: &%(V)s, i: u64) -> (r: i64) requires i < v@.len() ensures r == i { proof { vlen_max(v); } i as i64 }
pub fn pend_%(e)s(v: &%(V)s) -> (r: i64) ensures r == v@.len() { proof { vlen_max(v); } v.len() as i64 }
pub fn new_array_%(e)s(n: u64) -> (r: %(V)s) requires n <= 0x1fff_ffff_ffff_ffff ensures r@.len() == n { vec_new_%(e)s(n) }''' % dict(e=e, V=V))
    for t in W:
        lo, hi = rng(t)
        a('#[verifier::external_body] pub fn pyint_cast_%s(x: PyInt) -> (r: Result<%s, Exc>) ensures r matches Ok(y) ==> y == x.v@, r is Err ==> !(%d <= x.v@ <= %d) { unimplemented!() }' % (t, t, lo, hi))
    a('''// no container has more elements than its max_size() (trusted)
pub axiom fn vlen_max<T>(v: &Vec<T>) ensures v@.len() <= 0x7fff_ffff_ffff_ffff;''')
    a('''// std::string::operator[] const may read the terminating zero
pub fn sget(v: &Vec<i8>, i: u64) -> (r: i8) requires i <= v@.len() ensures i < v@.len() ==> r == v@[i as int], i == v@.len() ==> r == 0 { if (i as usize) < v.len() { v[i as usize] } else { 0 } }
// std::to_string(int)
pub fn to_string_i32(x: i32) -> (r: Vec<i8>) ensures r@ == dec_int(x as int) { if x < 0 { let mut s = Vec::new(); s.push(45i8); let d = to_string_nat((-(x as i64)) as u32); let mut i = 0usize; while i < d.len() invariant i <= d@.len(), s@ == Seq::<i8>::empty().push(45i8) + d@.subrange(0, i as int) decreases d@.len() - i { s.push(d[i]); i = i + 1; assert(s@ =~= Seq::<i8>::empty().push(45i8) + d@.subrange(0, i as int)); } assert(d@.subrange(0, d@.len() as int) =~= d@); s } else { to_string_nat(x as u32) } }
fn to_string_nat(x: u32) -> (r: Vec<i8>) ensures r@ == dec_nat(x as int) decreases x { if x < 10 { vec_of1_i8((x + 48) as i8) } else { let mut s = to_string_nat(x / 10); s.push((x % 10 + 48) as i8); s } }
pub fn f64_bits_i64(x: F64) -> (r: i64) ensures r as int == wrap_i64(x.bits as int) { cast_u64_i64(x.bits) }
// int -> double is exact; unary minus flips the sign bit
#[verifier::external_body] pub fn i32_to_f64(x: i32) -> (r: F64) ensures dbl_is(r.bits as int, x as int), int_fl(r.bits as int, x as int) { unimplemented!() }
#[verifier::external_body] pub fn u32_to_f64(x: u32) -> (r: F64) ensures dbl_is(r.bits as int, x as int), int_fl(r.bits as int, x as int) { unimplemented!() }
#[verifier::external_body] pub fn i64_to_f64(x: i64) -> (r: F64) ensures int_fl(r.bits as int, x as int) { unimplemented!() }
#[verifier::external_body] pub fn u64_to_f64(x: u64) -> (r: F64) ensures int_fl(r.bits as int, x as int) { unimplemented!() }
// the value of a float is not specified
pub fn f64_to_f32(x: F64) -> (r: F32) { F32 { bits: 0 } }
// libm and IEEE operations: special cases exactly, otherwise within one unit in the last place
pub fn libm_nan() -> (r: F64) ensures fnan(r.bits as int) { F64 { bits: 0x7FF8_0000_0000_0000 } }
fn fzero_(x: F64) -> (r: bool) ensures r == fzero(x.bits as int) { x.bits / 0x10_0000_0000_0000 % 2048 == 0 && x.bits % 0x10_0000_0000_0000 == 0 }
pub fn libm_isnan(x: F64) -> (r: bool) ensures r == fnan(x.bits as int) { x.bits / 0x10_0000_0000_0000 % 2048 == 2047 && x.bits % 0x10_0000_0000_0000 != 0 }
pub fn f64_eq(a: F64, b: F64) -> (r: bool) ensures r == feq(a.bits as int, b.bits as int) { !libm_isnan(a) && !libm_isnan(b) && (a.bits == b.bits || (fzero_(a) && fzero_(b))) }
pub fn f64_ne(a: F64, b: F64) -> (r: bool) ensures r == !feq(a.bits as int, b.bits as int) { !f64_eq(a, b) }
#[verifier::external_body] pub fn libm_log(x: F64) -> (r: F64) ensures fl_log(r.bits as int, x.bits as int) { unimplemented!() }
#[verifier::external_body] pub fn fdiv(a: F64, b: F64) -> (r: F64) ensures fl_div(r.bits as int, a.bits as int, b.bits as int) { unimplemented!() }
#[verifier::external_body] pub fn fadd(a: F64, b: F64) -> (r: F64) ensures fl_add(r.bits as int, a.bits as int, b.bits as int) { unimplemented!() }
// ---- Python integers: CPython's int object is immutable and stands for one mathematical integer
#[derive(Clone, Copy)] pub struct PyInt { pub v: Ghost<int> }
// a Python tuple of two integers (Python ints or BigIntegers)
pub struct PyTup { pub a: Ghost<int>, pub b: Ghost<int> }
pub fn arb_exc() -> (r: Exc) { Exc::Other }
#[verifier::external_body] pub fn pyint_of(x: i64) -> (r: PyInt) ensures r.v@ == x { unimplemented!() }
#[verifier::external_body] pub fn pyint_lt(a: PyInt, b: PyInt) -> (r: bool) ensures r == (a.v@ < b.v@) { unimplemented!() }
#[verifier::external_body] pub fn pyint_le(a: PyInt, b: PyInt) -> (r: bool) ensures r == (a.v@ <= b.v@) { unimplemented!() }
#[verifier::external_body] pub fn pyint_gt(a: PyInt, b: PyInt) -> (r: bool) ensures r == (a.v@ > b.v@) { unimplemented!() }
#[verifier::external_body] pub fn pyint_ge(a: PyInt, b: PyInt) -> (r: bool) ensures r == (a.v@ >= b.v@) { unimplemented!() }
#[verifier::external_body] pub fn pyint_eq(a: PyInt, b: PyInt) -> (r: bool) ensures r == (a.v@ == b.v@) { unimplemented!() }
#[verifier::external_body] pub fn pyint_ne(a: PyInt, b: PyInt) -> (r: bool) ensures r == (a.v@ != b.v@) { unimplemented!() }
// identity of objects: the same object has the same value
#[verifier::external_body] pub fn pyint_is(a: PyInt, b: PyInt) -> (r: bool) ensures r ==> a.v@ == b.v@ { unimplemented!() }
// pybind11: (int) PyLong_AsLong(x)
#[verifier::external_body] pub fn pyint_to_i32(x: PyInt) -> (r: i32) ensures -0x8000_0000_0000_0000 <= x.v@ <= 0x7fff_ffff_ffff_ffff ==> r as int == wrap_i32(x.v@) { unimplemented!() }
#[verifier::external_body] pub fn pyint_of_str(s: &Vec<i8>) -> (r: PyInt) ensures forall|x: int| s@ == #[trigger] dec_int(x) ==> r.v@ == x { unimplemented!() }
#[verifier::external_body] pub fn pylong_numbits(x: PyInt) -> (r: u64) requires iabs(x.v@) < p2(0x4000_0000_0000) ensures nbits(x.v@, r as int) { unimplemented!() }
#[verifier::external_body] pub fn pylong_as(x: PyInt, b: &mut Vec<u8>, o: i64, n: u64, little: i32, signed: i32) -> (r: i32) requires 0 <= o, o + n <= old(b)@.len()
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() && !(o <= k < o + n) ==> #[trigger] final(b)@[k] == old(b)@[k],
        signed == 0 ==> (r == 0) == inr(x.v@, n as int, true), signed != 0 ==> (r == 0) == (n >= 1 && inr(x.v@, n as int, false) || x.v@ == 0), r <= 0,
        r == 0 ==> bytes_upto(final(b)@.subrange(o as int, o + n), x.v@, little == 0, n as int) { unimplemented!() }
#[verifier::external_body] pub fn pylong_from(b: &Vec<u8>, o: i64, n: u64, little: i32, signed: i32) -> (r: PyInt) requires 0 <= o, o + n <= b@.len() ensures r.v@ == bytes_val(b@.subrange(o as int, o + n), signed == 0, little == 0) { unimplemented!() }
pub fn clone_PyTup(a: &PyTup) -> (r: PyTup) ensures r == *a { PyTup { a: Ghost(a.a@), b: Ghost(a.b@) } }
#[verifier::external_body] pub fn pytup_BB(a: &BigInteger, b: &BigInteger) -> (r: PyTup) ensures r.a@ == bi(*a), r.b@ == bi(*b) { unimplemented!() }
#[verifier::external_body] pub fn pytup_JJ(a: &PyInt, b: &PyInt) -> (r: PyTup) ensures r.a@ == a.v@, r.b@ == b.v@ { unimplemented!() }
// hash() of the integer x
pub uninterp spec fn py_hash(x: int) -> int;
#[verifier::external_body] pub fn pyint_hash(x: PyInt) -> (r: Result<i64, Exc>) ensures r matches Ok(h) && h as int == py_hash(x.v@) { unimplemented!() }
#[derive(Clone, Copy)] pub struct PyFlt { pub v: Ghost<int> }
// float(x): too large a number raises OverflowError
#[verifier::external_body] pub fn pyfloat_of(x: PyInt) -> (r: Result<PyFlt, Exc>) ensures r matches Ok(y) ==> y.v@ == x.v@, r is Err ==> iabs(x.v@) >= p2(1023) { unimplemented!() }
// the bytes of a string, and the string of a range of bytes
pub open spec fn str_bytes(s: Seq<i8>) -> Seq<u8> { Seq::new(s.len(), |k: int| wrap_u8(s[k] as int) as u8) }
pub fn vec_range_u8_i8(v: &Vec<u8>, f: i64, l: i64) -> (r: Vec<i8>) requires 0 <= f <= l <= v@.len() ensures str_bytes(r@) == v@.subrange(f as int, l as int), f == 0 && l == v@.len() ==> str_bytes(r@) == v@
{ let mut r = Vec::new(); let mut i = f; while i < l invariant 0 <= f <= i <= l <= v@.len(), r@.len() == i - f, forall|k: int| 0 <= k < i - f ==> #[trigger] r@[k] == wrap_i8(v@[f + k] as int) decreases l - i { r.push(cast_u8_i8(v[i as usize])); i = i + 1; }
  proof { let b = str_bytes(r@); assert(b =~= v@.subrange(f as int, l as int)); if f == 0 && l == v@.len() { assert(b =~= v@); } } r }
pub fn pybytes_of(s: &Vec<i8>) -> (r: Vec<u8>) ensures r@ == str_bytes(s@)
{ let mut r = Vec::new(); let mut i = 0; while i < s.len() invariant 0 <= i <= s@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == wrap_u8(s@[k] as int) decreases s@.len() - i { r.push(cast_i8_u8(s[i])); i = i + 1; } assert(r@ =~= str_bytes(s@)); r }
// an object with the buffer protocol: whether it grants a view, its element format, number of dimensions and, where these are "B" and 1, its elements
#[derive(Clone, Copy)] pub struct PyBuf { pub ok: Ghost<bool>, pub fmt: Ghost<Seq<i8>>, pub ndim: Ghost<int>, pub bytes: Ghost<Seq<u8>> }
// a view of it: ptr is the place `off` in the exporter's memory, and one-dimensional element i lies at ptr + i * strides[0]
pub struct PyInfo { pub format: Vec<i8>, pub ndim: i64, pub size: i64, pub itemsize: i64, pub shape: Vec<i64>, pub strides: Vec<i64>, pub mem: Vec<u8>, pub off: i64 }
pub open spec fn fmt_u8() -> Seq<i8> { seq![66i8] }
pub fn pyfmt_u8() -> (r: Vec<i8>) ensures r@ == fmt_u8() { let mut v = Vec::new(); v.push(66i8); assert(v@ =~= fmt_u8()); v }
#[verifier::external_body] pub fn pybuf_request(b: PyBuf) -> (r: Result<PyInfo, Exc>) ensures r matches Ok(i) ==> i.format@ == b.fmt@ && i.ndim == b.ndim@ && i.strides@.len() == i.ndim && i.shape@.len() == i.ndim && i.size >= 0
    && (b.fmt@ == fmt_u8() && i.ndim == 1 ==> i.itemsize == 1 && i.size == b.bytes@.len() && i.shape@[0] == i.size && i.mem@.len() <= i64::MAX && 0 <= i.off <= i.mem@.len()
        && forall|k: int| 0 <= k < i.size ==> 0 <= i.off + #[trigger] (k * i.strides@[0]) < i.mem@.len() && i.mem@[i.off + k * i.strides@[0]] == b.bytes@[k]), r is Err ==> !b.ok@ { unimplemented!() }
// double -> unsigned long of a non-negative integer-valued double
#[verifier::external_body] pub fn f64_to_u64(x: F64) -> (r: u64) requires ffin(x.bits as int), 0real <= fr(x.bits as int) < 18446744073709551616real ensures is_floor(r as int, fr(x.bits as int)) { unimplemented!() }
pub fn f64_neg(x: F64) -> (r: F64) ensures r.bits == x.bits ^ 0x8000_0000_0000_0000u64 { F64 { bits: x.bits ^ 0x8000_0000_0000_0000u64 } }
''')
    return fixlt('\n'.join(o))

def fixlt(s):
    return re.sub(r'\b(\w+) as (\w+) <', r'(\1 as \2) <', s)

def structs(records):
    import cxx2verus as c
    o = []
    for s in ('BigInteger', 'BitsBuffer', 'FastReducer'):
        fs = records[s]
        o.append('pub struct %s { %s }' % (s, ', '.join('pub %s: %s' % (n, c.rt(t)) for n, t, _ in fs)))
        ens = ', '.join(('r.%s@ == a.%s@' if t in c.ELEM else 'r.%s == a.%s') % (n, n) for n, t, _ in fs)
        b = ', '.join('%s: %s' % (n, 'clone_vec_%s(&a.%s)' % (c.ELEM[t], n) if t in c.ELEM else 'a.%s' % n) for n, t, _ in fs)
        o.append('pub fn clone_%s(a: &%s) -> (r: %s) ensures %s { %s { %s } }' % (s, s, s, ens, s, b))
    for t, e in (('VecU32', 'u32'), ('VecU8', 'u8'), ('Str', 'i8'), ('VecI64', 'i64')):
        o.append('pub fn clone_%s(a: &Vec<%s>) -> (r: Vec<%s>) ensures r@ == a@ { clone_vec_%s(a) }' % (t, e, e, e))
    o.append('pub fn clone_PyBytes(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { clone_vec_u8(a) }')
    o.append('pub fn clone_DoubleULong(a: &DoubleULong) -> (r: DoubleULong) ensures r.uu == a.uu { DoubleULong { uu: a.uu } }')
    return '\n'.join(o)
