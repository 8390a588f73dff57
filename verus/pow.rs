// ---- powers
pub open spec fn ipow(b: int, e: int) -> int decreases e { if e <= 0 { 1 } else { b * ipow(b, e - 1) } }
// the size bound that pow_bound computes
pub open spec fn pb(p: int, vl: int, rl: int) -> int decreases p { if p <= 0 { rl } else { pb(p / 2, if p == 1 { vl } else { vl + vl }, if p % 2 == 1 { rl + vl } else { rl }) } }
pub open spec fn bbok(x: BitsBuffer) -> bool { 0 <= x._length <= x._bits@.len() <= 0x7fff_ffff && zeros(x._bits@, x._length as int, x._bits@.len() as int) && (x._length > 0 ==> x._bits@[x._length - 1] != 0) }
pub open spec fn bv(x: BitsBuffer) -> int { val(x._bits@) }
pub open spec fn allz(x: BitsBuffer) -> bool { zeros(x._bits@, 0, x._bits@.len() as int) }
pub proof fn ipow_add(b: int, m: int, n: int) requires m >= 0, n >= 0 ensures ipow(b, m + n) == ipow(b, m) * ipow(b, n) decreases m
{ if m > 0 { ipow_add(b, m - 1, n); assoc(b, ipow(b, m - 1), ipow(b, n)); assert(ipow(b, m + n) == b * ipow(b, m + n - 1)); } else { assert(1 * ipow(b, n) == ipow(b, n)); } }
pub proof fn ipow_sq(b: int, n: int) requires n >= 0 ensures ipow(b * b, n) == ipow(b, 2 * n) decreases n
{ if n > 0 { ipow_sq(b, n - 1); let x = ipow(b, 2 * n - 2); assert(ipow(b, 2 * n) == b * ipow(b, 2 * n - 1) && ipow(b, 2 * n - 1) == b * ipow(b, 2 * n - 2)); assoc(b, b, x); } }
pub proof fn ipow_1(b: int) ensures ipow(b, 1) == b, ipow(b, 0) == 1 { reveal_with_fuel(ipow, 3); assert(b * 1 == b); }
// one step of square and multiply; r * v^p stays the same
pub proof fn pow_step(r: int, v: int, p: int) requires p >= 1
    ensures p % 2 == 1 ==> r * ipow(v, p) == (r * v) * ipow(v * v, p / 2), p % 2 == 0 ==> r * ipow(v, p) == r * ipow(v * v, p / 2), p == 1 ==> ipow(v, p) == v, p == 1 ==> r * ipow(v, p) == r * v
{
    let h = p / 2; ipow_sq(v, h); ipow_1(v);
    if p % 2 == 1 { assert(p == 2 * h + 1); assert(ipow(v, p) == v * ipow(v, 2 * h)); assoc(r, v, ipow(v, 2 * h)); }
}
pub proof fn pb_ge(p: int, vl: int, rl: int) requires vl >= 0, rl >= 0 ensures pb(p, vl, rl) >= rl, p >= 1 ==> pb(p, vl, rl) >= rl + vl, p >= 2 ==> pb(p, vl, rl) >= rl + 2 * vl, p >= 2 && p % 2 == 1 ==> pb(p, vl, rl) >= rl + 3 * vl decreases p
{ if p >= 1 { pb_ge(p / 2, if p == 1 { vl } else { vl + vl }, if p % 2 == 1 { rl + vl } else { rl }); } }
pub proof fn pb_mono(p: int, vl: int, rl: int, v2: int, r2: int) requires 0 <= vl <= v2, 0 <= rl <= r2 ensures pb(p, vl, rl) <= pb(p, v2, r2) decreases p
{ if p >= 1 { pb_mono(p / 2, if p == 1 { vl } else { vl + vl }, if p % 2 == 1 { rl + vl } else { rl }, if p == 1 { v2 } else { v2 + v2 }, if p % 2 == 1 { r2 + v2 } else { r2 }); } }
pub proof fn ipow_neg(b: int, e: int) requires e >= 0 ensures ipow(-b, e) == (if e % 2 == 1 { -ipow(b, e) } else { ipow(b, e) }) decreases e
{ if e > 0 { ipow_neg(b, e - 1); let x = ipow(b, e - 1); assert(-b * -x == b * x && -b * x == -(b * x)) by (nonlinear_arith); } }
pub proof fn ipow_pos(b: int, e: int) requires b >= 0 ensures ipow(b, e) >= 0, b >= 1 ==> ipow(b, e) >= 1 decreases e { if e > 0 { ipow_pos(b, e - 1); let x = ipow(b, e - 1); mul_pos(b, x); if b >= 1 { assert(b * x >= 1) by (nonlinear_arith) requires b >= 1, x >= 1; } } }
pub proof fn ipow_01(e: int) requires e >= 1 ensures ipow(0, e) == 0, ipow(1, e) == 1 decreases e { if e > 1 { ipow_01(e - 1); } else { ipow_1(0); ipow_1(1); } }

pub proof fn bv_pv(x: BitsBuffer) requires bbok(x) ensures bv(x) == pv(x._bits@, 0, x._length as int), bv(x) >= 0
{ pv_top0(x._bits@, 0, x._bits@.len() as int, x._length as int); pv_bound(x._bits@, 0, x._length as int); }
// t holds the value in its first l limbs and is zero above
pub proof fn pv_val(s: Seq<u32>, l: int) requires 0 <= l <= s.len(), zeros(s, l, s.len() as int) ensures val(s) == pv(s, 0, l)
{ pv_top0(s, 0, s.len() as int, l); }
