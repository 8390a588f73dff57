// one step of the shifted product row: z*p2 + ...
pub proof fn row_step(p: int, pi: int, pj: int, d: int, z: int, c: int, a: int, b: int, c2: int) requires z + c + a * b == d + c2 * B, p == pi * pj
    ensures (d - z) * p + c2 * (B * p) == c * p + (a * pj) * b * pi
{ assert((d - z) * p + c2 * (B * p) == c * p + (a * b) * p) by (nonlinear_arith) requires z + c + a * b == d + c2 * B; assert((a * b) * (pi * pj) == (a * pj) * b * pi) by (nonlinear_arith); }
pub proof fn row_acc(x: int, a: int, b: int, pi: int) ensures (x + a) * b * pi == x * b * pi + a * b * pi { assert((x + a) * b * pi == x * b * pi + a * b * pi) by (nonlinear_arith); }
pub proof fn row_end(x: int, y: int, b: int, pi: int) ensures x * (y + b * pi) == x * y + x * b * pi { assert(x * (y + b * pi) == x * y + x * b * pi) by (nonlinear_arith); }
pub proof fn u32prod(a: int, b: int) requires 0 <= a < B, 0 <= b < B ensures 0 <= a * b <= (B - 1) * (B - 1), a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); mul_le(a, B - 1, b, B - 1); }

// squaring: digit1 + 2*digit2 split into a limb and a carry without a 65th bit
pub proof fn sq_step(d1: int, d2: int, lo: int, c2: int)
    requires 0 <= d1, 0 <= d2, c2 == (d2 + d1 / 2) / 0x8000_0000, lo == (d1 + 2 * d2) % B ensures d1 + 2 * d2 == lo + c2 * B
{ let s = d1 + 2 * d2; assert(s / 2 == d2 + d1 / 2); assert((s / 2) / 0x8000_0000 == s / 0x1_0000_0000); }
pub proof fn sq_row(p: int, pi: int, pj: int, d: int, z: int, c: int, a: int, b: int, c2: int) requires z + c + 2 * (a * b) == d + c2 * B, p == pi * pj
    ensures (d - z) * p + c2 * (B * p) == c * p + 2 * ((a * pj) * b * pi)
{ assert((d - z) * p + c2 * (B * p) == c * p + 2 * (a * b) * p) by (nonlinear_arith) requires z + c + 2 * (a * b) == d + c2 * B; assert(2 * (a * b) * (pi * pj) == 2 * ((a * pj) * b * pi)) by (nonlinear_arith); }
// (v + a p)^2 with the low part already in place
pub proof fn sq_end(v: int, a: int, p: int, c: int, lo: int, hi: int, z: int, z0: int)
    requires a * a + c == lo + hi * B, z + c * (p * p) == z0 + 2 * (v * a * p), z0 == v * v
    ensures z + lo * (p * p) + hi * (B * (p * p)) == (v + a * p) * (v + a * p)
{ assert((a * a + c) * (p * p) == lo * (p * p) + hi * (B * (p * p))) by (nonlinear_arith) requires a * a + c == lo + hi * B;
  assert((v + a * p) * (v + a * p) == v * v + 2 * (v * a * p) + (a * a) * (p * p)) by (nonlinear_arith);
  assert((a * a + c) * (p * p) == (a * a) * (p * p) + c * (p * p)) by (nonlinear_arith); }

// Karatsuba
pub proof fn kara(a0: int, a1: int, b0: int, b1: int, x: int)
    ensures (a0 + a1) * (b0 + b1) - a1 * b1 - a0 * b0 == a0 * b1 + a1 * b0, (a0 + x * a1) * (b0 + x * b1) == a0 * b0 + x * (a0 * b1 + a1 * b0) + (x * x) * (a1 * b1)
{ assert((a0 + a1) * (b0 + b1) - a1 * b1 - a0 * b0 == a0 * b1 + a1 * b0) by (nonlinear_arith);
  let u = x * a1; let w = x * b1;
  assert((a0 + u) * (b0 + w) == a0 * b0 + a0 * w + u * b0 + u * w) by (nonlinear_arith);
  assert(a0 * (x * b1) == x * (a0 * b1)) by (nonlinear_arith); assert((x * a1) * b0 == x * (a1 * b0)) by (nonlinear_arith); assert((x * a1) * (x * b1) == (x * x) * (a1 * b1)) by (nonlinear_arith);
  dist(x, a0 * b1, a1 * b0); }
// the tail of a number that fits fits
pub proof fn tail_fits(lo: int, x: int, hi: int, y: int) requires lo >= 0, x >= 1, lo + x * hi < x * y ensures hi < y
{ assert(hi < y) by (nonlinear_arith) requires lo >= 0, x >= 1, lo + x * hi < x * y; }
pub proof fn prod_fits(a: int, b: int, n: int, m: int) requires 0 <= a <= pw(n) - 1, 0 <= b <= pw(m) - 1, n >= 0, m >= 0 ensures 0 <= a * b < pw(n + m)
{ pw_add(n, m); pw_pos(n); pw_pos(m); mul_lt(a, pw(n), b, pw(m)); }
// z0 + X^2 z2 with X core still to be added: the sum fits in the limbs from n on
pub proof fn kmerge(s: Seq<u32>, o: int, len: int, n: int, core: int, a: int, b: int, la: int, lb: int)
    requires 0 <= n, 2 * n <= len, len == la + lb, la >= 0, lb >= 0, core >= 0, 0 <= a <= pw(la) - 1, 0 <= b <= pw(lb) - 1, a * b == pv(s, o, len) + pw(n) * core
    ensures pv(s, o + n, len - n) + core < pw(len - n)
{ prod_fits(a, b, la, lb); pv_split(s, o, len, n); pv_bound(s, o, n); pw_add(n, len - n); pw_pos(n); dist(pw(n), pv(s, o + n, len - n), core);
  tail_fits(pv(s, o, n), pw(n), pv(s, o + n, len - n) + core, pw(len - n)); }
pub open spec fn sq_sum(d1: int, d2: int) -> int { let s = d1 + (d2 % 0x8000_0000_0000_0000) * 2; if s < 0x1_0000_0000_0000_0000 { s } else { s - 0x1_0000_0000_0000_0000 } }
pub proof fn sq_trunc(d1: int, d2: int) requires d1 >= 0, d2 >= 0 ensures sq_sum(d1, d2) % B == (d1 + 2 * d2) % B
{ }
