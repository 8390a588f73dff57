// ---- two's complement bytes
pub open spec fn bd(x: int, k: int) -> int { (x / p2(8 * k)) % 256 }
pub open spec fn inr(x: int, l: int, uns: bool) -> bool { if uns { 0 <= x && x < p2(8 * l) } else { -p2(8 * l - 1) <= x && x < p2(8 * l - 1) } }
// l is the length of the shortest encoding of x
pub open spec fn blen(x: int, l: int, uns: bool) -> bool { l >= 1 && inr(x, l, uns) && (l == 1 || !inr(x, l - 1, uns)) }
pub open spec fn ix(be: bool, l: int, k: int) -> int { if be { l - 1 - k } else { k } }
#[verifier::opaque] pub open spec fn bytes_upto(s: Seq<u8>, x: int, be: bool, n: int) -> bool { forall|k: int| 0 <= k < n ==> s[ix(be, s.len() as int, k)] == #[trigger] bd(x, k) }
pub open spec fn bytes_ok(s: Seq<u8>, x: int, uns: bool, be: bool) -> bool { blen(x, s.len() as int, uns) && bytes_upto(s, x, be, s.len() as int) }

pub proof fn p2_8() ensures p2(8) == 256, p2(16) == 65536, p2(24) == 0x100_0000, p2(7) == 128, p2(15) == 32768, p2(23) == 0x80_0000, p2(31) == 0x8000_0000, p2(32) == B, p2(39) == 0x80_0000_0000, p2(40) == 0x100_0000_0000, p2(0) == 1
{ p2_tabc(); p2_add(7, 32); p2_add(8, 32); }
// the bytes of limb i
pub proof fn limb_bytes(x: int, i: int) requires i >= 0
    ensures ({ let d = dig(x, i); 0 <= d < B && bd(x, 4 * i) == d % 256 && bd(x, 4 * i + 1) == d / 256 % 256 && bd(x, 4 * i + 2) == d / 65536 % 256 && bd(x, 4 * i + 3) == d / 0x100_0000 % 256 })
{
    p2_8(); p2_pw(i); pw_pos(i); let y = x / pw(i);
    p2_add(32 * i, 8); p2_add(32 * i, 16); p2_add(32 * i, 24);
    div_twice(x, pw(i), 256); div_twice(x, pw(i), 65536); div_twice(x, pw(i), 0x100_0000);
    assert(8 * (4 * i) == 32 * i && 8 * (4 * i + 1) == 32 * i + 8 && 8 * (4 * i + 2) == 32 * i + 16 && 8 * (4 * i + 3) == 32 * i + 24);
    byte_of(y);
}
pub proof fn byte_of(y: int) ensures ({ let d = y % B; 0 <= d < B && y % 256 == d % 256 && y / 256 % 256 == d / 256 % 256 && y / 65536 % 256 == d / 65536 % 256 && y / 0x100_0000 % 256 == d / 0x100_0000 % 256 })
{
    div_eq(y, B); let q = y / B; let d = y % B; let c0 = d % 256; let d1 = d / 256; let c1 = d1 % 256; let d2 = d1 / 256; let c2 = d2 % 256; let d3 = d2 / 256;
    div_twice(d, 256, 256); div_twice(d, 65536, 256);
    div_uniq(y, q * 0x100_0000 + d1, 256, c0); div_uniq(y, q * 65536 + d2, 65536, c0 + 256 * c1); div_uniq(y, q * 256 + d3, 0x100_0000, c0 + 256 * c1 + 65536 * c2);
    div_uniq(q * 0x100_0000 + d1, q * 65536 + d2, 256, c1); div_uniq(q * 65536 + d2, q * 256 + d3, 256, c2); div_uniq(q * 256 + d3, q, 256, d3); div_uniq(d3, 0, 256, d3);
}
// two's complement limbs of -V when the limbs below nz are zero and limb nz is not
pub proof fn neg_dig(s: Seq<u32>, nz: int, i: int) requires 0 <= nz < s.len(), 0 <= i < s.len(), zeros(s, 0, nz), s[nz] != 0
    ensures dig(-val(s), i) == (if i < nz { 0 } else if i == nz { B - s[i] } else { B - 1 - s[i] })
{
    let n = s.len() as int; pv_split(s, 0, n, i); pv_low(s, i, n - i); let lo = pv(s, 0, i); let R = pv(s, i + 1, n - i - 1); let P = pw(i); pw_pos(i); pv_bound(s, 0, i); let d = s[i] as int;
    assert(val(s) == lo + P * (d + B * R));
    if i <= nz { pv_zero(s, 0, i); 
        if i < nz { assert(-(P * (d + B * R)) == P * (0 + B * (-R))) by (nonlinear_arith) requires d == 0; floor_dig(-val(s), P, 0, 0, -R); }
        else { assert(-(P * (d + B * R)) == P * ((B - d) + B * (-R - 1))) by (nonlinear_arith); floor_dig(-val(s), P, 0, B - d, -R - 1); } }
    else { pv_nz(s, 0, i, nz); assert(-(P * (d + B * R)) == P * ((B - 1 - d) + B * (-R - 1)) + P) by (nonlinear_arith); floor_dig(-val(s), P, P - lo, B - 1 - d, -R - 1); }
}
pub proof fn pos_dig(s: Seq<u32>, i: int) requires 0 <= i < s.len() ensures dig(val(s), i) == s[i]
{ let n = s.len() as int; pv_split(s, 0, n, i); pv_low(s, i, n - i); pv_bound(s, 0, i); pw_pos(i); pv_bound(s, i + 1, n - i - 1); floor_dig(val(s), pw(i), pv(s, 0, i), s[i] as int, pv(s, i + 1, n - i - 1)); }
// high limb hd of x (n limbs), msb index m, extra sign byte e
pub open spec fn hb(hd: int, neg: bool, uns: bool, m: int, e: bool) -> bool {
    let h = if neg { 255int } else { 0 }; let b3 = hd / 0x100_0000 % 256; let b2 = hd / 65536 % 256; let b1 = hd / 256 % 256; let b0 = hd % 256;
    m == (if b3 != h { 3int } else if b2 != h { 2 } else if b1 != h { 1 } else { 0 }) && e == (!uns && ((if m == 3 { b3 } else if m == 2 { b2 } else if m == 1 { b1 } else { b0 }) >= 128) != neg)
}
pub proof fn hb_range(hd: int, neg: bool, uns: bool, m: int, e: bool) requires 0 <= hd < B, hb(hd, neg, uns, m, e), neg ==> !uns
    ensures ({ let l = m + 1 + (if e { 1int } else { 0 }); let hs = hd - (if neg { B } else { 0 }); 1 <= l <= 5 && inr(hs, l, uns) && (l == 1 || !inr(hs, l - 1, uns)) })
{ p2_8(); let l = m + 1 + (if e { 1int } else { 0 }); if l == 1 {} else if l == 2 {} else if l == 3 {} else if l == 4 {} else {} }
// from the high limb to the whole number
pub proof fn inr_scale(x: int, hs: int, low: int, n: int, l: int, uns: bool) requires n >= 0, l >= 1, x == hs * pw(n) + low, 0 <= low < pw(n) ensures inr(x, 4 * n + l, uns) == inr(hs, l, uns)
{
    pw_pos(n); let P = pw(n); p2_pw(n); p2_add(32 * n, 8 * l); p2_add(32 * n, 8 * l - 1); let U = p2(8 * l); let S = p2(8 * l - 1); assert(8 * (4 * n + l) == 32 * n + 8 * l);
    assert((x < P * U) == (hs < U)) by (nonlinear_arith) requires x == hs * P + low, 0 <= low < P; assert((x >= 0) == (hs >= 0)) by (nonlinear_arith) requires x == hs * P + low, 0 <= low < P;
    assert((x < P * S) == (hs < S)) by (nonlinear_arith) requires x == hs * P + low, 0 <= low < P;
    assert((-(P * S) <= x) == (-S <= hs)) by (nonlinear_arith) requires x == hs * P + low, 0 <= low < P;
}
pub proof fn blen_of(x: int, n: int, hd: int, neg: bool, uns: bool, m: int, e: bool)
    requires n >= 1, hd == dig(x, n - 1), neg == (x < 0), neg ==> !uns, -pw(n) <= x < pw(n), hb(hd, neg, uns, m, e), n > 1 ==> iabs(x) >= pw(n - 1)
    ensures blen(x, 4 * (n - 1) + m + 1 + (if e { 1int } else { 0 }), uns)
{
    let P = pw(n - 1); pw_pos(n - 1); div_eq(x, P); let low = x % P; let hs = x / P; assert(pw(n) == B * P);
    assert(-B <= hs < B) by (nonlinear_arith) requires x == hs * P + low, 0 <= low < P, -(B * P) <= x < B * P;
    assert((hs < 0) == neg) by (nonlinear_arith) requires x == hs * P + low, 0 <= low < P, neg == (x < 0);
    div_uniq(hs, if neg { -1 } else { 0 }, B, if neg { hs + B } else { hs }); assert(hd == if neg { hs + B } else { hs });
    hb_range(hd, neg, uns, m, e); let l = m + 1 + (if e { 1int } else { 0 }); inr_scale(x, hs, low, n - 1, l, uns);
    if l > 1 { inr_scale(x, hs, low, n - 1, l - 1, uns); } else if n > 1 { p2_pw(n - 1); p2_pos(32 * (n - 1) - 1); assert(8 * (4 * (n - 1) + l - 1) == 32 * (n - 1)); p2_add(1, 32 * (n - 1) - 1); p2_32(); }
}
// the sign byte above all limbs
pub proof fn sign_byte(x: int, n: int, k: int) requires n >= 0, k >= 4 * n, -pw(n) <= x < pw(n) ensures bd(x, k) == (if x < 0 { 255int } else { 0 })
{ p2_pw(n); p2_mono(32 * n, 8 * k); p2_pos(8 * k); floor_small(x, p2(8 * k)); }
pub proof fn and80(a: i32) requires 0 <= a < 256 ensures ((wrap_u32(a as int) as u32) & 0x80u32) == (if a >= 128 { 0x80u32 } else { 0u32 })
{ let u = a as u32; assert((u & 0x80u32) == (if u >= 128 { 0x80u32 } else { 0u32 })) by (bit_vector) requires u < 256; }
pub broadcast proof fn bytes_put(s: Seq<u8>, x: int, be: bool, n: int, i: int, v: u8) requires #[trigger] bytes_upto(s, x, be, n), 0 <= n < s.len(), i == ix(be, s.len() as int, n), v == bd(x, n) ensures bytes_upto(#[trigger] s.update(i, v), x, be, n + 1)
{ reveal(bytes_upto); assert forall|k: int| 0 <= k < n + 1 implies s.update(i, v)[ix(be, s.len() as int, k)] == #[trigger] bd(x, k) by { if k < n { assert(s[ix(be, s.len() as int, k)] == bd(x, k)); } } }
pub broadcast proof fn bytes_none(s: Seq<u8>, x: int, be: bool, n: int) ensures n <= 0 ==> #[trigger] bytes_upto(s, x, be, n) { reveal(bytes_upto); }
// ---- decoding: Horner value of the bytes from index i up (least significant first), the sign below 0
#[verifier::opaque] pub open spec fn hv(s: Seq<u8>, be: bool, l: int, neg: bool, i: int) -> int decreases l - i { if i >= l { if neg { -1 } else { 0 } } else { 256 * hv(s, be, l, neg, i + 1) + s[ix(be, l, i)] } }
pub open spec fn bneg(s: Seq<u8>, uns: bool, be: bool) -> bool { s.len() > 0 && !uns && s[ix(be, s.len() as int, s.len() - 1)] >= 128 }
// the integer that a byte array denotes
pub open spec fn bytes_val(s: Seq<u8>, uns: bool, be: bool) -> int { hv(s, be, s.len() as int, bneg(s, uns, be), 0) }
pub proof fn hv_frame(s: Seq<u8>, t: Seq<u8>, be: bool, l: int, m: int, neg: bool, i: int) requires forall|k: int| i <= k < l ==> s[#[trigger] ix(be, l, k)] == t[ix(be, m, k)], l <= m, forall|k: int| l <= k < m ==> t[#[trigger] ix(be, m, k)] == 0, l < m ==> !neg, 0 <= i <= l
    ensures hv(s, be, l, neg, i) == hv(t, be, m, neg, i) decreases m - i
{ hv_at(s, be, l, neg, i); hv_at(t, be, m, neg, i); if i < l { assert(s[ix(be, l, i)] == t[ix(be, m, i)]); hv_frame(s, t, be, l, m, neg, i + 1); } else if l < m { hv_zero(t, be, m, i); } }
pub proof fn hv_zero(t: Seq<u8>, be: bool, m: int, i: int) requires forall|k: int| i <= k < m ==> t[#[trigger] ix(be, m, k)] == 0 ensures hv(t, be, m, false, i) == 0 decreases m - i { hv_at(t, be, m, false, i); if i < m { assert(t[ix(be, m, i)] == 0); hv_zero(t, be, m, i + 1); } }
pub proof fn hv_rng(s: Seq<u8>, be: bool, l: int, neg: bool, i: int) requires 0 <= i <= l ensures neg ==> -p2(8 * (l - i)) <= hv(s, be, l, neg, i) < 0, !neg ==> 0 <= hv(s, be, l, neg, i) < p2(8 * (l - i)), !neg && i < l && s[ix(be, l, l - 1)] > 0 ==> hv(s, be, l, neg, i) > 0 decreases l - i
{ p2_8(); hv_at(s, be, l, neg, i); if i < l { hv_rng(s, be, l, neg, i + 1); p2_add(8, 8 * (l - i - 1)); assert(8 * (l - i) == 8 + 8 * (l - i - 1)); } }
#[verifier::opaque] pub open spec fn dw(s: Seq<u8>, be: bool, l: int, j: int) -> int { s[ix(be, l, 4 * j)] + 256 * s[ix(be, l, 4 * j + 1)] + 65536 * s[ix(be, l, 4 * j + 2)] + 0x100_0000 * s[ix(be, l, 4 * j + 3)] }
#[verifier::opaque] pub open spec fn dws(v: Seq<u32>, s: Seq<u8>, be: bool, l: int, m: int) -> bool { forall|j: int| 0 <= j < m ==> v[j] == #[trigger] dw(s, be, l, j) }
pub proof fn dws_val(v: Seq<u32>, s: Seq<u8>, be: bool, l: int, neg: bool, m: int) requires dws(v, s, be, l, m), 0 <= m, 4 * m <= l ensures hv(s, be, l, neg, 0) == pv(v, 0, m) + hv(s, be, l, neg, 4 * m) * pw(m) decreases m
{
    reveal(dws); if m > 0 { dws_val(v, s, be, l, neg, m - 1); reveal_with_fuel(hv, 5); reveal(dws); reveal(dw); assert(v[m - 1] == dw(s, be, l, m - 1)); let h = hv(s, be, l, neg, 4 * m); let d = v[m - 1] as int; assert(hv(s, be, l, neg, 4 * (m - 1)) == h * B + d); let P = pw(m - 1);
        assert((h * B + d) * P == h * (B * P) + d * P) by (nonlinear_arith); } else { unit(hv(s, be, l, neg, 0)); reveal(dws); }
}
// limbs (the last one partial) of the byte array
pub proof fn dws_all(v: Seq<u32>, s: Seq<u8>, be: bool, l: int, neg: bool)
    requires l > 4, v.len() == l / 4 + (if l % 4 == 0 { 0int } else { 1 }), dws(v, s, be, l, l / 4), l % 4 != 0 ==> v[l / 4] == hm(s, be, l, neg, 4 * (l / 4)), neg ==> s[ix(be, l, l - 1)] >= 128, !neg ==> s[ix(be, l, l - 1)] > 0
    ensures hv(s, be, l, neg, 0) == val(v) - (if neg { pw(v.len() as int) } else { 0 }), v.len() >= 2, v[v.len() - 1] != 0, val(v) > 0, val(v) < pw(v.len() as int)
{
    reveal(hm); let m = l / 4; let h = hv(s, be, l, neg, 4 * m); dws_val(v, s, be, l, neg, m); hv_rng(s, be, l, neg, 4 * m); reveal(dws); reveal(dw); hv_at(s, be, l, neg, 4 * m); p2_8(); p2_mono(8 * (l - 4 * m), 24); unit(pw(m)); let P = pw(m);
    if l % 4 != 0 { let d = v[m] as int; assert(d == h + (if neg { B } else { 0 })) by { div_uniq(h, if neg { -1 } else { 0 }, B, if neg { h + B } else { h }); } assert(val(v) == pv(v, 0, m) + d * P); assert((h + B) * P == h * P + B * P) by (nonlinear_arith); }
    else { assert(v[m - 1] == dw(s, be, l, m - 1)); assert(h == if neg { -1int } else { 0 }); mulsign(h, P); assert(0 * P == 0); }
    val_pos(v);
}
pub proof fn hv_step(h: int, b: int) requires 0 <= b < 256 ensures ((h % B) % 0x100_0000) * 256 + b == (256 * h + b) % B
{ let q = h / B; let r = h % B; div_eq(h, B); div_eq(r, 0x100_0000); div_uniq(256 * h + b, 256 * q + r / 0x100_0000, B, (r % 0x100_0000) * 256 + b); }
// decoding an encoding gives the value back
pub proof fn bytes_roundtrip(s: Seq<u8>, x: int, uns: bool, be: bool) requires bytes_ok(s, x, uns, be) ensures bytes_val(s, uns, be) == x
{
    let l = s.len() as int; p2_8(); reveal(bytes_upto); p2_pos(8 * l - 1); p2_add(8 * l - 8, 8); p2_add(8 * l - 8, 7); let P = p2(8 * l - 8); p2_pos(8 * l - 8); let y = x / P; div_eq(x, P);
    assert(s[ix(be, l, l - 1)] == bd(x, l - 1));
    if uns { assert(y >= 0) by (nonlinear_arith) requires x >= 0, x < y * P + P, P >= 1; floor_small(x, p2(8 * l)); }
    else { assert(-128 <= y < 128) by (nonlinear_arith) requires x < y * P + P, x >= y * P, -(P * 128) <= x, x < P * 128, P >= 1; p2_mono(8 * l - 1, 8 * l); floor_small(x, p2(8 * l)); }
    rt_step(s, x, be, bneg(s, uns, be), 0); assert(x / 1 == x);
}
pub proof fn rt_step(s: Seq<u8>, x: int, be: bool, neg: bool, i: int) requires 0 <= i <= s.len(), bytes_upto(s, x, be, s.len() as int), x / p2(8 * (s.len() as int)) == (if neg { -1int } else { 0 }) ensures hv(s, be, s.len() as int, neg, i) == x / p2(8 * i) decreases s.len() - i
{ reveal(bytes_upto); hv_at(s, be, s.len() as int, neg, i); if i < s.len() { rt_step(s, x, be, neg, i + 1); p2_8(); p2_add(8 * i, 8); p2_pos(8 * i); div_twice(x, p2(8 * i), 256); assert(8 * (i + 1) == 8 * i + 8); div_eq(x / p2(8 * i), 256); assert(s[ix(be, s.len() as int, i)] == bd(x, i)); } }
#[verifier::opaque] pub open spec fn pdw(s: Seq<u8>, be: bool, l: int, j: int, b: int) -> int { let b3 = s[ix(be, l, 4 * j + 3)] as int; let b2 = s[ix(be, l, 4 * j + 2)] as int; let b1 = s[ix(be, l, 4 * j + 1)] as int; let b0 = s[ix(be, l, 4 * j)] as int;
    if b <= 0 { 0 } else if b == 1 { b3 } else if b == 2 { b3 * 256 + b2 } else if b == 3 { (b3 * 256 + b2) * 256 + b1 } else { ((b3 * 256 + b2) * 256 + b1) * 256 + b0 } }
pub proof fn hv_at(s: Seq<u8>, be: bool, l: int, neg: bool, i: int) ensures hv(s, be, l, neg, i) == (if i >= l { if neg { -1int } else { 0 } } else { 256 * hv(s, be, l, neg, i + 1) + s[ix(be, l, i)] }) { reveal(hv); }
// one step of building a word from its bytes
pub proof fn shl_or(s: Seq<u8>, be: bool, l: int, neg: bool, i: int, w: int) requires 0 <= i < l, w == hm(s, be, l, neg, i + 1)
    ensures ({ let t = (w % 0x100_0000) * 256; t % 256 == 0 && t + s[ix(be, l, i)] == hm(s, be, l, neg, i) && wrap_u32(wrap_i32(t + s[ix(be, l, i)])) == hm(s, be, l, neg, i) }), p2(8) == 256
{ reveal(hm); p2_8(); hv_at(s, be, l, neg, i); hv_step(hv(s, be, l, neg, i + 1), s[ix(be, l, i)] as int); shl8(w); }
pub proof fn shl8(w: int) requires 0 <= w < B ensures (w * 256) % B == (w % 0x100_0000) * 256, ((w * 256) % B) % 256 == 0
{ div_eq(w, 0x100_0000); div_uniq(w * 256, w / 0x100_0000, B, (w % 0x100_0000) * 256); div_uniq((w % 0x100_0000) * 256, w % 0x100_0000, 256, 0); }
pub proof fn pdw_step(s: Seq<u8>, be: bool, l: int, j: int, b: int, w: int) requires 0 <= b < 4, w == pdw(s, be, l, j, b) ensures w * 256 < B, (w * 256) % 256 == 0, w * 256 + s[ix(be, l, 4 * j + 3 - b)] == pdw(s, be, l, j, b + 1), p2(8) == 256
{ p2_8(); reveal(pdw); shl8(w); }
pub proof fn pdw_0(s: Seq<u8>, be: bool, l: int, j: int) ensures pdw(s, be, l, j, 0) == 0 { reveal(pdw); }
pub broadcast proof fn dws_upd(v: Seq<u32>, s: Seq<u8>, be: bool, l: int, m: int, i: int, x: u32) requires #[trigger] dws(v, s, be, l, m), m <= i < v.len() ensures dws(#[trigger] v.update(i, x), s, be, l, m)
{ reveal(dws); assert forall|j: int| 0 <= j < m implies v.update(i, x)[j] == #[trigger] dw(s, be, l, j) by { assert(v[j] == dw(s, be, l, j)); } }
pub proof fn dws_put(v: Seq<u32>, s: Seq<u8>, be: bool, l: int, m: int) requires dws(v, s, be, l, m), v[m] == pdw(s, be, l, m, 4) ensures dws(v, s, be, l, m + 1) { reveal(dws); reveal(dw); reveal(pdw); }
pub broadcast proof fn dws_none(v: Seq<u32>, s: Seq<u8>, be: bool, l: int, m: int) ensures m <= 0 ==> #[trigger] dws(v, s, be, l, m) { reveal(dws); }
// after the high zero bytes are dropped
pub proof fn strip_ok(s: Seq<u8>, t: Seq<u8>, uns: bool, be: bool, l: int, neg: bool)
    requires 0 <= l <= s.len(), be ==> t.len() == l && (forall|k: int| 0 <= k < l ==> #[trigger] t[k] == s[s.len() - l + k]), !be ==> t == s, forall|k: int| l <= k < s.len() ==> s[#[trigger] ix(be, s.len() as int, k)] == 0, neg == bneg(s, uns, be)
    ensures bytes_val(s, uns, be) == hv(t, be, l, neg, 0), l < s.len() ==> !neg, neg ==> l > 0 && t[ix(be, l, l - 1)] >= 128
{
    let n = s.len() as int; assert(be ==> t.len() == l);
    if l < n { assert(s[ix(be, n, n - 1)] == 0); }
    assert forall|k: int| 0 <= k < l implies t[#[trigger] ix(be, l, k)] == s[ix(be, n, k)] by {}
    hv_frame(t, s, be, l, n, neg, 0);
}
pub proof fn small_val(h: int, l: int, neg: bool, w: int) requires 0 <= l <= 4, w == h % B, neg ==> -p2(8 * l) <= h < 0, !neg ==> 0 <= h < p2(8 * l) ensures h == (if neg { w - B } else { w })
{ p2_8(); p2_mono(8 * l, 32); div_uniq(h, if neg { -1 } else { 0 }, B, if neg { h + B } else { h }); }
pub proof fn neg4(s: Seq<u8>, be: bool, l: int, neg: bool) requires 1 <= l <= 4, neg, s[ix(be, l, l - 1)] >= 128 ensures hv(s, be, l, neg, 0) >= -0x8000_0000
{ reveal_with_fuel(hv, 5); }
#[verifier::opaque] pub open spec fn hm(s: Seq<u8>, be: bool, l: int, neg: bool, i: int) -> int { hv(s, be, l, neg, i) % B }
pub proof fn hm_top(s: Seq<u8>, be: bool, l: int, neg: bool) ensures hm(s, be, l, neg, l) == (if neg { B - 1 } else { 0 }) { reveal(hm); hv_at(s, be, l, neg, l); if neg { div_uniq(-1, -1, B, B - 1); } }
// the value of at most four bytes
pub proof fn sm_done(s: Seq<u8>, be: bool, l: int, neg: bool, sg: int) requires 1 <= l <= 4, neg ==> s[ix(be, l, l - 1)] >= 128, -0x8000_0000 <= sg < 0x8000_0000, wrap_u32(sg) == hm(s, be, l, neg, 0), !neg ==> s[ix(be, l, l - 1)] > 0
    ensures hv(s, be, l, neg, 0) == (if neg || sg >= 0 { sg } else { sg + B }), neg ==> sg < 0, !neg ==> sg != 0
{ hv_rng(s, be, l, neg, 0); reveal(hm); if neg { neg4(s, be, l, neg); } small_val(hv(s, be, l, neg, 0), l, neg, wrap_u32(sg)); }
