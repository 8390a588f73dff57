// ---- bit length, powers of two, hash, native conversions
pub open spec fn smear(v: u32) -> u32 { let a = v | ((v / 2) as u32); let b = a | ((a / 4) as u32); let c = b | ((b / 16) as u32); let d = c | ((c / 256) as u32); d | ((d / 65536) as u32) }
pub proof fn smear_ones(v: u32) requires v > 0
    ensures exists|k: int| 0 <= k < 32 && p2(k) <= v && v < p2(k + 1) && #[trigger] p2(k + 1) - 1 == smear(v)
{
    let a = v | (v >> 1); let b = a | (a >> 2); let c = b | (b >> 4); let d = c | (c >> 8); let e = d | (d >> 16);
    assert(v >> 1 == v / 2) by (bit_vector); assert(a >> 2 == a / 4) by (bit_vector); assert(b >> 4 == b / 16) by (bit_vector); assert(c >> 8 == c / 256) by (bit_vector); assert(d >> 16 == d / 65536) by (bit_vector);
    assert(e == smear(v));
    p2_tabc();
    assert((v >= 1u32 && v <= 1u32 && e == 1u32) || (v >= 2u32 && v <= 3u32 && e == 3u32) || (v >= 4u32 && v <= 7u32 && e == 7u32) || (v >= 8u32 && v <= 15u32 && e == 15u32) || (v >= 16u32 && v <= 31u32 && e == 31u32) || (v >= 32u32 && v <= 63u32 && e == 63u32) || (v >= 64u32 && v <= 127u32 && e == 127u32) || (v >= 128u32 && v <= 255u32 && e == 255u32) || (v >= 256u32 && v <= 511u32 && e == 511u32) || (v >= 512u32 && v <= 1023u32 && e == 1023u32) || (v >= 1024u32 && v <= 2047u32 && e == 2047u32) || (v >= 2048u32 && v <= 4095u32 && e == 4095u32) || (v >= 4096u32 && v <= 8191u32 && e == 8191u32) || (v >= 8192u32 && v <= 16383u32 && e == 16383u32) || (v >= 16384u32 && v <= 32767u32 && e == 32767u32) || (v >= 32768u32 && v <= 65535u32 && e == 65535u32) || (v >= 65536u32 && v <= 131071u32 && e == 131071u32) || (v >= 131072u32 && v <= 262143u32 && e == 262143u32) || (v >= 262144u32 && v <= 524287u32 && e == 524287u32) || (v >= 524288u32 && v <= 1048575u32 && e == 1048575u32) || (v >= 1048576u32 && v <= 2097151u32 && e == 2097151u32) || (v >= 2097152u32 && v <= 4194303u32 && e == 4194303u32) || (v >= 4194304u32 && v <= 8388607u32 && e == 8388607u32) || (v >= 8388608u32 && v <= 16777215u32 && e == 16777215u32) || (v >= 16777216u32 && v <= 33554431u32 && e == 33554431u32) || (v >= 33554432u32 && v <= 67108863u32 && e == 67108863u32) || (v >= 67108864u32 && v <= 134217727u32 && e == 134217727u32) || (v >= 134217728u32 && v <= 268435455u32 && e == 268435455u32) || (v >= 268435456u32 && v <= 536870911u32 && e == 536870911u32) || (v >= 536870912u32 && v <= 1073741823u32 && e == 1073741823u32) || (v >= 1073741824u32 && v <= 2147483647u32 && e == 2147483647u32) || (v >= 2147483648u32 && v <= 4294967295u32 && e == 4294967295u32)) by (bit_vector) requires v > 0, a == v | (v >> 1), b == a | (a >> 2), c == b | (b >> 4), d == c | (c >> 8), e == d | (d >> 16);
    if v >= 1 && v <= 1 { assert(p2(0int + 1) - 1 == e); }
    if v >= 2 && v <= 3 { assert(p2(1int + 1) - 1 == e); }
    if v >= 4 && v <= 7 { assert(p2(2int + 1) - 1 == e); }
    if v >= 8 && v <= 15 { assert(p2(3int + 1) - 1 == e); }
    if v >= 16 && v <= 31 { assert(p2(4int + 1) - 1 == e); }
    if v >= 32 && v <= 63 { assert(p2(5int + 1) - 1 == e); }
    if v >= 64 && v <= 127 { assert(p2(6int + 1) - 1 == e); }
    if v >= 128 && v <= 255 { assert(p2(7int + 1) - 1 == e); }
    if v >= 256 && v <= 511 { assert(p2(8int + 1) - 1 == e); }
    if v >= 512 && v <= 1023 { assert(p2(9int + 1) - 1 == e); }
    if v >= 1024 && v <= 2047 { assert(p2(10int + 1) - 1 == e); }
    if v >= 2048 && v <= 4095 { assert(p2(11int + 1) - 1 == e); }
    if v >= 4096 && v <= 8191 { assert(p2(12int + 1) - 1 == e); }
    if v >= 8192 && v <= 16383 { assert(p2(13int + 1) - 1 == e); }
    if v >= 16384 && v <= 32767 { assert(p2(14int + 1) - 1 == e); }
    if v >= 32768 && v <= 65535 { assert(p2(15int + 1) - 1 == e); }
    if v >= 65536 && v <= 131071 { assert(p2(16int + 1) - 1 == e); }
    if v >= 131072 && v <= 262143 { assert(p2(17int + 1) - 1 == e); }
    if v >= 262144 && v <= 524287 { assert(p2(18int + 1) - 1 == e); }
    if v >= 524288 && v <= 1048575 { assert(p2(19int + 1) - 1 == e); }
    if v >= 1048576 && v <= 2097151 { assert(p2(20int + 1) - 1 == e); }
    if v >= 2097152 && v <= 4194303 { assert(p2(21int + 1) - 1 == e); }
    if v >= 4194304 && v <= 8388607 { assert(p2(22int + 1) - 1 == e); }
    if v >= 8388608 && v <= 16777215 { assert(p2(23int + 1) - 1 == e); }
    if v >= 16777216 && v <= 33554431 { assert(p2(24int + 1) - 1 == e); }
    if v >= 33554432 && v <= 67108863 { assert(p2(25int + 1) - 1 == e); }
    if v >= 67108864 && v <= 134217727 { assert(p2(26int + 1) - 1 == e); }
    if v >= 134217728 && v <= 268435455 { assert(p2(27int + 1) - 1 == e); }
    if v >= 268435456 && v <= 536870911 { assert(p2(28int + 1) - 1 == e); }
    if v >= 536870912 && v <= 1073741823 { assert(p2(29int + 1) - 1 == e); }
    if v >= 1073741824 && v <= 2147483647 { assert(p2(30int + 1) - 1 == e); }
    if v >= 2147483648 && v <= 4294967295 { assert(p2(31int + 1) - 1 == e); }
}
pub proof fn p2_tabc() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024, p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536, p2(17) == 131072, p2(18) == 262144, p2(19) == 524288, p2(20) == 1048576, p2(21) == 2097152, p2(22) == 4194304, p2(23) == 8388608, p2(24) == 16777216, p2(25) == 33554432, p2(26) == 67108864, p2(27) == 134217728, p2(28) == 268435456, p2(29) == 536870912, p2(30) == 1073741824, p2(31) == 2147483648, p2(32) == 4294967296, p2(33) == 8589934592
{ assert(p2(0) == 1); assert(p2(1) == 2 * p2(0)); assert(p2(2) == 2 * p2(1)); assert(p2(3) == 2 * p2(2)); assert(p2(4) == 2 * p2(3)); assert(p2(5) == 2 * p2(4)); assert(p2(6) == 2 * p2(5)); assert(p2(7) == 2 * p2(6)); assert(p2(8) == 2 * p2(7)); assert(p2(9) == 2 * p2(8)); assert(p2(10) == 2 * p2(9)); assert(p2(11) == 2 * p2(10)); assert(p2(12) == 2 * p2(11)); assert(p2(13) == 2 * p2(12)); assert(p2(14) == 2 * p2(13)); assert(p2(15) == 2 * p2(14)); assert(p2(16) == 2 * p2(15)); assert(p2(17) == 2 * p2(16)); assert(p2(18) == 2 * p2(17)); assert(p2(19) == 2 * p2(18)); assert(p2(20) == 2 * p2(19)); assert(p2(21) == 2 * p2(20)); assert(p2(22) == 2 * p2(21)); assert(p2(23) == 2 * p2(22)); assert(p2(24) == 2 * p2(23)); assert(p2(25) == 2 * p2(24)); assert(p2(26) == 2 * p2(25)); assert(p2(27) == 2 * p2(26)); assert(p2(28) == 2 * p2(27)); assert(p2(29) == 2 * p2(28)); assert(p2(30) == 2 * p2(29)); assert(p2(31) == 2 * p2(30)); assert(p2(32) == 2 * p2(31)); assert(p2(33) == 2 * p2(32)); }
pub open spec fn bitlen(x: int, l: int) -> bool { let m = if x < 0 { -x - 1 } else { x }; if m == 0 { l == 0 } else { l > 0 && p2(l - 1) <= m && m < p2(l) } }
pub open spec fn is_p2(x: int) -> bool { exists|k: int| k >= 0 && x == #[trigger] p2(k) }
pub proof fn p2_between(a: int, b: int) requires a >= 0, b >= 0, p2(b) <= p2(a), p2(a) < p2(b + 1) ensures a == b
{ if a < b { p2_mono(a + 1, b); p2_pos(a); assert(p2(a + 1) == 2 * p2(a)); } if a > b { p2_mono(b + 1, a); } }
pub proof fn low_bit(h: u32, j: u32) requires h > 0, j == h - 1 ensures (h & j == 0) == is_p2(h as int), h & j == 0 ==> h <= 0x8000_0000
{
    assert((h & j == 0) == (h == 1u32 || h == 2u32 || h == 4u32 || h == 8u32 || h == 16u32 || h == 32u32 || h == 64u32 || h == 128u32 || h == 256u32 || h == 512u32 || h == 1024u32 || h == 2048u32 || h == 4096u32 || h == 8192u32 || h == 16384u32 || h == 32768u32 || h == 65536u32 || h == 131072u32 || h == 262144u32 || h == 524288u32 || h == 1048576u32 || h == 2097152u32 || h == 4194304u32 || h == 8388608u32 || h == 16777216u32 || h == 33554432u32 || h == 67108864u32 || h == 134217728u32 || h == 268435456u32 || h == 536870912u32 || h == 1073741824u32 || h == 2147483648u32)) by (bit_vector) requires h > 0, j == h - 1;
    p2_tabc();
    if h & j == 0 { if h == 1 { assert(p2(0) == h); } if h == 2 { assert(p2(1) == h); } if h == 4 { assert(p2(2) == h); } if h == 8 { assert(p2(3) == h); } if h == 16 { assert(p2(4) == h); } if h == 32 { assert(p2(5) == h); } if h == 64 { assert(p2(6) == h); } if h == 128 { assert(p2(7) == h); } if h == 256 { assert(p2(8) == h); } if h == 512 { assert(p2(9) == h); } if h == 1024 { assert(p2(10) == h); } if h == 2048 { assert(p2(11) == h); } if h == 4096 { assert(p2(12) == h); } if h == 8192 { assert(p2(13) == h); } if h == 16384 { assert(p2(14) == h); } if h == 32768 { assert(p2(15) == h); } if h == 65536 { assert(p2(16) == h); } if h == 131072 { assert(p2(17) == h); } if h == 262144 { assert(p2(18) == h); } if h == 524288 { assert(p2(19) == h); } if h == 1048576 { assert(p2(20) == h); } if h == 2097152 { assert(p2(21) == h); } if h == 4194304 { assert(p2(22) == h); } if h == 8388608 { assert(p2(23) == h); } if h == 16777216 { assert(p2(24) == h); } if h == 33554432 { assert(p2(25) == h); } if h == 67108864 { assert(p2(26) == h); } if h == 134217728 { assert(p2(27) == h); } if h == 268435456 { assert(p2(28) == h); } if h == 536870912 { assert(p2(29) == h); } if h == 1073741824 { assert(p2(30) == h); } if h == 2147483648 { assert(p2(31) == h); } }
    if is_p2(h as int) { let k = choose|k: int| k >= 0 && h as int == #[trigger] p2(k); if k >= 32 { p2_mono(32, k); } }
}
// v = top limb h, digits low below it
pub proof fn top_p2(v: int, h: int, low: int, n: int, e: int) requires 0 < h < B, n >= 0, 0 <= low < pw(n), v == h * pw(n) + low, e >= 0, p2(e) <= h, h < p2(e + 1)
    ensures is_p2(v) == (is_p2(h) && low == 0), p2(32 * n + e) <= v, v < p2(32 * n + e + 1), (v == p2(32 * n + e)) == (is_p2(h) && low == 0), v > 0
{
    p2_pw(n); p2_add(32 * n, e); p2_add(32 * n, e + 1); pw_pos(n); let P = pw(n); let E = p2(e); p2_pos(e);
    assert(v >= P * E) by (nonlinear_arith) requires v == h * P + low, low >= 0, P >= 1, h >= E;
    assert(v < P * (2 * E)) by (nonlinear_arith) requires v == h * P + low, low < P, P >= 1, h + 1 <= 2 * E;
    assert(P * E >= 1) by (nonlinear_arith) requires P >= 1, E >= 1;
    assert((v == P * E) == (h == E && low == 0)) by (nonlinear_arith) requires v == h * P + low, 0 <= low < P, P >= 1, h >= E;
    if is_p2(h) { let k = choose|k: int| k >= 0 && h == #[trigger] p2(k); p2_between(k, e); }
    if is_p2(v) { let k = choose|k: int| k >= 0 && v == #[trigger] p2(k); p2_between(k, 32 * n + e); }
    if v == p2(32 * n + e) { assert(is_p2(v)); }
}
pub proof fn pv_nz(s: Seq<u32>, o: int, n: int, k: int) requires o <= k < o + n, s[k] != 0 ensures pv(s, o, n) > 0
{ pv_split(s, o, n, k - o); pv_bound(s, o, k - o); pv_low(s, k, n - (k - o)); pv_bound(s, k + 1, n - (k - o) - 1); pw_pos(k - o); let a = pw(k - o); let b = pv(s, k, n - (k - o)); assert(a * b > 0) by (nonlinear_arith) requires a >= 1, b > 0; }
// the value of a nonempty limb vector from its top limb, whose leading zero count is z
pub proof fn bl_top(s: Seq<u32>, z: int) requires s.len() > 0, s[s.len() - 1] != 0, 0 <= z < 32, p2(31 - z) <= s[s.len() - 1], s[s.len() - 1] < p2(32 - z)
    ensures ({ let h = s[s.len() - 1] as int; let low = pv(s, 0, s.len() - 1); let L = 32 * s.len() - z; p2(L - 1) <= val(s) && val(s) < p2(L) && (val(s) == p2(L - 1)) == (is_p2(h) && low == 0) && is_p2(val(s)) == (is_p2(h) && low == 0) && L > 0 && (L > 1 ==> p2(L - 1) == 2 * p2(L - 2)) })
{
    let n = s.len() - 1; let h = s[n] as int; pv_bound(s, 0, n); pv_1(s, 0); if n > 0 {} top_p2(val(s), h, pv(s, 0, n), n, 31 - z); 
}
pub proof fn p2_neg(x: int) ensures x <= 0 ==> !is_p2(x) { if is_p2(x) { let k = choose|k: int| k >= 0 && x == #[trigger] p2(k); p2_pos(k); } }
pub proof fn is_p2_val(s: Seq<u32>) requires s.len() > 0, s[s.len() - 1] != 0 ensures is_p2(val(s)) == (is_p2(s[s.len() - 1] as int) && pv(s, 0, s.len() - 1) == 0)
{ let h = s[s.len() - 1]; smear_ones(h); let k = choose|k: int| 0 <= k < 32 && p2(k) <= h && h < p2(k + 1) && #[trigger] p2(k + 1) - 1 == smear(h); bl_top(s, 31 - k); }
// the hash, as the code folds it
pub open spec fn comb(a: u32, b: u32) -> u32 { (((a % 0x200_0000) * 128 + a / 0x200_0000) as u32) ^ b }
pub open spec fn hcomb(h: int, d: u32) -> int { wrap_i32(comb(wrap_u32(h) as u32, d) as int) }
pub open spec fn hash_of(s: int, b: Seq<u32>, n: int) -> int decreases b.len() - n { if n >= b.len() { s } else { hcomb(hash_of(s, b, n + 1), b[n]) } }
pub proof fn conv_facts(s: Seq<u32>) ensures s.len() == 1 ==> val(s) == s[0], s.len() == 2 ==> val(s) == s[0] + B * s[1], s.len() > 2 && s[s.len() - 1] != 0 ==> val(s) >= B * B, s.len() > 1 && s[s.len() - 1] != 0 ==> val(s) >= B, p2(32) == B
{ pv_1(s, 0); pw_1(); p2_32(); if s.len() >= 2 { pv_2(s, 0); } if s.len() > 1 && s[s.len() - 1] != 0 { pv_ge(s, 0, s.len() as int); pw_mono(1, s.len() - 1); if s.len() > 2 { pw_mono(2, s.len() - 1); } } }
