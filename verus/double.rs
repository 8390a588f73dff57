// ---- doubles
pub open spec fn dmag(b: int) -> int { let e = dexp(b); let m = dman(b) + 0x10_0000_0000_0000; if e == 0 { 0 } else if e >= 1075 { m * p2(e - 1075) } else { m / p2(1075 - e) } }
// the integer a finite double truncates to
pub open spec fn dval(b: int) -> int { if dneg(b) { -dmag(b) } else { dmag(b) } }
// double b is x truncated to 53 significant bits (an infinity from 2^1024 on)
pub open spec fn dbl_tr(b: int, x: int) -> bool {
    let mag = iabs(x); let e = dexp(b); let m = dman(b) + 0x10_0000_0000_0000;
    if x == 0 { dbl_is(b, 0) }
    else { dneg(b) == (x < 0) && if mag >= p2(1024) { e == 2047 && dman(b) == 0 } else { 1 <= e < 2047 && (if e >= 1075 { m * p2(e - 1075) <= mag && mag < (m + 1) * p2(e - 1075) } else { mag * p2(1075 - e) == m }) } }
}
pub proof fn or_sum64(a: u64, b: u64, s: int) requires 0 <= s < 64, a as int % p2(s) == 0, (b as int) < p2(s) ensures (a | b) as int == a as int + b as int, (b | a) as int == a as int + b as int
{ assert(a | b == b | a) by (bit_vector);
    let t = s as u64; p2_pow2(s as nat); p2_pos(s); let p = p2(s); div_eq(a as int, p); div_eq(b as int, p); floor_small(b as int, p);
    vstd::bits::lemma_u64_shr_is_div(a, t); vstd::bits::lemma_u64_shr_is_div(b, t); let q = a >> t;
    assert(q as int * p == a); vstd::bits::lemma_u64_shl_is_mul(q, t);
    assert((a | b) == add(a, b) && (a | b) >= a && (a | b) >= b) by (bit_vector) requires t < 64, (a >> t) << t == a, b >> t == 0;
    assert(a as int + b as int <= 0xffff_ffff_ffff_ffff) by { assert(a <= 0xffff_ffff_ffff_ffffu64 - b) by (bit_vector) requires t < 64, (a >> t) << t == a, b >> t == 0; }
}
pub proof fn p2_52() ensures p2(11) == 0x800, p2(52) == 0x10_0000_0000_0000, p2(53) == 0x20_0000_0000_0000, p2(63) == 0x8000_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000, p2(12) == 0x1000, p2(0) == 1, p2(1) == 2, p2(32) == B, p2(21) == 0x20_0000
{ p2_tabc(); p2_add(20, 32); p2_add(21, 32); p2_add(31, 32); p2_add(32, 32); }
// leading zeros of a 64-bit value from those of its halves
pub proof fn lz64(uu: int, h: int, r: int) requires 0 <= uu < B * B, 0 < h < B, 0 <= r <= 31, h * p2(r) < B, h * p2(r) >= 0x8000_0000
    ensures h == uu / B ==> uu * p2(r) < B * B && uu * p2(r) >= 0x8000_0000_0000_0000, h == uu ==> uu * p2(32 + r) < B * B && uu * p2(32 + r) >= 0x8000_0000_0000_0000
{
    p2_32(); p2_add(32, r); p2_add(r, 32 - r); p2_pos(r); p2_pos(32 - r); let R = p2(r); let T = p2(32 - r);
    if h == uu { assert(uu * (B * R) == (h * R) * B) by (nonlinear_arith) requires h == uu; }
    if h == uu / B {
        div_eq(uu, B); let lo = uu % B;
        assert(h < T) by (nonlinear_arith) requires h * R < B, R * T == B, R >= 1;
        assert((h + 1) * R <= B) by (nonlinear_arith) requires h + 1 <= T, R * T == B, R >= 1;
        assert(uu * R == (h * R) * B + lo * R) by (nonlinear_arith) requires uu == h * B + lo;
        assert(0 <= lo * R < B * R) by (nonlinear_arith) requires 0 <= lo < B, R >= 1;
        assert((h * R) * B + B * R == ((h + 1) * R) * B) by (nonlinear_arith);
    }
}
// fields of an assembled double
pub proof fn dfields(s: int, e: int, m: int) requires 0 <= s <= 1, 0 <= e < 2048, 0 <= m < 0x10_0000_0000_0000 ensures ({ let b = s * 0x8000_0000_0000_0000 + e * 0x10_0000_0000_0000 + m; dexp(b) == e && dman(b) == m && dneg(b) == (s == 1) && 0 <= b < B * B })
{
    let b = s * 0x8000_0000_0000_0000 + e * 0x10_0000_0000_0000 + m; let q = s * 2048 + e;
    div_uniq(b, q, 0x10_0000_0000_0000, m); div_uniq(q, s, 2048, e); div_uniq(b, s, 0x8000_0000_0000_0000, e * 0x10_0000_0000_0000 + m);
}
pub proof fn dparts(b: int) requires 0 <= b < B * B ensures 0 <= dexp(b) < 2048, 0 <= dman(b) < 0x10_0000_0000_0000, b / 0x4000_0000_0000_0000 <= 3, dneg(b) == (b / 0x4000_0000_0000_0000 >= 2), b / 0x10_0000_0000_0000 <= 4095, b == (if dneg(b) { 0x8000_0000_0000_0000int } else { 0 }) + dexp(b) * 0x10_0000_0000_0000 + dman(b)
{ }
pub open spec fn dparts_are(b: int, sign: int, exp: int, man: int) -> bool {
    sign == (if dneg(b) { -1int } else { 1 }) && if dexp(b) == 0 { man == dman(b) && exp == (if man == 0 { 0int } else { -1074 }) } else if dexp(b) == 2047 { true } else { man == dman(b) + 0x10_0000_0000_0000 && exp == dexp(b) - 1075 }
}
pub proof fn lz63(m: int, r: int) requires m >= 0x8000_0000_0000_0000, 0 <= r <= 63, m * p2(r) < B * B ensures r == 0
{ if r > 0 { p2_mono(1, r); p2_32(); let R = p2(r); assert(m * R >= B * B) by (nonlinear_arith) requires m >= 0x8000_0000_0000_0000, R >= 2; } }
pub proof fn dbl_small(s: int) requires -0x8000_0000 < s < 0x8000_0000 ensures forall|b: int| 0 <= b < B * B && #[trigger] dbl_is(b, s) ==> dbl_tr(b, s)
{
    p2_32(); p2_mono(32, 1024);
    assert forall|b: int| 0 <= b < B * B && #[trigger] dbl_is(b, s) implies dbl_tr(b, s) by {
        dparts(b); if s != 0 && dexp(b) >= 1075 { let p = p2(dexp(b) - 1075); p2_pos(dexp(b) - 1075); let m = dman(b) + 0x10_0000_0000_0000; assert((m + 1) * p == m * p + p) by (nonlinear_arith); }
    }
}
pub open spec fn lim(s: Seq<u32>, i: int) -> int { if i >= 0 { s[i] as int } else { 0 } }
// assembling the top 64 bits
pub proof fn dman_parts(h: int, m: int, l: int, z: int) requires 0 < h < B, 0 <= m < B, 0 <= l < B, 0 <= z <= 31, h * p2(z) < B, h * p2(z) >= 0x8000_0000
    ensures h * p2(32 + z) < B * B, h * p2(32 + z) >= 0x8000_0000_0000_0000, m * p2(z) < p2(32 + z), 0 <= m * p2(z) < B * B, 0 <= l / p2(32 - z) < p2(z), (h * p2(32 + z) + m * p2(z)) % p2(z) == 0, 0 <= h * p2(32 + z) + m * p2(z), h * p2(32 + z) + m * p2(z) < B * B
{
    p2_32(); p2_add(32, z); p2_add(32 - z, z); p2_pos(z); p2_pos(32 - z); let Z = p2(z); let T = p2(32 - z); div_eq(l, T);
    assert(h * (B * Z) == (h * Z) * B) by (nonlinear_arith); assert((h * Z) * B <= (B - 1) * B) by (nonlinear_arith) requires h * Z <= B - 1;
    assert(0 <= m * Z && m * Z < B * Z) by (nonlinear_arith) requires 0 <= m < B, Z >= 1;
    p2_mono(z, 32); assert(l / T < Z) by (nonlinear_arith) requires (l / T) * T <= l, l < B, T * Z == B, T >= 1;
    assert(h * (B * Z) + m * Z == (h * B + m) * Z) by (nonlinear_arith); div_uniq((h * B + m) * Z, h * B + m, Z, 0);
    assert(h < T) by (nonlinear_arith) requires h * Z < B, T * Z == B, Z >= 1;
    assert((h * B + m) * Z < B * B) by (nonlinear_arith) requires h + 1 <= T, m < B, T * Z == B, Z >= 1;
}
pub proof fn dbl_big(s: Seq<u32>, z: int, man: int, e: int, M: int)
    requires ({ let n = s.len() as int; 1 <= n <= 32 && s[n - 1] != 0 && 0 <= z <= 31 && s[n - 1] * p2(z) < B && s[n - 1] * p2(z) >= 0x8000_0000 && (n == 1 ==> s[0] >= 0x8000_0000) && man == s[n - 1] * p2(32 + z) + lim(s, n - 2) * p2(z) + lim(s, n - 3) / p2(32 - z) && e == 32 * (n - 2) - z + 1086 && M == man / 2048 })
    ensures val(s) < p2(1024), 1 <= e < 2047, e >= 1075 ==> M * p2(e - 1075) <= val(s) && val(s) < (M + 1) * p2(e - 1075), e < 1075 ==> val(s) * p2(1075 - e) == M
{
    let n = s.len() as int; let V = val(s); let Z = p2(z); p2_52(); p2_pos(z); p2_add(32, z); p2_add(32 - z, z); let h = s[n - 1] as int; p2_pos(32 - z);
    pv_bound(s, 0, n); pw_mono(n, 32); p2_pw(32); pv_1(s, 0);
    if n == 1 {
        if z > 0 { p2_mono(1, z); assert(h * Z >= B) by (nonlinear_arith) requires h >= 0x8000_0000, Z >= 2; }
        pw_1(); unit(h); assert(V == h); floor_small(0, p2(32)); assert(z == 0); assert(man == h * B); assert(M == h * 0x20_0000); assert(e == 1054); assert(1075 - e == 21); assert(val(s) * p2(1075 - e) == M);
    } else {
        let Q = p2(32 * (n - 2)); p2_pw(n - 2); pw_pos(n - 2);
        let m = s[n - 2] as int;
        if n == 2 {
            pv_2(s, 0); p2_32(); floor_small(0, p2(32 - z)); 
            assert(man == V * Z) by (nonlinear_arith) requires man == h * (B * Z) + m * Z, V == m + B * h;
            assert(Q == 1);
            if z > 11 { p2_add(11, z - 11); let w = p2(z - 11); assert(V * (2048 * w) == (V * w) * 2048) by (nonlinear_arith); div_uniq(man, V * w, 2048, 0); assert(1075 - e == z - 11); assert(val(s) * p2(1075 - e) == M); }
        } else {
            let l = s[n - 3] as int; let P = pw(n - 3); let low = pv(s, 0, n - 3); pv_bound(s, 0, n - 3); pw_pos(n - 3); assert(pw(n - 2) == B * P); assert(pw(n - 1) == B * pw(n - 2));
            assert(pv(s, 0, n - 1) == pv(s, 0, n - 2) + m * pw(n - 2)); assert(pv(s, 0, n - 2) == low + l * P);
            let T = h * (B * B) + m * B + l; let t = p2(32 - z); div_eq(l, t);
            assert(V == T * P + low) by (nonlinear_arith) requires V == low + l * P + m * (B * P) + h * (B * (B * P)), T == h * (B * B) + m * B + l;
            assert(T * Z == man * B + (l % t) * Z) by (nonlinear_arith) requires T == h * (B * B) + m * B + l, man == h * (B * Z) + m * Z + l / t, l == (l / t) * t + l % t, t * Z == B;
            assert((l % t) * Z <= B - Z && (l % t) * Z >= 0) by (nonlinear_arith) requires 0 <= l % t, l % t <= t - 1, t * Z == B, Z >= 1;
            assert(V * Z == (T * Z) * P + low * Z) by (nonlinear_arith) requires V == T * P + low;
            assert((T * Z) * P >= (man * B) * P && (T * Z) * P <= (man * B + B - Z) * P) by (nonlinear_arith) requires man * B <= T * Z, T * Z <= man * B + B - Z, P >= 1;
            assert(low * Z < P * Z && low * Z >= 0) by (nonlinear_arith) requires 0 <= low < P, Z >= 1;
            assert((man * B) * P == man * Q && (man * B + B - Z) * P == (man + 1) * Q - P * Z) by (nonlinear_arith) requires Q == B * P;
        }
        assert(man * Q <= V * Z && V * Z < (man + 1) * Q) by { if n == 2 { assert(man * 1 == man && (man + 1) * 1 == man + 1); } }
        assert(M * 2048 * Q <= V * Z && V * Z < (M + 1) * 2048 * Q) by (nonlinear_arith) requires man * Q <= V * Z, V * Z < (man + 1) * Q, M * 2048 <= man, man + 1 <= (M + 1) * 2048, Q >= 1;
        if e >= 1075 {
            let E = p2(e - 1075); p2_pos(e - 1075); p2_add(e - 1075, z); p2_add(11, 32 * (n - 2)); assert(e - 1075 + z == 11 + 32 * (n - 2));
            assert(M * E <= V && V < (M + 1) * E) by (nonlinear_arith) requires M * 2048 * Q <= V * Z, V * Z < (M + 1) * 2048 * Q, E * Z == 2048 * Q, Z >= 1;
        }
    }
}
pub proof fn dbl_inf() ensures dexp(0x7FF0_0000_0000_0000) == 2047, dman(0x7FF0_0000_0000_0000) == 0, !dneg(0x7FF0_0000_0000_0000), dexp(0xFFF0_0000_0000_0000) == 2047, dman(0xFFF0_0000_0000_0000) == 0, dneg(0xFFF0_0000_0000_0000), 0x7FF0_0000_0000_0000u64 ^ 0x8000_0000_0000_0000u64 == 0xFFF0_0000_0000_0000u64
{ assert(0x7FF0_0000_0000_0000u64 ^ 0x8000_0000_0000_0000u64 == 0xFFF0_0000_0000_0000u64) by (bit_vector); }
pub proof fn dmag_is(b: int, sign: int, exp: int, man: int) requires 0 <= b < B * B, dparts_are(b, sign, exp, man), dexp(b) != 2047
    ensures 0 <= man < 0x20_0000_0000_0000, exp > 0 ==> man >= 0x10_0000_0000_0000, -1074 <= exp <= 971, man == 0 ==> dval(b) == 0, exp <= -64 ==> dval(b) == 0, -64 < exp <= 0 ==> dmag(b) == man / p2(-exp), exp > 0 ==> dmag(b) == man * p2(exp), dval(b) == (if sign < 0 { -dmag(b) } else { dmag(b) }), dmag(b) >= 0, sign == 1 || sign == -1
{
    dparts(b); p2_52(); let e = dexp(b); let m = dman(b) + 0x10_0000_0000_0000;
    if e == 0 {} else if e >= 1075 { p2_pos(e - 1075); mul_pos(m, p2(e - 1075)); if e == 1075 { assert(m * p2(0) == m); assert(m / p2(0) == m); } }
    else { p2_pos(1075 - e); div_eq(m, p2(1075 - e)); if exp <= -64 { p2_mono(64, 1075 - e); floor_small(m, p2(1075 - e)); } }
}
// the limbs of man * 2^exp as the constructor lays them out
pub proof fn dbl_limbs(s: Seq<u32>, man: int, exp: int, cu: int, cbit: int)
    requires 0x8000_0000_0000_0000 <= man < B * B, cu >= 1, 0 <= cbit < 32, cu * 32 == exp + cbit, s.len() == cu + 2, zeros(s, 0, cu - 1), s[cu + 1] == (man / p2(cbit + 32)) % B, s[cu] == (man / p2(cbit)) % B, s[cu - 1] == (if cbit > 0 { ((man % B) % p2(cbit)) * p2(32 - cbit) } else { 0 })
    ensures val(s) == man * p2(exp), s[cu + 1] != 0
{
    let n = s.len() as int; let Z = p2(cbit); let T = p2(32 - cbit); p2_pos(cbit); p2_pos(32 - cbit); p2_add(cbit, 32 - cbit); p2_52(); p2_add(cbit, 32); let P = pw(cu - 1); pw_pos(cu - 1); p2_pw(cu - 1);
    pv_split(s, 0, n, cu - 1); pv_zero(s, 0, cu - 1); pv_3(s, cu - 1); assert(val(s) == P * pv(s, cu - 1, 3));
    div_eq(man, Z); let q = man / Z; div_eq(q, B); div_twice(man, Z, B); comm(Z, B); p2_mono(cbit, 31); p2_add(31 - cbit, cbit); p2_add(31, 32); 
    assert(q < B * B) by (nonlinear_arith) requires q * Z <= man, man < B * B, Z >= 1; assert(q / B < B); floor_small(q / B, B); div_uniq(q / B, 0, B, q / B);
    assert(man == (s[cu + 1] * B + s[cu]) * Z + man % Z);
    div_eq(man, B); div_eq(man % B, Z); let a = man / B; assert(man == (a * T + (man % B) / Z) * Z + (man % B) % Z) by (nonlinear_arith) requires man == a * B + man % B, man % B == ((man % B) / Z) * Z + (man % B) % Z, Z * T == B; div_uniq(man, a * T + (man % B) / Z, Z, (man % B) % Z);
    let W = pv(s, cu - 1, 3); let r = man % Z;
    if cbit == 0 { assert(Z == 1); assert(T == B); assert(r == 0); assert(W == B * s[cu] + B * B * s[cu + 1]); }
    assert(W == r * T + B * s[cu] + B * B * s[cu + 1]) by { if cbit == 0 { assert(0 * T == 0); } }
    let a1 = s[cu + 1] as int; let b1 = s[cu] as int;
    assert(W == man * T) by (nonlinear_arith) requires W == r * T + B * b1 + B * B * a1, man == (a1 * B + b1) * Z + r, Z * T == B;
    p2_add(32 - cbit, 32 * (cu - 1)); assert(exp == 32 - cbit + 32 * (cu - 1)); assert(P * (man * T) == man * (T * P)) by (nonlinear_arith);
    if a1 == 0 { assert(b1 * Z + r < B * Z) by (nonlinear_arith) requires b1 <= B - 1, 0 <= r < Z; mul_le(Z, 0x8000_0000, B, B); }
}
