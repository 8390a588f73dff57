// ---- two's complement limb arrays
pub open spec fn twos(a: Seq<u32>, b: Seq<u32>, i: int) -> bool { pv(b, 0, i) == (if pv(a, 0, i) == 0 { 0 } else { pw(i) - pv(a, 0, i) }) }
pub proof fn twos_step(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>, i: int)
    requires twos(a, b, i), 0 <= i < a.len(), a.len() == b.len(), c == b.update(i, c[i]), if pv(b, 0, i) == 0 { c[i] == (if a[i] == 0 { 0 } else { B - a[i] }) } else { c[i] == B - 1 - a[i] }
    ensures twos(a, c, i + 1), pv(b, 0, i) == 0 ==> (c[i] == 0) == (pv(c, 0, i + 1) == 0), pv(b, 0, i) != 0 ==> pv(c, 0, i + 1) != 0
{
    pv_upd(b, i, c[i], 0, i + 1); pw_pos(i); let p = pw(i); let x = a[i] as int; let y = c[i] as int; pv_bound(a, 0, i); pv_bound(b, 0, i); pv_bound(c, 0, i);
    assert(pv(a, 0, i + 1) == pv(a, 0, i) + x * p); assert(pv(c, 0, i + 1) == pv(b, 0, i) + y * p); mul_pos(x, p); mul_pos(y, p);
    assert(0 * p == 0);
    if x > 0 { assert(x * p >= 1) by (nonlinear_arith) requires x >= 1, p >= 1; }
    if y > 0 { assert(y * p >= 1) by (nonlinear_arith) requires y >= 1, p >= 1; }
    assert((B - x) * p == B * p - x * p) by (nonlinear_arith); assert((B - 1 - x) * p == B * p - p - x * p) by (nonlinear_arith);
}
pub open spec fn ext(s: Seq<u32>, n: int, h: u32) -> int { pv(s, 0, n) - (if h == 0xffff_ffffu32 { pw(n) } else { 0 }) }
// the integer a two's complement limb array stands for
pub open spec fn tcv(s: Seq<u32>) -> int { if s.len() == 0 { 0 } else { val(s) - (if s[s.len() - 1] >= 0x8000_0000 { pw(s.len() as int) } else { 0 }) } }
// limbs on top that only repeat the sign
pub proof fn ext_trim(s: Seq<u32>, m: int, n: int, h: u32) requires 0 <= m <= n <= s.len(), h == 0 || h == 0xffff_ffff, forall|k: int| m <= k < n ==> s[k] == h ensures ext(s, n, h) == ext(s, m, h) decreases n - m
{ if m < n { ext_trim(s, m, n - 1, h); let p = pw(n - 1); assert(0xffff_ffff * p == B * p - p) by (nonlinear_arith); assert(0 * p == 0); } }
pub proof fn ext_frame(s: Seq<u32>, t: Seq<u32>, n: int, h: u32) requires 0 <= n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n ==> s[k] == t[k] ensures ext(s, n, h) == ext(t, n, h) { pv_frame(s, t, 0, n); }
pub proof fn ext_tcv(s: Seq<u32>, n: int, h: u32) requires 0 < s.len(), h == 0 || h == 0xffff_ffff, 0 <= n <= s.len(), n >= s.len() - 1, n == s.len() ==> (s[n - 1] >= 0x8000_0000) == (h != 0), n < s.len() ==> s[n] == h ensures tcv(s) == ext(s, n, h)
{ if n < s.len() { ext_trim(s, n, n + 1, h); } }
// a negative array: its complement is the magnitude
pub proof fn neg_mag(s: Seq<u32>) requires s.len() > 0, s[s.len() - 1] >= 0x8000_0000 ensures val(s) > 0, val(s) < pw(s.len() as int), pw(s.len() as int) - val(s) <= pw(s.len() as int) - pw(s.len() - 1)
{ pv_ge(s, 0, s.len() as int); pw_pos(s.len() - 1); pv_bound(s, 0, s.len() as int); }
// ---- the digits of infinite two's complement
pub open spec fn dig(x: int, i: int) -> int { (x / pw(i)) % B }
pub open spec fn extd(s: Seq<u32>, i: int) -> u32 { if i < s.len() { s[i] } else if s.len() > 0 && s[s.len() - 1] >= 0x8000_0000 { 0xffff_ffffu32 } else { 0u32 } }
pub proof fn floor_small(x: int, p: int) requires p > 0, -p <= x < p ensures x / p == (if x < 0 { -1int } else { 0int })
{ if x < 0 { div_uniq(x, -1, p, x + p); } else { div_uniq(x, 0, p, x); } }
pub proof fn floor_dig(x: int, p: int, lo: int, d: int, r: int) requires p > 0, 0 <= lo < p, 0 <= d < B, x == lo + p * (d + B * r) ensures (x / p) % B == d
{ comm(p, d + B * r); div_uniq(x, d + B * r, p, lo); comm(B, r); div_uniq(d + B * r, r, B, d); }
pub proof fn tcv_neg(s: Seq<u32>) ensures (tcv(s) < 0) == (s.len() > 0 && s[s.len() - 1] >= 0x8000_0000), -pw(s.len() as int) <= tcv(s) < pw(s.len() as int)
{ pv_bound(s, 0, s.len() as int); pw_pos(s.len() as int); }
pub proof fn tcv_dig(s: Seq<u32>, i: int) requires i >= 0 ensures dig(tcv(s), i) == extd(s, i)
{
    let n = s.len() as int; pw_pos(i); tcv_neg(s);
    if i >= n { pw_mono(n, i); floor_small(tcv(s), pw(i)); assert((-1int) % B == B - 1); assert(0int % B == 0); }
    else {
        pv_split(s, 0, n, i); pv_low(s, i, n - i); pv_bound(s, 0, i);
        let top = if s[n - 1] >= 0x8000_0000 { 1int } else { 0int };
        pw_add(i, n - i); let q = pw(n - i - 1); assert(pw(n - i) == B * q);
        let rest = pv(s, i + 1, n - i - 1);
        assert(top * pw(n) == pw(i) * (B * (top * q))) by (nonlinear_arith) requires pw(n) == pw(i) * (B * q);
        assert(top * pw(n) == (if s[n - 1] >= 0x8000_0000 { pw(n) } else { 0 })) by { assert(1 * pw(n) == pw(n)); assert(0 * pw(n) == 0); }
        dist(pw(i), s[i] + B * rest, B * (top * q)); dist(B, rest, top * q);
        floor_dig(tcv(s), pw(i), pv(s, 0, i), s[i] as int, rest - top * q);
    }
}
pub proof fn int_dig(a: int, i: int) requires -0x8000_0000 <= a < 0x8000_0000, i >= 0 ensures dig(a, i) == (if i == 0 { wrap_u32(a) } else if a < 0 { B - 1 } else { 0 })
{ pw_pos(i); pw_1(); if i > 0 { pw_mono(1, i); floor_small(a, pw(i)); assert((-1int) % B == B - 1); } }

pub open spec fn band(r: int, a: int, b: int) -> bool { forall|i: int| i >= 0 ==> #[trigger] dig(r, i) == (dig(a, i) as u32) & (dig(b, i) as u32) }
pub proof fn band_vec(x: Seq<u32>, y: Seq<u32>, z: Seq<u32>) requires z.len() >= x.len(), z.len() >= y.len(), z.len() == x.len() || z.len() == y.len(), forall|k: int| 0 <= k < z.len() ==> #[trigger] z[k] == extd(x, k) & extd(y, k)
    ensures band(tcv(z), tcv(x), tcv(y))
{
    assert forall|i: int| i >= 0 implies #[trigger] dig(tcv(z), i) == (dig(tcv(x), i) as u32) & (dig(tcv(y), i) as u32) by {
        tcv_dig(x, i); tcv_dig(y, i); tcv_dig(z, i);
        let u = extd(x, i); let v = extd(y, i);
        assert(0u32 & 0u32 == 0u32 && 0u32 & 0xffff_ffffu32 == 0u32 && 0xffff_ffffu32 & 0u32 == 0u32 && 0xffff_ffffu32 & 0xffff_ffffu32 == 0xffff_ffffu32) by (bit_vector);
        if i >= z.len() && z.len() > 0 { let e = z.len() - 1; let p = extd(x, e); let q = extd(y, e); let w = z[e];
            assert(w == p & q); assert((p & q >= 0x8000_0000u32) == ((p >= 0x8000_0000u32) && (q >= 0x8000_0000u32))) by (bit_vector);
            assert((p >= 0x8000_0000) == (u != 0)); assert((q >= 0x8000_0000) == (v != 0)); }
    }
}
pub proof fn band_int(a: int, b: int, r: int) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000, -0x8000_0000 <= r < 0x8000_0000, wrap_u32(r) == (wrap_u32(a) as u32) & (wrap_u32(b) as u32)
    ensures band(r, a, b)
{
    let p = wrap_u32(a) as u32; let q = wrap_u32(b) as u32;
    assert((p & q >= 0x8000_0000u32) == ((p >= 0x8000_0000u32) && (q >= 0x8000_0000u32))) by (bit_vector);
    assert(0u32 & 0u32 == 0u32 && 0u32 & 0xffff_ffffu32 == 0u32 && 0xffff_ffffu32 & 0u32 == 0u32 && 0xffff_ffffu32 & 0xffff_ffffu32 == 0xffff_ffffu32) by (bit_vector);
    assert forall|i: int| i >= 0 implies #[trigger] dig(r, i) == (dig(a, i) as u32) & (dig(b, i) as u32) by { int_dig(a, i); int_dig(b, i); int_dig(r, i); }
}

pub open spec fn bor(r: int, a: int, b: int) -> bool { forall|i: int| i >= 0 ==> #[trigger] dig(r, i) == (dig(a, i) as u32) | (dig(b, i) as u32) }
pub proof fn bor_vec(x: Seq<u32>, y: Seq<u32>, z: Seq<u32>) requires z.len() >= x.len(), z.len() >= y.len(), z.len() == x.len() || z.len() == y.len(), forall|k: int| 0 <= k < z.len() ==> #[trigger] z[k] == extd(x, k) | extd(y, k)
    ensures bor(tcv(z), tcv(x), tcv(y))
{
    assert forall|i: int| i >= 0 implies #[trigger] dig(tcv(z), i) == (dig(tcv(x), i) as u32) | (dig(tcv(y), i) as u32) by {
        tcv_dig(x, i); tcv_dig(y, i); tcv_dig(z, i);
        let u = extd(x, i); let v = extd(y, i);
        assert(0u32 | 0u32 == 0u32 && 0u32 | 0xffff_ffffu32 == 0xffff_ffffu32 && 0xffff_ffffu32 | 0u32 == 0xffff_ffffu32 && 0xffff_ffffu32 | 0xffff_ffffu32 == 0xffff_ffffu32) by (bit_vector);
        if i >= z.len() && z.len() > 0 { let e = z.len() - 1; let p = extd(x, e); let q = extd(y, e); let w = z[e];
            assert(w == p | q); assert((p | q >= 0x8000_0000u32) == ((p >= 0x8000_0000u32) || (q >= 0x8000_0000u32))) by (bit_vector);
            assert((p >= 0x8000_0000) == (u != 0)); assert((q >= 0x8000_0000) == (v != 0)); }
    }
}
pub proof fn bor_int(a: int, b: int, r: int) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000, -0x8000_0000 <= r < 0x8000_0000, wrap_u32(r) == (wrap_u32(a) as u32) | (wrap_u32(b) as u32)
    ensures bor(r, a, b)
{
    let p = wrap_u32(a) as u32; let q = wrap_u32(b) as u32;
    assert((p | q >= 0x8000_0000u32) == ((p >= 0x8000_0000u32) || (q >= 0x8000_0000u32))) by (bit_vector);
    assert(0u32 | 0u32 == 0u32 && 0u32 | 0xffff_ffffu32 == 0xffff_ffffu32 && 0xffff_ffffu32 | 0u32 == 0xffff_ffffu32 && 0xffff_ffffu32 | 0xffff_ffffu32 == 0xffff_ffffu32) by (bit_vector);
    assert forall|i: int| i >= 0 implies #[trigger] dig(r, i) == (dig(a, i) as u32) | (dig(b, i) as u32) by { int_dig(a, i); int_dig(b, i); int_dig(r, i); }
}

pub open spec fn bxor(r: int, a: int, b: int) -> bool { forall|i: int| i >= 0 ==> #[trigger] dig(r, i) == (dig(a, i) as u32) ^ (dig(b, i) as u32) }
pub proof fn bxor_vec(x: Seq<u32>, y: Seq<u32>, z: Seq<u32>) requires z.len() >= x.len(), z.len() >= y.len(), z.len() == x.len() || z.len() == y.len(), forall|k: int| 0 <= k < z.len() ==> #[trigger] z[k] == extd(x, k) ^ extd(y, k)
    ensures bxor(tcv(z), tcv(x), tcv(y))
{
    assert forall|i: int| i >= 0 implies #[trigger] dig(tcv(z), i) == (dig(tcv(x), i) as u32) ^ (dig(tcv(y), i) as u32) by {
        tcv_dig(x, i); tcv_dig(y, i); tcv_dig(z, i);
        let u = extd(x, i); let v = extd(y, i);
        assert(0u32 ^ 0u32 == 0u32 && 0u32 ^ 0xffff_ffffu32 == 0xffff_ffffu32 && 0xffff_ffffu32 ^ 0u32 == 0xffff_ffffu32 && 0xffff_ffffu32 ^ 0xffff_ffffu32 == 0u32) by (bit_vector);
        if i >= z.len() && z.len() > 0 { let e = z.len() - 1; let p = extd(x, e); let q = extd(y, e); let w = z[e];
            assert(w == p ^ q); assert((p ^ q >= 0x8000_0000u32) == ((p >= 0x8000_0000u32) != (q >= 0x8000_0000u32))) by (bit_vector);
            assert((p >= 0x8000_0000) == (u != 0)); assert((q >= 0x8000_0000) == (v != 0)); }
    }
}
pub proof fn bxor_int(a: int, b: int, r: int) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000, -0x8000_0000 <= r < 0x8000_0000, wrap_u32(r) == (wrap_u32(a) as u32) ^ (wrap_u32(b) as u32)
    ensures bxor(r, a, b)
{
    let p = wrap_u32(a) as u32; let q = wrap_u32(b) as u32;
    assert((p ^ q >= 0x8000_0000u32) == ((p >= 0x8000_0000u32) != (q >= 0x8000_0000u32))) by (bit_vector);
    assert(0u32 ^ 0u32 == 0u32 && 0u32 ^ 0xffff_ffffu32 == 0xffff_ffffu32 && 0xffff_ffffu32 ^ 0u32 == 0xffff_ffffu32 && 0xffff_ffffu32 ^ 0xffff_ffffu32 == 0u32) by (bit_vector);
    assert forall|i: int| i >= 0 implies #[trigger] dig(r, i) == (dig(a, i) as u32) ^ (dig(b, i) as u32) by { int_dig(a, i); int_dig(b, i); int_dig(r, i); }
}

pub proof fn dig0(i: int) requires i >= 0 ensures dig(0, i) == 0 { pw_pos(i); floor_small(0, pw(i)); }
pub proof fn dig_rng(x: int, i: int) ensures 0 <= dig(x, i) < B { lemma_mod_bound(x / pw(i), B); }
pub proof fn bzero(a: int, b: int) ensures a == 0 || b == 0 ==> band(0, a, b), a == 0 ==> bor(b, a, b), b == 0 ==> bor(a, a, b)
{
    assert forall|i: int| i >= 0 && (a == 0 || b == 0) implies #[trigger] dig(0, i) == (dig(a, i) as u32) & (dig(b, i) as u32) by { dig0(i); let p = dig(a, i) as u32; let q = dig(b, i) as u32; assert(0u32 & q == 0 && p & 0u32 == 0) by (bit_vector); }
    if a == 0 { assert forall|i: int| i >= 0 implies #[trigger] dig(b, i) == (dig(a, i) as u32) | (dig(b, i) as u32) by { dig0(i); dig_rng(b, i); let q = dig(b, i) as u32; assert(0u32 | q == q) by (bit_vector); } }
    if b == 0 { assert forall|i: int| i >= 0 implies #[trigger] dig(a, i) == (dig(a, i) as u32) | (dig(b, i) as u32) by { dig0(i); dig_rng(a, i); let q = dig(a, i) as u32; assert(q | 0u32 == q) by (bit_vector); } }
}
pub proof fn band_ints(a: int, b: int) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000
    ensures forall|r: int| -0x8000_0000 <= r < 0x8000_0000 && #[trigger] wrap_u32(r) == (wrap_u32(a) as u32) & (wrap_u32(b) as u32) ==> band(r, a, b)
{ assert forall|r: int| -0x8000_0000 <= r < 0x8000_0000 && #[trigger] wrap_u32(r) == (wrap_u32(a) as u32) & (wrap_u32(b) as u32) implies band(r, a, b) by { band_int(a, b, r); } }
pub proof fn bor_ints(a: int, b: int) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000
    ensures forall|r: int| -0x8000_0000 <= r < 0x8000_0000 && #[trigger] wrap_u32(r) == (wrap_u32(a) as u32) | (wrap_u32(b) as u32) ==> bor(r, a, b)
{ assert forall|r: int| -0x8000_0000 <= r < 0x8000_0000 && #[trigger] wrap_u32(r) == (wrap_u32(a) as u32) | (wrap_u32(b) as u32) implies bor(r, a, b) by { bor_int(a, b, r); } }
pub proof fn bxor_ints(a: int, b: int) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000
    ensures forall|r: int| -0x8000_0000 <= r < 0x8000_0000 && #[trigger] wrap_u32(r) == (wrap_u32(a) as u32) ^ (wrap_u32(b) as u32) ==> bxor(r, a, b)
{ assert forall|r: int| -0x8000_0000 <= r < 0x8000_0000 && #[trigger] wrap_u32(r) == (wrap_u32(a) as u32) ^ (wrap_u32(b) as u32) implies bxor(r, a, b) by { bxor_int(a, b, r); } }
// bitwise or of disjoint parts is their sum
pub proof fn p2_pow2(n: nat) ensures p2(n as int) == vstd::arithmetic::power2::pow2(n) decreases n
{ vstd::arithmetic::power2::lemma2_to64(); if n > 0 { p2_pow2((n - 1) as nat); vstd::arithmetic::power2::lemma_pow2_unfold(n); } }
pub proof fn or_sum(a: u32, b: u32, s: int) requires 0 <= s < 32, a as int % p2(s) == 0, (b as int) < p2(s) ensures (a | b) as int == a as int + b as int, (b | a) as int == a as int + b as int
{ assert(a | b == b | a) by (bit_vector);
    let t = s as u32; p2_pow2(s as nat); p2_pos(s); let p = p2(s); div_eq(a as int, p); div_eq(b as int, p); floor_small(b as int, p);
    vstd::bits::lemma_u32_shr_is_div(a, t); vstd::bits::lemma_u32_shr_is_div(b, t); let q = a >> t;
    assert(q as int * p == a); vstd::bits::lemma_u32_shl_is_mul(q, t);
    assert((a | b) == add(a, b) && (a | b) >= a && (a | b) >= b) by (bit_vector) requires t < 32, (a >> t) << t == a, b >> t == 0;
    assert(a as int + b as int <= 0xffff_ffff) by { assert(a <= 0xffff_ffffu32 - b) by (bit_vector) requires t < 32, (a >> t) << t == a, b >> t == 0; }
}
