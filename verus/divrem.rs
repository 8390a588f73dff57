// limbs (h, b, c) of a number shifted left by s: the leading ones
pub proof fn shift_top(h: int, b: int, c: int, s: int, hi: int, lo: int)
    requires 0 <= s <= 31, 0 <= b < B, 0 <= c < B, h >= 0,
        s > 0 ==> hi == h * p2(s) + b / p2(32 - s) && lo == (b % p2(32 - s)) * p2(s) + c / p2(32 - s), s == 0 ==> hi == h && lo == b
    ensures (hi * B + lo) * B <= (h * (B * B) + b * B + c) * p2(s), (h * (B * B) + b * B + c + 1) * p2(s) <= (hi * B + lo + 1) * B, 0 <= lo < B
{
    p2_32(); p2_add(s, 32 - s); p2_pos(s); p2_pos(32 - s); let p = p2(s); let q = p2(32 - s);
    if s == 0 { assert(p == 1); }
    else {
        let bh = b / q; let bl = b % q; let ch = c / q; let cl = c % q;
        div_eq(b, q); div_eq(c, q);
        // b p == bh B + bl p, c p == ch B + cl p
        assert((bh * q + bl) * p == bh * (p * q) + bl * p) by (nonlinear_arith);
        assert((ch * q + cl) * p == ch * (p * q) + cl * p) by (nonlinear_arith);
        assert((h * (B * B) + b * B + c) * p == h * p * (B * B) + (b * p) * B + c * p) by (nonlinear_arith);
        assert((h * (B * B) + b * B + c + 1) * p == (h * (B * B) + b * B + c) * p + p) by (nonlinear_arith);
        assert(((h * p + bh) * B + (bl * p + ch)) * B == h * p * (B * B) + bh * (B * B) + bl * p * B + ch * B) by (nonlinear_arith);
        assert((bh * B + bl * p) * B == bh * (B * B) + bl * p * B) by (nonlinear_arith);
        assert(0 <= cl * p && cl * p + p <= B) by (nonlinear_arith) requires 0 <= cl <= q - 1, p >= 1, p * q == B;
        assert(0 <= bl * p && bl * p + p <= B) by (nonlinear_arith) requires 0 <= bl <= q - 1, p >= 1, p * q == B;
        assert(0 <= ch && ch <= p - 1) by (nonlinear_arith) requires ch * q + cl < p * q, 0 <= cl < q, p >= 1, q >= 1, ch >= 0;
    }
}
// the shifts the code does stay within their words
pub proof fn shift_fit(h: int, b: int, s: int, M: int)
    requires 0 < s <= 31, 0 <= b < B, 0 <= h, (h + 1) * p2(s) <= M * B || h * p2(s) < M * B, M >= 1
    ensures b / p2(32 - s) < p2(s), 0 <= b / p2(32 - s), (b % p2(32 - s)) * p2(s) < B, h * p2(s) < M * B, (h * p2(s)) % p2(s) == 0, ((b % p2(32 - s)) * p2(s)) % p2(s) == 0,
        b % p2(32 - s) >= 0
{
    p2_32(); p2_add(s, 32 - s); p2_pos(s); p2_pos(32 - s); let p = p2(s); let q = p2(32 - s);
    div_eq(b, q); let bh = b / q; let bl = b % q;
    assert(bh < p) by (nonlinear_arith) requires bh * q + bl < p * q, 0 <= bl, q >= 1;
    assert(bl * p < B) by (nonlinear_arith) requires 0 <= bl <= q - 1, p >= 1, p * q == B;
    assert((h + 1) * p == h * p + p) by (nonlinear_arith);
    lemma_mod_multiples_basic(h, p); lemma_mod_multiples_basic(bl, p);
}
pub open spec fn limb(s: Seq<u32>, i: int, ok: bool) -> int { if ok { s[i] as int } else { 0 } }
// the leading limbs of a value, scaled: s has n limbs (n >= 1) and a limb t above them
pub proof fn top3(s: Seq<u32>, o: int, n: int, t: int)
    requires n >= 1
    ensures ({ let h = t * B + s[o + n - 1]; let b = limb(s, o + n - 2, n > 1); let c = limb(s, o + n - 3, n > 2); let v = t * pw(n) + pv(s, o, n);
        (h * (B * B) + b * B + c) * pw(n - 1) <= v * (B * B) && v * (B * B) < (h * (B * B) + b * B + c + 1) * pw(n - 1) && 0 <= b < B && 0 <= c < B })
{
    pw_1(); let l = s[o + n - 1] as int; let p = pw(n - 1); pw_pos(n - 1); let h = t * B + l;
    assert(pv(s, o, n) == pv(s, o, n - 1) + l * p);
    assert((t * B + l) * p == t * (B * p) + l * p) by (nonlinear_arith);
    assert((h * p + pv(s, o, n - 1)) * (B * B) == h * (B * B) * p + pv(s, o, n - 1) * (B * B)) by (nonlinear_arith);
    let b = limb(s, o + n - 2, n > 1); let c = limb(s, o + n - 3, n > 2);
    assert((h * (B * B) + b * B + c) * p == h * (B * B) * p + b * B * p + c * p) by (nonlinear_arith);
    assert((h * (B * B) + b * B + c + 1) * p == h * (B * B) * p + b * B * p + c * p + p) by (nonlinear_arith);
    if n > 1 {
        let p1 = pw(n - 2); pw_pos(n - 2); assert(p == B * p1);
        assert(pv(s, o, n - 1) == pv(s, o, n - 2) + b * p1);
        assert((pv(s, o, n - 2) + b * p1) * (B * B) == pv(s, o, n - 2) * (B * B) + b * B * (B * p1)) by (nonlinear_arith);
        if n > 2 {
            let p0 = pw(n - 3); pw_pos(n - 3); assert(p1 == B * p0); pv_bound(s, o, n - 3); let r = pv(s, o, n - 3);
            assert(pv(s, o, n - 2) == r + c * p0);
            assert((r + c * p0) * (B * B) == r * (B * B) + c * (B * (B * p0))) by (nonlinear_arith);
            assert(r * (B * B) < B * (B * p0) && 0 <= r * (B * B)) by (nonlinear_arith) requires 0 <= r <= p0 - 1;
        } else { assert(pv(s, o, n - 2) == 0); assert(0 * (B * B) == 0); assert(0 * p == 0); }
    } else { assert(pv(s, o, n - 1) == 0); assert(p == 1); }
}
// combine: m two leading limbs of v << s
pub proof fn top_shift(v: int, s: int, m: int, T: int, P: int)
    requires T * P <= v * (B * B), v * (B * B) < (T + 1) * P, m * B <= T * p2(s), (T + 1) * p2(s) <= (m + 1) * B, P >= 1
    ensures m * P <= v * p2(s) * B, v * p2(s) * B < (m + 1) * P
{
    p2_pos(s); let p = p2(s);
    assert(m * B * P <= T * p * P) by (nonlinear_arith) requires m * B <= T * p, P >= 1;
    assert(T * p * P <= v * (B * B) * p) by (nonlinear_arith) requires T * P <= v * (B * B), p >= 1;
    assert((T + 1) * p * P <= (m + 1) * B * P) by (nonlinear_arith) requires (T + 1) * p <= (m + 1) * B, P >= 1;
    assert(v * (B * B) * p < (T + 1) * p * P) by (nonlinear_arith) requires v * (B * B) < (T + 1) * P, p >= 1;
    assert(v * (B * B) * p == v * p * B * B) by (nonlinear_arith);
    assert(m * B * P == m * P * B && (m + 1) * B * P == (m + 1) * P * B) by (nonlinear_arith);
    assert(m * P <= v * p * B) by (nonlinear_arith) requires m * P * B <= v * p * B * B;
    assert(v * p * B < (m + 1) * P) by (nonlinear_arith) requires v * p * B * B < (m + 1) * P * B;
}
// Knuth: the guess is the digit q or q + 1.  D divisor, V dividend, N = pw(n), P = pw(rl - 1), R = P N
pub proof fn knuth(D: int, V: int, N: int, P: int, s: int, d2: int, v3: int, q: int)
    requires D >= 1, N >= 1, P >= 1, V >= 0, 0 <= q < B, q * (D * N) <= V, V < (q + 1) * (D * N),
        d2 * P <= D * p2(s) * B, D * p2(s) * B < (d2 + 1) * P, v3 * (P * N) <= V * p2(s) * B, V * p2(s) * B < (v3 + 1) * (P * N), 2 * (D * p2(s)) >= B * P
    ensures q * d2 <= v3, forall|g: int| 0 <= g < B && #[trigger] (g * d2) <= v3 ==> g <= q + 1
{
    p2_pos(s); let p = p2(s); let W = D * p * B; let X = V * p * B;
    assert(q * d2 * (P * N) <= q * W * N) by (nonlinear_arith) requires d2 * P <= W, q >= 0, N >= 1;
    assert(q * W * N == q * (D * N) * (p * B)) by (nonlinear_arith) requires W == D * p * B;
    assert(q * (D * N) * (p * B) <= V * (p * B)) by (nonlinear_arith) requires q * (D * N) <= V, p >= 1;
    assert(V * (p * B) == X) by (nonlinear_arith) requires X == V * p * B;
    assert(P * N >= 1) by (nonlinear_arith) requires P >= 1, N >= 1;
    assert(q * d2 < v3 + 1) by (nonlinear_arith) requires q * d2 * (P * N) < (v3 + 1) * (P * N), P * N >= 1;
    assert forall|g: int| 0 <= g < B && #[trigger] (g * d2) <= v3 implies g <= q + 1 by {
        if g > q + 1 {
            // g W N < = (g d2 + g) P N <= (v3 + g) P N <= X + g P N
            assert(g * (W * N) <= g * ((d2 + 1) * P * N)) by (nonlinear_arith) requires W < (d2 + 1) * P, g >= 0, N >= 1;
            assert(g * ((d2 + 1) * P * N) == (g * d2 + g) * (P * N)) by (nonlinear_arith);
            assert((g * d2 + g) * (P * N) <= (v3 + g) * (P * N)) by (nonlinear_arith) requires g * d2 <= v3, P * N >= 1;
            assert((v3 + g) * (P * N) == v3 * (P * N) + g * (P * N)) by (nonlinear_arith);
            assert(g * (P * N) < B * (P * N)) by (nonlinear_arith) requires g < B, P * N >= 1;
            // W N >= B B P N / 2
            assert(2 * (W * N) >= B * B * (P * N)) by (nonlinear_arith) requires W == D * p * B, 2 * (D * p) >= B * P, N >= 1;
            // so (g - 1) W N < X
            assert((g - 1) * (W * N) == g * (W * N) - W * N) by (nonlinear_arith);
            assert((g - 1) * (W * N) < X);
            assert((q + 1) * (W * N) <= (g - 1) * (W * N)) by (nonlinear_arith) requires q + 1 <= g - 1, W * N >= 0;
            assert((q + 1) * (W * N) == (q + 1) * (D * N) * (p * B)) by (nonlinear_arith) requires W == D * p * B;
            assert(V * (p * B) < (q + 1) * (D * N) * (p * B)) by (nonlinear_arith) requires V < (q + 1) * (D * N), p >= 1;
        }
    }
}
// two leading limbs of the dividend still fit 64 bits after the shift
pub proof fn hi_fits(h: int, V: int, D: int, a: int, s: int, i: int, rl: int)
    requires 1 <= rl <= i, 0 <= s <= 31, h >= 0, h * pw(i - 1) <= V, V < D * pw(i - rl + 1), D < (a + 1) * pw(rl - 1), a * p2(s) < B, a >= 0
    ensures h * p2(s) < B * B, D * p2(s) < pw(rl)
{
    p2_32(); p2_add(s, 32 - s); p2_pos(s); p2_pos(32 - s); let p = p2(s); let q = p2(32 - s);
    assert(a + 1 <= q) by (nonlinear_arith) requires a * p < p * q, p >= 1;
    assert((a + 1) * p <= B) by (nonlinear_arith) requires a + 1 <= q, p * q == B, p >= 1;
    let P = pw(rl - 1); pw_pos(rl - 1);
    assert(D * p < (a + 1) * P * p) by (nonlinear_arith) requires D < (a + 1) * P, p >= 1;
    assert((a + 1) * P * p <= B * P) by (nonlinear_arith) requires (a + 1) * p <= B, P >= 1;
    assert(pw(rl) == B * P);
    let N = pw(i - rl + 1); pw_pos(i - rl + 1); let Q = pw(i - 1); pw_pos(i - 1);
    pw_add(rl - 1, i - rl + 1); pw_1(); pw_add(i - 1, 1); assert(P * N == B * Q);
    assert(h * Q * p <= V * p) by (nonlinear_arith) requires h * Q <= V, p >= 1;
    assert(V * p < D * p * N) by (nonlinear_arith) requires V < D * N, p >= 1;
    assert(D * p * N <= B * P * N) by (nonlinear_arith) requires D * p <= B * P, N >= 1;
    assert(B * P * N == B * B * Q) by (nonlinear_arith) requires P * N == B * Q;
    assert(h * Q * p == h * p * Q) by (nonlinear_arith);
    assert(h * p < B * B) by (nonlinear_arith) requires h * p * Q < B * B * Q, Q >= 1;
}
pub proof fn div_ge(D: int, a: int, s: int, P: int) requires D >= a * P, a * p2(s) >= 0x8000_0000, P >= 1 ensures 2 * (D * p2(s)) >= B * P, D >= 1
{ p2_pos(s); let p = p2(s); assert(D * p >= a * P * p) by (nonlinear_arith) requires D >= a * P, p >= 1; assert(a * P * p == a * p * P) by (nonlinear_arith); assert(a * p * P >= 0x8000_0000 * P) by (nonlinear_arith) requires a * p >= 0x8000_0000, P >= 1;
  if D < 1 { assert(D * p <= 0) by (nonlinear_arith) requires D <= 0, p >= 1; } }
// the digit belongs to the dividend: q = V / (D N)
pub proof fn digit_fits(V: int, D: int, N: int) requires 0 <= V < D * (B * N), D >= 1, N >= 1 ensures ({ let q = V / (D * N); 0 <= q < B && q * (D * N) <= V && V < (q + 1) * (D * N) })
{ assert(D * N >= 1) by (nonlinear_arith) requires D >= 1, N >= 1; div_eq(V, D * N); let q = V / (D * N); assert(q < B) by (nonlinear_arith) requires q * (D * N) <= V, V < D * (B * N), D * N >= 1; assert((q + 1) * (D * N) == q * (D * N) + D * N) by (nonlinear_arith); }
// q is at most the guess from the leading limbs
pub proof fn guess_ge(q: int, d2: int, v3: int, dh: int, dl: int, vh: int, vl: int) requires q >= 0, d2 == dh * B + dl, v3 == vh * B + vl, q * d2 <= v3, 0 <= dl, 0 <= vl < B, dh >= 1, vh >= 0 ensures q <= vh / dh
{ assert(q * dh * B <= q * d2) by (nonlinear_arith) requires d2 == dh * B + dl, dl >= 0, q >= 0; assert(q * dh <= vh) by (nonlinear_arith) requires q * dh * B <= v3, v3 == vh * B + vl, vl < B; div_eq(vh, dh); let g = vh / dh; let r = vh % dh; assert(q <= g) by (nonlinear_arith) requires q * dh <= g * dh + r, r < dh, dh >= 1; }
// window of the dividend around the divisor: V = lo + N X, X = t pw(rl) + w
pub proof fn window(V: int, lo: int, N: int, X: int, D: int, q: int) requires V == lo + N * X, 0 <= lo <= N - 1, q * (D * N) <= V, V < (q + 1) * (D * N), N >= 1
    ensures q * D <= X, X < (q + 1) * D, X - q * D < D, V - q * (D * N) == lo + N * (X - q * D), lo + N * (X - q * D) < D * N
{
    assert(q * (D * N) == q * D * N) by (nonlinear_arith); assert((q + 1) * (D * N) == (q + 1) * D * N) by (nonlinear_arith);
    assert(N * X == X * N) by (nonlinear_arith);
    assert(q * D <= X) by (nonlinear_arith) requires q * D * N <= lo + X * N, lo <= N - 1, N >= 1;
    assert(X < (q + 1) * D) by (nonlinear_arith) requires lo + X * N < (q + 1) * D * N, lo >= 0, N >= 1;
    assert((q + 1) * D == q * D + D) by (nonlinear_arith);
    assert(N * (X - q * D) == X * N - q * D * N) by (nonlinear_arith);
    assert(lo + N * (X - q * D) < D * N) by (nonlinear_arith) requires lo <= N - 1, X - q * D <= D - 1, N >= 1;
}
// the borrow out of the window tells whether the guess was one too high
pub proof fn borrow_cases(X: int, t: int, w: int, w2: int, c: int, P: int, D: int, g: int, q: int) requires X == t * P + w, w2 == w - g * D + c * P, 0 <= w2 < P, 0 <= w < P, q * D <= X, X < (q + 1) * D, g == q || g == q + 1, 1 <= D < P
    ensures g == q ==> c == t && w2 == X - q * D, g == q + 1 ==> c == t + 1 && w2 == X - q * D - D + P
{
    assert((q + 1) * D == q * D + D) by (nonlinear_arith);
    let e = t - c; assert((t - c) * P == t * P - c * P) by (nonlinear_arith);
    if g == q { assert(e == 0) by (nonlinear_arith) requires 0 <= e * P + w2 < P, 0 <= w2 < P, P >= 1; assert(0 * P == 0); }
    else { assert(e == -1) by (nonlinear_arith) requires -P < e * P + w2 < 0, 0 <= w2 < P, P >= 1; assert(-1 * P == -P); }
}
pub proof fn acc_digit(Q: int, x: int, N: int, D: int, q: int, hi: int) requires Q == hi * (B * N) ensures (Q + q * N) * D == Q * D + q * (D * N), Q + q * N == (q + B * hi) * N
{ assert((Q + q * N) * D == Q * D + q * (D * N)) by (nonlinear_arith); assert(hi * (B * N) + q * N == (q + B * hi) * N) by (nonlinear_arith); }
pub proof fn subdiv_step(p: int, d: int, l: int, c: int, r: int, q: int, c2: int, R: int) requires d == l - c - r * q + c2 * B, true ensures (d - l) * p == -(c * p) - q * (r * p) + c2 * (B * p), q * (R + r * p) == q * R + q * (r * p)
{ assert((d - l) * p == -(c * p) - q * (r * p) + c2 * (B * p)) by (nonlinear_arith) requires d == l - c - r * q + c2 * B; assert(q * (R + r * p) == q * R + q * (r * p)) by (nonlinear_arith); }
pub proof fn p2_tab() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024, p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536, p2(17) == 131072, p2(18) == 262144, p2(19) == 524288, p2(20) == 1048576, p2(21) == 2097152, p2(22) == 4194304, p2(23) == 8388608, p2(24) == 16777216, p2(25) == 33554432, p2(26) == 67108864, p2(27) == 134217728, p2(28) == 268435456, p2(29) == 536870912, p2(30) == 1073741824, p2(31) == 2147483648, p2(32) == 4294967296 { reveal_with_fuel(p2, 33); }
// products by a power of two with a known exponent
pub proof fn lz_tab(v: int, c: int) ensures c == 0 ==> v * p2(c) == v * 1, c == 1 ==> v * p2(c) == v * 2, c == 2 ==> v * p2(c) == v * 4, c == 3 ==> v * p2(c) == v * 8, c == 4 ==> v * p2(c) == v * 16, c == 5 ==> v * p2(c) == v * 32, c == 6 ==> v * p2(c) == v * 64, c == 7 ==> v * p2(c) == v * 128, c == 8 ==> v * p2(c) == v * 256, c == 9 ==> v * p2(c) == v * 512, c == 10 ==> v * p2(c) == v * 1024, c == 11 ==> v * p2(c) == v * 2048, c == 12 ==> v * p2(c) == v * 4096, c == 13 ==> v * p2(c) == v * 8192, c == 14 ==> v * p2(c) == v * 16384, c == 15 ==> v * p2(c) == v * 32768, c == 16 ==> v * p2(c) == v * 65536, c == 17 ==> v * p2(c) == v * 131072, c == 18 ==> v * p2(c) == v * 262144, c == 19 ==> v * p2(c) == v * 524288, c == 20 ==> v * p2(c) == v * 1048576, c == 21 ==> v * p2(c) == v * 2097152, c == 22 ==> v * p2(c) == v * 4194304, c == 23 ==> v * p2(c) == v * 8388608, c == 24 ==> v * p2(c) == v * 16777216, c == 25 ==> v * p2(c) == v * 33554432, c == 26 ==> v * p2(c) == v * 67108864, c == 27 ==> v * p2(c) == v * 134217728, c == 28 ==> v * p2(c) == v * 268435456, c == 29 ==> v * p2(c) == v * 536870912, c == 30 ==> v * p2(c) == v * 1073741824, c == 31 ==> v * p2(c) == v * 2147483648 { p2_tab(); }

// ---- the steps of the schoolbook division, packaged
#[verifier::opaque] pub open spec fn normd(D: int, P: int, s: int, d2: int) -> bool { D >= 1 && P >= 1 && d2 * P <= D * p2(s) * B && D * p2(s) * B < (d2 + 1) * P && 2 * (D * p2(s)) >= B * P }
#[verifier::opaque] pub open spec fn gok(q: int, d2: int, v3: int, V: int, D: int, N: int) -> bool { 0 <= q < B && q * (D * N) <= V && V < (q + 1) * (D * N) && q * d2 <= v3 && (forall|g: int| 0 <= g < B && #[trigger] (g * d2) <= v3 ==> g <= q + 1) }
pub proof fn dv_norm(r: Seq<u32>, o: int, rl: int, s: int, h0: int, l0: int, n1: int, hi: int, lo: int)
    requires rl >= 1, 0 <= s <= 31, h0 == r[o + rl - 1], l0 == limb(r, o + rl - 2, rl > 1), n1 == limb(r, o + rl - 3, rl > 2), h0 * p2(s) >= 0x8000_0000,
        s > 0 ==> hi == h0 * p2(s) + l0 / p2(32 - s) && lo == (l0 % p2(32 - s)) * p2(s) + n1 / p2(32 - s), s == 0 ==> hi == h0 && lo == l0
    ensures normd(pv(r, o, rl), pw(rl - 1), s, hi * B + lo), 1 <= pv(r, o, rl) < (h0 + 1) * pw(rl - 1), pv(r, o, rl) < pw(rl), pv(r, o, rl) >= pw(rl - 1)
{
    reveal(normd); let D = pv(r, o, rl); let P = pw(rl - 1); let d2 = hi * B + lo; unit(h0); unit(0);
    shift_top(h0, l0, n1, s, hi, lo); top3(r, o, rl, 0); pw_pos(rl - 1);
    assert(0 * pw(rl) == 0);
    top_shift(D, s, d2, h0 * (B * B) + l0 * B + n1, P); pv_bound(r, o, rl - 1); pv_bound(r, o, rl); dist(P, h0, 1); comm(P, h0 + 1); comm(h0, P);
    assert(D == pv(r, o, rl - 1) + h0 * P);
    div_ge(D, h0, s, P);
    if h0 == 0 { assert(0 * p2(s) == 0); } pv_ge(r, o, rl);
}
pub proof fn dv_start(D: int, rl: int, ll: int, l: Seq<u32>, o: int) requires D >= pw(rl - 1), 1 <= rl <= ll ensures pv(l, o, ll) < D * pw(ll - rl + 1)
{ pv_bound(l, o, ll); pw_add(rl - 1, ll - rl + 1); pw_pos(ll - rl + 1); let N = pw(ll - rl + 1); assert(pw(rl - 1) * N <= D * N) by (nonlinear_arith) requires D >= pw(rl - 1), N >= 1; }
pub proof fn dv_top(l: Seq<u32>, o: int, i: int, n: int, rl: int, len: int, t: int, D: int, a: int, s: int)
    requires 1 <= rl <= i, i == n + rl, i <= len, zeros(l, o + i + 1, o + len), t == limb(l, o + i, i < len), pv(l, o, len) < D * pw(n + 1), D < (a + 1) * pw(rl - 1), a * p2(s) < B, a >= 0, 0 <= s <= 31
    ensures pv(l, o, len) == t * pw(i) + pv(l, o, i), (t * B + l[o + i - 1]) * p2(s) < B * B, pw(n + 1) == B * pw(n)
{
    unit(pw(i)); if i < len { pv_top0(l, o, len, i + 1); }
    let h = t * B + l[o + i - 1]; pv_bound(l, o, i - 1); let Q = pw(i - 1); pw_pos(i - 1); let d = l[o + i - 1] as int;
    assert(h * Q == t * (B * Q) + d * Q) by (nonlinear_arith) requires h == t * B + d;
    assert(pw(i) == B * Q); assert(pv(l, o, i) == pv(l, o, i - 1) + d * Q); assert(h * Q <= pv(l, o, len)); mul_pos(t, Q);
    hi_fits(h, pv(l, o, len), D, a, s, i, rl);
}
pub proof fn dv_guess(l: Seq<u32>, o: int, i: int, n: int, rl: int, t: int, V: int, D: int, s: int, h0: int, l0: int, n1: int, hi: int, lo: int, dh: int, dl: int, q: int)
    requires 1 <= rl <= i, i == n + rl, t >= 0, h0 == t * B + l[o + i - 1], l0 == limb(l, o + i - 2, i > 1), n1 == limb(l, o + i - 3, i > 2), V == t * pw(i) + pv(l, o, i), V < D * (B * pw(n)), 0 <= s <= 31,
        s > 0 ==> hi == h0 * p2(s) + l0 / p2(32 - s) && lo == (l0 % p2(32 - s)) * p2(s) + n1 / p2(32 - s), s == 0 ==> hi == h0 && lo == l0,
        normd(D, pw(rl - 1), s, dh * B + dl), dh >= 1, dl >= 0, hi >= 0, 0 <= lo < B, q == V / (D * pw(n))
    ensures gok(q, dh * B + dl, hi * B + lo, V, D, pw(n)), 0 <= q < B, q <= hi / dh
{
    reveal(normd); reveal(gok); shift_top(h0, l0, n1, s, hi, lo); top3(l, o, i, t); pw_pos(i - 1); let v3 = hi * B + lo; let d2 = dh * B + dl; let N = pw(n);
    pv_bound(l, o, i); pw_pos(i); mul_pos(t, pw(i));
    top_shift(V, s, v3, h0 * (B * B) + l0 * B + n1, pw(i - 1)); pw_add(rl - 1, n); pw_pos(n); assert(rl - 1 + n == i - 1);
    digit_fits(V, D, N); knuth(D, V, N, pw(rl - 1), s, d2, v3, q); guess_ge(q, d2, v3, dh, dl, hi, lo);
}
pub proof fn dv_bad(q: int, d2: int, v3: int, V: int, D: int, N: int, g: int) requires gok(q, d2, v3, V, D, N), q <= g < B ensures g * d2 > v3 ==> g > q, g * d2 <= v3 ==> g == q || g == q + 1
{ reveal(gok); }
pub proof fn dv_window(l: Seq<u32>, o: int, i: int, n: int, rl: int, t: int, V: int, D: int, q: int, d2: int, v3: int) -> (X: int)
    requires 1 <= rl <= i, i == n + rl, n >= 0, t >= 0, V == t * pw(i) + pv(l, o, i), gok(q, d2, v3, V, D, pw(n)), D < pw(rl)
    ensures X == t * pw(rl) + pv(l, o + n, rl), q * D <= X, X < (q + 1) * D, X - q * D < D, V - q * (D * pw(n)) == pv(l, o, n) + pw(n) * (X - q * D), pv(l, o, n) + pw(n) * (X - q * D) < D * pw(n),
        q == 0 ==> X == pv(l, o + n, rl)
{
    reveal(gok); let N = pw(n); let w = pv(l, o + n, rl); let X = t * pw(rl) + w; let lo = pv(l, o, n);
    pv_split(l, o, i, n); pw_add(n, rl); dist(N, t * pw(rl), w); assert(N * (t * pw(rl)) == t * (N * pw(rl))) by (nonlinear_arith); pw_pos(n);
    pv_bound(l, o, n); pv_bound(l, o + n, rl); window(V, lo, N, X, D, q);
    if q == 0 { assert(0 * D == 0); carry0(w, t, rl); assert(0 * pw(rl) == 0); }
    X
}
pub proof fn dv_end(s: Seq<u32>, o: int, len: int, n: int, rl: int, Q: int, D: int, q: int, hi: int, V0: int, V1: int, lo: int, x: int)
    requires 0 <= n, 0 <= rl, n + rl <= len, zeros(s, o + (n + rl), o + len), pv(s, o, n) == lo, pv(s, o + n, rl) == x, V0 == Q * D + V1, V1 - q * (D * pw(n)) == lo + pw(n) * x, lo + pw(n) * x < D * pw(n), Q == hi * pw(n + 1)
    ensures V0 == (Q + q * pw(n)) * D + pv(s, o, len), pv(s, o, len) < D * pw(n), Q + q * pw(n) == (q + B * hi) * pw(n)
{ pv_top0(s, o, len, n + rl); pv_split(s, o, n + rl, n); acc_digit(Q, V1, pw(n), D, q, hi); }
pub proof fn zeros_same(a: Seq<u32>, b: Seq<u32>, o: int, n: int, x: int, y: int) requires same_out(a, b, o, n), zeros(a, x, y), o >= 0, x >= 0, y <= a.len(), o + n <= x ensures zeros(b, x, y) { reveal(same_out); }
pub proof fn zeros_put(a: Seq<u32>, i: int, x: int, y: int) requires 0 <= i < a.len(), zeros(a, x + 1, y), i == x || y <= x ensures zeros(a.update(i, 0), x, y) { }
// one digit of the division by a single limb
pub proof fn sdiv(L: int, Q: int, c: int, r: int, l: int, d: int, c2: int) requires L == Q * r + c, c * B + l == d * r + c2 ensures l + B * L == (d + B * Q) * r + c2
{ assert(B * (Q * r + c) == B * Q * r + c * B) by (nonlinear_arith); assert((d + B * Q) * r == d * r + B * Q * r) by (nonlinear_arith); }
pub proof fn sdiv_fit(c: int, r: int, l: int) requires 0 <= c < r < B, 0 <= l < B ensures 0 <= (c * B + l) / r < B, ((c * B + l) / r) * r + (c * B + l) % r == c * B + l, 0 <= (c * B + l) % r < r, ((c * B + l) / r) * r <= c * B + l, r * ((c * B + l) / r) == ((c * B + l) / r) * r
{ let v = c * B + l; div_eq(v, r); let q = v / r; comm(r, q); assert(q < B) by (nonlinear_arith) requires q * r <= v, v < r * B, r > 0; }
