// ---- logarithms: doubles as reals, and the error model of the floating-point operations used
pub open spec fn fnan(b: int) -> bool { dexp(b) == 2047 && dman(b) != 0 }
pub open spec fn finf(b: int) -> bool { dexp(b) == 2047 && dman(b) == 0 }
pub open spec fn ffin(b: int) -> bool { dexp(b) != 2047 }
pub open spec fn fzero(b: int) -> bool { dexp(b) == 0 && dman(b) == 0 }
pub open spec fn feq(a: int, b: int) -> bool { !fnan(a) && !fnan(b) && (a == b || (fzero(a) && fzero(b))) }
// 2^k and the real number a finite double stands for
pub open spec fn r2(k: int) -> real { if k >= 0 { p2(k) as real } else { 1real / (p2(-k) as real) } }
pub open spec fn frm(b: int) -> real { if dexp(b) == 0 { (dman(b) as real) * r2(-1074) } else { ((dman(b) + 0x10_0000_0000_0000) as real) * r2(dexp(b) - 1075) } }
#[verifier::opaque] pub open spec fn fr(b: int) -> real { if dneg(b) { -frm(b) } else { frm(b) } }
// the natural logarithm: its two defining properties (trusted; everything else about it is proved from them)
pub uninterp spec fn ln(x: real) -> real;
pub axiom fn ln_mul(x: real, y: real) requires x > 0real, y > 0real ensures ln(x * y) == ln(x) + ln(y);
pub axiom fn ln_le(x: real) requires x > 0real ensures ln(x) <= x - 1real;
// the double 2.7182818284590451 is e up to a relative error below 2^-53 (trusted numeric fact)
pub axiom fn ln_e() ensures rabs(ln(6121026514868073real / 2251799813685248real) - 1real) <= U();
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
// one unit in the last place, relative to the value
pub open spec fn U() -> real { 1real / 4503599627370496real }
#[verifier::opaque] pub open spec fn rel(x: real, y: real, k: real) -> bool { rabs(x - y) <= k * U() * rabs(y) }
// the reals of ordinary magnitude, where the operations neither overflow nor underflow
pub open spec fn mid(x: real) -> bool { x == 0real || 1real / 1000000000000000000000000000000real <= rabs(x) <= 1000000000000000000000000000000real }
// the double nearest an integer (exact below 2^53)
pub open spec fn int_fl(r: int, x: int) -> bool { ffin(r) && rabs(fr(r) - x as real) <= U() * rabs(x as real) && (-0x20_0000_0000_0000 <= x <= 0x20_0000_0000_0000 ==> fr(r) == x as real) && (fzero(r) == (x == 0)) && (x == 1 ==> r == 0x3FF0_0000_0000_0000) && dneg(r) == (x < 0) }
// std::log
pub open spec fn fl_log(r: int, x: int) -> bool {
    if fnan(x) { fnan(r) }
    else if fzero(x) { finf(r) && dneg(r) }
    else if dneg(x) { fnan(r) }
    else if finf(x) { finf(r) && !dneg(r) }
    else { ffin(r) && rel(fr(r), ln(fr(x)), 1real) && (fzero(r) == (ln(fr(x)) == 0real)) && dneg(r) == (ln(fr(x)) < 0real) }
}
pub open spec fn fl_div(r: int, a: int, b: int) -> bool {
    if fnan(a) || fnan(b) { fnan(r) }
    else if finf(a) { if finf(b) { fnan(r) } else { finf(r) && dneg(r) == (dneg(a) != dneg(b)) } }
    else if finf(b) { fzero(r) && ffin(r) }
    else if fzero(b) { if fzero(a) { fnan(r) } else { finf(r) } }
    else if fr(b) != 0real && mid(fr(a) / fr(b)) { ffin(r) && rel(fr(r), fr(a) / fr(b), 1real) && fzero(r) == (fr(a) == 0real) }
    else { true }
}
pub open spec fn fl_add(r: int, a: int, b: int) -> bool {
    if fnan(a) || fnan(b) { fnan(r) }
    else if ffin(a) && ffin(b) { mid(fr(a) + fr(b)) ==> ffin(r) && rel(fr(r), fr(a) + fr(b), 1real) }
    else { true }
}
// what log and log10 return
pub open spec fn log_nan(v: int, b: int) -> bool { v < 0 || fnan(b) || (dneg(b) && !fzero(b)) || feq(b, 0x3FF0_0000_0000_0000) || ((fzero(b) || finf(b)) && v != 1) }
pub open spec fn log_is(r: int, v: int, b: int) -> bool {
    if log_nan(v, b) { fnan(r) }
    else if v == 1 { fzero(r) }
    else if v == 0 { finf(r) && dneg(r) == (ln(fr(b)) > 0real) }
    else { ffin(r) && rel(fr(r), ln(v as real) / ln(fr(b)), 12real) }
}
// csharp_log_wrapper
pub open spec fn lq(r: int, a: int, b: int) -> bool { exists|la: int, lb: int| #![trigger fl_log(la, a), fl_log(lb, b)] fl_log(la, a) && fl_log(lb, b) && fl_div(r, la, lb) }
pub open spec fn log_wrap(r: int, a: int, b: int) -> bool {
    if fnan(a) { r == a } else if fnan(b) { r == b } else if feq(b, 0x3FF0_0000_0000_0000) { fnan(r) }
    else if !feq(a, 0x3FF0_0000_0000_0000) && (fzero(b) || finf(b)) { fnan(r) }
    else { lq(r, a, b) }
}
// ---- the logarithm
pub proof fn ln_1() ensures ln(1real) == 0real { ln_mul(1real, 1real); assert(1real * 1real == 1real); }
pub proof fn ln_inv(x: real) requires x > 0real ensures ln(1real / x) == -ln(x), 1real / x > 0real { assert(1real / x > 0real) by (nonlinear_arith) requires x > 0real; ln_mul(x, 1real / x); assert(x * (1real / x) == 1real) by (nonlinear_arith) requires x > 0real; ln_1(); }
pub proof fn ln_mono(x: real, y: real) requires 0real < x < y ensures ln(x) < ln(y) {
   ln_inv(y); let z = x * (1real / y); assert(z < 1real && z > 0real && x == z * y) by (nonlinear_arith) requires 0real < x < y, z == x * (1real / y);
   ln_mul(z, y); ln_le(z);
}
pub proof fn ln_ge(x: real) requires x > 0real ensures ln(x) >= 1real - 1real / x { ln_inv(x); ln_le(1real / x); }
pub proof fn ln_2() ensures 1real / 2real <= ln(2real) <= 1real { ln_ge(2real); ln_le(2real); assert(1real / 2real + 1real / 2real == 1real); }
pub proof fn r2_facts(k: int) ensures r2(k) > 0real, r2(k) * r2(-k) == 1real, r2(0) == 1real
{ p2_32(); p2_pos(k); p2_pos(-k); let p = p2(if k >= 0 { k } else { -k }) as real; assert(p >= 1real); assert(p * (1real / p) == 1real && (1real / p) * p == 1real && 1real / p > 0real) by (nonlinear_arith) requires p >= 1real; if k == 0 { assert(1real * 1real == 1real); } }
pub proof fn ln_r2(k: int) ensures ln(r2(k)) == (k as real) * ln(2real), r2(k) > 0real decreases 2 * iabs(k) + (if k < 0 { 1int } else { 0 })
{
    r2_facts(k); let w = ln(2real);
    if k == 0 { ln_1(); assert(0real * w == 0real); p2_32(); }
    else if k > 0 { ln_r2(k - 1); p2_add(1, k - 1); p2_32(); assert(p2(k) as real == 2real * (p2(k - 1) as real)); ln_mul(2real, r2(k - 1)); assert((k as real) * w == ((k - 1) as real) * w + w) by (nonlinear_arith); }
    else { ln_r2(-k); r2_facts(-k); ln_inv(r2(-k)); assert((k as real) * w == -(((-k) as real) * w)) by (nonlinear_arith); }
}
// ---- doubles
pub proof fn fr_pow(b: int, s: int, e: int) requires 0 <= s <= 1, 1 <= e < 2047, b == s * 0x8000_0000_0000_0000 + e * 0x10_0000_0000_0000 ensures frm(b) == r2(e - 1023), dneg(b) == (s == 1), ffin(b), !fzero(b)
{
    dfields(s, e, 0); let k = e - 1075; p2_52();
    let m = 0x10_0000_0000_0000int;
    assert((m as real) * r2(k) == r2(k + 52)) by {
        if k >= 0 { p2_add(k, 52); let p = p2(k); assert((m as real) * (p as real) == (p * m) as real) by (nonlinear_arith); }
        else if k + 52 >= 0 { p2_add(k + 52, -k); p2_pos(-k); let p = p2(k + 52); let q = p2(-k); assert((p * q) as real == (p as real) * (q as real)) by (nonlinear_arith); assert(p * q == m);
            assert((m as real) * (1real / (q as real)) == p as real) by (nonlinear_arith) requires (p as real) * (q as real) == m as real, q as real >= 1real; }
        else { p2_add(-k - 52, 52); p2_pos(-k - 52); let p = p2(-k - 52); let q = p2(-k); assert(q == p * m); assert((p * m) as real == (p as real) * (m as real)) by (nonlinear_arith);
            assert((m as real) * (1real / (q as real)) == 1real / (p as real)) by (nonlinear_arith) requires (p as real) * (m as real) == q as real, p as real >= 1real, m as real == 4503599627370496real; }
    }
}
pub proof fn r2_mono(a: int, b: int) requires a <= b ensures r2(a) <= r2(b)
{
    r2_facts(a); r2_facts(b);
    if a >= 0 { p2_mono(a, b); }
    else if b >= 0 { p2_pos(-a); p2_pos(b); let x = p2(-a) as real; assert(1real / x <= 1real) by (nonlinear_arith) requires x >= 1real; }
    else { p2_mono(-b, -a); p2_pos(-b); let x = p2(-a) as real; let y = p2(-b) as real; assert(1real / x <= 1real / y) by (nonlinear_arith) requires x >= y, y >= 1real; }
}
pub proof fn r2_tab() ensures r2(-52) == U(), r2(-53) == U() / 2real, r2(52) == 4503599627370496real, r2(1) == 2real, r2(0) == 1real
{ p2_52(); let a = p2(52); let b = p2(53); assert(r2(-52) == 1real / (a as real)); assert(r2(-53) == 1real / (b as real)); assert(r2(52) == a as real); let c = p2(1); assert(r2(1) == c as real); let x = b as real; assert(1real / x == U() / 2real) by (nonlinear_arith) requires x == 9007199254740992real, U() == 1real / 4503599627370496real; }
// a positive finite double: its range, and its distance from 1
pub proof fn fr_pos(b: int) requires 0 <= b < B * B, !dneg(b), ffin(b), !fzero(b)
    ensures r2(-1074) <= fr(b) < r2(1024), fr(b) > 0real, b == 0x3FF0_0000_0000_0000 ==> fr(b) == 1real, b != 0x3FF0_0000_0000_0000 ==> fr(b) >= 1real + U() || fr(b) <= 1real - U() / 2real
{
    reveal(fr); dparts(b); let e = dexp(b); let m = dman(b);
    r2_facts(-1074); p2_52(); r2_tab();
    if e == 0 {
        let r = r2(-1074); assert((m as real) * r >= r) by (nonlinear_arith) requires m as real >= 1real, r > 0real;
        let M = 0x10_0000_0000_0000int; assert((m as real) * r <= (M as real) * r) by (nonlinear_arith) requires m as real <= M as real, r > 0real;
        r2_shift(-1074, 52); r2_mono(-1022, -1); r2_half(); r2_mono(-1022, 1023); r2_mono(1023, 1024); r2_lt(-1022, 1024);
    } else {
        let k = e - 1075; let r = r2(k); r2_facts(k); let M = 0x10_0000_0000_0000int; let x = (m + M) as real;
        assert((M as real) * r <= x * r <= ((2 * M - 1) as real) * r) by (nonlinear_arith) requires M as real <= x <= (2 * M - 1) as real, r > 0real;
        r2_shift(k, 52); r2_shift(k, 53);
        assert(((2 * M - 1) as real) * r == ((2 * M) as real) * r - r) by (nonlinear_arith);
        r2_mono(k + 53, 1024); r2_mono(-1074, k + 52);
        if e > 1023 { 
            r2_mono(1, k + 52); assert(fr(b) >= 2real);
        } else if e == 1023 {
            assert(r == U()); assert(r2(k + 52) == 1real);
            if m != 0 { assert(x * r >= ((M + 1) as real) * r) by (nonlinear_arith) requires x >= (M + 1) as real, r > 0real; assert(((M + 1) as real) * r == (M as real) * r + r) by (nonlinear_arith); }
            else { div_uniq(b, 1023, M, 0); }
        } else {
            // below 1: at most (2^53 - 1) * 2^(e-1075) <= 1 - 2^-53
            if e == 1022 { assert(r == U() / 2real); assert(r2(k + 53) == 1real); }
            else { r2_mono(k + 53, -1); r2_half(); }
        }
    }
}
pub proof fn r2_half() ensures r2(-1) == 1real / 2real, U() > 0real, U() <= 1real / 2real { p2_32(); }
pub proof fn r2_lt(a: int, b: int) requires a < b ensures r2(a) < r2(b) { r2_facts(a); r2_shift(a, 1); p2_32(); r2_mono(a + 1, b); let r = r2(a); assert(2real * r > r) by (nonlinear_arith) requires r > 0real; }
pub proof fn r2_shift(k: int, j: int) requires j >= 0 ensures (p2(j) as real) * r2(k) == r2(k + j)
{
    p2_pos(j); r2_facts(k); r2_facts(k + j); let m = p2(j);
    if k >= 0 { p2_add(k, j); let p = p2(k); assert((m as real) * (p as real) == (p * m) as real) by (nonlinear_arith); }
    else if k + j >= 0 { p2_add(k + j, -k); p2_pos(-k); let p = p2(k + j); let q = p2(-k); assert((p * q) as real == (p as real) * (q as real)) by (nonlinear_arith);
        assert((m as real) * (1real / (q as real)) == p as real) by (nonlinear_arith) requires (p as real) * (q as real) == m as real, q as real >= 1real; }
    else { p2_add(-k - j, j); p2_pos(-k - j); let p = p2(-k - j); let q = p2(-k); assert((p * m) as real == (p as real) * (m as real)) by (nonlinear_arith);
        assert((m as real) * (1real / (q as real)) == 1real / (p as real)) by (nonlinear_arith) requires (p as real) * (m as real) == q as real, p as real >= 1real, m as real >= 1real; }
}
// logarithm of a base: not too small, not too large
pub proof fn ln_base(b: int) requires 0 <= b < B * B, !dneg(b), ffin(b), !fzero(b), b != 0x3FF0_0000_0000_0000
    ensures U() / 2real <= rabs(ln(fr(b))) <= 1100real
{
    fr_pos(b); let x = fr(b); let w = ln(2real); ln_2(); ln_r2(-1074); ln_r2(1024); r2_facts(-1074); ln_mono(x, r2(1024)); if x > r2(-1074) { ln_mono(r2(-1074), x); }
    assert((1024real) * w <= 1024real && -1074real * w >= -1074real) by (nonlinear_arith) requires 0real <= w <= 1real;
    ln_le(x); ln_ge(x);
    if x >= 1real + U() { assert(1real - 1real / x >= U() / 2real) by (nonlinear_arith) requires x >= 1real + U(), U() > 0real, U() <= 1real / 2real; }
}

// ---- relative errors
pub proof fn rabs_mul(x: real, y: real) ensures rabs(x * y) == rabs(x) * rabs(y), rabs(x) >= 0real, rabs(-x) == rabs(x)
{
    assert(x >= 0real && y >= 0real ==> x * y >= 0real) by (nonlinear_arith); assert(x < 0real && y < 0real ==> x * y == (-x) * (-y) && (-x) * (-y) >= 0real) by (nonlinear_arith);
    assert((-x) * y == -(x * y)) by (nonlinear_arith); assert(x * (-y) == -(x * y)) by (nonlinear_arith);
    assert(x < 0real && y >= 0real ==> (-x) * y >= 0real) by (nonlinear_arith); assert(x >= 0real && y < 0real ==> x * (-y) >= 0real) by (nonlinear_arith);
}
pub proof fn rabs_div(x: real, y: real) requires y != 0real ensures rabs(x / y) == rabs(x) / rabs(y), rabs(y) > 0real, (x / y) * y == x
{ let q = x / y; assert(q * y == x) by (nonlinear_arith) requires q == x / y, y != 0real; rabs_mul(q, y); let Q = rabs(q); let Y = rabs(y); assert(Y > 0real); assert((Q * Y) / Y == Q) by (nonlinear_arith) requires Y > 0real; }
pub proof fn rel_trans(a: real, b: real, c: real, j: real, k: real) requires rel(a, b, j), rel(b, c, k), 0real <= j <= 20real, 0real <= k <= 20real ensures rel(a, c, j + k + 1real / 1000real)
{
    reveal(rel); let C = rabs(c); let u = U(); rabs_mul(c, c); let J = j * u; let K = k * u;
    assert(rabs(b) <= C + K * C);
    assert(J * rabs(b) <= J * (C + K * C)) by (nonlinear_arith) requires rabs(b) <= C + K * C, J >= 0real;
    assert(J * K <= (1real / 1000real) * u) by (nonlinear_arith) requires J == j * u, K == k * u, 0real <= j <= 20real, 0real <= k <= 20real, u == 1real / 4503599627370496real;
    assert(J * K * C <= (1real / 1000real) * u * C) by (nonlinear_arith) requires J * K <= (1real / 1000real) * u, C >= 0real;
    assert(J * (C + K * C) + K * C <= (j + k + 1real / 1000real) * u * C) by (nonlinear_arith) requires J * K * C <= (1real / 1000real) * u * C, J == j * u, K == k * u;
}
pub proof fn rel_weak(a: real, b: real, j: real, k: real) requires rel(a, b, j), j <= k ensures rel(a, b, k) { reveal(rel); rabs_mul(b, b); let x = rabs(b); let u = U(); assert(j * u * x <= k * u * x) by (nonlinear_arith) requires j <= k, u > 0real, x >= 0real; }
pub proof fn rel_div(a: real, x: real, j: real, b: real, y: real, k: real) requires rel(a, x, j), rel(b, y, k), 0real <= j <= 8real, 0real <= k <= 8real, y != 0real ensures rel(a / b, x / y, j + k + 1real / 1000real), b != 0real
{
    reveal(rel); let u = U(); let J = j * u; let K = k * u; let X = rabs(x); let Y = rabs(y); rabs_mul(y, y);
    assert(0real <= K <= 1real / 1000000real && 0real <= J) by (nonlinear_arith) requires K == k * u, J == j * u, 0real <= k <= 8real, 0real <= j, u == 1real / 4503599627370496real;
    assert(K * Y <= (1real / 1000000real) * Y) by (nonlinear_arith) requires K <= 1real / 1000000real, Y > 0real;
    let Z = rabs(b); assert(Z >= Y - K * Y); assert(Z > 0real);
    let p = a / b; let q = x / y; rabs_div(a, b); rabs_div(x, y); rabs_mul(q, y); rabs_mul(q, b - y); rabs_mul(p - q, b);
    assert((p - q) * b == (a - x) - q * (b - y)) by (nonlinear_arith) requires p * b == a, q * y == x;
    let D = rabs(p - q); let Q = rabs(q); assert(Q >= 0real && D >= 0real) ;
    assert(Q * rabs(b - y) <= Q * (K * Y)) by (nonlinear_arith) requires rabs(b - y) <= K * Y, Q >= 0real;
    assert(D * Z <= J * X + Q * (K * Y));
    let M = J + K + u / 1000real;
    assert(D * Z >= D * (Y - K * Y)) by (nonlinear_arith) requires D >= 0real, Z >= Y - K * Y;
    assert(J * X + Q * (K * Y) == ((J + K) * Q) * Y) by (nonlinear_arith) requires X == Q * Y;
    assert(D * (Y - K * Y) == (D * (1real - K)) * Y) by (nonlinear_arith);
    assert(D * (1real - K) <= (J + K) * Q) by (nonlinear_arith) requires (D * (1real - K)) * Y <= ((J + K) * Q) * Y, Y > 0real;
    assert(M * K <= u / 1000real) by (nonlinear_arith) requires M == J + K + u / 1000real, J == j * u, K == k * u, 0real <= j <= 8real, 0real <= k <= 8real, u == 1real / 4503599627370496real;
    assert(J + K <= M * (1real - K)) by { assert(M * (1real - K) == M - M * K) by (nonlinear_arith); }
    assert((J + K) * Q <= (M * (1real - K)) * Q) by (nonlinear_arith) requires J + K <= M * (1real - K), Q >= 0real;
    assert(D <= M * Q) by (nonlinear_arith) requires D * (1real - K) <= (M * (1real - K)) * Q, 0real <= K <= 1real / 1000000real;
    assert(M == (j + k + 1real / 1000real) * u) by (nonlinear_arith) requires M == J + K + u / 1000real, J == j * u, K == k * u;
}
pub open spec fn mid9(y: real) -> bool { y == 0real || 1real / 100000000000000000000000000000real <= rabs(y) <= 100000000000000000000000000000real }
pub proof fn rel_mid(x: real, y: real, k: real) requires rel(x, y, k), 0real <= k <= 20real, mid9(y) ensures mid(x), x == 0real <==> y == 0real
{
    reveal(rel); let u = U(); let K = k * u; let Y = rabs(y); rabs_mul(y, y);
    assert(0real <= K <= 1real / 1000000real) by (nonlinear_arith) requires K == k * u, 0real <= k <= 20real, u == 1real / 4503599627370496real;
    assert(K * Y <= (1real / 1000000real) * Y && K * Y >= 0real) by (nonlinear_arith) requires 0real <= K <= 1real / 1000000real, Y >= 0real;
}
pub proof fn rel_zero(k: real) requires k >= 0real ensures rel(0real, 0real, k) { reveal(rel); assert(k * U() * 0real == 0real) by (nonlinear_arith); }
// a positive finite double
pub open spec fn fpos(b: int) -> bool { 0 <= b < B * B && !dneg(b) && ffin(b) && !fzero(b) }
pub proof fn fz_fr(b: int) requires fzero(b) ensures fr(b) == 0real, ffin(b) { reveal(fr); let r = r2(-1074); assert((0int as real) * r == 0real) by (nonlinear_arith); }
// a quotient of two logarithms
pub proof fn lq_rel(r: int, a: int, b: int) requires lq(r, a, b), fpos(a), fpos(b), ln(fr(b)) != 0real, mid9(ln(fr(a)) / ln(fr(b)))
    ensures ffin(r), rel(fr(r), ln(fr(a)) / ln(fr(b)), 3real + 2real / 1000real), fzero(r) == (ln(fr(a)) == 0real)
{
    let (la, lb) = choose|la: int, lb: int| #![trigger fl_log(la, a), fl_log(lb, b)] fl_log(la, a) && fl_log(lb, b) && fl_div(r, la, lb);
    let x = ln(fr(a)); let y = ln(fr(b));
    rel_div(fr(la), x, 1real, fr(lb), y, 1real); let q = fr(la) / fr(lb); rel_mid(q, x / y, 2real + 1real / 1000real);
    assert(!fnan(la) && !fnan(lb) && !finf(la) && !finf(lb));
    assert(ffin(r) && rel(fr(r), q, 1real) && fzero(r) == (fr(la) == 0real));
    rel_trans(fr(r), q, x / y, 1real, 2real + 1real / 1000real);
    rabs_div(fr(la), fr(lb)); rabs_div(x, y);
    assert(x == 0real <==> x / y == 0real) by (nonlinear_arith) requires y != 0real;
    assert(fr(la) == 0real <==> q == 0real) by (nonlinear_arith) requires q == fr(la) / fr(lb), fr(lb) != 0real;
}
// ---- the top 64 bits of a magnitude
pub proof fn top64(s: Seq<u32>, z: int, man: int)
    requires ({ let n = s.len() as int; 1 <= n && s[n - 1] != 0 && 0 <= z <= 31 && s[n - 1] * p2(z) < B && s[n - 1] * p2(z) >= 0x8000_0000 && man == s[n - 1] * p2(32 + z) + lim(s, n - 2) * p2(z) + lim(s, n - 3) / p2(32 - z) })
    ensures 0x8000_0000_0000_0000 <= man < B * B, s.len() >= 2 ==> man * p2(32 * (s.len() - 2)) <= val(s) * p2(z) && val(s) * p2(z) < (man + 1) * p2(32 * (s.len() - 2)), s.len() == 1 ==> man == val(s) * p2(32 + z)
{
    let n = s.len() as int; let V = val(s); let Z = p2(z); p2_52(); p2_pos(z); p2_add(32, z); p2_add(32 - z, z); let h = s[n - 1] as int; p2_pos(32 - z);
    let m0 = lim(s, n - 2); let l0 = lim(s, n - 3); dman_parts(h, m0, l0, z); p2_add(32 - z, z); div_eq(l0, p2(32 - z));
    or_lt(h, m0, l0, z);
    if n == 1 { pv_1(s, 0); pw_1(); unit(h); floor_small(0, p2(32 - z)); assert(0 * Z == 0); assert(V == h); }
    else {
        let Q = p2(32 * (n - 2)); p2_pw(n - 2); pw_pos(n - 2);
        let m = s[n - 2] as int;
        if n == 2 {
            pv_2(s, 0); p2_32(); floor_small(0, p2(32 - z)); 
            assert(man == V * Z) by (nonlinear_arith) requires man == h * (B * Z) + m * Z, V == m + B * h;
            assert(Q == 1); assert(man * 1 == man && (man + 1) * 1 == man + 1);
        } else {
            let l = s[n - 3] as int; let P = pw(n - 3); let low = pv(s, 0, n - 3); pv_bound(s, 0, n - 3); pw_pos(n - 3); assert(pw(n - 2) == B * P); assert(pw(n - 1) == B * pw(n - 2));
            assert(pv(s, 0, n - 1) == pv(s, 0, n - 2) + m * pw(n - 2)); assert(pv(s, 0, n - 2) == low + l * P);
            let T = h * (B * B) + m * B + l; let t = p2(32 - z); div_eq(l, t);
            assert(V == T * P + low) by (nonlinear_arith) requires V == low + l * P + m * (B * P) + h * (B * (B * P)), T == h * (B * B) + m * B + l;
            assert(T * Z == man * B + (l % t) * Z) by (nonlinear_arith) requires T == h * (B * B) + m * B + l, man == h * (B * Z) + m * Z + l / t, l == (l / t) * t + l % t, t * Z == B;
            assert((l % t) * Z <= B - Z && (l % t) * Z >= 0) by (nonlinear_arith) requires 0 <= l % t, l % t <= t - 1, t * Z == B, Z >= 1;
            assert(V * Z == (T * Z) * P + low * Z) by (nonlinear_arith) requires V == T * P + low;
            assert((T * Z) * P >= (man * B) * P && (T * Z) * P <= (man * B + B - Z) * P) by (nonlinear_arith) requires man * B <= T * Z, T * Z <= man * B + B - Z, P >= 1;
            assert(low * Z < P * Z && low * Z >= 0) by (nonlinear_arith) requires 0 <= low < P, Z >= 1;
            assert((man * B) * P == man * Q && (man * B + B - Z) * P == (man + 1) * Q - P * Z) by (nonlinear_arith) requires Q == B * P;
        }
    }
}
pub proof fn or_lt(h: int, m: int, l: int, z: int) requires 0 < h < B, 0 <= m < B, 0 <= l < B, 0 <= z <= 31, h * p2(z) < B, h * p2(z) >= 0x8000_0000
    ensures 0x8000_0000_0000_0000 <= h * p2(32 + z) + m * p2(z) + l / p2(32 - z) < B * B
{
    p2_32(); p2_add(32, z); p2_add(32 - z, z); p2_pos(z); p2_pos(32 - z); let Z = p2(z); let T = p2(32 - z); div_eq(l, T); dman_parts(h, m, l, z);
    assert(h * (B * Z) + m * Z == (h * B + m) * Z) by (nonlinear_arith); assert(l / T <= Z - 1); assert(0 <= m * Z) by (nonlinear_arith) requires 0 <= m, Z >= 1;
    assert(h < T) by (nonlinear_arith) requires h * Z < B, T * Z == B, Z >= 1;
    assert((h * B + m) * Z + Z <= B * B) by (nonlinear_arith) requires h + 1 <= T, m < B, T * Z == B, Z >= 1;
}
// the magnitude is x * 2^n for a real x within [man, man + 1)
pub proof fn top_x(s: Seq<u32>, z: int, man: int) -> (x: real)
    requires ({ let n = s.len() as int; 1 <= n && s[n - 1] != 0 && 0 <= z <= 31 && s[n - 1] * p2(z) < B && s[n - 1] * p2(z) >= 0x8000_0000 && man == s[n - 1] * p2(32 + z) + lim(s, n - 2) * p2(z) + lim(s, n - 3) / p2(32 - z) })
    ensures 0x8000_0000_0000_0000 <= man < B * B, man as real <= x, x < (man + 1) as real, val(s) as real == x * r2(32 * s.len() - z - 64), val(s) > 0
{
    top64(s, z, man); let n = s.len() as int; let k = 32 * n - z - 64; let x = (val(s) as real) * r2(-k); r2_facts(k);
    val_pos(s);
    let V = val(s); let v = V as real; let r = r2(k); let q = r2(-k);
    assert(x * r == v) by (nonlinear_arith) requires x == v * q, r * q == 1real;
    if n == 1 { r2_shift(k, 32 + z); r2_facts(0); let m = p2(32 + z); assert(man as real == v * (m as real)) by (nonlinear_arith) requires man == V * m, v == V as real;
        assert((m as real) * r == 1real); p2_pos(32 + z);
        assert(q == m as real) by (nonlinear_arith) requires (m as real) * r == 1real, r * q == 1real; }
    else {
        let Q = p2(32 * (n - 2)); let Z = p2(z); r2_shift(-32 * (n - 2), 32 * (n - 2)); r2_facts(0); r2_shift(-32 * (n - 2), z);
        let t = r2(-32 * (n - 2)); r2_facts(-32 * (n - 2)); assert(-k == -32 * (n - 2) + z); assert((Z as real) * t == q); assert((Q as real) * t == 1real);
        assert((man as real) * (Q as real) <= v * (Z as real)) by (nonlinear_arith) requires man * Q <= V * Z, v == V as real;
        assert(v * (Z as real) < ((man + 1) as real) * (Q as real)) by (nonlinear_arith) requires V * Z < (man + 1) * Q, v == V as real;
        let Qr = Q as real; let Zr = Z as real; let a = man as real; let b = (man + 1) as real;
        assert(a <= v * q) by (nonlinear_arith) requires a * Qr <= v * Zr, Qr * t == 1real, Zr * t == q, t > 0real;
        assert(v * q < b) by (nonlinear_arith) requires v * Zr < b * Qr, Qr * t == 1real, Zr * t == q, t > 0real;
    }
    x
}
// the double nearest to man, as an approximation of x in the logarithm
pub proof fn ln_top(f: real, man: int, x: real) requires 0x8000_0000_0000_0000 <= man < B * B, man as real <= x, x < (man + 1) as real, rabs(f - man as real) <= U() * rabs(man as real)
    ensures f > 0real, 63real * ln(2real) <= ln(x) <= 64real * ln(2real), rel(ln(f), ln(x), 1real / 10real), x > 0real
{
    let m = man as real; let u = U(); r2_half(); ln_2(); p2_52(); let w = ln(2real);
    assert(m >= 9223372036854775808real);
    assert(u * m <= m / 1000real) by (nonlinear_arith) requires u == 1real / 4503599627370496real, m >= 0real;
    assert(f >= m - m / 1000real);
    assert(u * m >= 2048real) by (nonlinear_arith) requires u == 1real / 4503599627370496real, m >= 9223372036854775808real;
    ln_r2(63); ln_r2(64); assert(r2(63) == 9223372036854775808real && r2(64) == 18446744073709551616real);
    if x > r2(63) { ln_mono(r2(63), x); } if x < r2(64) { ln_mono(x, r2(64)); }
    assert(63real * w >= 63real / 2real) by (nonlinear_arith) requires w >= 1real / 2real;
    // ln f - ln x = ln(f / x)
    let g = f / x; assert(g * x == f && g > 0real) by (nonlinear_arith) requires g == f / x, x > 0real, f > 0real; ln_mul(g, x); ln_le(g); ln_ge(g);
    let d = g - 1real; assert(d * x == f - x) by (nonlinear_arith) requires g * x == f, d == g - 1real;
    let e = u + u / 1000real; assert(e * x >= u * m + 1real) by (nonlinear_arith) requires e == u + u / 1000real, x >= m, u * m >= 2048real, u > 0real;
    assert(d <= e) by (nonlinear_arith) requires d * x <= e * x, x > 0real;
    assert(d >= -e) by (nonlinear_arith) requires d * x >= -(e * x), x > 0real;
    let h = 1real / g; assert(h * g == 1real) by (nonlinear_arith) requires h == 1real / g, g > 0real;
    assert(h <= 1real + 2real * u) by (nonlinear_arith) requires h * g == 1real, g >= 1real - e, e == u + u / 1000real, u == 1real / 4503599627370496real, g > 0real;
    assert(rabs(ln(f) - ln(x)) <= 2real * u);
    reveal(rel); let L = ln(x); assert(2real * u <= (1real / 10real) * u * L) by (nonlinear_arith) requires L >= 63real / 2real, u > 0real;
}
pub proof fn rel_refl(y: real) ensures rel(y, y, 0real) { reveal(rel); let x = rabs(y); assert(0real * U() * x == 0real) by (nonlinear_arith); }
pub proof fn quot_mid(x: real, y: real) requires 1real / 1000real <= rabs(x) <= 300000000000real, 1real / 100000000000000000real <= rabs(y) <= 2300real ensures mid9(x / y)
{
    rabs_div(x, y); let X = rabs(x); let Y = rabs(y); let q = X / Y; assert(q * Y == X) by (nonlinear_arith) requires q == X / Y, Y > 0real;
    assert(q >= 1real / 100000000000000000000000000000real) by (nonlinear_arith) requires q * Y == X, X >= 1real / 1000real, 0real < Y <= 2300real;
    assert(q <= 100000000000000000000000000000real) by (nonlinear_arith) requires q * Y == X, X <= 300000000000real, Y >= 1real / 100000000000000000real;
}
pub proof fn f_two() ensures fpos(0x4000_0000_0000_0000), fr(0x4000_0000_0000_0000) == 2real, fpos(0x3FF0_0000_0000_0000), fr(0x3FF0_0000_0000_0000) == 1real
{ fr_pow(0x4000_0000_0000_0000, 0, 1024); fr_pow(0x3FF0_0000_0000_0000, 0, 1023); r2_tab(); reveal(fr); }
// base of an ordinary logarithm
pub open spec fn fbase(b: int) -> bool { fpos(b) && b != 0x3FF0_0000_0000_0000 }
pub proof fn fbase_ln(b: int) requires fbase(b) ensures 1real / 100000000000000000real <= rabs(ln(fr(b))) <= 1100real, fr(b) > 0real { fr_pos(b); ln_base(b); }
// log_2 of the base, and the scaled exponent over it
pub proof fn log_scale(n: int, nb: int, w2: int, d: int, b: int, tw: int) requires -32 <= n <= 0x20_0000_0000, int_fl(nb, n), 0 <= tw < B * B, int_fl(tw, 2), log_wrap(w2, b, tw), fl_div(d, nb, w2), fbase(b)
    ensures ffin(d), rel(fr(d), (n as real) * ln(2real) / ln(fr(b)), 4real + 4real / 1000real)
{
    f_two(); fbase_ln(b); let be = ln(fr(b)); let w = ln(2real); ln_2(); let g = be / w; rabs_div(be, w);
    let BE = rabs(be); let G = BE / w; assert(rabs(g) == G); assert(G * w == BE) by (nonlinear_arith) requires G == BE / w, w > 0real;
    assert(G >= BE) by (nonlinear_arith) requires G * w == BE, 0real < w <= 1real, BE > 0real;
    assert(G <= 2200real) by (nonlinear_arith) requires G * w == BE, w >= 1real / 2real, BE <= 1100real;
    assert(!feq(b, 0x3FF0_0000_0000_0000)); assert(fpos(tw)); assert(lq(w2, b, tw)); lq_rel(w2, b, tw); rel_mid(fr(w2), g, 3real + 2real / 1000real); if fzero(w2) { fz_fr(w2); }
    let N = n as real; rel_refl(N); rel_div(N, N, 0real, fr(w2), g, 3real + 2real / 1000real);
    assert(N / g == N * w / be) by (nonlinear_arith) requires g == be / w, w > 0real, be != 0real;
    if n != 0 { quot_mid(N, g); } else { assert(N / g == 0real) by (nonlinear_arith) requires N == 0real, g != 0real; }
    let q = N / fr(w2); rel_mid(q, N / g, 3real + 3real / 1000real);
    rel_trans(fr(d), q, N / g, 1real, 3real + 3real / 1000real);
}
pub proof fn log_mant(fx: int, man: int, x: real, w1: int, b: int) requires int_fl(fx, man), 0 <= fx < B * B, 0x8000_0000_0000_0000 <= man < B * B, man as real <= x, x < (man + 1) as real, log_wrap(w1, fx, b), fbase(b)
    ensures ffin(w1), rel(fr(w1), ln(x) / ln(fr(b)), 3real + 104real / 1000real), 63real * ln(2real) <= ln(x) <= 64real * ln(2real), x > 0real, fx != 0x3FF0_0000_0000_0000
{
    let f = fr(fx); ln_top(f, man, x); f_two(); fbase_ln(b); let be = ln(fr(b)); ln_2(); assert(fpos(fx)); let L = ln(x); let A = ln(f);
    r2_half(); p2_52(); assert(f > 1real) by { let m = man as real; let u = U(); assert(u * m <= m / 1000real) by (nonlinear_arith) requires u == 1real / 4503599627370496real, m >= 0real; }
    rel_refl(be); rel_div(A, L, 1real / 10real, be, be, 0real); assert(rabs(A) >= 1real && rabs(A) <= 100real) by { reveal(rel); let u = U(); assert((1real / 10real) * u * L <= L / 1000real) by (nonlinear_arith) requires u == 1real / 4503599627370496real, L >= 0real; }
    quot_mid(A, be); lq_rel(w1, fx, b); rel_trans(fr(w1), A / be, L / be, 3real + 2real / 1000real, 101real / 1000real); rel_weak(fr(w1), L / be, 3real + 2real / 1000real + 101real / 1000real + 1real / 1000real, 3real + 104real / 1000real);
}
pub proof fn log_main(V: int, n: int, x: real, fx: int, man: int, w1: int, nb: int, w2: int, d: int, r: int, b: int, tw: int)
    requires -32 <= n <= 0x20_0000_0000, 0 <= tw < B * B, int_fl(tw, 2), int_fl(fx, man), 0 <= fx < B * B, 0x8000_0000_0000_0000 <= man < B * B, man as real <= x, x < (man + 1) as real, V as real == x * r2(n), V > 0, log_wrap(w1, fx, b), int_fl(nb, n), log_wrap(w2, b, tw), fl_div(d, nb, w2), fl_add(r, w1, d), fbase(b)
    ensures ffin(r), rel(fr(r), ln(V as real) / ln(fr(b)), 12real), V != 1
{
    log_mant(fx, man, x, w1, b); log_scale(n, nb, w2, d, b, tw); fbase_ln(b); let be = ln(fr(b)); let w = ln(2real); ln_2(); ln_r2(n); ln_mul(x, r2(n)); let L = ln(x); let N = n as real; let T = L + N * w; assert(ln(V as real) == T);
    let P = L / be; let Q = N * w / be; let S = T / be; assert(P + Q == S) by (nonlinear_arith) requires P == L / be, Q == N * w / be, S == T / be, T == L + N * w, be != 0real;
    let BE = rabs(be); let u = U(); r2_half(); let aN = rabs(N); rabs_mul(N, w); rabs_div(L, be); rabs_div(N * w, be); rabs_div(T, be); let j = 3real + 104real / 1000real; let k = 4real + 4real / 1000real; let M = 109real / 10real;
    assert(N * w >= -32real * w && N * w <= 140000000000real * w) by (nonlinear_arith) requires -32real <= N <= 140000000000real, w > 0real;
    assert(rabs(L) == L); assert(aN * w == rabs(N * w));
    assert(T >= 31real * w); if n == 0 { ln_1(); }
    assert(V != 1) by { if V == 1 { ln_1(); } }
    let nw = N * w; let an = aN * w; assert(N < 0real ==> (-N) * w == -nw) by (nonlinear_arith) requires nw == N * w; assert(N >= 0real ==> nw >= 0real) by (nonlinear_arith) requires nw == N * w, w > 0real; assert(an == nw || an == -nw); assert(an >= 0real);
    assert(j * L + k * an <= M * T) by (nonlinear_arith) requires j == 3real + 104real / 1000real, k == 4real + 4real / 1000real, M == 109real / 10real, T == L + nw, L >= 63real * w, nw >= -32real * w, w > 0real, an >= 0real, an == nw || an == -nw;
    let p = rabs(P); let q = rabs(Q); let s = rabs(S); assert(p * BE == L && q * BE == aN * w && s * BE == T) by (nonlinear_arith) requires p == L / BE, q == (aN * w) / BE, s == T / BE, BE > 0real;
    assert(j * p + k * q <= M * s) by (nonlinear_arith) requires j * (p * BE) + k * (q * BE) <= M * (s * BE), BE > 0real;
    let y = fr(w1) + fr(d);
    assert(rel(y, S, M)) by { reveal(rel); assert(j * u * p + k * u * q <= M * u * s) by (nonlinear_arith) requires j * p + k * q <= M * s, u > 0real; assert(rabs(y - S) <= rabs(fr(w1) - P) + rabs(fr(d) - Q)); }
    quot_mid(T, be); rel_mid(y, S, M); rel_trans(fr(r), y, S, 1real, M); rel_weak(fr(r), S, 1real + M + 1real / 1000real, 12real);
}
pub proof fn log_badbase(w: int, a: int, b: int) requires log_wrap(w, a, b) || log_wrap(w, b, a), fnan(b) || (dneg(b) && !fzero(b)) ensures fnan(w) || fnan(a)
{
    f_two();
    if !fnan(w) && !fnan(a) && !fnan(b) {
        if lq(w, a, b) { let (la, lb) = choose|la: int, lb: int| #![trigger fl_log(la, a), fl_log(lb, b)] fl_log(la, a) && fl_log(lb, b) && fl_div(w, la, lb); }
        if lq(w, b, a) { let (la, lb) = choose|la: int, lb: int| #![trigger fl_log(la, b), fl_log(lb, a)] fl_log(la, b) && fl_log(lb, a) && fl_div(w, la, lb); }
    }
}
pub proof fn log_small(r: int, fx: int, v: int, b: int) requires 0 <= v <= 0x8000_0000, int_fl(fx, v), 0 <= fx < B * B, 0 <= b < B * B, log_wrap(r, fx, b), !feq(b, 0x3FF0_0000_0000_0000) ensures log_is(r, v, b)
{
    f_two(); let one = 0x3FF0_0000_0000_0000int;
    if v != 1 { if fx == one { assert(fr(fx) == 1real); assert(false); } }
    if fnan(b) || (dneg(b) && !fzero(b)) { log_badbase(r, fx, b); }
    else if log_nan(v, b) { }
    else {
        assert(lq(r, fx, b)); let (la, lb) = choose|la: int, lb: int| #![trigger fl_log(la, fx), fl_log(lb, b)] fl_log(la, fx) && fl_log(lb, b) && fl_div(r, la, lb);
        if fpos(b) { assert(fbase(b)); fbase_ln(b); let be = ln(fr(b)); r2_half();
            if v == 1 { ln_1(); assert(0real / be == 0real) by (nonlinear_arith) requires be != 0real; lq_rel(r, fx, b); }
            else if v >= 2 {
                let x = v as real; ln_2(); ln_r2(31); assert(r2(31) == 2147483648real) by { p2_tabc(); } if x > 2real { ln_mono(2real, x); } if x < r2(31) { ln_mono(x, r2(31)); }
                quot_mid(ln(x), be); lq_rel(r, fx, b); rel_weak(fr(r), ln(x) / be, 3real + 2real / 1000real, 12real);
            }
        } else if v == 1 { ln_1(); if fzero(la) { fz_fr(la); } }
    }
}
pub proof fn log_big(V: int, n: int, x: real, fx: int, man: int, w1: int, nb: int, w2: int, d: int, r: int, b: int, tw: int)
    requires -32 <= n <= 0x20_0000_0000, 0 <= tw < B * B, int_fl(tw, 2), int_fl(fx, man), 0 <= fx < B * B, 0 <= b < B * B, 0x8000_0000_0000_0000 <= man < B * B, man as real <= x, x < (man + 1) as real, V as real == x * r2(n), V > 1, log_wrap(w1, fx, b), int_fl(nb, n), log_wrap(w2, b, tw), fl_div(d, nb, w2), fl_add(r, w1, d), !feq(b, 0x3FF0_0000_0000_0000), !feq(b, 0x7FF0_0000_0000_0000), !fzero(b)
    ensures log_is(r, V, b)
{
    dparts(b); dbl_inf();
    if fnan(b) || dneg(b) { log_badbase(w1, fx, b); }
    else { if dexp(b) == 2047 { assert(b == 0x7FF0_0000_0000_0000); } f_two(); log_main(V, n, x, fx, man, w1, nb, w2, d, r, b, tw); }
}
// log10 and the natural logarithm
pub open spec fn log10_is(r: int, v: int) -> bool { if v < 0 { fnan(r) } else if v == 1 { fzero(r) } else if v == 0 { finf(r) && dneg(r) } else { ffin(r) && rel(fr(r), ln(v as real) / ln(10real), 12real) } }
pub open spec fn loge_is(r: int, v: int) -> bool { if v < 0 { fnan(r) } else if v == 1 { fzero(r) } else if v == 0 { finf(r) && dneg(r) } else { ffin(r) && rel(fr(r), ln(v as real), 14real) } }
pub proof fn log_ten(v: int) ensures forall|r: int, b: int| 0 <= b < B * B && int_fl(b, 10) && #[trigger] log_is(r, v, b) ==> log10_is(r, v)
{ f_two(); ln_2(); ln_mono(2real, 10real); }
pub proof fn log_nat(r: int, v: int) requires log_is(r, v, 0x4005_BF0A_8B14_5769) ensures loge_is(r, v)
{
    let b = 0x4005_BF0A_8B14_5769int; reveal(fr); dfields(0, 1024, 0x5_BF0A_8B14_5769); assert(dexp(b) == 1024 && dman(b) == 0x5_BF0A_8B14_5769 && !dneg(b)); r2_shift(-51, 51); r2_facts(0); p2_52(); p2_tabc(); p2_add(32, 19); let t = r2(-51);
    assert(p2(51) == 0x8_0000_0000_0000); assert(2251799813685248real * t == 1real); let f = frm(b); assert(f == 6121026514868073real * t); let c = 6121026514868073real / 2251799813685248real; assert(t == 1real / 2251799813685248real); assert(f == c) by (nonlinear_arith) requires f == 6121026514868073real * t, t == 1real / 2251799813685248real, c == 6121026514868073real / 2251799813685248real; ln_e(); r2_half(); let l = ln(f); assert(l > 0real);
    if v > 1 {
        let x = ln(v as real); rel_refl(x); assert(rel(l, 1real, 1real)) by { reveal(rel); assert(1real * U() * 1real == U()); } rel_div(x, x, 0real, l, 1real, 1real); assert(x / 1real == x);
        rel_trans(fr(r), x / l, x, 12real, 1real + 1real / 1000real); rel_weak(fr(r), x, 13real + 2real / 1000real, 14real);
    }
}
// all of it, for whatever the operations return
pub proof fn log_fin(s: Seq<u32>, z: int, man: int, w1: int, w2: int, b: int)
    requires ({ let n = s.len() as int; 1 <= n <= 0x7fff_ffff && s[n - 1] != 0 && 0 <= z <= 31 && s[n - 1] * p2(z) < B && s[n - 1] * p2(z) >= 0x8000_0000 && man == s[n - 1] * p2(32 + z) + lim(s, n - 2) * p2(z) + lim(s, n - 3) / p2(32 - z) && val(s) >= 0x8000_0000 }), 0 <= b < B * B, !feq(b, 0x3FF0_0000_0000_0000), !feq(b, 0x7FF0_0000_0000_0000), !fzero(b)
    ensures forall|fx: int, tw: int, nb: int, d: int, r: int| #![trigger log_wrap(w1, fx, b), log_wrap(w2, b, tw), fl_div(d, nb, w2), fl_add(r, w1, d)] 0 <= fx < B * B && int_fl(fx, man) && 0 <= tw < B * B && int_fl(tw, 2) && log_wrap(w1, fx, b) && log_wrap(w2, b, tw) && int_fl(nb, 32 * s.len() - z - 64) && fl_div(d, nb, w2) && fl_add(r, w1, d) ==> log_is(r, val(s), b)
{
    let x = top_x(s, z, man); let n = 32 * s.len() - z - 64; if s.len() == 1 { pv_1(s, 0); unit(s[0] as int); pw_1(); let h = s[0] as int; assert(h == val(s)); if z > 0 { p2_mono(1, z); p2_32(); let Z = p2(z); assert(h * Z >= B) by (nonlinear_arith) requires h >= 0x8000_0000, Z >= 2; } }
    assert forall|fx: int, tw: int, nb: int, d: int, r: int| #![trigger log_wrap(w1, fx, b), log_wrap(w2, b, tw), fl_div(d, nb, w2), fl_add(r, w1, d)] 0 <= fx < B * B && int_fl(fx, man) && 0 <= tw < B * B && int_fl(tw, 2) && log_wrap(w1, fx, b) && log_wrap(w2, b, tw) && int_fl(nb, n) && fl_div(d, nb, w2) && fl_add(r, w1, d) implies log_is(r, val(s), b) by
    { log_big(val(s), n, x, fx, man, w1, nb, w2, d, r, b, tw); }
}
pub proof fn log_sm(v: int, b: int) requires 0 <= v <= 0x8000_0000, 0 <= b < B * B, !feq(b, 0x3FF0_0000_0000_0000)
    ensures forall|r: int, fx: int| 0 <= fx < B * B && int_fl(fx, v) && #[trigger] log_wrap(r, fx, b) ==> log_is(r, v, b)
{ assert forall|r: int, fx: int| 0 <= fx < B * B && int_fl(fx, v) && #[trigger] log_wrap(r, fx, b) implies log_is(r, v, b) by { log_small(r, fx, v, b); } }
