// ---- client code: laws over several operations
pub proof fn cl_bytes(x: int, c: int) requires iabs(x) < pw(c), 1 <= c <= 0x2000_0000
    ensures forall|b: Seq<u8>| #[trigger] bytes_ok(b, x, false, false) ==> b.len() <= 4 * c + 1 && bytes_val(b, false, false) == x
{
    assert forall|b: Seq<u8>| #[trigger] bytes_ok(b, x, false, false) implies b.len() <= 4 * c + 1 && bytes_val(b, false, false) == x by {
        bytes_roundtrip(b, x, false, false);
        let l = b.len() as int; p2_pw(c); if l > 4 * c + 1 { p2_mono(32 * c, 8 * (l - 1) - 1); assert(inr(x, l - 1, false)); }
    }
}
pub proof fn cl_nat(n: int) requires n >= 0 ensures dec_nat(n).len() >= 1, n > 0 ==> t10(dec_nat(n).len() - 1) <= n decreases n
{ if n >= 10 { cl_nat(n / 10); t10_pos(dec_nat(n / 10).len() - 1); assert(n >= 10 * (n / 10)); } else { assert(t10(0) == 1); } }
pub proof fn cl_pw(c: int) requires c >= 0 ensures pw(c) <= t10(10 * c), pw(c) >= 1 decreases c
{ if c > 0 { cl_pw(c - 1); pw_1(); reveal_with_fuel(t10, 11); assert(pw(c) == pw(c - 1) * B) by { pw_add(c - 1, 1); } assert(t10(10 * c) == 10_000_000_000 * t10(10 * (c - 1))); } else { pw_1(); } }
pub proof fn cl_text(x: int, c: int) requires iabs(x) < pw(c), 1 <= c ensures dec_int(x).len() <= 10 * c + 1, parse_val(dec_int(x)) == x
{ dec_roundtrip(x); cl_nat(iabs(x)); cl_pw(c); let l = dec_nat(iabs(x)).len() as int; if l > 10 * c { t10_mono(10 * c, l - 1); if x == 0 { assert(l == 1); } } }
pub proof fn cl_shift(x: int, n: int) requires n >= 0 ensures (x * p2(n)) / p2(n) == x { p2_pos(n); div_eq(x * p2(n), p2(n)); let m = p2(n); assert((x * m) / m == x) by (nonlinear_arith) requires m > 0; }
pub proof fn cl_len(s: int, b: Seq<u32>, c: int) requires wfsb(s, b), b.len() <= c, c >= 1 ensures iabs(sb(s, b)) < pw(c) { bi_sign(s, b); pw_mono(b.len() as int, c); pw_1(); pw_mono(1, c); }
pub open spec fn dbl_int(b: int) -> bool { let e = dexp(b); let m = dman(b) + 0x10_0000_0000_0000; if e == 0 { dman(b) == 0 } else if e >= 1075 { e < 2047 } else { (m / p2(1075 - e)) * p2(1075 - e) == m } }
pub proof fn cl_exp(b: int, mag: int) requires 0 <= b < B * B, mag >= 1, 1 <= dexp(b) < 2047, ({ let e = dexp(b); let m = dman(b) + 0x10_0000_0000_0000; if e >= 1075 { m * p2(e - 1075) <= mag && mag < (m + 1) * p2(e - 1075) } else { mag * p2(1075 - e) == m } })
    ensures dexp(b) >= 1023, p2(dexp(b) - 1023) <= mag, mag < p2(dexp(b) - 1022)
{
    dparts(b); p2_52(); let e = dexp(b); let m = dman(b) + 0x10_0000_0000_0000;
    if e >= 1075 { let a = e - 1075; let P = p2(a); p2_pos(a); p2_add(52, a); p2_add(53, a); assert(p2(52) * P <= m * P && (m + 1) * P <= p2(53) * P) by (nonlinear_arith) requires p2(52) <= m, m + 1 <= p2(53), P >= 1; }
    else {
        let d = 1075 - e; let P = p2(d); p2_pos(d);
        if e < 1023 { p2_mono(53, d); assert(mag * P >= P) by (nonlinear_arith) requires mag >= 1, P >= 1; }
        else {
            let Q = p2(e - 1023); p2_pos(e - 1023); p2_add(e - 1023, d); p2_add(e - 1022, d); let Q2 = p2(e - 1022);
            assert(Q <= mag) by (nonlinear_arith) requires Q * P <= mag * P, P >= 1;
            assert(mag < Q2) by (nonlinear_arith) requires mag * P < Q2 * P, P >= 1;
        }
    }
}
// an integer-valued double other than zero comes back bit for bit
pub proof fn cl_double(v: int) requires 0 <= v < B * B, dbl_int(v) ensures forall|r: int| 0 <= r < B * B && #[trigger] dbl_tr(r, dval(v)) && dval(v) != 0 ==> r == v
{
    assert forall|r: int| 0 <= r < B * B && #[trigger] dbl_tr(r, dval(v)) && dval(v) != 0 implies r == v by {
        dparts(v); dparts(r); let e = dexp(v); let m = dman(v) + 0x10_0000_0000_0000; let mag = dmag(v);
        if e >= 1075 { let P = p2(e - 1075); p2_pos(e - 1075); assert(m * P >= 1 && m * P < (m + 1) * P) by (nonlinear_arith) requires m >= 1, P >= 1; }
        else if e >= 1 { let P = p2(1075 - e); p2_pos(1075 - e); div_eq(m, P); if mag <= 0 { assert(mag == 0); } }
        if dval(v) != 0 {
            cl_exp(v, mag); p2_mono(e - 1022, 1024); assert(iabs(dval(v)) == mag); cl_exp(r, mag); let f = dexp(r);
            if f < e { p2_mono(f - 1022, e - 1023); } if e < f { p2_mono(e - 1022, f - 1023); }
            let n = dman(r) + 0x10_0000_0000_0000;
            if e >= 1075 { let P = p2(e - 1075); p2_pos(e - 1075); assert(n == m) by (nonlinear_arith) requires n * P <= m * P, m * P < (n + 1) * P, P >= 1; }
        }
    }
}
