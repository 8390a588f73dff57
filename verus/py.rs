// ---- Python bindings: encodings longer than the shortest
pub open spec fn shl_is(r: int, x: int, n: int) -> bool { r == (if n >= 0 { x * p2(n) } else { x / p2(-n) }) }
// the low n bytes of x when the bits above them are all sign bits
pub proof fn enc_val(s: Seq<u8>, x: int, uns: bool, be: bool) requires bytes_upto(s, x, be, s.len() as int), x / p2(8 * (s.len() as int)) == (if bneg(s, uns, be) { -1int } else { 0 }) ensures bytes_val(s, uns, be) == x
{ p2_8(); rt_step(s, x, be, bneg(s, uns, be), 0); assert(x / 1 == x); }
pub proof fn enc_pos(s: Seq<u8>, x: int) requires bytes_upto(s, x, false, s.len() as int), inr(x, s.len() as int, true) ensures bytes_val(s, true, false) == x
{ p2_pos(8 * (s.len() as int)); floor_small(x, p2(8 * (s.len() as int))); enc_val(s, x, true, false); }
// a negative number in n + 1 bytes of which the top one is 0xff
pub proof fn enc_neg(s: Seq<u8>, x: int) requires s.len() >= 2, bytes_upto(s, x, false, s.len() as int), -p2(8 * (s.len() - 1)) <= x < 0
    ensures s[s.len() - 1] == 0xff, bytes_val(s, false, false) == x, s[s.len() - 2] >= 128 ==> bytes_val(s.subrange(0, s.len() - 1), false, false) == x
{
    let n = s.len() - 1; let t = s.subrange(0, n); p2_8(); p2_pos(8 * n); p2_pos(8 * n + 8); p2_mono(8 * n, 8 * n + 8); floor_small(x, p2(8 * n)); floor_small(x, p2(8 * n + 8)); reveal(bytes_upto);
    assert(8 * (s.len() as int) == 8 * n + 8); assert(s[ix(false, s.len() as int, n)] == bd(x, n)); assert((-1int) % 256 == 255); enc_val(s, x, false, false);
    if s[n - 1] >= 128 { assert forall|k: int| 0 <= k < n implies t[ix(false, n, k)] == #[trigger] bd(x, k) by { assert(s[ix(false, s.len() as int, k)] == bd(x, k)); } enc_val(t, x, false, false); }
}
// the number of bits of a magnitude
pub open spec fn nbits(x: int, r: int) -> bool { iabs(x) < p2(r) && (x != 0 ==> r >= 1 && p2(r - 1) <= iabs(x)) && (x == 0 ==> r == 0) }
pub open spec fn is_floor(r: int, x: real) -> bool { r as real <= x && x < r as real + 1real }
pub proof fn py_floor() ensures forall|b: int, x: int, r: int| #[trigger] int_fl(b, x) && #[trigger] is_floor(r, fr(b)) && 0 <= x <= 0x20_0000_0000_0000 ==> r == x
{ assert forall|b: int, x: int, r: int| #[trigger] int_fl(b, x) && #[trigger] is_floor(r, fr(b)) && 0 <= x <= 0x20_0000_0000_0000 implies r == x by { assert(r as real <= x as real && (x as real) < r as real + 1real); } }
// what the encodings of x give, for every buffer
pub proof fn py_enc(x: int, c: int) requires iabs(x) < pw(c), 1 <= c <= 0x2000_0000
    ensures iabs(x) < p2(0x4000_0000_0000),
        forall|r: int| #[trigger] nbits(x, r) ==> 0 <= r <= 32 * c && ({ let n = (r + 7) / 8; 0 <= n <= 4 * c && (x != 0 ==> n >= 1) && (x >= 0 ==> inr(x, n, true)) && (x < 0 ==> inr(x, n + 1, false) && -p2(8 * n) <= x) }),
        forall|b: Seq<u8>, o: int, m: int, be: bool, n: int| #[trigger] bytes_upto(b.subrange(o, m), x, be, n) && o == 0 && m == n && n == b.len() && !be && inr(x, n, true) ==> bytes_val(b, true, false) == x,
        forall|b: Seq<u8>, o: int, m: int, be: bool, n: int| #[trigger] bytes_upto(b.subrange(o, m), x, be, n) && o == 0 && m == n && n == b.len() && !be && n >= 2 && -p2(8 * (n - 1)) <= x < 0 ==> b[n - 1] == 0xff && bytes_val(b, false, false) == x && (b[n - 2] >= 128 ==> bytes_val(b.subrange(0, n - 1), false, false) == x)
{
    p2_pw(c); p2_mono(32 * c, 0x4000_0000_0000);
    assert forall|r: int| #[trigger] nbits(x, r) implies 0 <= r <= 32 * c && ({ let n = (r + 7) / 8; 0 <= n <= 4 * c && (x != 0 ==> n >= 1) && (x >= 0 ==> inr(x, n, true)) && (x < 0 ==> inr(x, n + 1, false) && -p2(8 * n) <= x) }) by {
        if x != 0 && r - 1 >= 32 * c { p2_mono(32 * c, r - 1); } let n = (r + 7) / 8; p2_mono(r, 8 * n); p2_mono(8 * n, 8 * n + 7); assert(8 * (n + 1) - 1 == 8 * n + 7); }
    assert forall|b: Seq<u8>, o: int, m: int, be: bool, n: int| #[trigger] bytes_upto(b.subrange(o, m), x, be, n) && o == 0 && m == n && n == b.len() && !be && inr(x, n, true) implies bytes_val(b, true, false) == x by { assert(b.subrange(o, m) =~= b); enc_pos(b, x); }
    assert forall|b: Seq<u8>, o: int, m: int, be: bool, n: int| #[trigger] bytes_upto(b.subrange(o, m), x, be, n) && o == 0 && m == n && n == b.len() && !be && n >= 2 && -p2(8 * (n - 1)) <= x < 0 implies b[n - 1] == 0xff && bytes_val(b, false, false) == x && (b[n - 2] >= 128 ==> bytes_val(b.subrange(0, n - 1), false, false) == x) by { assert(b.subrange(o, m) =~= b); enc_neg(b, x); }
}
pub proof fn py_dec(x: int) ensures forall|b: Seq<u8>, o: int, m: int, uns: bool, be: bool| bytes_ok(b, x, uns, be) && o == 0 && m == b.len() ==> #[trigger] bytes_val(b.subrange(o, m), uns, be) == x
{ assert forall|b: Seq<u8>, o: int, m: int, uns: bool, be: bool| bytes_ok(b, x, uns, be) && o == 0 && m == b.len() implies #[trigger] bytes_val(b.subrange(o, m), uns, be) == x by { assert(b.subrange(o, m) =~= b); bytes_roundtrip(b, x, uns, be); } }
// a canonical number below 2^(32 n) has at most n limbs
pub proof fn py_len(n: int) requires n >= 0 ensures forall|x: BigInteger| #[trigger] wf(x) && iabs(bi(x)) < pw(n) ==> x._bits@.len() <= n
{ assert forall|x: BigInteger| #[trigger] wf(x) && iabs(bi(x)) < pw(n) implies x._bits@.len() <= n by { bi_sign(x._sign as int, x._bits@); if x._bits@.len() > n { val_pos(x._bits@); pw_mono(n, x._bits@.len() - 1); } } }
pub proof fn py_pb(p: int) ensures forall|l: int| 0 <= l <= 0x0fff_fff8 ==> #[trigger] pb(p, l, 1) <= pb(p, 0x0fff_fff8, 1)
{ assert forall|l: int| 0 <= l <= 0x0fff_fff8 implies #[trigger] pb(p, l, 1) <= pb(p, 0x0fff_fff8, 1) by { pb_mono(p, l, 1, 0x0fff_fff8, 1); } }
