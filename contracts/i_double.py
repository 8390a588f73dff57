C(H + 'cbit_high_zero(u)', 'u', ens=['u == 0 ==> res == 32', 'u != 0 ==> 0 <= res <= 31 && u * p2(res as int) < B && u * p2(res as int) >= 0x8000_0000'],
  hints={'entry': '@ghost v0 = u;', 'ret': 'lz_tab(v0 as int, r_ as int); '})
C(H + 'cbit_high_zero(L)', 'uu', ens=['uu == 0 ==> res == 64', 'uu != 0 ==> 0 <= res <= 63 && uu * p2(res as int) < B * B && uu * p2(res as int) >= 0x8000_0000_0000_0000'],
  hints={'ret': 'if uu >= B { let h = uu as int / B; lz64(uu as int, h, r_ as int); } else if uu > 0 { lz64(uu as int, uu as int, r_ - 32); }'})
C(H + 'make_ulong(u,u)', 'uHi, uLo', ens=['res as int == uHi as int * B + uLo as int'], hints={'entry': 'p2_32();'})
C(H + 'get_double_parts(d,i,i,L,b)', 'dbl, mut sign, mut exp, mut man, mut fFinite', ens=['*final(fFinite) == (dexp(dbl.bits as int) != 2047)', 'dparts_are(dbl.bits as int, *final(sign) as int, *final(exp) as int, *final(man) as int)'],
  hints={'entry': 'dparts(dbl.bits as int); let v = (dbl.bits / 0x4000_0000_0000_0000) as u32; assert((v & 2u32) == (if v >= 2 { 2u32 } else { 0u32 })) by (bit_vector) requires v <= 3; ', 'ret': 'let w = (dbl.bits % 0x10_0000_0000_0000) as u64; p2_52(); or_sum64(0x10_0000_0000_0000u64, w, 52);'})
C(H + 'get_double_from_parts(i,i,L)', 'sign, exp, man', req=['-1000 <= exp <= 2000', 'man >= 0x8000_0000_0000_0000'],
  ens=['dneg(res.bits as int) == (sign < 0)', 'exp + 1086 >= 2047 ==> dexp(res.bits as int) == 2047 && dman(res.bits as int) == 0', 'exp + 1086 < 2047 ==> dexp(res.bits as int) == exp + 1086 && dman(res.bits as int) + 0x10_0000_0000_0000 == man as int / 2048'],
  hints={'entry': '@ghost m0 = man as int; p2_52();', 'call:cbit_high_zero:1': 'p2_52(); lz63(man as int, $ret as int);',
         'ret': 'let s = if sign < 0 { 1int } else { 0int }; let e = if exp >= 2047 { 2047int } else { exp as int }; let m = if exp >= 2047 { 0int } else { man as int % 0x10_0000_0000_0000 }; let b0 = (e * 0x10_0000_0000_0000 + m) as u64; dfields(s, e, m); p2_52(); or_sum64(0x8000_0000_0000_0000u64, b0, 63); '})
C(G + 'operator double()', this='ref', req=['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff'], ens=['dbl_tr(res.bits as int, bi(*this))'],
  hints={'entry': 'bi_sign(this._sign as int, this._bits@); p2_52(); if this._bits@.len() == 0 { dbl_small(this._sign as int); } let s = this._bits@; if s.len() > 32 { pw_mono(32, s.len() - 1); p2_pw(32); }', 'call:cbit_high_zero:1': 'let z = $ret as int; dman_parts(h as int, m as int, l as int, z); or_sum64((h * p2(32 + z) + m * p2(z)) as u64, (l as int / p2(32 - z)) as u64, z);', 'ret?man': 'dbl_big(this._bits@, z as int, man as int, exp as int + 1086, man as int / 2048);', 'ret': 'dbl_inf();'})
C(G + 'BigInteger(d)', 'value', throws=True, ens=['wf(res)', 'bi(res) == dval(value.bits as int)', 'res._bits@.len() <= 40', 'dexp(value.bits as int) != 2047'], err=['e is Overflow', 'dexp(value.bits as int) == 2047'],
  hints={'entry': 'dparts(value.bits as int); p2_52(); unit(1);', 'call:get_double_parts:1': 'dmag_is(value.bits as int, sign as int, exp as int, man as int); if 0 < exp <= 11 { p2_mono(exp as int, 11); let m = man as int; let p = p2(exp as int); p2_pos(exp as int); assert(0 <= m * p <= m * 2048) by (nonlinear_arith) requires m >= 0, 1 <= p <= 2048; } else if exp > 11 { p2_add(11, exp - 11); assoc(man as int, 2048, p2(exp - 11)); }', 'call:BigInteger:1': 'bi_sign($ret._sign as int, $ret._bits@); neg_sign($ret._sign as int, $ret._bits@);', 'call:BigInteger:2': 'bi_sign($ret._sign as int, $ret._bits@); neg_sign($ret._sign as int, $ret._bits@);',
   'call:assert_valid:1:pre': 'if dexp(value.bits as int) > 1086 { let cu = (exp - 1) / 32 + 1; dbl_limbs(this._bits@, man as int, exp as int, cu, cu * 32 - exp); mulsign(sign as int, val(this._bits@)); }'})
