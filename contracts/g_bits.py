H = 'NumericsHelpers::'
TC = 'twos(old(d)@, d@, %s)'
C(H + 'dangerous_make_twos_complement(v)', 'mut d', req=['old(d)@.len() <= 0x7fff_ffff'],
  ens=['final(d)@.len() == old(d)@.len()', 'val(final(d)@) == (if val(old(d)@) == 0 { 0 } else { pw(old(d)@.len() as int) - val(old(d)@) })'],
  loops={1: dict(inv=['1 <= i <= d@.len()', 'd@.len() == old(d)@.len()', 'forall|k: int| i <= k < d@.len() ==> d@[k] == #[trigger] old(d)@[k]', TC % 'i as int', '(d@[i - 1] == 0) == (pv(d@, 0, i as int) == 0)'], dec='d@.len() - i'),
         2: dict(inv=['1 <= i <= d@.len()', 'd@.len() == old(d)@.len()', 'forall|k: int| i <= k < d@.len() ==> d@[k] == #[trigger] old(d)@[k]', TC % 'i as int', 'i < d@.len() ==> pv(d@, 0, i as int) != 0'], dec='d@.len() - i')},
  hints={'L1.pre': 'pv_1(d@, 0); pv_1(old(d)@, 0); pw_1();', 'L1.end': 'twos_step(old(d)@, d_b1, d@, i_b1 as int); pv_bound(d_b1, 0, i_b1 as int);', 'L2.end': 'twos_step(old(d)@, d_b2, d@, i_b2 as int);'})
C(G + 'BigInteger(v)', 'value', req=['value@.len() <= 0x7fff_ffff'], ens=['wf(res)', 'bi(res) == tcv(value@)', 'res._bits@.len() <= value@.len()'],
  loops={1: dict(inv=['0 <= dwordCount <= value@.len()', 'zeros(value@, dwordCount as int, value@.len() as int)'], dec='dwordCount'),
         2: dict(inv=['0 <= len <= value_c@.len()', 'zeros(value_c@, len as int, value_c@.len() as int)'], dec='len')},
  hints={'decl:dwordCount': 'pv_1(value@, 0); pw_1(); @ghost N = value@.len() as int;', 'L1.after': 'pv_top0(value@, 0, value@.len() as int, dwordCount as int); assert(isNegative ==> dwordCount == value@.len());',
   'call:dangerous_make_twos_complement:1': 'neg_mag(value@); pv_1(value_c@, 0);', 'L2.after': 'pv_top0(value_c@, 0, value_c@.len() as int, len as int);',
   'ret': 'mulsign(this._sign as int, val(this._bits@)); if this._bits@.len() <= value_c@.len() && this._bits@ =~= value_c@.subrange(0, this._bits@.len() as int) { pv_frame(this._bits@, value_c@, 0, this._bits@.len() as int); }'})
C(G + 'to_uint32_array()', this='ref', req=['wf(*this)', 'this._bits@.len() <= 0x7fff_fff0'], ens=['tcv(res@) == bi(*this)', 'res@.len() <= imax(1, this._bits@.len() as int) + 1', 'res@.len() == 0 ==> bi(*this) == 0'],
  loops={1: dict(inv=['0 <= msb < dwords@.len()', 'forall|k: int| msb < k < dwords@.len() ==> dwords@[k] == highDWord'], dec='msb')},
  hints={'entry': BS + 'pw_1();', 'L1.pre': 'pv_1(dwords@, 0); assert(ext(dwords@, dwords@.len() as int, highDWord) == bi(*this));',
   'L1.after': 'ext_trim(dwords@, msb + 1, dwords@.len() as int, highDWord);', 'ret?msb,dwords': 'if r_@.len() > 0 { ext_frame(r_@, dwords@, msb + 1, highDWord); ext_tcv(r_@, msb + 1, highDWord); }'})
C(G + 'get_parts_for_bit_manipulation(B,v,i)', 'x, mut xd, mut xl', req=['wf(*x)', 'x._bits@.len() <= 0x7fff_fff0', 'old(xd)@.len() == 0'],
  ens=['res == (bi(*x) < 0)', 'val(final(xd)@) == iabs(bi(*x))', '*final(xl) == final(xd)@.len()', 'final(xd)@.len() == imax(1, x._bits@.len() as int)'],
  hints={'entry': 'bi_sign(x._sign as int, x._bits@);', 'ret': 'if xd@.len() == 1 { val_1(xd@); }'})
for o, n, cpp in (('&', 'and', '&'), ('|', 'or', '|'), ('^', 'xor', '^')):
    C(G + 'operator%s=(B)' % o, 'rhs', this='mut', req=ok('old(this)') + ok('rhs'), ens=TH + ['b%s(bi(*final(this)), bi(*old(this)), bi(*rhs))' % n, 'final(this)._bits@.len() <= imax(old(this)._bits@.len() as int, rhs._bits@.len() as int) + 2'],
      loops={1: dict(inv=['z@.len() == imax(x@.len() as int, y@.len() as int)', '0 <= i <= z@.len()', 'forall|k: int| 0 <= k < i ==> #[trigger] z@[k] == extd(x@, k) %s extd(y@, k)' % o], dec='z@.len() - i')},
      hints={'entry': BS + bs('rhs') + 'bzero(bi(*this), bi(*rhs)); b%s_ints(this._sign as int, rhs._sign as int);' % n, 'decl:yExtend': 'tcv_neg(x@); tcv_neg(y@);', 'L1.after': 'b%s_vec(x@, y@, z@);' % n})
    C('operator%s(B,B)' % o, 'lhs, rhs', req=ok('lhs') + ok('rhs'), ens=['wf(res)', 'b%s(bi(res), bi(*lhs), bi(*rhs))' % n, 'res._bits@.len() <= imax(lhs._bits@.len() as int, rhs._bits@.len() as int) + 2'])
C(G + 'operator~()', this='ref', req=ok('this'), ens=['wf(res)', 'bi(res) == -bi(*this) - 1'])
SHL = lambda x, n: '(if %s >= 0 { bi(%s) * p2(%s as int) } else { bi(%s) / p2(-(%s as int)) })' % (n, x, n, x, n)
SHR = lambda x, n: '(if %s >= 0 { bi(%s) / p2(%s as int) } else { bi(%s) * p2(-(%s as int)) })' % (n, x, n, x, n)
def shreq(x, up): return ['wfsb(%s._sign as int, %s._bits@)' % (x, x), '%s._bits@.len() <= (if shift >= 0 { 0x3800_0000 } else { 0x3000_0000int })' % x]
def shlen(r, x, left): return ['%s._bits@.len() <= imax(1, %s._bits@.len() as int) + (if shift %s 0 { 0 } else { (if shift < 0 { -shift as int } else { shift as int }) / 32 + 1 })' % (r, x, '<' if left else '>=')]
C('operator<<(B,i)', 'lhs, shift', req=shreq('lhs', '>='), ens=['wf(res)', 'bi(res) == ' + SHL('*lhs', 'shift')] + shlen('res', 'lhs', 1), dec='if shift < 0 { 3int } else { 1 }')
C('operator>>(B,i)', 'lhs, shift', req=shreq('lhs', '<='), ens=['wf(res)', 'bi(res) == ' + SHR('*lhs', 'shift')] + shlen('res', 'lhs', 0), dec='if shift < 0 { 3int } else { 1 }')
C(G + 'operator<<=(i)', 'shift', this='mut', req=shreq('old(this)', '>='), ens=TH + ['bi(*final(this)) == ' + SHL('*old(this)', 'shift')] + shlen('final(this)', 'old(this)', 1), dec='if shift < 0 { 2int } else { 0 }',
  loops={1: dict(inv=['0 <= i <= xl', 'zeros(zd@, 0, digitShift as int)', 'zeros(zd@, i + digitShift, xl + digitShift + 1)', 'pv(zd@, digitShift as int, i as int) == pv(xd@, 0, i as int)'], dec='xl - i'),
         2: dict(inv=['0 <= i <= xl', 'zeros(zd@, 0, digitShift as int)', 'zeros(zd@, i + digitShift, xl + digitShift + 1)', 'carry < p2(smallShift as int)', 'pv(zd@, digitShift as int, i as int) + carry * pw(i as int) == pv(xd@, 0, i as int) * p2(smallShift as int)'], dec='xl - i')},
  hints={'entry': BS + 'shift_cases(bi(*this), shift as int);', 'decl:zd': 'p2_32(); unit(val(xd@)); unit(0); shift_pw(shift as int, digitShift as int, smallShift as int); p2_pos(smallShift as int);',
   'L2.end': 'pw_pos(i_b2 as int); shl_step(pv(xd@, 0, i_b2 as int), pv(zd_b2, digitShift as int, i_b2 as int), carry_b2 as int, rot as int, carry as int, zd@[i_b2 + digitShift] as int, smallShift as int, pw(i_b2 as int));',
   'ret?zd': 'unit(pw(xl as int)); assert(pv(zd@, digitShift as int, xl + 1) == pv(zd@, digitShift as int, xl as int) + zd@[digitShift + xl] * pw(xl as int)); shl_end(xd@, zd@, digitShift as int, shift as int, p2(smallShift as int)); mul_signs(bi(*old(this)), p2(shift as int)); p2_pos(shift as int);'})
C(G + 'operator>>=(i)', 'shift', this='mut', req=shreq('old(this)', '<='), ens=TH + ['bi(*final(this)) == ' + SHR('*old(this)', 'shift')] + shlen('final(this)', 'old(this)', 0), dec='if shift < 0 { 2int } else { 0 }',
  loops={1: dict(inv=['i < xl', 'zc == xl - digitShift ==> i >= digitShift - 1 && pv(zd@, i + 1 - digitShift, xl - 1 - i) == pv(xd@, i + 1, xl - 1 - i)'], dec='imax(i - digitShift + 1, 0)'),
         2: dict(inv=['i < xl', '0 <= c < p2(smallShift as int)', 'i == xl - 1 ==> c == E', 'carry == c * p2(carryShift as int) || (negx && i == xl - 1 && carry == car0)',
            'zc == xl - digitShift ==> i >= digitShift - 1 && pv(zd@, i + 1 - digitShift, xl - 1 - i) * p2(smallShift as int) + c == pv(xd@, i + 1, xl - 1 - i) + E * pw(xl - 1 - i)'], dec='imax(i - digitShift + 1, 0)')},
  hints={'entry': BS + 'shift_cases(bi(*this), shift as int);',
   'decl:trackSignBit': 'p2_32(); shift_pw(shift as int, digitShift as int, smallShift as int); pv_bound(xd@, 0, xl as int); @ghost mag = val(xd@); @ghost E = if negx { p2(smallShift as int) - 1 } else { 0 }; @ghost NN = if negx { 1int } else { 0 }; if digitShift >= xl { shr_out(bi(*this), xl as int, digitShift as int, shift as int); }',
   'decl:zd': '@ghost zc = if xl - digitShift < 0 { 0 } else { xl - digitShift }; unit(E); unit(zd@.len() as int);',
   'L2.pre': 'ones_mod(smallShift as int); unit(p2(carryShift as int)); @ghost car0 = carry; @ghost mut c = E;',
   'decl:rot': '@ghost c0 = c; shr_step(pv(xd@, i + 1, xl - 1 - i), pv(zd@, i + 1 - digitShift, xl - 1 - i), c, rot as int, rot as int % p2(smallShift as int), rot as int / p2(smallShift as int) + c * p2(carryShift as int), smallShift as int, E, pw(xl - 1 - i)); ones_mod(smallShift as int); if carry == c * p2(carryShift as int) { or_sum(carry, (rot as int / p2(smallShift as int)) as u32, carryShift as int); }',
   'L2.end': 'c = rot as int % p2(smallShift as int); pv_low(zd@, i_b2 - digitShift, xl - i_b2); pv_low(xd@, i_b2 as int, xl - i_b2);',
   'L1.end': 'pv_low(zd@, i_b1 - digitShift, xl - i_b1); pv_low(xd@, i_b1 as int, xl - i_b1);',
   'L1.after': 'if zc == xl - digitShift { shr_end(xd@, digitShift as int, zc, pv(zd@, 0, zc), 0, 0, NN, shift as int); }',
   'L2.after': 'if zc == xl - digitShift { shr_end(xd@, digitShift as int, zc, pv(zd@, 0, zc), c, smallShift as int, NN, shift as int); }',
   'call:dangerous_make_twos_complement:2:pre': 'shr_neg(xd@, zd@, digitShift as int, zc, smallShift as int);',
   'ret?zd': 'mulsign(this._sign as int, val(this._bits@));'})
