C(W + 'leading_zeros(u)', 'value',
  ens=['value == 0 ==> res == 32', 'value != 0 ==> 0 <= res <= 31 && value * p2(res as int) < B && value * p2(res as int) >= 0x8000_0000'],
  hints={'entry': '@ghost v0 = value;', 'ret': 'lz_tab(v0 as int, r_ as int); p2_32();'})
C(W + 'divide_guess_too_big(L,L,u,u,u)', 'q, valHi, valLo, divHi, divLo', req=['q <= 0xffff_ffff'],
  ens=['res == (q * (divHi * B + divLo) > valHi * B + valLo)'],
  hints={'entry': 'u32prod(divHi as int, q as int); u32prod(divLo as int, q as int); dist(q as int, divHi * B, divLo as int); assert(q * (divHi * B) == divHi * q * B) by (nonlinear_arith); comm(divHi as int, q as int); comm(divLo as int, q as int);'})
C(W + 'add_divisor(p,i,p,i)', 'mut lhs, lhsLength, rhs, rhsLength',
  req=['0 <= rhsLength <= lhsLength'] + ppm('lhs', 'lhsLength') + pp('rhs', 'rhsLength'),
  ens=[frame('lhs', 'rhsLength'), 'res <= 1', PVf('lhs', 'rhsLength') + ' + res * pw(rhsLength as int) == ' + PVo('lhs', 'rhsLength') + ' + ' + R_],
  loops={1: ['0 <= i <= rhsLength', 'carry <= 1', 'same_out(lhs_p1, lhs@, lhs_o as int, rhsLength as int)', PV('lhs', 'rhsLength') + ' + carry * pw(i as int) == ' + PVo('lhs', 'rhsLength') + ' + pv(rhs@, rhs_o as int, i as int)']},
  hints={'L1.end': upd('lhs', 'rhsLength', 1) + 'upd3(pw(i_b1 as int), lhs@[lhs_o + i_b1] as int, lhs_b1[lhs_o + i_b1] as int, carry_b1 as int, rhs@[rhs_o + i_b1] as int, carry as int);'})
C(W + 'subtract_divisor(p,i,p,i,L)', 'mut lhs, lhsLength, rhs, rhsLength, q',
  req=['0 <= rhsLength <= lhsLength', 'q <= 0xffff_ffff'] + ppm('lhs', 'lhsLength') + pp('rhs', 'rhsLength'),
  ens=[frame('lhs', 'rhsLength'), PVf('lhs', 'rhsLength') + ' == ' + PVo('lhs', 'rhsLength') + ' - q * ' + R_ + ' + res * pw(rhsLength as int)'],
  loops={1: ['0 <= i <= rhsLength', 'carry <= 0xffff_ffff', 'same_out(lhs_p1, lhs@, lhs_o as int, rhsLength as int)', PV('lhs', 'rhsLength') + ' == ' + PVo('lhs', 'rhsLength') + ' - q * pv(rhs@, rhs_o as int, i as int) + carry * pw(i as int)']},
  hints={'L1.start': 'u32prod(rhs@[rhs_o + i] as int, q as int);',
         'L1.end': upd('lhs', 'rhsLength', 1) + 'subdiv_step(pw(i_b1 as int), lhs@[lhs_o + i_b1] as int, lhs_b1[lhs_o + i_b1] as int, carry_b1 as int, rhs@[rhs_o + i_b1] as int, q as int, carry as int, pv(rhs@, rhs_o as int, i_b1 as int));'})

D_ = R_
C(W + 'divide(p,i,p,i,p,i)', 'mut lhs, lhsLength, rhs, rhsLength, mut bits, bitsLength',
  req=['1 <= rhsLength <= lhsLength < 0x7fff_ffff', 'bitsLength == lhsLength - rhsLength + 1 || bitsLength == 0', 'rhs@[rhs_o + rhsLength - 1] != 0'] + ppm('lhs', 'lhsLength') + pp('rhs', 'rhsLength') + ppm('bits', 'bitsLength'),
  ens=[frame('lhs', 'lhsLength'), frame('bits', 'bitsLength'), D_ + ' > 0', PVf('lhs', 'lhsLength') + ' == ' + PVo('lhs', 'lhsLength') + ' % ' + D_, 'bitsLength != 0 ==> ' + PVf('bits', 'bitsLength') + ' == ' + PVo('lhs', 'lhsLength') + ' / ' + D_],
  loops={1: dict(inv=['rhsLength - 1 <= i <= lhsLength', 'same_out(lhs_p1, lhs@, lhs_o as int, lhsLength as int)', 'same_out(bits_p1, bits@, bits_o as int, bitsLength as int)',
             'zeros(lhs@, lhs_o + i + 1, lhs_o + lhsLength)', PVo('lhs', 'lhsLength') + ' == qv * dd + ' + PV('lhs', 'lhsLength'), PV('lhs', 'lhsLength') + ' < dd * pw(i - rhsLength + 1)',
             'bitsLength != 0 ==> qv == pv(bits@, bits_o + (i - rhsLength + 1), lhsLength - i) * pw(i - rhsLength + 1)', 'bitsLength == 0 ==> qv == qh * pw(i - rhsLength + 1)']),
         2: dict(inv=['q <= digit <= 0xffff_ffff', 'gok(q, d2, v3, V1, dd, pw(n as int))', 'lc2_ == (digit * (divHi * B + divLo) > valHi * B + valLo)'], dec='digit')},
  hints={
   'entry': 'p2_32(); pw_1();',
   'decl:divHi': '@ghost dh0 = divHi as int;', 'decl:divLo': '@ghost dl0 = divLo as int;', 'decl:divNx': '@ghost dn0 = divNx as int; shift_fit(dh0, dl0, shift as int, 1); shift_fit(0, dn0, shift as int, 1);',
   'call:leading_zeros:1': '@ghost dn1 = limb(rhs@, rhs_o + rhsLength - 3, rhsLength > 2);',
   'L1.pre': '''@ghost dd = %(D)s; @ghost mut qv = 0int; @ghost mut qh = 0int; @ghost sh = shift as int;
      dv_norm(rhs@, rhs_o as int, rhsLength as int, sh, dh0, dl0, dn1, divHi as int, divLo as int); dv_start(dd, rhsLength as int, lhsLength as int, lhs@, lhs_o as int);
      unit(dd); unit(pw(lhsLength - rhsLength + 1));''' % dict(D=D_),
   'decl:t': '''@ghost V1 = %(L)s; dv_top(lhs@, lhs_o as int, i as int, n as int, rhsLength as int, lhsLength as int, t as int, dd, dh0, sh);''' % dict(L=PV('lhs', 'lhsLength')),
   'decl:valHi': '@ghost vh0 = valHi as int; assert(vh0 == t * B + lhs@[lhs_o + i - 1]);',
   'decl:valLo': '@ghost vl0 = valLo as int; @ghost vn1 = limb(lhs@, lhs_o + i - 3, i > 2);',
   'decl:valNx': '@ghost vn0 = valNx as int; shift_fit(vh0, vl0, shift as int, B); shift_fit(0, vn0, shift as int, 1);',
   'L2.pre': '''@ghost d2 = divHi * B + divLo; @ghost v3 = valHi * B + valLo; @ghost q = V1 / (dd * pw(n as int));
      dv_guess(lhs@, lhs_o as int, i as int, n as int, rhsLength as int, t as int, V1, dd, sh, vh0, vl0, vn1, valHi as int, valLo as int, divHi as int, divLo as int, q);''',
   'L2.start': 'dv_bad(q, d2, v3, V1, dd, pw(n as int), digit as int);',
   'L2.after': '''dv_bad(q, d2, v3, V1, dd, pw(n as int), digit as int); @ghost g = digit as int; @ghost lo = pv(lhs@, lhs_o as int, n as int); @ghost w = pv(lhs@, lhs_o + n, rhsLength as int);
      @ghost X = dv_window(lhs@, lhs_o as int, i as int, n as int, rhsLength as int, t as int, V1, dd, q, d2, v3); pv_bound(lhs@, lhs_o + n, rhsLength as int); unit(dd); @ghost y = X - q * dd; pw_pos(rhsLength as int); assert(0 <= y < dd);''',
   'call:subtract_divisor:1:pre': '@ghost ls = lhs@; ', 'call:subtract_divisor:1': 'zeros_same(ls, lhs@, lhs_o + n, rhsLength as int, lhs_o + i + 1, lhs_o + lhsLength); @ghost w2 = pv(lhs@, lhs_o + n, rhsLength as int); pv_bound(lhs@, lhs_o + n, rhsLength as int); borrow_cases(X, t as int, w, w2, $ret as int, pw(rhsLength as int), dd, g, q);',
   'call:add_divisor:1:pre': '@ghost la = lhs@; ', 'call:add_divisor:1': 'zeros_same(la, lhs@, lhs_o + n, rhsLength as int, lhs_o + i + 1, lhs_o + lhsLength); pv_bound(lhs@, lhs_o + n, rhsLength as int); unit(pw(rhsLength as int)); assert($ret == 1); assert(pv(lhs@, lhs_o + n, rhsLength as int) == y);',
   'L1.end': '''assert(digit == q); assert(i_b1 == n + rhsLength);
      @ghost hi = if bitsLength != 0 { pv(bits_b1, bits_o + (i_b1 - rhsLength + 1), lhsLength - i_b1) } else { qh };
      assert(zeros(lhs@, lhs_o + (n + rhsLength), lhs_o + lhsLength));
      dv_end(lhs@, lhs_o as int, lhsLength as int, n as int, rhsLength as int, qv, dd, q, hi, pv(old(lhs)@, lhs_o as int, lhsLength as int), V1, lo, y);
      if bitsLength != 0 { pv_low(bits@, bits_o + n, lhsLength - i_b1 + 1); } qv = qv + q * pw(n as int); qh = q + B * hi; assert(i - rhsLength + 1 == n);''',
   'L1.after': 'assert(i - rhsLength + 1 == 0); unit(dd); unit(pv(bits@, bits_o as int, lhsLength - i)); unit(qh); pv_bound(lhs@, lhs_o as int, lhsLength as int); div_uniq(%s, qv, dd, %s);' % (PVo('lhs', 'lhsLength'), PV('lhs', 'lhsLength')),
  })

DZ = ['e is DivideByZero && rhs == 0']
sq = 'lhs@.len() - 1 - i'
def sdiv_loop(q):
    return {1: dict(inv=['-1 <= i < lhs@.len()', 'i < lhs@.len() - 1 ==> rhs != 0', 'carry < rhs || (carry == 0 && i == lhs@.len() - 1)', 'pv(lhs@, i + 1, %s) == %s * rhs + carry' % (sq, ('pv(quotient@, i + 1, %s)' % sq) if q else 'Q')] + (['quotient@.len() == lhs@.len()'] if q else []), dec='i + 1')}
def sdiv_hints(q):
    h = {'entry': 'p2_32(); unit(rhs as int);',
      'L1.start': 'if rhs > 0 { sdiv_fit(carry as int, rhs as int, lhs@[i as int] as int); }',
      'L1.end': 'pv_low(lhs@, i_b1 as int, lhs@.len() - i_b1); sdiv(pv(lhs@, i_b1 + 1, lhs@.len() - 1 - i_b1), %s, carry_b1 as int, rhs as int, lhs@[i_b1 as int] as int, %s, carry as int); %s' % (
          ('pv(quotient_b1, i_b1 + 1, lhs@.len() - 1 - i_b1)', 'digit as int', 'pv_low(quotient@, i_b1 as int, lhs@.len() - i_b1);') if q else ('Q', '(carry_b1 * B + lhs@[i_b1 as int]) / (rhs as int)', 'Q = (carry_b1 * B + lhs@[i_b1 as int]) / (rhs as int) + B * Q;')),
      'L1.after': 'div_uniq(val(lhs@), %s, rhs as int, carry as int);' % ('val(quotient@)' if q else 'Q')}
    if not q: h['L1.pre'] = '@ghost mut Q = 0int;'
    return h
SREQ = ['0 < lhs@.len() <= 0x7fff_ffff']
C(W + 'divide(v,u,u)', 'lhs, rhs, mut remainder', throws=True, req=SREQ, err=DZ,
  ens=['rhs != 0', 'res@.len() == lhs@.len()', 'val(res@) == val(lhs@) / (rhs as int)', '*final(remainder) as int == val(lhs@) % (rhs as int)'], loops=sdiv_loop(1), hints=sdiv_hints(1))
C(W + 'divide(v,u)', 'lhs, rhs', throws=True, req=SREQ, err=DZ, ens=['rhs != 0', 'res@.len() == lhs@.len()', 'val(res@) == val(lhs@) / (rhs as int)'], loops=sdiv_loop(1), hints=sdiv_hints(1))
C(W + 'remainder(v,u)', 'lhs, rhs', throws=True, req=SREQ, err=DZ, ens=['rhs != 0', 'res as int == val(lhs@) % (rhs as int)'], loops=sdiv_loop(0), hints=sdiv_hints(0))
VREQ = ['0 < rhs@.len() <= lhs@.len() < 0x7fff_ffff', 'rhs@[rhs@.len() - 1] != 0']
C(W + 'divide(v,v,v)', 'lhs, rhs, mut remainder', req=VREQ, ens=['val(rhs@) > 0', 'res@.len() == lhs@.len() - rhs@.len() + 1', 'val(res@) == val(lhs@) / val(rhs@)', 'final(remainder)@.len() == lhs@.len()', 'val(final(remainder)@) == val(lhs@) % val(rhs@)'])
C(W + 'divide(v,v)', 'lhs, rhs', req=VREQ, ens=['val(rhs@) > 0', 'res@.len() == lhs@.len() - rhs@.len() + 1', 'val(res@) == val(lhs@) / val(rhs@)'])
C(W + 'remainder(v,v)', 'lhs, rhs', req=VREQ, ens=['val(rhs@) > 0', 'res@.len() == lhs@.len()', 'val(res@) == val(lhs@) % val(rhs@)'])
