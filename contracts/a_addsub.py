L_ = PV('lhs', 'lhsLength'); R_ = PV('rhs', 'rhsLength')
SB = 'same_out(bits_p1, bits@, bits_o as int, bitsLength as int)'

C(W + 'add(p,i,p,i,p,i)', 'lhs, lhsLength, rhs, rhsLength, mut bits, bitsLength',
  req=['0 <= rhsLength <= lhsLength < 0x7fff_ffff', 'bitsLength == lhsLength + 1'] + pp('lhs', 'lhsLength') + pp('rhs', 'rhsLength') + ppm('bits', 'bitsLength'),
  ens=[frame('bits', 'bitsLength'), PVf('bits', 'bitsLength') + ' == ' + L_ + ' + ' + R_],
  loops={1: ['0 <= i <= rhsLength', 'carry <= 1', SB, 'pv(bits@, bits_o as int, i as int) + carry * pw(i as int) == pv(lhs@, lhs_o as int, i as int) + pv(rhs@, rhs_o as int, i as int)'],
         2: ['rhsLength <= i <= lhsLength', 'carry <= 1', SB, 'pv(bits@, bits_o as int, i as int) + carry * pw(i as int) == pv(lhs@, lhs_o as int, i as int) + ' + R_]},
  hints={'L1.end': 'step3(pw(i_b1 as int), lhs@[lhs_o + i_b1] as int, rhs@[rhs_o + i_b1] as int, carry_b1 as int, bits@[bits_o + i_b1] as int, carry as int);',
         'L2.end': 'step3(pw(i_b2 as int), lhs@[lhs_o + i_b2] as int, 0, carry_b2 as int, bits@[bits_o + i_b2] as int, carry as int);'})

C(W + 'subtract(p,i,p,i,p,i)', 'lhs, lhsLength, rhs, rhsLength, mut bits, bitsLength',
  req=['0 <= rhsLength <= lhsLength', 'bitsLength == lhsLength', L_ + ' >= ' + R_] + pp('lhs', 'lhsLength') + pp('rhs', 'rhsLength') + ppm('bits', 'bitsLength'),
  ens=[frame('bits', 'bitsLength'), PVf('bits', 'bitsLength') + ' == ' + L_ + ' - ' + R_],
  loops={1: ['0 <= i <= rhsLength', '-1 <= carry <= 0', SB, 'pv(bits@, bits_o as int, i as int) + carry * pw(i as int) == pv(lhs@, lhs_o as int, i as int) - pv(rhs@, rhs_o as int, i as int)'],
         2: ['rhsLength <= i <= lhsLength', '-1 <= carry <= 0', SB, 'pv(bits@, bits_o as int, i as int) + carry * pw(i as int) == pv(lhs@, lhs_o as int, i as int) - ' + R_]},
  hints={'L1.end': 'step3m(pw(i_b1 as int), lhs@[lhs_o + i_b1] as int, rhs@[rhs_o + i_b1] as int, carry_b1 as int, bits@[bits_o + i_b1] as int, carry as int);',
         'L2.end': 'step3(pw(i_b2 as int), lhs@[lhs_o + i_b2] as int, 0, carry_b2 as int, bits@[bits_o + i_b2] as int, carry as int);',
         'L2.after': 'pv_bound(bits@, bits_o as int, lhsLength as int); borrow0(pv(bits@, bits_o as int, lhsLength as int), carry as int, lhsLength as int);'})

# in place: z op= r; the whole window of z is tracked
def upd(z, zl, k, c='carry'):
    return 'pv_upd_at(%s_b%d, %s_o + i_b%d, %s@[%s_o + i_b%d], %s_o as int, %s as int); ' % (z, k, z, k, z, z, k, z, zl)
C(W + 'add_self(p,i,p,i)', 'mut lhs, lhsLength, rhs, rhsLength',
  req=['1 <= rhsLength <= lhsLength', PVo('lhs', 'lhsLength') + ' + ' + R_ + ' < pw(lhsLength as int)'] + ppm('lhs', 'lhsLength') + pp('rhs', 'rhsLength'),
  ens=[frame('lhs', 'lhsLength'), PVf('lhs', 'lhsLength') + ' == ' + PVo('lhs', 'lhsLength') + ' + ' + R_],
  loops={1: ['0 <= i <= rhsLength', '0 <= carry <= 1', 'same_out(lhs_p1, lhs@, lhs_o as int, lhsLength as int)', PV('lhs', 'lhsLength') + ' + carry * pw(i as int) == ' + PVo('lhs', 'lhsLength') + ' + pv(rhs@, rhs_o as int, i as int)'],
         2: ['rhsLength <= i <= lhsLength', '0 <= carry <= 1', 'same_out(lhs_p1, lhs@, lhs_o as int, lhsLength as int)', PV('lhs', 'lhsLength') + ' + carry * pw(i as int) == ' + PVo('lhs', 'lhsLength') + ' + ' + R_]},
  hints={'L1.end': upd('lhs', 'lhsLength', 1) + 'upd3(pw(i_b1 as int), lhs@[lhs_o + i_b1] as int, lhs_b1[lhs_o + i_b1] as int, carry_b1 as int, rhs@[rhs_o + i_b1] as int, carry as int);',
         'L2.end': upd('lhs', 'lhsLength', 2) + 'upd3(pw(i_b2 as int), lhs@[lhs_o + i_b2] as int, lhs_b2[lhs_o + i_b2] as int, carry_b2 as int, 0, carry as int);',
         'L2.after': 'pv_bound(lhs@, lhs_o as int, lhsLength as int); if carry != 0 { carry0(' + PV('lhs', 'lhsLength') + ', carry as int, lhsLength as int); } assert(0 * pw(i as int) == 0);'})

C(W + 'subtract_self(p,i,p,i)', 'mut left, leftLength, right, rightLength',
  req=['0 <= rightLength <= leftLength'] + ppm('left', 'leftLength') + pp('right', 'rightLength'),
  ens=[frame('left', 'leftLength'), PVf('left', 'leftLength') + ' == ' + PVo('left', 'leftLength') + ' - ' + PV('right', 'rightLength') + ' + (if ' + PVo('left', 'leftLength') + ' < ' + PV('right', 'rightLength') + ' { pw(leftLength as int) } else { 0 })'],
  loops={1: ['0 <= i <= rightLength', '-1 <= carry <= 0', 'same_out(left_p1, left@, left_o as int, leftLength as int)', PV('left', 'leftLength') + ' + carry * pw(i as int) == ' + PVo('left', 'leftLength') + ' - pv(right@, right_o as int, i as int)'],
         2: ['rightLength <= i <= leftLength', '-1 <= carry <= 0', 'same_out(left_p1, left@, left_o as int, leftLength as int)', PV('left', 'leftLength') + ' + carry * pw(i as int) == ' + PVo('left', 'leftLength') + ' - ' + PV('right', 'rightLength')]},
  hints={'L1.end': upd('left', 'leftLength', 1) + 'upd3m(pw(i_b1 as int), left@[left_o + i_b1] as int, left_b1[left_o + i_b1] as int, carry_b1 as int, right@[right_o + i_b1] as int, carry as int);',
         'L2.end': upd('left', 'leftLength', 2) + 'upd3(pw(i_b2 as int), left@[left_o + i_b2] as int, left_b2[left_o + i_b2] as int, carry_b2 as int, 0, carry as int);',
         'L2.after': 'pv_bound(left@, left_o as int, leftLength as int); unit(pw(i as int)); pw_pos(leftLength as int); assert(-1 * pw(i as int) == -pw(i as int));'})

C(W + 'compare(p,i,p,i)', 'lhs, lhsLength, rhs, rhsLength',
  req=pp('lhs', 'lhsLength') + pp('rhs', 'rhsLength'),
  ens=['lhsLength < rhsLength ==> res < 0', 'lhsLength > rhsLength ==> res > 0', 'lhsLength == rhsLength ==> (res < 0) == (%s < %s) && (res > 0) == (%s > %s)' % (L_, R_, L_, R_)],
  loops={1: dict(inv=['-1 <= i < lhsLength', 'forall|k: int| i < k < lhsLength ==> #[trigger] lhs@[lhs_o + k] == rhs@[rhs_o + k]'], dec='i + 1')},
  hints={'L1.start': 'cmp_top(lhs@, lhs_o as int, rhs@, rhs_o as int, lhsLength as int, i as int);', 'L1.after': 'if lhsLength == rhsLength { pv_shift(lhs@, lhs_o as int, rhs@, rhs_o as int, lhsLength as int); }'})

C(W + 'compare(v,v)', 'lhs, rhs',
  req=['0 < lhs@.len() <= 0x7fff_ffff', '0 < rhs@.len() <= 0x7fff_ffff'],
  ens=['lhs@.len() < rhs@.len() ==> res < 0', 'lhs@.len() > rhs@.len() ==> res > 0', 'lhs@.len() == rhs@.len() ==> (res < 0) == (val(lhs@) < val(rhs@)) && (res > 0) == (val(lhs@) > val(rhs@))'],
  loops={1: dict(inv=['-1 <= i < lhs@.len()', 'lhs@.len() == rhs@.len()', 'forall|k: int| i < k < lhs@.len() ==> #[trigger] lhs@[k] == rhs@[k]'], dec='i + 1')},
  hints={'L1.start': 'cmp_top(lhs@, 0, rhs@, 0, lhs@.len() as int, i as int);', 'L1.after': 'pv_shift(lhs@, 0, rhs@, 0, lhs@.len() as int);'})

C(W + 'add(v,u)', 'lhs, rhs', req=['0 < lhs@.len() < 0x7fff_ffff'], ens=['res@.len() == lhs@.len() + 1', 'val(res@) == val(lhs@) + rhs'],
  loops={1: ['1 <= i <= lhs@.len()', '0 <= carry <= 1', 'pv(bits@, 0, i as int) + carry * pw(i as int) == pv(lhs@, 0, i as int) + rhs']},
  hints={'L1.pre': 'pv_1(bits@, 0); pv_1(lhs@, 0); pw_1();', 'L1.end': 'step3(pw(i_b1 as int), lhs@[i_b1 as int] as int, 0, carry_b1 as int, bits@[i_b1 as int] as int, carry as int);'})
C(W + 'add(v,v)', 'lhs, rhs', req=['0 < rhs@.len() <= lhs@.len() < 0x7fff_ffff'], ens=['res@.len() == lhs@.len() + 1', 'val(res@) == val(lhs@) + val(rhs@)'])
C(W + 'subtract(v,u)', 'lhs, rhs', req=['0 < lhs@.len() < 0x7fff_ffff', 'val(lhs@) >= rhs', 'lhs@.len() >= 2 || lhs@[0] >= rhs'], ens=['res@.len() == lhs@.len()', 'val(res@) == val(lhs@) - rhs'],
  loops={1: ['1 <= i <= lhs@.len()', '-1 <= carry <= 0', 'pv(bits@, 0, i as int) + carry * pw(i as int) == pv(lhs@, 0, i as int) - rhs']},
  hints={'L1.pre': 'pv_1(bits@, 0); pv_1(lhs@, 0); pw_1();', 'L1.end': 'step3(pw(i_b1 as int), lhs@[i_b1 as int] as int, 0, carry_b1 as int, bits@[i_b1 as int] as int, carry as int);',
         'L1.after': 'pv_bound(bits@, 0, lhs@.len() as int); if carry != 0 { borrow0(val(bits@), carry as int, lhs@.len() as int); }'})
C(W + 'subtract(v,v)', 'lhs, rhs', req=['0 < rhs@.len() <= lhs@.len() < 0x7fff_ffff', 'val(lhs@) >= val(rhs@)'], ens=['res@.len() == lhs@.len()', 'val(res@) == val(lhs@) - val(rhs@)'])
