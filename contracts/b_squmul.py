MUL_ENS = [frame('bits', 'bitsLength'), PVf('bits', 'bitsLength') + ' == ' + PV('left', 'leftLength') + ' * ' + PV('right', 'rightLength')]
C(W + 'subtract_core(p,i,p,i,p,i)', 'lhs, lhsLength, rhs, rhsLength, mut core, coreLength',
  req=['0 <= rhsLength <= lhsLength <= coreLength', PVo('core', 'coreLength') + ' >= ' + L_ + ' + ' + R_] + pp('lhs', 'lhsLength') + pp('rhs', 'rhsLength') + ppm('core', 'coreLength'),
  ens=[frame('core', 'coreLength'), PVf('core', 'coreLength') + ' == ' + PVo('core', 'coreLength') + ' - ' + L_ + ' - ' + R_],
  loops={1: ['0 <= i <= rhsLength', '-2 <= carry <= 0', 'same_out(core_p1, core@, core_o as int, coreLength as int)', PV('core', 'coreLength') + ' + carry * pw(i as int) == ' + PVo('core', 'coreLength') + ' - pv(lhs@, lhs_o as int, i as int) - pv(rhs@, rhs_o as int, i as int)'],
         2: ['rhsLength <= i <= lhsLength', '-2 <= carry <= 0', 'same_out(core_p1, core@, core_o as int, coreLength as int)', PV('core', 'coreLength') + ' + carry * pw(i as int) == ' + PVo('core', 'coreLength') + ' - pv(lhs@, lhs_o as int, i as int) - ' + R_],
         3: ['lhsLength <= i <= coreLength', '-2 <= carry <= 0', 'same_out(core_p1, core@, core_o as int, coreLength as int)', PV('core', 'coreLength') + ' + carry * pw(i as int) == ' + PVo('core', 'coreLength') + ' - ' + L_ + ' - ' + R_]},
  hints={'L1.end': upd('core', 'coreLength', 1) + 'upd4m(pw(i_b1 as int), core@[core_o + i_b1] as int, core_b1[core_o + i_b1] as int, carry_b1 as int, lhs@[lhs_o + i_b1] as int, rhs@[rhs_o + i_b1] as int, carry as int);',
         'L2.end': upd('core', 'coreLength', 2) + 'upd4m(pw(i_b2 as int), core@[core_o + i_b2] as int, core_b2[core_o + i_b2] as int, carry_b2 as int, lhs@[lhs_o + i_b2] as int, 0, carry as int);',
         'L3.end': upd('core', 'coreLength', 3) + 'upd4m(pw(i_b3 as int), core@[core_o + i_b3] as int, core_b3[core_o + i_b3] as int, carry_b3 as int, 0, 0, carry as int);',
         'L3.after': 'pv_bound(core@, core_o as int, coreLength as int); if carry != 0 { borrow0(' + PV('core', 'coreLength') + ', carry as int, coreLength as int); } assert(0 * pw(i as int) == 0);'})

def merge(call):
    return ''
KA = '@ghost z0 = bits@;'
# positions: call:NAME:N counts calls of NAME in the translated order
def kmul(na, nm, ns, nself):
    """hints of one Karatsuba branch: numbers of the add, multiply, subtract_core, add_self calls"""
    return {
     'call:subtract_core:%d:pre' % ns: '''pv_split(left@, left_o as int, leftLength as int, n as int); pv_split(right@, right_o as int, rightLength as int, n as int); kara(%s, %s, %s, %s, pw(n as int));
        pv_bound(left@, left_o as int, n as int); pv_bound(left@, left_o + n, leftLength - n); pv_bound(right@, right_o as int, n as int); pv_bound(right@, right_o + n, rightLength - n);
        mul_pos(%s, %s); mul_pos(%s, %s);''' % (A0, A1, B0, B1, A0, B1, A1, B0),
     'call:add_self:%d:pre' % nself: '''pw_add(n as int, n as int); pv_split(bits@, bits_o as int, bitsLength as int, 2 * n); pv_split(bits@, bits_o as int, bitsLength as int, n as int); pv_split(bits@, bits_o + n, bitsLength - n, n as int);
        pv_bound(left@, left_o as int, leftLength as int); pv_bound(right@, right_o as int, rightLength as int);
        kmerge(bits@, bits_o as int, bitsLength as int, n as int, val(core@), %s, %s, leftLength as int, rightLength as int); @ghost bits_k = bits@;''' % (PV('left', 'leftLength'), PV('right', 'rightLength')),
     'call:add_self:%d' % nself: 'pv_split(bits@, bits_o as int, bitsLength as int, n as int); pv_frame(bits@, bits_k, bits_o as int, n as int); dist(pw(n as int), pv(bits_k, bits_o + n, bitsLength - n), val(core@));',
    }
A0 = 'pv(left@, left_o as int, n as int)'; A1 = 'pv(left@, left_o + n, leftLength - n)'
B0 = 'pv(right@, right_o as int, n as int)'; B1 = 'pv(right@, right_o + n, rightLength - n)'
h = {'L2.end': upd('bits', 'i + leftLength', 2).replace('bits_o + i_b2', 'bits_o + i + j_b2') + '''pw_add(i as int, j_b2 as int); u32prod(left@[left_o + j_b2] as int, right@[right_o + i] as int);
        row_step(pw(i + j_b2), pw(i as int), pw(j_b2 as int), bits@[bits_o + i + j_b2] as int, bits_b2[bits_o + i + j_b2] as int, carry_b2 as int, left@[left_o + j_b2] as int, right@[right_o + i] as int, carry as int);
        row_acc(pv(left@, left_o as int, j_b2 as int), left@[left_o + j_b2] * pw(j_b2 as int), right@[right_o + i] as int, pw(i as int));''',
     'L2.start': 'u32prod(left@[left_o + j] as int, right@[right_o + i] as int);',
     'L2.pre': 'assert(0int * right@[right_o + i] * pw(i as int) == 0) by (nonlinear_arith);',
     'L1.pre': 'pv_zero(bits@, bits_o as int, leftLength as int); assert(%s * 0 == 0);' % PV('left', 'leftLength'),
     'L1.end': 'row_end(%s, pv(right@, right_o as int, i_b1 as int), right@[right_o + i_b1] as int, pw(i_b1 as int)); pv_top0(bits_b1, bits_o as int, i_b1 + leftLength, i_b1 + leftLength);' % PV('left', 'leftLength')}
h.update(kmul((1, 2), (1, 2, 3), 1, 1)); h.update(kmul((3, 4), (1, 2, 4), 2, 2))
C(W + 'multiply(p,i,p,i,p,i)', 'left, leftLength, right, rightLength, mut bits, bitsLength',
  req=['0 <= rightLength <= leftLength', 'bitsLength == leftLength + rightLength', 'zeros(old(bits)@, bits_o as int, bits_o + bitsLength)'] + pp('left', 'leftLength') + pp('right', 'rightLength') + ppm('bits', 'bitsLength'),
  ens=MUL_ENS, dec='leftLength',
  loops={1: ['0 <= i <= rightLength', 'same_out(bits_p1, bits@, bits_o as int, bitsLength as int)', 'zeros(bits@, bits_o + i + leftLength, bits_o + bitsLength)', 'pv(bits@, bits_o as int, i + leftLength) == %s * pv(right@, right_o as int, i as int)' % PV('left', 'leftLength')],
         2: ['0 <= j <= leftLength', 'carry <= 0xffff_ffff', 'same_out(bits_b1, bits@, bits_o as int, i + leftLength)', 'pv(bits@, bits_o as int, i + leftLength) + carry * pw(i + j) == pv(bits_b1, bits_o as int, i + leftLength) + pv(left@, left_o as int, j as int) * right@[right_o + i] * pw(i as int)']},
  hints=h)

SV = PV('value', 'valueLength')
V0 = 'pv(value@, value_o as int, n as int)'; V1 = 'pv(value@, value_o + n, valueLength - n)'
def ksq(k):
    return {
     'call:subtract_core:%d:pre' % k: '''pv_split(value@, value_o as int, valueLength as int, n as int); kara(%(a)s, %(b)s, %(a)s, %(b)s, pw(n as int));
        pv_bound(value@, value_o as int, n as int); pv_bound(value@, value_o + n, valueLength - n); mul_pos(%(a)s, %(b)s); mul_pos(%(b)s, %(a)s);''' % dict(a=V0, b=V1),
     'call:add_self:%d:pre' % k: '''pw_add(n as int, n as int); pv_split(bits@, bits_o as int, bitsLength as int, 2 * n); pv_split(bits@, bits_o as int, bitsLength as int, n as int); pv_split(bits@, bits_o + n, bitsLength - n, n as int);
        pv_bound(value@, value_o as int, valueLength as int); kmerge(bits@, bits_o as int, bitsLength as int, n as int, val(core@), %s, %s, valueLength as int, valueLength as int); @ghost bits_k = bits@;''' % (SV, SV),
     'call:add_self:%d' % k: 'pv_split(bits@, bits_o as int, bitsLength as int, n as int); dist(pw(n as int), pv(bits_k, bits_o + n, bitsLength - n), val(core@));',
    }
h = {'L2.end': upd('bits', 'i + i', 2).replace('bits_o + i_b2', 'bits_o + i + j_b2') + '''pw_add(i as int, j_b2 as int); u32prod(value@[value_o + j_b2] as int, value@[value_o + i] as int);
        sq_trunc(bits_b2[bits_o + i + j_b2] as int + carry_b2 as int, value@[value_o + j_b2] * value@[value_o + i]); assert(bits@[bits_o + i + j_b2] as int == sq_sum(bits_b2[bits_o + i + j_b2] as int + carry_b2 as int, value@[value_o + j_b2] * value@[value_o + i]) % B);
        sq_step(bits_b2[bits_o + i + j_b2] as int + carry_b2 as int, value@[value_o + j_b2] * value@[value_o + i], bits@[bits_o + i + j_b2] as int, carry as int);
        sq_row(pw(i + j_b2), pw(i as int), pw(j_b2 as int), bits@[bits_o + i + j_b2] as int, bits_b2[bits_o + i + j_b2] as int, carry_b2 as int, value@[value_o + j_b2] as int, value@[value_o + i] as int, carry as int);
        row_acc(pv(value@, value_o as int, j_b2 as int), value@[value_o + j_b2] * pw(j_b2 as int), value@[value_o + i] as int, pw(i as int));''',
     'L2.start': 'u32prod(value@[value_o + j] as int, value@[value_o + i] as int);',
     'L2.pre': 'assert(0int * value@[value_o + i] * pw(i as int) == 0) by (nonlinear_arith);',
     'L2.after': 'u32prod(value@[value_o + i] as int, value@[value_o + i] as int);',
     'L1.pre': 'pv_zero(bits@, bits_o as int, 0);',
     'L1.end': 'pw_add(i_b1 as int, i_b1 as int); sq_end(pv(value@, value_o as int, i_b1 as int), value@[value_o + i_b1] as int, pw(i_b1 as int), carry as int, bits@[bits_o + i_b1 + i_b1] as int, bits@[bits_o + i_b1 + i_b1 + 1] as int, pv(bits_a2, bits_o as int, i_b1 + i_b1), pv(bits_b1, bits_o as int, i_b1 + i_b1)); '
               'assert(pv(bits@, bits_o as int, i_b1 + i_b1 + 1) == pv(bits_a2, bits_o as int, i_b1 + i_b1) + bits@[bits_o + i_b1 + i_b1] * pw(i_b1 + i_b1));'}
h.update(ksq(1)); h.update(ksq(2))
C(W + 'square(p,i,p,i)', 'value, valueLength, mut bits, bitsLength',
  req=['0 <= valueLength', 'bitsLength == valueLength + valueLength', 'zeros(old(bits)@, bits_o as int, bits_o + bitsLength)'] + pp('value', 'valueLength') + ppm('bits', 'bitsLength'),
  ens=[frame('bits', 'bitsLength'), PVf('bits', 'bitsLength') + ' == ' + SV + ' * ' + SV], dec='valueLength',
  loops={1: ['0 <= i <= valueLength', 'same_out(bits_p1, bits@, bits_o as int, bitsLength as int)', 'pv(bits@, bits_o as int, i + i) == pv(value@, value_o as int, i as int) * pv(value@, value_o as int, i as int)'],
         2: ['0 <= j <= i', 'carry <= 0x1_ffff_fffe', 'same_out(bits_b1, bits@, bits_o as int, i + i)', 'pv(bits@, bits_o as int, i + i) + carry * pw(i + j) == pv(bits_b1, bits_o as int, i + i) + 2 * (pv(value@, value_o as int, j as int) * value@[value_o + i] * pw(i as int))']},
  hints=h)
C(W + 'square(v)', 'value', req=['0 < value@.len() < 0x3fff_ffff'], ens=['res@.len() == 2 * value@.len()', 'val(res@) == val(value@) * val(value@)'])
C(W + 'multiply(v,u)', 'lhs, rhs', req=['0 < lhs@.len() < 0x7fff_ffff'], ens=['res@.len() == lhs@.len() + 1', 'val(res@) == val(lhs@) * rhs'],
  loops={1: ['i <= lhs@.len()', 'carry <= 0xffff_ffff', 'pv(bits@, 0, i as int) + carry * pw(i as int) == pv(lhs@, 0, i as int) * rhs']},
  hints={'L1.start': 'u32prod(lhs@[i as int] as int, rhs as int);', 'L1.end': 'step3(pw(i_b1 as int), lhs@[i_b1 as int] as int * rhs as int, 0, carry_b1 as int, bits@[i_b1 as int] as int, carry as int); row_acc(pv(lhs@, 0, i_b1 as int), lhs@[i_b1 as int] * pw(i_b1 as int), rhs as int, 1); '
         'assert((lhs@[i_b1 as int] as int * rhs as int) * pw(i_b1 as int) == lhs@[i_b1 as int] * pw(i_b1 as int) * rhs) by (nonlinear_arith);'})
C(W + 'multiply(v,v)', 'lhs, rhs', req=['0 < rhs@.len() <= lhs@.len()', 'rhs@.len() + lhs@.len() <= 0x7fff_ffff'], ens=['res@.len() == lhs@.len() + rhs@.len()', 'val(res@) == val(lhs@) * val(rhs@)'])
