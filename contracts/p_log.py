for nm in ('Finite', 'NaN', 'Infinity'):
    C(G + 'double_Is%s(d)' % nm, 'value', ens=['res == %s(value.bits as int)' % {'Finite': 'ffin', 'NaN': 'fnan', 'Infinity': 'finf'}[nm]])
C(G + 'operator float()', this='ref', req=['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff'])
C(H + 'csharp_log_wrapper(d,d)', 'a, newBase', ens=['log_wrap(res.bits as int, a.bits as int, newBase.bits as int)'])
C(G + 'log(B,d)', 'value, baseValue', req=['wf(*value)', 'value._bits@.len() <= 0x7fff_ffff'], ens=['log_is(res.bits as int, bi(*value), baseValue.bits as int)'],
  hints={'entry': 'bi_sign(value._sign as int, value._bits@); neg_sign(value._sign as int, value._bits@); p2_52(); dparts(baseValue.bits as int); if 0 <= value._sign && value._bits@.len() == 0 && !feq(baseValue.bits as int, 0x3FF0_0000_0000_0000) { log_sm(value._sign as int, baseValue.bits as int); }',
         'call:cbit_high_zero:1': '@ghost z = $ret as int; dman_parts(h as int, m as int, l as int, z); or_sum64((h * p2(32 + z) + m * p2(z)) as u64, (l as int / p2(32 - z)) as u64, z);',
         'call:csharp_log_wrapper:2': '@ghost w1 = $ret.bits as int;', 'call:csharp_log_wrapper:3': 'log_fin(value._bits@, z, x as int, w1, $ret.bits as int, baseValue.bits as int);'})
C(G + 'log(B)', 'value', req=['wf(*value)', 'value._bits@.len() <= 0x7fff_ffff'], ens=['loge_is(res.bits as int, bi(*value))'], hints={'ret': 'log_nat(r_.bits as int, bi(*value));'})
C(G + 'log10(B)', 'value', req=['wf(*value)', 'value._bits@.len() <= 0x7fff_ffff'], ens=['log10_is(res.bits as int, bi(*value))'], hints={'ret': 'log_ten(bi(*value));'})
C(G + 'sign_internal()', this='ref', ens=['res == this._sign'])
