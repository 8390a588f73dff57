BB = 'BitsBuffer::'
AL = lambda v, n: ['0 <= res <= %s' % n, 'zeros(final(%s)@, res as int, %s)' % (v, n), 'res > 0 ==> final(%s)@[res - 1] != 0' % v, 'final(%s)@ == old(%s)@' % (v, v)]
C(W + 'actual_length(v,i)', 'mut value, length', req=['0 <= length <= old(value)@.len()'], ens=AL('value', 'length as int'),
  loops={1: dict(inv=['0 <= length', 'length <= length0', 'value@ == old(value)@', 'zeros(value@, length as int, length0)'], dec='length')}, hints={'entry': '@ghost length0 = length as int;'})
C(W + 'actual_length(v)', 'mut value', req=['old(value)@.len() <= 0x7fff_ffff'], ens=AL('value', 'old(value)@.len() as int'))
C(BB + 'BitsBuffer(i,u)', 'size, value', req=['size >= 1'], ens=['bbok(res)', 'bv(res) == value', 'res._bits@.len() == size', 'res._length == (if value == 0 { 0int } else { 1 })', 'value == 0 ==> allz(res)'], hints={'ret': 'pv_top0(this._bits@, 0, size as int, 1); pv_1(this._bits@, 0);'})
C(BB + 'BitsBuffer(i,v)', 'size, value', req=['size >= 0', 'size >= value@.len() || zeros(value@, size as int, value@.len() as int)', 'value@.len() <= 0x7fff_ffff'], ens=['bbok(res)', 'bv(res) == val(value@)', 'res._bits@.len() == size', 'res._length <= value@.len()', 'value@.len() > 0 && value@[value@.len() - 1] != 0 ==> res._length == value@.len()', 'forall|k: int| 0 <= k <= value@.len() && zeros(value@, k, value@.len() as int) ==> res._length <= k'],
  hints={'ret': 'pv_top0(this._bits@, 0, size as int, this._length as int); pv_top0(value@, 0, value@.len() as int, this._length as int); pv_frame(this._bits@, value@, 0, this._length as int);'})
C(BB + 'GetSize()', this='ref', req=['this._bits@.len() <= 0x7fff_ffff'], ens=['res == this._bits@.len()'])
C(BB + 'Apply(F,i)', 'mut temp, maxLength', this='mut', req=['bbok(*old(this))', '0 <= maxLength <= old(temp)._bits@.len() <= 0x7fff_ffff', 'zeros(old(temp)._bits@, maxLength as int, old(temp)._bits@.len() as int)'],
  ens=['bbok(*final(this))', 'bv(*final(this)) == bv(*old(temp))', 'allz(*final(temp))', 'final(this)._bits@.len() == old(temp)._bits@.len()', 'final(temp)._bits@.len() == old(this)._bits@.len()', 'final(this)._length <= maxLength'])
C(BB + 'MultiplySelf(F,F)', 'mut value, mut temp', this='mut', req=['bbok(*old(this))', 'bbok(*old(value))', 'allz(*old(temp))', 'old(this)._length + old(value)._length <= old(temp)._bits@.len()', 'old(temp)._bits@.len() <= 0x7fff_ffff'],
  ens=['bbok(*final(this))', 'bv(*final(this)) == bv(*old(this)) * bv(*old(value))', '*final(value) == *old(value)', 'allz(*final(temp))', 'final(this)._bits@.len() == old(temp)._bits@.len()', 'final(temp)._bits@.len() == old(this)._bits@.len()', 'final(this)._length <= old(this)._length + old(value)._length'],
  hints={'entry': 'bv_pv(*this); bv_pv(*value);', 'call:Apply:1:pre': 'pv_val(temp._bits@, this._length + value._length); let (b, v) = (bv(*this), bv(*value)); assert(b * v == v * b) by (nonlinear_arith);'})
C(BB + 'SquareSelf(F)', 'mut temp', this='mut', req=['bbok(*old(this))', 'allz(*old(temp))', '2 * old(this)._length <= old(temp)._bits@.len()', 'old(temp)._bits@.len() <= 0x7fff_ffff'],
  ens=['bbok(*final(this))', 'bv(*final(this)) == bv(*old(this)) * bv(*old(this))', 'allz(*final(temp))', 'final(this)._bits@.len() == old(temp)._bits@.len()', 'final(temp)._bits@.len() == old(this)._bits@.len()', 'final(this)._length <= 2 * old(this)._length'],
  hints={'entry': 'bv_pv(*this);', 'call:Apply:1:pre': 'pv_val(temp._bits@, this._length + this._length);'})
C(W + 'pow_bound(u,i,i)', 'power, valueLength, resultLength', throws=True, req=['valueLength >= 0', 'resultLength >= 0'], ens=['res == pb(power as int, valueLength as int, resultLength as int)'], err=['e is Overflow', 'pb(power as int, valueLength as int, resultLength as int) >= 0x7fff_ffff'],
  loops={1: dict(inv=['valueLength >= 0', 'resultLength >= 0', 'pb(power as int, valueLength as int, resultLength as int) == pb(p0, v0, r0)'], dec='power')},
  hints={'entry': '@ghost p0 = power as int; @ghost v0 = valueLength as int; @ghost r0 = resultLength as int;', 'L1.start': 'pb_ge(power as int, valueLength as int, resultLength as int);'})
SZ = 'value._bits@.len() == n && result._bits@.len() == n && temp._bits@.len() == n'
C(W + 'pow_core(u,F,F,F)', 'power, mut value, mut result, mut temp',
  req=['bbok(*old(value))', 'bbok(*old(result))', 'allz(*old(temp))', 'old(value)._bits@.len() == old(result)._bits@.len() == old(temp)._bits@.len()', 'pb(power as int, old(value)._length as int, old(result)._length as int) <= old(value)._bits@.len()'],
  ens=['bbok(*final(result))', 'bv(*final(result)) == bv(*old(result)) * ipow(bv(*old(value)), power as int)', 'final(result)._bits@.len() == old(result)._bits@.len()'],
  loops={1: dict(inv=['bbok(*value)', 'bbok(*result)', 'allz(*temp)', SZ, 'n <= 0x7fff_ffff', 'pb(power as int, value._length as int, result._length as int) <= n', 'bv(*result) * ipow(bv(*value), power as int) == z'], dec='power')},
  hints={'entry': '@ghost n = value._bits@.len(); @ghost z = bv(*result) * ipow(bv(*value), power as int); ipow_1(bv(*value));', 'L1.start': 'pow_step(bv(*result), bv(*value), power as int); pb_ge(power as int, value._length as int, result._length as int); @ghost (vl, rl) = (value._length as int, result._length as int);',
    'L1.end': 'pb_mono(power as int, value._length as int, result._length as int, if power_b1 == 1 { vl } else { vl + vl }, if power_b1 % 2 == 1 { rl + vl } else { rl }); if power == 0 { ipow_1(bv(*value)); assert(bv(*result) * 1 == bv(*result)); }', 'L1.after': 'ipow_1(bv(*value)); assert(bv(*result) * 1 == bv(*result));'})
C(W + 'pow_core(u,F)', 'power, mut value', req=['bbok(*old(value))', 'old(value)._bits@.len() >= 1', 'pb(power as int, old(value)._length as int, 1) <= old(value)._bits@.len()'], ens=['val(res@) == ipow(bv(*old(value)), power as int)', 'res@.len() == old(value)._bits@.len()'],
  hints={'ret': 'assert(1 * ipow(bv(*old(value)), power as int) == ipow(bv(*old(value)), power as int));'})
C(W + 'pow(u,u)', 'value, power', throws=True, ens=['res@.len() <= 0x7fff_ffff', 'val(res@) == ipow(value as int, power as int)', 'res@.len() == pb(power as int, 1, 1)'], err=['e is Overflow', 'pb(power as int, 1, 1) >= 0x7fff_ffff'], hints={'entry': 'pb_ge(power as int, 1, 1);', 'decl:v': 'pb_mono(power as int, v._length as int, 1, 1, 1);'})
C(W + 'pow(v,u)', 'value, power', throws=True, req=['1 <= value@.len() <= 0x7fff_ffff', 'power >= 1'], ens=['res@.len() <= 0x7fff_ffff', 'val(res@) == ipow(val(value@), power as int)', 'res@.len() == pb(power as int, value@.len() as int, 1)'], err=['e is Overflow', 'pb(power as int, value@.len() as int, 1) >= 0x7fff_ffff'], hints={'entry': 'pb_ge(power as int, value@.len() as int, 1);', 'decl:v': 'pb_mono(power as int, v._length as int, 1, value@.len() as int, 1);'})
C(G + 'pow(B,i)', 'value, exponent', throws=True, req=ok('value'), ens=['wf(res)', 'exponent >= 0', 'bi(res) == ipow(bi(*value), exponent as int)'],
   err=['exponent < 0 ==> e is OutOfRange', 'exponent >= 0 ==> e is Overflow && pb(exponent as int, if value._bits@.len() == 0 { 1 } else { value._bits@.len() as int }, 1) >= 0x7fff_ffff'],
  hints={'entry': bs('value') + 'ipow_1(bi(*value)); if exponent >= 1 { ipow_01(exponent as int); ipow_neg(1, exponent as int); ipow_pos(iabs(bi(*value)), exponent as int); ipow_neg(iabs(bi(*value)), exponent as int); pb_ge(exponent as int, 1, 1); pb_ge(exponent as int, value._bits@.len() as int, 1); }'})
