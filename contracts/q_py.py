# Python bindings: the integer conversions and the mixed operators registered with pybind11
PC = '0x0fff_fff0'
PB = '0x0fff_fff0'
def pyok(x): return ['iabs(%s.v@) < pw(%s)' % (x, PC)]
def bok(x): return ['wf(*%s)' % x, '%s._bits@.len() <= %s' % (x, PB)]
def enc(n): return 'bytes_upto(buffer@, value.v@, false, %s)' % n
C('to_biginteger(J,b)', 'value, is_bigendian', throws=True, req=['!is_bigendian'] + pyok('value'), err=['false'], ens=['wf(res)', 'bi(res) == value.v@', 'res._bits@.len() <= 0x0fff_fff8'],
  loops={2: dict(inv=['i < buffer@.len()', 'forall|k: int| i < k < buffer@.len() ==> #[trigger] buffer@[k] == 0xff', 'msb == buffer@.len() - 1'],
                 brk=['0 < i < buffer@.len()', 'forall|k: int| i < k < buffer@.len() ==> #[trigger] buffer@[k] == 0xff', 'msb == buffer@[i as int]', 'buffer@[i as int] != 0xff'], dec='i')},
  hints={'entry': 'py_floor(); py_enc(value.v@, %s);' % PC})
C('to_py_int(B,b,b)', 'value, is_signed, is_bigendian', throws=True, req=['wf(*value)', 'value._bits@.len() <= 0x1fff_fff0'], ens=['res.v@ == bi(*value)'], err=['!is_signed && bi(*value) < 0'],
  hints={'entry': 'py_dec(bi(*value));'})
for o, n in (('<', 'lt'), ('<=', 'le'), ('==', 'eq'), ('>', 'gt'), ('>=', 'ge')):
    C('py:__%s__(B,J)' % n, 'self_, other', throws=True, req=bok('self_') + pyok('other'), err=['false'], ens=['res == (bi(*self_) %s other.v@)' % o])
BIGR = '0x1fff_fff0'
def mixed(n, expr, swap=None, err=None, req=(), bits=False, rev=True, req2=()):
    """self o int -> BigInteger, and int o self -> Python int"""
    t = (lambda r, a, b: expr % (r, a, b)) if bits else (lambda r, a, b: '%s == %s' % (r, expr % (a, b)))
    z = lambda x: ['e is DivideByZero', x + ' == 0'] if err else ['false']
    C('py:__%s__(B,J)' % n, 'self_, other', throws=True, req=bok('self_') + pyok('other') + list(req), err=z('other.v@'), ens=(['other.v@ != 0'] if err else []) + ['wf(res)', t('bi(res)', 'bi(*self_)', 'other.v@')])
    if rev: C('py:__r%s__(B,J)' % n, 'self_, other', throws=True, req=bok('self_') + pyok('other') + list(req2), err=z('bi(*self_)'), ens=(['bi(*self_) != 0'] if err else []) + [t('res.v@', 'bi(*self_)', 'other.v@') if bits else t('res.v@', 'other.v@', 'bi(*self_)')])
mixed('add', '%s + %s'); mixed('sub', '%s - %s'); mixed('mul', '%s * %s')
for n in ('truediv', 'floordiv'): mixed(n, 'tdiv(%s, %s)', err=True)
mixed('mod', 'trem(%s, %s)', err=True)
for n in ('and', 'or', 'xor'): mixed(n, 'b%s(%%s, %%s, %%s)' % n, bits=True)
C('py:__divmod__(B,J)', 'self_, other', throws=True, req=bok('self_') + pyok('other'), err=['e is DivideByZero', 'other.v@ == 0'], ens=['other.v@ != 0', 'res.a@ == tdiv(bi(*self_), other.v@)', 'res.b@ == trem(bi(*self_), other.v@)'])
C('py:__rdivmod__(B,J)', 'other, self_', throws=True, req=bok('other') + ['iabs(self_.v@) < pw(0x0ccc_cccc)'], err=['bi(*other) == 0'], ens=['bi(*other) != 0', 'res.a@ == tdiv(self_.v@, bi(*other))', 'res.b@ == trem(self_.v@, bi(*other))'],
  hints={'entry': 'pw_mono(0x0ccc_cccc, %s); py_len(0x0ccc_cccc); if bi(*other) != 0 { tdiv_sign(self_.v@, bi(*other)); }' % PC})
FI = '-0x8000_0000 <= %s <= 0x7fff_ffff'
C('py:__lshift__(B,J)', 'self_, other', throws=True, req=bok('self_'), err=['!(%s)' % (FI % 'other.v@')], ens=['wf(res)', 'shl_is(bi(res), bi(*self_), other.v@)'])
C('py:__rshift__(B,J)', 'self_, other', throws=True, req=bok('self_'), err=['!(%s)' % (FI % 'other.v@')], ens=['wf(res)', 'shl_is(bi(res), bi(*self_), -other.v@)'])
C('py:__rlshift__(B,J)', 'shift, base', throws=True, req=bok('shift') + pyok('base') + ['forall|r: int| #[trigger] shl_is(r, base.v@, bi(*shift)) ==> iabs(r) < pw(' + BIGR + ')'], hints={'entry': 'py_len(%s);' % BIGR}, err=['!(%s)' % (FI % 'bi(*shift)')], ens=['shl_is(res.v@, base.v@, bi(*shift))'])
C('py:__rrshift__(B,J)', 'shift, base', throws=True, req=bok('shift') + pyok('base') + ['forall|r: int| #[trigger] shl_is(r, base.v@, -bi(*shift)) ==> iabs(r) < pw(' + BIGR + ')'], hints={'entry': 'py_len(%s);' % BIGR}, err=['!(%s)' % (FI % 'bi(*shift)')], ens=['shl_is(res.v@, base.v@, -bi(*shift))'])
PW = 'pb(%s, imax(1, 0x0fff_fff8), 1)'
C('py:__pow__(B,J)', 'base, exp', throws=True, req=bok('base') + ['-0x8000_0000_0000_0000 <= exp.v@ <= 0x7fff_ffff_ffff_ffff'], err=['!(0 <= exp.v@ <= 0x7fff_ffff) || pb(exp.v@, imax(1, base._bits@.len() as int), 1) >= 0x7fff_ffff'], ens=['wf(res)', 'exp.v@ >= 0', 'bi(res) == ipow(bi(*base), exp.v@)'])
C('py:__rpow__(B,J)', 'exp, base', throws=True, req=bok('exp') + pyok('base') + ['bi(*exp) >= 0 ==> iabs(ipow(base.v@, bi(*exp))) < pw(%s)' % BIGR], hints={'entry': 'py_len(%s); py_pb(bi(*exp));' % BIGR}, err=['!(0 <= bi(*exp) <= 0x7fff_ffff) || pb(bi(*exp), 0x0fff_fff8, 1) >= 0x7fff_ffff'], ens=['bi(*exp) >= 0', 'res.v@ == ipow(base.v@, bi(*exp))'])
for a, n in (('B,J,B', 'bi(*base), exp.v@, bi(*modulus)'), ('B,B,J', 'bi(*base), bi(*exp), modulus.v@')):
    x, y, z = n.split(', ')
    C('py:__pow__(%s)' % a, 'base, exp, modulus', throws=True, req=bok('base') + (pyok('exp') + bok('modulus') if 'exp.v' in n else bok('exp') + pyok('modulus')),
      err=['%s < 0 ==> e is OutOfRange' % y, '%s >= 0 ==> e is DivideByZero && %s == 0' % (y, z)], ens=['%s >= 0' % y, '%s != 0' % z, 'wf(res)', 'bi(res) == trem(ipow(%s, %s), %s)' % (x, y, z)])
C('py:init(J)', 'i', throws=True, req=pyok('i'), err=['false'], ens=['wf(res)', 'bi(res) == i.v@'])
for n in ('int', 'index'): C('py:__%s__(B)' % n, 'self_', throws=True, req=bok('self_'), err=['false'], ens=['res.v@ == bi(*self_)'])

# the overloads on two BigIntegers, the unary operators and the rest of the numeric protocol
for o, n in (('<', 'lt'), ('<=', 'le'), ('==', 'eq'), ('>', 'gt'), ('>=', 'ge')):
    C('py:__%s__(B,B)' % n, 'self_, other', req=bok('self_') + bok('other'), ens=['res == (bi(*self_) %s bi(*other))' % o])
for n, e in (('add', '%s + %s'), ('sub', '%s - %s'), ('mul', '%s * %s')):
    C('py:__%s__(B,B)' % n, 'self_, other', req=bok('self_') + bok('other'), ens=['wf(res)', 'bi(res) == ' + e % ('bi(*self_)', 'bi(*other)')])
for n, e in (('truediv', 'tdiv'), ('floordiv', 'tdiv'), ('mod', 'trem')):
    C('py:__%s__(B,B)' % n, 'self_, other', throws=True, req=bok('self_') + bok('other'), err=['e is DivideByZero', 'bi(*other) == 0'], ens=['bi(*other) != 0', 'wf(res)', 'bi(res) == %s(bi(*self_), bi(*other))' % e])
C('py:__divmod__(B,B)', 'self_, other', throws=True, req=bok('self_') + bok('other'), err=['e is DivideByZero', 'bi(*other) == 0'], ens=['bi(*other) != 0', 'res.a@ == tdiv(bi(*self_), bi(*other))', 'res.b@ == trem(bi(*self_), bi(*other))'])
for n in ('and', 'or', 'xor'): C('py:__%s__(B,B)' % n, 'self_, other', req=bok('self_') + bok('other'), ens=['wf(res)', 'b%s(bi(res), bi(*self_), bi(*other))' % n])
for n, g in (('lshift', ''), ('rshift', '-')): C('py:__%s__(B,B)' % n, 'self_, other', throws=True, req=bok('self_') + bok('other'), err=['!(%s)' % (FI % 'bi(*other)')], ens=['wf(res)', 'shl_is(bi(res), bi(*self_), %sbi(*other))' % g])
C('py:__pow__(B,B)', 'base, exp', throws=True, req=bok('base') + bok('exp'), err=['!(0 <= bi(*exp) <= 0x7fff_ffff) || pb(bi(*exp), imax(1, base._bits@.len() as int), 1) >= 0x7fff_ffff'], ens=['wf(res)', 'bi(*exp) >= 0', 'bi(res) == ipow(bi(*base), bi(*exp))'])
C('py:__pow__(B,B,B)', 'base, exp, modulus', throws=True, req=bok('base') + bok('exp') + bok('modulus'), err=['bi(*exp) < 0 ==> e is OutOfRange', 'bi(*exp) >= 0 ==> e is DivideByZero && bi(*modulus) == 0'], ens=['bi(*exp) >= 0', 'bi(*modulus) != 0', 'wf(res)', 'bi(res) == trem(ipow(bi(*base), bi(*exp)), bi(*modulus))'])
for n, e in (('neg', '-bi(*self_)'), ('pos', 'bi(*self_)'), ('abs', 'iabs(bi(*self_))'), ('invert', '-bi(*self_) - 1')): C('py:__%s__(B)' % n, 'self_', req=bok('self_'), ens=['wf(res)', 'bi(res) == ' + e])
C('py:log(B)', 'value', req=bok('value'), ens=['loge_is(res.bits as int, bi(*value))'])
C('py:log(J)', 'value', throws=True, req=pyok('value'), err=['false'], ens=['loge_is(res.bits as int, value.v@)'])
C('py:log(B,d)', 'value, base_value', req=bok('value'), ens=['log_is(res.bits as int, bi(*value), base_value.bits as int)'])
C('py:log(J,d)', 'value, base_value', throws=True, req=pyok('value'), err=['false'], ens=['log_is(res.bits as int, value.v@, base_value.bits as int)'])
C('py:log10(J)', 'value', throws=True, req=pyok('value'), err=['false'], ens=['log10_is(res.bits as int, value.v@)'])
C('py:__hash__(B)', 'self_', throws=True, req=bok('self_'), err=['false'], ens=['res as int == py_hash(bi(*self_))'])

# byte strings, the buffer constructor and the functions registered by name
C('py:init(Y)', 'b', throws=True, req=['b.bytes@.len() <= 0x3fff_fff0'], err=['!b.ok@ || b.fmt@ != fmt_u8() || b.ndim@ != 1'], ens=['b.fmt@ == fmt_u8()', 'b.ndim@ == 1', 'wf(res)', 'bi(res) == bytes_val(b.bytes@, false, false)'],
  loops={1: dict(inv=['0 <= i <= info.size', 'data@.len() == info.size', 'forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == b.bytes@[k]'], dec='info.size - i')},
  hints={'L1.after': 'assert(data@ =~= b.bytes@);'})
C('py:__bytes__(B)', 'self_', throws=True, req=bok('self_'), err=['false'], ens=['bytes_ok(res@, bi(*self_), false, false)'])
C('py:to_array(B|is_unsigned,is_bigendian)', 'self_', throws=True, req=bok('self_'), err=['false'], ens=['bytes_ok(res@, bi(*self_), false, false)'])
C('py:to_array(B,b,b)', 'self_, is_unsigned, is_bigendian', throws=True, req=bok('self_'), err=['is_unsigned && bi(*self_) < 0'], ens=['is_unsigned ==> bi(*self_) >= 0', 'bytes_ok(res@, bi(*self_), is_unsigned, is_bigendian)'])
C('py:__float__(B)', 'self_', throws=True, req=bok('self_'), err=['iabs(bi(*self_)) >= p2(1023)'], ens=['res.v@ == bi(*self_)'])
C('py:__deepcopy__(B,J)', 'self_, memodict', req=bok('self_'), ens=['wf(res)', 'bi(res) == bi(*self_)'])
C('py:__str__(B)', 'self_', throws=True, req=bok('self_'), err=['self_._bits@.len() > 214748364'], ens=['res@ == dec_int(bi(*self_))'])
for n, e in (('zero', '0'), ('one', '1'), ('minus_one', '-1')): C('py:%s()' % n, '', ens=['wf(res)', 'bi(res) == ' + e])
C('py:is_power_of_two(B)', 'self_', req=bok('self_'), ens=['res == is_p2(bi(*self_))'])
C('py:is_even(B)', 'self_', req=bok('self_'), ens=['res == (bi(*self_) % 2 == 0)'])
C('py:log10(B)', 'value', req=bok('value'), ens=['log10_is(res.bits as int, bi(*value))'])
C('py:get_bit_Length(B)', 'self_', req=bok('self_'), ens=['bitlen(bi(*self_), res as int)'])
C('py:sign(B)', 'self_', req=bok('self_'), ens=['res == (if bi(*self_) > 0 { 1int } else if bi(*self_) < 0 { -1 } else { 0 })'])
