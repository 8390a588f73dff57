R = 'FastReducer::'
# subtraction in place; wraps modulo the left operand's size
MV = 'val(modulus@)'
C(BB + 'Reduce(v)', 'modulus', this='mut', req=['bbok(*old(this))', '1 <= modulus@.len() <= old(this)._bits@.len()', 'modulus@[modulus@.len() - 1] != 0', 'old(this)._bits@.len() < 0x7fff_ffff'],
  ens=['bbok(*final(this))', 'val(modulus@) > 0', 'bv(*final(this)) == bv(*old(this)) % val(modulus@)', 'final(this)._bits@.len() == old(this)._bits@.len()', 'final(this)._length <= modulus@.len()'],
  hints={'entry': 'val_pos(modulus@); bv_pv(*this); red_small(*this, modulus@);', 'call:divide:1': 'bv_pv(*old(this)); pv_bound(old(this)._bits@, 0, old(this)._length as int); red_big(this._bits@, this._length as int, modulus@);', 'ret': 'bv_pv(*this); if old(this)._length >= modulus@.len() { pv_top0(this._bits@, 0, modulus@.len() as int, this._length as int); }'})
C(BB + 'Reduce(R)', 'mut reducer', this='mut', req=['bbok(*old(this))', 'rok(*old(reducer))', 'old(this)._length <= 2 * old(reducer)._modulus@.len() <= old(this)._bits@.len()', 'old(this)._bits@.len() < 0x7fff_ffff'],
  ens=['bbok(*final(this))', 'rok(*final(reducer))', 'final(reducer)._modulus@ == old(reducer)._modulus@', 'bv(*final(this)) == bv(*old(this)) % val(old(reducer)._modulus@)', 'final(this)._bits@.len() == old(this)._bits@.len()', 'final(this)._length <= old(reducer)._modulus@.len()'], hints={'entry': 'bv_pv(*this);', 'ret': 'bv_pv(*this);'})
C(R + 'FastReducer(v)', 'modulus', req=['1 <= modulus@.len() <= 0x3000_0000', 'modulus@[modulus@.len() - 1] != 0'], ens=['rok(res)', 'res._modulus@ == modulus@'],
  hints={'entry': 'val_pos(modulus@);', 'call:divide:1': 'top1(r@, 2 * modulus@.len() as int);', 'ret': 'pv_val(this._mu@, this._muLength as int);'})
C(R + 'DivMul(v,i,v,i,v,i)', 'mut left, leftLength, mut right, rightLength, mut bits, k',
  req=['0 <= leftLength <= old(left)@.len() <= 0x7fff_ffff', '0 <= rightLength <= old(right)@.len() <= 0x7fff_ffff', '0 <= k < 0x4000_0000', 'old(bits)@.len() <= 0x7fff_ffff', 'leftLength > k ==> leftLength - k + rightLength <= old(bits)@.len()'],
  ens=['final(left)@ == old(left)@', 'final(right)@ == old(right)@', 'final(bits)@.len() == old(bits)@.len()', '0 <= res <= final(bits)@.len()', 'zeros(final(bits)@, res as int, final(bits)@.len() as int)', 'res > 0 ==> final(bits)@[res - 1] != 0',
       'pv(final(bits)@, 0, res as int) == (pv(old(left)@, 0, leftLength as int) / pw(k as int)) * pv(old(right)@, 0, rightLength as int)'],
  hints={'entry': 'let ll = leftLength as int; if ll > k { pv_mod(left@, ll, k as int); comm(pv(left@, k as int, ll - k), pv(right@, 0, rightLength as int)); } else { pv_bound(left@, 0, ll); pw_mono(ll, k as int); floor_small(pv(left@, 0, ll), pw(k as int)); unit(pv(right@, 0, rightLength as int)); }',
    'call:actual_length:1': 'pv_top0(bits@, 0, leftLength + rightLength, $ret as int);'})
XY = '(pv(old(left)@, 0, ll0) - pv(right@, 0, rl0))'
C(R + 'SubMod(v,i,v,i,v,i)', 'mut left, leftLength, right, rightLength, modulus, k',
  req=['0 <= leftLength <= old(left)@.len() <= 0x7fff_ffff', '0 <= rightLength <= right@.len() <= 0x7fff_ffff', 'rightLength <= leftLength', '1 <= modulus@.len() <= k', 'modulus@[modulus@.len() - 1] != 0', 
       '0 <= pv(old(left)@, 0, leftLength as int) - pv(right@, 0, rightLength as int) < pw(k as int)'],
  ens=['0 <= res <= modulus@.len()', 'res <= final(left)@.len()', 'final(left)@.len() == old(left)@.len()', 'zeros(final(left)@, res as int, final(left)@.len() as int)', 'res > 0 ==> final(left)@[res - 1] != 0', 'val(modulus@) > 0',
       'pv(final(left)@, 0, res as int) == (pv(old(left)@, 0, leftLength as int) - pv(right@, 0, rightLength as int)) % val(modulus@)'],
  loops={1: dict(inv=['$c == (leftLength > modulus@.len() || (leftLength == modulus@.len() && pv(left@, 0, leftLength as int) >= val(modulus@)))', '0 <= leftLength <= left@.len()', 'left@.len() == old(left)@.len()', 'leftLength > 0 ==> left@[leftLength - 1] != 0', 'pv(left@, 0, leftLength as int) %% val(modulus@) == %s %% val(modulus@)' % XY], dec='pv(left@, 0, leftLength as int)')},
  hints={'entry': '@ghost ll0 = leftLength as int; @ghost rl0 = rightLength as int; val_pos(modulus@); pw_pos(k as int); if ll0 > k { pv_mod(left@, ll0, k as int); sub_wrap(pv(left@, 0, ll0), pv(right@, 0, rl0), pw(k as int)); if rl0 > k { pv_mod(right@, rl0, k as int); } else { pv_bound(right@, 0, rl0); pw_mono(rl0, k as int); floor_small(pv(right@, 0, rl0), pw(k as int)); div_eq(pv(right@, 0, rl0), pw(k as int)); } }',
    'call:actual_length:1:pre': '@ghost la = leftLength as int;', 'call:actual_length:1': 'pv_top0(left@, 0, la, $ret as int); pv_bound(left@, 0, $ret as int);',
    'L1.start': 'if leftLength > modulus@.len() { pv_ge(left@, 0, leftLength as int); pw_mono(modulus@.len() as int, leftLength - 1); } pv_bound(left@, 0, leftLength as int); mod_step(pv(left@, 0, leftLength as int), val(modulus@));',
    'call:actual_length:2:pre': '@ghost lb = leftLength as int;', 'call:actual_length:2': 'pv_top0(left@, 0, lb, $ret as int); pv_bound(left@, 0, $ret as int);',
    'L1.after': 'pv_bound(left@, 0, leftLength as int); if leftLength < modulus@.len() { pw_mono(leftLength as int, modulus@.len() - 1); } floor_small(pv(left@, 0, leftLength as int), val(modulus@)); div_eq(pv(left@, 0, leftLength as int), val(modulus@)); let z = val(modulus@); unit(z);', 'ret': 'pv_frame(left@, left_a1, 0, leftLength as int);'})
C(R + 'Reduce(v,i)', 'mut value, length', this='mut', req=['rok(*old(this))', '0 <= length <= old(value)@.len() < 0x7fff_ffff', 'length <= 2 * old(this)._modulus@.len()', 'length > 0 ==> old(value)@[length - 1] != 0', 'zeros(old(value)@, length as int, old(value)@.len() as int)'],
  ens=['rok(*final(this))', 'final(this)._modulus@ == old(this)._modulus@', '0 <= res <= final(value)@.len()', 'res <= old(this)._modulus@.len()', 'final(value)@.len() == old(value)@.len()', 'res > 0 ==> final(value)@[res - 1] != 0', 'zeros(final(value)@, res as int, final(value)@.len() as int)', 'val(old(this)._modulus@) > 0',
       'pv(final(value)@, 0, res as int) == pv(old(value)@, 0, length as int) % val(old(this)._modulus@)'],
  hints={'entry': """@ghost k = this._modulus@.len() as int; @ghost m = val(this._modulus@); @ghost x = pv(value@, 0, length as int); val_pos(this._modulus@); pv_bound(value@, 0, length as int);
     if length < k { pw_mono(length as int, k - 1); floor_small(x, m); div_eq(x, m); unit(m); } else { pw_mono(length as int, 2 * k); barrett(x, m, k); }""",
   'call:DivMul:1': 'len_le(this._q1@, $ret as int, 2 * k + 2);', 'call:DivMul:2': 'len_le(this._q2@, $ret as int, length as int); mod_sub(x, pv(this._q1@, 0, l1 as int) / pw(k + 1), m);'})
AUX = ['old(value)._bits@.len() == old(result)._bits@.len() == old(temp)._bits@.len()']
C(W + 'pow_core(u,u,L,L)', 'power, modulus, value, result', throws=True, req=['value <= 0xffff_ffff', 'result <= 0xffff_ffff'], err=['e is DivideByZero', 'modulus == 0'], ens=['modulus != 0', 'res as int == mp(result as int, value as int, power as int, modulus as int)'],
  loops={1: dict(inv=['value <= 0xffff_ffff', 'result <= 0xffff_ffff', 'power != 0 && power != p0 ==> modulus != 0', 'modulus != 0 ==> mp(result as int, value as int, power as int, modulus as int) == mp(r0, v0, p0, modulus as int)'], dec='power')},
  hints={'entry': '@ghost p0 = power as int; @ghost v0 = value as int; @ghost r0 = result as int;', 'L1.start': 'if modulus != 0 { mp_step(result as int, value as int, power as int, modulus as int); } u32prod(result as int, value as int); u32prod(value as int, value as int);',
     'L1.after': 'if modulus != 0 { mp_0(result as int, value as int, modulus as int); }'})

MO = 'modulus as int'
def REST(p, j): return 'rest(%s, %s, hi)' % (p, j)
# the exponent in limbs: outer loop over all but the top limb, inner loop over the 32 bits of a limb
EXPH = 'pv(power@, i as int, power@.len() - i)'
def multi(m, r, v, extra, done):
    inner = ['0 <= j <= 32', '0 <= cur__2(p, j) < p2(32 - j)', 'mp(%s, %s, rest(cur__2(p, j), j as int, hi), %s) == z' % (r, v, m)] + extra
    outer = ['0 <= i <= power@.len() - 1', 'mp(%s, %s, %s, %s) == z' % (r, v, EXPH, m)] + extra
    loops = {1: dict(inv=outer, dec='power@.len() - i'), 2: dict(inv=inner, dec='32 - j')}
    hints = {'L2.pre': '@ghost hi = pv(power@, i + 1, power@.len() - i - 1); rest_top(power@, i as int); div_p0(p as int);',
      'L2.start': 'shr_next(p as int, j as int); rest_step(cur__2(p, j), j as int, hi); mp_step(%s, %s, rest(cur__2(p, j), j as int, hi), %s);' % (r, v, m) + done,
      'L1.after': 'pv_1(power@, power@.len() - 1);'}
    return loops, hints
PREQ = ['1 <= power@.len() <= 0x7fff_ffff']
l, h = multi(MO, 'result as int', 'value as int', ['value <= 0xffff_ffff', 'result <= 0xffff_ffff', 'modulus > 0'], ' u32prod(result as int, value as int); u32prod(value as int, value as int);')
h['entry'] = '@ghost z = mp(result as int, value as int, val(power@), modulus as int);'
C(W + 'pow_core(v,u,L,L)', 'power, modulus, value, result', throws=True, req=PREQ + ['value <= 0xffff_ffff', 'result <= 0xffff_ffff'], err=['e is DivideByZero', 'modulus == 0'], ens=['modulus != 0', 'res as int == mp(result as int, value as int, val(power@), modulus as int)'], loops=l, hints=h)
C(W + 'pow(u,u,u)', 'value, power, modulus', throws=True, err=['e is DivideByZero', 'modulus == 0'], ens=['modulus != 0', 'res as int == ipow(value as int, power as int) % (modulus as int)'], hints={'entry': 'unit(ipow(value as int, power as int));'})
C(W + 'pow(u,v,u)', 'value, power, modulus', throws=True, req=PREQ, err=['e is DivideByZero', 'modulus == 0'], ens=['modulus != 0', 'res as int == ipow(value as int, val(power@)) % (modulus as int)'])
VQ = ['1 <= value@.len() < 0x7fff_ffff']
C(W + 'pow(v,u,u)', 'value, power, modulus', throws=True, req=VQ, err=['e is DivideByZero', 'modulus == 0'], ens=['modulus != 0', 'res as int == ipow(val(value@), power as int) % (modulus as int)'], hints={'entry': 'if modulus != 0 { pv_bound(value@, 0, value@.len() as int); ipow_mod(val(value@), power as int, modulus as int); div_eq(val(value@), modulus as int); unit(ipow(val(value@) % (modulus as int), power as int)); }'})
C(W + 'pow(v,v,u)', 'value, power, modulus', throws=True, req=PREQ + VQ, err=['e is DivideByZero', 'modulus == 0'], ens=['modulus != 0', 'res as int == ipow(val(value@), val(power@)) % (modulus as int)'], hints={'entry': 'if modulus != 0 { pv_bound(value@, 0, value@.len() as int); pv_bound(power@, 0, power@.len() as int); ipow_mod(val(value@), val(power@), modulus as int); div_eq(val(value@), modulus as int); unit(ipow(val(value@) % (modulus as int), val(power@))); }'})
# multi-limb modulus
MQ = ['1 <= modulus@.len() <= 0x3000_0000', 'modulus@[modulus@.len() - 1] != 0', 'val(modulus@) > 1']
def SAME(k): return 'value._bits@.len() == %s && result._bits@.len() == %s && temp._bits@.len() == %s' % (k, k, k)
def FREQ(k, m): return ['bbok(*old(value))', 'bbok(*old(result))', 'allz(*old(temp))', 'old(value)._bits@.len() == 2 * %s' % k, 'old(result)._bits@.len() == 2 * %s' % k, 'old(temp)._bits@.len() == 2 * %s' % k, 'old(value)._length <= %s' % k, 'old(result)._length <= %s' % k, 'bv(*old(result)) < %s' % m]
def FENS(e, k, m): return ['bbok(*final(result))', 'bv(*final(result)) == mp(bv(*old(result)), bv(*old(value)), %s, %s)' % (e, m), 'bv(*final(result)) < %s' % m, 'final(result)._bits@.len() == 2 * %s' % k, 'final(result)._length <= %s' % k]
for red in 'vR':
    m = 'val(modulus@)' if red == 'v' else 'mv'
    mo = 'val(modulus@)' if red == 'v' else 'val(old(reducer)._modulus@)'
    k = 'modulus@.len()' if red == 'v' else 'km'
    ko = 'modulus@.len()' if red == 'v' else 'old(reducer)._modulus@.len()'
    prm = 'modulus' if red == 'v' else 'mut reducer'
    rq = MQ if red == 'v' else ['rok(*old(reducer))', mo + ' > 1']
    en = [] if red == 'v' else ['rok(*final(reducer))', 'final(reducer)._modulus@ == old(reducer)._modulus@']
    gh = '' if red == 'v' else '@ghost mv = val(reducer._modulus@); @ghost km = reducer._modulus@.len() as int;'
    inv = ['bbok(*value)', 'bbok(*result)', 'allz(*temp)', SAME('2 * ' + k), 'value._length <= ' + k, 'result._length <= ' + k, 'bv(*result) < ' + m] + ([] if red == 'v' else ['rok(*reducer)', 'reducer._modulus@ == old(reducer)._modulus@'])
    C(W + 'pow_core(u,%s,F,F,F)' % red, 'power, %s, mut value, mut result, mut temp' % prm, req=rq + FREQ(ko, mo), ens=FENS('power as int', ko, mo) + en,
      loops={1: dict(inv=inv + ['mp(bv(*result), bv(*value), power as int, %s) == z' % m], dec='power')},
      hints={'entry': gh + '@ghost z = mp(bv(*result), bv(*value), power as int, %s);' % m, 'L1.start': 'mp_step(bv(*result), bv(*value), power as int, %s);' % m, 'L1.after': 'mp_0(bv(*result), bv(*value), %s); bv_pv(*result); fits(bv(*result), %s);' % (m, m)})
    l, h = multi(m, 'bv(*result)', 'bv(*value)', inv, '')
    h['entry'] = gh + '@ghost z = mp(bv(*result), bv(*value), val(power@), %s);' % m
    C(W + 'pow_core(v,%s,F,F,F)' % red, 'power, %s, mut value, mut result, mut temp' % prm, req=PREQ + rq + FREQ(ko, mo), ens=FENS('val(power@)', ko, mo) + en, loops=l, hints=h)
for e, ev, eq in (('u', 'power as int', []), ('v', 'val(power@)', PREQ)):
    C(W + 'pow_core(%s,v,F)' % e, 'power, modulus, mut value', req=eq + MQ + ['bbok(*old(value))', 'old(value)._bits@.len() == 2 * modulus@.len()', 'old(value)._length <= modulus@.len()'], ens=['val(res@) == ipow(bv(*old(value)), %s) %% val(modulus@)' % ev, 'res@.len() == 2 * modulus@.len()'], hints={'entry': 'unit(ipow(bv(*value), %s));' % ev})
    C(W + 'pow(u,%s,v)' % e, 'value, power, modulus', req=eq + MQ, ens=['val(res@) == ipow(value as int, %s) %% val(modulus@)' % ev, 'res@.len() == 2 * modulus@.len()'])
    C(W + 'pow(v,%s,v)' % e, 'value, power, modulus', req=eq + MQ + VQ, ens=['val(res@) == ipow(val(value@), %s) %% val(modulus@)' % ev, 'res@.len() == 2 * modulus@.len()'],
      hints={'entry': 'val_pos(modulus@); ' + ('pv_bound(power@, 0, power@.len() as int); ' if e == 'v' else '') + 'ipow_mod(val(value@), %s, val(modulus@));' % ev, 'decl:tmp': 'len_small(tmp@, modulus@);'})
C(G + 'mod_pow(B,B,B)', 'value, exponent, modulus', throws=True, req=ok('value') + ok('exponent') + ok('modulus'),
  err=['bi(*exponent) < 0 ==> e is OutOfRange', 'bi(*exponent) >= 0 ==> e is DivideByZero && bi(*modulus) == 0'], ens=['bi(*exponent) >= 0', 'bi(*modulus) != 0', 'wf(res)', 'bi(res) == trem(ipow(bi(*value), bi(*exponent)), bi(*modulus))'],
  hints={'entry': bs('value') + bs('exponent') + bs('modulus') + 'if bi(*exponent) >= 0 && bi(*modulus) != 0 { modpow_sign(bi(*value), bi(*exponent), bi(*modulus)); }'})
