C(W + 'gcd(u,u)', 'left, right', ens=['res as int == igcd(left as int, right as int)'], loops={1: dict(inv=['igcd(left as int, right as int) == g0'], dec='right')}, hints={'entry': '@ghost g0 = igcd(left as int, right as int);'})
C(W + 'gcd(L,L)', 'left, right', ens=['res as int == igcd(left as int, right as int)'], loops={1: dict(inv=['igcd(left as int, right as int) == g0'], dec='right')}, hints={'entry': '@ghost g0 = igcd(left as int, right as int);', 'L1.start': 'assert(igcd(left as int, right as int) == igcd(right as int, left as int % right as int));', 'L1.after': 'if right > 0 { assert(igcd(left as int, right as int) == igcd(right as int, left as int % right as int)); }'})
C(W + 'gcd(v,u)', 'left, right', req=['1 <= left@.len() < 0x7fff_ffff', 'right != 0'], ens=['res as int == igcd(val(left@), right as int)'], hints={'entry': 'assert(igcd(val(left@), right as int) == igcd(right as int, val(left@) % (right as int)));'})
C(BB + 'Overwrite(L)', 'value', this='mut', req=['bbok(*old(this))', 'old(this)._bits@.len() >= 2'], ens=['bbok(*final(this))', 'bv(*final(this)) == value', 'final(this)._bits@.len() == old(this)._bits@.len()'],
  hints={'ret': 'pv_top0(this._bits@, 0, this._bits@.len() as int, 2); pv_2(this._bits@, 0);'})
C(BB + 'Refresh(i)', 'maxLength', this='mut', req=['0 <= old(this)._length <= old(this)._bits@.len() <= 0x7fff_ffff', '0 <= maxLength <= old(this)._bits@.len()', 'zeros(old(this)._bits@, old(this)._length as int, old(this)._bits@.len() as int)'],
  ens=['bbok(*final(this))', 'final(this)._length <= maxLength', 'bv(*final(this)) == pv(old(this)._bits@, 0, maxLength as int)', 'final(this)._bits@.len() == old(this)._bits@.len()'],
  hints={'call:actual_length:1:pre': 'pv_frame(this._bits@, old(this)._bits@, 0, maxLength as int);', 'ret': 'pv_top0(this._bits@, 0, this._bits@.len() as int, maxLength as int);'})
C(BB + 'Reduce(F)', 'mut modulus', this='mut', req=['bbok(*old(this))', 'bbok(*old(modulus))', 'old(modulus)._length > 0', 'old(this)._bits@.len() < 0x7fff_ffff'],
  ens=['bbok(*final(this))', '*final(modulus) == *old(modulus)', 'bv(*old(modulus)) > 0', 'bv(*final(this)) == bv(*old(this)) % bv(*old(modulus))', 'final(this)._bits@.len() == old(this)._bits@.len()', 'final(this)._length <= old(modulus)._length'],
  hints={'entry': 'bv_pv(*this); bv_pv(*modulus); bv_pos(*this); bv_pos(*modulus); if this._length < modulus._length { pw_mono(this._length as int, modulus._length - 1); fits(bv(*this), bv(*modulus)); }',
    'call:divide:1': 'small_top(this._bits@, this._length as int, modulus._length as int);', 'ret': 'bv_pv(*this); if old(this)._length >= modulus._length { pv_top0(this._bits@, 0, modulus._length as int, this._length as int); }'})
C(W + 'extract_digits(F,F,L,L)', 'mut xBuffer, mut yBuffer, mut x, mut y', req=['bbok(*old(xBuffer))', 'bbok(*old(yBuffer))', 'old(xBuffer)._length >= old(yBuffer)._length >= 3', 'bv(*old(xBuffer)) >= bv(*old(yBuffer))'],
  ens=['*final(xBuffer) == *old(xBuffer)', '*final(yBuffer) == *old(yBuffer)', '*final(x) >= *final(y)', '*final(x) <= 0x7fff_ffff_ffff_ffff', 'exists|p: int| #[trigger] lead(bv(*old(xBuffer)), bv(*old(yBuffer)), *final(x) as int, *final(y) as int, p)'],
  hints={'decl:z': """bv_pv(*xBuffer); bv_pv(*yBuffer); let n = xLength as int; lead3(xBits@, n, n); lead3(yBits@, yLength as int, n); let (X, Y) = (bv(*xBuffer), bv(*yBuffer)); pw_pos(n - 3); div_mono(X, Y, pw(n - 3));
      let (T, U) = (X / pw(n - 3), Y / pw(n - 3)); top_le(T, U, xh as int, xm as int, xl as int, yh as int, ym as int, yl as int); p2_pos(z as int);
      assert(yh * p2(z as int) <= xh * p2(z as int)) by (nonlinear_arith) requires yh <= xh, p2(z as int) >= 1;
      top_bits(xh as int, xm as int, xl as int, z as int); top_bits(yh as int, ym as int, yl as int, z as int); lead_of(X, Y, T, U, n - 3, z as int, T / p2(32 - z) / 2, U / p2(32 - z) / 2);"""})
LQ = ['a * bv(*old(xBuffer)) - b * bv(*old(yBuffer))', 'd * bv(*old(yBuffer)) - c * bv(*old(xBuffer))']
def lcinv(v, o, p, q, k): return 'pv(%s._bits@, 0, i as int) + %sCarry * pw(i as int) == %s * pv(%s._bits@, 0, i as int) - %s * pv(%s._bits@, 0, i as int)' % (v + 'Buffer', v, p, 'old(%sBuffer)' % v, q, 'old(%sBuffer)' % o)
C(W + 'lehmer_core(F,F,l,l,l,l)', 'mut xBuffer, mut yBuffer, a, b, c, d', req=['bbok(*old(xBuffer))', 'bbok(*old(yBuffer))', 'old(xBuffer)._length >= old(yBuffer)._length >= 1'] + ['0 <= %s <= 0x7fff_ffff' % v for v in 'abcd'] +
   ['0 <= %s <= bv(*old(yBuffer))' % q for q in LQ],
  ens=['bbok(*final(xBuffer))', 'bbok(*final(yBuffer))', 'bv(*final(xBuffer)) == ' + LQ[0], 'bv(*final(yBuffer)) == ' + LQ[1], 'final(xBuffer)._bits@.len() == old(xBuffer)._bits@.len()', 'final(yBuffer)._bits@.len() == old(yBuffer)._bits@.len()'],
  loops={1: dict(inv=['0 <= i <= length', 'length == old(yBuffer)._length', '-0x8000_0000 <= xCarry < 0x8000_0000', '-0x8000_0000 <= yCarry < 0x8000_0000', 'xBuffer._length == old(xBuffer)._length', 'yBuffer._length == old(yBuffer)._length',
      'forall|k: int| i <= k < xBuffer._bits@.len() ==> xBuffer._bits@[k] == old(xBuffer)._bits@[k]', 'forall|k: int| i <= k < yBuffer._bits@.len() ==> yBuffer._bits@[k] == old(yBuffer)._bits@[k]', lcinv('x', 'y', 'a', 'b', 0), lcinv('y', 'x', 'd', 'c', 0)], dec='length - i')},
  hints={'entry': 'unit(a as int); unit(b as int); unit(c as int); unit(d as int);', 'L1.start': 'let (u, v) = (xBuffer._bits@[i as int] as int, yBuffer._bits@[i as int] as int); prod31(a as int, u); prod31(b as int, v); prod31(c as int, u); prod31(d as int, v);',
   'L1.end': """{ let j = i - 1; let p = pw(j); let (u, v) = (old(xBuffer)._bits@[j], old(yBuffer)._bits@[j]); pv_frame(xBuffer._bits@, xBuffer_b1._bits@, 0, j); pv_frame(yBuffer._bits@, yBuffer_b1._bits@, 0, j);
      lc_step(pv(xBuffer_b1._bits@, 0, j), p, xCarry_b1 as int, a as int, b as int, pv(old(xBuffer)._bits@, 0, j), pv(old(yBuffer)._bits@, 0, j), u as int, v as int, xBuffer._bits@[j] as int, xCarry as int);
      lc_step(pv(yBuffer_b1._bits@, 0, j), p, yCarry_b1 as int, d as int, c as int, pv(old(yBuffer)._bits@, 0, j), pv(old(xBuffer)._bits@, 0, j), v as int, u as int, yBuffer._bits@[j] as int, yCarry as int); }""",
   'call:Refresh:1:pre': """{ let n = length as int; bv_pv(*old(xBuffer)); bv_pv(*old(yBuffer)); bv_pos(*old(yBuffer)); pv_split(old(xBuffer)._bits@, 0, old(xBuffer)._length as int, n); pv_bound(xBuffer._bits@, 0, n); pv_bound(yBuffer._bits@, 0, n);
      let (X, Y) = (bv(*old(xBuffer)), bv(*old(yBuffer))); let hi = pv(old(xBuffer)._bits@, n, old(xBuffer)._length - n);
      lc_end(pv(xBuffer._bits@, 0, n), pw(n), xCarry as int, a as int, b as int, pv(old(xBuffer)._bits@, 0, n), Y, X, hi); lc_end2(pv(yBuffer._bits@, 0, n), pw(n), yCarry as int, d as int, c as int, pv(old(xBuffer)._bits@, 0, n), Y, X, hi); }"""})
C(W + 'gcd(F,F)', 'mut left, mut right', req=['bbok(*old(left))', 'bbok(*old(right))', 'old(left)._length >= 2', 'old(right)._length >= 2', 'bv(*old(left)) >= bv(*old(right))', 'old(left)._bits@.len() < 0x7fff_ffff', 'old(right)._bits@.len() < 0x7fff_ffff'],
  ens=['bbok(*final(left))', 'bv(*final(left)) == igcd(bv(*old(left)), bv(*old(right)))', 'final(left)._bits@.len() <= 0x7fff_ffff'],
  loops={1: dict(inv=['bbok(*left)', 'bbok(*right)', '2 <= left._bits@.len() < 0x7fff_ffff', '2 <= right._bits@.len() < 0x7fff_ffff', 'bv(*left) >= bv(*right)', 'igcd(bv(*left), bv(*right)) == g'], dec='bv(*left) + bv(*right)'),
   2: dict(inv=['leh(x as int, y as int, a as int, b as int, c as int, d as int, iteration as int, x0, y0)', 'x <= 0x7fff_ffff_ffff_ffff', 'y <= 0x7fff_ffff_ffff_ffff'], xinv=['iteration % 2 == 0', 'x >= y'], dec='y')},
  hints={'entry': '@ghost g = igcd(bv(*left), bv(*right)); buf_len(*left, *right);',
   'L1.start': 'buf_len(*left, *right); bv_pos(*right); @ghost X = bv(*left); @ghost Y = bv(*right);',
   'call:extract_digits:1': '@ghost x0 = x as int; @ghost y0 = y as int; @ghost p = choose|p: int| #[trigger] lead(X, Y, x0, y0, p); leh_0(x0, y0); igcd_step(X, Y);',
   'L2.start': 'leh_both(x as int, y as int, a as int, b as int, c as int, d as int, iteration as int, x0, y0);',
   'L2.after': 'leh_get(x as int, y as int, a as int, b as int, c as int, d as int, iteration as int, x0, y0); if b != 0 { leh_step(X, Y, x as int, y as int, a as int, b as int, c as int, d as int, iteration as int, x0, y0, p); igcd_comm(a * X - b * Y, d * Y - c * X); }',
   'L1.after': 'p2_32(); buf_len(*left, *right); if right._length > 0 { bv_pos(*right); igcd_step(bv(*left), bv(*right)); bv_2(*right); } else { bv_2(*right); }', 'call:Reduce:2': 'bv_2(*left); bv_2(*right);'})
C(W + 'gcd(v,v)', 'left, right', req=['2 <= right@.len() <= left@.len() < 0x7fff_ffff', 'val(left@) >= val(right@)', 'left@[left@.len() - 1] != 0', 'right@[right@.len() - 1] != 0'], ens=['val(res@) == igcd(val(left@), val(right@))', 'res@.len() <= 0x7fff_ffff'])
GQ = ['1 <= rightBits@.len() <= leftBits@.len() <= 0x3000_0000', 'val(leftBits@) >= val(rightBits@)', 'leftBits@[leftBits@.len() - 1] != 0', 'rightBits@[rightBits@.len() - 1] != 0']
C(G + 'greatest_common_divisor(v,v)', 'leftBits, rightBits', req=GQ, ens=['wf(res)', 'bi(res) == igcd(val(leftBits@), val(rightBits@))'],
  hints={'entry': 'val_pos(rightBits@); igcd_step(val(leftBits@), val(rightBits@)); if rightBits@.len() == 1 { val_1(rightBits@); } if rightBits@.len() == 2 { pv_2(rightBits@, 0); }', 'decl:tempBits': 'if rightBits@.len() == 2 { red_big(tempBits@, tempBits@.len() as int, rightBits@); pv_2(tempBits@, 0); }',
   'call:remainder:2': 'p2_32();'})
C(G + 'greatest_common_divisor(B,B)', 'left, right', req=ok('left') + ok('right'), ens=['wf(res)', 'bi(res) == igcd(iabs(bi(*left)), iabs(bi(*right)))'],
  hints={'entry': bs('left') + bs('right') + """igcd_comm(iabs(bi(*left)), iabs(bi(*right))); if left._bits@.len() > 0 { val_pos(left._bits@); } if right._bits@.len() > 0 { val_pos(right._bits@); }
     if left._bits@.len() < right._bits@.len() { pw_mono(left._bits@.len() as int, right._bits@.len() - 1); } if right._bits@.len() < left._bits@.len() { pw_mono(right._bits@.len() as int, left._bits@.len() - 1); }"""})
