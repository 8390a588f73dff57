G = 'BigInteger::'
RES = ['wf(res)']
def bigs(b, s): return ['bi(res) == ' + b, 'res._bits@.len() <= ' + s]
C('static:BigInteger::s_bnMinInt', ens=['wf(res)', 'bi(res) == -0x8000_0000', 'res._sign == -1', 'res._bits@.len() == 1'], hints={'ret': 'val_1(r_._bits@);'})
for n, v in (('One', 1), ('Zero', 0), ('MinusOne', -1)):
    C('static:BigInteger::s_bn%sInt' % n, ens=['wf(res)', 'bi(res) == %d' % v, 'res._sign == %d' % v, 'res._bits@.len() == 0'], hints={'ret': 'bi_sign(r_._sign as int, r_._bits@);'})
C(G + 'BigInteger()', ens=['wf(res)', 'bi(res) == 0'])
C(G + 'BigInteger(i)', 'value', ens=['wf(res)', 'bi(res) == value', 'res._bits@.len() <= 1'])
C(G + 'BigInteger(u)', 'value', ens=['wf(res)', 'bi(res) == value', 'res._bits@.len() <= 1'], hints={'ret': 'if this._bits@.len() == 1 { val_1(this._bits@); }'})
C(G + 'BigInteger(l)', 'value', ens=['wf(res)', 'bi(res) == value', 'res._bits@.len() <= 2'], hints={'ret': 'if this._bits@.len() == 1 { val_1(this._bits@); } if this._bits@.len() == 2 { pv_2(this._bits@, 0); } if this._bits@.len() > 0 { mulsign(this._sign as int, val(this._bits@)); }'})
C(G + 'BigInteger(L)', 'value', ens=['wf(res)', 'bi(res) == value', 'res._bits@.len() <= 2'], hints={'ret': 'if this._bits@.len() == 1 { val_1(this._bits@); } if this._bits@.len() == 2 { pv_2(this._bits@, 0); } if this._bits@.len() > 0 { mulsign(this._sign as int, val(this._bits@)); }'})
C(G + 'BigInteger(i,v)', 'n, value', req=['wfsb(n as int, value@)'], ens=['wf(res)', 'res._sign == n', 'res._bits@ == value@'])
C(G + 'assert_valid()', this='ref', req=['wf(*this)'])
NV = '(if negative { -val(value@) } else { val(value@) })'
C(G + 'BigInteger(v,b)', 'value, negative', req=['value@.len() <= 0x7fff_ffff'], ens=['wf(res)', 'bi(res) == ' + NV, 'res._bits@.len() <= value@.len()'],
  loops={1: dict(inv=['0 <= len <= value@.len()', 'zeros(value@, len as int, value@.len() as int)'], dec='len'),
         2: dict(inv=['this._bits@.len() == 0 ==> wf(this) && bi(this) == ' + NV,
                      'this._bits@.len() > 0 ==> 0 < len <= this._bits@.len() <= value@.len() && this._bits@ =~= value@.subrange(0, this._bits@.len() as int) && this._sign == (if negative { -1int } else { 1int }) && (len == 1 ==> value@[0] >= 0x8000_0000) && value@[len - 1] != 0'], dec='this._bits@.len()')},
  hints={'L1.after': 'pv_top0(value@, 0, value@.len() as int, len as int); pv_1(value@, 0);', 'L2.after': 'if this._bits@.len() > 0 { pv_frame(this._bits@, value@, 0, len as int); } mulsign(this._sign as int, val(this._bits@));'})
