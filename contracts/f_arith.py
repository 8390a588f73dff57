def SB(s, b): return 'sb(%s as int, %s@)' % (s, b)
CAPL = '0x1000_0000'
LB, RB = SB('lhsSign', 'lhs'), SB('rhsSign', 'rhs')
C(G + 'add(v,i,v,i)', 'lhs, lhsSign, rhs, rhsSign',
  req=['wfsb(lhsSign as int, lhs@)', 'wfsb(rhsSign as int, rhs@)', 'lhs@.len() <= 0x3fff_0000', 'rhs@.len() <= 0x3fff_0000', '(lhsSign < 0 && rhsSign <= 0) || (lhsSign >= 0 && rhsSign >= 0)'],
  ens=['wf(res)', 'bi(res) == %s + %s' % (LB, RB), 'res._bits@.len() <= imax(lhs@.len() as int, rhs@.len() as int) + 2', 'res._bits@.len() <= 2 || res._bits@.len() <= imax(lhs@.len() as int, rhs@.len() as int) + 1'],
  hints={'entry': 'bi_sign(lhsSign as int, lhs@); bi_sign(rhsSign as int, rhs@);'})
C(G + 'subtract(v,i,v,i)', 'lhs, lhsSign, rhs, rhsSign',
  req=['wfsb(lhsSign as int, lhs@)', 'wfsb(rhsSign as int, rhs@)', 'lhs@.len() <= 0x3fff_0000', 'rhs@.len() <= 0x3fff_0000', '(lhsSign < 0 && rhsSign <= 0) || (lhsSign >= 0 && rhsSign >= 0)'],
  ens=['wf(res)', 'bi(res) == %s - %s' % (LB, RB), 'res._bits@.len() <= imax(lhs@.len() as int, rhs@.len() as int) + 2', 'res._bits@.len() <= 2 || res._bits@.len() <= imax(lhs@.len() as int, rhs@.len() as int)'],
  hints={'entry': 'bi_sign(lhsSign as int, lhs@); bi_sign(rhsSign as int, rhs@); if lhs@.len() < rhs@.len() { pw_mono(lhs@.len() as int, rhs@.len() - 1); } if rhs@.len() < lhs@.len() { pw_mono(rhs@.len() as int, lhs@.len() - 1); }'})
BIG = '0x3000_0000'
def ok(x): return ['wfsb(%s._sign as int, %s._bits@)' % (x, x), '%s._bits@.len() <= %s' % (x, BIG)]
TH = ['wf(*final(this))']
def L2(r, a, b, k): return '%s._bits@.len() <= imax(%s._bits@.len() as int, %s._bits@.len() as int) + %d' % (r, a, b, k)
BS = 'bi_sign(this._sign as int, this._bits@); '
def bs(x): return 'bi_sign(%s._sign as int, %s._bits@); ' % (x, x)
for o, sy in (('+', '+'), ('-', '-')):
    C(G + 'operator%s=(B)' % o, 'rhs', this='mut', req=ok('old(this)') + ok('rhs'), ens=TH + ['bi(*final(this)) == bi(*old(this)) %s bi(*rhs)' % sy, L2('final(this)', 'old(this)', 'rhs', 2)], hints={'entry': BS + bs('rhs') + 'neg_sign(rhs._sign as int, rhs._bits@);'})
    C('operator%s(B,B)' % o, 'lhs, rhs', req=ok('lhs') + ok('rhs'), ens=['wf(res)', 'bi(res) == bi(*lhs) %s bi(*rhs)' % sy, L2('res', 'lhs', 'rhs', 2)])
C(G + 'add(B,B)', 'lhs, rhs', req=ok('lhs') + ok('rhs'), ens=['wf(res)', 'bi(res) == bi(*lhs) + bi(*rhs)'])
C(G + 'subtract(B,B)', 'lhs, rhs', req=ok('lhs') + ok('rhs'), ens=['wf(res)', 'bi(res) == bi(*lhs) - bi(*rhs)'])
C(G + 'operator-()', this='ref', req=['wf(*this)'], ens=['wf(res)', 'bi(res) == -bi(*this)', 'res._bits@ == this._bits@'], hints={'entry': BS + 'neg_sign(this._sign as int, this._bits@);', 'ret': bs('r_')})
C(G + 'operator+()', this='ref', req=['wf(*this)'], ens=['wf(res)', 'samebi(res, *this)'])
for o, sy in (('++', '+'), ('--', '-')):
    for a in ('', 'i'):
        C(G + 'operator%s(%s)' % (o, a), 'dummy' if a else '', this='mut', req=ok('old(this)'), ens=TH + ['bi(*final(this)) == bi(*old(this)) %s 1' % sy])
C(G + 'zero()', ens=['wf(res)', 'bi(res) == 0', 'res._bits@.len() == 0'], hints={'ret': bs('r_')})
C(G + 'one()', ens=['wf(res)', 'bi(res) == 1', 'res._bits@.len() == 0'], hints={'ret': bs('r_')})
C(G + 'minus_one()', ens=['wf(res)', 'bi(res) == -1', 'res._bits@.len() == 0'], hints={'ret': bs('r_')})
C(G + 'negate(B)', 'value', req=['wf(*value)'], ens=['wf(res)', 'bi(res) == -bi(*value)', 'res._bits@ == value._bits@'], hints={'entry': 'neg_sign(value._sign as int, value._bits@);'})
C(G + 'abs(B)', 'value', req=['wf(*value)', 'value._bits@.len() <= 0x7fff_ffff'], ens=['wf(res)', 'bi(res) == iabs(bi(*value))', 'res._bits@.len() <= value._bits@.len()'], hints={'entry': bs('value')})
# multiplication
MB = '0x1000_0000'
def okm(x): return ['wfsb(%s._sign as int, %s._bits@)' % (x, x), '%s._bits@.len() <= %s' % (x, MB)]
C(G + 'operator*=(B)', 'rhs', this='mut', req=okm('old(this)') + okm('rhs'), ens=TH + ['bi(*final(this)) == bi(*old(this)) * bi(*rhs)', 'final(this)._bits@.len() <= imax(old(this)._bits@.len() as int, 1) + imax(rhs._bits@.len() as int, 1)'],
  hints={'entry': BS + bs('rhs') + 'mul_signs(bi(*this), bi(*rhs)); mul_small(this._sign as int, rhs._sign as int);'})
C('operator*(B,B)', 'lhs, rhs', req=okm('lhs') + okm('rhs'), ens=['wf(res)', 'bi(res) == bi(*lhs) * bi(*rhs)', 'res._bits@.len() <= imax(lhs._bits@.len() as int, 1) + imax(rhs._bits@.len() as int, 1)'])
C(G + 'multiply(B,B)', 'lhs, rhs', req=okm('lhs') + okm('rhs'), ens=['wf(res)', 'bi(res) == bi(*lhs) * bi(*rhs)'])
# division
def DZB(x): return ['e is DivideByZero', 'bi(*%s) == 0' % x]
OLD = ['samebi(*final(this), *old(this))']
def okd(x): return ok(x)
TS = 'tdiv_sign(bi(*this), bi(*%s)); '
C(G + 'operator/=(B)', 'div', this='mut', throws=True, req=ok('old(this)') + ok('div'), err=DZB('div') + OLD, ens=['bi(*div) != 0'] + TH + ['bi(*final(this)) == tdiv(bi(*old(this)), bi(*div))', L2('final(this)', 'old(this)', 'old(this)', 2)],
  hints={'entry': BS + bs('div') + 'if bi(*div) != 0 { tdiv_sign(bi(*this), bi(*div)); tdiv_sign(this._sign as int, div._sign as int); } len_lt(this._bits@, div._bits@);'})
C(G + 'operator%=(B)', 'div', this='mut', throws=True, req=ok('old(this)') + ok('div'), err=DZB('div') + OLD, ens=['bi(*div) != 0'] + TH + ['bi(*final(this)) == trem(bi(*old(this)), bi(*div))', L2('final(this)', 'old(this)', 'old(this)', 2)],
  hints={'entry': BS + bs('div') + 'if bi(*div) != 0 { tdiv_sign(bi(*this), bi(*div)); tdiv_sign(this._sign as int, div._sign as int); } len_lt(this._bits@, div._bits@);'})
for o, sp in (('/', 'tdiv'), ('%', 'trem')):
    C('operator%s(B,B)' % o, 'lhs, rhs', throws=True, req=ok('lhs') + ok('rhs'), err=DZB('rhs'), ens=['bi(*rhs) != 0', 'wf(res)', 'bi(res) == %s(bi(*lhs), bi(*rhs))' % sp, L2('res', 'lhs', 'lhs', 2)])
C(G + 'divide(B,B)', 'dividend, divisor', throws=True, req=ok('dividend') + ok('divisor'), err=DZB('divisor'), ens=['bi(*divisor) != 0', 'wf(res)', 'bi(res) == tdiv(bi(*dividend), bi(*divisor))'])
C(G + 'remainder(B,B)', 'dividend, divisor', throws=True, req=ok('dividend') + ok('divisor'), err=DZB('divisor'), ens=['bi(*divisor) != 0', 'wf(res)', 'bi(res) == trem(bi(*dividend), bi(*divisor))'])
C(G + 'get_bits()', this='ref', ens=['res@ == this._bits@'])
C(G + 'div_rem(B,B,B)', 'dividend, divisor, mut remainder', throws=True, req=ok('dividend') + ok('divisor'), err=DZB('divisor') + ['samebi(*final(remainder), *old(remainder))'],
  ens=['bi(*divisor) != 0', 'wf(res)', 'wf(*final(remainder))', 'bi(res) == tdiv(bi(*dividend), bi(*divisor))', 'bi(*final(remainder)) == trem(bi(*dividend), bi(*divisor))'],
  hints={'entry': bs('dividend') + bs('divisor') + 'if bi(*divisor) != 0 { tdiv_sign(bi(*dividend), bi(*divisor)); tdiv_sign(dividend._sign as int, divisor._sign as int); } len_lt(dividend._bits@, divisor._bits@);'})

# comparison
C(G + 'get_diff_length(v,v,i)', 'rgu1, rgu2, cu', req=['0 <= cu <= rgu1@.len()', 'cu <= rgu2@.len()'],
  ens=['0 <= res <= cu', 'forall|k: int| res <= k < cu ==> #[trigger] rgu1@[k] == rgu2@[k]', 'res > 0 ==> rgu1@[res - 1] != rgu2@[res - 1]'],
  loops={1: dict(inv=['-1 <= iv < cu', 'forall|k: int| iv < k < cu ==> #[trigger] rgu1@[k] == rgu2@[k]'], dec='iv + 1')})
def cmp3(a, b): return ['(res < 0) == (%s < %s)' % (a, b), '(res == 0) == (%s == %s)' % (a, b), '(res > 0) == (%s > %s)' % (a, b)]
CMP = 'if this._bits@.len() == other._bits@.len() && this._bits@.len() > 0 { if $ret > 0 { cmp_top(this._bits@, 0, other._bits@, 0, this._bits@.len() as int, $ret - 1); } else { pv_shift(this._bits@, 0, other._bits@, 0, this._bits@.len() as int); } }'
C(G + 'compare_to(B)', 'other', this='ref', req=['wf(*this)', 'wf(*other)', 'this._bits@.len() <= 0x7fff_ffff', 'other._bits@.len() <= 0x7fff_ffff'], ens=cmp3('bi(*this)', 'bi(*other)') + ['res > -0x8000_0000'],
  hints={'entry': BS + bs('other') + 'len_lt(this._bits@, other._bits@); len_lt(other._bits@, this._bits@);', 'call:get_diff_length:1': CMP})
C(G + 'equals(B)', 'other', this='ref', req=['wf(*this)', 'wf(*other)', 'this._bits@.len() <= 0x7fff_ffff', 'other._bits@.len() <= 0x7fff_ffff'], ens=['res == (bi(*this) == bi(*other))'],
  hints={'entry': BS + bs('other') + 'if bi(*this) == bi(*other) { bi_uniq(this._sign as int, this._bits@, other._sign as int, other._bits@); } len_lt(this._bits@, other._bits@); len_lt(other._bits@, this._bits@);', 'call:get_diff_length:1': CMP})
CR = ['wf(*lhs)', 'wf(*rhs)', 'lhs._bits@.len() <= 0x7fff_ffff', 'rhs._bits@.len() <= 0x7fff_ffff']
for o in ('<', '<=', '>', '>=', '==', '!='):
    C('operator%s(B,B)' % o, 'lhs, rhs', req=CR, ens=['res == (bi(*lhs) %s bi(*rhs))' % o])
C('Compare(B,B)', 'lhs, rhs', req=CR, ens=cmp3('bi(*lhs)', 'bi(*rhs)'))
C('Max(B,B)', 'lhs, rhs', req=CR, ens=['samebi(res, *lhs) || samebi(res, *rhs)', 'bi(res) == imax(bi(*lhs), bi(*rhs))', 'wf(res)'])
C('Min(B,B)', 'lhs, rhs', req=CR, ens=['samebi(res, *lhs) || samebi(res, *rhs)', 'bi(res) == (if bi(*lhs) < bi(*rhs) { bi(*lhs) } else { bi(*rhs) })', 'wf(res)'])
P1 = ['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff']
C(G + 'sign()', this='ref', req=P1, ens=['res == (if bi(*this) > 0 { 1int } else if bi(*this) < 0 { -1int } else { 0int })'], hints={'entry': BS})
C(G + 'is_zero()', this='ref', req=P1, ens=['res == (bi(*this) == 0)'], hints={'entry': BS})
C(G + 'is_one()', this='ref', req=P1, ens=['res == (bi(*this) == 1)'], hints={'entry': BS})
C(G + 'is_even()', this='ref', req=P1, ens=['res == (bi(*this) % 2 == 0)'], hints={'entry': BS + 'if this._bits@.len() > 0 { pv_low(this._bits@, 0, this._bits@.len() as int); } '})
