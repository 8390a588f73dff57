C('leading_zeros_count(u)', 'value', ens=['res <= 32', 'value == 0 ==> res == 32', 'value > 0 ==> p2(31 - res) <= value && value < p2(32 - res)'],
  hints={'entry': '@ghost v0 = value;', 'ret': 'if v0 > 0 { smear_ones(v0); p2_tabc(); let k = choose|k: int| 0 <= k < 32 && p2(k) <= v0 && v0 < p2(k + 1) && #[trigger] p2(k + 1) - 1 == smear(v0); }'})
BL = 'let s = this._bits@; p2_tabc(); if s.len() > 0 { bl_top(s, t1_ as int); low_bit(highValue, (highValue - 1) as u32); if zeros(s, 0, s.len() - 1) { pv_zero(s, 0, s.len() - 1); } } else if highValue > 0 { top_p2(highValue as int, highValue as int, 0, 0, 31 - t1_ as int); low_bit(highValue, (highValue - 1) as u32); }'
C(G + 'get_bit_length()', this='ref', req=['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff'], ens=['bitlen(bi(*this), res as int)'],
  hints={'entry': 'bi_sign(this._sign as int, this._bits@); p2_tabc();', 'ret': BL, 'ret?i': 'pv_nz(this._bits@, 0, this._bits@.len() - 1, i as int);'},
  loops={1: dict(inv=['-1 <= i', 'this._bits@.len() > 0 ==> i <= this._bits@.len() - 2', 'this._bits@.len() == 0 ==> i == -1', 'zeros(this._bits@, i + 1, this._bits@.len() - 1)'])})
C(G + 'is_power_of_two()', this='ref', req=['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff'], ens=['res == is_p2(bi(*this))'],
  hints={'entry': 'bi_sign(this._sign as int, this._bits@); let s = this._bits@; p2_neg(bi(*this)); if s.len() > 0 { let h = s[s.len() - 1]; low_bit(h, (h - 1) as u32); is_p2_val(s); if zeros(s, 0, s.len() - 1) { pv_zero(s, 0, s.len() - 1); } } else { let u = wrap_u32(this._sign as int) as u32; if u > 0 { low_bit(u, (u - 1) as u32); } }',
         'ret?iu': 'if 0 <= iu < this._bits@.len() - 1 && this._bits@[iu as int] != 0 { pv_nz(this._bits@, 0, this._bits@.len() - 1, iu as int); }'},
  loops={1: dict(inv=['-1 <= iu <= this._bits@.len() - 2', 'zeros(this._bits@, iu + 1, this._bits@.len() - 1)'])})
C(H + 'combine_hash(u,u)', 'u1, u2', ens=['res == comb(u1, u2)'],
  hints={'entry': 'p2_tabc();'})
C(H + 'combine_hash(i,i)', 'n1, n2', ens=['res as int == hcomb(n1 as int, wrap_u32(n2 as int) as u32)'])
C(G + 'get_hash_code()', this='ref', req=['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff'], ens=['res as int == hash_of(this._sign as int, this._bits@, 0)'],
  loops={1: dict(inv=['-1 <= iv < this._bits@.len()', 'hash as int == hash_of(this._sign as int, this._bits@, iv + 1)'])})
for t, lo, hi in (('int', '-0x8000_0000', '0x7fff_ffff'), ('unsigned int', '0', '0xffff_ffff'), ('long', '-0x8000_0000_0000_0000', '0x7fff_ffff_ffff_ffff'), ('unsigned long', '0', '0xffff_ffff_ffff_ffff')):
    C(G + 'operator %s()' % t, this='ref', throws=True, req=['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff'], ens=['res as int == bi(*this)'], err=['e is Overflow', '!(%s <= bi(*this) && bi(*this) <= %s)' % (lo, hi)],
      hints={'entry': 'bi_sign(this._sign as int, this._bits@); conv_facts(this._bits@);'})
