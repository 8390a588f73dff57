C(G + 'parse(s)', 's', req=['s@.len() <= 0x7fff_fff0'], ens=['wf(res)', 'bi(res) == parse_val(s@)'],
  loops={1: dict(inv=['wf(b)', 'dstart(s@) <= it <= s@.len()', 'start_idx == dstart(s@)', 'bi(b) == pdv(s@, dstart(s@), it as int)', 'drun(s@, dstart(s@)) == drun(s@, it as int)', '0 <= pdv(s@, dstart(s@), it as int) < t10(it - dstart(s@))'],
                 brk=['wf(b)', 'bi(b) == pdv(s@, dstart(s@), drun(s@, dstart(s@)))'], dec='s@.len() - it')},
  hints={'L1.pre': 't10_9();', 'L1.start': 'bi_sign(b._sign as int, b._bits@); if it < s@.len() { dec_limbs(b._bits@, it - dstart(s@)); if isdig(s@[it as int]) { pdv_step(s@, dstart(s@), it as int); } }',
   'call:operator*=:1': 'bi_sign(b._sign as int, b._bits@); dec_limbs(b._bits@, it + 1 - dstart(s@));'})
C(G + 'try_parse(s,B)', 's, mut result', req=['s@.len() <= 0x7fff_fff0'], ens=['res', 'wf(*final(result))', 'bi(*final(result)) == parse_val(s@)'])
V = 'val(this._bits@)'
ND = 'cchMax - (if this._sign < 0 { 1int } else { 0 })'
C(G + 'to_string()', this='ref', throws=True, req=['wf(*this)', 'this._bits@.len() <= 0x7fff_ffff'], ens=['res@ == dec_int(bi(*this))'], err=['this._bits@.len() > 214748364'],
  loops={1: dict(inv=['-1 <= iuSrc < cuSrc', '0 <= cuDst', 'rguDst@.len() == cuMax', 'nv(rguDst@, cuDst as int) == pv(this._bits@, iuSrc + 1, cuSrc - iuSrc - 1)', 'lt9(rguDst@, cuDst as int)', 'cuDst > 0 ==> rguDst@[cuDst - 1] != 0', '29 * cuDst <= 32 * (cuSrc - 1 - iuSrc) + 29', 'iuSrc == cuSrc - 1 ==> cuDst == 0']),
         2: dict(inv=['0 <= iuDst <= cuDst', 'rguDst@.len() == cuMax', 'lt9(rguDst@, cuDst as int)', 'forall|k: int| iuDst <= k < cuDst ==> #[trigger] rguDst@[k] == rguDst_p2[k]', 'nv(rguDst@, iuDst as int) + uCarry * t10(9 * iuDst) == nv(rguDst_p2, iuDst as int) * B + this._bits@[iuSrc as int]']),
         3: dict(inv=['0 <= iuDst < cuDst', 'cchMax - ichDst == 9 * iuDst', 'dlow(rgch@, %s, cchMax as int, 9 * iuDst)' % V]),
         4: dict(inv=['0 <= cchMax - ichDst - 9 * iuDst <= 9', 'if up4 { cch == cchMax - ichDst - 9 * iuDst } else { cch == 8 - (cchMax - ichDst - 9 * iuDst) }', 'dlow(rgch@, %s, cchMax as int, cchMax - ichDst)' % V, 'uDig == (%s / t10(cchMax - ichDst)) %% t10(9 - (cchMax - ichDst - 9 * iuDst))' % V]),
         5: dict(inv=['9 * (cuDst - 1) <= cchMax - ichDst <= 9 * cuDst', 'dlow(rgch@, %s, cchMax as int, cchMax - ichDst)' % V, 'uDig == %s / t10(cchMax - ichDst)' % V, 'cchMax - ichDst > 0 ==> t10(cchMax - ichDst - 1) <= %s' % V], dec='uDig'),
         6: dict(inv=['0 <= i + 1 <= 1', 'ichDst == (if i == 0 { ich0 } else { ich0 - 1 })', 'dlow(rgch@, %s, cchMax as int, nd)' % V, 'i < 0 ==> rgch@[ich0 - 1] == 45'])},
  hints={'entry': 'bi_sign(this._sign as int, this._bits@); t10_9();', 'decl:cuSrc': 'val_pos(this._bits@);',
   'L1.start': '@ghost mut XN = 0int; @ghost mut uC = 0int; @ghost cd = cuDst as int; @ghost mut R2 = rguDst@; @ghost X = nv(rguDst@, cuDst as int); pv_low(this._bits@, iuSrc as int, cuSrc - iuSrc); pv_bound(this._bits@, iuSrc as int, cuSrc - iuSrc); nv_bound(rguDst@, cuDst as int); unit(1); p2_32();',
   'L1.pre': 'pv_1(this._bits@, cuSrc as int);',
   'L2.end': 'nv_step(rguDst_b2, rguDst@, nv(rguDst_p2, iuDst_b2 as int) * B + this._bits@[iuSrc as int], iuDst_b2 as int, uCarry_b2 as int, rguDst_b2[iuDst_b2 as int] as int, rguDst@[iuDst_b2 as int] as int, uCarry as int); nv_mulB(nv(rguDst_p2, iuDst_b2 as int), rguDst_b2[iuDst_b2 as int] as int, t10(9 * iuDst_b2)); div_eq(uuRes as int, D9);',
   'L2.after': 'XN = X * B + this._bits@[iuSrc as int]; uC = uCarry as int; R2 = rguDst@; nv_bound(rguDst@, cd); t10_next(cd); dec_carry(XN, nv(rguDst@, cd), uC, cd, cuSrc - iuSrc); if uC == 0 && cd > 0 { nv_top(rguDst@, X, cd); }',
   'L1.end': 'nv_frame(R2, rguDst@, cd); div_eq(uC, D9); dec_push(rguDst@, R2, cd, cuDst as int, uC);',
   'L1.after': 'nv_bound(rguDst@, cuDst as int);',
   'decl:rgchBufSize': '@ghost mut ich0 = 0int; @ghost mut nd = 0int;',
   'L3.pre': 'dlow_0(rgch@, %s, cchMax as int);' % V,
   'L4.pre': '@ghost up4 = cch == 0; dig_nv(rguDst@, iuDst as int, cuDst as int);',
   'L4.start': 't10_div(%s, cchMax - ichDst); emod(%s / t10(cchMax - ichDst), 9 - (cchMax - ichDst - 9 * iuDst));' % (V, V),
   'L5.pre': 'dig_nv(rguDst@, cuDst - 1, cuDst as int); t10_mono(9 * (cuDst - 1) - 1, 9 * (cuDst - 1));', 'L5.start': 't10_div(%s, cchMax - ichDst); t10_lt(cchMax - ichDst, 9 * cuDst, %s);' % (V, V),
   'L5.after': 't10_div(%s, cchMax - ichDst); ich0 = ichDst as int; nd = cchMax - ichDst; dec_done(rgch@, %s, cchMax as int, nd);' % (V, V),
   'ret?ichDst': 'dec_done(rgch@, %s, cchMax as int, nd); assert(r_@ =~= dec_int(bi(*this)));' % V}, bcast='{auto_pv, dlow_put, dlow_oth}')
