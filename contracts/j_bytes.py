BY = 'value_c@, isBigEndian, byteCount as int'
SMALL = 'sm_done(%s, isNegative, this._sign as int);' % BY
EST = 'strip_ok(value@, value_c@, isUnsigned, isBigEndian, byteCount as int, isNegative);'
LG = ['bytes_val(value@, isUnsigned, isBigEndian) == hv(%s, isNegative, 0)' % BY, '0 <= byteCount <= value_c@.len()', 'isBigEndian ==> byteCount == value_c@.len()', 'isNegative ==> byteCount > 0 && value_c@[ix(isBigEndian, byteCount as int, byteCount - 1)] >= 128', '!isNegative && byteCount > 0 ==> value_c@[ix(isBigEndian, byteCount as int, byteCount - 1)] > 0']
SM = lambda k: ['wrap_u32(this._sign as int) == hm(%s, isNegative, %s)' % (BY, k)]
DW = ['val@.len() == dwordCount']
INB = lambda k, b: ['0 <= %s <= 4' % b, 'zeros(val@, curDword + 1, dwordCount as int)', 'dws(val@, %s, curDword as int)' % BY, 'val@[curDword as int] == pdw(%s, curDword as int, %s as int)' % (BY, b)]
TOP = lambda t: ['dws(val@, %s, curDword as int)' % BY, 'val@[curDword as int] == hm(%s, isNegative, byteCount - %s)' % (BY, t)]
C(G + 'BigInteger(y,b,b)', 'value, isUnsigned, isBigEndian', req=['value@.len() <= 0x7fff_fff0'], ens=['wf(res)', 'bi(res) == bytes_val(value@, isUnsigned, isBigEndian)', 'res._bits@.len() <= value@.len() / 4 + 1'],
  loops={1: dict(inv=['1 <= offset <= byteCount', 'forall|k: int| byteCount - offset <= k < byteCount ==> value@[#[trigger] ix(true, byteCount as int, k)] == 0']),
         2: dict(inv=['-1 <= byteCount <= value@.len() - 2', 'forall|k: int| byteCount < k < value@.len() ==> value@[#[trigger] ix(false, value@.len() as int, k)] == 0']),
         3: dict(inv=['0 <= i <= byteCount'] + SM('byteCount - i')),
         4: dict(inv=['-1 <= i < byteCount'] + SM('i + 1')),
         5: dict(inv=DW + ['0 <= curDword <= byteCount / 4', 'curByte == byteCount - 4 - 4 * curDword', 'zeros(val@, curDword as int, dwordCount as int)', 'dws(val@, %s, curDword as int)' % BY]),
         6: dict(inv=DW + INB(5, 'byteInDword') + ['curByte == byteCount - 4 - 4 * curDword + byteInDword']),
         7: dict(inv=DW + ['0 <= curDword <= byteCount / 4', 'curByte == 3 + 4 * curDword', 'zeros(val@, curDword as int, dwordCount as int)', 'dws(val@, %s, curDword as int)' % BY]),
         8: dict(inv=DW + INB(7, 'byteInDword') + ['curByte == 3 + 4 * curDword - byteInDword']),
         9: dict(inv=DW + ['0 <= curByte <= unalignedBytes'] + TOP('curByte')),
         10: dict(inv=DW + ['byteCount - unalignedBytes - 1 <= curByte < byteCount'] + TOP('(byteCount - 1 - curByte)')),
         11: dict(inv=['-1 <= len < val@.len()', 'zeros(val@, len + 1, val@.len() as int)'])},
  hints={'entry': '@ghost mut VV = Seq::<u32>::empty();', 'decl:mostSignificantByte': 'and80(mostSignificantByte as i32);',
   'L3.pre': EST + 'hm_top(%s, isNegative);' % BY, 'L4.pre': EST + 'hm_top(%s, isNegative);' % BY,
   'L3.start': 'shl_or(%s, isNegative, byteCount - i - 1, wrap_u32(this._sign as int));' % BY, 'L4.start': 'shl_or(%s, isNegative, i as int, wrap_u32(this._sign as int));' % BY,
   'decl:unalignedBytes': EST, 'decl:val': 'dws_none(val@, %s, 0);' % BY,
   'L6.pre': 'pdw_0(%s, curDword as int);' % BY, 'L8.pre': 'pdw_0(%s, curDword as int);' % BY,
   'L6.start': 'pdw_step(%s, curDword as int, byteInDword as int, val@[curDword as int] as int);' % BY, 'L8.start': 'pdw_step(%s, curDword as int, byteInDword as int, val@[curDword as int] as int);' % BY,
   'L6.after': 'dws_put(val@, %s, curDword as int);' % BY, 'L8.after': 'dws_put(val@, %s, curDword as int);' % BY,
   'L9.pre': 'hm_top(%s, isNegative);' % BY, 'L10.pre': 'hm_top(%s, isNegative);' % BY,
   'L9.start': 'shl_or(%s, isNegative, byteCount - curByte - 1, val@[curDword as int] as int);' % BY, 'L10.start': 'shl_or(%s, isNegative, curByte as int, val@[curDword as int] as int);' % BY,
   'call:dangerous_make_twos_complement:1:pre': 'dws_all(val@, %s, isNegative);' % BY,
   'L11.after': 'VV = val@; pv_top0(val@, 0, val@.len() as int, len + 1); pv_1(val@, 0);',
   'L3.after': SMALL, 'L4.after': SMALL, 'call:assert_valid:1:pre': EST + 'hv_at(%s, isNegative, 0);' % BY,
   'call:assert_valid:3:pre': 'mulsign(this._sign as int, val(this._bits@)); if byteCount > 4 && !isNegative { dws_all(this._bits@, %s, isNegative); } else if byteCount > 4 { if this._bits@.len() > 0 { pv_frame(this._bits@, VV, 0, this._bits@.len() as int); } } else if this._bits@.len() == 1 { val_1(this._bits@); }' % BY, 'ret': ''}, bcast='{auto_pv, dws_upd, dws_none}')
X = 'bi(*this)'
C(G + 'to_byte_array(e,b,b,q)', 'mode, isUnsigned, isBigEndian, mut bytesWritten', this='ref', throws=True, req=['wf(*this)', 'this._bits@.len() <= 0x1fff_fff0'],
  ens=['mode == 1 && bytesWritten_nn ==> blen(bi(*this), *final(bytesWritten) as int, isUnsigned)', 'mode != 1 ==> bytes_ok(res@, bi(*this), isUnsigned, isBigEndian)', 'isUnsigned ==> bi(*this) >= 0'],
  err=['isUnsigned && bi(*this) < 0'],
  loops={1: dict(inv=['0 <= nonZeroDwordIndex < bits@.len()', 'zeros(bits@, 0, nonZeroDwordIndex as int)'], dec='bits@.len() - nonZeroDwordIndex'),
         2: dict(inv=['0 <= i < bits@.len()', 'destination@.len() == length', 'curByte == (if isBigEndian { length - 1 - 4 * i } else { 4 * i })', 'bytes_upto(destination@, bi(*this), isBigEndian, 4 * i)'], dec='bits@.len() - i')},
  hints={'entry': 'bi_sign(this._sign as int, this._bits@); p2_8(); pw_1(); @ghost nn = if this._bits@.len() == 0 { 1int } else { this._bits@.len() as int };',
   'decl:msb': 'let s = this._bits@; if s.len() == 0 { int_dig(this._sign as int, 0); unit(1); } else if sign == -1 { neg_dig(s, nonZeroDwordIndex as int, s.len() - 1); val_pos(s); } else { pos_dig(s, s.len() - 1); val_pos(s); } assert(highDword == dig(bi(*this), nn - 1));',
   'decl:needExtraByte': 'and80(msb as i32); and80(highByte as i32);',
   'decl:length': 'blen_of(bi(*this), nn, highDword as int, sign < 0, isUnsigned, msbIndex as int, needExtraByte);',
   'L2.start': 'limb_bytes(bi(*this), i as int); if sign == -1 { neg_dig(this._bits@, nonZeroDwordIndex as int, i as int); } else { pos_dig(this._bits@, i as int); }',
   'decl:destination': 'limb_bytes(bi(*this), nn - 1); assert(-pw(nn) <= bi(*this) < pw(nn)); sign_byte(bi(*this), nn, 4 * nn);', 'decl:curByte': 'bytes_none(destination@, bi(*this), isBigEndian, 0); assert(bytes_upto(destination@, bi(*this), isBigEndian, 0));',
   'ret': 'if mode != 1 { if bi(*this) == 0 { reveal(bytes_upto); unit(0); assert(0int / p2(0) == 0); } }', 'ret?destination': 'assert(r_@ == destination@);'}, bcast='{auto_pv, bytes_put}')
C(G + 'to_byte_array(b,b)', 'isUnsigned, isBigEndian', this='ref', throws=True, req=['wf(*this)', 'this._bits@.len() <= 0x1fff_fff0'], ens=['bytes_ok(res@, bi(*this), isUnsigned, isBigEndian)', 'isUnsigned ==> bi(*this) >= 0'], err=['isUnsigned && bi(*this) < 0'])
C(G + 'get_byte_count(b)', 'isUnsigned', this='ref', throws=True, req=['wf(*this)', 'this._bits@.len() <= 0x1fff_fff0'], ens=['blen(bi(*this), res as int, isUnsigned)', 'isUnsigned ==> bi(*this) >= 0'], err=['isUnsigned && bi(*this) < 0'])
