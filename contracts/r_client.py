# client code (client/client.cpp): laws that join operations, and default arguments
NB = 'x._bits@.len() <= 0x1fff_fff0'
U = lambda x, cap: ['wf(*%s)' % x, '%s._bits@.len() <= %s' % (x, cap)]
C('user_bytes(B)', 'x', throws=True, req=['wf(*x)', NB], ens=['bytes_ok(res@, bi(*x), false, false)'], err=['false'])
C('user_bytes_unsigned(B)', 'x', throws=True, req=['wf(*x)', NB], ens=['bytes_ok(res@, bi(*x), true, false)', 'bi(*x) >= 0'], err=['bi(*x) < 0'])
C('user_bytes_mode(B)', 'x', throws=True, req=['wf(*x)', NB], ens=['bytes_ok(res@, bi(*x), false, false)'], err=['false'])
C('user_byte_count(B)', 'x', throws=True, req=['wf(*x)', NB], ens=['blen(bi(*x), res as int, false)'], err=['false'])
C('user_from_bytes(y)', 'bytes', req=['bytes@.len() <= 0x7fff_fff0'], ens=['wf(res)', 'bi(res) == bytes_val(bytes@, false, false)'])
C('user_from_bytes_unsigned(y)', 'bytes', req=['bytes@.len() <= 0x7fff_fff0'], ens=['wf(res)', 'bi(res) == bytes_val(bytes@, true, false)'])
C('user_bytes_round(B)', 'x', throws=True, req=['wf(*x)', 'x._bits@.len() <= 0x1fff_ff00'], ens=['wf(res)', 'bi(res) == bi(*x)'], err=['false'], hints={'entry': 'cl_len(x._sign as int, x._bits@, 0x1fff_ff00); cl_bytes(bi(*x), 0x1fff_ff00);'})
C('user_text_round(B)', 'x', throws=True, req=['wf(*x)', 'x._bits@.len() <= 0x0800_0000'], ens=['wf(res)', 'bi(res) == bi(*x)'], err=['false'], hints={'entry': 'cl_len(x._sign as int, x._bits@, 0x0800_0000); cl_text(bi(*x), 0x0800_0000);'})
C('user_undo(B,B)', 'a, b', req=U('a', '0x0800_0000') + U('b', '0x0800_0000'), ens=['wf(res)', 'bi(res) == bi(*a)'])
C('user_shift(B,i)', 'x, n', req=U('x', '0x0800_0000') + ['0 <= n'], ens=['wf(res)', 'bi(res) == bi(*x)'], hints={'entry': 'cl_shift(bi(*x), n as int);'})
C('user_int(i)', 'v', throws=True, ens=['res == v'], err=['false'])
C('user_uint(u)', 'v', throws=True, ens=['res == v'], err=['false'])
C('user_long(l)', 'v', throws=True, ens=['res == v'], err=['false'])
C('user_ulong(L)', 'v', throws=True, ens=['res == v'], err=['false'])
C('user_double(d)', 'v', throws=True, ens=['dexp(v.bits as int) != 2047', 'dbl_tr(res.bits as int, dval(v.bits as int))', 'dbl_int(v.bits as int) && dval(v.bits as int) != 0 ==> res.bits == v.bits'], err=['e is Overflow', 'dexp(v.bits as int) == 2047'],
  hints={'entry': 'if dbl_int(v.bits as int) { cl_double(v.bits as int); }'})
C('user_same(B,B)', 'a, b', req=U('a', '0x0800_0000') + U('b', '0x0800_0000'), ens=['res'])
