"""Shorthands used by the contract files (plain text macros)."""
import re
W = 'BigIntegerCalculator::'
def pp(n, l):    # read-only pointer operand: n, n_o, l limbs in bounds
    return ['0 <= %s' % l, '0 <= %s_o' % n, '%s_o + %s <= %s@.len()' % (n, l, n), '%s@.len() <= 0x7fff_ffff' % n]
def ppm(n, l):   # written pointer operand
    return ['0 <= %s' % l, '0 <= %s_o' % n, '%s_o + %s <= old(%s)@.len()' % (n, l, n), 'old(%s)@.len() <= 0x7fff_ffff' % n]
def PV(n, l, s=None, o=None): return 'pv(%s@, %s as int, %s as int)' % (s or n, o if o is not None else n + '_o', l)
def PVo(n, l): return PV(n, l, 'old(%s)' % n)
def PVf(n, l): return PV(n, l, 'final(%s)' % n)
def frame(n, l, o=None): return 'same_out(old(%s)@, final(%s)@, %s as int, %s as int)' % (n, n, o if o is not None else n + '_o', l)
