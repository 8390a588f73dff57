# C17: a compound assignment whose right side is the object itself, and div_rem with its remainder also an operand
import re as _re
def rs(k):
    for a, n in zip('+-*/%&|^', ('add', 'sub', 'mul', 'div', 'rem', 'and', 'or', 'xor')): k = k.replace('operator' + a, 'op_' + n)
    return _re.sub(r'\W+', '_', k)
def alias(key, par, to, ghosts=(), **kw):
    b = CON[key]; ob = 'old(%s)' % to
    def sub(x, y): return _re.sub(r'\b%s\b(?!\()' % par, y, x)
    k = '%s@%s=%s' % (key, par, to)
    mods = ', '.join(('mut ' if b['modes'].get(p) == 'mut' else '') + p for p in b['params'])
    hints = {h: sub(x, to) for h, x in b['hints'].items()}
    C(k, mods, this=b['this'], req=list(dict.fromkeys(sub(x, ob) for x in b['req'])), ens=[sub(x, ob) for x in b['ens']], err=[sub(x, ob) for x in b['err']], throws=b['throws'],
      loops={n: {a: ([sub(y, to) for y in z] if isinstance(z, list) else z) for a, z in l.items()} for n, l in b['loops'].items()}, hints=hints, alias={par: to}, src=key, rust=rs(k), **kw)
    return k
for o in '+-*&|^': alias(G + 'operator%s=(B)' % o, 'rhs', 'this')
for o in '/%': alias(G + 'operator%s=(B)' % o, 'div', 'this')
def alias_dr(al, nm):
    b = CON[G + 'div_rem(B,B,B)']; k = G + 'div_rem(B,B,B)@' + nm
    def sub(x, old):
        def f(m): return m.group(0) if m.group(1) not in al else ('old(%s)' % al[m.group(1)] if old else al[m.group(1)])
        return _re.sub(r'(?<![\w.])(\w+)\b', f, x)
    C(k, 'dividend, divisor, mut remainder', throws=True, req=list(dict.fromkeys(sub(x, 1) for x in b['req'])), ens=[sub(x, 1) for x in b['ens']], err=[sub(x, 1) for x in b['err']], hints={h: sub(x, 0) for h, x in b['hints'].items()}, alias=al, src=G + 'div_rem(B,B,B)', rust=rs(k))
alias_dr({'dividend': 'remainder'}, 'dividend=remainder')
alias_dr({'divisor': 'remainder'}, 'divisor=remainder')
alias_dr({'dividend': 'remainder', 'divisor': 'remainder'}, 'all')
