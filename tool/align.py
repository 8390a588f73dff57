"""Baseline of the annotated sources, and alignment of a changed source with it.

The contracts' loop invariants and hints name local variables and number loops of the source they were written for.
align() maps a renamed local (or a local that moved into a new helper function, which the translation inlines) back to
the name the annotations use: renaming a local consistently cannot change what is proved.  The baseline also records
each function's loops (nesting, and what each modifies); where a changed function's loops no longer match, its
annotations do not fit it and a failed obligation in it says nothing about the property (check.py: misfit)."""
import json, os
import cxx2verus as cv
HERE = os.path.dirname(os.path.abspath(__file__))
FILE = HERE + '/baseline.json'

def load():
    try: return json.load(open(FILE))
    except (OSError, ValueError): return {}

SKIP = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ConstantExpr')

def locals_of(f):
    """name -> (type, usage features) for the parameters and local variables of a function"""
    ids = {}; feat = {}; typ = {}
    def declare(d, param=False):
        n = d.get('name')
        if not n or n.startswith('__'): return
        ids[d['id']] = n; t = cv.nty(d)
        typ.setdefault(n, ('' if not param else '') + t); feat.setdefault(n, [])
    for p in f.params: declare(p, True)
    def walk(n, path):
        k = n.get('kind')
        if k == 'VarDecl' or k == 'ParmVarDecl':
            declare(n)
            nm = n.get('name')
            for x in n.get('inner', []):
                if x and 'kind' in x: walk(x, path[-2:] + [('init', n['id'])])
            return
        if k == 'DeclRefExpr':
            i = n.get('referencedDecl', {}).get('id')
            if i in ids:
                p = [(a if isinstance(a, str) else 'init') for a in path]
                feat[ids[i]].append('|'.join(p[-2:])); feat[ids[i]].append(p[-1] if p else '')
                if path and isinstance(path[-1], tuple) and path[-1][1] in ids: feat[ids[path[-1][1]]].append('=var')
            return
        if k in SKIP:
            for x in n.get('inner', []): 
                if x and 'kind' in x: walk(x, path)
            return
        op = n.get('opcode', '')
        for j, x in enumerate(n.get('inner', [])):
            if x and 'kind' in x:
                com = op in ('+', '*', '&', '|', '^', '==', '!=')
                walk(x, path[-2:] + ['%s%s%s' % (k, op, '' if com else j)])
    walk(f.body, [])
    return {n: [typ[n], sorted(feat[n])] for n in feat}

def shape(prog, gen):
    out = {}
    for k, f in prog.fns.items():
        if '?' in k: continue
        out[k] = dict(locals=locals_of(f), params=[p.get('name') for p in f.params], skel=gen.skel.get(k), lfeat=gen.lfeat.get(k))
    return out

def sim(a, b):
    from collections import Counter
    x, y = Counter(a[1]), Counter(b[1])
    n = sum((x & y).values()); m = max(sum(x.values()), sum(y.values()), 1)
    s = n / m
    if a[0] != b[0]: s -= 0.3 if (a[0] in cv.INT and b[0] in cv.INT) else 0.6
    return s

def calls_of(prog, n, f, out, base):
    if n.get('kind') in ('DeclRefExpr', 'MemberExpr'):
        i = n.get('referencedDecl', {}).get('id') or n.get('referencedMemberDecl')
        d = prog.byid.get((f.tu, i))
        k = d.get('_key') if d else None
        if k and k in prog.fns and k not in base and k not in out:
            out.append(k); calls_of(prog, prog.fns[k].body, prog.fns[k], out, base)
    for x in n.get('inner', []):
        if x and 'kind' in x: calls_of(prog, x, f, out, base)

def align(prog, base, con, keys):
    """-> {function key: {(key of the function or of an inlined new helper, name): name in the annotations}}"""
    ren = {}
    for k in keys:
        f = prog.fns.get(k); b = base.get(k)
        if f is None or not b: continue
        cur = locals_of(f)
        if cur == {n: [t, fe] for n, (t, fe) in b['locals'].items()}: continue
        pn = {p.get('name') for p in f.params}
        want = [n for n in b['locals'] if n not in cur and n not in b['params'] and n not in (con.get(k) or {}).get('params', ())]
        if not want: continue
        cands = [((k, n), v) for n, v in cur.items() if n not in b['locals'] and n not in pn]
        hs = []; calls_of(prog, f.body, f, hs, base)
        for h in hs:
            cands += [((h, n), v) for n, v in locals_of(prog.fns[h]).items()]
        sc = sorted(((sim(b['locals'][w], v) + (0.25 if c[1] == w else 0), w, c) for w in want for c, v in cands), key=lambda z: (-z[0], z[1], z[2]))
        m = {}; usedw = set()
        for s, w, c in sc:
            if s < 0.15 or w in usedw or c in m: continue
            m[c] = w; usedw.add(w)
        if m: ren[k] = m
    return ren

def misfit(b, skel):
    """do the loops of the translated function differ from those the annotations were written for?"""
    if b is None or b.get('skel') is None or skel is None: return False
    o = b['skel']
    if len(o) != len(skel): return True
    return any(x[0] != y[0] or not set(y[1]) <= set(x[1]) for x, y in zip(o, skel))

if __name__ == '__main__':
    import sys, verify as v
    v.load_contracts()
    prog = cv.Program('/repo', bindings=True); gen = cv.Gen(prog, v.CON)
    v.cone(gen, list(v.CON))
    s = shape(prog, gen)
    json.dump(s, open(FILE, 'w'), indent=0, sort_keys=True)
    print(len(s), 'functions')
