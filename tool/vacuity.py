#!/usr/bin/env python3
"""vacuity.py: put assert(false) before every return of every generated function and confirm each is refused.

A return at which assert(false) is accepted is either dead code or the sign of contradictory assumptions (an
inconsistent assumed contract of a primitive, an unsatisfiable precondition). Not part of any check; run by hand."""
import sys, re, os, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verify as v, cxx2verus as cv, align
def main():
    prog = cv.Program(os.environ.get('VERIF_REPO', '/repo'), bindings=True)
    v.load_contracts(); base = align.load(); ren = align.align(prog, base, v.CON, list(base))
    gen = cv.Gen(prog, v.CON, ren, base)
    keys = [k for k in v.CON if not sys.argv[1:] or any(re.search(a, k) for a in sys.argv[1:])]
    allk = v.cone(gen, keys)
    txt, lm, mods = v.build(gen, allk)
    out = []; marks = {}; line2key = {}
    for i, l in enumerate(txt.split('\n'), 1):
        k = lm.get(i, (None, None))[0]
        if k in keys and re.match(r'\s*return\b', l):
            out.append('assert(false);'); marks[len(out)] = (k, lm[i][1], l.strip()[:80])
        out.append(l)
    path = os.environ.get('OUT', '/tmp/w/vac.rs'); open(path, 'w').write('\n'.join(out))
    ms = [mods[k] for k in keys if k in mods]
    import subprocess
    cmd = ['verus', path, '--num-threads', '8', '--multiple-errors', '200', '--no-report-long-running', '--rlimit', '200']
    for m in ms: cmd += ['--verify-module', m]
    p = subprocess.run(cmd, capture_output=True, text=True)
    bad = {int(x) for x in re.findall(r'vac\.rs:(\d+):\d+', p.stderr)} if path.endswith('vac.rs') else {int(x) for x in re.findall(re.escape(path) + r':(\d+):\d+', p.stderr)}
    rl = [(k, c) for x in re.findall(r'Resource limit.*?-->[^\n]*?:(\d+):', p.stderr, re.S) for k, c in [next(((marks[n][0], 0) for n in sorted(marks) if n >= int(x)), ('?', 0))]]
    per = collections.defaultdict(lambda: [0, 0])
    for n, (k, c, l) in sorted(marks.items()):
        per[k][0] += 1
        if n in bad: per[k][1] += 1
        else: print('ACCEPTED', k, c, l)
    print('functions', len(per), 'returns', len(marks), 'refused', sum(x[1] for x in per.values()), 'functions with no refused return', [k for k in per if not per[k][1]], 'resource limit', rl)
    print('no return statement:', [k for k in keys if k in gen.text and k not in per])
    print(p.stdout[-300:])
main()
