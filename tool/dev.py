#!/usr/bin/env python3
"""dev.py KEYREGEX... : translate and verify the functions whose key matches (callees by contract only)"""
import sys, re, os, pickle, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verify as v, cxx2verus as cv
def main():
    cache = '/tmp/w/prog.pkl'
    repo = os.environ.get('REPO', '/repo')
    import subprocess
    stamp = subprocess.run('cat $(find %s/src %s/include %s/bindings -name "*.cpp" -o -name "*.h") | md5sum' % (repo, repo, repo), shell=True, capture_output=True, text=True).stdout
    prog = None
    if os.path.exists(cache):
        s, prog = pickle.load(open(cache, 'rb'))
        if s != stamp: prog = None
    if prog is None:
        prog = cv.Program(repo, bindings=True); pickle.dump((stamp, prog), open(cache, 'wb'))
    v.load_contracts()
    import align
    base = align.load(); ren = align.align(prog, base, v.CON, list(base))
    if ren: print('renames', ren)
    gen = cv.Gen(prog, v.CON, ren, base)
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    keys = [k for k in v.CON if any(re.search(p, k) for p in pats)]
    allk = v.cone(gen, keys)
    for k in allk:
        if k in gen.errors: print('ERR', gen.errors[k])
    txt, lm, mods = v.build(gen, allk)
    # callees outside the selection: bodies are still emitted, but only the selected modules are verified
    path = '/tmp/w/dev_%d.rs' % os.getpid() if '-p' in sys.argv else '/tmp/w/dev.rs'; open(path, 'w').write(txt)
    ms = [mods[k] for k in keys if k in mods]
    if '-l' in sys.argv: ms += ['spec', 'prim'] + ['lem_' + os.path.basename(f)[:-3] for f in v.glob.glob(v.ROOT + '/verus/*.rs') if not f.endswith('spec.rs')]
    if '-n' in sys.argv: return
    j, e, rc, t, cmd = v.run_verus(path, ms, rlimit=os.environ.get('RL'))
    blocks = [b for b in re.split(r'\n\n', e) if not b.startswith('note: verifying module') and not b.startswith('note: recommendation') and not (b.lstrip().startswith('-->') and 'recommendation not met' in b)]
    lines = '\n\n'.join(x if len(x) < 1500 else '\n'.join(l[:300] for l in x.split('\n')) for x in blocks).split('\n')
    txtl = txt.split('\n')
    print('\n'.join(lines[:int(os.environ.get('N', '120'))]))
    r = j.get('verification-results', {})
    print('verified', r.get('verified'), 'errors', r.get('errors'), 'rc', rc, 'time %.1f' % t)
    for k, u in getattr(gen, 'unused_hints', {}).items(): print('unused hints', k, u)
    if '-t' in sys.argv:
        fs = []
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []): fs.append((f.get('time', 0), f.get('function'), f.get('rlimit')))
        for x in sorted(fs, reverse=True, key=lambda z: z[0])[:12]: print(x)
main()
