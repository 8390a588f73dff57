"""Build a Verus crate for a set of functions and run the verifier."""
import os, sys, re, json, subprocess, time, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import cxx2verus as cv, prims

CON = {}
def C(key, params='', this=None, req=(), ens=(), err=(), throws=False, loops=None, hints=None, dec=None, rlimit=None, props=(), **kw):
    names, modes = [], {}
    for p in [x.strip() for x in params.split(',') if x.strip()]:
        if p.startswith('mut '): p = p[4:].strip(); modes[p] = 'mut'
        names.append(p)
    L = {}
    for k, v in (loops or {}).items():
        L[k] = dict(v) if isinstance(v, dict) else {'inv': list(v)}
    CON[key] = dict(params=names, modes=modes, this=this, req=list(req), ens=list(ens), err=list(err), throws=throws, loops=L, hints=dict(hints or {}), dec=dec, rlimit=rlimit, **kw)
    return CON[key]

def load_contracts():
    CON.clear()
    g = {'C': C, 'CON': CON}
    for f in sorted(glob.glob(ROOT + '/contracts/*.py')):
        exec(compile(open(f).read(), f, 'exec'), g)
    return CON

def cone(gen, roots):
    """translate the functions reachable from roots; returns ordered keys"""
    seen = []; todo = list(roots)
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.append(k)
        if k not in gen.text and k not in gen.errors: translate(gen, k)
        todo += sorted(gen.calls.get(k, ()))
    return seen

def translate(gen, k):
    try:
        if k.startswith('static:'):
            gen.text[k] = static_text(gen, k)
        elif CON[k].get('alias'):
            gen.text[k] = alias_text(gen, k)
        else:
            gen.text[k] = gen.function(k)
    except cv.FrameFail as e:
        gen.errors[k] = ('frame', str(e))
    except cv.Unsupported as e:
        gen.errors[k] = ('unsupported', str(e))
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        import traceback
        gen.errors[k] = ('unsupported', '%s: translator: %r %s' % (k, e, traceback.format_exc()[-600:]))

def alias_text(gen, k):
    """the function CON[k]['src'] with some reference parameters naming the same object"""
    src = CON[k]['src']
    keep = gen.calls.get(src); gen.calls[src] = set()
    try: return gen.function(k)
    finally:
        gen.calls[k] = gen.calls[src]
        if keep is None: del gen.calls[src]
        else: gen.calls[src] = keep

def static_text(gen, k):
    q = k[7:]
    d = gen.p.statics[q]
    con = CON[k]
    class F: pass
    f = cv.Fn(); f.key = k; f.d = d; f.params = []; f.tu = d['_tu']; f.cls = ''; f.name = q; f.kind = 'FunctionDecl'; f.static = True; f.ret = 'BigInteger'; f.retref = False
    f.file = d.get('_file'); f.rust = gen.static_fn(q); f.inits = []
    ini = [x for x in d['inner'] if not x['kind'].endswith('Attr')][-1]
    f.body = {'kind': 'CompoundStmt', 'inner': [{'kind': 'ReturnStmt', 'inner': [ini]}]}
    gen.p.fns[k] = f
    return gen.function(k)

def build(gen, keys, spec_files=None, only=None, extra=''):
    """crate text and a line map: line number -> (key, C++ line)"""
    out = []; lm = {}; n = [0]
    def put(s, src=None):
        for x in s.split('\n'):
            out.append(x)
            if src: lm[len(out)] = src
    put('#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, dead_code, unused_parens, unused_braces, unreachable_code, non_snake_case, non_upper_case_globals, unused_must_use, irrefutable_let_patterns, unused_labels)]')
    put('use vstd::prelude::*;\nuse vstd::arithmetic::div_mod::*;\nuse vstd::arithmetic::mul::*;\nverus! { global size_of usize == 8; }')
    put('pub mod prim { use super::*; use super::spec::*; verus! {')
    put(prims.prims()); put(prims.structs(gen.p.records))
    for k in sorted(gen.extra): put(prims.fixlt(gen.extra[k]))
    put('} }\npub use prim::*;')
    put('pub mod spec { use super::*; verus! {')
    put(open(ROOT + '/verus/spec.rs').read())
    put('} }\npub use spec::*;')
    for f in sorted(glob.glob(ROOT + '/verus/*.rs')):
        b = os.path.basename(f)[:-3]
        if b in ('spec',): continue
        put('pub mod lem_%s { use super::*; verus! {' % b)
        s0 = len(out)
        put(open(f).read())
        put('} }\npub use lem_%s::*;' % b)
    mods = {}
    for k in keys:
        if k not in gen.text: continue
        m = 'f_' + re.sub(r'\W+', '_', (CON[k].get('rust') or (gen.p.fns[k].rust if k in gen.p.fns else k)))
        mods[k] = m
        put('pub mod %s { use super::*; verus! { broadcast use %s;' % (m, (CON.get(k) or {}).get('bcast') or 'auto_pv'))
        for s, ln in gen.text[k]: put(s, (k, ln))
        put('} }\npub use %s::*;' % m)
    if extra: put(extra)
    put('fn main() {}')
    return '\n'.join(out) + '\n', lm, mods

def run_verus(path, modules=None, threads=8, timeout=600, rlimit=None):

    cmd = ['verus', path, '--num-threads', str(threads), '--output-json', '--time-expanded', '--multiple-errors', '4', '--no-report-long-running']
    for m in modules or []: cmd += ['--verify-module', m]
    cmd += ['--rlimit', str(rlimit or 60)]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        o, e, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        o, e, rc = '', 'verifier timeout', -1
    try: j = json.loads(o)
    except ValueError: j = {}
    return j, e, rc, time.time() - t, cmd
