#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current sources.
Extracts the property's functions from the sources (clang AST -> Verus), verifies every obligation of their
contracts, and on a failure looks for a failing input on the real library.  Exit 0 / 1 only."""
import sys, os, re, json, time, subprocess, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = 780 if TIER == 'quick' else 3000
FIND_S = int(os.environ.get('VERIF_FIND_S', '150' if TIER == 'quick' else '900'))    # failing-input search after a failed obligation
RESID_S = int(os.environ.get('VERIF_RESID_S', '25' if TIER == 'quick' else '300'))   # bounded stand-in for functions not under contract

def log(*a): print(*a, flush=True)
def left(): return BUDGET - (time.time() - T0)

def parse_errors(err, lm, path):
    """verifier diagnostics -> list of (key, cpp line, message, source text, raw)"""
    out = []
    for b in re.split(r'\n(?=(?:error|warning|note)\b)', '\n' + err):
        b = b.strip('\n')
        m = re.match(r'error(\[\w+\])?: (.*)', b)
        if not m or m.group(2).startswith('aborting due'): continue
        msg = m.group(2)
        locs = [int(x) for x in re.findall(r'-->\s+%s:(\d+):' % re.escape(path), b)] + [int(x) for x in re.findall(r'^(\d+) ', b, re.M)]
        key = None
        for l in locs:
            if l in lm: key = lm[l]; break
        text = re.findall(r'^\s*\d+\s+\|\s?(.*)$', b, re.M)
        out.append(dict(key=key[0] if key else None, line=key[1] if key else None, msg=msg, code=m.group(1), text=' / '.join(x.strip() for x in text[:3])[:400], raw=b))
    return out

def post_of(x, con, tl, path):
    """the postcondition of the contract that a 'postcondition not satisfied' diagnostic names"""
    for l in re.findall(r'-->\s+%s:(\d+):' % re.escape(path), x['raw']) + re.findall(r'^(\d+) ', x['raw'], re.M):
        s = tl[int(l) - 1].strip()
        for f in ('ens', 'err'):
            for en in (con or {}).get(f, []):
                if s in ('(%s),' % en, '(rr_ matches Ok(res) ==> (%s)),' % en, '(rr_ matches Err(e) ==> (%s)),' % en): return en
    return None

def verify(prop):
    """-> dict(status=proved|failed|unreached, ...)"""
    import verify as v, cxx2verus as cv, roots, align
    r = dict(status='unreached', failed=[], functions=[], errors=[], missing=[])
    v.load_contracts()
    prog = cv.Program(REPO, bindings=prop == 'C19')
    base = align.load()
    ren = align.align(prog, base, v.CON, list(base))
    gen = cv.Gen(prog, v.CON, ren, base)
    want = list(roots.ROOTS[prop])
    keys = []
    for k in want:
        if k in v.CON: keys.append(k)
        else: r['missing'].append(k)
    if prop == 'C17':
        keys += [k for k in v.CON if v.CON[k].get('alias')]
        r['missing'] += [k for k in roots.ALIAS if k not in v.CON]
    allk = v.cone(gen, keys) if keys else []
    r['missing'] += [k for k in allk if k not in v.CON and not k.startswith('static:')]
    frame = [(k,) + gen.errors[k] for k in allk if k in gen.errors and gen.errors[k][0] == 'frame']
    unsup = [(k,) + gen.errors[k] for k in allk if k in gen.errors and gen.errors[k][0] != 'frame']
    r['functions'] = [k for k in allk if k in gen.text]
    r['assumed'] = [k for k in allk if v.CON.get(k, {}).get('assumed')]
    for k, kind, e in frame: r['failed'].append(dict(key=k, line=None, msg='frame: ' + e, text='', raw=e, code=None))
    for k, kind, e in unsup: r['errors'].append('%s: not extractable: %s' % (k, e))
    if not keys: return r
    r['dropped'] = []
    for rnd in range(8):
        txt, lm, mods = v.build(gen, allk)
        d = tempfile.mkdtemp(prefix='verif_'); path = d + '/%s.rs' % prop
        try:
            open(path, 'w').write(txt)
            r['lines'] = txt.count('\n')
            j, e, rc, t, cmd = v.run_verus(path, None, threads=8, timeout=max(60, min(600, left() - 200)))
            # obligations that only ran out of resources: once more, on their own, with more
            es = parse_errors(e, lm, path)
            slow = {x['key'] for x in es if 'Resource limit' in x['msg']}
            if slow and None not in slow and left() > 330 and not any(x['code'] for x in es) and not find(prop, min(30, FIND_S))[1]:
                open(path, 'w').write(re.sub(r'#\[verifier::rlimit\(\d+\)\]', '', txt))
                j2, e2, rc2, t2, _ = v.run_verus(path, sorted(mods[k] for k in slow), threads=8, timeout=max(60, min(300, left() - 220)), rlimit=600)
                v2 = j2.get('verification-results', {}); v1 = j.get('verification-results', {})
                log('  more resources for %s: %s' % (', '.join(sorted(slow)), 'accepted' if rc2 == 0 else 'not accepted'))
                if v2 and not v2.get('encountered-vir-error') and v1:
                    blocks = [b for b in re.split(r'\n(?=(?:error|warning|note)\b)', '\n' + e) if not any(x['raw'] == b.strip('\n') and x['key'] in slow for x in es)]
                    e = '\n'.join(blocks) + '\n' + e2; t += t2
                    if rc2 == 0 and v2.get('errors') == 0 and v2.get('verified', 0) >= len(slow) and not parse_errors(e, lm, path): rc = 0
                    v1['verified'] += v2.get('verified', 0); v1['errors'] = v1['errors'] - len(slow) + v2.get('errors', 0); v1['success'] = rc == 0
        finally: shutil.rmtree(d, ignore_errors=True)
        vr = j.get('verification-results', {})
        # failures of postconditions this property does not depend on: drop them from the contracts, prove the rest again
        if (rc == 0 and vr.get('success')) or not vr or vr.get('encountered-vir-error') or r['failed'] or left() < 400: break
        drop = set(); other = False
        tl = txt.split('\n')
        for x in parse_errors(e, lm, path):
            k = x['key']; en = post_of(x, v.CON.get(k), tl, path) if k and x['msg'] == 'postcondition not satisfied' else None
            if en is not None and roots.droppable(prop, k, en): drop.add((k, en))
            else: other = True
        if other or not drop: break
        for k, en in drop:
            c = v.CON[k]
            for f in ('ens', 'err'): c[f] = [z for z in c[f] if z != en]
            gen.text.pop(k, None); v.translate(gen, k)
            r['dropped'].append('%s: %s' % (k, en)); log('  %s does not depend on this failed postcondition, proving the rest without it: %s: %s' % (prop, k, en[:200]))
    r.update(verified=vr.get('verified', 0), nerrors=vr.get('errors'), time=t, cmd=' '.join(cmd))
    sm = j.get('times-ms', {}).get('smt', {})
    r['smt_ms'] = sm.get('total', 0)
    r['queries'] = sum(len(m.get('function-breakdown', [])) for m in sm.get('smt-run-module-times', []))
    r['trusted'] = trusted(txt)
    r['oblig'] = count_obligations(txt)
    if rc == 0 and vr.get('success') and not r['failed']:
        r['status'] = 'proved' if not unsup else 'partial'
        return r
    es = parse_errors(e, lm, path)
    # the generated text does not type-check (an annotation names something the source no longer has): nothing is proved or refuted
    if not vr or vr.get('encountered-vir-error') or any(x['code'] for x in es) or not (vr.get('verified') or vr.get('errors')):
        r['errors'] += ['%s: generated text rejected: %s %s' % (x['key'], x['msg'], x['text']) for x in es] or ['verifier gave no result: ' + e[-500:]]
        if not r['failed']: r['status'] = 'unreached'
        else: r['status'] = 'failed'
        return r
    # functions whose loops are no longer those their invariants were written for: a failed obligation there is about the invariants
    bad = sorted({x['key'] for x in es if x['key'] and align.misfit(base.get(v.CON.get(x['key'], {}).get('src', x['key'])), gen.skel.get(x['key']))})
    if bad and not r['failed'] and all(x['key'] in bad for x in es):
        r['errors'] += ['%s: its loops have changed and the loop annotations do not fit them: %s %s' % (x['key'], x['msg'], x['text']) for x in es]
        r['status'] = 'unreached'
        return r
    r['failed'] += es
    r['output'] = e[-20000:]
    r['status'] = 'failed'
    return r

def trusted(txt):
    out = []
    for m in re.finditer(r'#\[verifier::external_body\][^\n]*?fn (\w+)', txt):
        if len(re.findall(r'\b%s\b' % m.group(1), txt)) > 1: out.append(m.group(1))
    for m in re.finditer(r'\baxiom fn (\w+)', txt): out.append('axiom ' + m.group(1))
    for m in re.finditer(r'\bassume\(', txt): out.append('assume at line %d' % (txt.count('\n', 0, m.start()) + 1))
    return out

def count_obligations(txt):
    """proof obligations by kind in the generated text (what the verifier has to discharge)"""
    f = lambda p: len(re.findall(p, txt, re.M))
    return dict(functions=f(r'^\s*pub (?:proof )?fn '), asserts_from_source=f(r'\bcassert\('), loops=f(r'^\s*while '), index_checks=f(r'\bv(?:get|set)_'), lemmas=f(r'pub proof fn '))

PY = '/opt/vp/venv/bin/python'
def build_search(out, prop):
    if prop == 'C19': p = subprocess.run(['bash', ROOT + '/search/pybuild.sh', out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    else: p = subprocess.run(['bash', ROOT + '/search/build.sh', out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    return p.returncode == 0, p.stdout

def search(prop, secs, out, seed=None):
    """-> (found, cases, text)"""
    cmd = [out + '/search', 'run', prop, str(secs), str(SEED if seed is None else seed), '8', out + '/case']
    if prop == 'C19': cmd = [PY, ROOT + '/search/pysearch.py', 'run', out, str(secs), str(SEED if seed is None else seed), out + '/case']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 120)
    m = re.search(r'cases (\d+)', p.stdout)
    return p.returncode == 1 and os.path.exists(out + '/case'), int(m.group(1)) if m else 0, p.stdout

FIND = dict(dir=None, ok=True, out='', found=False, cases=0, secs=0, text='')
def find(prop, secs):
    """look for a failing input for up to secs seconds -> (the search program builds, found)"""
    F = FIND
    if F['dir'] is None:
        F['dir'] = tempfile.mkdtemp(prefix='verif_s_')
        F['ok'], F['out'] = build_search(F['dir'], prop)
    if F['ok'] and not F['found'] and secs > 0:
        F['found'], n, F['text'] = search(prop, secs, F['dir'], SEED + 1000 * F['secs'])
        F['cases'] += n; F['secs'] += secs
    return F['ok'], F['found']

def main():
    try: main_()
    finally:
        if FIND['dir']: shutil.rmtree(FIND['dir'], ignore_errors=True)

def main_():
    prop = sys.argv[1]
    ev = ROOT + '/evidence'; os.makedirs(ev, exist_ok=True)
    try: r = verify(prop)
    except Exception as e:
        r = dict(status='unreached', failed=[], functions=[], errors=['extraction failed: %r' % e, traceback.format_exc()[-1500:]], missing=[], trusted=[])
    log('%s: %s; functions %d, verified items %s, verifier errors %s, verifier time %.1f s' % (prop, r['status'], len(r['functions']), r.get('verified'), r.get('nerrors'), r.get('time', 0)))
    for x in r['failed'][:20]: log('  failed obligation: %s (source line %s): %s: %s' % (x['key'], x['line'], x['msg'], x['text']))
    for x in r['errors'][:20]: log('  ' + x[:600])
    if r['missing']: log('  not under contract (bounded check instead): ' + ', '.join(r['missing']))
    need = bool(r['failed']) or bool(r['missing']) or r['status'] in ('unreached', 'partial')
    found = False; cases = 0; stxt = ''; replay = None; secs = 0; replayed = ''
    if need:
        secs = FIND_S if (r['failed'] or r['status'] in ('unreached', 'partial')) else RESID_S
        ok, found = find(prop, 0 if FIND['found'] else int(max(10, min(secs, left() - 60)) - FIND['secs']))
        d, cases, secs, stxt = FIND['dir'], FIND['cases'], FIND['secs'], FIND['text']
        if not ok: r['errors'].append('search program does not build: ' + FIND['out'][-1500:]); log('  search program does not build'); log(FIND['out'][-1500:])
        if found:
            replay = ev + '/replay_%s.txt' % prop
            p = subprocess.run([PY, ROOT + '/search/pysearch.py', 'case', d, d + '/case'] if prop == 'C19' else [d + '/search', 'case', d + '/case'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
            replayed = p.stdout[:6000]
            with open(replay, 'w') as f:
                f.write(open(d + '/case').read())
                f.write('\n# replay: %s\n# replayed now: exit %d\n' % (('bash %s/search/pybuild.sh DIR && %s %s/search/pysearch.py case DIR %s' % (ROOT, PY, ROOT, replay)) if prop == 'C19' else 'bash %s/search/build.sh DIR && DIR/search case %s' % (ROOT, replay), p.returncode))
                for l in replayed.split('\n'): f.write('# ' + l + '\n')
                for x in r['failed']: f.write('# failed obligation: %s (source line %s): %s: %s\n' % (x['key'], x['line'], x['msg'], x['text']))
    viol = 0
    if found:
        log('  ' + stxt.strip()[:800])
        log('VIOLATION property=%s replay=%s' % (prop, replay)); viol = 1
    elif r['failed']:
        replay = ev + '/replay_%s.txt' % prop
        with open(replay, 'w') as f:
            f.write('property %s: the verifier does not accept these obligations of the current sources\n' % prop)
            for x in r['failed']: f.write('failed obligation: %s (source line %s): %s: %s\n' % (x['key'], x['line'], x['msg'], x['text']))
            f.write('no failing input found in %d cases (%d s)\n\nverifier output:\n%s\n' % (cases, secs, r.get('output', '')))
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)); viol = 1
    proved = r['status'] == 'proved' and not r['missing']
    cov = dict(obligations=(r.get('verified') or 0) + (r.get('nerrors') or 0), discharged=r.get('verified') or 0, checker_cmd=r.get('cmd', ''), trusted_base=r.get('trusted', []),
               backend='Verus 0.2026.09.13 with its bundled Z3', solver_ms=r.get('smt_ms', 0), verifier_s=round(r.get('time', 0), 1), verification_queries=r.get('queries', 0),
               functions_under_contract=r['functions'], functions_under_contract_n=len(r['functions']), obligation_kinds=r.get('oblig', {}),
               not_under_contract=r['missing'], not_extracted=r['errors'], failed=['%s:%s %s %s' % (x['key'], x['line'], x['msg'], x['text']) for x in r['failed']],
               assumed_contracts=r.get('assumed', []), postconditions_dropped=r.get('dropped', []))
    if need: cov['bounded'] = dict(what='randomised differential search of the whole property on the real library (ASan, UBSan) against %s; bounded, not a proof' % ('the integers of Python' if prop == 'C19' else 'boost::multiprecision::cpp_int'), cases=cases, seconds=secs, seed=SEED)
    level = 'proof' if r['functions'] and r['status'] in ('proved', 'failed', 'partial') else 'other'
    if level == 'other': cov['explanation'] = 'the sources could not be brought into the verifier on this run; only the bounded search below decided'
    if level == 'other' and need: cov['evaluations'] = cases
    e = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 1), violations=viol,
             assumptions=['64-bit little-endian target with two\'s complement integers and arithmetic right shift (as built here)',
                          'trusted primitives of tool/prims.py (trusted_base): meaning of C++ machine operations and of std::vector',
                          'memory allocation does not fail; recursion depth is not bounded by the proof',
                          'clang 18 AST and the extraction of tool/cxx2verus.py (DESIGN.md lists what it drops)',
                          'operand sizes up to the limits stated in the contracts (at least 2^28 limbs for the operators)'])
    json.dump(e, open(ev + '/%s.json' % prop, 'w'), indent=1)
    if not viol: log('OK property=%s%s' % (prop, '' if proved else ' (partly bounded, see evidence)'))
    sys.exit(viol)

try: main()
except SystemExit: raise
except BaseException as e:
    traceback.print_exc()
    sys.exit(3)
