"""Load the clang AST (JSON) of the library sources of /repo, keeping only declarations from /repo."""
import subprocess, json, re, os, concurrent.futures, glob

FRE = re.compile(rb'"file": "([^"]*)"')

class AstError(Exception):
    pass

CLIENT = os.path.realpath(os.path.dirname(os.path.abspath(__file__)) + '/../client')

def load_tu(src, repo):
    p = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-I' + repo + '/include', '-I' + repo + '/include/public',
                        '-Xclang', '-ast-dump=json', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise AstError(p.stderr.decode()[-4000:])
    data = p.stdout
    i = data.index(b'"inner": [\n') + len(b'"inner": [\n')
    parts = data[i:].split(b'\n    },\n')
    last = ''
    out = []
    rp = os.path.realpath(repo)
    for k, c in enumerate(parts):
        h = c[:c.find(b'"range"')] if b'"range"' in c else c
        mm = FRE.search(h)
        cur = mm.group(1).decode() if mm else last
        r = c.rfind(b'"file": "')
        if r >= 0:
            last = FRE.match(c, r).group(1).decode()
        if os.path.realpath(cur).startswith((rp + '/', CLIENT + '/')):
            t = c
            if k == len(parts) - 1:
                t = c[:c.rindex(b'\n    }\n')]
            j = json.loads(t + b'\n    }')
            j['_file'] = os.path.realpath(cur)
            out.append(j)
    return out

def pybind_flags():
    """include flags for Python.h and pybind11, from the interpreter the repository's own build uses"""
    for py in ('/opt/vp/venv/bin/python', 'python3'):
        try: p = subprocess.run([py, '-m', 'pybind11', '--includes'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        except OSError: continue
        if p.returncode == 0 and '-I' in p.stdout: return p.stdout.split()
    raise AstError('no pybind11 headers')

def version_dir(repo, tmp):
    """an overlay with version.h (generated by the build, not tracked) where the tree has none"""
    if os.path.exists(repo + '/include/public/bigintegercpp/version.h'): return []
    open(tmp + '/version.h', 'w').write('#define BIGINTEGERCPP_VERSION "0"\n')
    open(tmp + '/overlay.yaml', 'w').write(json.dumps({'version': 0, 'roots': [{'name': repo + '/include/public/bigintegercpp', 'type': 'directory', 'contents': [{'name': 'version.h', 'type': 'file', 'external-contents': tmp + '/version.h'}]}]}))
    return ['-ivfsoverlay', tmp + '/overlay.yaml']

def load_bindings(repo):
    """top-level declarations of the Python bindings that come from /repo (the dump is over 1 GB: read in pieces)"""
    import tempfile, shutil
    src = repo + '/bindings/python/python-bindings.cpp'
    rp = os.path.realpath(repo); out = []; last = ''
    tmp = tempfile.mkdtemp(prefix='verif_b_')
    try:
        p = subprocess.Popen(['clang++', '-std=c++17', '-fsyntax-only', '-w'] + version_dir(repo, tmp) + pybind_flags() + ['-Xclang', '-ast-dump=json', src], stdout=subprocess.PIPE, stderr=open(tmp + '/err', 'w'))
        SEP = b'\n    },\n'; buf = b''; started = False; n = 0
        def chunk(c, final):
            nonlocal last
            i = c.find(b'"range"'); h = c[:i] if i >= 0 else c
            fs = [x.decode() for x in FRE.findall(h)]
            cur = fs if fs else [last]
            r = c.rfind(b'"file": "')
            if r >= 0: last = FRE.match(c, r).group(1).decode()
            hit = [x for x in cur if os.path.realpath(x).startswith(rp + '/')]
            if hit:
                t = c[:c.rindex(b'\n    }\n')] if final else c
                j = json.loads(t + b'\n    }'); j['_file'] = os.path.realpath(hit[0]); out.append(j)
        while True:
            b = p.stdout.read(1 << 25)
            if not b: break
            buf += b
            if not started:
                i = buf.find(b'"inner": [\n')
                if i < 0: continue
                buf = buf[i + len(b'"inner": [\n'):]; started = True
            parts = buf.split(SEP); buf = parts.pop()
            for c in parts: chunk(c, False); n += 1
        if buf: chunk(buf, True)
        if p.wait(): raise AstError(open(tmp + '/err').read()[-3000:])
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return src, out

def sources(repo):
    return sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True))

def _job(a):
    return a[0], load_tu(*a)

def load_all(repo='/repo'):
    srcs = sources(repo)
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        c = ex.submit(_job, (CLIENT + '/client.cpp', repo))
        r = dict(ex.map(_job, [(s, repo) for s in srcs]))
        try: r.update([c.result()])
        except AstError: pass       # the public header no longer fits the client code: its functions are missing, not refuted
        return r
