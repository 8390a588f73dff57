"""pysearch.py run MODULE_DIR SECONDS SEED CASEFILE | pysearch.py case MODULE_DIR CASEFILE
Random differential test of the Python bindings against Python's own integers (bounded, not a proof)."""
import copy, math, sys, random, time, os, multiprocessing
sys.path.insert(0, sys.argv[2])
from pybiginteger import BigInteger as Z
def tdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def trem(a, b): r = abs(a) % abs(b); return -r if a < 0 else r
I32 = lambda n: -2**31 <= n < 2**31
OPS = {  # name: (expression on the operands, oracle, applicable)
 'lt': (lambda x, y: x < y, lambda a, b: a < b), 'le': (lambda x, y: x <= y, lambda a, b: a <= b), 'eq': (lambda x, y: x == y, lambda a, b: a == b), 'ne': (lambda x, y: x != y, lambda a, b: a != b),
 'gt': (lambda x, y: x > y, lambda a, b: a > b), 'ge': (lambda x, y: x >= y, lambda a, b: a >= b),
 'add': (lambda x, y: x + y, lambda a, b: a + b), 'sub': (lambda x, y: x - y, lambda a, b: a - b), 'mul': (lambda x, y: x * y, lambda a, b: a * b),
 'truediv': (lambda x, y: x / y, tdiv), 'floordiv': (lambda x, y: x // y, tdiv), 'mod': (lambda x, y: x % y, trem), 'divmod': (lambda x, y: divmod(x, y), lambda a, b: (tdiv(a, b), trem(a, b))),
 'and': (lambda x, y: x & y, lambda a, b: a & b), 'or': (lambda x, y: x | y, lambda a, b: a | b), 'xor': (lambda x, y: x ^ y, lambda a, b: a ^ b),
 'lshift': (lambda x, y: x << y, lambda a, b: a << b if b >= 0 else a >> -b), 'rshift': (lambda x, y: x >> y, lambda a, b: a >> b if b >= 0 else a << -b),
 'pow': (lambda x, y: x ** y, lambda a, b: a ** b),
}
def arr(x, u, be):
    try: return bytes(x.to_array(u, be))
    except Exception: return 'exception'
def arr2(x):
    def f(**k):
        try: return bytes(x.to_array(**k))
        except Exception: return 'exception'
    return f(), f(is_bigendian=True), f(is_unsigned=True)
def enc(n, u, be):
    if u and n < 0: return 'exception'
    k = max(1, (n.bit_length() + 7) // 8) if u else ((~n if n < 0 else n).bit_length() + 8) // 8
    return n.to_bytes(k, 'big' if be else 'little', signed=not u)
def flt(f, *a):
    try: return f(*a)
    except OverflowError: return 'overflow'
def near(x, y): return x == y or x != x and y != y or abs(x - y) <= 1e-9 * max(1, abs(y))
def mlog(n, *b): return math.log(n, *b) if n > 0 else -math.inf if n == 0 else math.nan
def misc(n):
    x = Z(n)
    for u in (False, True):
        for be in (False, True):
            if arr(x, u, be) != enc(n, u, be): return 'to_array of %d, unsigned %d, big endian %d: %r' % (n, u, be, arr(x, u, be))
    if arr2(x) != (enc(n, False, False), enc(n, False, True), enc(n, True, False)): return 'to_array of %d with default or named arguments: %r' % (n, arr2(x))
    for nm, g, w in (('bytes', bytes(x), enc(n, False, False)), ('float', flt(float, x), flt(float, n)), ('copy', int(copy.deepcopy(x)), n), ('hash', hash(x), hash(n)), ('sign', x.sign, (n > 0) - (n < 0)), ('is_even', x.is_even(), n % 2 == 0),
                     ('is_power_of_two', x.is_power_of_two(), n > 0 and n & (n - 1) == 0), ('bit length', x.get_bit_Length(), (~n if n < 0 else n).bit_length()), ('zero', int(Z.zero()), 0), ('one', int(Z.one()), 1), ('minus one', int(Z.minus_one()), -1),
                     ('neg', int(-x), -n), ('pos', int(+x), n), ('abs', int(abs(x)), abs(n)), ('invert', int(~x), ~n)):
        if g != w: return '%s of %d: %r, want %r' % (nm, n, g, w)
    for nm, g, w in (('log', Z.log(x), mlog(n)), ('log of an int', Z.log(n), mlog(n)), ('log10', Z.log10(x), mlog(n) / math.log(10)), ('log10 of an int', Z.log10(n), mlog(n) / math.log(10)), ('log base 3', Z.log(x, 3.0), mlog(n) / math.log(3)), ('log base 3 of an int', Z.log(n, 3.0), mlog(n) / math.log(3))):
        if not near(g, w): return '%s of %d: %r, want %r' % (nm, n, g, w)
def val(x): return tuple(map(int, x)) if isinstance(x, tuple) else x if isinstance(x, bool) else int(x)
def one(op, a, b):
    """None, or what is wrong"""
    if op == 'conv':
        g = (int(Z(a)), str(Z(a)), int.from_bytes(bytes(Z(a)), 'little', signed=True)); w = (a, str(a), a)
        return None if g == w else 'BigInteger(%d): int, str, bytes give %r' % (a, g)
    if op == 'misc': return misc(a)
    if op == 'buf':
        v, (i, j, k) = bytes(a), b; m = memoryview(bytearray(v))[i:j:k]; g, w = int(Z(m)), int.from_bytes(bytes(m), 'little', signed=True)
        return None if g == w else 'BigInteger(memoryview(%r)[%r:%r:%r]) is %d, want %d' % (v, i, j, k, g, w)
    if op == 'idx': return None if Z(a).__index__() == a else 'index(%d) is %d' % (a, Z(a).__index__())
    if op == 'pow3':
        a, e, m = b
        for x, y, z, n in ((Z(a), e, Z(m), 'BIB'), (Z(a), Z(e), m, 'BBI'), (Z(a), Z(e), Z(m), 'BBB')):
            try: r = int(pow(x, y, z))
            except Exception as ex: r = type(ex).__name__
            if e < 0 or m == 0: ok = isinstance(r, str)
            else: ok = r == trem(a ** e, m)
            if not ok: return 'pow(%d, %d, %d) %s gives %s' % (a, e, m, n, r)
        return None
    f, o = OPS[op]; res = {}
    for k, x, y in (('BB', Z(a), Z(b)), ('BI', Z(a), b), ('IB', a, Z(b))):
        try: res[k] = val(f(x, y))
        except Exception as ex: res[k] = 'exception'
    bad = op in ('truediv', 'floordiv', 'mod', 'divmod') and b == 0 or op in ('lshift', 'rshift', 'pow') and not I32(b) or op == 'pow' and b < 0
    w = 'exception' if bad else o(a, b)
    for k in res:
        if res[k] != w: return '%s of %d and %d, operands %s: %r, want %r' % (op, a, b, k, res[k], w)
def num(R, big=300):
    k = R.randrange(12)
    if k == 0: return R.randrange(-300, 300)
    if k == 1: return R.choice((1, -1)) * (2 ** R.randrange(big)) + R.randrange(-2, 3)
    if k == 2: n = R.randrange(1, big // 8); return R.choice((1, -1)) * int.from_bytes(bytes(R.choice((0, 0, 255, 255, 128, 127, 1, R.randrange(256))) for _ in range(n)), 'little') + R.randrange(-1, 2)
    if k == 3: return R.choice((1, -1)) * (R.choice((0x80000000, 0x7fffffff, 0xffffffff, 0x100000000, 2**63, 2**64, 0)) + R.randrange(-2, 3))
    if k == 4: n = R.randrange(1, big); return -(R.choice((255, 254, 128, 127, 1)) << n) + R.randrange(-3, 4)
    return R.choice((1, -1)) * R.getrandbits(R.randrange(1, R.choice((8, 33, 70, big))))
def case(R):
    op = R.choice(list(OPS) + ['conv', 'conv', 'idx', 'pow3', 'misc', 'misc', 'buf'])
    if op == 'buf': n = R.choice((0, 1, 2, 5, 40)); return op, [R.choice((0, 255, 128, 127, R.randrange(256))) for _ in range(n)], (R.choice((None, R.randrange(-n - 1, n + 2))), R.choice((None, R.randrange(-n - 1, n + 2))), R.choice((None, 1, 2, 3, -1, -2, -3)))
    if op in ('conv', 'idx', 'misc'): return op, num(R, R.choice((100, 600, 3000))), 0
    if op == 'pow3': return op, 0, (num(R, 100), R.randrange(-2, 60), num(R, 100) if R.randrange(9) else 0)
    a, b = num(R), num(R)
    if op in ('lshift', 'rshift'):
        b = R.choice((R.randrange(-200, 200), R.randrange(-70, 70), R.randrange(-3, 3)))
        if R.randrange(40) == 0: a, b = num(R, 60), R.choice((-1, 1)) * R.choice((32767, 32768, 65535, 65536, 40000, 70000))
        elif R.randrange(15) == 0: b = R.choice((-1, 1)) * (2 ** 31 + R.randrange(1, 5)) if R.randrange(2) else 2 ** 40
    if op == 'pow': a = num(R, 80); b = R.randrange(-3, 20); b = b if R.randrange(20) else 2 ** 31 + R.randrange(9)
    if R.randrange(12) == 0: b = R.choice((a, -a, 0)) if op not in ('lshift', 'rshift', 'pow') else 0
    return op, a, b
def work(seed, secs, path, n):
    R = random.Random(seed); t = time.time()
    while time.time() - t < secs and not os.path.exists(path):
        for _ in range(200):
            c = case(R); open('%s.%d' % (path, seed), 'w').write(repr(c))
            n.value += 1
            w = one(*c)
            if w:
                open('%s.t%d' % (path, seed), 'w').write(repr(c)); os.rename('%s.t%d' % (path, seed), path); return
def main():
    if sys.argv[1] == 'case':
        c = eval([l for l in open(sys.argv[3]) if not l.startswith('#')][0], {'__builtins__': {}}); print('case', str(c)[:2000]); w = one(*c); print(w[:3000] if w else 'no difference'); sys.exit(1 if w else 0)
    secs, seed, path = int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    ps = []
    for i in range(8):
        n = multiprocessing.Value('q', 0); p = multiprocessing.Process(target=work, args=(seed * 1000 + i, secs, path, n)); p.start(); ps.append((p, n, seed * 1000 + i))
    for p, n, s in ps:
        p.join(secs + 30)
        if p.is_alive(): p.kill(); p.join()
        if p.exitcode != 0 and not os.path.exists(path): os.rename('%s.%d' % (path, s), path)    # crash or hang: its last case
        try: os.remove('%s.%d' % (path, s))
        except OSError: pass
    print('cases %d' % sum(n.value for _, n, _ in ps))
    if os.path.exists(path): print(open(path).read()[:1000]); sys.exit(1)
main()
