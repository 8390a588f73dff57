"""Mechanical translation of the C++ of /repo (clang AST) into Verus exec functions.

One C++ function -> one Verus function; a C++ function without a contract is inlined at its call sites.
See DESIGN.md for what the translation keeps and drops."""
import re, os
import astload

class Unsupported(Exception):
    """construct outside the translated subset"""

class FrameFail(Exception):
    """the source writes through something its contract says is read-only, or throws where its contract says it does not"""

INT = {'i32': (32, True), 'i64': (64, True), 'u32': (32, False), 'u64': (64, False), 'u8': (8, False), 'i8': (8, True), 'u16': (16, False), 'i16': (16, True)}
BASE = {'int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'long long': 'i64', 'unsigned long': 'u64', 'unsigned long long': 'u64',
        'unsigned char': 'u8', 'char': 'i8', 'signed char': 'i8', 'bool': 'bool', 'double': 'f64', 'float': 'f32', 'void': 'void',
        'int32_t': 'i32', 'uint32_t': 'u32', 'int64_t': 'i64', 'uint64_t': 'u64', 'size_t': 'u64', 'std::size_t': 'u64', 'byte': 'u8', 'size_type': 'u64',
        'uint_array': 'VecU32', 'byte_array': 'VecU8', 'std::string': 'Str', 'string': 'Str',
        'std::vector<unsigned int>': 'VecU32', 'vector<unsigned int>': 'VecU32', 'std::vector<uint32_t>': 'VecU32',
        'std::vector<unsigned char>': 'VecU8', 'vector<unsigned char>': 'VecU8',
        'std::basic_string<char>': 'Str', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>': 'Str', 'basic_string<char>': 'Str', 'std::__cxx11::basic_string<char>': 'Str',
        'DoubleULong': 'DoubleULong', 'NumericsHelpers::DoubleULong': 'DoubleULong',
        'py::int_': 'PyInt', 'pybind11::int_': 'PyInt', 'int_': 'PyInt', 'py::str': 'PyStr', 'pybind11::str': 'PyStr', 'py::handle': 'PyInt', 'pybind11::handle': 'PyInt', 'handle': 'PyInt', 'tuple': 'PyTup', 'py::tuple': 'PyTup', 'pybind11::tuple': 'PyTup',
        'object': 'PyInt', 'py::object': 'PyInt', 'pybind11::object': 'PyInt', 'py::bytes': 'PyBytes', 'pybind11::bytes': 'PyBytes', 'bytes': 'PyBytes', 'py::float_': 'PyFlt', 'pybind11::float_': 'PyFlt', 'float_': 'PyFlt',
        'py::buffer': 'PyBuf', 'pybind11::buffer': 'PyBuf', 'buffer': 'PyBuf', 'py::buffer_info': 'PyInfo', 'pybind11::buffer_info': 'PyInfo', 'buffer_info': 'PyInfo', 'std::vector<long>': 'VecI64', 'vector<long>': 'VecI64',
        'std::vector<ssize_t>': 'VecI64', 'ssize_t': 'i64', 'py::ssize_t': 'i64', 'pybind11::ssize_t': 'i64',
        'GetBytesMode': 'u32', 'BigInteger::GetBytesMode': 'u32', 'short': 'i16', 'unsigned short': 'u16'}
PYP = ('PyObject *', '_object *', 'struct _object *', 'PyLongObject *', '_longobject *', 'struct _longobject *')   # a Python integer object
STRUCTS = {'BigInteger', 'BitsBuffer', 'FastReducer'}
ELEM = {'VecU32': 'u32', 'VecU8': 'u8', 'Str': 'i8', 'VecI8': 'i8', 'VecI64': 'i64'}
RT = {'VecU32': 'Vec<u32>', 'VecU8': 'Vec<u8>', 'Str': 'Vec<i8>', 'VecI8': 'Vec<i8>', 'f64': 'F64', 'f32': 'F32', 'PyStr': 'Vec<i8>', 'VecI64': 'Vec<i64>', 'PyBytes': 'Vec<u8>'}
SCALAR = ('bool', 'f64', 'PyInt', 'PyBuf')
CODE = {'i32': 'i', 'u32': 'u', 'i64': 'l', 'u64': 'L', 'bool': 'b', 'f64': 'd', 'f32': 'f', 'VecU32': 'v', 'VecU8': 'y', 'Str': 's', 'i8': 'c', 'u8': 'C',
        'PyInt': 'J', 'PyBuf': 'Y', 'BigInteger': 'B', 'BitsBuffer': 'F', 'FastReducer': 'R', 'ptr:u32': 'p', 'ptr:i32': 'q', 'ptr:i8': 'k', 'ptr:u8': 'K'}
OPN = {'+': 'plus', '-': 'minus', '*': 'mul', '/': 'div', '%': 'rem', '&': 'and', '|': 'or', '^': 'xor', '~': 'not', '<<': 'shl', '>>': 'shr', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge',
       '==': 'eq', '!=': 'ne', '=': 'assign', '++': 'inc', '--': 'dec', '[]': 'index', '()': 'call', '!': 'lnot'}
RUSTKW = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try old forall exists choose proof exec spec tracked ghost requires ensures invariant decreases assert assume open closed res B arb'.split())

def rt(t):
    return RT.get(t, t)

def rname_op(n):
    if n.startswith('operator'):
        r = n[8:].strip()
        if r in OPN: return 'op_' + OPN[r]
        if r.endswith('=') and r[:-1] in OPN: return 'op_' + OPN[r[:-1]] + '_assign'
        return 'conv_' + re.sub(r'\W+', '_', r)
    return n

def cty(s):
    """C++ type spelling -> (code, isref, isconst). Pointers/iterators -> 'ptr:elem'."""
    s = s.strip()
    isref = False
    while s.endswith('&'):
        isref = True; s = s[:-1].strip()
    isconst = False
    if s in PYP: return 'PyInt', isref, False
    if s.endswith('*') or re.search(r'\*\s*const$', s):
        s = re.sub(r'\*\s*(const)?$', '', s).strip()
        c = s.startswith('const ') or s.endswith(' const')
        e, _, _ = cty(s)
        return 'ptr:' + e, isref, c
    while True:
        if s.startswith('const '): s = s[6:].strip(); isconst = True
        elif s.startswith('volatile '): s = s[9:].strip()
        elif s.endswith(' const'): s = s[:-6].strip(); isconst = True
        elif s.startswith('enum '): s = s[5:]
        elif s.startswith('struct '): s = s[7:]
        elif s.startswith('class '): s = s[6:]
        else: break
    if '__normal_iterator<' in s:
        m = re.search(r'__normal_iterator<(const )?([\w ]+?) ?\*', s)
        if m: return 'ptr:' + cty(m.group(2))[0], isref, bool(m.group(1))
    if s in BASE: return BASE[s], isref, isconst
    if s in STRUCTS: return s, isref, isconst
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m: return 'arr:' + cty(m.group(1))[0], isref, isconst
    return '?' + s, isref, isconst

def nty(n):
    t = n.get('type', {})
    for k in ('qualType', 'desugaredQualType'):
        if k in t:
            r = cty(t[k])
            if not r[0].startswith('?') and not r[0].startswith('ptr:?'): return r[0]
    return cty(t.get('desugaredQualType', t.get('qualType', '?')))[0]

def nref(n):
    t = n.get('type', {})
    return t.get('qualType', '').strip().endswith('&')

class Fn:
    pass

class Program:
    def __init__(self, repo='/repo', bindings=False):
        self.repo = os.path.realpath(repo)
        tus = astload.load_all(repo)
        if bindings:
            tu, ds = astload.load_bindings(repo); tus[tu] = [d for d in ds if not (d.get('kind') == 'NamespaceDecl' and d.get('name') in ('pybind11', 'std'))]
        self.fns = {}        # key -> Fn
        self.byid = {}       # (tu, id) -> decl info
        self.records = {}    # struct -> [(field, type, initnode)]
        self.statics = {}    # qualified static const object -> init node
        for tu, decls in tus.items():
            self.tu = tu
            for d in decls: self.index(d, tu, '')
            if bindings and tu.endswith('python-bindings.cpp'):
                for d in decls: self.defs(d, tu)

    def defs(self, n, tu):
        """the lambdas a pybind11 module registers: .def("name", lambda) -> function py:name(parameter codes)"""
        def find(n, ks):
            if n.get('kind') in ks: return n
            for x in n.get('inner', []):
                if x and n.get('kind') != 'LambdaExpr':
                    r = find(x, ks)
                    if r: return r
        if n.get('kind') == 'CXXMemberCallExpr' and n['inner'][0].get('name', '').startswith('def'):
            self.defs(n['inner'][0], tu)
            a = n['inner'][1:]
            l = None; nm = None
            if a and find(a[0], ('LambdaExpr',)): l = find(a[0], ('LambdaExpr',)); nm = 'init'
            elif len(a) > 1 and find(a[0], ('StringLiteral',)):
                import json
                nm = json.loads(find(a[0], ('StringLiteral',))['value']); l = find(a[1], ('LambdaExpr',))
            if l:
                self.lambda_fn('py:' + nm, l, tu)
                dfl = []        # py::arg("name") = value
                for x in a[2:]:
                    o = find(x, ('CXXOperatorCallExpr',))
                    q = o and find(o['inner'][1], ('StringLiteral',)) if o and o.get('type', {}).get('qualType') == 'arg_v' else None
                    if q: dfl.append((q['value'].strip('"'), o['inner'][2]))
                if dfl: self.lambda_fn('py:' + nm, l, tu, dfl)
            elif nm and len(a) > 1: self.member_fn('py:' + nm, find(a[1], ('DeclRefExpr',)), tu)
            return
        for x in n.get('inner', []):
            if x: self.defs(x, tu)
    def member_fn(self, nm, r, tu):
        """.def("name", &Class::function): the function that calls it with the arguments it was given"""
        d = self.byid.get((tu, (r or {}).get('referencedDecl', {}).get('id')))
        if d is None or '_params' not in d: return
        st = d.get('_isstatic') or d['kind'] == 'FunctionDecl'
        const = bool(re.search(r'\)\s*const\b', d['type']['qualType'])); rg = r.get('range', {})
        ps = [] if st else [dict(id='self:' + nm, kind='ParmVarDecl', name='self', type={'qualType': ('const ' if const else '') + d['_scope'] + ' &'}, range=rg)]
        for i, x in enumerate(d['_params']): ps.append(dict(id='arg%d:%s' % (i, nm), kind='ParmVarDecl', name=x.get('name', 'a%d' % i), type=x['type'], range=rg))
        def ref(x): return dict(kind='DeclRefExpr', type={'qualType': x['type']['qualType'].rstrip('&').strip()}, valueCategory='lvalue', referencedDecl=dict(id=x['id'], kind='ParmVarDecl', name=x['name']), range=rg)
        rts = d['type']['qualType'].split('(')[0].strip()
        if st: c = dict(kind='CallExpr', inner=[dict(r)] + [ref(x) for x in ps])
        else: c = dict(kind='CXXMemberCallExpr', inner=[dict(kind='MemberExpr', name=d['name'], isArrow=False, referencedMemberDecl=d['id'], type={'qualType': '<bound member function type>'}, inner=[ref(ps[0])], range=rg)] + [ref(x) for x in ps[1:]])
        c.update(type={'qualType': rts}, valueCategory='prvalue', range=rg)
        m = dict(kind='CXXMethodDecl', type={'qualType': '%s (%s)' % (rts, ', '.join(x['type']['qualType'] for x in ps))}, range=rg, inner=ps + [dict(kind='CompoundStmt', range=rg, inner=[dict(kind='ReturnStmt', range=rg, inner=[c])])])
        self.lambda_fn(nm, dict(inner=[dict(inner=[dict(m, name='operator()')])]), tu)
    def lambda_fn(self, nm, l, tu, dfl=()):
        m = [x for x in l['inner'][0].get('inner', []) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()']
        if not m: return
        m = m[0]
        ps = [x for x in m.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        body = [x for x in m.get('inner', []) if x.get('kind') == 'CompoundStmt']
        if not body: return
        for x in ps: self.byid[(tu, x['id'])] = x; x['_tu'] = tu
        b = body[0]
        if dfl:        # called without its defaulted arguments: they become locals that start with the default
            if len(dfl) >= len(ps): return
            loc = [dict(x, kind='VarDecl', init='c', inner=[e]) for x, (_, e) in zip(ps[-len(dfl):], dfl)]
            b = dict(b, inner=[dict(kind='DeclStmt', range=b['range'], inner=[v]) for v in loc] + b.get('inner', [])); ps = ps[:-len(dfl)]
            for v in loc: self.byid[(tu, v['id'])] = v
        codes = [CODE.get(nty(x), '?' + nty(x)) for x in ps]
        key = '%s(%s%s)' % (nm, ','.join(codes), '|' + ','.join(x for x, _ in dfl) if dfl else '')
        if key in self.fns: return         # pybind11 tries the overload registered first
        f = Fn(); f.key = key; f.d = m; f.body = b; f.params = ps; f.tu = tu; f.cls = ''; f.name = nm; f.kind = 'FunctionDecl'; f.static = True; f.const = False; f.inits = []
        f.file = self.repo + '/bindings/python/python-bindings.cpp'; f.retref = False
        f.ret = cty(m['type']['qualType'].split('(')[0].strip())[0]
        f.rust = re.sub(r'\W', '_', 'py_%s__%s%s' % (nm[3:], '_'.join(codes), '_dfl' if dfl else ''))
        self.fns[key] = f

    def index(self, d, tu, scope):
        k = d.get('kind')
        i = d.get('id')
        if 'id' in d: self.byid[(tu, i)] = d
        d['_tu'] = tu
        if k in ('CXXRecordDecl',):
            nm = d.get('name', '')
            fields = []
            for x in d.get('inner', []):
                x.setdefault('_file', d.get('_file'))
                self.index(x, tu, nm)
                if x.get('kind') == 'FieldDecl':
                    fields.append((x.get('name', ''), nty(x), (x.get('inner') or [None])[0] if x.get('hasInClassInitializer') else None))
            if fields and nm and nm not in self.records: self.records[nm] = fields
            return
        if k in ('FriendDecl', 'NamespaceDecl', 'LinkageSpecDecl'):
            for x in d.get('inner', []):
                x.setdefault('_file', d.get('_file'))
                self.index(x, tu, '' if k == 'FriendDecl' else scope)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            sc = scope
            if k != 'FunctionDecl' and not sc:
                # out-of-class definition: find the previous declaration
                p = self.byid.get((tu, d.get('previousDecl')))
                sc = p['_scope'] if p else (self.byid.get((tu, d.get('parentDeclContextId')), {}).get('name', ''))
            d['_scope'] = sc
            params = [x for x in d.get('inner', []) if x.get('kind') == 'ParmVarDecl']
            for x in params: self.byid[(tu, x['id'])] = x; x['_tu'] = tu
            codes = []
            for x in params:
                t = nty(x)
                codes.append('e' if 'GetBytesMode' in x['type']['qualType'] else CODE.get(t, '?' + t))
            nm = d['name']
            key = (sc + '::' if sc else '') + nm + '(' + ','.join(codes) + ')'
            if nm in ('operator++', 'operator--', 'operator+', 'operator-') and sc and not codes: pass
            d['_key'] = key
            p = self.byid.get((tu, d.get('previousDecl')))
            d['_isstatic'] = d.get('storageClass') == 'static' or (p is not None and p.get('_isstatic', False))
            d['_params'] = params
            if p is not None:  # default arguments live on the earlier declaration
                for a, b in zip(params, p.get('_params', [])):
                    if 'init' in b and 'init' not in a: a['_def'] = b
            body = [x for x in d.get('inner', []) if x.get('kind') == 'CompoundStmt']
            if body and not d.get('isImplicit') and key not in self.fns:
                f = Fn(); f.key = key; f.d = d; f.body = body[0]; f.params = params; f.tu = tu; f.cls = sc; f.name = nm
                f.kind = k; f.static = d['_isstatic'] or k == 'FunctionDecl'
                f.const = bool(re.search(r'\)\s*const\b', d['type']['qualType']))
                f.inits = [x for x in d.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
                f.file = d.get('_file')
                rts = d['type']['qualType'].split('(')[0].strip()
                if k == 'CXXConversionDecl': rts = d['type']['qualType'].split('(')[0].strip()
                f.ret, f.retref, _ = cty(rts)
                if f.static: f.retref = False   # a reference to a parameter: handed out as a copy of the value
                if f.ret.startswith('?'): f.ret = self.guess_ret(d)
                f.rust = (sc + '__' if sc else '') + rname_op(nm) + '__' + '_'.join(c for c in codes)
                f.rust = re.sub(r'\W', '_', f.rust)
                self.fns[key] = f
            return
        if k == 'VarDecl':
            d['_scope'] = scope
            p = self.byid.get((tu, d.get('previousDecl')))
            sc = scope or (p and p.get('_scope')) or ''
            q = (sc + '::' if sc else '') + d['name']
            d['_q'] = q
            if d.get('inner') and nty(d) in STRUCTS: self.statics.setdefault(q, d)
            return
        if k == 'EnumDecl':
            v = 0
            for x in d.get('inner', []):
                if x.get('kind') == 'EnumConstantDecl':
                    c = self.ceval(x['inner'][0], tu) if x.get('inner') else None
                    v = c if c is not None else v
                    x['_value'] = v; self.byid[(tu, x['id'])] = x; v += 1
            return
        for x in d.get('inner', []) or []:
            if x.get('kind', '').endswith('Decl'): self.index(x, tu, scope)

    def guess_ret(self, d):
        q = d['type']['qualType'].split('(')[0].strip()
        return cty(q)[0]

    # ---- integer constant evaluation
    def ceval(self, n, tu, depth=0):
        k = n.get('kind')
        if depth > 12: return None
        t = nty(n)
        def norm(v):
            if v is None: return None
            if t in INT:
                w, s = INT[t]; v &= (1 << w) - 1
                if s and v >> (w - 1): v -= 1 << w
                return v
            if t == 'bool': return 1 if v else 0
            return None
        if k in ('IntegerLiteral',): return norm(int(n['value']))
        if k == 'CharacterLiteral': return norm(int(n['value']))
        if k == 'CXXBoolLiteralExpr': return 1 if n.get('value') in (True, 'true') else 0
        if k == 'ConstantExpr' and 'value' in n:
            try: return norm(int(n['value']))
            except ValueError: pass
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr'):
            if k.endswith('CastExpr') and n.get('castKind') not in ('IntegralCast', 'NoOp', 'LValueToRValue', 'IntegralToBoolean'): return None
            if t not in INT and t != 'bool': return None
            ins = [x for x in n.get('inner', []) if not x.get('kind', '').endswith('Decl')]
            if not ins: return None
            v = self.ceval(ins[-1], tu, depth + 1)
            if n.get('castKind') == 'IntegralToBoolean' and v is not None: v = 1 if v else 0
            return norm(v)
        if k == 'UnaryOperator':
            v = self.ceval(n['inner'][0], tu, depth + 1)
            if v is None: return None
            o = n['opcode']
            if o == '-':
                r = -v
                if t in INT and INT[t][1] and r == 1 << (INT[t][0] - 1): return None
                return norm(r)
            if o == '+': return norm(v)
            if o == '~': return norm(~v)
            if o == '!': return 0 if v else 1
            return None
        if k == 'BinaryOperator':
            o = n['opcode']
            if o == '=' or o == ',': return None
            a = self.ceval(n['inner'][0], tu, depth + 1); b = self.ceval(n['inner'][1], tu, depth + 1)
            if a is None or b is None: return None
            try:
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                     '/': lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), '%': lambda: (abs(a) % abs(b)) * (1 if a >= 0 else -1), '<<': lambda: a << b if 0 <= b < 64 and a >= 0 else None, '>>': lambda: a >> b if 0 <= b < 64 else None,
                     '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b)}[o]()
            except (KeyError, ZeroDivisionError):
                return None
            if r is None: return None
            if t in INT and INT[t][1] and not -(1 << (INT[t][0] - 1)) <= r < 1 << (INT[t][0] - 1): return None
            return norm(r)
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            a = cty(n.get('argType', {}).get('qualType', ''))[0] if 'argType' in n else None
            return {'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2}.get(a)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['kind'] == 'EnumConstantDecl':
                d = self.byid.get((tu, rd['id']))
                return d.get('_value') if d else None
            if rd['kind'] == 'VarDecl':
                d = self.byid.get((tu, rd['id']))
                if d and d.get('inner') and (d.get('constexpr') or d['type']['qualType'].startswith('const ')) and (t in INT or t == 'bool'):
                    return norm(self.ceval(d['inner'][-1], tu, depth + 1))
            return None
        if k == 'CallExpr':
            c = n['inner'][0]
            while c.get('kind') == 'ImplicitCastExpr': c = c['inner'][0]
            nm = c.get('referencedDecl', {}).get('name')
            if len(n['inner']) == 1 and nm in ('max', 'min', 'lowest') and t in INT:
                w, s = INT[t]
                if nm == 'max': return (1 << (w - (1 if s else 0))) - 1
                return -(1 << (w - 1)) if s else 0
            return None
        return None

def lit(v, t):
    if t == 'bool': return 'true' if v else 'false'
    if v < 0: return '(%d%s)' % (v, t)
    return '%d%s' % (v, t)

class V:
    """translated expression: s = exec text, t = type, sp = spec (mathematical) text or None, ptr: (base place, off text)"""
    __slots__ = ('s', 't', 'sp', 'base', 'off', 'place', 'owned', 'lit', 'flag')
    def __init__(self, s, t, sp=None, base=None, off=None, place=None, owned=False, litv=None, flag=None):
        self.s = s; self.t = t; self.sp = sp; self.base = base; self.off = off; self.place = place; self.owned = owned; self.lit = litv; self.flag = flag

class Place:
    """an lvalue: root variable + path; kind: 'var' or 'elem' (container place + index)"""
    __slots__ = ('s', 'root', 't', 'mut', 'idx', 'cont', 'ptr', 'own')
    def __init__(self, s, root, t, mut, idx=None, cont=None, ptr=None, own=False):
        self.s = s; self.root = root; self.t = t; self.mut = mut; self.idx = idx; self.cont = cont; self.ptr = ptr; self.own = own

PTRT = ('VecU32', 'VecU8', 'Str', 'VecI8')
def vec_of(e):
    return {'u32': 'VecU32', 'u8': 'VecU8', 'i8': 'Str'}[e]

class Tr:
    """translates one function"""
    def __init__(self, prog, contracts, f, con, gen):
        self.p = prog; self.C = contracts; self.f = f; self.con = con; self.gen = gen
        self.tu = f.tu
        self.out = []
        self.vars = {}        # decl id -> dict(place=Place or ptr info)
        self.used = {}
        self.tmp = 0
        self.loopno = self.lno = 0
        self.perm = None; self.lfeat = []
        self.effects = 0
        self.mods = [dict()]  # stack of {place: 'elem'|'whole'}
        self.loops = []
        self.callcount = {}
        self.line = 0
        self.inl = []
        self.retstack = []
        self.locals = []
        self.casts = set()
        self.rename = gen.renames.get(f.key, {}) if gen else {}
        self.skel = []
        self.uses = set()
        self.break_ctx = []

    # -------- helpers
    def w(self, s): self.out.append((s, self.line))
    def t(self):
        self.tmp += 1
        return 't%d_' % self.tmp
    def annot(self):
        """annotations apply here: not inside an inlined function, unless it is a new helper (not in the baseline)"""
        return not self.inl or all(x['new'] for x in self.inl)
    def vname(self, n):
        """name of a C++ variable as the annotations know it"""
        return self.rename.get(((self.inl[-1]['f'] if self.inl else self.f).key, n), n)
    def fresh(self, n):
        r = self.rename.get(((self.inl[-1]['f'] if self.inl else self.f).key, n))
        if r is not None: n = r
        n = re.sub(r'\W', '_', n)
        if n in RUSTKW: n += '_'
        if self.inl and r is None: n = n + '__' + str(self.inl[-1]['n'])
        return n
    def bug(self, n, m):
        raise Unsupported('%s: %s at %s line %s' % (self.f.key, m, os.path.basename(self.f.file or '?'), self.line))
    def sub(self, fn):
        """run fn with a fresh output buffer, return (result, lines)"""
        o = self.out; self.out = []
        try:
            r = fn()
            return r, self.out
        finally:
            self.out = o
    def note(self, place, how):
        root = place.root
        for m in self.mods:
            k = place.s
            if how == 'whole' or k not in m: m[k] = how if m.get(k) != 'whole' else 'whole'
    def setline(self, n):
        for k in ('range', 'loc'):
            b = n.get(k, {})
            if k == 'range': b = b.get('begin', {})
            b = b.get('expansionLoc', b)
            if 'line' in b: self.line = b['line']; return

    # -------- places
    def var(self, rd):
        v = self.vars.get(rd['id'])
        if v is None: self.bug(rd, 'unknown variable ' + rd.get('name', '?'))
        return v
    def place(self, n):
        k = n.get('kind')
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr'): return self.place(n['inner'][0])
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'): return self.place(n['inner'][0])
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['kind'] in ('VarDecl', 'ParmVarDecl') and rd['id'] in self.vars:
                v = self.vars[rd['id']]
                if isinstance(v, Place): return v
                self.bug(n, 'not a place: ' + rd['name'])
            d = self.p.byid.get((self.tu, rd['id']))
            if d is not None and d.get('_q') in self.p.statics:
                t = self.t(); self.w('let mut %s: BigInteger = %s();' % (t, self.gen.static_fn(d['_q'])))
                self.gen.note_call(self, 'static:' + d['_q'])
                return Place(t, t, 'BigInteger', True, own=True)
            self.bug(n, 'unknown name ' + rd.get('name', '?'))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            i = n['inner'][0]
            if self.strip(i).get('kind') == 'CXXThisExpr': return self.vars['this']
            q = self.dbl_pun(i)
            if q is not None:
                t = self.t(); self.w('let mut %s: i64 = f64_bits_i64(%s);' % (t, q)); return Place(t, t, 'i64', True, own=True)
            v = self.ex(i)
            if v.flag is not None:   # nullable single object pointer
                self.w('assert(%s); // non-null pointer' % v.flag)
                return v.place
            return Place('*', v.base.root, v.t[4:], v.base.mut, idx='0i64', cont=v.base, ptr=v.off)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.ex(n); return self.place(n['inner'][0])
        if k == 'MemberExpr':
            b = n['inner'][0]
            bp = self.vars['this'] if self.strip(b).get('kind') == 'CXXThisExpr' else None
            if bp is None:
                if n.get('isArrow'): self.bug(n, 'arrow on a general pointer')
                bp = self.placeor(b)
            nm = n.get('name', '')
            if nm == '': return bp                 # anonymous union member
            if bp.t == 'DoubleULong':
                return Place(bp.s + '.uu', bp.root, nty(n), bp.mut)
            return Place(bp.s + '.' + nm, bp.root, nty(n), bp.mut, own=bp.own)
        if k == 'CXXOperatorCallExpr':
            o = self.opname(n)
            a = n['inner'][1:]
            if o == '[]':
                c = self.placeor(a[0]); i = self.ex(a[1])
                self.need_elem(c)
                return Place('[]', c.root, ELEM[c.t], c.mut, idx=i, cont=c)
            if o == '*' and len(a) == 1:
                v = self.ex(a[0])
                return Place('*', v.base.root, v.t[4:], v.base.mut, idx='0i64', cont=v.base, ptr=v.off)
            f = self.callee(n)
            if f is not None and f.retref:
                r = self.call(f, n, a[0] if f.kind != 'FunctionDecl' else None, a[1:] if f.kind != 'FunctionDecl' else a)
                if r is not None and r.place is not None: return r.place
            if o in ('=', '+=', '-='):
                r = self.ex(n)
                if r.place is not None: return r.place
        if k == 'ArraySubscriptExpr':
            v = self.ex(n['inner'][0]); i = self.ex(n['inner'][1])
            if v.t.startswith('tbl:'): return Place('[]', '', v.t[4:], False, idx=i, cont=v, ptr='tbl')
            if v.base is None: self.bug(n, 'subscript of unknown pointer')
            return Place('*', v.base.root, v.t[4:], v.base.mut, idx=self.as_i64(i), cont=v.base, ptr=v.off)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (n['opcode'] == '=' or k == 'CompoundAssignOperator'):
            self.ex(n); return self.place(n['inner'][0])
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            v = self.ex(n)
            if v.place is not None: return v.place
        if k == 'MaterializeTemporaryExpr':
            return self.placeor(n['inner'][0])
        if k == 'ConditionalOperator' and nty(n) in STRUCTS:
            v = self.ex(n); t = self.t(); self.w('let mut %s: %s = %s;' % (t, rt(v.t), v.s)); return Place(t, t, v.t, True, own=True)
        self.bug(n, 'unsupported lvalue ' + str(k))
    def need_elem(self, c):
        if c.t not in ELEM: self.bug({}, 'indexing a ' + c.t)
    def placeor(self, n):
        """place of n, materialising a prvalue into a temporary"""
        m = self.strip(n)
        if m.get('valueCategory') in ('lvalue', 'xvalue') or m.get('kind') in ('DeclRefExpr', 'MemberExpr'):
            return self.place(m)
        v = self.ex(n)
        if v.place is not None: return v.place
        t = self.t(); self.w('let mut %s: %s = %s;' % (t, rt(v.t), v.s))
        return Place(t, t, v.t, True, own=True)
    def strip(self, n):
        while True:
            k = n.get('kind')
            if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or (k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase')) or (k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr') and n.get('castKind') == 'NoOp' and len(n.get('inner', [])) == 1 and nty(n) not in INT):
                n = n['inner'][0]
            else: return n
    def dbl_pun(self, n):
        """*((long*) &value) with a double value"""
        m = self.strip(n)
        if m.get('kind') in ('CStyleCastExpr', 'CXXReinterpretCastExpr') and m.get('castKind') == 'BitCast':
            a = self.strip(m['inner'][0])
            if a.get('kind') == 'UnaryOperator' and a['opcode'] == '&' and nty(a['inner'][0]) == 'f64' and nty(m) in ('ptr:i64', 'ptr:u64'):
                p = self.place(a['inner'][0])
                return p.s
        return None

    # -------- reading / writing places
    def read(self, p):
        if p.ptr == 'tbl':
            return V('%s(%s)' % (p.cont.s, self.as_u64(p.idx)), p.t)
        if p.cont is not None and p.ptr is not None:
            return V('pld_%s(&%s, %s, %s)' % (ELEM[p.cont.t], p.cont.s, p.ptr, p.idx), p.t)
        if p.cont is not None:
            fn = 'sget' if p.cont.t == 'Str' else 'vget_' + ELEM[p.cont.t]
            return V('%s(&%s, %s)' % (fn, p.cont.s, self.as_u64(p.idx)), p.t)
        sp = None
        if p.t in INT: sp = p.s
        if p.t == 'bool': sp = p.s
        return V(p.s, p.t, sp=sp, place=p)
    def wmut(self, p, n=None):
        if not p.mut:
            raise FrameFail('%s writes %s, which its contract gives as read-only (line %s)' % (self.f.key, p.root, self.line))
    def hoist(self, s):
        if '&' not in str(s): return s
        t = self.t(); self.w('let %s = %s;' % (t, s)); return t
    def write(self, p, s):
        self.wmut(p)
        self.effects += 1
        if p.cont is not None and p.ptr is not None:
            self.note(p.cont, 'elem')
            if '&' in s:
                t = self.t(); self.w('let %s = %s;' % (t, s)); s = t
            self.w('pst_%s(&mut %s, %s, %s, %s);' % (ELEM[p.cont.t], p.cont.s, self.hoist(p.ptr), self.hoist(p.idx), s))
        elif p.cont is not None:
            self.note(p.cont, 'elem')
            if '&' in s:
                t = self.t(); self.w('let %s = %s;' % (t, s)); s = t
            self.w('vset_%s(&mut %s, %s, %s);' % (ELEM[p.cont.t], p.cont.s, self.hoist(self.as_u64(p.idx)), s))
        else:
            self.note(p, 'whole')
            self.w('%s = %s;' % (p.s, s))

    # -------- conversions
    def as_i64(self, v):
        if v.lit is not None: return '%di64' % v.lit if v.lit >= 0 else '(%di64)' % v.lit
        if v.t == 'i64': return v.s
        if v.t in ('i32', 'u32', 'u8', 'i8', 'u16', 'i16'): return '(%s as i64)' % v.s
        return 'cast_%s_i64(%s)' % (v.t, v.s)
    def as_u64(self, v):
        if v.lit is not None and v.lit >= 0: return '%du64' % v.lit
        if v.t == 'u64': return v.s
        return self.cast(v, 'u64').s
    def cast(self, v, t):
        if v.t == t: return v
        if v.lit is not None and t in INT:
            w, s = INT[t]; x = v.lit & ((1 << w) - 1)
            if s and x >> (w - 1): x -= 1 << w
            return V(lit(x, t), t, sp=lit(x, t), litv=x)
        if v.t == 'bool' and t in INT: return V('(if %s { 1%s } else { 0%s })' % (v.s, t, t), t, sp=('(if %s { 1int } else { 0int })' % v.sp if v.sp else None))
        if t == 'bool' and v.t in INT: return V('(%s != 0)' % v.s, 'bool', sp=('(%s != 0)' % v.sp if v.sp else None))
        if v.t in INT and t in INT:
            (w1, s1), (w2, s2) = INT[v.t], INT[t]
            if (w2 > w1 and (not s1 or s2)): return V('(%s as %s)' % (v.s, t), t, sp=v.sp)
            return V('cast_%s_%s(%s)' % (v.t, t, v.s), t)
        if t == 'f64' and v.t in INT:
            return V('%s_to_f64(%s)' % (v.t, v.s), 'f64')
        if t == 'f32' and v.t == 'f64': return V('f64_to_f32(%s)' % v.s, 'f32')
        self.bug({}, 'cast %s -> %s' % (v.t, t))

    # -------- callee lookup
    def opname(self, n):
        c = n['inner'][0]
        while c.get('kind') == 'ImplicitCastExpr': c = c['inner'][0]
        return c['referencedDecl']['name'][8:].strip()
    def callee(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c.get('kind') == 'DeclRefExpr':
            d = self.p.byid.get((self.tu, c['referencedDecl']['id']))
            if d is not None and '_key' in d:
                f = self.p.fns.get(d['_key'])
                if f is None and d.get('isImplicit') and d.get('name') == 'operator=': return None  # memberwise copy
                if f is None: self.bug(n, 'no definition of ' + d['_key'])
                return f
            return None
        if c.get('kind') == 'MemberExpr':
            d = self.p.byid.get((self.tu, c.get('referencedMemberDecl')))
            if d is not None and '_key' in d:
                f = self.p.fns.get(d['_key'])
                if f is None and d.get('isImplicit') and d.get('name') == 'operator=': return None  # memberwise copy
                if f is None: self.bug(n, 'no definition of ' + d['_key'])
                return f
        return None

    # -------- sequencing
    def seq(self, nodes, fns=None):
        res = []
        for i, n in enumerate(nodes):
            e0 = self.effects
            r, lines = self.sub(lambda: (fns[i] if fns else self.ex)(n))
            if self.effects != e0:
                for j, v in enumerate(res):
                    if isinstance(v, V) and v.lit is None and v.base is None and v.t not in ('void',) and not (v.owned and re.match(r'^t\d+_$', v.s)):
                        if v.t in INT or v.t == 'bool':
                            t = self.t(); self.w('let %s: %s = %s;' % (t, rt(v.t), v.s)); res[j] = V(t, v.t, sp=t)
            self.out += lines
            res.append(r)
        return res

    # -------- expressions
    def ex(self, n):
        if 'range' in n: self.setline(n)
        k = n.get('kind')
        t = nty(n)
        if (t in INT or t == 'bool') and k not in ('CompoundAssignOperator',):
            c = self.p.ceval(n, self.tu)
            if c is not None: return V(lit(c, t), t, sp=lit(c, t), litv=c)
        m = getattr(self, 'x_' + k, None)
        if m is None: self.bug(n, 'unsupported expression ' + str(k))
        return m(n)
    def x_ParenExpr(self, n): return self.ex(n['inner'][0])
    def x_ConstantExpr(self, n): return self.ex(n['inner'][0])
    def x_ExprWithCleanups(self, n): return self.ex(n['inner'][0])
    def x_CXXBindTemporaryExpr(self, n): return self.ex(n['inner'][0])
    def x_MaterializeTemporaryExpr(self, n): return self.ex(n['inner'][0])
    def x_CXXDefaultArgExpr(self, n): self.bug(n, 'default argument outside of a call')
    def x_FloatingLiteral(self, n):
        import struct
        b = struct.unpack('<Q', struct.pack('<d', float(n['value'])))[0]
        return V('F64 { bits: %du64 }' % b, 'f64')
    def x_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        v = self.vars.get(rd['id'])
        if v is not None:
            if isinstance(v, V): return v
            return self.read(v)
        d = self.p.byid.get((self.tu, rd['id']))
        return self.read(self.place(n))
    def x_MemberExpr(self, n):
        p = self.place(n)
        r = self.read(p)
        if nty(n) == 'f64' and p.s.endswith('.uu'): return V('F64 { bits: %s }' % p.s, 'f64')
        return r
    def x_CXXThisExpr(self, n): self.bug(n, 'this as a value')
    def x_CXXNullPtrLiteralExpr(self, n): return V('null', 'null')
    def x_GNUNullExpr(self, n): return V('null', 'null')
    def x_ArraySubscriptExpr(self, n): return self.read(self.place(n))
    def x_StringLiteral(self, n):
        import json
        s = json.loads(n['value'])
        return V(s, 'strlit')
    def x_ImplicitCastExpr(self, n):
        ck = n.get('castKind'); i = n['inner'][0]; t = nty(n)
        if ck == 'LValueToRValue':
            v = self.ex(i)
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase'): return self.ex(i)
        if ck == 'FloatingToIntegral':
            v = self.ex(i)
            if v.t == 'f64' and t == 'u64': return V('f64_to_u64(%s)' % v.s, 'u64')
        if ck == 'ArrayToPointerDecay': return self.ex(i)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingCast'):
            return self.cast(self.ex(i), t)
        if ck == 'NullToPointer': return V('null', 'null')
        if ck in ('ConstructorConversion', 'UserDefinedConversion'): return self.ex(i)
        if ck == 'PointerToBoolean':
            v = self.ex(i)
            if v.flag is not None: return V(v.flag, 'bool', sp=v.flag)
        if ck == 'ToVoid':
            self.ex(i); return V('()', 'void')
        if ck == 'BitCast' and t == 'ptr:u8' and nty(i) == 'ptr:void':
            m = self.strip(i)
            while m.get('kind') == 'ImplicitCastExpr' and m.get('castKind') == 'LValueToRValue': m = self.strip(m['inner'][0])
            if m.get('kind') == 'MemberExpr' and m.get('name') == 'ptr' and nty(m['inner'][0]) == 'PyInfo':
                b = self.place(m['inner'][0])
                return V('', t, base=Place(b.s + '.mem', b.root, 'VecU8', False), off='%s.off' % b.s)
        if ck == 'BitCast' and (t == nty(i) or nty(i) == 'null'): return self.ex(i)
        self.bug(n, 'cast kind %s to %s' % (ck, t))
    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_ImplicitCastExpr
    def x_UnaryOperator(self, n):
        o = n['opcode']; i = n['inner'][0]; t = nty(n)
        if o in ('++', '--'):
            if t.startswith('ptr:'): return self.ptr_inc(n, i, o)
            p = self.place(i)
            old = self.read(p)
            if n.get('isPostfix'):
                tv = self.t(); self.w('let %s: %s = %s;' % (tv, rt(t), old.s)); old = V(tv, t, sp=tv)
            new = self.arith('+' if o == '++' else '-', old, V(lit(1, t), t, sp='1', litv=1), t)
            self.write(p, new.s)
            return old if n.get('isPostfix') else self.read(p)
        if o == '*': return self.read(self.place(n))
        if o == '&':
            m = self.strip(i)
            p = self.place(m)
            if p.cont is not None:
                if p.ptr is not None:
                    return V('', 'ptr:' + ELEM[p.cont.t], base=p.cont, off='padd_%s(&%s, %s, %s)' % (ELEM[p.cont.t], p.cont.s, p.ptr, p.idx))
                return V('', 'ptr:' + ELEM[p.cont.t], base=p.cont, off='paddr_%s(&%s, %s)' % (ELEM[p.cont.t], p.cont.s, self.as_u64(p.idx)))
            return V('', 'ptr:' + p.t, place=p, flag='true')
        if o == '!':
            v = self.cast(self.ex(i), 'bool'); return V('!(%s)' % v.s, 'bool', sp='!(%s)' % v.sp if v.sp else None)
        v = self.ex(i)
        if o == '+': return v
        if o == '-':
            if t == 'f64': return V('f64_neg(%s)' % v.s, 'f64')
            if INT[t][1]: return V('(-%s)' % v.s, t, sp='(-%s)' % v.sp if v.sp else None)
            return V('neg_%s(%s)' % (t, v.s), t)
        if o == '~': return V('not_%s(%s)' % (t, v.s), t)
        self.bug(n, 'unary ' + o)
    def arith(self, o, a, b, t):
        sp = None
        if a.lit is not None and b.lit is not None:
            pass
        if o in ('+', '-', '*') and t in INT:
            if a.sp and b.sp: sp = '(%s %s %s)' % (a.sp, o, b.sp)
            if INT[t][1]:
                if o == '*' and -1 in (a.lit, b.lit) and (a.lit is None or b.lit is None): return V('(-%s)' % (b.s if a.lit == -1 else a.s), t, sp=sp)
                if o == '*' and a.lit is None and b.lit is None: return V('mul_%s(%s, %s)' % (t, a.s, b.s), t, sp=sp)
                return V('(%s %s %s)' % (a.s, o, b.s), t, sp=sp)
            return V('%s_%s(%s, %s)' % ({'+': 'add', '-': 'sub', '*': 'mul'}[o], t, a.s, b.s), t)
        if o in ('/', '%') and t in INT:
            return V('%s_%s(%s, %s)' % ({'/': 'div', '%': 'rem'}[o], t, a.s, b.s), t)
        if o in ('&', '|', '^') and t in INT:
            nm = {'&': 'and', '|': 'or', '^': 'xor'}[o]
            x, y = a, b
            if x.lit is not None and y.lit is None: x, y = y, x
            if y.lit is not None and x.lit is None and o == '&':
                return V('%s(%s)' % (self.gen.mask_fn(t, y.lit), x.s), t)
            if o == '|':
                # one disjunction of shifted parts: the highest first, as in a sum of digits
                ps = []
                for v in (a, b):
                    f = v.flag if isinstance(v.flag, tuple) and v.flag[0] in ('shl', 'or') else None
                    if f and f[2]: ps += f[2]
                    else: ps.append((v.s, f[1] if f else None))
                if any(x[1] for x in ps):
                    ps.sort(key=lambda x: (x[1] is None, -sum(map(int, re.findall(r'\b\d+', x[1] or '')))))
                    r, last = ps[0]
                    for z, f in ps[1:]: r = 'or_at_%s(%s, %s, Ghost(%s))' % (t, r, z, last) if last else 'or_%s(%s, %s)' % (t, r, z); last = f
                    return V(r, t, flag=('or', None, ps))
            return V('%s_%s(%s, %s)' % (nm, t, a.s, b.s), t)
        if o in ('<<', '>>') and t in INT:
            s = INT[t][1]
            if b.lit is not None:
                if not 0 <= b.lit < INT[t][0]:
                    return V('%s_%s(%s, %di32)' % ('shl' if o == '<<' else 'sar' if s else 'shr', t, a.s, b.lit), t)
                fn = self.gen.shift_fn(t, o, b.lit)
                return V('%s(%s)' % (fn, a.s), t, flag=('shl', '%dint' % b.lit, False) if o == '<<' and not s else None)
            bi = self.cast(b, 'i32') if b.t != 'i32' else b
            return V('%s_%s(%s, %s)' % ('shl' if o == '<<' else 'sar' if s else 'shr', t, a.s, bi.s), t, flag=('shl', '(%s) as int' % (bi.sp or bi.s), False) if o == '<<' and not s and bi.sp else None)
        if t == 'f64':
            nm = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[o]
            return V('%s(%s, %s)' % (nm, a.s, b.s), 'f64')
        self.bug({}, 'operator %s on %s' % (o, t))
    def x_BinaryOperator(self, n):
        o = n['opcode']; l, r = n['inner']; t = nty(n)
        if o == '=':
            return self.assign(l, r)
        if o == ',':
            self.ex(l); return self.ex(r)
        if o in ('&&', '||'):
            a = self.cast(self.ex(l), 'bool')
            b, lines = self.sub(lambda: self.cast(self.ex(r), 'bool'))
            if lines:
                tv = self.t(); self.w('let mut %s: bool = %s;' % (tv, a.s))
                self.w('if %s%s {' % ('' if o == '&&' else '!', tv)); self.out += lines; self.w('%s = %s;' % (tv, b.s)); self.w('}')
                return V(tv, 'bool', sp=tv)
            return V('(%s %s %s)' % (a.s, o, b.s), 'bool', sp='(%s %s %s)' % (a.sp, o, b.sp) if a.sp and b.sp else None)
        lt = nty(l)
        if lt.startswith('ptr:') or nty(r).startswith('ptr:'): return self.ptr_bin(n, o, l, r)
        a, b = self.seq([l, r])
        if o in ('==', '!=', '<', '>', '<=', '>='):
            if a.t == 'f64': return V('f64_%s(%s, %s)' % (OPN[o], a.s, b.s), 'bool')
            sp = '(%s %s %s)' % (a.sp, o, b.sp) if a.sp and b.sp else None
            return V('(%s %s %s)' % (a.s, o, b.s), 'bool', sp=sp)
        if a.t == 'bool' or b.t == 'bool':
            a = self.cast(a, t); b = self.cast(b, t)
        return self.arith(o, a, b, t)
    def x_CompoundAssignOperator(self, n):
        o = n['opcode'][:-1]; l, r = n['inner']; lt = nty(l)
        if lt.startswith('ptr:'): return self.ptr_inc(n, l, '+' if o == '+' else '-', r)
        ct = cty(n.get('computeResultType', n['type']).get('desugaredQualType', n.get('computeResultType', n['type'])['qualType']))[0]
        clt = cty(n.get('computeLHSType', n['type']).get('desugaredQualType', n.get('computeLHSType', n['type'])['qualType']))[0]
        b = self.ex(r)
        p = self.place(l)
        a = self.cast(self.read(p), clt)
        v = self.cast(self.arith(o, a, b, ct), lt)
        self.write(p, v.s)
        return self.read(p)
    def x_ConditionalOperator(self, n):
        c, a, b = n['inner']
        # assert(e): cond ? (void)0 : __assert_fail(...)
        if self.is_assert(n): return self.do_assert(c)
        cv = self.cast(self.ex(c), 'bool')
        av, al = self.sub(lambda: self.own(self.ex(a)))
        bv, bl = self.sub(lambda: self.own(self.ex(b)))
        t = nty(n)
        if t == 'void':
            self.w('if %s {' % cv.s); self.out += al; self.w('} else {'); self.out += bl; self.w('}'); return V('()', 'void')
        if av.t.startswith('ptr:') or bv.t.startswith('ptr:'): self.bug(n, 'conditional pointer')
        if av.t != bv.t and t in INT: av = self.cast(av, t); bv = self.cast(bv, t)
        if al or bl or t not in INT and t != 'bool':
            tv = self.t(); self.w('let %s: %s = if %s {' % (tv, rt(av.t), cv.s)); self.out += al; self.w(av.s); self.w('} else {'); self.out += bl; self.w(bv.s); self.w('};')
            return V(tv, av.t, owned=True)
        sp = '(if %s { %s as int } else { %s as int })' % (cv.sp, av.sp, bv.sp) if cv.sp and av.sp and bv.sp and t in INT else None
        return V('(if %s { %s } else { %s })' % (cv.s, av.s, bv.s), av.t, sp=sp)
    def is_assert(self, n):
        if nty(n) != 'void': return False
        x = n['inner'][2]
        while x.get('inner'):
            if x.get('kind') == 'CallExpr': break
            x = x['inner'][0]
        y = x
        while y.get('inner'): y = y['inner'][0]
        return y.get('referencedDecl', {}).get('name') == '__assert_fail'
    def do_assert(self, c):
        c = self.strip(c)
        v, lines = self.sub(lambda: self.cast(self.ex(c), 'bool'))
        self.out += lines
        self.w('cassert(%s);' % v.s)
        return V('()', 'void')
    def own(self, v):
        """value usable by move"""
        if v.t in INT or v.t in ('bool', 'f64', 'f32', 'void', 'null', 'strlit', 'PyInt', 'PyBuf', 'PyFlt') or v.t.startswith('ptr:'): return v
        if v.place is not None and not v.owned: return V('clone_%s(&%s)' % (v.t, v.place.s), v.t, owned=True)
        return v
    def assign(self, l, r):
        lt = nty(l)
        sl = self.strip(l)
        if lt.startswith('ptr:'): return self.ptr_assign(l, r)
        rv = self.own(self.ex(r))
        if lt == 'f64' and sl.get('kind') == 'MemberExpr':
            p = self.place(sl)
            if p.s.endswith('.uu'):
                self.write(p, '(%s).bits' % rv.s); return rv
        e0 = self.effects
        p, lines = self.sub(lambda: self.place(l))
        if self.effects != e0 and rv.lit is None and not re.match(r'^t\d+_$', rv.s):
            t = self.t(); self.w('let %s: %s = %s;' % (t, rt(rv.t), rv.s)); rv = V(t, rv.t, sp=t)
        self.out += lines
        if rv.t != p.t and p.t in INT: rv = self.cast(rv, p.t)
        self.write(p, rv.s)
        if p.cont is not None: return V(None, p.t, place=p)
        return self.read(p)

    # -------- pointers and iterators
    def ptr_inc(self, n, i, o, r=None):
        i = self.strip(i)
        v = self.vars.get(i.get('referencedDecl', {}).get('id'))
        if not isinstance(v, V) or v.base is None or not re.match(r'^\w+$', v.off): self.bug(n, 'pointer increment')
        d = self.as_i64(self.ex(r)) if r is not None else '1i64'
        e = ELEM[v.base.t]
        self.effects += 1
        pl = Place(v.off, v.off, 'i64', True)
        if n.get('isPostfix') or (n.get('kind') == 'CXXOperatorCallExpr' and len(n['inner']) == 3 and o in ('++', '--')):
            t = self.t(); self.w('let %s: i64 = %s;' % (t, v.off)); ret = V('', v.t, base=v.base, off=t)
        else: ret = v
        self.note(pl, 'whole')
        self.w('%s = padd_%s(&%s, %s, %s%s);' % (v.off, e, v.base.s, v.off, '' if o[0] == '+' else '-', d))
        return ret
    def ptr_bin(self, n, o, l, r):
        a, b = self.seq([l, r])
        if o in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if y.t == 'null' and x.flag is not None:
                    s = '!(%s)' % x.flag if o == '==' else '(%s)' % x.flag
                    return V(s, 'bool', sp=s)
        if a.base is not None and b.base is not None:
            if a.base.s != b.base.s: self.bug(n, 'pointers into different objects')
            if o == '-': return V('(%s - %s)' % (a.off, b.off), 'i64')
            if o in ('==', '!=', '<', '>', '<=', '>='): return V('(%s %s %s)' % (a.off, o, b.off), 'bool', sp='(%s %s %s)' % (a.off, o, b.off) if not a.off.startswith('p') and not b.off.startswith('p') else None)
        if a.base is not None and o in ('+', '-'):
            e = ELEM[a.base.t]; i = self.as_i64(b)
            return V('', a.t, base=a.base, off='padd_%s(&%s, %s, %s%s)' % (e, a.base.s, a.off, '' if o == '+' else '-', i))
        if b.base is not None and o == '+':
            e = ELEM[b.base.t]
            return V('', b.t, base=b.base, off='padd_%s(&%s, %s, %s)' % (e, b.base.s, b.off, self.as_i64(a)))
        self.bug(n, 'pointer operator ' + o)
    def ptr_assign(self, l, r):
        l = self.strip(l)
        v = self.vars.get(l.get('referencedDecl', {}).get('id'))
        rv = self.ex(r)
        if not isinstance(v, V) or v.base is None or rv.base is None or rv.base.s != v.base.s: self.bug(l, 'pointer assignment')
        self.effects += 1
        self.note(Place(v.off, v.off, 'i64', True), 'whole')
        self.w('%s = %s;' % (v.off, rv.off))
        return v

    # -------- constructors
    def construct(self, n, args, t, ct):
        """CXXConstructExpr / CXXTemporaryObjectExpr of type t"""
        args = [a for a in args if not (a.get('kind') == 'CXXDefaultArgExpr' and not self.gen_default_ok(t))]
        real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if t in STRUCTS:
            if len(real) == 1 and len(args) == 1 and nty(real[0]) == t:
                return self.own(self.ex(real[0]))
            f = self.find_ctor(t, n, ct)
            if f is None:
                if not real: return V(self.gen.default_struct(self, t), t, owned=True)
                self.bug(n, 'constructor of ' + t)
            return self.call(f, n, None, args)
        if t in ELEM:
            e = ELEM[t]
            if not real: return V('vec_empty_%s()' % e, t, owned=True)
            st = self.strip(real[0])
            if st.get('kind') == 'CXXStdInitializerListExpr' or st.get('kind') == 'InitListExpr':
                il = st
                while il.get('kind') != 'InitListExpr': il = il['inner'][0]
                vs = self.seq(il.get('inner', []))
                if len(vs) > 3: self.bug(n, 'initializer list')
                return V('vec_of%d_%s(%s)' % (len(vs), e, ', '.join(self.cast(v, e).s for v in vs)), t, owned=True)
            ft = nty(real[0])
            if ft == t: return self.own(self.ex(real[0]))
            vs = self.seq(real)
            if vs[0].t == 'strlit': return V('str_lit(&[%s])' % ', '.join('%di8' % c for c in vs[0].s.encode()), t, owned=True) if False else self.strlit(vs[0])
            if vs[0].base is not None:
                if len(vs) == 2 and vs[1].base is not None:
                    if vs[0].base.s != vs[1].base.s: self.bug(n, 'range over two containers')
                    if e == 'i8' and ELEM[vs[0].base.t] == 'u8': return V('vec_range_u8_i8(&%s, %s, %s)' % (vs[0].base.s, vs[0].off, vs[1].off), t, owned=True)
                    return V('vec_range_%s(&%s, %s, %s)' % (e, vs[0].base.s, vs[0].off, vs[1].off), t, owned=True)
                if len(vs) == 2: return V('vec_ptrlen_%s(&%s, %s, %s)' % (e, vs[0].base.s, vs[0].off, self.as_u64(vs[1])), t, owned=True)
            if t == 'Str' and len(vs) == 2: return V('vec_fill_new_%s(%s, %s)' % (e, self.as_u64(vs[0]), vs[1].s), t, owned=True)
            if len(vs) == 1: return V('vec_new_%s(%s)' % (e, self.as_u64(vs[0])), t, owned=True)
            if len(vs) == 2: return V('vec_fill_new_%s(%s, %s)' % (e, self.as_u64(vs[0]), self.cast(vs[1], e).s), t, owned=True)
        if t == 'DoubleULong': return V('DoubleULong { uu: arb_u64() }', t, owned=True)
        if t == 'PyInt' and len(real) == 1:
            v = self.ex(real[0])
            if v.t == 'PyInt': return v
            if v.t in INT: return V('pyint_of(%s)' % self.as_i64(v), t) if v.t != 'u64' else self.bug(n, 'py::int_ of an unsigned long')
            if v.t == 'PyStr': return V('pyint_of_str(&%s)' % v.s, t)
        if t == 'PyStr' and len(real) == 1:
            v = self.own(self.ex(real[0]))
            if v.t == 'Str': h = self.t(); self.w('let %s: Vec<i8> = %s;' % (h, v.s)); return V(h, t, owned=True)
        if t == 'PyBytes' and len(real) == 1 and nty(real[0]) == 'Str':
            q = self.placeor(real[0]); return V('pybytes_of(&%s)' % q.s, t, owned=True)
        if t == 'PyFlt' and len(real) == 1 and nty(real[0]) == 'PyInt':
            q = self.ex(real[0]); return self.fallible('pyfloat_of(%s)' % q.s, t)
        if t in ('PyBytes', 'PyFlt', 'PyTup') and len(real) == 1 and nty(real[0]) == t: return self.own(self.ex(real[0]))
        self.bug(n, 'construction of ' + t)
    def strlit(self, v):
        b = v.s.encode()
        t = self.t(); self.w('let mut %s: Vec<i8> = vec_empty_i8();' % t)
        for c in b: self.w('vpush_i8(&mut %s, %di8);' % (t, c))
        return V(t, 'Str', owned=True)
    def gen_default_ok(self, t): return t in STRUCTS
    def find_ctor(self, t, n, ct):
        sig = ct['qualType']; m = re.match(r'^void \((.*)\)', sig)
        ps = [x.strip() for x in m.group(1).split(',')] if m.group(1).strip() else []
        codes = [CODE.get(cty(x)[0], '?' + x) for x in ps]
        return self.p.fns.get('%s::%s(%s)' % (t, t, ','.join(codes)))
    def x_CXXConstructExpr(self, n):
        return self.construct(n, n.get('inner', []), nty(n), n.get('ctorType', {'qualType': 'void ()'}))
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
    def x_CXXScalarValueInitExpr(self, n): return V(lit(0, nty(n)), nty(n), litv=0)
    def x_InitListExpr(self, n):
        t = nty(n)
        if t in INT and len(n.get('inner', [])) == 1: return self.ex(n['inner'][0])
        self.bug(n, 'init list')

    # -------- calls
    def x_CXXOperatorCallExpr(self, n):
        o = self.opname(n); a = n['inner'][1:]
        f = self.callee(n)
        if f is not None:
            if f.kind == 'FunctionDecl': return self.call(f, n, None, a)
            return self.call(f, n, a[0], a[1:])
        t0 = nty(a[0])
        if o == '=':
            lp = self.strip(a[0])
            rv = self.own(self.ex(a[1]))
            p = self.place(lp)
            if rv.t != p.t: self.bug(n, 'assignment of %s to %s' % (rv.t, p.t))
            self.write(p, rv.s)
            return V(p.s, p.t, place=p)
        if o in ('<', '<=', '>', '>=', '==', '!=') and len(a) == 2 and self.pyint(a[0]) and self.pyint(a[1]):
            x, y = self.seq(a)
            return V('pyint_%s(%s, %s)' % ({'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}[o], x.s, y.s), 'bool')
        if o == '[]' or (o == '*' and len(a) == 1): return self.read(self.place(n))
        if t0.startswith('ptr:'):
            if o in ('++', '--'): return self.ptr_inc(n, a[0], o)
            if o in ('+=', '-='): return self.ptr_inc(n, a[0], o[0], a[1])
            return self.ptr_bin(n, o, a[0], a[1])
        if o in ('==', '!=') and t0 in ELEM:
            x, y = self.placeor(a[0]), self.placeor(a[1])
            s = 'vec_eq_%s(&%s, &%s)' % (ELEM[t0], x.s, y.s)
            return V(s if o == '==' else '!' + s, 'bool')
        self.bug(n, 'operator %s on %s' % (o, t0))
    def x_CXXReinterpretCastExpr(self, n):
        if nty(n) == 'PyInt' and nty(n['inner'][0]) == 'PyInt': return self.ex(n['inner'][0])
        self.bug(n, 'reinterpret_cast')
    def pyint(self, n): return nty(self.strip(n)) == 'PyInt'
    def fallible(self, s, t):
        """a call of a trusted function that may throw"""
        v = self.t()
        self.w('let %s: %s = match %s { Ok(v_) => v_, Err(e_) => { %s } };' % (v, rt(t), s, 'return Err(%s);' % self.exc('e_') if self.con.get('throws') else 'no_throw_(); unreached_()'))
        return V(v, t, sp=v)
    def exc(self, e): return 'arb_exc()' if getattr(self, 'intry', 0) else e
    def x_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        while me.get('kind') in ('ParenExpr',): me = me['inner'][0]
        f = self.callee(n)
        obj = me['inner'][0]
        args = n['inner'][1:]
        if f is not None: return self.call(f, n, obj, args)
        nm = me['name']
        if self.pyint(obj):
            v = self.ex(self.strip(obj)); t = nty(n)
            if nm == 'ptr' and not args: return v
            if nm == 'is' and len(args) == 1 and self.pyint(args[0]):
                w = self.ex(args[0]); return V('pyint_is(%s, %s)' % (v.s, w.s), 'bool')
            if nm in ('equal', 'not_equal') and len(args) == 1 and self.pyint(args[0]):
                w = self.ex(args[0]); return V('pyint_%s(%s, %s)' % ('eq' if nm == 'equal' else 'ne', v.s, w.s), 'bool')
            if nm == 'cast' and t in INT: return self.fallible('pyint_cast_%s(%s)' % (t, v.s), t)
            if nm.startswith('operator ') and t == 'i32': return V('pyint_to_i32(%s)' % v.s, 'i32')
            self.bug(n, 'method %s of a Python integer' % nm)
        if nm == 'request' and nty(self.strip(obj)) == 'PyBuf': return self.fallible('pybuf_request(%s)' % self.ex(self.strip(obj)).s, 'PyInfo')
        p = self.placeor(obj)
        t = p.t
        if t in ELEM:
            e = ELEM[t]
            if nm in ('size', 'length'): return V('vsize_%s(&%s)' % (e, p.s), 'u64', sp='%s@.len()' % p.s)
            if nm == 'empty': return V('vempty_%s(&%s)' % (e, p.s), 'bool', sp='(%s@.len() == 0)' % p.s)
            if nm in ('data', 'begin', 'cbegin', 'c_str'): return V('', 'ptr:' + e, base=p, off='0i64')
            if nm in ('end', 'cend'): return V('', 'ptr:' + e, base=p, off='pend_%s(&%s)' % (e, p.s))
            if nm == 'at': self.bug(n, 'at')
            if nm == 'back':
                return V('vback_%s(&%s)' % (e, p.s), e)
            if nm == 'front': return V('vget_%s(&%s, 0u64)' % (e, p.s), e)
            if nm in ('clear', 'push_back', 'pop_back', 'resize', 'assign', 'swap', 'reserve', 'insert', 'erase', 'append'):
                vs = self.seq(args) if nm != 'swap' else []
                self.wmut(p); self.effects += 1
                self.note(p, 'whole')
                if nm == 'clear': self.w('vclear_%s(&mut %s);' % (e, p.s))
                elif nm == 'push_back': self.w('vpush_%s(&mut %s, %s);' % (e, p.s, self.hoist(self.cast(vs[0], e).s)))
                elif nm == 'pop_back': self.w('vpop_%s(&mut %s);' % (e, p.s))
                elif nm == 'reserve': pass
                elif nm == 'resize': self.w('vresize_%s(&mut %s, %s, %s);' % (e, p.s, self.hoist(self.as_u64(vs[0])), self.cast(vs[1], e).s if len(vs) > 1 else lit(0, e)))
                elif nm == 'assign' and len(vs) == 2 and vs[0].base is None: self.w('%s = vec_fill_new_%s(%s, %s);' % (p.s, e, self.as_u64(vs[0]), self.cast(vs[1], e).s))
                elif nm == 'swap':
                    q = self.place(args[0]); self.wmut(q); self.note(q, 'whole')
                    self.w('vswap_%s(&mut %s, &mut %s);' % (e, p.s, q.s))
                else: self.bug(n, 'method ' + nm)
                return V('()', 'void')
        self.bug(n, 'method %s of %s' % (nm, t))
    def src_text(self, n):
        r = n.get('range', {}); b = r.get('begin', {}); e = r.get('end', {})
        if 'offset' not in b or 'offset' not in e: return ''
        return open(self.f.file, 'rb').read()[b['offset']:e['offset'] + e.get('tokLen', 1)].decode('utf-8', 'replace')
    def x_CallExpr(self, n):
        f = self.callee(n)
        args = n['inner'][1:]
        if f is not None: return self.call(f, n, None, args)
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        nm = c.get('referencedDecl', {}).get('name', '?')
        t = nty(n)
        if nm == '_PyLong_NumBits': return V('pylong_numbits(%s)' % self.ex(args[0]).s, 'u64')
        if nm == '_PyLong_AsByteArray' and len(args) >= 5:
            v, b, l, e, g = self.seq(args[:5])
            if b.base is None: self.bug(n, 'buffer')
            self.wmut(b.base); self.effects += 1; self.note(b.base, 'elem')
            h = self.t(); self.w('let %s: i32 = pylong_as(%s, &mut %s, %s, %s, %s, %s);' % (h, v.s, b.base.s, b.off, self.as_u64(l), e.s, g.s)); return V(h, 'i32', sp=h)
        if nm == '_PyLong_FromByteArray':
            b, l, e, g = self.seq(args[:4])
            if b.base is None: self.bug(n, 'buffer')
            return V('pylong_from(&%s, %s, %s, %s, %s)' % (b.base.s, b.off, self.as_u64(l), self.cast(e, 'i32').s, self.cast(g, 'i32').s), 'PyInt')
        if nm in ('reinterpret_steal', 'reinterpret_borrow') and t == 'PyInt' and len(args) == 1: return self.ex(args[0])
        if nm in ('floor', 'ceil', 'trunc') and t == 'f64' and len(args) == 1 and nty(args[0]) in INT: return self.cast(self.ex(args[0]), 'f64')   # an integer is its own floor
        if nm == 'make_tuple' and len(args) == 2:
            ps = [self.placeor(a) for a in args]
            if all(p.t in ('BigInteger', 'PyInt') for p in ps): return V('pytup_%s%s(%s)' % (CODE[ps[0].t], CODE[ps[1].t], ', '.join('&' + p.s for p in ps)), 'PyTup')
        if nm == 'hash' and t == 'i64' and len(args) == 1 and nty(args[0]) == 'PyInt': return self.fallible('pyint_hash(%s)' % self.ex(args[0]).s, 'i64')
        if nm == 'format' and t == 'Str' and not args:
            if re.match(r'(py|pybind11)::format_descriptor<(unsigned char|u?int8_t|std::uint8_t|byte)>', re.sub(r'\s*([<>:])\s*', r'\1', self.src_text(n))) and 'descriptor<int8_t' not in self.src_text(n): return V('pyfmt_u8()', 'Str', owned=True)
            self.bug(n, 'format descriptor')
        if nm == '__assert_fail': self.w('cassert(false);'); return V('()', 'void')
        if nm in ('__builtin_clz', '__builtin_clzl', '__builtin_clzll') and len(args) == 1:
            tt = 'u32' if nm == '__builtin_clz' else 'u64'
            return V('bclz_%s(%s)' % (tt, self.cast(self.ex(args[0]), tt).s), 'i32')
        if nm == 'abs' and t in INT:
            v = self.ex(args[0]); return V('cabs_%s(%s)' % (t, v.s), t)
        if nm in ('max', 'min') and len(args) == 2:
            a, b = self.seq(args); return V('c%s_%s(%s, %s)' % (nm, a.t, a.s, b.s), a.t)
        if nm == 'fill':
            a, b, v = self.seq(args)
            e = ELEM[a.base.t]
            if a.base.s != b.base.s: self.bug(n, 'fill over two containers')
            self.wmut(a.base); self.effects += 1; self.note(a.base, 'elem')
            x = [self.t(), self.t(), self.t()]
            for y, z in zip(x, (a.off, b.off, self.cast(v, e).s)): self.w('let %s = %s;' % (y, z))
            self.w('vfill_%s(&mut %s, %s, %s, %s);' % (e, a.base.s, *x)); return V('()', 'void')
        if nm == 'copy':
            a, b, d = self.seq(args)
            e = ELEM[d.base.t]
            if a.base.s != b.base.s: self.bug(n, 'copy over two containers')
            self.wmut(d.base); self.effects += 1; self.note(d.base, 'elem')
            x = [self.t(), self.t(), self.t()]
            for y, z in zip(x, (a.off, b.off, d.off)): self.w('let %s = %s;' % (y, z))
            self.w('vcopy_%s(&%s, %s, %s, &mut %s, %s);' % (e, a.base.s, x[0], x[1], d.base.s, x[2])); return V('()', 'void')
        if nm == 'swap' and len(args) == 2:
            a, b = self.place(args[0]), self.place(args[1])
            self.wmut(a); self.wmut(b); self.effects += 1
            x = self.own(self.read(a)) if a.t in STRUCTS or a.t in ELEM else self.read(a)
            tv = self.t(); self.w('let %s: %s = %s;' % (tv, rt(a.t), x.s))
            y = self.own(self.read(b)) if b.t in STRUCTS or b.t in ELEM else self.read(b)
            self.write(a, y.s); self.write(b, tv); return V('()', 'void')
        if nm == 'move' and len(args) == 1: return self.ex(args[0])
        if nm == 'to_string' and t == 'Str':
            v = self.ex(args[0]); return V('to_string_%s(%s)' % (v.t, v.s), 'Str', owned=True)
        if nm == 'infinity': return V('F64 { bits: 0x7FF0000000000000u64 }', 'f64')
        if nm in ('nan', 'log', 'isnan') : 
            vs = self.seq(args) if nm != 'nan' else []
            return V('libm_%s(%s)' % (nm, ', '.join(v.s for v in vs)), 'bool' if nm == 'isnan' else 'f64')
        self.bug(n, 'call of ' + nm)

    def expand_args(self, f, args):
        out = []
        for i, p in enumerate(f.params):
            a = args[i] if i < len(args) else {'kind': 'CXXDefaultArgExpr'}
            if a.get('kind') == 'CXXDefaultArgExpr':
                d = p.get('_def', p)
                ini = [x for x in d.get('inner', []) if not x.get('kind', '').endswith('Attr')]
                if not ini: self.bug(a, 'default argument')
                a = ini[-1]
            out.append(a)
        return out
    def call(self, f, n, obj, args):
        args = self.expand_args(f, args)
        con = self.C.get(f.key)
        if con is None: return self.inline(f, n, obj, args)
        self.gen.note_call(self, f.key)
        usesthis = con.get('this')
        al = []
        def doarg(p, a):
            t, isref, isc = cty(p['type'].get('desugaredQualType', p['type']['qualType']))
            if nty(p) in INT: t = nty(p)
            if t.startswith('?'): t = nty(p); isref = nref(p)
            mode = con['modes'].get(con['params'][f.params.index(p)], None)
            if t == 'ptr:i32':
                v = self.ex(a)
                if v.t == 'null':
                    d = self.t(); self.w('let mut %s: i32 = 0i32;' % d); return ['&mut ' + d, 'false']
                return ['&mut ' + v.place.s, v.flag, ('mod', v.place)]
            if t.startswith('ptr:'):
                v = self.ex(a)
                e = t[4:]
                if v.t == 'null':
                    d = self.t(); self.w('let mut %s: %s = vec_empty_%s();' % (d, rt(vec_of(e)), e))
                    return [('&mut ' if mode == 'mut' else '&') + d, '0i64']
                if v.base is None: self.bug(a, 'pointer argument')
                if mode == 'mut':
                    self.wmut(v.base); return ['&mut ' + v.base.s, v.off, ('mod', v.base, 'elem')]
                return ['&' + v.base.s, v.off]
            if t in INT or t in SCALAR:
                if mode == 'mut':
                    p2 = self.place(a); self.wmut(p2)
                    if p2.cont is not None: self.bug(a, 'reference to an element')
                    return ['&mut ' + p2.s, ('mod', p2, 'whole')]
                v = self.ex(a)
                return [self.cast(v, t).s] if v.t != t else [v.s]
            if mode == 'mut':
                p2 = self.place(a); self.wmut(p2); return ['&mut ' + p2.s, ('mod', p2, 'whole')]
            # by-value and const-ref objects are both passed as shared references (the callee clones what it changes)
            p2 = self.placeor(a)
            return ['&' + p2.s]
        work = []
        if usesthis:
            def doobj(o):
                if self.strip(o).get('kind') == 'CXXThisExpr': p2 = self.vars['this']
                else: p2 = self.placeor(o)
                if usesthis == 'mut':
                    self.wmut(p2); return ['&mut ' + p2.s, ('mod', p2, 'whole')]
                return ['&' + p2.s]
            work.append((obj if obj is not None else {'kind': 'CXXThisExpr'}, doobj))
        for p, a in zip(f.params, args):
            work.append((a, lambda x, p=p: doarg(p, x)))
        e0 = self.effects
        got = []
        for i, (a, fn) in enumerate(work):
            e1 = self.effects
            r, lines = self.sub(lambda: fn(a))
            if self.effects != e1:
                for j in range(len(got)):
                    x = got[j][0] if isinstance(got[j], list) else None
                    if x is not None and len(got[j]) == 1 and not x.startswith('&') and not re.match(r'^[\d(-]', x):
                        t = self.t(); self.w('let %s = %s;' % (t, x)); got[j] = [t]
            self.out += lines
            got.append(r)
        strs = []; mods = []
        for r in got:
            for x in r:
                if isinstance(x, tuple): mods.append(x)
                else: strs.append(x)
        # hoist nested reads so that they do not overlap a mutable borrow
        if any(s.startswith('&mut ') for s in strs):
            for i, s in enumerate(strs):
                if not s.startswith('&') and '(' in s and not s.startswith('Ghost'):
                    t = self.t(); self.w('let %s = %s;' % (t, s)); strs[i] = t
        bt = con.get('targs', '')
        callee = con['rust'] if 'rust' in con else f.rust
        s = '%s(%s)' % (callee, ', '.join(strs))
        nm = f.name
        cnt = self.callcount[nm] = self.callcount.get(nm, 0) + 1
        self.hint('call:%s:%d:pre' % (nm, cnt))
        if mods: self.effects += 1
        for m in mods: self.note(m[1], m[2] if len(m) > 2 else 'whole')
        rtt = 'void' if f.retref or f.ret == 'void' else f.ret
        if f.kind == 'CXXConstructorDecl': rtt = f.cls
        th = con.get('throws')
        if th:
            t = self.t()
            if not self.con.get('throws'):
                self.w('let %s: %s = match %s { Ok(v_) => v_, Err(e_) => { %sno_throw_(); unreached_() } };' % (t, rt(rtt) if rtt != 'void' else '()', s, self.hintstr('throw')))
            else:
                self.w('let %s: %s = match %s { Ok(v_) => v_, Err(e_) => { %sreturn Err(%s); } };' % (t, rt(rtt) if rtt != 'void' else '()', s, self.hintstr('throw'), self.exc('e_')))
            v = V(t, rtt, sp=t if rtt in INT else None, owned=True)
        elif rtt == 'void':
            self.w(s + ';'); v = V('()', 'void')
        else:
            t = self.t(); self.w('let mut %s: %s = %s;' % (t, rt(rtt), s)); v = V(t, rtt, sp=t if rtt in INT or rtt == 'bool' else None, owned=True)
        self.hint('call:%s:%d' % (nm, cnt), {'ret': v.s})
        if f.retref and obj is not None:
            # the operators of this code base return *this
            p2 = self.vars['this'] if self.strip(obj).get('kind') == 'CXXThisExpr' else self.placeor(obj)
            return V(p2.s, p2.t, place=p2)
        return v

    # -------- inlining of functions without a contract
    def inline(self, f, n, obj, args):
        if len(self.inl) > 6: self.bug(n, 'inlining too deep at ' + f.key)
        if any(x['f'] is f for x in self.inl) or f is self.f: self.bug(n, 'recursive function without contract ' + f.key)
        self.gen.inl_count += 1
        fr = {'f': f, 'n': self.gen.inl_count, 'new': bool(self.gen.base) and f.key not in self.gen.base}
        saved = dict(self.vars); stu = self.tu; sline = self.line
        newv = {}
        # accessors returning a reference to a member: keep the place
        thisp = None
        if obj is not None and not f.static and f.kind != 'CXXConstructorDecl':
            thisp = self.vars['this'] if self.strip(obj).get('kind') == 'CXXThisExpr' else self.placeor(obj)
        elif f.kind == 'CXXConstructorDecl':
            t = self.t(); self.w('let mut %s: %s = %s;' % (t, f.cls, self.gen.default_struct(self, f.cls))); thisp = Place(t, t, f.cls, True, own=True)
        elif not f.static and 'this' in self.vars: thisp = self.vars['this']
        self.inl.append(fr)
        try:
            for p, a in zip(f.params, args):
                t, isref, isc = cty(p['type'].get('desugaredQualType', p['type']['qualType']))
                t = nty(p); isref = p['type']['qualType'].strip().endswith('&')
                self.inl.pop()
                try:
                    if t == 'ptr:i32': b = self.ex(a)
                    elif t.startswith('ptr:'): b = self.ex(a)
                    elif isref: b = self.placeor(a)
                    else: b = self.own(self.ex(a))
                finally: self.inl.append(fr)
                nm = self.fresh(p.get('name') or 'unused')
                if isinstance(b, Place): newv[p['id']] = b
                elif b.base is not None or t.startswith('ptr:'):
                    if b.base is not None:
                        self.w('let mut %s_o: i64 = %s;' % (nm, b.off)); newv[p['id']] = V('', t, base=b.base, off=nm + '_o')
                    else: newv[p['id']] = b
                else:
                    if b.t != t and t in INT: b = self.cast(b, t)
                    self.w('let mut %s: %s = %s;' % (nm, rt(t), b.s)); newv[p['id']] = Place(nm, nm, t, True, own=True)
            self.vars = dict(newv)
            if thisp is not None: self.vars['this'] = thisp
            self.tu = f.tu
            if f.kind == 'CXXConstructorDecl':
                self.ctor_inits(f, thisp)
                self.stmt_inl(f.body, f)
                return V(thisp.s, f.cls, owned=True, place=None)
            stmts = f.body.get('inner', [])
            # single return of an lvalue
            if f.retref and len(stmts) == 1 and stmts[0].get('kind') == 'ReturnStmt':
                p = self.place(stmts[0]['inner'][0]); r = self.read(p); r.place = p; return r
            if f.retref:
                self.stmt_inl(f.body, f); return V(thisp.s, thisp.t, place=thisp) if thisp is not None else V('()', 'void')
            if f.ret == 'void':
                self.stmt_inl(f.body, f); return V('()', 'void')
            if len(stmts) == 1 and stmts[0].get('kind') == 'ReturnStmt' and f.ret in INT:
                v = self.ex(stmts[0]['inner'][0]); return self.cast(v, f.ret) if v.t != f.ret else v
            t = self.t()
            self.w('let mut %s: %s;' % (t, rt(f.ret)))
            self.block_ret(stmts, t, f)
            return V(t, f.ret, owned=True, sp=t if f.ret in INT or f.ret == 'bool' else None)
        finally:
            self.inl.pop(); self.vars = saved; self.tu = stu; self.line = sline
    def has_ret(self, n):
        if n.get('kind') == 'ReturnStmt': return True
        return any(self.has_ret(x) for x in n.get('inner', []) if x)
    def stmt_inl(self, body, f):
        self.block_ret(body.get('inner', []), None, f)
    def block_ret(self, stmts, t, f):
        """statements of an inlined body; a return assigns t; what follows an `if` that returns goes into its other branch"""
        stmts = self.joined(stmts)
        for i, s in enumerate(stmts):
            k = s.get('kind')
            rest = stmts[i + 1:]
            if k == 'ReturnStmt':
                if s.get('inner') and t is not None:
                    v = self.own(self.ex(s['inner'][0]))
                    if v.t != f.ret and f.ret in INT: v = self.cast(v, f.ret)
                    self.w('%s = %s;' % (t, v.s))
                elif s.get('inner'): self.ex(s['inner'][0]) if not f.retref else None
                return
            if k == 'CompoundStmt' and self.has_ret(s):
                self.block_ret(s.get('inner', []) + rest, t, f); return
            if k == 'IfStmt' and self.has_ret(s):
                inn = s['inner']
                c = self.cast(self.ex(inn[0]), 'bool')
                th = [inn[1]]; el = [inn[2]] if len(inn) > 2 else []
                sv = dict(self.vars)
                _, a = self.sub(lambda: self.block_ret(th + rest if not self.always_ret(inn[1]) else th, t, f))
                self.vars = dict(sv)
                _, b = self.sub(lambda: self.block_ret(el + rest if not (el and self.always_ret(el[0])) else el, t, f))
                self.vars = sv
                self.w('if %s {' % c.s); self.out += a; self.w('} else {'); self.out += b; self.w('}')
                return
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt', 'CXXForRangeStmt') and self.has_ret(s):
                self.bug(s, 'return inside a loop of an inlined function ' + f.key)
            self.stmt(s)
    def always_ret(self, s):
        k = s.get('kind')
        if k == 'ReturnStmt': return True
        if k == 'CompoundStmt': return bool(s.get('inner')) and any(self.always_ret(x) for x in s['inner'])
        if k == 'IfStmt': return len(s['inner']) > 2 and self.always_ret(s['inner'][1]) and self.always_ret(s['inner'][2])
        if k == 'ExprWithCleanups' or k == 'CXXThrowExpr': return self.strip(s).get('kind') == 'CXXThrowExpr'
        return False

    # -------- statements
    def hintstr(self, pos, sub=None):
        h = self.con.get('hints', {}).get(pos)
        if not h or not self.annot(): return ''
        if sub:
            for a, b in sub.items(): h = h.replace('$' + a, b)
        self.uses.add(pos)
        gh = ''.join('let ghost %s; ' % x.strip() for x in re.findall(r'@ghost ([^;]*);', h))
        h = re.sub(r'@ghost [^;]*;', '', h).strip()
        return gh + ('proof { %s } ' % h if h else '')
    def hint(self, pos, sub=None):
        s = self.hintstr(pos, sub)
        if s: self.w(s)
    def stmts(self, l):
        for s in self.joined(l): self.stmt(s)
    def joined(self, l):
        """statements with each scalar declared without a value declared where it first gets one, when that is in the same list"""
        l = list(l); i = 0
        while i < len(l):
            s = l[i]; i += 1
            if not s or s.get('kind') != 'DeclStmt': continue
            ds = s.get('inner', [])
            if not any(d.get('kind') == 'VarDecl' and 'init' not in d for d in ds): continue
            keep = []; move = []
            for d in ds:
                j = None
                if d.get('kind') == 'VarDecl' and 'init' not in d and (nty(d) in INT or nty(d) in ('bool', 'f64')) and not d.get('storageClass') and not d['type']['qualType'].strip().endswith('&'):
                    j = next((j for j in range(i, len(l)) if l[j] and mentions(l[j], d['id'])), None)
                    if j is not None:
                        a = self.strip(l[j])
                        # if (c) x = a; else x = b; is x = c ? a : b
                        if a.get('kind') == 'IfStmt' and len(a['inner']) == 3 and not a.get('hasVar') and not a.get('hasInit') and not mentions(a['inner'][0], d['id']):
                            br = []
                            for x in a['inner'][1:]:
                                while x.get('kind') == 'CompoundStmt' and len(x.get('inner', [])) == 1: x = x['inner'][0]
                                x = self.strip(x)
                                if x.get('kind') == 'BinaryOperator' and x.get('opcode') == '=' and self.strip(x['inner'][0]).get('kind') == 'DeclRefExpr' and self.strip(x['inner'][0])['referencedDecl']['id'] == d['id']: br.append(x)
                            if len(br) == 2 and all(self.pure(x['inner'][1]) for x in br):
                                a = dict(br[0]); a['inner'] = [br[0]['inner'][0], dict(kind='ConditionalOperator', type=br[0]['inner'][1]['type'], range=br[0].get('range'), inner=[l[j]['inner'][0] if l[j].get('kind') == 'IfStmt' else self.strip(l[j])['inner'][0]] + [x['inner'][1] for x in br])]
                        if not (a.get('kind') == 'BinaryOperator' and a.get('opcode') == '=' and self.strip(a['inner'][0]).get('kind') == 'DeclRefExpr' and self.strip(a['inner'][0])['referencedDecl']['id'] == d['id'] and not mentions(a['inner'][1], d['id'])): j = None
                if j is None: keep.append(d)
                else: move.append((d, j, a))
            if not move: continue
            s = dict(s); s['inner'] = keep; l[i - 1] = s
            for d, j, a in move:
                d2 = dict(d); d2['init'] = 'c'; d2['inner'] = [x for x in d.get('inner', []) if x.get('kind', '').endswith('Attr')] + [a['inner'][1]]
                r = dict(l[j]); l[j] = dict(kind='DeclStmt', range=r.get('range'), inner=[d2])
                for f in ('_line', 'line'):
                    if f in r: l[j][f] = r[f]
        return l
    def stmt(self, n):
        if not n or 'kind' not in n: return
        self.setline(n)
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(n)
        v = self.ex(n)
        if v is not None and v.s and v.s not in ('()',) and '(' in v.s and v.place is None and v.t != 'void' and v.base is None:
            self.w('let _ = %s;' % v.s)
    def s_NullStmt(self, n): pass
    def s_CompoundStmt(self, n):
        # a block that hides no variable of an enclosing one is not a block in the output: the annotations may name what it declares
        sv = dict(self.vars); lv = self.live() | set(self.con['params'])
        _, b = self.sub(lambda: self.stmts(n.get('inner', [])))
        self.vars = sv
        hides = lv & set(re.findall(r'\blet (?:ghost )?(?:mut )?(\w+)', ' '.join(x[0] for x in b)))
        if hides: self.w('{')
        self.out += b
        if hides: self.w('}')
    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            self.decl(d)
            if d.get('kind') == 'VarDecl': self.hint('decl:' + self.vname(d.get('name', '')))
    def decl(self, d):
        k = d.get('kind')
        if k in ('StaticAssertDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl'): return
        if k != 'VarDecl': self.bug(d, 'declaration ' + str(k))
        d['_tu'] = self.tu; self.p.byid[(self.tu, d['id'])] = d
        t = nty(d); q = d['type']['qualType'].strip()
        isref = q.endswith('&')
        ini = [x for x in d.get('inner', []) if not x.get('kind', '').endswith('Attr')]
        ini = ini[-1] if ini else None
        name = d.get('name', '')
        nm = self.fresh(name)
        if not self.inl and nm in self.con['params']: nm += '_v'
        if t.startswith('arr:'):
            il = self.strip(ini) if ini else None
            if il is None or il.get('kind') != 'InitListExpr': self.bug(d, 'array')
            vals = [self.p.ceval(x, self.tu) for x in il.get('inner', [])]
            if any(v is None for v in vals): self.bug(d, 'array initializer')
            fn = self.gen.table_fn(vals, t[4:])
            self.vars[d['id']] = V(fn, 'tbl:' + t[4:]); return
        if isref:
            s = self.strip(ini)
            p = self.placeor(ini)
            self.vars[d['id']] = p
            if p.cont is not None: self.bug(d, 'reference to an element')
            return
        if t.startswith('ptr:'):
            if ini is None: self.bug(d, 'uninitialised pointer')
            i2 = self.strip(ini)
            if i2.get('kind') == 'CXXNewExpr':
                e = t[4:]
                szn = [x for x in i2.get('inner', []) if x.get('kind') not in ('CXXConstructExpr', 'InitListExpr')]
                sz = self.ex(szn[0])
                buf = nm
                self.w('let mut %s: %s = new_array_%s(%s);' % (buf, rt(vec_of(e)), e, self.as_u64(sz)))
                self.vars[d['id']] = V('', t, base=Place(buf, buf, vec_of(e), True, own=True), off='0i64'); return
            v = self.ex(ini)
            if v.base is None:
                if v.t == 'null' or v.flag is not None: self.vars[d['id']] = v; return
                self.bug(d, 'pointer')
            # a pointer variable is an offset into a fixed container
            self.w('let mut %s: i64 = %s;' % (nm, v.off))
            self.vars[d['id']] = V('', t, base=v.base, off=nm); return
        if t in ('f64',) and ini is not None:
            v = self.ex(ini); v = self.cast(v, 'f64')
            self.w('let mut %s: F64 = %s;' % (nm, v.s)); self.vars[d['id']] = Place(nm, nm, t, True, own=True); return
        if ini is None or (ini.get('kind') == 'CXXConstructExpr' and not ini.get('inner') and t == 'DoubleULong'):
            if t in INT or t == 'bool': s = 'arb_%s()' % t
            elif t in ELEM: s = 'vec_empty_%s()' % ELEM[t]
            elif t == 'DoubleULong': s = 'DoubleULong { uu: arb_u64() }'
            elif t in STRUCTS: s = self.gen.default_struct(self, t)
            else: self.bug(d, 'variable of type ' + t)
            self.w('let mut %s: %s = %s;' % (nm, rt(t), s))
        else:
            v = self.own(self.ex(ini))
            if t.startswith('?'): t = v.t
            if v.t != t and (t in INT or t == 'bool'): v = self.cast(v, t)
            if v.t != t: self.bug(d, 'initialising %s with %s' % (t, v.t))
            self.w('let mut %s: %s = %s;' % (nm, rt(t), v.s))
        self.vars[d['id']] = Place(nm, nm, t, True, own=True)
    def s_ReturnStmt(self, n):
        if self.inl: self.bug(n, 'return in inlined function')
        f = self.f; con = self.con
        inn = n.get('inner', [])
        ctor = f.kind == 'CXXConstructorDecl'
        if ctor: val = self.vars['this'].s; 
        elif f.retref or f.ret == 'void':
            if inn:
                v = self.ex(inn[0])
                if f.retref and (v.place is None or v.place.s != self.vars['this'].s):
                    self.bug(n, 'returns a reference other than *this')
            val = '()'
        else:
            v = self.own(self.ex(inn[0]))
            if v.t != f.ret and (f.ret in INT or f.ret == 'bool'): v = self.cast(v, f.ret)
            if v.t != f.ret: self.bug(n, 'returns %s for %s' % (v.t, f.ret))
            val = v.s
            # local variables are moved, parameters by reference are cloned by own()
        self.do_return(val)
    def do_return(self, val):
        con = self.con; f = self.f
        if val != '()' :
            r = 'r_'
            self.w('let r_ = %s;' % val); val = r
        self.hint('ret', {'r': val})
        live = {re.sub(r'[()*&]|mut ', '', v.s or '').strip() for v in self.vars.values() if getattr(v, 's', None)}
        for pos in list(self.con.get('hints', {})):
            if pos.startswith('ret?') and all(x in live for x in pos[4:].split(',')): self.hint(pos)
        self.w('return %s;' % ('Ok(%s)' % val if con.get('throws') else val) if val != '()' or con.get('throws') else 'return;')
    def s_IfStmt(self, n):
        inn = n['inner']
        if len(inn) == 2 and not n.get('hasVar') and not n.get('hasInit'):
            d = inn[1]
            while d.get('kind') == 'CompoundStmt' and len(d.get('inner', [])) == 1: d = d['inner'][0]
            # if (c) do s while (c); is while (c) s
            if d.get('kind') == 'DoStmt' and self.pure(inn[0]) and self.strip(inn[0]) and same(self.strip(inn[0]), self.strip(d['inner'][1])): return self.loop(inn[0], None, d['inner'][0])
        if n.get('hasVar') or n.get('hasInit'):
            self.w('{'); sv = dict(self.vars)
            self.stmt(inn[0]); inn = inn[1:]
            self.if_(inn); self.w('}'); self.vars = sv; return
        self.if_(inn)
    def if_(self, inn):
        c = self.cast(self.ex(inn[0]), 'bool')
        self.w('if %s {' % c.s)
        sv = dict(self.vars)
        self.body(inn[1]); self.vars = dict(sv)
        if len(inn) > 2:
            self.w('} else {'); self.body(inn[2]); self.vars = dict(sv)
        self.w('}')
    def body(self, n):
        if n.get('kind') == 'CompoundStmt': self.stmts(n.get('inner', []))
        else: self.stmt(n)
    def s_SwitchStmt(self, n):
        inn = [x for x in n['inner'] if x and 'kind' in x]
        v = self.ex(inn[0])
        t = self.t(); self.w('let %s: %s = %s;' % (t, rt(v.t), v.s))
        groups = []   # (labels, stmts)
        def flat(s):
            labs = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    c = self.p.ceval(s['inner'][0], self.tu)
                    if c is None: self.bug(s, 'case label')
                    labs.append(c); s = s['inner'][-1]
                else: labs.append('default'); s = s['inner'][-1]
            return labs, s
        for s in inn[1].get('inner', []):
            labs, b = flat(s)
            if labs: groups.append((labs, [b]))
            else: groups[-1][1].append(b)
        # each group must end by break/return/throw, or be the last
        def ends(l):
            return l and (l[-1].get('kind') == 'BreakStmt' or self.always_ret(l[-1]) or (l[-1].get('kind') == 'CompoundStmt' and ends(l[-1].get('inner', []))))
        def strip_break(l):
            if l and l[-1].get('kind') == 'BreakStmt': return l[:-1]
            if l and l[-1].get('kind') == 'CompoundStmt':
                c = dict(l[-1]); c['inner'] = strip_break(c.get('inner', [])); return l[:-1] + [c]
            return l
        for _, b in groups:
            while b and b[-1].get('kind') == 'NullStmt': b.pop()
        for i, (labs, b) in enumerate(groups):
            if i < len(groups) - 1 and not ends(b): self.bug(n, 'switch fallthrough')
        dflt = [g for g in groups if 'default' in g[0]]
        others = [g for g in groups if 'default' not in g[0]]
        self.break_ctx.append('switch')
        sv = dict(self.vars)
        depth = 0
        for labs, b in others:
            self.w('if %s {' % ' || '.join('%s == %s' % (t, lit(l, v.t)) for l in labs)); self.stmts(strip_break(b)); self.vars = dict(sv); self.w('} else {'); depth += 1
        if dflt: self.stmts(strip_break(dflt[0][1])); self.vars = dict(sv)
        for _ in range(depth): self.w('}')
        self.break_ctx.pop()
    def s_BreakStmt(self, n):
        if not self.break_ctx or self.break_ctx[-1] == 'switch': self.bug(n, 'break inside switch')
        if self.annot(): self.hint('L%d.break' % self.loops[-1]['k'])
        self.w('break;')
    def s_ContinueStmt(self, n):
        i = len(self.loops) - 1
        inc = self.loops[-1]['inc']
        if inc is not None:
            e = self.ex(inc)
        self.loop_end(self.loops[-1])
        self.w('continue;')
    def loop_end(self, lp):
        if lp.get('recond'): lp['recond']()
        if self.annot(): self.hint('L%d.end' % lp['k'])
    def s_ForStmt(self, n):
        init, cvar, cond, inc, body = n['inner']
        sv = dict(self.vars)
        ini = init and 'kind' in init
        if ini: self.w('{'); self.stmt(init)
        self.loop(cond if cond and 'kind' in cond else None, inc if inc and 'kind' in inc else None, body)
        self.vars = sv
        if ini:
            self.w('}')
            if self.annot():
                k, roots = self.lastloop
                for root in roots:
                    info = self.rootinfo(root)
                    if info is not None: self.w('let ghost %s_a%d = %s;' % (root, k, self.gh(info[0], info[1])))
    def s_WhileStmt(self, n):
        inn = n['inner']
        self.loop(inn[0], None, inn[1])
    def s_DoStmt(self, n):
        body, cond = n['inner']
        self.loop(cond, None, body, do=True)
    def s_CXXForRangeStmt(self, n):
        # [init, range decl, begin, end, cond, inc, loop var, body]
        inn = [x for x in n['inner']]
        rng = None; loopvar = None
        for x in inn:
            if x and x.get('kind') == 'DeclStmt':
                for d in x.get('inner', []):
                    if d.get('name', '').startswith('__range'): rng = d
                    elif not d.get('name', '').startswith('__'): loopvar = d
        body = inn[-1]
        c = self.place(self.strip(rng['inner'][-1]))
        e = ELEM[c.t]
        if loopvar['type']['qualType'].strip().endswith('&') and not loopvar['type']['qualType'].startswith('const') and self.assigned(loopvar['id'], body): self.bug(n, 'range loop by reference')
        self.w('{'); sv = dict(self.vars)
        ri = self.fresh('ri')
        self.w('let mut %s: u64 = 0u64;' % ri)
        rp = Place(ri, ri, 'u64', True)
        nm = self.fresh(loopvar['name'])
        def pre():
            self.w('let mut %s: %s = vget_%s(&%s, %s);' % (nm, e, e, c.s, ri))
            self.vars[loopvar['id']] = Place(nm, nm, e, True, own=True)
        def inc():
            self.note(rp, 'whole')
            self.w('%s = add_u64(%s, 1u64);' % (ri, ri))
        self.loop(('raw', '(%s < vsize_%s(&%s))' % (ri, e, c.s), '(%s < %s@.len())' % (ri, c.s), '%s@.len() - %s' % (c.s, ri)), ('raw', inc), body, pre)
        self.vars = sv; self.w('}')
    def find_loop_con(self, k):
        if not self.annot(): return {}
        return self.con.get('loops', {}).get(k, {})
    def pure(self, n):
        k = n.get('kind', '')
        if k in ('CompoundAssignOperator', 'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') or k == 'BinaryOperator' and n['opcode'] == '=' or k == 'UnaryOperator' and n['opcode'] in ('++', '--'): return False
        return all(self.pure(x) for x in n.get('inner', []) if x)
    def loop_cond(self, cond, body):
        """for (;;) { if (c) break; s } is while (!c) s"""
        c = self.strip(cond) if cond else None
        if c is not None and not (c.get('kind') == 'CXXBoolLiteralExpr' and c.get('value') in (True, 'true') or c.get('kind') == 'IntegerLiteral' and c.get('value') == '1'): return cond, body
        l = [x for x in body.get('inner', []) if x and x.get('kind') != 'NullStmt'] if body.get('kind') == 'CompoundStmt' else [body]
        if not l or l[0].get('kind') != 'IfStmt' or l[0].get('hasVar') or l[0].get('hasInit') or len(l[0]['inner']) != 2: return cond, body
        b = l[0]['inner'][1]
        while b.get('kind') == 'CompoundStmt' and len(b.get('inner', [])) == 1: b = b['inner'][0]
        if b.get('kind') != 'BreakStmt': return cond, body
        nb = dict(body) if body.get('kind') == 'CompoundStmt' else dict(kind='CompoundStmt', range=body.get('range'))
        nb['inner'] = l[1:]
        return self.negated(l[0]['inner'][0]), nb
    def negated(self, c):
        b = c
        while b.get('kind') in ('ParenExpr', 'ExprWithCleanups') or b.get('kind') == 'ImplicitCastExpr' and b['inner'][0]['type']['qualType'] == 'bool': b = b['inner'][0]
        if b.get('kind') == 'UnaryOperator' and b.get('opcode') == '!': 
            b = b['inner'][0]
            while b.get('kind') == 'ParenExpr': b = b['inner'][0]
            return b
        if b.get('kind') == 'BinaryOperator' and b['opcode'] in ('<', '>', '<=', '>=', '==', '!=') and nty(b['inner'][0]) in INT:
            r = dict(b); r['opcode'] = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[b['opcode']]; return r
        if b.get('kind') == 'BinaryOperator' and b['opcode'] in ('&&', '||'):
            r = dict(b); r['opcode'] = '||' if b['opcode'] == '&&' else '&&'; r['inner'] = [self.negated(x) for x in b['inner']]; return r
        return dict(kind='UnaryOperator', opcode='!', type={'qualType': 'bool'}, range=c.get('range'), inner=[c])
    def loop(self, cond, inc, body, pre=None, do=False):
        if not do and not isinstance(cond, tuple): cond, body = self.loop_cond(cond, body)
        if self.annot():
            self.loopno += 1; k = self.loopno
            if self.perm: k = self.perm[k - 1] + 1
            while len(self.skel) < k: self.skel.append(None); self.lfeat.append(None)
            self.skel[k - 1] = [len(self.loops), []]; self.lfeat[k - 1] = feats(cond, inc, body); self.lno = k
        else: k = 0
        lc = self.find_loop_con(k)
        mods = {}
        self.mods.append(mods)
        lp = {'k': k, 'inc': None, 'mods': mods}
        self.loops.append(lp); self.break_ctx.append('loop')
        lcv = None
        dec = lc.get('dec'); csp = None
        try:
            prelines = []
            if cond is None: cs = 'true'; clines = []; cv = V('true', 'bool', sp='true')
            elif isinstance(cond, tuple): cv = V(cond[1], 'bool', sp=cond[2]); clines = []; dec = dec or cond[3]
            else:
                cv, clines = self.sub(lambda: self.cast(self.ex(cond), 'bool'))
                if dec is None: dec = self.auto_dec(cond, cv)
                # `x--` in the condition: the measure and the condition in terms of x after it
                for tn in set(re.findall(r'\bt\d+_', (dec or '') + ' ' + (cv.sp or ''))):
                    m = [re.match(r'\s*let (?:mut )?%s\b[^=]*= (\w+);$' % tn, x[0]) for x in clines]
                    m = [x.group(1) for x in m if x]
                    st = m and [x[0] for x in clines if re.match(r'\s*%s = (\(%s [-+] 1|(sub|add)_\w+\(%s, 1)' % (m[0], tn, tn), x[0])]
                    if not st or len(st) != 1: continue
                    by = '(%s %s 1)' % (m[0], '+' if re.search(r' - 1|= sub_', st[0]) else '-')
                    if dec: dec = re.sub(r'\b%s\b' % tn, by, dec)
                    if cv.sp: cv = V(cv.s, 'bool', sp=re.sub(r'\b%s\b' % tn, by, cv.sp))
                if dec and re.search(r'\bt\d+_', dec): dec = None
            if do:
                clines = clines or [('', self.line)]
                dof = 'do%s_' % (k or self.gen.inl_count)
            if clines:
                lcv = 'lc%d_' % k if k else 'lci%d_' % self.gen.inl_count
                lp['recond'] = None
                def recond():
                    v2, l2 = self.sub(lambda: self.cast(self.ex(cond), 'bool'))
                    self.out += l2; self.w('%s = %s;' % (lcv, v2.s))
                    if do: self.w('proof { %s = false; }' % dof)
                lp['recond'] = recond
            if self.annot(): self.hint('L%d.pre' % k)
            def mk():
                self.w('/*start*/')
                if self.annot(): self.hint('L%d.start' % k)
                if pre: pre()
                sv = dict(self.vars)
                lp['inc'] = inc if not isinstance(inc, tuple) else None
                if isinstance(inc, tuple): lp['inc'] = None; lp['rawinc'] = inc[1]
                self.body(body)
                self.vars = sv
                if self.annot(): self.hint('L%d.mid' % k)
                if inc is not None:
                    if isinstance(inc, tuple): inc[1]()
                    else: self.stmt_expr(inc)
                self.loop_end(lp)
            _, blines = self.sub(mk)
        finally:
            self.mods.pop(); self.loops.pop(); self.break_ctx.pop()
        for m in self.mods:
            for a, b in mods.items():
                if b == 'whole' or a not in m: m[a] = b if m.get(a) != 'whole' else 'whole'
        decl_in = set(re.findall(r'let mut (\w+)', ' '.join(x[0] for x in blines)))
        outer = {a: b for a, b in mods.items() if re.match(r'[(*]*(\w+)', a).group(1) not in decl_in or re.match(r'[(*]*(\w+)', a).group(1) in self.live()}
        if do:
            self.w('let mut %s: bool = true; let ghost mut %s = true;' % (lcv, dof))
        elif clines:
            self.out += clines
            self.w('let mut %s: bool = %s;' % (lcv, cv.s))
        inv = []
        auto = []
        roots = {}
        for a, b in outer.items():
            root = re.match(r'[(*]*(\w+)', a).group(1)
            roots.setdefault(root, []).append((a, b))
        if k: self.skel[k - 1][1] = sorted([r for r in roots if not re.match(r't\d+_$|\w+__\d+$', r)] + (['!do'] if do else ['!cond'] if lcv else []))
        for root, l in sorted(roots.items()):
            info = self.rootinfo(root)
            if info is None: continue
            t, expr = info
            g = '%s_p%d' % (root, k)
            self.w('let ghost %s = %s;' % (g, self.gh(t, expr)))
            for a, b in l:
                if b == 'elem':
                    pt = self.gh_field(a, root, g, t)
                    auto.append('%s@.len() == %s.len()' % (a, pt))
        if k: 
            for root, l in roots.items():
                info = self.rootinfo(root)
        self.w('#[verifier::loop_isolation(false)]')
        if lc.get('xinv') or lc.get('ens'): self.w('#[verifier::allow_complex_invariants]')
        if lcv:
            self.w('while %s' % lcv)
            if do:
                if cv.sp and not re.search(r'\bt\d+_', cv.sp): auto.append('!%s ==> !(%s)' % (lcv, cv.sp))
            elif cv.sp and lc.get('autocond', True) and not re.search(r'\bt\d+_', cv.sp): auto.append('%s == %s' % (lcv, cv.sp))
        else: self.w('while %s' % cv.s)
        allinv = auto + [x.replace('$c', lcv or '(%s)' % (cv.sp or cv.s)) for x in lc.get('inv', []) if '$c' not in x or lcv or cv.sp]
        if lc.get('xinv'): self.w('invariant_except_break ' + ', '.join('\n    (%s)' % x for x in lc['xinv']))
        if allinv: self.w('invariant ' + ', '.join('\n    (%s)' % x for x in allinv))
        if lc.get('ens'): self.w('ensures ' + ', '.join('\n   (%s)' % x for x in lc['ens']))
        if not dec: dec = self.base_dec()
        if k and dec and not re.search(r'\bt\d+_|__\d', dec): self.skel[k - 1].append(dec)
        if not dec: dec = '0int /* no measure */'
        self.w('decreases %s%s' % ('if %s { 1int } else { 0int }, ' % dof if do else '', dec))
        self.w('{')
        # body-begin ghosts
        bg = []
        for root, l in sorted(roots.items()):
            info = self.rootinfo(root)
            if info is None: continue
            bg.append(('let ghost %s_b%d = %s;' % (root, k, self.gh(info[0], info[1])), self.line))
        i = [j for j, x in enumerate(blines) if x[0] == '/*start*/'][0]
        self.out += blines[:i] + bg + blines[i + 1:]
        self.w('}')
        if k:
            for root, l in sorted(roots.items()):
                info = self.rootinfo(root)
                if info is not None: self.w('let ghost %s_a%d = %s;' % (root, k, self.gh(info[0], info[1])))
        if self.annot(): self.hint('L%d.after' % k)
        self.lastloop = (k, sorted(roots))
    def stmt_expr(self, e):
        e2 = self.strip(e)
        if e2.get('kind') == 'UnaryOperator' and e2['opcode'] in ('++', '--'):
            e3 = dict(e2); e3['isPostfix'] = False
            self.ex(e3); return
        if e2.get('kind') == 'BinaryOperator' and e2['opcode'] == ',':
            self.stmt_expr(e2['inner'][0]); self.stmt_expr(e2['inner'][1]); return
        self.stmt(e)
    def s_UnaryOperator(self, n):
        if n['opcode'] in ('++', '--'): self.stmt_expr(n)
        else: self.ex(n)
    def live(self):
        r = set()
        for v in self.vars.values():
            if isinstance(v, Place): r.add(v.root)
            elif isinstance(v, V) and v.off: r.add(v.off)
        return r
    def rootinfo(self, root):
        for v in self.vars.values():
            if isinstance(v, Place) and v.root == root and re.match(r'^(\(\*\w+\)|\w+)$', v.s):
                return v.t, v.s
            if isinstance(v, V) and v.off == root: return 'i64', root
            if isinstance(v, V) and v.base is not None and v.base.root == root and re.match(r'^(\(\*\w+\)|\w+)$', v.base.s): return v.base.t, v.base.s
            if isinstance(v, V) and v.place is not None and v.place.root == root: return v.place.t, v.place.s
        return None
    def gh(self, t, e):
        return e + '@' if t in ELEM else e
    def gh_field(self, a, root, g, t):
        if t in ELEM: return g
        return a.replace('(*%s)' % root, g).replace(root, g, 1) + '@' if '(*' not in a else a.replace('(*%s)' % root, g) + '@'
    def base_dec(self):
        """the termination measure of the corresponding loop of the annotated source"""
        b = (self.gen.base.get(self.f.key) or {}).get('skel') if self.gen.base else None
        return b[self.lno - 1][2] if b and self.annot() and 0 < self.lno <= len(b) and len(b[self.lno - 1]) > 2 else None
    def auto_dec(self, cond, cv):
        c = self.strip(cond)
        if c.get('kind') == 'BinaryOperator':
            o = c['opcode']
            if o == '&&':
                ds = [(self.strip(x).get('opcode') in ('!=', '&&'), i, self.auto_dec(x, None)) for i, x in enumerate(c['inner'])]
                ds = sorted((a, b, d) for a, b, d in ds if d)
                return ds[0][2] if ds else None
            def spx(n):
                v, l = self.sub(lambda: self.ex(n)); return v.sp
            try: a, b = spx(c['inner'][0]), spx(c['inner'][1])
            except Unsupported: return None
            if a is None or b is None: return None
            if o in ('<',): return '(%s) - (%s)' % (b, a)
            if o in ('<=',): return '(%s) - (%s) + 1' % (b, a)
            if o in ('>',): return '(%s) - (%s)' % (a, b)
            if o in ('>=',): return '(%s) - (%s) + 1' % (a, b)
            if o == '!=' and self.base_dec(): return self.base_dec()
            if o == '!=': return '(%s) - (%s)' % ((a, b) if b in ('0', '0i32', '0u32', '0u64', '0i64') else (b, a))
        return None
    def s_CXXTryStmt(self, n):
        body = n['inner'][0]
        sv = self.con.get('throws')
        if sv:
            # every handler throws in its turn: the body's exceptions leave the function as some exception
            for h in n['inner'][1:]:
                st = [x for x in h['inner'] if x and x.get('kind') == 'CompoundStmt'][-1].get('inner', [])
                if not st or self.strip(st[-1]).get('kind') != 'CXXThrowExpr' or len(st) != 1: self.bug(n, 'try whose handler does not just throw')
            self.intry = getattr(self, 'intry', 0) + 1
            self.w('{'); self.s_CompoundStmt(body); self.w('}'); self.intry -= 1
            return
        # kept only when the body cannot throw (then the handlers are dead)
        self.con = dict(self.con); self.con['throws'] = False
        self.s_CompoundStmt(body)
    def s_CXXThrowExpr(self, n):
        x = self.strip(n['inner'][0])
        ty = n['inner'][0]['type']['qualType'] if n.get('inner') else '?'
        nm = {'DivideByZero': 'DivideByZero', 'std::overflow_error': 'Overflow', 'std::out_of_range': 'OutOfRange', 'std::runtime_error': 'Runtime', 'overflow_error': 'Overflow'}.get(ty.replace('class ', ''), 'Other')
        self.hint('throw')
        if not self.con.get('throws'):
            self.w('no_throw_(); return unreached_(); // throw %s: the contract allows no exception here' % ty); return
        self.w('return Err(%s);' % self.exc('Exc::' + nm))
    x_CXXThrowExpr = lambda self, n: (self.s_CXXThrowExpr(n), V('()', 'void'))[1]
    def x_CXXDeleteExpr(self, n): return V('()', 'void')

    def ctor_inits(self, f, thisp):
        for x in f.inits:
            nm = x.get('anyInit', {}).get('name')
            if nm is None: 
                if x.get('inner') and x['inner'][0].get('kind') == 'CXXConstructExpr' and nty(x['inner'][0]) == f.cls:   # delegating
                    v = self.own(self.ex(x['inner'][0])); self.w('%s = %s;' % (thisp.s, v.s))
                continue
            i = x['inner'][0]
            t = [t for (a, t, _) in self.p.records[f.cls] if a == nm][0]
            if i.get('kind') == 'CXXDefaultInitExpr': continue     # done by default_struct
            if i.get('kind') == 'CXXConstructExpr' and not i.get('inner'): continue
            v = self.own(self.ex(i))
            if v.t != t and t in INT: v = self.cast(v, t)
            self.write(Place(thisp.s + '.' + nm, thisp.root, t, True), v.s)

    # -------- whole function
    def assigned(self, pid, n, isptr=False):
        """is the by-value parameter written in the body (syntactically)?"""
        k = n.get('kind')
        def isit(x):
            x = self.strip(x)
            while not isptr and (x.get('kind') in ('MemberExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr') or (x.get('kind') == 'CXXOperatorCallExpr' and self.opname(x) == '[]')):
                x = self.strip(x['inner'][1] if x.get('kind') == 'CXXOperatorCallExpr' else x['inner'][0])
            return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == pid
        if k == 'BinaryOperator' and n['opcode'] == '=' and isit(n['inner'][0]): return True
        if k == 'CompoundAssignOperator' and isit(n['inner'][0]): return True
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and isit(n['inner'][0]): return True
        if k == 'DeclRefExpr' and n['referencedDecl']['id'] == pid and not self.inl: pass
        return any(self.assigned(pid, x, isptr) for x in n.get('inner', []) if x and 'kind' in x)
    def run(self):
        f, con = self.f, self.con
        sig = []; pro = []
        names = con['params']
        if len(names) != len(f.params): raise Unsupported(f.key + ': contract has %d parameters, source %d' % (len(names), len(f.params)))
        if f.kind == 'CXXConstructorDecl':
            pro.append('let mut this: %s = %s;' % (f.cls, self.gen.default_struct(self, f.cls)))
            self.vars['this'] = Place('this', 'this', f.cls, True, own=True)
        elif not f.static:
            m = con.get('this')
            if m:
                sig.append('this: &%s%s' % ('mut ' if m == 'mut' else '', f.cls))
                self.vars['this'] = Place('(*this)', 'this', f.cls, m == 'mut')
            else:
                self.vars['this'] = Place('no_this_', 'this', f.cls, False)
        alias = con.get('alias') or {}     # parameter -> the parameter (or this) that names the same object
        aliased = []
        for p, nm in zip(f.params, names):
            t = nty(p); q = p['type']['qualType'].strip(); isref = q.endswith('&')
            mode = con['modes'].get(nm)
            if nm in alias:
                if not isref: raise Unsupported(f.key + ': parameter %s is passed by value' % nm)
                aliased.append((p, nm)); continue
            if t == 'ptr:i32':
                sig.append('%s: &mut i32' % nm); sig.append('%s_nn: bool' % nm)
                self.vars[p['id']] = V('', t, place=Place('(*%s)' % nm, nm, 'i32', True), flag=nm + '_nn'); continue
            if t.startswith('ptr:'):
                e = t[4:]; vt = vec_of(e)
                sig.append('%s: &%s%s' % (nm, 'mut ' if mode == 'mut' else '', rt(vt))); sig.append('%s_o: i64' % nm)
                off = nm + '_o'
                if self.assigned(p['id'], f.body, True): pro.append('let mut %s: i64 = %s;' % (off, off))
                self.vars[p['id']] = V('', t, base=Place('(*%s)' % nm, nm, vt, mode == 'mut'), off=off); continue
            if t in INT or t in SCALAR:
                if mode == 'mut':
                    sig.append('%s: &mut %s' % (nm, rt(t))); self.vars[p['id']] = Place('(*%s)' % nm, nm, t, True); continue
                sig.append('%s: %s' % (nm, rt(t)))
                mut = not isref
                if self.assigned(p['id'], f.body):
                    if isref: raise FrameFail('%s writes its parameter %s' % (f.key, nm))
                    pro.append('let mut %s: %s = %s;' % (nm, rt(t), nm))
                self.vars[p['id']] = Place(nm, nm, t, mut); continue
            if mode == 'mut':
                sig.append('%s: &mut %s' % (nm, rt(t))); self.vars[p['id']] = Place('(*%s)' % nm, nm, t, True); continue
            sig.append('%s: &%s' % (nm, rt(t)))
            if not isref and not q.startswith('const '):
                # by-value object: the function owns a copy
                pro.append('let mut %s: %s = clone_%s(%s);' % (nm + '_c', rt(t), t, nm))
                self.vars[p['id']] = Place(nm + '_c', nm + '_c', t, True, own=True)
            else:
                self.vars[p['id']] = Place('(*%s)' % nm, nm, t, False)
        for p, nm in aliased:
            to = alias[nm]
            self.vars[p['id']] = self.vars['this'] if to == 'this' else self.vars[[x['id'] for x, n2 in zip(f.params, names) if n2 == to][0]]
        for x in pro: self.w(x)
        self.hint('entry')
        if f.kind == 'CXXConstructorDecl': self.ctor_inits(f, self.vars['this'])
        self.stmts(f.body.get('inner', []))
        last = f.body.get('inner', [])[-1] if f.body.get('inner') else None
        void = f.ret == 'void' or f.retref or f.kind == 'CXXConstructorDecl'
        if void and not (last and self.always_ret(last)):
            self.do_return(self.vars['this'].s if f.kind == 'CXXConstructorDecl' else '()')
        elif not void and not (last and self.always_ret(last)):
            self.w('return unreached_();') 
        rtt = 'void' if f.retref or f.ret == 'void' else f.ret
        if f.kind == 'CXXConstructorDecl': rtt = f.cls
        return sig, rtt

def mentions(n, i):
    if not isinstance(n, dict): return False
    return n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == i or any(mentions(x, i) for x in n.get('inner', []))
def same(a, b):
    """the same expression"""
    for f in ('kind', 'opcode', 'value', 'name', 'isPostfix', 'castKind'):
        if a.get(f) != b.get(f): return False
    if a.get('referencedDecl', {}).get('id') != b.get('referencedDecl', {}).get('id') or a.get('referencedMemberDecl') != b.get('referencedMemberDecl'): return False
    x, y = a.get('inner', []), b.get('inner', [])
    return len(x) == len(y) and all(same(u, w) for u, w in zip(x, y))
def feats(*ns):
    """what a loop is made of: operators and literals with their surroundings, no names"""
    out = []
    def walk(n, up):
        if not isinstance(n, dict) or 'kind' not in n: return
        k = n['kind']
        if k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): me = up
        else:
            me = k + n.get('opcode', '') + (str(n.get('value', '')) if 'Literal' in k else '')
            out.append(me); out.append(up + '>' + me)
        for x in n.get('inner', []): walk(x, me)
    for n in ns: walk(n, '')
    return sorted(out)

class Gen:
    """generates the Verus crate for a set of functions"""
    def __init__(self, prog, contracts, renames=None, base=None):
        self.p = prog; self.C = contracts
        self.extra = {}
        self.inl_count = 0
        self.calls = {}
        self.renames = renames or {}
        self.base = base
        self.skel = {}; self.lfeat = {}
        self.errors = {}     # key -> (kind, message)
        self.text = {}
        self.locals = {}
    def note_call(self, tr, key): self.calls.setdefault(tr.f.key, set()).add(key)
    def static_fn(self, q): return 'static_' + q.replace('::', '__')
    def default_struct(self, tr, t):
        fs = []
        for nm, ft, ini in self.p.records[t]:
            if ini is not None:
                c = self.p.ceval(ini, tr.tu); fs.append('%s: %s' % (nm, lit(c, ft)))
            elif ft in INT or ft == 'bool': fs.append('%s: arb_%s()' % (nm, ft))
            elif ft in ELEM: fs.append('%s: vec_empty_%s()' % (nm, ELEM[ft]))
            else: raise Unsupported('field %s of %s' % (nm, t))
        return '%s { %s }' % (t, ', '.join(fs))
    def mask_fn(self, t, m):
        w, s = INT[t]
        mm = m & ((1 << w) - 1)
        name = 'and_%s_%x' % (t, mm)
        if name in self.extra: return name
        if mm in (0, (1 << w) - 1):
            self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) ensures r == %s { %s }' % (name, t, t, 'a' if mm else '0', 'a' if mm else '0')
            return name
        facts = []
        if not s:
            if mm & (mm + 1) == 0 and mm: facts.append('r == a %% %d' % (mm + 1))
            inv = ~mm & ((1 << w) - 1)
            if inv & (inv + 1) == 0 and inv: facts.append('(r == a - a %% %d)' % (inv + 1)); facts.append('(r == 0) == (a < %d)' % (inv + 1))
            if mm & (mm - 1) == 0 and mm and mm & (mm + 1): facts.append('r == (a / %d %% 2) * %d' % (mm, mm)); facts.append('r == 0 || r == %d' % mm)
            body = ''.join(' assert((a & 0x%x%s) %s) by (bit_vector);' % (mm, t, '') for _ in [])
            a = []
            for x in facts: a.append('assert(%s) by (bit_vector) requires r == a & 0x%x;' % (x, mm))
            self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) ensures r == a & 0x%x, %s { let r = a & 0x%x; proof { %s } r }' % (name, t, t, mm, ', '.join(facts), mm, ' '.join(a))
        else:
            facts = ['wrap_u%d(r as int) == ((wrap_u%d(a as int) as u%d) & 0x%xu%d) as int' % (w, w, w, mm, w)]
            if mm & (mm + 1) == 0 and mm < 1 << (w - 1): facts.append('r as int == (a as int) %% %d' % (mm + 1))
            if mm == (1 << (w - 1)) - 1: facts.append('a >= 0 ==> r == a'); facts.append('a < 0 ==> r == a + 0x%x' % (1 << (w - 1)))
            pf = ''
            if mm & (mm + 1) == 0 and mm < 1 << (w - 1): pf = 'assert(m == u %% %d) by (bit_vector) requires m == u & 0x%xu%d;' % (mm + 1, mm, w)
            if mm and mm & (mm - 1) == 0 and mm < 1 << (w - 1):
                facts += ['r as int == (a as int / %d %% 2) * %d' % (mm, mm), 'r == 0 || r == %d' % mm]
                pf += 'assert(m == (u / %d %% 2) * %d) by (bit_vector) requires m == u & 0x%xu%d; assert(m == 0 || m == %d) by (bit_vector) requires m == u & 0x%xu%d;' % (mm, mm, mm, w, mm, mm, w)
            self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) ensures %s { let u = cast_i%d_u%d(a); let m = u & 0x%xu%d; proof { %s } cast_u%d_i%d(m) }' % (name, t, t, ', '.join(facts), w, w, mm, w, pf, w, w)
        return name
    def shift_fn(self, t, o, k):
        w, s = INT[t]
        name = '%s_%s_%d' % ('shl' if o == '<<' else 'sar' if s else 'shr', t, k)
        if name in self.extra: return name
        p = 1 << k
        if o == '>>' and not s:
            self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) ensures r == a / %d, r <= %d { assert(a >> %d%s == a / %d) by (bit_vector); a >> %d }' % (name, t, t, p, ((1 << w) - 1) >> k, k, t, p, k)
        elif o == '>>':
            body = 'if a >= 0 { a / %d } else { -1 - ((-1 - a) / %d) }' % (p, p) if k < w - 1 else 'if a >= 0 { 0 } else { -1 }'
            self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) ensures r as int == (a as int) / %d { %s }' % (name, t, t, p, body)
        elif not s:
            q = 1 << (w - k)
            f2 = 'r == (a %% %d) * %d' % (q, p) if k else 'r == a'
            self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) ensures %s, a as int * %d < %d ==> r as int == a as int * %d, r as int %% %d == 0 { let r = a << %d; proof { assert(%s) by (bit_vector) requires r == a << %d%s; assert(r %% %d == 0) by (bit_vector) requires r == a << %d%s; } r }' % (name, t, t, f2, p, 1 << w, p, p, k, f2, k, t, p, k, t)
            if k == 0: self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) ensures r == a { a }' % (name, t, t)
        else:
            self.extra[name] = 'pub fn %s(a: %s) -> (r: %s) requires a >= 0, a * %d <= %d ensures r == a * %d { %s }' % (name, t, t, p, (1 << (w - 1)) - 1, p, 'a * %d' % p if k < w - 1 else '0')
        return name
    def table_fn(self, vals, e):
        name = 'tbl_' + '_'.join(str(v).replace('-', 'm') for v in vals)
        if name not in self.extra:
            sp = ''.join('if i == %d { %d } else ' % (i, v) for i, v in enumerate(vals)) + '{ 0 }'
            ex = ''.join('if i == %du64 { %d%s } else ' % (i, v, e) for i, v in enumerate(vals)) + '{ 0%s }' % e
            self.extra[name] = 'pub open spec fn %s_s(i: int) -> int { %s }\npub fn %s(i: u64) -> (r: %s) requires i < %d ensures r as int == %s_s(i as int) { %s }' % (name, sp, name, e, len(vals), name, ex)
        return name
    def loop_order(self, src, skel, lfeat):
        """the loops of the annotated source in another order: position of each current loop among the annotated ones"""
        b = (self.base or {}).get(src) or {}
        o = b.get('skel'); of = b.get('lfeat')
        if not o or not of or len(o) != len(skel) or of == lfeat: return None
        from collections import Counter
        def sim(x, y):
            x, y = Counter(x), Counter(y)
            return sum((x & y).values()) / max(1, sum((x | y).values()))
        sc = sorted(((sim(of[i], lfeat[j]) + (0.01 if i == j else 0), -i, -j) for j, y in enumerate(skel) for i, x in enumerate(o) if x[:2] == y[:2]), reverse=True)
        pm = {}
        for _, i, j in sc:
            if -j not in pm and -i not in pm.values(): pm[-j] = -i
        if len(pm) != len(o) or all(i == j for i, j in pm.items()): return None
        return [pm[j] for j in range(len(o))]
    def function(self, key, tr_con=None, rust=None):
        """Verus text of one function: list of (line text, (key, source line))"""
        con = tr_con or self.C[key]
        src = con.get('src', key)
        f = self.p.fns.get(src)
        if f is None: raise Unsupported('no definition of ' + src)
        tr = Tr(self.p, self.C, f, con, self)
        sig, rtt = tr.run()
        pm = self.loop_order(src, tr.skel, tr.lfeat)
        if pm:
            tr = Tr(self.p, self.C, f, con, self); tr.perm = pm
            sig, rtt = tr.run()
        self.skel[key] = tr.skel; self.lfeat[key] = tr.lfeat
        name = rust or con.get('rust') or f.rust
        L = []
        src = (key, None)
        th = con.get('throws')
        r = rt(rtt) if rtt != 'void' else '()'
        if th: L.append('pub fn %s(%s) -> (rr_: Result<%s, Exc>)' % (name, ', '.join(sig), r))
        elif rtt == 'void': L.append('pub fn %s(%s)' % (name, ', '.join(sig)))
        else: L.append('pub fn %s(%s) -> (res: %s)' % (name, ', '.join(sig), r))
        if con.get('rlimit'): L.insert(0, '#[verifier::rlimit(%d)]' % con['rlimit'])
        for a in con.get('attrs', []): L.insert(0, a)
        if con.get('req'): L.append('    requires'); L += ['        (%s),' % x for x in con['req']]
        ens = con.get('ens', []); err = con.get('err', [])
        if th:
            L.append('    ensures')
            for x in ens: L.append('        (rr_ matches Ok(res) ==> (%s)),' % x)
            for x in err: L.append('        (rr_ matches Err(e) ==> (%s)),' % x)
            if not ens and not err: L.append('        true,')
        elif ens:
            L.append('    ensures'); L += ['        (%s),' % x for x in ens]
        if con.get('dec'): L.append('    decreases %s' % con['dec'])
        L.append('{')
        body = [(x, None) for x in L]
        # cur__K(p, j): p itself where loop K shifts p, p / 2^j where the loop leaves p alone
        def cur(m):
            k = int(m.group(1)); p, j = m.group(2), m.group(3)
            return '(%s as int)' % p if k > len(tr.skel) or p in tr.skel[k - 1][1] else '(%s as int / p2(%s as int))' % (p, j)
        body += [('    ' + re.sub(r'\bcur__(\d+)\((\w+), (\w+)\)', cur, s), ln) for s, ln in tr.out]
        body.append(('}', None))
        unused = set(con.get('hints', {})) - tr.uses
        self.unused_hints = getattr(self, 'unused_hints', {})
        if unused: self.unused_hints[key] = unused
        nl = set(con.get('loops', {}))
        if nl and max(nl) > tr.loopno: self.unused_hints.setdefault(key, set()).add('loop %d of %d' % (max(nl), tr.loopno))
        return body
