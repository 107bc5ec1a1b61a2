"""Symbolic interpreter for the Python of the repository (and of the contracts)."""
import copy
import ast
import os
import re
from fractions import Fraction
from .terms import *          # noqa
from . import terms as T
from . import prover
from .prover import add_fact, snapshot_facts, restore_facts, renorm, assign_atom, split_atom
from .values import *         # noqa
from . import values as V

W = V.W


# ------------------------------------------------------------------ paths
class PathCtl(object):
    def __init__(self, prefix):
        self.prefix, self.pos = prefix, 0
        self.taken = []
        self.alts = []
        self.pc = []       # 0/1 polys
        self.pcpos = []


PATHS = []
MAXPATHS = 600


class Outcome(object):
    def __init__(self, pc, kind, value, store, facts, taken, pcpos=()):
        self.pc, self.kind, self.value, self.store, self.facts, self.taken = pc, kind, value, store, facts, taken
        self.pcpos = pcpos

    @property
    def cond(self):
        r = ONE
        for p in self.pc:
            r = mul(r, p)
        return r


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


def explore(thunk, on_end=None):
    base = W.snapshot()
    bf = snapshot_facts()
    work = [[]]
    outs = []
    n = 0
    while work:
        n += 1
        if n > MAXPATHS:
            raise Unsupported("too many paths")
        prefix = work.pop()
        W.restore(base)
        restore_facts(bf)
        path = PathCtl(prefix)
        PATHS.append(path)
        try:
            try:
                v, kind = thunk(), 'ok'
            except PyRaise as e:
                v, kind = e, 'raise'
            except BreakEx:
                v, kind = None, 'break'
            except ContinueEx:
                v, kind = None, 'ok'
            except ReturnEx as e:
                v, kind = e.value, 'return'
            except PathAbort:
                v, kind = None, 'abort'
            if kind != 'abort':
                o = Outcome(path.pc, kind, v, W.store, snapshot_facts(), path.taken, path.pcpos)
                if on_end:
                    on_end(o)
                o.store = W.snapshot()
                outs.append(o)
        finally:
            PATHS.pop()
        work.extend(path.alts)
    W.restore(base)
    restore_facts(bf)
    return outs


def path_choice(n):
    """non-deterministic choice in range(n), explored exhaustively"""
    path = PATHS[-1]
    if path.pos < len(path.prefix):
        c = path.prefix[path.pos]
    else:
        c = 0
        for i in range(n - 1, 0, -1):
            path.alts.append(path.taken + [i])
    path.pos += 1
    path.taken.append(c)
    return c


def decide_atom(a):
    if prover.entails(P(a)):
        return True
    if prover.entails(ONE - P(a)):
        return False
    if not PATHS:
        raise Unsupported("undetermined condition %r outside of a path" % (a,))
    c = path_choice(2)
    lit = P(a) if c == 0 else ONE - P(a)
    add_fact(lit)
    add_pc(lit)
    if prover.contradictory():
        raise PathAbort()
    return c == 0


def add_pc(lit, chosen=True):
    PATHS[-1].pc.append(lit)
    PATHS[-1].pcpos.append(len(PATHS[-1].taken) - 1 if chosen else None)


def decide(p):
    """truth of the 0/1 poly p on this path"""
    n = 0
    while True:
        n += 1
        p = renorm(P(p))
        if p.const is not None:
            return p.const != 0
        a = split_atom(p)
        if a is None or n > 40:
            raise Unsupported("cannot branch on %r" % (p,))
        t = decide_atom(a)
        p = assign_atom(p, a, 1 if t else 0)


# ------------------------------------------------------------------ conversions
def is_num(v):
    return isinstance(v, (int, bool, Num, Fraction, float)) and not isinstance(v, str)


def topoly(v):
    if isinstance(v, Num):
        return v.p
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, (int, Fraction)):
        return P(v)
    if isinstance(v, float):
        return P(Fraction(repr(v)))
    if isinstance(v, Arr) and v.ndim == 0:
        return v.at()
    raise Unsupported("not a number: %r" % (v,))


def kindof(v):
    if isinstance(v, Num):
        return v.kind
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, (Fraction, float)):
        return 'r'
    if isinstance(v, Arr):
        return v.kind
    if isinstance(v, Inf):
        return 'r'
    raise Unsupported("kind of %r" % (v,))


def mknum(p, kind):
    c = p.const
    if c is not None:
        if kind == 'i' and c.denominator == 1:
            return int(c)
        if kind == 'b':
            return bool(c)
    return Num(p, kind)


def joinkind(*ks):
    if 'r' in ks:
        return 'r'
    if 'i' in ks:
        return 'i'
    return 'b'


def truth(v):
    if isinstance(v, bool) or v is None:
        return bool(v)
    if isinstance(v, int):
        return v != 0
    if isinstance(v, Num):
        if v.kind == 'b':
            return decide(v.p)
        return decide(ONE - eq0(v.p))
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, LRef):
        n = seqlen(v)
        return truth(n)
    if isinstance(v, DRef):
        return bool(v.rec)
    if isinstance(v, Seq):
        return decide(ge0(v.n - 1))
    if isinstance(v, Arr):
        if v.ndim == 0:
            return decide(ONE - eq0(v.at())) if v.kind != 'b' else decide(v.at())
        tot = size_of(v)
        if not prover.prove_zero(tot - 1, smt=False):
            if decide(eq0(tot)):
                return False
            if not decide(eq0(tot - 1)):
                raise PyRaise('ValueError', 'truth value of an array')
        return truth(mknum(v.at(*[ZERO] * v.ndim), v.kind))
    if isinstance(v, Undef):
        raise Unsupported("use of possibly undefined value " + v.why)
    if isinstance(v, (Inst,)):
        f, c = v.cls.lookup('__len__')
        if f is not None:
            return truth(I.call(I.getattr(v, '__len__'), [], {}))
        return True
    if isinstance(v, (Func, Bound, Builtin, ClassVal, TypeVal, Opaque, Inf)):
        return True
    if isinstance(v, Str):
        raise Unsupported("truth of opaque string")
    raise Unsupported("truth of %r" % (v,))


def size_of(a):
    r = ONE
    for d in a.shape:
        r = mul(r, d)
    return r


def seqlen(v):
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, LRef):
        r = v.rec
        if r[0] == 'list':
            return len(r[1])
        if r[0] == 'slist':
            if isinstance(v, SRef):
                raise Unsupported("size of a symbolic set")
            return mknum(r[1], 'i')
        raise Unsupported("length of a list under a loop")
    if isinstance(v, Seq):
        return mknum(v.n, 'i')
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise('TypeError', 'len() of unsized object')
        return mknum(v.shape[0], 'i')
    if isinstance(v, DRef):
        return len(v.rec)
    if isinstance(v, Inst):
        f, c = v.cls.lookup('__len__')
        if f is not None:
            return I.call(I.getattr(v, '__len__'), [], {})
        raise PyRaise('TypeError', 'no len()')
    if isinstance(v, (int, Num)) or v is None:
        raise PyRaise('TypeError', 'object has no len()')
    raise Unsupported("len of %r" % (v,))


def same_dim(a, b):
    """are the dimensions equal on this path (forks if unknown)"""
    if a is b:
        return True
    if prover.prove_zero(a - b, smt=False):
        return True
    return decide(eq0(a - b))


class Generator(object):
    """a generator object.  It runs to its end when it is first consumed: faithful for generators whose
    body has no effect and reads nothing that the consuming loop changes, which `run` checks"""
    def __init__(self, it, f, env):
        self.it, self.f, self.env = it, f, env

    def run(self):
        if self.f is None:
            return []
        f, self.f = self.f, None
        out = LRef([])
        W.store[self.env]['__yield__'] = out
        try:
            self.it.exec_block(f.node.body, self.env, f.module)
        except ReturnEx:
            pass
        return iter_values(out)


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        def has(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and has(c):
                    return True
            return False
        r = _GEN[node] = has(node)
    return r


def simple_generator(node):
    """only loops over ranges, tests and yields: nothing a consumer could observe or influence"""
    for n in ast.walk(node):
        if isinstance(n, (ast.Call,)) and not (isinstance(n.func, ast.Name) and n.func.id in
                                               ('range', 'zip', 'enumerate', 'len', 'min', 'max', 'int')):
            return False
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for m in ast.walk(t):
                    if isinstance(m, (ast.Attribute, ast.Subscript)):
                        return False
        if isinstance(n, (ast.With, ast.Try, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Raise, ast.Delete)):
            return False
    return True


def iter_values(v):
    """concrete python list of values, or Seq"""
    if isinstance(v, Seq):
        if v.n.const is not None:
            return [v.fn(P(i)) for i in range(int(v.n.const))]
        return v
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, DRef):
        return list(v.rec.keys())
    if isinstance(v, Generator):
        if v.f is not None and not simple_generator(v.f.node):
            raise Unsupported("generator %s" % v.f.qual)
        return v.run()
    if isinstance(v, LRef):
        r = v.rec
        if r[0] == 'list':
            return list(r[1])
        if r[0] == 'slist':
            return iter_values(Seq(r[1], r[2]))
        raise Unsupported("iteration over a list under construction")
    if isinstance(v, Arr):
        from . import nplib
        if v.ndim == 0:
            raise PyRaise('TypeError', 'iteration over a 0-d array')
        n = v.shape[0]
        return iter_values(Seq(n, lambda i: nplib.getitem(v, mknum(i, 'i'))))
    if isinstance(v, Inst):
        f, c = v.cls.lookup('__getitem__')
        if f is not None:
            n = seqlen(v)
            return iter_values(Seq(topoly(n), lambda i: I.call(I.getattr(v, '__getitem__'), [mknum(i, 'i')], {})))
    if v is None or is_num(v):
        raise PyRaise('TypeError', 'object is not iterable')
    raise Unsupported("iterate over %r" % (v,))


def to_tuple(v):
    r = iter_values(v)
    if isinstance(r, Seq):
        raise Unsupported("symbolic sequence where a fixed-length one is needed")
    return r


# ------------------------------------------------------------------ value substitution / merging
def rebuild(p, varmap=None):
    """re-run every constructor (applies REWRITE rules), with a variable substitution"""
    m = varmap or {}
    memo = {}

    def rp(x):
        if x in memo:
            return memo[x]
        parts = []
        for mo, c in x.m:
            t = T._mk({(): c})
            for a, e in mo:
                s = ra(a)
                for _ in range(e):
                    t = mul(t, s)
            parts.append(t)
        r = addall(parts)
        memo[x] = r
        return r

    def rx(y):
        if isinstance(y, Poly):
            return rp(y)
        if isinstance(y, Obj):
            return Obj(y.name, tuple(rx(z) for z in y.args))
        return y

    def ra(a):
        if a in memo:
            return memo[a]
        k = a.kind
        if k == 'var':
            r = m.get(a)
            r = P(a) if r is None else r
        elif k == 'app':
            r = app(a.args[0], tuple(rx(x) for x in a.args[1:]), a.sort)
        elif k == 'bv':
            r = bapp(a.args[0], tuple(rx(x) for x in a.args[1:]))
        elif k == 'ge':
            r = ge0(rp(a.args[0]))
        elif k == 'gt':
            r = gt0(rp(a.args[0]))
        elif k == 'eq':
            r = eq0(rp(a.args[0]))
        elif k == 'idiv':
            r = idiv(rp(a.args[0]), rp(a.args[1]))
        elif k == 'inv':
            r = inv(rp(a.args[0]))
        elif k == 'fn':
            r = T.mkfn(a.args[0], tuple(rx(x) for x in a.args[1:]))
        elif k in T.BINDERS:
            bs, rngs, body = a.args
            rn = [rp(n) for n in rngs]
            b2 = [fresh(n, base='b') for n in rn]
            body = subst(body, dict(zip(bs, map(P, b2))))
            body = rp(body)
            if k == 'sum':
                r = mk_sums(list(zip(b2, rn)), body)
            else:
                r = {'max': mk_max, 'argmax': mk_argmax, 'all': mk_all}[k](b2[0], rn[0], body)
        else:
            raise Unsupported(k)
        memo[a] = r
        return r
    return rp(P(p))


def map_value(v, f):
    """apply the poly transformer f to every term inside v (new buffers are made)"""
    if isinstance(v, Num):
        return mknum(f(v.p), v.kind)
    if isinstance(v, Arr):
        rd = v.reader()
        ident = {}

        def fn(idx):
            # idx may contain anything: evaluate at fresh indices, transform, substitute back
            vs = [fresh(d, base='m') for d in v.shape]
            return subst(f(rd([P(x) for x in vs])), dict(zip(vs, idx)))
        return mkarr([f(d) for d in v.shape], fn, v.kind)
    if isinstance(v, tuple):
        return tuple(map_value(x, f) for x in v)
    if isinstance(v, LRef):
        r = v.rec
        if r[0] == 'list':
            return LRef([map_value(x, f) for x in r[1]])
        if r[0] == 'slist':
            n, g = r[1], r[2]

            def g2(i):
                x = fresh(n, base='m')
                return map_value(map_value(g(P(x)), f), lambda q: subst(q, {x: i}))
            return LRef(rec=('slist', f(n), g2))
    if isinstance(v, Seq):
        def g3(i):
            x = fresh(v.n, base='m')
            return map_value(map_value(v.fn(P(x)), f), lambda q: subst(q, {x: i}))
        return Seq(f(v.n), g3)
    if isinstance(v, OpqVal):
        return OpqVal(subst_objf(v.obj, f))
    if isinstance(v, Inst) and affected(v, f, set()):
        new = Inst(v.cls)
        for name, x in v.rec.items():
            new.rec[name] = map_value(x, f)
        return new
    if isinstance(v, DRef) and affected(v, f, set()):
        return DRef({name: map_value(x, f) for name, x in v.rec.items()})
    return v


def affected(v, f, seen):
    """whether the transformer changes a term inside v"""
    if isinstance(v, Num):
        return f(v.p) is not v.p
    if isinstance(v, Arr):
        if v.bid in seen:
            return False
        seen.add(v.bid)
        if any(f(d) is not d for d in v.shape):
            return True
        p = v.at(*[P(fresh(d, base='m')) for d in v.shape])
        return f(p) is not p
    if isinstance(v, (tuple, list)):
        return any(affected(x, f, seen) for x in v)
    if isinstance(v, (LRef, DRef, Inst)):
        if v.id in seen:
            return False
        seen.add(v.id)
        r = v.rec
        if isinstance(r, dict):
            return any(affected(x, f, seen) for x in list(r.values()))
        if r[0] == 'list':
            return affected(r[1], f, seen)
        if r[0] == 'slist':
            return f(r[1]) is not r[1] or affected(r[2](P(fresh(r[1], base='m'))), f, seen)
        return False
    if isinstance(v, Seq):
        return f(v.n) is not v.n or affected(v.fn(P(fresh(v.n, base='m'))), f, seen)
    if isinstance(v, OpqVal):
        return subst_objf(v.obj, f) is not v.obj
    return False


class OpqVal(object):
    """value of unknown structure denoted by an opaque object term"""
    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return 'OpqVal(%r)' % (self.obj,)


def subst_objf(o, f):
    return Obj(o.name, tuple(f(x) if isinstance(x, Poly) else subst_objf(x, f) for x in o.args))


def merge_values(pairs):
    """pairs: [(0/1 cond poly, value)], the conditions partition"""
    v0 = pairs[0][1]
    if len(pairs) == 1 or all(v is v0 for _, v in pairs):
        return v0
    if all(isinstance(v, (int, bool, Num, Fraction)) and v is not None for _, v in pairs):
        try:
            if all(type(v) in (int, bool) and v == v0 and type(v) is type(v0) for _, v in pairs):
                return v0
        except Exception:
            pass
        return mknum(addall([mul(c, topoly(v)) for c, v in pairs]), joinkind(*[kindof(v) for _, v in pairs]))
    if all(isinstance(v, Arr) or is_num(v) for _, v in pairs) and any(isinstance(v, Arr) and v.ndim == 0 for _, v in pairs):
        pairs = [(c, mknum(v.at(), v.kind) if isinstance(v, Arr) and v.ndim == 0 else v) for c, v in pairs]
        if all(is_num(v) for _, v in pairs):
            return merge_values(pairs)
    if all(isinstance(v, Arr) for _, v in pairs):
        sh = v0.shape
        for _, v in pairs[1:]:
            if v.ndim != v0.ndim:
                raise Unsupported("merge of arrays of different rank")
            for a, b in zip(sh, v.shape):
                if not (a is b or prover.prove_zero(a - b)):
                    raise Unsupported("merge of arrays of different shape")
        rds = [(c, v.reader()) for c, v in pairs]
        return mkarr(sh, lambda idx: addall([mul(c, r(idx)) for c, r in rds]), joinkind(*[v.kind for _, v in pairs]))
    if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in pairs):
        return tuple(merge_values([(c, v[i]) for c, v in pairs]) for i in range(len(v0)))
    if all(isinstance(v, LRef) for _, v in pairs):
        rs = [v.rec for _, v in pairs]
        if all(r[0] == 'list' and len(r[1]) == len(rs[0][1]) for r in rs):
            return LRef([merge_values([(c, v.rec[1][i]) for c, v in pairs]) for i in range(len(rs[0][1]))])
    if all(v is None for _, v in pairs):
        return None
    if all(isinstance(v, (str, Str)) for _, v in pairs):
        return Str()
    return Undef("values of different types on different paths")


# ------------------------------------------------------------------ modules
PYX_NOISE = re.compile(r'^\s*(cimport|from\s+\S+\s+cimport|np\.import_array\(\)|import_array\(\))')


def pyx_to_py(src):
    """mechanical Cython -> Python extraction: drops C type declarations, keeps every statement.
    Dropped: cimport lines, ctypedef blocks, `cdef <type> names` without initialiser, parameter types,
    directive comments and decorators of the form @cython.*"""
    out = []
    lines = src.split('\n')
    i = 0
    # join continuation lines of def headers
    joined = []
    buf = ''
    for ln in lines:
        if buf:
            buf += ' ' + ln.strip()
            if buf.count('(') <= buf.count(')'):
                joined.append(buf)
                buf = ''
            continue
        if re.match(r'\s*(def|cpdef|cdef)\b.*\($|\s*(def|cpdef)\b', ln) and ln.count('(') > ln.count(')'):
            buf = ln
            continue
        joined.append(ln)
    skip_indent = None
    for ln in joined:
        st = ln.strip()
        ind = len(ln) - len(ln.lstrip())
        if skip_indent is not None:
            if st == '' or ind > skip_indent:
                continue
            skip_indent = None
        if st.startswith('ctypedef'):
            if st.endswith(':'):
                skip_indent = ind
            continue
        if PYX_NOISE.match(ln) or st.startswith('@cython'):
            continue
        m = re.match(r'^(\s*)(cpdef|cdef)\s+(.*)$', ln)
        if m and not re.match(r'.*\)\s*(nogil|except.*)?:\s*$', ln):
            rest = m.group(3)
            # type then declarators
            depth = 0
            toks = []
            cur = ''
            for ch in rest:
                if ch in '[(':
                    depth += 1
                if ch in '])':
                    depth -= 1
                if ch == ',' and depth == 0:
                    toks.append(cur)
                    cur = ''
                else:
                    cur += ch
            toks.append(cur)
            stm = []
            for j, tk in enumerate(toks):
                if '=' in re.sub(r'\[[^\]]*\]', '', tk):
                    # strip the type: name is the last identifier before the first top-level '='
                    d = 0
                    pos = None
                    for q, ch in enumerate(tk):
                        if ch in '[(':
                            d += 1
                        elif ch in '])':
                            d -= 1
                        elif ch == '=' and d == 0:
                            pos = q
                            break
                    name = re.findall(r'[A-Za-z_]\w*', tk[:pos])[-1]
                    stm.append('%s = %s' % (name, tk[pos + 1:].strip()))
            out.append(m.group(1) + ('; '.join(stm) if stm else 'pass'))
            continue
        m = re.match(r'^(\s*)(def|cpdef|cdef)\s+(.*)\((.*)\)\s*(nogil)?\s*:\s*$', ln)
        if m:
            head = re.findall(r'[A-Za-z_]\w*', m.group(3))[-1]
            params = []
            depth = 0
            cur = ''
            for ch in m.group(4) + ',':
                if ch in '[(':
                    depth += 1
                if ch in '])':
                    depth -= 1
                if ch == ',' and depth == 0:
                    if cur.strip():
                        if '=' in re.sub(r'\[[^\]]*\]', '', cur):
                            lhs, rhs = cur.rsplit('=', 1)
                            params.append(re.findall(r'[A-Za-z_]\w*', re.sub(r'\[[^\]]*\]', ' ', lhs))[-1] + '=' + rhs.strip())
                        else:
                            params.append(re.findall(r'[A-Za-z_]\w*', re.sub(r'\[[^\]]*\]', ' ', cur))[-1])
                    cur = ''
                else:
                    cur += ch
            out.append('%sdef %s(%s):' % (m.group(1), head, ', '.join(params)))
            continue
        out.append(re.sub(r'<\s*[a-z_\. ]+\s*>', '', ln) if re.search(r'<\s*(int|double|long|float)[a-z_ ]*>', ln) else ln)
    return '\n'.join(out)


class Module(object):
    def __init__(self, name, path, is_pkg=False, text=None):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        src = open(path).read() if text is None else text
        if path.endswith('.pyx'):
            self.pyx = True
            src = pyx_to_py(src)
        else:
            self.pyx = False
        self.src = src
        self.tree = ast.parse(src, path)
        self.globals = {}
        self.pending = {}
        self.stars = []
        for st in self.tree.body:
            self._scan(st)

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.pending[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.pending[(a.asname or a.name).split('.')[0]] = ('import', a.name, a.asname)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if a.name == '*':
                    self.stars.append((st.module, st.level))
                    continue
                self.pending[a.asname or a.name] = ('from', st.module, st.level, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.pending[t.id] = ('expr', st.value)
        elif isinstance(st, ast.Try):
            missing = any(isinstance(s, ast.Import) and any(a.name in MISSING for a in s.names) or
                          isinstance(s, ast.ImportFrom) and s.module in MISSING for s in st.body)
            fallback = [s for h in st.handlers for s in h.body] if missing else []
            for s in (fallback or st.body + st.orelse) + st.finalbody:
                self._scan(s)

    def resolve_from(self, module, level):
        if level:
            parts = self.name.split('.')
            if not self.is_pkg:
                parts = parts[:-1]
            if level > 1:
                parts = parts[:-(level - 1)]
            base = '.'.join(parts)
            return base + ('.' + module if module else '')
        return module


MISSING = ('pyqpbo', 'opengm', 'cPickle')        # not installed


class Interp(object):
    def __init__(self):
        self.roots = {}
        self.modules = {}
        self.ext = {}
        self.overrides = {}
        self.builtins = {}
        self.trace_funcs = set()
        self.depth = 0
        self.call_hooks = {}

    # ------------------------------------------------------------- modules
    def reset(self, root):
        self.modules = {}
        self.root = root

    def find_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] == 'contracts':
            p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *name.split('.'))
        elif name.split('.')[0] != 'pystruct':
            return None
        else:
            p = os.path.join(self.root, *name.split('.'))
        mod = None
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            mod = Module(name, os.path.join(p, '__init__.py'), True)
        elif os.path.exists(p + '.py'):
            mod = Module(name, p + '.py')
        elif os.path.exists(p + '.pyx'):
            mod = Module(name, p + '.pyx')
        elif name == 'pystruct.models.utils':
            mod = Module(name, os.path.join(self.root, 'src', 'utils.pyx'))
        if mod is None:
            return None
        self.modules[name] = mod
        return mod

    def import_module(self, name):
        m = self.find_module(name)
        if m is not None:
            return m
        if name.split('.')[0] == 'pystruct':
            raise Unsupported("module %s not found" % name)
        if name in self.ext:
            return self.ext[name]
        if name in MISSING:
            raise PyRaise('ImportError', name)
        return self.ext.setdefault(name, Opaque(name))

    def mod_get(self, mod, name):
        if name in mod.globals:
            return mod.globals[name]
        if name in mod.pending:
            st = mod.pending[name]
            if isinstance(st, ast.FunctionDef):
                v = self.make_func(st, mod, None)
            elif isinstance(st, ast.ClassDef):
                v = self.make_class(st, mod, None)
            elif st[0] == 'import':
                if st[2]:
                    v = self.import_module(st[1])
                else:
                    v = self.import_module(st[1].split('.')[0])
            elif st[0] == 'from':
                base = mod.resolve_from(st[1], st[2])
                v = self.import_from(base, st[3])
            else:
                v = self.eval(st[1], self.new_env(mod), mod)
            if not (isinstance(st, tuple) and (st[0] == 'from' or st[0] == 'import' and isinstance(v, Opaque))):
                mod.globals[name] = v        # imported names are looked up again: contracts may replace them
            return v
        if mod.is_pkg:
            sub = self.find_module(mod.name + '.' + name)
            if sub is not None:
                return sub
        for m, level in mod.stars:
            base = self.find_module(mod.resolve_from(m, level))
            if base is not None and base is not mod:
                try:
                    return self.mod_get(base, name)
                except KeyError:
                    pass
        raise KeyError(name)

    def import_from(self, base, name):
        m = self.import_module(base)
        if isinstance(m, Module):
            try:
                return self.mod_get(m, name)
            except KeyError:
                sub = self.find_module(base + '.' + name)
                if sub is not None:
                    return sub
                raise PyRaise('ImportError', name)
        return self.getattr(m, name)

    def make_func(self, node, mod, env, cls=None):
        f = Func(node, mod, env, cls)
        if cls is not None:
            f.qual = mod.name + '.' + cls + '.' + node.name
        f.defaults = None
        decos = [d for d in getattr(node, 'decorator_list', [])]
        names = []
        for d in decos:
            if isinstance(d, ast.Name):
                names.append(d.id)
            elif isinstance(d, ast.Attribute):
                names.append(d.attr)
            else:
                names.append('?')
        f.decos = names
        return f

    def make_class(self, node, mod, env):
        bases = [self.eval(b, env if env is not None else self.new_env(mod), mod) for b in node.bases]
        bases = [b for b in bases if isinstance(b, (ClassVal, TypeVal, Opaque))]
        body = {}
        cv = ClassVal(node.name, [b for b in bases if isinstance(b, ClassVal)], body, mod)
        cv.extbases = [b for b in bases if not isinstance(b, ClassVal)]
        cenv = self.new_env(mod, env)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, mod, env, node.name)
                f.owner = cv
                names = f.decos
                if 'property' in names:
                    body[st.name] = ('property', f, None)
                elif 'setter' in names:
                    old = body.get(st.name)
                    body[st.name] = ('property', old[1] if old else None, f)
                elif 'staticmethod' in names:
                    body[st.name] = ('static', f)
                elif 'classmethod' in names:
                    body[st.name] = ('classm', f)
                else:
                    body[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        body[t.id] = self.eval(st.value, cenv, mod)
                        if isinstance(body[t.id], Func) is False and isinstance(st.value, ast.Call) and \
                                isinstance(st.value.func, ast.Name) and st.value.func.id == 'property':
                            fs = [body.get(a.id) for a in st.value.args if isinstance(a, ast.Name)]
                            body[t.id] = ('property', fs[0] if fs else None, fs[1] if len(fs) > 1 else None)
        return cv

    # ------------------------------------------------------------- environments
    def new_env(self, mod, parent=None):
        r = EnvRec()
        r['__parent__'] = parent
        return W.new(r)

    def lookup(self, name, env, mod):
        e = env
        while e is not None:
            r = W.store[e]
            if name in r:
                v = r[name]
                if isinstance(v, Undef) and hasattr(v, 'cond'):
                    if not decide(v.cond):
                        raise PyRaise('UnboundLocalError', name)
                    v = v.v
                    r[name] = v
                return v
            e = r['__parent__']
        if mod is not None:
            try:
                return self.mod_get(mod, name)
            except KeyError:
                pass
        if name in self.builtins:
            return self.builtins[name]
        raise Unsupported('name %s is not defined' % name)

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion depth")
        try:
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, Func):
            ov = self.overrides.get(f.qual)
            if ov is not None:
                r = ov(self, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeVal):
            from . import nplib
            return nplib.cast_type(f, args, kwargs)
        if isinstance(f, Opaque):
            if f.call is None:
                raise Unsupported("call of external %s" % f.name)
            return f.call(*args, **kwargs)
        if isinstance(f, Inst):
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, Undef):
            raise Unsupported("call of undefined")
        raise PyRaise('TypeError', 'not callable: %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        for ext in getattr(cls, 'extbases', []):
            if isinstance(ext, TypeVal) and ext.name.endswith(('Error', 'Exception')):
                raise Unsupported("exception class instance")
        o = Inst(cls)
        f, c = cls.lookup('__init__')
        if f is not None:
            self.call(f, [o] + list(args), kwargs)
        elif args or kwargs:
            raise PyRaise('TypeError', 'no arguments expected')
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        loc = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError', '%s() takes %d positional arguments but %d were given'
                          % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in loc:
                    raise PyRaise('TypeError', 'multiple values for %s' % k)
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = DRef(extra)
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise('TypeError', '%s() missing argument %s' % (f.name, n))
                loc[n] = self.default(f, ('p', j), a.defaults[j])
        for i, n in enumerate(kwonly):
            if n not in loc:
                d = a.kw_defaults[i]
                if d is None:
                    raise PyRaise('TypeError', 'missing keyword-only %s' % n)
                loc[n] = self.default(f, ('k', i), d)
        return loc

    def default(self, f, key, node):
        return self.eval(node, f.env if f.env is not None else self.new_env(f.module), f.module)

    def call_func(self, f, args, kwargs):
        self.trace_funcs.add(f.qual)
        loc = self.bind(f, args, kwargs)
        env = self.new_env(f.module, f.env)
        W.store[env].update(loc)
        if getattr(f, 'owner', None) is not None and f.node.args.args:
            W.store[env]['__class__'] = f.owner
            W.store[env]['__self__'] = loc.get(f.node.args.args[0].arg)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env, f.module)
        if is_generator(f.node):
            return Generator(self, f, env)
        try:
            self.exec_block(f.node.body, env, f.module)
        except ReturnEx as e:
            return e.value
        return None

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        from . import nplib
        if isinstance(o, Inst):
            v, c = o.cls.lookup(name)
            if isinstance(v, tuple) and v and v[0] == 'property':
                return self.call(v[1], [o], {})
            r = o.rec
            if name in r:
                return r[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if v is not None or c is not None:
                if isinstance(v, Func):
                    return Bound(o, v)
                if isinstance(v, tuple) and v[0] == 'static':
                    return v[1]
                if isinstance(v, tuple) and v[0] == 'classm':
                    return Bound(o.cls, v[1])
                return v
            h = getattr(o.cls, 'ext_getattr', None)
            if h is not None:
                r = h(o, name)
                if r is not None:
                    return r
            for cc in o.cls.mro:
                for eb in getattr(cc, 'extbases', []):
                    if isinstance(eb, Opaque) and name in eb.attrs:
                        return Bound(o, eb.attrs[name])
            raise PyRaise('AttributeError', name)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            v, c = o.lookup(name)
            if v is not None:
                if isinstance(v, tuple) and v[0] in ('static',):
                    return v[1]
                if isinstance(v, tuple) and v[0] == 'classm':
                    return Bound(o, v[1])
                return v
            raise PyRaise('AttributeError', name)
        if isinstance(o, Module):
            try:
                return self.mod_get(o, name)
            except KeyError:
                raise PyRaise('AttributeError', name)
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            if o.getattr_ is not None:
                return o.getattr_(name)
            raise Unsupported("external %s.%s" % (o.name, name))
        if isinstance(o, SuperVal):
            mro = o.obj.cls.mro if isinstance(o.obj, Inst) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.body:
                    v = c.body[name]
                    return Bound(o.obj, v) if isinstance(v, Func) else v
            raise PyRaise('AttributeError', name)
        return nplib.value_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            p, c = o.cls.lookup(name)
            if isinstance(p, tuple) and p and p[0] == 'property':
                if p[2] is None:
                    raise PyRaise('AttributeError', "can't set attribute")
                self.call(p[2], [o, v], {})
                return
            o.rec[name] = v
            return
        if isinstance(o, Opaque):
            o.attrs[name] = v
            return
        if isinstance(o, Arr) and name == 'shape':
            raise Unsupported('in-place reshape')
        raise PyRaise('AttributeError', name)

    # ------------------------------------------------------------- statements
    def exec_block(self, body, env, mod):
        for st in body:
            self.exec(st, env, mod)

    def exec(self, st, env, mod):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s of %s" % (type(st).__name__, getattr(st, 'lineno', '?'), mod.name))
        try:
            m(st, env, mod)
        except EngineError as e:
            if not getattr(e, 'where', None):
                e.where = '%s:%s' % (mod.name, getattr(st, 'lineno', '?'))
            raise

    def x_Pass(self, st, env, mod):
        pass

    def x_Expr(self, st, env, mod):
        self.eval(st.value, env, mod)

    def x_Return(self, st, env, mod):
        raise ReturnEx(self.eval(st.value, env, mod) if st.value is not None else None)

    def x_Break(self, st, env, mod):
        raise BreakEx()

    def x_Continue(self, st, env, mod):
        raise ContinueEx()

    def x_Global(self, st, env, mod):
        raise Unsupported("global statement")

    def x_Nonlocal(self, st, env, mod):
        raise Unsupported("nonlocal statement")

    def x_Import(self, st, env, mod):
        for a in st.names:
            v = self.import_module(a.name if a.asname else a.name.split('.')[0])
            W.store[env][(a.asname or a.name).split('.')[0]] = v

    def x_ImportFrom(self, st, env, mod):
        base = mod.resolve_from(st.module, st.level)
        for a in st.names:
            W.store[env][a.asname or a.name] = self.import_from(base, a.name)

    def x_FunctionDef(self, st, env, mod):
        W.store[env][st.name] = self.make_func(st, mod, env)

    def x_ClassDef(self, st, env, mod):
        W.store[env][st.name] = self.make_class(st, mod, env)

    def x_Assign(self, st, env, mod):
        v = self.eval(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def x_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env, mod), env, mod)

    def assign(self, t, v, env, mod):
        from . import nplib
        if isinstance(t, ast.Name):
            W.store[env][t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, mod)
            k = self.eval_index(t.slice, env, mod)
            nplib.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vs = iter_values(v)
            if isinstance(vs, Seq):
                n = len(t.elts)
                if not star and decide(eq0(vs.n - n)):
                    vs = [vs.fn(P(i)) for i in range(n)]
                else:
                    raise PyRaise('ValueError', 'unpacking')
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env, mod)
                self.assign(t.elts[i].value, LRef(vs[i:len(vs) - after]), env, mod)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, env, mod)
                return
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError', 'too many / not enough values to unpack')
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env, mod)
        else:
            raise Unsupported("assignment target")

    def x_AugAssign(self, st, env, mod):
        from . import nplib
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, mod)
            v = self.eval(st.value, env, mod)
            r = nplib.inplace(op, cur, v)
            W.store[env][t.id] = r
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env, mod)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, env, mod)
            self.setattr(o, t.attr, nplib.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env, mod)
            k = self.eval_index(t.slice, env, mod)
            cur = nplib.getitem(o, k)
            v = self.eval(st.value, env, mod)
            nplib.setitem(o, k, nplib.inplace(op, cur, v))
        else:
            raise Unsupported("augmented target")

    def x_Delete(self, st, env, mod):
        from . import nplib
        for t in st.targets:
            if isinstance(t, ast.Name):
                W.store[env].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env, mod)
                o.rec.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                nplib.delitem(self.eval(t.value, env, mod), self.eval_index(t.slice, env, mod))
            else:
                raise Unsupported("del")

    def x_Assert(self, st, env, mod):
        if not truth(self.eval(st.test, env, mod)):
            raise PyRaise('AssertionError', ast.unparse(st.test))

    def x_If(self, st, env, mod):
        if truth(self.eval(st.test, env, mod)):
            self.exec_block(st.body, env, mod)
        else:
            self.exec_block(st.orelse, env, mod)

    def x_Raise(self, st, env, mod):
        if st.exc is None:
            e = W.store[env].get('__exc__')
            raise e if e is not None else PyRaise('RuntimeError', 're-raise')
        node = st.exc
        name = None
        if isinstance(node, ast.Call):
            fn = node.func
            name = fn.id if isinstance(fn, ast.Name) else getattr(fn, 'attr', None)
        elif isinstance(node, ast.Name):
            name = node.id
            v = None
            try:
                v = self.lookup(name, env, mod)
            except PyRaise:
                pass
            if isinstance(v, PyRaise):
                raise v
        raise PyRaise(name or 'Exception', ast.unparse(node))

    EXC = {'ImportError': ('ImportError', 'ModuleNotFoundError'), 'Exception': None, 'BaseException': None,
           'LookupError': ('IndexError', 'KeyError', 'LookupError'), 'ArithmeticError': ('ZeroDivisionError',)}

    def matches(self, exc, h, env, mod):
        if h.type is None:
            return True
        ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for n in ns:
            nm = n.id if isinstance(n, ast.Name) else getattr(n, 'attr', '?')
            if nm in ('Exception', 'BaseException'):
                if nm == 'Exception' and exc.name in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit'):
                    continue
                return True
            if nm == exc.name or exc.name in (self.EXC.get(nm) or ()):
                return True
        return False

    def x_Try(self, st, env, mod):
        try:
            try:
                self.exec_block(st.body, env, mod)
            except PyRaise as e:
                for h in st.handlers:
                    if self.matches(e, h, env, mod):
                        if h.name:
                            W.store[env][h.name] = e
                        W.store[env]['__exc__'] = e
                        self.exec_block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, mod)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, env, mod)
            raise
        else:
            self.exec_block(st.finalbody, env, mod)

    def x_With(self, st, env, mod):
        self.with_items(st.items, st, env, mod)

    def with_items(self, items, st, env, mod):
        if not items:
            self.exec_block(st.body, env, mod)
            return
        it = items[0]
        v = self.eval(it.context_expr, env, mod)
        opaque = isinstance(v, Opaque) and '__enter__' not in v.attrs
        r = v if opaque else self.call(self.getattr(v, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, r, env, mod)

        def leave(*args):
            return False if opaque else truth(self.call(self.getattr(v, '__exit__'), list(args), {}))
        try:
            self.with_items(items[1:], st, env, mod)
        except PyRaise as e:
            if not leave(e, e, None):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            leave(None, None, None)
            raise
        else:
            leave(None, None, None)

    def x_While(self, st, env, mod):
        n = 0
        broke = False
        while True:
            if not truth(self.eval(st.test, env, mod)):
                break
            n += 1
            if n > 64:
                raise Unsupported("while loop without a contract (more than 64 symbolic iterations)")
            try:
                self.exec_block(st.body, env, mod)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse, env, mod)

    def x_For(self, st, env, mod):
        from . import loops
        it = self.eval(st.iter, env, mod)
        vs = iter_values(it)
        if isinstance(vs, Seq):
            def body(k):
                self.assign(st.target, vs.fn(k), env, mod)
                self.exec_block(st.body, env, mod)
            if loops.symbolic_loop(self, vs.n, body, '%s:%d' % (mod.name, st.lineno)):
                return
            if st.orelse:
                self.exec_block(st.orelse, env, mod)
            return
        broke = False
        for v in vs:
            self.assign(st.target, v, env, mod)
            try:
                self.exec_block(st.body, env, mod)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse, env, mod)

    # ------------------------------------------------------------- expressions
    def eval(self, e, env, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            return Num(P(Fraction(repr(v))), 'r')
        if isinstance(v, (complex,)):
            raise Unsupported("complex")
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, env, mod):
        return self.lookup(e.id, env, mod)

    def e_Yield(self, e, env, mod):
        from . import nplib
        v = None if e.value is None else self.eval(e.value, env, mod)
        nplib.list_method(self.lookup('__yield__', env, mod), 'append').fn(v)
        return None

    def e_Tuple(self, e, env, mod):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(to_tuple(self.eval(x.value, env, mod)))
            else:
                out.append(self.eval(x, env, mod))
        return tuple(out)

    def e_List(self, e, env, mod):
        return LRef(self.e_Tuple(e, env, mod))

    def e_Set(self, e, env, mod):
        from . import nplib
        return nplib.make_set(self.e_Tuple(e, env, mod))

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env, mod).rec)
            else:
                kk = self.eval(k, env, mod)
                if isinstance(kk, Num):
                    raise Unsupported("symbolic dict key")
                d[kk] = self.eval(v, env, mod)
        return DRef(d)

    def e_JoinedStr(self, e, env, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env, mod)
                parts.append(x)
        if all(isinstance(p, (str, int)) for p in parts):
            return ''.join(str(p) for p in parts)
        return Str(tuple(parts))

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.eval(e.value, env, mod), e.attr)

    def e_IfExp(self, e, env, mod):
        if truth(self.eval(e.test, env, mod)):
            return self.eval(e.body, env, mod)
        return self.eval(e.orelse, env, mod)

    def e_Lambda(self, e, env, mod):
        f = Func(e, mod, env)
        f.decos = []
        return f

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env, mod)
            t = truth(v)
            if isand and not t:
                return v if not isinstance(v, Num) else False
            if not isand and t:
                return v if not (isinstance(v, Num) and v.kind == 'b') else True
        if isinstance(v, Num) and v.kind == 'b':
            return isand
        return v

    def e_UnaryOp(self, e, env, mod):
        from . import nplib
        v = self.eval(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return not truth(v)
        return nplib.unary(type(e.op).__name__, v)

    def e_BinOp(self, e, env, mod):
        from . import nplib
        a = self.eval(e.left, env, mod)
        b = self.eval(e.right, env, mod)
        return nplib.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, env, mod):
        from . import nplib
        left = self.eval(e.left, env, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env, mod)
            v = nplib.compare(type(op).__name__, left, right)
            if res is None:
                res = v
            else:
                if not truth(res):
                    return False
                res = v
            if len(e.ops) > 1 and op is not e.ops[-1]:
                if not truth(res):
                    return False
                res = True
            left = right
        return res

    def eval_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, env, mod) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env, mod) for x in s.elts)
        if isinstance(s, ast.Index):       # pragma: no cover (old asts)
            return self.eval_index(s.value, env, mod)
        return self.eval(s, env, mod)

    def e_Slice(self, e, env, mod):
        return self.eval_index(e, env, mod)

    def e_Subscript(self, e, env, mod):
        from . import nplib
        o = self.eval(e.value, env, mod)
        k = self.eval_index(e.slice, env, mod)
        return nplib.getitem(o, k)

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred expression")

    def e_Call(self, e, env, mod):
        f = self.eval(e.func, env, mod)
        if isinstance(f, Builtin) and f.name == 'super' and not e.args:
            r = None
            x = env
            while x is not None:
                r = W.store[x]
                if '__class__' in r:
                    break
                x = r['__parent__']
            return SuperVal(r['__class__'], r['__self__'])
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                vs = iter_values(self.eval(a.value, env, mod))
                if isinstance(vs, Seq):
                    args.append(StarSeq(vs))
                else:
                    args.extend(vs)
            else:
                args.append(self.eval(a, env, mod))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env, mod)
            if k.arg is None:
                kw.update(v.rec)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_NamedExpr(self, e, env, mod):
        v = self.eval(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def comp(self, gens, elt, env, mod, acc):
        """list of values, or Seq when one symbolic generator without nesting below"""
        if not gens:
            acc.append(elt(env))
            return
        g = gens[0]
        vs = iter_values(self.eval(g.iter, env, mod))
        if isinstance(vs, Seq):
            if acc:
                raise Unsupported("nested symbolic comprehension")
            raise SymComp(g, vs, gens[1:])
        for v in vs:
            cenv = self.new_env(mod, env)
            self.assign(g.target, v, cenv, mod)
            if all(truth(self.eval(c, cenv, mod)) for c in g.ifs):
                self.comp(gens[1:], elt, cenv, mod, acc)

    def comprehension(self, e, env, mod):
        acc = []
        try:
            self.comp(e.generators, lambda en: self.eval(e.elt, en, mod), env, mod, acc)
            return acc
        except SymComp as s:
            g, vs = s.g, s.vs
            from . import loops

            def body(k):
                cenv = self.new_env(mod, env)
                self.assign(g.target, vs.fn(k), cenv, mod)
                if s.rest:
                    inner = copy.copy(e)
                    inner.generators = s.rest
                    r = self.comprehension(inner, cenv, mod)
                    return LRef(rec=('slist', r.n, r.fn)) if isinstance(r, Seq) else LRef(r)
                return self.eval(e.elt, cenv, mod)

            def kept(k):
                cenv = self.new_env(mod, env)
                self.assign(g.target, vs.fn(k), cenv, mod)
                return all(truth(self.eval(c, cenv, mod)) for c in g.ifs)
            if g.ifs:
                from . import nplib
                mask = nplib.asarr(loops.symbolic_map(self, vs.n, kept))
                if mask.kind != 'b':
                    raise Unsupported("filtered symbolic comprehension")
                if isinstance(e.elt, ast.Constant) and not s.rest:
                    k = T.fresh(vs.n)
                    v = e.elt.value
                    g = mask.reader()([P(k)])

                    def same(i):
                        return v
                    # is any of the (equal) elements there? then any(...) is that of the element
                    same.exists = (T.neg_guard(T.mk_all(k, vs.n, T.neg_guard(g))), bool(v))
                    return Seq(T.mk_sum(k, vs.n, g), same)
                at = nplib.where(mask)[0]
                r = loops.symbolic_map(self, at.shape[0], lambda k: body(at.reader()([k])))
            else:
                r = loops.symbolic_map(self, vs.n, body)
            if not s.rest:
                return r
            from . import nplib
            return nplib.flatten(r)

    def e_ListComp(self, e, env, mod):
        r = self.comprehension(e, env, mod)
        if isinstance(r, Seq):
            return LRef(rec=('slist', r.n, r.fn))
        return LRef(r)

    def e_GeneratorExp(self, e, env, mod):
        r = self.comprehension(e, env, mod)
        if isinstance(r, Seq):
            return r
        return LRef(r)

    e_SetComp = e_ListComp

    def e_DictComp(self, e, env, mod):
        acc = []
        self.comp(e.generators, lambda en: (self.eval(e.key, en, mod), self.eval(e.value, en, mod)), env, mod, acc)
        return DRef(dict(acc))


class SymComp(Exception):
    def __init__(self, g, vs, rest):
        self.g, self.vs, self.rest = g, vs, rest


class StarSeq(object):
    def __init__(self, seq):
        self.seq = seq


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SuperVal(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


I = Interp()
