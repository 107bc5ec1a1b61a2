"""Contracts of the Python / numpy operations used by the repository, as symbolic operations.

This file is part of the trusted base: every run cross-checks it by evaluating the symbolic results at
concrete inputs and comparing with the real code under CPython/numpy (see harness.py)."""
import itertools
from fractions import Fraction
from .terms import *          # noqa
from . import terms as T
from . import prover
from .values import *         # noqa
from . import values as V
from . import interp as X
from .interp import (decide, truth, topoly, kindof, mknum, joinkind, same_dim, iter_values, is_num, size_of,
                     seqlen, to_tuple, SliceV, Unsupported, PyRaise, OpqVal, I, merge_values)

W = V.W
NEWAXIS = None
RKIND = {'float': 'r', 'int': 'i', 'bool': 'b'}


# ---------------------------------------------------------------- helpers
def asarr(v):
    """array view of any array-like value"""
    if isinstance(v, Arr):
        return v
    if is_num(v):
        p = topoly(v)
        return mkarr((), lambda idx: p, kindof(v))
    if isinstance(v, (LRef, tuple, Seq)):
        return stack_seq(v)
    if isinstance(v, Undef):
        raise Unsupported("array from undefined value " + v.why)
    if isinstance(v, Inf):
        raise Unsupported("infinite entry in an array")
    raise Unsupported("array from %r" % (v,))


def stack_seq(v):
    """np.array([...])"""
    vs = iter_values(v)
    if isinstance(vs, Seq):
        # element shape from a generic element
        k = fresh(vs.n, base='e')
        g = vs.fn(P(k))
        if is_num(g) or (isinstance(g, Arr) and g.ndim == 0):
            t0 = topoly(g)      # any index may be asked for under a guard: the generic element answers
            return mkarr((vs.n,), lambda idx: subst(t0, {k: idx[0]}), kindof(g))
        a = asarr(g)
        for d in a.shape:
            if k in d.fv:
                raise Unsupported("ragged array")
        rd = a.reader()

        def fn(idx):
            vsn = [fresh(d, base='m') for d in a.shape]
            t = rd([P(x) for x in vsn])
            m = dict(zip(vsn, idx[1:]))
            m[k] = idx[0]
            return subst(t, m)
        return mkarr((vs.n,) + a.shape, fn, a.kind)
    if not vs:
        return mkarr((ZERO,), lambda idx: ZERO, 'r')
    if all(is_num(x) or (isinstance(x, Arr) and x.ndim == 0) for x in vs):
        ps = [topoly(x) for x in vs]
        kd = joinkind(*[kindof(x) for x in vs])
        return mkarr((P(len(ps)),), lambda idx: select(idx[0], ps), kd)
    arrs = [asarr(x) for x in vs]
    sh = arrs[0].shape
    for a in arrs[1:]:
        if a.ndim != len(sh) or not all(same_dim(x, y) for x, y in zip(sh, a.shape)):
            raise Unsupported("ragged array")
    rds = [a.reader() for a in arrs]

    def fn(idx):
        if idx[0].const is not None:
            return rds[int(idx[0].const)](idx[1:])
        return select(idx[0], [r(idx[1:]) for r in rds])
    return mkarr((P(len(arrs)),) + sh, fn, joinkind(*[a.kind for a in arrs]))


def select(i, ps):
    if i.const is not None:
        c = int(i.const)
        if 0 <= c < len(ps):
            return ps[c]
        return ZERO
    r = ZERO
    for k, p in enumerate(ps):
        r = r + mul(eq0(i - k), p)
    return r


def bshape(shapes):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for j in range(1, n + 1):
        d = None
        for s in shapes:
            if len(s) >= j:
                x = s[-j]
                if x.const == 1:
                    if d is None:
                        d = x
                    continue
                if d is None or d.const == 1:
                    d = x
                    continue
                if same_dim(d, x):
                    continue
                # unknown / different dims: one of them may be 1
                if d.const is None and decide(eq0(d - 1)):
                    d = x
                    continue
                if x.const is None and decide(eq0(x - 1)):
                    continue
                raise PyRaise('ValueError', 'operands could not be broadcast together')
        out.append(d)
    return tuple(reversed(out))


def bread(a, shape):
    """reader of a broadcast to shape"""
    rd = a.reader()
    k = len(shape) - a.ndim
    ones = []
    for j, d in enumerate(a.shape):
        t = shape[k + j]
        one = (d is not t) and (d.const == 1 or (prover.prove_zero(d - 1, smt=False)
                                                 and not prover.prove_zero(t - 1, smt=False)))
        ones.append(one)

    def f(idx):
        sub = list(idx)[k:]
        return rd([ZERO if o else i for o, i in zip(ones, sub)])
    return f


def elementwise(f, args, kind):
    if all(is_num(a) for a in args):
        return mknum(f(*[topoly(a) for a in args]), kind)
    arrs = [asarr(a) for a in args]
    sh = bshape([a.shape for a in arrs])
    rds = [bread(a, sh) for a in arrs]
    r = mkarr(sh, lambda idx: f(*[rd(idx) for rd in rds]), kind)
    if len(sh) == 0:
        return mknum(r.at(), kind)
    return r


def isarr(v):
    return isinstance(v, (Arr,))


ARRAYISH = (Arr,)


def numlike(v):
    return is_num(v) or isinstance(v, Arr)


# ---------------------------------------------------------------- operators
def binop(op, a, b):
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise Unsupported("use of undefined value (%s)" % (a.why if isinstance(a, Undef) else b.why))
    for o, other in ((a, b), (b, a)):
        if isinstance(o, Inst):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op)
            if nm:
                f, c = o.cls.lookup(nm)
                if f is not None:
                    return I.call(I.getattr(o, nm), [other], {})
    if isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
        if op == 'Mod':
            return format_mod(a, b)
        if op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if not isinstance(a, (Str, str)) or not isinstance(b, (Str, str)):
                raise PyRaise('TypeError', 'str + non-str')
            return Str((a, b))
        if op == 'Mult':
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            return Str((a, b))
        raise PyRaise('TypeError', 'string operand')
    if isinstance(a, SRef) and isinstance(b, SRef) and op in ('Sub', 'BitAnd', 'BitOr'):
        return set_method(a, {'Sub': 'difference', 'BitAnd': 'intersection', 'BitOr': 'union'}[op]).fn(b)
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == 'Add' and isinstance(a, LRef) and isinstance(b, LRef):
        return list_concat(a, b)
    if op == 'Mult' and isinstance(a, (LRef, tuple)) and is_num(b):
        return list_repeat(a, b)
    if op == 'Mult' and isinstance(b, (LRef, tuple)) and is_num(a):
        return list_repeat(b, a)
    if isinstance(a, Inf) or isinstance(b, Inf):
        return inf_op(op, a, b)
    if isinstance(a, (LRef, tuple)) and isinstance(b, Arr):
        a = asarr(a)
    if isinstance(b, (LRef, tuple)) and isinstance(a, Arr):
        b = asarr(b)
    if not numlike(a) or not numlike(b):
        if a is None or b is None or isinstance(a, (LRef, tuple, DRef)) or isinstance(b, (LRef, tuple, DRef)):
            raise PyRaise('TypeError', 'unsupported operand types for %s' % op)
        if isinstance(a, OpqVal) or isinstance(b, OpqVal) or isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("arithmetic on opaque value")
        raise Unsupported("%s on %r, %r" % (op, a, b))
    ka, kb = kindof(a), kindof(b)
    if type(a) in (int,) and type(b) in (int,):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op in ('FloorDiv', 'Mod', 'Div') and b == 0:
            raise PyRaise('ZeroDivisionError', 'division by zero')
        if op == 'FloorDiv':
            return a // b
        if op == 'Mod':
            return a % b
        if op == 'Pow' and b >= 0:
            return a ** b
    boolboth = ka == 'b' and kb == 'b'
    arith = joinkind(ka, kb)
    if op == 'Add':
        if boolboth and (isinstance(a, Arr) or isinstance(b, Arr)):
            return elementwise(bor, [a, b], 'b')
        return elementwise(lambda p, q: p + q, [a, b], arith if not boolboth else 'i')
    if op == 'Sub':
        if boolboth and (isinstance(a, Arr) or isinstance(b, Arr)):
            raise PyRaise('TypeError', 'numpy boolean subtract')
        return elementwise(lambda p, q: p - q, [a, b], arith if not boolboth else 'i')
    if op == 'Mult':
        return elementwise(mul, [a, b], arith if not boolboth or isinstance(a, Arr) else 'i')
    if op == 'Div':
        def dv(p, q):
            if q.const is not None and q.const == 0:
                raise PyRaise('ZeroDivisionError', 'division by zero')
            require_nonzero(q)
            return mul(p, inv(q))
        return elementwise(dv, [a, b], 'r')
    if op == 'FloorDiv':
        if 'r' in (ka, kb):
            return elementwise(lambda p, q: floor_poly(mul(p, inv(q))), [a, b], 'r')

        def fd(p, q):
            require_pos(q)
            return idiv(p, q)
        return elementwise(fd, [a, b], 'i')
    if op == 'Mod':
        if 'r' in (ka, kb):
            raise Unsupported("float modulo")

        def md(p, q):
            require_pos(q)
            return imod(p, q)
        return elementwise(md, [a, b], 'i')
    if op == 'Pow':
        return power(a, b)
    if op == 'BitAnd':
        if boolboth:
            return elementwise(mul, [a, b], 'b')
    if op == 'BitOr':
        if boolboth:
            return elementwise(bor, [a, b], 'b')
    if op == 'BitXor':
        if boolboth:
            return elementwise(lambda p, q: p + q - 2 * mul(p, q), [a, b], 'b')
    if op == 'MatMult':
        return dot(a, b)
    raise Unsupported("operator %s" % op)


def require_nonzero(q):
    from . import loops
    if positive(q) or positive(-q):
        return
    if prover.entails(ONE - eq0(q)):
        return
    for mo, c in q.m:
        if mo == () and prover.sums_nonneg(q - P(c) if c > 0 else P(c) - q):
            return
    if loops.quiet():
        return
    if decide(eq0(q)):
        raise Unsupported("division by a term that may be zero")


def require_pos(q):
    if is_int(q) and nonneg(q - 1):
        return
    if decide(ge0(q - 1)):
        return
    if decide(eq0(q)):
        raise PyRaise('ZeroDivisionError', 'integer division by zero')
    raise Unsupported("division by a negative integer")


def floor_poly(p):
    if is_int(p):
        return p
    raise Unsupported("floor of a real term")


def power(a, b):
    kb = kindof(b)
    if isinstance(b, Num) and b.p.const is not None and b.p.const.denominator == 1:
        b = int(b.p.const)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, int) and 0 <= b <= 8:
        k = kindof(a)
        return elementwise(lambda p: p ** b, [a], 'i' if k == 'b' else k)
    if isinstance(b, int) and b < 0:
        return binop('Div', 1, power(a, -b))
    if isinstance(b, Num) and b.p.const == Fraction(1, 2):
        return elementwise(psqrt, [a], 'r')
    k = joinkind(kindof(a), kindof(b))

    def pw(p, q):
        if p.const == 1:
            return ONE
        if q.const == 0:
            return ONE
        return P(intern('fn', ('pow', p, q), 'r'))
    return elementwise(pw, [a, b], k)


def inf_op(op, a, b):
    if op in ('Add', 'Sub'):
        if isinstance(a, Inf) and not isinstance(b, Inf):
            return a
        if isinstance(b, Inf) and not isinstance(a, Inf):
            return b if op == 'Add' else Inf(-b.sign)
    if op == 'Mult':
        i, o = (a, b) if isinstance(a, Inf) else (b, a)
        if is_num(o) and topoly(o).const is not None and topoly(o).const != 0:
            return Inf(i.sign * (1 if topoly(o).const > 0 else -1))
    raise Unsupported("arithmetic with infinity")


def unary(op, v):
    if op == 'USub':
        if isinstance(v, Inf):
            return Inf(-v.sign)
        if type(v) is int:
            return -v
        k = kindof(v)
        if k == 'b' and isinstance(v, Arr):
            raise PyRaise('TypeError', 'numpy boolean negative')
        return elementwise(lambda p: -p, [v], 'i' if k == 'b' else k)
    if op == 'UAdd':
        return v
    if op == 'Invert':
        k = kindof(v)
        if k == 'b' and not isinstance(v, bool):
            return elementwise(neg_guard, [v], 'b')
        return elementwise(lambda p: -p - 1, [v], 'i')
    raise Unsupported(op)


def inplace(op, cur, v):
    """cur op= v: same object for arrays and lists"""
    if isinstance(cur, Arr):
        kv = kindof(v) if not isinstance(v, (LRef, tuple)) else None
        if isinstance(v, (LRef, tuple)):
            v = asarr(v)
            kv = v.kind
        if cur.kind in ('i', 'b') and (kv == 'r' or op == 'Div'):
            raise PyRaise('TypeError', 'ufunc casting error (in-place float into int array)')
        if cur.kind == 'b' and kv == 'i':
            raise PyRaise('TypeError', 'ufunc casting error')
        r = binop(op, cur, v)
        r = asarr(r)
        if r.ndim != cur.ndim:
            raise PyRaise('ValueError', 'non-broadcastable output operand')
        for x, y in zip(r.shape, cur.shape):
            if not same_dim(x, y):
                raise PyRaise('ValueError', 'non-broadcastable output operand')
        store(cur, r.reader())
        return cur
    if isinstance(cur, LRef) and op == 'Add':
        r = cur.rec
        vs = iter_values(v)
        if r[0] == 'list' and isinstance(vs, list):
            cur.set(('list', r[1] + tuple(vs)))
            return cur
        if r[0] == 'list+' and isinstance(vs, list):
            cur.set(('list+', r[1], r[2] + tuple(vs), r[3]))
            return cur
        c = list_concat(cur, v)
        cur.set(c.rec)
        return cur
    return binop(op, cur, v)


def compare(op, a, b):
    if isinstance(a, SRef) and isinstance(b, SRef):
        le, ge = set_method(a, 'issubset').fn(b), set_method(b, 'issubset').fn(a)
        eq = mknum(mul(topoly(le), topoly(ge)), 'b')
        if op in ('Eq', 'NotEq'):
            return eq if op == 'Eq' else mknum(neg_guard(topoly(eq)), 'b')
        return {'LtE': le, 'GtE': ge}.get(op) or mknum(mul(topoly(le if op == 'Lt' else ge), neg_guard(topoly(eq))), 'b')
    if op in ('Is', 'IsNot'):
        if isinstance(a, OpqVal) or isinstance(b, OpqVal):
            same = isinstance(a, OpqVal) and isinstance(b, OpqVal) and a.obj is b.obj
            if not same and a is not None and b is not None:
                raise Unsupported("identity of opaque values")
        elif isinstance(a, LRef) and isinstance(b, LRef):
            same = a.id == b.id
        elif isinstance(a, Inst) and isinstance(b, Inst):
            same = a.id == b.id
        elif isinstance(a, Arr) and isinstance(b, Arr):
            same = a is b
        elif isinstance(a, TypeVal) and isinstance(b, TypeVal):
            same = a.name == b.name
        elif isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported("identity of undefined value")
        else:
            same = a is b or (isinstance(a, (str, int)) and isinstance(b, (str, int)) and type(a) is type(b) and a == b)
        return same if op == 'Is' else not same
    if op in ('In', 'NotIn'):
        r = contains(b, a)
        if op == 'NotIn':
            r = mknum(neg_guard(topoly(r)), 'b')
        return r
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise Unsupported("comparison of undefined value")
    if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
        if op in ('Eq', 'NotEq'):
            if isinstance(a, str) and isinstance(b, str):
                e = a == b
            elif isinstance(a, Str) or isinstance(b, Str):
                raise Unsupported("comparison of opaque strings")
            else:
                e = False
            return e if op == 'Eq' else not e
        raise Unsupported("string order")
    if isinstance(a, Inf) or isinstance(b, Inf):
        return inf_cmp(op, a, b)
    if a is None or b is None:
        if op in ('Eq', 'NotEq'):
            o = b if a is None else a
            if isinstance(o, Arr):
                return elementwise(lambda p: ZERO if op == 'Eq' else ONE, [o], 'b')
            e = a is None and b is None
            return e if op == 'Eq' else not e
        raise PyRaise('TypeError', 'order comparison with None')
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq'):
        if len(a) != len(b):
            return op == 'NotEq'
        r = ONE
        for x, y in zip(a, b):
            r = mul(r, topoly(compare('Eq', x, y)))
        return mknum(r if op == 'Eq' else neg_guard(r), 'b')
    if isinstance(a, LRef) and isinstance(b, LRef) and op in ('Eq', 'NotEq'):
        ra, rb = a.rec, b.rec
        if ra[0] == 'list' and rb[0] == 'list':
            return compare(op, tuple(ra[1]), tuple(rb[1]))
        raise Unsupported("comparison of symbolic lists")
    if isinstance(a, (ClassVal, TypeVal, Inst, Bound, Func, DRef, Opaque)) or \
            isinstance(b, (ClassVal, TypeVal, Inst, Bound, Func, DRef, Opaque)):
        if op in ('Eq', 'NotEq'):
            e = a is b or (isinstance(a, TypeVal) and isinstance(b, TypeVal) and a.name == b.name)
            if isinstance(a, DRef) and isinstance(b, DRef):
                if set(a.rec) != set(b.rec):
                    e = False
                else:
                    return compare(op, tuple(a.rec[k] for k in a.rec), tuple(b.rec[k] for k in a.rec))
            return e if op == 'Eq' else not e
        raise Unsupported("comparison")
    if isinstance(a, (LRef, tuple)) and isinstance(b, Arr):
        a = asarr(a)
    if isinstance(b, (LRef, tuple)) and isinstance(a, Arr):
        b = asarr(b)
    if isinstance(a, (LRef, tuple)) or isinstance(b, (LRef, tuple)):
        if op in ('Eq', 'NotEq'):
            return op == 'NotEq'
        raise PyRaise('TypeError', 'unorderable')
    if not numlike(a) or not numlike(b):
        raise Unsupported("comparison of %r and %r" % (a, b))
    if type(a) is int and type(b) is int:
        return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    fs = {'Eq': lambda p, q: eq0(p - q), 'NotEq': lambda p, q: neg_guard(eq0(p - q)),
          'Lt': lambda p, q: gt0(q - p), 'LtE': lambda p, q: ge0(q - p),
          'Gt': lambda p, q: gt0(p - q), 'GtE': lambda p, q: ge0(p - q)}
    try:
        return elementwise(fs[op], [a, b], 'b')
    except PyRaise as e:
        if op in ('Eq', 'NotEq') and e.name == 'ValueError':
            return op == 'NotEq'
        raise


def inf_cmp(op, a, b):
    if isinstance(a, Inf) and isinstance(b, Inf):
        x, y = a.sign, b.sign
    elif isinstance(a, Inf):
        x, y = a.sign, 0
    else:
        x, y = 0, b.sign
    r = {'Eq': x == y and isinstance(a, Inf) and isinstance(b, Inf), 'NotEq': x != y, 'Lt': x < y, 'LtE': x <= y,
         'Gt': x > y, 'GtE': x >= y}[op]
    return r


def contains(c, x):
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        if isinstance(x, Str):
            raise Unsupported("substring test on opaque string")
        raise PyRaise('TypeError', 'in <string>')
    if isinstance(c, Str):
        raise Unsupported("substring test on opaque string")
    if isinstance(c, DRef):
        if isinstance(x, (str, int)):
            return x in c.rec
        raise Unsupported("symbolic key test")
    if isinstance(c, (LRef, tuple)):
        vs = iter_values(c)
        if isinstance(vs, list):
            r = ZERO
            for v in vs:
                if v is x and not isinstance(x, (Arr,)):
                    return True
                if isinstance(v, Arr) or (isinstance(x, Arr) and x.ndim > 0):
                    e = compare('Eq', x, v)
                    if truth(e):
                        return True
                    continue
                r = bor(r, topoly(compare('Eq', x, v)))
            return mknum(r, 'b')
        k = fresh(vs.n)
        return mknum(neg_guard(mk_all(k, vs.n, neg_guard(topoly(compare('Eq', x, vs.fn(P(k))))))), 'b')
    if isinstance(c, Seq):
        k = fresh(c.n)
        return mknum(neg_guard(mk_all(k, c.n, neg_guard(topoly(compare('Eq', x, c.fn(P(k))))))), 'b')
    if isinstance(c, Arr):
        return reduce_any(compare('Eq', c, x))
    raise Unsupported("membership in %r" % (c,))


def format_mod(a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        import re
        specs = re.findall(r'%[-+ 0#]*[\d*]*(?:\.\d+)?([a-zA-Z%])', a)
        specs = [s for s in specs if s != '%']
        if len(specs) != len(args):
            raise PyRaise('TypeError', 'not all arguments converted / not enough arguments during string formatting')
        for s, x in zip(specs, args):
            if s in 'difeEgGxXou':
                if not (is_num(x) or isinstance(x, Inf) or (isinstance(x, Arr) and x.ndim == 0)):
                    if isinstance(x, (Undef, OpqVal)):
                        raise Unsupported("format of undefined value")
                    raise PyRaise('TypeError', '%%%s format: a number is required' % s)
        if all(isinstance(x, (str, int)) for x in args):
            try:
                return a % (tuple(args))
            except Exception:
                pass
        return Str(('%', a) + tuple(args))
    return Str((a, b))


# ---------------------------------------------------------------- lists
def list_concat(a, b):
    ra = iter_values(a)
    rb = iter_values(b)
    if isinstance(ra, list) and isinstance(rb, list):
        return LRef(ra + rb)
    na = P(len(ra)) if isinstance(ra, list) else ra.n
    nb = P(len(rb)) if isinstance(rb, list) else rb.n

    def get(r, i):
        if isinstance(r, list):
            if i.const is not None:
                return r[int(i.const)]
            return merge_values([(eq0(i - j), v) for j, v in enumerate(r)])
        return r.fn(i)

    def fn(i):
        if nonneg(i - na):
            return get(rb, i - na)
        if nonneg(na - 1 - i):
            return get(ra, i)
        if isinstance(ra, list) and not ra:
            return get(rb, i)
        c = ge0(na - 1 - i)
        return merge_values([(c, get(ra, i)), (ONE - c, get(rb, i - na))])
    return LRef(rec=('slist', na + nb, fn))


def list_repeat(a, n):
    vs = iter_values(a)
    if type(n) is int and isinstance(vs, list):
        r = list(vs) * n
        return tuple(r) if isinstance(a, tuple) else LRef(r)
    if isinstance(vs, list) and len(vs) == 1:
        N = topoly(n)
        return LRef(rec=('slist', pmax(N, ZERO), lambda i: vs[0]))
    raise Unsupported("list repetition")


def make_set(v):
    vs = iter_values(v)
    if isinstance(vs, Seq):
        return SRef(rec=('slist', vs.n, vs.fn))
    out = SRef([])
    for x in vs:
        set_add(out, x)
    return out


def set_add(s, x):
    if s.rec[0] != 'list':
        raise Unsupported("adding to a symbolic set")
    if not truth(contains(s, x)):
        s.set(('list', s.rec[1] + (x,)))


def is_set(v):
    return isinstance(v, SRef)


def set_method(s, name):
    def subset(a, b):
        va = iter_values(a)
        if isinstance(va, list):
            r = ONE
            for x in va:
                r = mul(r, topoly(contains(b, x)))
            return mknum(r, 'b')
        k = fresh(va.n)
        return mknum(mk_all(k, va.n, topoly(contains(b, va.fn(P(k))))), 'b')

    def disjoint(o):
        va = iter_values(s)
        if isinstance(va, list):
            r = ONE
            for x in va:
                r = mul(r, neg_guard(topoly(contains(o, x))))
            return mknum(r, 'b')
        k = fresh(va.n)
        return mknum(mk_all(k, va.n, neg_guard(topoly(contains(o, va.fn(P(k)))))), 'b')

    def discard(x):
        out = []
        for y in to_tuple(s):
            if not truth(compare('Eq', x, y)):
                out.append(y)
        s.set(('list', tuple(out)))

    def update(*os):
        for o in os:
            for x in to_tuple(o):
                set_add(s, x)

    def union(*os):
        r = SRef(rec=s.rec)
        for o in os:
            for x in to_tuple(o):
                set_add(r, x)
        return r

    def inter(o):
        return SRef([x for x in to_tuple(s) if truth(contains(o, x))])

    def diff(o):
        return SRef([x for x in to_tuple(s) if not truth(contains(o, x))])
    t = {'isdisjoint': disjoint, 'issubset': lambda o: subset(s, o), 'issuperset': lambda o: subset(o, s),
         'add': lambda x: set_add(s, x), 'discard': discard, 'remove': discard, 'update': update, 'union': union,
         'intersection': inter, 'difference': diff, 'copy': lambda: SRef(rec=s.rec)}
    if name not in t:
        raise PyRaise('AttributeError', name)
    return Builtin('set.' + name, t[name])


def list_method(l, name):
    if isinstance(l, SRef):
        return set_method(l, name)
    def append(x):
        r = l.rec
        if r[0] == 'list':
            l.set(('list', r[1] + (x,)))
        elif r[0] == 'list+':
            l.set(('list+', r[1], r[2] + (x,), r[3]))
        else:
            n, f = r[1], r[2]

            def g(i):
                if prover.prove_zero(i - n, smt=False):
                    return x
                if nonneg(n - 1 - i):
                    return f(i)
                c = eq0(i - n)
                return merge_values([(ONE - c, f(i)), (c, x)])
            l.set(('slist', n + 1, g))

    def extend(x):
        inplace('Add', l, x)

    def pop(i=None):
        r = l.rec
        if r[0] == 'list':
            items = list(r[1])
            if not items:
                raise PyRaise('IndexError', 'pop from empty list')
            if i is None:
                i = -1
            if type(i) is not int:
                raise Unsupported("symbolic pop index")
            if not -len(items) <= i < len(items):
                raise PyRaise('IndexError', 'pop index out of range')
            v = items.pop(i)
            l.set(('list', tuple(items)))
            return v
        if r[0] == 'slist':
            n, f = r[1], r[2]
            if decide(eq0(n)):
                raise PyRaise('IndexError', 'pop from empty list')
            if i is None or i == -1:
                v = f(n - 1)
                l.set(('slist', n - 1, f))
                return v
            if i == 0:
                v = f(ZERO)
                l.set(('slist', n - 1, lambda j: f(j + 1)))
                return v
        raise Unsupported("pop")

    def insert(i, x):
        r = l.rec
        if r[0] == 'list' and type(i) is int:
            items = list(r[1])
            items.insert(i, x)
            l.set(('list', tuple(items)))
            return
        raise Unsupported("insert")

    def index(x):
        r = l.rec
        if r[0] == 'list':
            for j, v in enumerate(r[1]):
                if truth(compare('Eq', v, x)):
                    return j
            raise PyRaise('ValueError', 'not in list')
        raise Unsupported("index")

    def remove(x):
        i = index(x)
        pop(i)

    def count(x):
        r = l.rec
        if r[0] == 'list':
            return mknum(addall([topoly(compare('Eq', v, x)) for v in r[1]]), 'i')
        raise Unsupported("count")

    def reverse():
        r = l.rec
        if r[0] == 'list':
            l.set(('list', tuple(reversed(r[1]))))
        else:
            raise Unsupported("reverse")

    def copy():
        return LRef(rec=l.rec)

    def clear():
        l.set(('list', ()))

    def sort(**kw):
        raise Unsupported("sort")
    d = dict(append=append, extend=extend, pop=pop, insert=insert, index=index, remove=remove, count=count,
             reverse=reverse, copy=copy, clear=clear, sort=sort)
    if name not in d:
        raise PyRaise('AttributeError', name)
    return Builtin('list.' + name, d[name])


def delitem(o, k):
    if isinstance(o, DRef):
        o.rec.pop(k)
        return
    if isinstance(o, LRef):
        r = o.rec
        if r[0] == 'list' and type(k) is int:
            items = list(r[1])
            del items[k]
            o.set(('list', tuple(items)))
            return
        if r[0] == 'list' and isinstance(k, SliceV):
            items = list(r[1])
            del items[slice(k.lo, k.hi, k.step)]
            o.set(('list', tuple(items)))
            return
    raise Unsupported("del item")


def dict_method(d, name):
    rec = d.rec

    def get(k, default=None):
        return d.rec.get(k, default)

    def setdefault(k, v=None):
        return d.rec.setdefault(k, v)

    def update(o=None, **kw):
        if o is not None:
            d.rec.update(o.rec)
        d.rec.update(kw)

    def pop(k, *a):
        if k in d.rec:
            return d.rec.pop(k)
        if a:
            return a[0]
        raise PyRaise('KeyError', str(k))
    m = dict(get=get, setdefault=setdefault, update=update, pop=pop, keys=lambda: LRef(list(d.rec.keys())),
             values=lambda: LRef(list(d.rec.values())), items=lambda: LRef([(k, v) for k, v in d.rec.items()]),
             copy=lambda: DRef(d.rec))
    if name not in m:
        raise PyRaise('AttributeError', name)
    return Builtin('dict.' + name, m[name])


# ---------------------------------------------------------------- indexing
def norm_index(i, n, what='index'):
    """python index -> poly in [0,n), forks to IndexError"""
    p = topoly(i)
    if p.const is not None and p.const < 0:
        p = n + p
        if nonneg(p):
            return p
        if decide(ge0(p)):
            return p
        raise PyRaise('IndexError', what)
    if nonneg(p):
        if nonneg(n - 1 - p):
            return p
        if decide(ge0(n - 1 - p)):
            return p
        raise PyRaise('IndexError', what)
    if nonneg(-p - 1):
        if nonneg(p + n) or decide(ge0(p + n)):
            return p + n
        raise PyRaise('IndexError', what)
    if decide(ge0(p)):
        if decide(ge0(n - 1 - p)):
            return p
        raise PyRaise('IndexError', what)
    if decide(ge0(p + n)):
        return p + n
    raise PyRaise('IndexError', what)


def slice_bounds(s, n):
    """(start, length, step) for a slice over a dimension n (step +-1, or constant positive)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Num):
        raise Unsupported("symbolic slice step")

    def clip(v, default):
        if v is None:
            return default
        p = topoly(v)
        c = p.const
        if c is not None and c < 0:
            p = n + p
            return p if nonneg(p) else pclip(p, n)
        if c is None and not nonneg(p):
            if nonneg(-p - 1):
                p = p + n
                return p if nonneg(p) else pclip(p, n)
            if decide(ge0(p)):
                pass
            else:
                p = p + n
                return pclip(p, n)
        if nonneg(n - p):
            return p
        if nonneg(p - n):
            return n
        if decide(ge0(n - p)):
            return p
        return n
    if step > 0:
        lo = clip(s.lo, ZERO)
        hi = clip(s.hi, n)
        if nonneg(hi - lo):
            ln = hi - lo
        elif nonneg(lo - hi):
            ln = ZERO
        elif decide(ge0(hi - lo)):
            ln = hi - lo
        else:
            ln = ZERO
        if step != 1:
            ln = idiv(ln + step - 1, P(step))
        return lo, ln, step
    if step == -1 and s.lo is None and s.hi is None:
        return n - 1, n, -1
    raise Unsupported("slice with negative step")


def pclip(p, n):
    if decide(ge0(p)):
        return p
    return ZERO


def compose_view(a, shape, fwd, inv_, contig):
    """view of view: fwd maps new idx -> a's idx, inv_ maps a's idx -> (new idx, guard)"""
    if a.fwd is None:
        return Arr(a.bid, shape, fwd, inv_, contig)
    f0, i0 = a.fwd, a.inv

    def f(idx):
        return f0(fwd(idx))

    def g(b):
        mid, g1 = i0(b)
        idx, g2 = inv_(mid)
        return idx, mul(g1, g2)
    return Arr(a.bid, shape, f, g, contig)


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # ellipsis
    consumed = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Arr) and k.kind == 'b' and k.ndim > 0:
            consumed += k.ndim
        else:
            consumed += 1
    if consumed > a.ndim:
        raise PyRaise('IndexError', 'too many indices for array')
    if Ellipsis in [k for k in key if not isinstance(k, (Arr, Num))]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [SliceV(None, None, None)] * (a.ndim - consumed)
    else:
        key += [SliceV(None, None, None)] * (a.ndim - consumed)
    out = []
    for k in key:
        if isinstance(k, (LRef, tuple)) and not isinstance(k, SliceV):
            k = asarr(k)
            if k.kind == 'r' and prover.prove_zero(size_of(k), smt=False):
                k = mkarr(k.shape, k.reader(), 'i')
        if isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        if isinstance(k, Num) and k.kind == 'b':
            raise Unsupported("boolean scalar index")
        if isinstance(k, Num) and k.kind == 'r':
            raise PyRaise('IndexError', 'only integers are valid indices')
        if isinstance(k, Arr) and k.kind == 'r':
            raise PyRaise('IndexError', 'arrays used as indices must be of integer type')
        if isinstance(k, Arr) and k.ndim == 0:
            k = mknum(k.at(), k.kind)
        out.append(k)
    return out


def getitem(o, key):
    if isinstance(o, Arr):
        return arr_getitem(o, key)
    if isinstance(o, (LRef, tuple, Seq)) and not isinstance(o, SliceV):
        return seq_getitem(o, key)
    if isinstance(o, DRef):
        if isinstance(key, (Num, Arr, LRef)):
            raise Unsupported("symbolic dict key")
        if key not in o.rec:
            raise PyRaise('KeyError', repr(key))
        return o.rec[key]
    if isinstance(o, str):
        if isinstance(key, int):
            return o[key]
        if isinstance(key, SliceV):
            return o[slice(key.lo, key.hi, key.step)]
        raise Unsupported("string index")
    if isinstance(o, Opaque) and '__getitem__' in o.attrs:
        return o.attrs['__getitem__'](key)
    if isinstance(o, Inst):
        return I.call(I.getattr(o, '__getitem__'), [key], {})
    if isinstance(o, Undef):
        raise Unsupported("index of undefined value " + o.why)
    if is_num(o) or o is None:
        if isinstance(o, Num) and (key is None or key == ()):
            return asarr(o) if key is None else o
        raise PyRaise('TypeError', 'object is not subscriptable')
    if isinstance(o, ClassVal) or isinstance(o, TypeVal):
        return o
    raise Unsupported("index of %r" % (o,))


def seq_getitem(o, key):
    if isinstance(o, LRef) and o.rec[0] == 'list+' and is_num(key) and topoly(key).const is not None \
            and -len(o.rec[2]) <= topoly(key).const < 0:
        return o.rec[2][int(topoly(key).const)]
    if isinstance(o, LRef) and o.rec[0] == 'list+':
        base = o.rec[3]
        if base[0] == 'list' and is_num(key) and topoly(key).const is not None and 0 <= topoly(key).const < len(base[1]):
            return base[1][int(topoly(key).const)]
        raise Unsupported("read of a list under construction")
    vs = iter_values(o)
    if isinstance(key, SliceV):
        if isinstance(vs, list):
            if all(x is None or type(x) is int for x in (key.lo, key.hi, key.step)):
                r = vs[slice(key.lo, key.hi, key.step)]
                return tuple(r) if isinstance(o, tuple) else LRef(r)
            n = P(len(vs))
            lo, ln, st = slice_bounds(key, n)
            if lo.const is not None and ln.const is not None:
                r = vs[int(lo.const):int(lo.const) + int(ln.const)]
                return tuple(r) if isinstance(o, tuple) else LRef(r)
            raise Unsupported("symbolic slice of a concrete list")
        lo, ln, st = slice_bounds(key, vs.n)
        if st == -1:
            return LRef(rec=('slist', ln, lambda i: vs.fn(lo - i)))
        if st != 1:
            return LRef(rec=('slist', ln, lambda i: vs.fn(lo + i * st)))
        if ln.const is not None:
            r = [vs.fn(lo + i) for i in range(int(ln.const))]
            return tuple(r) if isinstance(o, tuple) else LRef(r)
        return LRef(rec=('slist', ln, lambda i: vs.fn(lo + i)))
    if isinstance(key, Arr) and key.ndim == 0:
        key = mknum(key.at(), key.kind)
    if not is_num(key):
        raise PyRaise('TypeError', 'list indices must be integers or slices')
    if isinstance(key, Num) and key.kind == 'r':
        raise PyRaise('TypeError', 'list indices must be integers')
    if isinstance(vs, list):
        if isinstance(key, bool):
            key = int(key)
        if type(key) is int:
            if -len(vs) <= key < len(vs):
                return vs[key]
            raise PyRaise('IndexError', 'list index out of range')
        p = norm_index(key, P(len(vs)))
        if p.const is not None:
            return vs[int(p.const)]
        # merge over the (concrete) elements
        return merge_values([(eq0(p - j), v) for j, v in enumerate(vs)]) if mergeable(vs) else fork_index(p, vs)
    p = norm_index(key, vs.n)
    return vs.fn(p)


def mergeable(vs):
    return all(is_num(v) for v in vs)


def fork_index(p, vs):
    for j, v in enumerate(vs[:-1]):
        if decide(eq0(p - j)):
            return v
    return vs[-1]


def arr_getitem(a, key):
    if isinstance(key, str):
        raise PyRaise('IndexError', 'string index into array')
    keys = expand_key(a, key)
    if not any(isinstance(k, Arr) for k in keys):
        return basic_view(a, keys)
    return gather(a, keys)


def basic_view(a, keys):
    shape = []
    plan = []      # per a-dim: ('int', p) | ('slice', lo, step, newpos)
    d = 0
    contig = a.contig
    newpos = 0
    seen_full = False
    for k in keys:
        if k is None:
            shape.append(ONE)
            newpos += 1
            continue
        n = a.shape[d]
        if isinstance(k, SliceV):
            lo, ln, st = slice_bounds(k, n)
            plan.append(('slice', lo, st, newpos, ln))
            full = lo is ZERO and st == 1 and prover.prove_zero(ln - n, smt=False)
            if not full and (any(q[0] == 'slice' for q in plan[:-1])):
                contig = False
            if st != 1:
                contig = False
            shape.append(ln)
            newpos += 1
        else:
            p = norm_index(k, n)
            if any(q[0] == 'slice' for q in plan):
                contig = False
            plan.append(('int', p))
        d += 1
    if all(q[0] == 'int' for q in plan) and len(shape) == 0:
        return mknum(a.at(*[q[1] for q in plan]), a.kind)
    shape = tuple(shape)

    def fwd(idx):
        out = []
        for q in plan:
            if q[0] == 'int':
                out.append(q[1])
            else:
                i = idx[q[3]]
                out.append(q[1] + (i if q[2] == 1 else i * q[2]))
        return out

    def inv_(b):
        idx = [ZERO] * len(shape)
        g = ONE
        for q, x in zip(plan, b):
            if q[0] == 'int':
                g = mul(g, eq0(x - q[1]))
            else:
                if q[2] == 1:
                    i = x - q[1]
                elif q[2] == -1:
                    i = q[1] - x
                else:
                    raise Unsupported("store through strided view")
                g = mul(g, mul(ge0(i), ge0(q[4] - 1 - i)))
                idx[q[3]] = i
        return idx, g
    return compose_view(a, shape, fwd, inv_, contig)


def interval_guard(body, v, n):
    """body is the guard of an interval [lo, hi) of v within [0, n): (lo, hi - lo)"""
    if len(body.m) == 1 and body.m[0][1] == 1 and len(body.m[0][0]) == 1 and body.m[0][0][0][0].kind == 'ge':
        c, r = linear_in(body.m[0][0][0][0].args[0], v)
        if c is not None and c.const in (1, -1) and v not in r.fv:
            if c.const == -1:         # r - v >= 0
                if nonneg(r + 1) and nonneg(n - 1 - r):
                    return ZERO, r + 1
            elif nonneg(-r) and nonneg(n + r):          # v + r >= 0
                return -r, n + r
    nb = ONE - body
    if len(nb.m) == 1 and nb.m[0][1] == 1 and len(nb.m[0][0]) == 1 and nb.m[0][0][0][0].kind == 'ge':
        c, r = linear_in(nb.m[0][0][0][0].args[0], v)
        if c is not None and c.const in (1, -1) and v not in r.fv:
            if c.const == -1:         # not (v <= r)
                if nonneg(r + 1) and nonneg(n - 1 - r):
                    return r + 1, n - 1 - r
            elif nonneg(-r) and nonneg(n + r):
                return ZERO, -r
    return None


def mask_of(k):
    """register a boolean array as a mask; returns (count, unrank functions)"""
    rd = k.reader()
    dims = k.shape
    # triangular mask
    vs = [fresh(d, base='q') for d in dims]
    body = rd([P(v) for v in vs])
    if len(dims) == 2 and dims[0] is dims[1] and body is ge0(P(vs[0]) - P(vs[1])):
        S = dims[0]
        return ('tri', scale(mul(S, S + 1), Fraction(1, 2)), [lambda p: T.tri_i(p), lambda p: T.tri_j(p)],
                lambda i, j: scale(mul(i, i + 1), Fraction(1, 2)) + j, dims)
    if len(dims) == 2:
        # one excluded column per row: mask = (j != f(i))
        nb = ONE - body
        if len(nb.m) == 1 and nb.m[0][1] == 1 and len(nb.m[0][0]) == 1 and nb.m[0][0][0][0].kind == 'eq':
            e = nb.m[0][0][0][0].args[0]
            c, r = linear_in(e, vs[1])
            if c is not None and c.const in (1, -1) and vs[1] not in r.fv:
                f = scale(r, -1 / c.const)
                if nonneg(f) and nonneg(dims[1] - 1 - f):
                    S1 = dims[1] - 1

                    def fr(i):
                        return subst(f, {vs[0]: i})

                    def un_i(p):
                        a = T.row_excluded(p)
                        if a is not None and a.args[3] is S1:
                            return a.args[1]
                        return idiv(p, S1)

                    def un_j(p):
                        a = T.row_excluded(p)
                        if a is not None and a.args[3] is S1:
                            return a.args[2]
                        q = imod(p, S1)
                        return q + ge0(q - fr(idiv(p, S1)))
                    return ('rowex', mul(dims[0], S1), [un_i, un_j],
                            lambda i, j: app('rowex', (i, j, S1, fr(i)), 'i'), dims)
    if len(dims) == 1:
        iv = interval_guard(body, vs[0], dims[0])
        if iv is not None:
            lo, n = iv
            return ('interval', n, [lambda p: p + lo], lambda i: i - lo, dims)
    name, ps = T.new_mask(dims, lambda idx: rd(idx))
    return ('gen', T.mask_count(name, ps),
            [(lambda p, d=d: app('unrank_%s_%d' % (name, d), ps + (p,), 'i')) for d in range(len(dims))],
            lambda *ix: T.mask_rank(name, ps, ix), dims)


def unrank_atom(p):
    """p = unrank of a one-dimensional mask: (mask, parameters, argument)"""
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1:
        a = p.m[0][0][0][0]
        if a.kind == 'app' and a.args[0].startswith('unrank_'):
            name = a.args[0].split('_')[1]
            if len(T.MASKS[name][0]) == 1:
                return name, a.args[1:-1], a.args[-1]
    return None


def check_range(k, n, neg_ok=True):
    """generic element of the index array k is a valid index for dimension n"""
    vs = [fresh(d, base='g') for d in k.shape]
    p = k.reader()([P(v) for v in vs])
    if prover.prove_nonneg(p):
        if prover.prove_nonneg(n - 1 - p):
            return lambda q: q
        ok = ge0(n - 1 - p)
        for v, d in zip(vs, k.shape):
            ok = mk_all(v, d, ok)
        if decide(ok):
            return lambda q: q
        raise PyRaise('IndexError', 'index out of bounds')
    if prover.prove_nonneg(-p - 1) and prover.prove_nonneg(p + n):
        return lambda q: q + n
    if prover.prove_nonneg(p + n) and prover.prove_nonneg(n - 1 - p):
        return lambda q: q + mul(ge0(-q - 1), n)
    ok = mul(ge0(p + n), ge0(n - 1 - p))
    for v, d in zip(vs, k.shape):
        ok = mk_all(v, d, ok)
    if decide(ok):
        return lambda q: q + mul(ge0(-q - 1), n)
    raise PyRaise('IndexError', 'index out of bounds')


def adv_plan(a, keys):
    """resolve advanced keys.  Returns (result shape, fwd, descriptors)"""
    items = []     # per consumed a-dim or newaxis
    d = 0
    masks = []
    for k in keys:
        if k is None:
            items.append(('new',))
        elif isinstance(k, SliceV):
            lo, ln, st = slice_bounds(k, a.shape[d])
            items.append(('slice', d, lo, st, ln))
            d += 1
        elif isinstance(k, Arr) and k.kind == 'b':
            for j, dd in enumerate(k.shape):
                if not same_dim(dd, a.shape[d + j]):
                    raise PyRaise('IndexError', 'boolean index did not match indexed array')
            m = mask_of(k)
            masks.append((k, m, d))
            for j in range(k.ndim):
                items.append(('adv', d + j, mkarr((m[1],), (lambda idx, f=m[2][j]: f(idx[0])), 'i'), lambda q: q))
            d += k.ndim
        elif isinstance(k, Arr):
            nm = check_range(k, a.shape[d])
            items.append(('adv', d, k, nm))
            d += 1
        else:
            p = norm_index(k, a.shape[d])
            items.append(('adv', d, mkarr((), lambda idx, p=p: p, 'i'), lambda q: q))
            d += 1
    advs = [it for it in items if it[0] == 'adv']
    bsh = bshape([it[2].shape for it in advs])
    pos = [i for i, it in enumerate(items) if it[0] == 'adv']
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    shape = []
    where = {}
    if not adjacent:
        shape += list(bsh)
        advpos = 0
    for i, it in enumerate(items):
        if it[0] == 'adv':
            if adjacent and i == pos[0]:
                advpos = len(shape)
                shape += list(bsh)
        elif it[0] == 'new':
            shape.append(ONE)
        else:
            where[i] = len(shape)
            shape.append(it[4])
    nb = len(bsh)
    rds = {i: bread(it[2], bsh) for i, it in enumerate(items) if it[0] == 'adv'}

    def fwd(idx):
        out = [None] * a.ndim
        r = list(idx[advpos:advpos + nb])
        for i, it in enumerate(items):
            if it[0] == 'adv':
                out[it[1]] = it[3](rds[i](r))
            elif it[0] == 'slice':
                x = idx[where[i]]
                out[it[1]] = it[2] + (x if it[3] == 1 else x * it[3])
        return out
    return tuple(shape), fwd, items, rds, where, advpos, bsh, masks


def gather(a, keys):
    shape, fwd, items, rds, where, advpos, bsh, masks = adv_plan(a, keys)
    rd = a.reader()
    r = mkarr(shape, lambda idx: rd(fwd(idx)), a.kind)
    if len(shape) == 0:
        return mknum(r.at(), a.kind)
    return r


def store(a, fn, guard=None):
    """a[...] = fn(view idx) where guard(view idx) (default everywhere)"""
    rec = a.rec
    old = rec.get
    if a.fwd is None:
        if guard is None:
            nf = fn
        else:
            def nf(b):
                g = guard(b)
                if g is ONE:
                    return fn(b)
                if g is ZERO:
                    return old(b)
                return ite(g, fn(b), old(b))
    else:
        inv_ = a.inv

        def nf(b):
            idx, g = inv_(b)
            if guard is not None and g is not ZERO:
                g = mul(g, guard(idx))
            if g is ZERO:
                return old(b)
            if g is ONE:
                return fn(idx)
            return ite(g, fn(idx), old(b))
    W.store[a.bid] = ArrRec(rec.shape, nf, rec.kind, rec.writes + 1, rec.origin)


def cast_store(a, v):
    """check kind of a value stored into array a; returns transformer"""
    kv = kindof(v)
    if a.kind == 'r' or kv == a.kind or (a.kind == 'i' and kv == 'b'):
        return lambda p: p
    if a.kind == 'i' and kv == 'r':
        def tr(p):
            if is_int(p):
                return p
            return P(intern('fn', ('trunc', p), 'i'))
        return tr
    if a.kind == 'b':
        return lambda p: neg_guard(eq0(p))
    raise Unsupported("store cast")


def setitem(o, key, v):
    if isinstance(o, Arr):
        return arr_setitem(o, key, v)
    if isinstance(o, LRef):
        r = o.rec
        if r[0] == 'list' and type(key) is int:
            items = list(r[1])
            if not -len(items) <= key < len(items):
                raise PyRaise('IndexError', 'list assignment index out of range')
            items[key] = v
            o.set(('list', tuple(items)))
            return
        if r[0] == 'slist' and is_num(key):
            n, f = r[1], r[2]
            p = norm_index(key, n)

            def g(i):
                if prover.prove_zero(i - p, smt=False):
                    return v
                c = eq0(i - p)
                if c is ZERO:
                    return f(i)
                return merge_values([(c, v), (ONE - c, f(i))])
            o.set(('slist', n, g))
            return
        if r[0] == 'list' and isinstance(key, Num):
            p = norm_index(key, P(len(r[1])))
            for j in range(len(r[1])):
                if j == len(r[1]) - 1 or decide(eq0(p - j)):
                    items = list(r[1])
                    items[j] = v
                    o.set(('list', tuple(items)))
                    return
        if r[0] == 'list' and isinstance(key, SliceV) and all(x is None or type(x) is int for x in (key.lo, key.hi, key.step)):
            items = list(r[1])
            items[slice(key.lo, key.hi, key.step)] = to_tuple(v)
            o.set(('list', tuple(items)))
            return
        raise Unsupported("list store")
    if isinstance(o, DRef):
        if isinstance(key, (Num, Arr, LRef)):
            raise Unsupported("symbolic dict key")
        o.rec[key] = v
        return
    if isinstance(o, Opaque) and '__setitem__' in o.attrs:
        return o.attrs['__setitem__'](key, v)
    if isinstance(o, Inst):
        return I.call(I.getattr(o, '__setitem__'), [key, v], {})
    if isinstance(o, tuple):
        raise PyRaise('TypeError', 'tuple does not support item assignment')
    raise Unsupported("store into %r" % (o,))


def arr_setitem(a, key, v):
    if isinstance(v, Inf):
        raise Unsupported("infinity stored in array")
    keys = expand_key(a, key)
    val = v if isinstance(v, Arr) else asarr(v)
    if val.bid == a.bid and val.fwd is not None:
        val = copy(val)
    tr = cast_store(a, val)
    if not any(isinstance(k, Arr) for k in keys):
        if all(not isinstance(k, SliceV) and k is not None for k in keys):
            ps = [norm_index(k, n) for k, n in zip(keys, a.shape)]
            if val.ndim > 0:
                if not prover.prove_zero(size_of(val) - 1):
                    raise PyRaise('ValueError', 'setting an array element with a sequence')
                x = tr(val.at(*[ZERO] * val.ndim))
            else:
                x = tr(val.at())

            def guard(idx):
                g = ONE
                for i, p in zip(idx, ps):
                    g = mul(g, eq0(i - p))
                return g
            store(a, lambda idx: x, guard)
            return
        view = basic_view(a, keys)
        val = drop_leading_ones(val, view.ndim)
        sh = bshape([view.shape, val.shape])
        if len(sh) != view.ndim or not all(same_dim(x, y) for x, y in zip(sh, view.shape)):
            raise PyRaise('ValueError', 'could not broadcast input array')
        rd = bread(val, view.shape)
        store(view, lambda idx: tr(rd(idx)))
        return
    # advanced store
    shape, fwd, items, rds, where, advpos, bsh, masks = adv_plan(a, keys)
    val = drop_leading_ones(val, len(shape))
    sh = bshape([shape, val.shape])
    if len(sh) != len(shape) or not all(same_dim(x, y) for x, y in zip(sh, shape)):
        raise PyRaise('ValueError', 'shape mismatch in assignment')
    vrd = bread(val, shape)
    nb = len(bsh)

    mrd = [k.reader() for (k, m, d) in masks]

    def build(idx):
        """(guard, value) of the store at a-index idx"""
        r = [fresh(d, base='s') for d in bsh]
        g = ONE
        res = [None] * len(shape)
        done_mask = {}
        for (k, m, d), kr in zip(masks, mrd):
            cell = [idx[d + j] for j in range(len(m[4]))]
            done_mask[d] = (kr(cell), m[3](*cell), len(cell))
        skip = set()
        rsub = {}
        for d, (cond, rank, nd) in done_mask.items():
            if nb != 1:
                raise Unsupported("mixed mask and index arrays")
            g = mul(g, cond)
            if r[0] in rsub:
                g = mul(g, eq0(rsub[r[0]] - rank))
            else:
                rsub[r[0]] = rank
            skip |= set(range(d, d + nd))
        eqs = []
        for i, it in enumerate(items):
            if it[0] == 'adv':
                if it[1] in skip:
                    continue
                p = it[3](rds[i]([P(x) for x in r]))
                u = unrank_atom(p)
                if u is not None:
                    x = [x for x in r if u[2] is P(x)]
                    if x and x[0] not in rsub:
                        # the positions where a mask holds: the cell is hit once, from its rank
                        rsub[x[0]] = T.mask_rank(u[0], u[1], [idx[it[1]]])
                        q = idx[it[1]]
                        g = mul(g, mul(ge0(q), ge0(T.mask_dims(u[0], u[1])[0] - 1 - q)))
                        g = mul(g, T.mask_body(u[0], u[1], [q]))
                        continue
                eqs.append(p - idx[it[1]])
            elif it[0] == 'slice':
                if it[3] != 1:
                    raise Unsupported("strided store")
                x = idx[it[1]] - it[2]
                g = mul(g, mul(ge0(x), ge0(it[4] - 1 - x)))
                res[where[i]] = x
        eqs = [subst(e, rsub) for e in eqs]
        # solve for r
        unsolved = [x for x in r if x not in rsub]
        changed = True
        while changed and unsolved:
            changed = False
            for e in list(eqs):
                for x in list(unsolved):
                    if x in e.fv:
                        c, rr = linear_in(e, x)
                        if c is not None and c.const is not None and abs(c.const) == 1 and x not in rr.fv:
                            s = scale(rr, -1 / c.const)
                            rsub = {kk: subst(vv, {x: s}) for kk, vv in rsub.items()}
                            rsub[x] = s
                            n = bsh[r.index(x)]
                            g = mul(subst(g, {x: s}), mul(ge0(s), ge0(n - 1 - s)))
                            eqs.remove(e)
                            eqs = [subst(q, {x: s}) for q in eqs]
                            unsolved.remove(x)
                            changed = True
                            break
                if changed:
                    break
        for j in range(nb):
            res[advpos + j] = rsub.get(r[j], P(r[j]))
        res = [ZERO if x is None else x for x in res]
        eqg = ONE
        for e in eqs:
            eqg = mul(eqg, eq0(e))
        value = tr(vrd(res))
        if unsolved:
            if any(x in value.fv for x in unsolved) or len(unsolved) > 1:
                if len(unsolved) == 1:
                    x = unsolved[0]
                    n = bsh[r.index(x)]
                    # unique hit required: prove injectivity of the index map
                    y = fresh(n, base='s')
                    both = mul(eqg, subst(eqg, {x: P(y)}))
                    with prover.assume(both):
                        inj = prover.prove_zero(P(x) - P(y))
                    if inj:
                        gg = mul(g, eqg)
                        return None, mk_sum(x, n, mul(gg, value)), mk_sum(x, n, gg)
                raise Unsupported("store through a non-injective index array")
            x = unsolved[0]
            n = bsh[r.index(x)]
            ex = neg_guard(mk_all(x, n, neg_guard(mul(g, eqg))))
            return ex, value, None
        return mul(g, eqg), value, None

    rec = a.rec
    old = a.reader()

    def newval(idx):
        g, value, cnt = build(idx)
        if g is None:
            return value + mul(ONE - cnt, old(idx))
        return ite(g, value, old(idx))
    # probe once so that unsupported shapes are reported here
    newval([P(fresh(d, base='s')) for d in a.shape])
    if a.fwd is None:
        W.store[a.bid] = ArrRec(rec.shape, newval, rec.kind, rec.writes + 1, rec.origin)
    else:
        inv_ = a.inv
        bold = rec.get

        def nf(b):
            idx, g = inv_(b)
            if g is ZERO:
                return bold(b)
            return ite(g, newval(idx), bold(b))
        W.store[a.bid] = ArrRec(rec.shape, nf, rec.kind, rec.writes + 1, rec.origin)


def drop_leading_ones(val, nd):
    while val.ndim > nd and val.shape[0].const == 1:
        val = basic_view(val, [0] + [SliceV(None, None, None)] * (val.ndim - 1))
        val = asarr(val)
    return val


# ---------------------------------------------------------------- structural ops
def copy(a):
    a = asarr(a)
    return mkarr(a.shape, a.reader(), a.kind)


def transpose(a, axes=None):
    a = asarr(a)
    n = a.ndim
    if n < 2 and axes is None:
        return a
    axes = list(reversed(range(n))) if axes is None else list(axes)
    axes = [x % n for x in axes]
    shape = tuple(a.shape[x] for x in axes)

    def fwd(idx):
        out = [None] * n
        for i, x in enumerate(axes):
            out[x] = idx[i]
        return out

    def inv_(b):
        return [b[x] for x in axes], ONE
    return compose_view(a, shape, fwd, inv_, axes == list(range(n)))


def ravel_index(idx, shape):
    p = ZERO
    for i, d in zip(idx, shape):
        p = mul(p, d) + i
    return p


def unravel_index(p, shape):
    out = []
    rest = p
    for j in range(len(shape) - 1, 0, -1):
        d = shape[j]
        out.append(imod(rest, d))
        rest = idiv(rest, d)
    out.append(rest)
    return list(reversed(out))


def reshape(a, newshape):
    a = asarr(a)
    ns = [topoly(d) for d in newshape]
    tot = size_of(a)
    neg = [i for i, d in enumerate(ns) if d.const is not None and d.const == -1]
    if len(neg) > 1:
        raise PyRaise('ValueError', 'can only specify one unknown dimension')
    if neg:
        q = ONE
        for i, d in enumerate(ns):
            if i != neg[0]:
                q = mul(q, d)
        # candidate dims: exact division
        k = None
        if q.m:
            k = divexact(tot, q)
        if k is None:
            if q.const is not None and q.const == 0:
                raise PyRaise('ValueError', 'cannot reshape')
            # maybe equalities known on this path make it divisible
            k = divide_with_facts(tot, q)
        elif not prover.prove_nonneg(q - 1):
            # a zero dimension in the divisor: numpy cannot infer -1
            if not decide(ge0(q - 1)):
                raise PyRaise('ValueError', 'cannot reshape array of size 0 with unknown dimension')
        ns[neg[0]] = k
    else:
        q = ONE
        for d in ns:
            q = mul(q, d)
        if not (q is tot or prover.prove_zero(q - tot)):
            if not decide(eq0(q - tot)):
                raise PyRaise('ValueError', 'cannot reshape array')
    ns = tuple(ns)
    osh = a.shape

    # align equal leading / trailing dims for simple index maps
    if len(ns) == len(osh) and all(x is y for x, y in zip(ns, osh)):
        return compose_view(a, ns, lambda i: list(i), lambda b: (list(b), ONE), a.contig) if a.contig else copy(a)
    lead = 0
    while lead < min(len(ns), len(osh)) and ns[lead] is osh[lead]:
        lead += 1
    tail = 0
    while tail < min(len(ns), len(osh)) - lead and ns[len(ns) - 1 - tail] is osh[len(osh) - 1 - tail]:
        tail += 1
    om = osh[lead:len(osh) - tail]
    nm = ns[lead:len(ns) - tail]
    so = ONE
    for d in om:
        so = mul(so, d)
    sn = ONE
    for d in nm:
        sn = mul(sn, d)
    if not (so is sn or prover.prove_zero(so - sn)):
        lead = tail = 0
        om, nm = osh, ns

    def conv(idx, frm, to, fm, to_m):
        mid = idx[lead:len(frm) - tail]
        if len(to_m) == len(fm) == 1:
            m2 = list(mid)
        else:
            p = ravel_index(mid, fm)
            m2 = unravel_index(p, to_m) if to_m else []
        return list(idx[:lead]) + m2 + list(idx[len(frm) - tail:] if tail else [])

    def fwd(idx):
        return conv(list(idx), ns, osh, nm, om)

    def inv_(b):
        return conv(list(b), osh, ns, om, nm), ONE
    if a.contig:
        return compose_view(a, ns, fwd, inv_, True)
    rd = a.reader()
    return mkarr(ns, lambda idx: rd(fwd(idx)), a.kind)


def divide_with_facts(tot, q):
    # rewrite tot with the path's equalities solved for variables
    m = {}
    for f in T.EQFACTS:
        s = prover.solve_var(f)
        if s is not None:
            m[s[0]] = s[1]
    if m:
        k = divexact(subst(tot, m), subst(q, m))
        if k is not None:
            return k
    # unknown divisibility: fork
    if tot is ZERO:
        return ZERO
    rem = imod(tot, q)
    if decide(eq0(rem)):
        return idiv(tot, q)
    raise PyRaise('ValueError', 'cannot reshape array')


def ravel(a):
    a = asarr(a)
    if a.ndim == 1:
        return a
    return reshape(a, [mknum(size_of(a), 'i')])


def concatenate(arrs, axis=0):
    arrs = [asarr(x) for x in arrs]
    if not arrs:
        raise PyRaise('ValueError', 'need at least one array to concatenate')
    n = arrs[0].ndim
    for a in arrs:
        if a.ndim != n:
            raise PyRaise('ValueError', 'all the input arrays must have same number of dimensions')
    if n == 0:
        raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    axis = axis % n
    for a in arrs[1:]:
        for j in range(n):
            if j != axis and not same_dim(a.shape[j], arrs[0].shape[j]):
                raise PyRaise('ValueError', 'all the input array dimensions must match exactly')
    offs = [ZERO]
    for a in arrs:
        offs.append(offs[-1] + a.shape[axis])
    shape = list(arrs[0].shape)
    shape[axis] = offs[-1]
    rds = [a.reader() for a in arrs]

    def fn(idx):
        i = idx[axis]
        parts = []
        for k, rd in enumerate(rds):
            lo = ge0(i - offs[k])
            hi = ge0(offs[k + 1] - 1 - i)
            if k == 0 and nonneg(i):
                lo = ONE
            g = mul(lo, hi)
            if g is ZERO:
                continue
            sub = list(idx)
            sub[axis] = i - offs[k]
            parts.append(mul(g, rd(sub)))
        return addall(parts)
    return mkarr(shape, fn, joinkind(*[a.kind for a in arrs]))


def seq_arrays(seq):
    """list of arrays from a python sequence; symbolic sequences give (n, fn)"""
    if isinstance(seq, Arr):
        n = seq.shape[0]
        if n.const is not None:
            return [asarr(getitem(seq, i)) for i in range(int(n.const))]
        return Seq(n, lambda i: asarr(getitem(seq, mknum(i, 'i'))))
    vs = iter_values(seq)
    if isinstance(vs, Seq):
        return vs
    return [asarr(v) for v in vs]


def concat_seq(seq, axis, lift):
    """concatenation of a symbolic number of equally shaped arrays along axis 0"""
    k = fresh(seq.n, base='e')
    g = lift(asarr(seq.fn(P(k))))
    if axis != 0:
        raise Unsupported("concatenation of symbolic sequence along axis %d" % axis)
    for d in g.shape:
        if k in d.fv:
            return ragged_concat(seq, lift, g, k)
    rd = g.reader()
    d0 = g.shape[0]

    def fn(idx):
        b, r = idiv(idx[0], d0), imod(idx[0], d0)
        vsn = [fresh(d, base='m') for d in g.shape]
        t = rd([P(x) for x in vsn])
        m = dict(zip(vsn, [r] + list(idx[1:])))
        m[k] = b
        return subst(t, m)
    return mkarr((mul(seq.n, d0),) + g.shape[1:], fn, g.kind)


def flatten(seq):
    """the elements of a symbolic number of lists one after another"""
    def items(i):
        r = seq.fn(i).rec
        if r[0] == 'list':
            return P(len(r[1])), lambda j: merge_values([(eq0(j - q), v) for q, v in enumerate(r[1])]) \
                if len(r[1]) != 1 else r[1][0]
        return r[1], r[2]
    k = fresh(seq.n, base='e')
    length, _ = items(P(k))
    if k not in length.fv:
        return Seq(mul(seq.n, length), lambda r: items(idiv(P(r), length))[1](imod(P(r), length)))
    top = T.upper_poly(length)
    if k in top.fv or not prover.entails(ge0(top - length)):
        raise Unsupported("a symbolic number of lists of unbounded length")
    name, ps = T.new_mask((seq.n, top), lambda idx: gt0(subst(length, {k: idx[0]}) - idx[1]))

    def fn(r):
        row, col = [app('unrank_%s_%d' % (name, d), ps + (P(r),), 'i') for d in range(2)]
        return items(row)[1](col)
    return Seq(T.mask_count(name, ps), fn)


def ragged_concat(seq, lift, g, k):
    """arrays of varying length one after another: the entries (row, column) with column < length(row) in order"""
    length = g.shape[0]
    if any(k in d.fv for d in g.shape[1:]):
        raise Unsupported("concatenation of arrays of different shapes")
    top = T.upper_poly(length)
    if k in top.fv or not prover.entails(ge0(top - length)):
        raise Unsupported("concatenation of a symbolic number of arrays of unbounded length")
    name, ps = T.new_mask((seq.n, top), lambda idx: gt0(subst(length, {k: idx[0]}) - idx[1]))
    rd = g.reader()

    def fn(idx):
        row, col = [app('unrank_%s_%d' % (name, d), ps + (idx[0],), 'i') for d in range(2)]
        vsn = [fresh(d, base='m') for d in (top,) + g.shape[1:]]
        t = rd([P(x) for x in vsn])
        m = dict(zip(vsn, [col] + list(idx[1:])))
        m[k] = row
        return subst(t, m)
    return mkarr((T.mask_count(name, ps),) + g.shape[1:], fn, g.kind)


def vstack(seq):
    def lift(a):
        if a.ndim == 0:
            return reshape(a, [1, 1])
        if a.ndim == 1:
            return basic_view(a, [None, SliceV(None, None, None)])
        return a
    xs = seq_arrays(seq)
    if isinstance(xs, Seq):
        if decide(eq0(xs.n)):
            raise PyRaise('ValueError', 'need at least one array to concatenate')
        return concat_seq(xs, 0, lift)
    return concatenate([lift(a) for a in xs], 0)


def hstack(seq):
    xs = seq_arrays(seq)
    if isinstance(xs, Seq):
        k = fresh(xs.n, base='e')
        g = asarr(xs.fn(P(k)))
        if decide(eq0(xs.n)):
            raise PyRaise('ValueError', 'need at least one array to concatenate')
        if g.ndim <= 1:
            return concat_seq(xs, 0, lambda a: reshape(a, [1]) if a.ndim == 0 else a)
        raise Unsupported("hstack of symbolic sequence of matrices")
    xs = [reshape(a, [1]) if a.ndim == 0 else a for a in xs]
    if not xs:
        raise PyRaise('ValueError', 'need at least one array to concatenate')
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(seq):
    xs = seq_arrays(seq)
    xs = [basic_view(a, [SliceV(None, None, None), None]) if a.ndim == 1 else a for a in xs]
    return concatenate(xs, 1)


def stack(seq, axis=0):
    xs = seq_arrays(seq)
    a = stack_seq(LRef(xs) if isinstance(xs, list) else xs)
    if axis == 0:
        return a
    n = a.ndim
    axis = axis % n
    order = list(range(1, n))
    order.insert(axis, 0)
    return transpose(a, order)


def repeat(a, reps, axis=None):
    a = asarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    r = topoly(reps) if not isinstance(reps, Arr) or reps.ndim == 0 else None
    if r is None:
        raise Unsupported("repeat with array counts")
    if not (nonneg(r) or decide(ge0(r))):
        raise PyRaise('ValueError', 'repeats may not contain negative values.')
    n = a.ndim
    axis = axis % n
    shape = list(a.shape)
    rd = a.reader()
    if a.shape[axis].const == 1:
        shape[axis] = r

        def fn(idx):
            idx = list(idx)
            idx[axis] = ZERO
            return rd(idx)
        return mkarr(shape, fn, a.kind)
    shape[axis] = mul(a.shape[axis], r)
    if r.const == 1:
        return copy(a)
    if not nonneg(r - 1):
        if not decide(ge0(r - 1)):
            return mkarr(shape, lambda idx: ZERO, a.kind)

    def fn(idx):
        idx = list(idx)
        idx[axis] = idiv(idx[axis], r)
        return rd(idx)
    return mkarr(shape, fn, a.kind)


def tile(a, reps):
    a = asarr(a)
    reps = [topoly(x) for x in to_tuple(reps)] if isinstance(reps, (tuple, LRef)) else [topoly(reps)]
    while len(reps) < a.ndim:
        reps = [ONE] + reps
    while a.ndim < len(reps):
        a = basic_view(a, [None] + [SliceV(None, None, None)] * a.ndim)
    rd = a.reader()
    shp = a.shape

    def fn(idx):
        return rd([(ZERO if d.const == 1 else (i if r.const == 1 else imod(i, d))) for i, d, r in zip(idx, shp, reps)])
    return mkarr([mul(d, r) for d, r in zip(shp, reps)], fn, a.kind)


# ---------------------------------------------------------------- reductions
def reduce_axis(a, axis, f, kind, keepdims=False):
    """f(var, n, body)"""
    a = asarr(a)
    rd = a.reader()
    if axis is None:
        vs = [fresh(d, base='r') for d in a.shape]
        body = rd([P(v) for v in vs])
        for v, d in reversed(list(zip(vs, a.shape))):
            body = f(v, d, body)
        return mknum(body, kind)
    if isinstance(axis, (tuple, LRef)):
        axes = sorted([x % a.ndim for x in to_tuple(axis)], reverse=True)
        for x in axes:
            a = asarr(reduce_axis(a, x, f, kind, keepdims))
        return unbox(a)
    if type(axis) is not int:
        raise Unsupported("symbolic axis")
    if not -a.ndim <= axis < a.ndim:
        raise PyRaise('AxisError', 'axis out of bounds')
    axis = axis % a.ndim
    d = a.shape[axis]
    shape = list(a.shape)
    if keepdims:
        shape[axis] = ONE
    else:
        del shape[axis]

    def fn(idx):
        v = fresh(d, base='r')
        sub = list(idx)
        if keepdims:
            sub[axis] = P(v)
        else:
            sub.insert(axis, P(v))
        return f(v, d, rd(sub))
    r = mkarr(shape, fn, kind)
    return unbox(r)


def unbox(r):
    if isinstance(r, Arr) and r.ndim == 0:
        return mknum(r.at(), r.kind)
    return r


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, Seq) or isinstance(a, LRef) or isinstance(a, tuple):
        a = asarr(a)
    k = kindof(a)
    return reduce_axis(a, axis, mk_sum, 'i' if k == 'b' else k, keepdims)


def np_mean(a, axis=None, **kw):
    a = asarr(a)
    s = np_sum(a, axis)
    n = size_of(a) if axis is None else a.shape[axis % a.ndim]
    return binop('Div', s, mknum(n, 'i'))


def nonempty(a, axis, what):
    a = asarr(a)
    n = size_of(a) if axis is None else a.shape[axis % a.ndim]
    if not prover.prove_nonneg(n - 1):
        if not decide(ge0(n - 1)):
            raise PyRaise('ValueError', 'zero-size array to reduction operation ' + what)


def np_max(a, axis=None, out=None, keepdims=False):
    if isinstance(a, (LRef, tuple)) and any(isinstance(x, Inf) for x in iter_values(a)):
        raise Unsupported("max with infinity")
    a = asarr(a)
    nonempty(a, axis, 'maximum')
    return reduce_axis(a, axis, mk_max, a.kind, keepdims)


def np_min(a, axis=None, out=None, keepdims=False):
    a = asarr(a)
    nonempty(a, axis, 'minimum')
    return reduce_axis(a, axis, lambda v, n, b: -mk_max(v, n, -b), a.kind, keepdims)


def np_argmax(a, axis=None, out=None):
    a = asarr(a)
    nonempty(a, axis, 'argmax')
    if axis is None and a.ndim != 1:
        a = ravel(a)
    return reduce_axis(a, axis, mk_argmax, 'i')


def np_argmin(a, axis=None, out=None):
    return np_argmax(elementwise(lambda p: -p, [asarr(a)], asarr(a).kind), axis)


def reduce_all(a, axis=None, **kw):
    a = asarr(a)

    def f(v, n, b):
        return mk_all(v, n, tobool(b, a.kind))
    return reduce_axis(a, axis, f, 'b') if a.ndim else mknum(tobool(a.at(), a.kind), 'b')


def any_of_filtered(s):
    """any(...) of a filtered list of equal elements"""
    if isinstance(s, (LRef, Seq)):
        vs = iter_values(s)
        e = getattr(vs.fn, 'exists', None) if isinstance(vs, Seq) else None
        if e is not None:
            return mknum(e[0], 'b') if e[1] else False


def reduce_any(a, axis=None, **kw):
    r = any_of_filtered(a)
    if r is not None:
        return r
    a = asarr(a)

    def f(v, n, b):
        return neg_guard(mk_all(v, n, neg_guard(tobool(b, a.kind))))
    return reduce_axis(a, axis, f, 'b') if a.ndim else mknum(tobool(a.at(), a.kind), 'b')


def tobool(p, kind):
    return p if kind == 'b' else neg_guard(eq0(p))


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None and a.ndim > 1:
        a = ravel(a)
        axis = 0
    axis = 0 if axis is None else axis % a.ndim
    rd = a.reader()

    def fn(idx):
        i = idx[axis]
        if i.const is not None:
            return addall([rd(list(idx[:axis]) + [P(j)] + list(idx[axis + 1:])) for j in range(int(i.const) + 1)])
        v = fresh(i + 1, base='r')
        return mk_sum(v, i + 1, rd(list(idx[:axis]) + [P(v)] + list(idx[axis + 1:])))
    k = a.kind
    return mkarr(a.shape, fn, 'i' if k == 'b' else k)


def np_prod(a, axis=None):
    a = asarr(a)
    if axis is None and size_of(a).const is not None:
        r = ONE
        for idx in itertools.product(*[range(int(d.const)) for d in a.shape]):
            r = mul(r, a.at(*[P(i) for i in idx]))
        return mknum(r, a.kind)
    raise Unsupported("product over a symbolic dimension")


def dot(a, b):
    if is_num(a) or is_num(b):
        return binop('Mult', a, b)
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop('Mult', unbox(a), unbox(b))
    ra, rb = a.reader(), b.reader()
    n = a.shape[-1]
    m = b.shape[-2] if b.ndim >= 2 else b.shape[0]
    if not same_dim(n, m):
        raise PyRaise('ValueError', 'shapes not aligned')
    kd = joinkind(a.kind, b.kind)
    la = a.ndim - 1
    sh = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim >= 2 else ())

    def fn(idx):
        v = fresh(n, base='d')
        ia = list(idx[:la]) + [P(v)]
        rest = list(idx[la:])
        ib = rest[:-1] + [P(v)] + rest[-1:] if b.ndim >= 2 else [P(v)]
        return mk_sum(v, n, mul(ra(ia), rb(ib)))
    r = mkarr(sh, fn, 'i' if kd == 'b' else kd)
    return unbox(r)


def outer(a, b):
    a, b = ravel(asarr(a)), ravel(asarr(b))
    ra, rb = a.reader(), b.reader()
    return mkarr(a.shape + b.shape, lambda i: mul(ra([i[0]]), rb([i[1]])), joinkind(a.kind, b.kind))


def einsum(spec, *ops):
    if not isinstance(spec, str):
        raise Unsupported("einsum form")
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Unsupported("einsum ellipsis")
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for c in ins.replace(',', ''):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ins = ins.split(',')
    ops = [asarr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyRaise('ValueError', 'einsum operand rank')
        for c, d in zip(s, o.shape):
            if c in dims:
                if not same_dim(dims[c], d):
                    raise PyRaise('ValueError', 'einsum dimensions')
            else:
                dims[c] = d
    rds = [o.reader() for o in ops]
    red = [c for c in dims if c not in out]

    def fn(idx):
        m = dict(zip(out, idx))
        vs = {c: fresh(dims[c], base='d') for c in red}
        m.update({c: P(v) for c, v in vs.items()})
        t = ONE
        for s, rd in zip(ins, rds):
            t = mul(t, rd([m[c] for c in s]))
        return mk_sums([(vs[c], dims[c]) for c in red], t) if red else t
    kd = joinkind(*[o.kind for o in ops])
    return unbox(mkarr([dims[c] for c in out], fn, 'i' if kd == 'b' else kd))


# ---------------------------------------------------------------- constructors
def shape_arg(s):
    if is_num(s) or (isinstance(s, Arr) and s.ndim == 0):
        return (topoly(s),)
    if isinstance(s, Arr):
        vs = to_tuple(s)
        return tuple(topoly(x) for x in vs)
    return tuple(topoly(x) for x in to_tuple(s))


def dtype_kind(dt, default='r'):
    if dt is None:
        return default
    if isinstance(dt, TypeVal):
        if dt.kind is None:
            raise Unsupported("dtype %s" % dt.name)
        return dt.kind
    if isinstance(dt, str):
        if dt.startswith(('f', 'd')):
            return 'r'
        if dt.startswith(('i', 'u')):
            return 'i'
        if dt.startswith(('b', '?')):
            return 'b'
    if isinstance(dt, DtypeVal):
        return dt.kind
    raise Unsupported("dtype")


class DtypeVal(object):
    def __init__(self, kind):
        self.kind = kind


def checkdims(sh):
    for d in sh:
        if not nonneg(d):
            if not decide(ge0(d)):
                raise PyRaise('ValueError', 'negative dimensions are not allowed')
    return sh


def full(shape, val, dtype=None, order=None):
    p = topoly(val)
    k = dtype_kind(dtype, kindof(val))
    return mkarr(checkdims(shape_arg(shape)), lambda idx: p, k)


def zeros(shape, dtype=None, order=None):
    return mkarr(checkdims(shape_arg(shape)), lambda idx: ZERO, dtype_kind(dtype))


def ones(shape, dtype=None, order=None):
    return mkarr(checkdims(shape_arg(shape)), lambda idx: ONE, dtype_kind(dtype))


_empty = itertools.count()


def empty(shape, dtype=None, order=None):
    nm = 'uninit%d' % next(_empty)
    k = dtype_kind(dtype)
    return mkarr(checkdims(shape_arg(shape)), lambda idx: app(nm, tuple(idx), 'i' if k != 'r' else 'r'), k)


def like(v, a, dtype=None):
    a = asarr(a)
    return mkarr(a.shape, lambda idx: v, dtype_kind(dtype, a.kind))


def arange(*args, **kw):
    dt = kw.get('dtype')
    if len(args) == 1:
        lo, hi, st = ZERO, topoly(args[0]), ONE
    elif len(args) == 2:
        lo, hi, st = topoly(args[0]), topoly(args[1]), ONE
    else:
        lo, hi, st = [topoly(x) for x in args]
    if st.const is None or st.const <= 0:
        raise Unsupported("arange step")
    if not is_int(lo) or not is_int(hi):
        raise Unsupported("float arange")
    ln = hi - lo
    if not nonneg(ln):
        if not decide(ge0(ln)):
            ln = ZERO
    if st.const != 1:
        ln = idiv(ln + st - 1, st)
    return mkarr((ln,), lambda idx: lo + mul(st, idx[0]), dtype_kind(dt, 'i'))


def array(v, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(v, Arr):
        k = dtype_kind(dtype, v.kind)
        tr = caster(v.kind, k)
        rd = v.reader()
        return mkarr(v.shape, lambda idx: tr(rd(idx)), k)
    a = asarr(v)
    k = dtype_kind(dtype, a.kind)
    tr = caster(a.kind, k)
    rd = a.reader()
    r = mkarr(a.shape, lambda idx: tr(rd(idx)), k)
    return r


def asarray(v, dtype=None, order=None):
    if isinstance(v, Arr):
        if dtype is None or dtype_kind(dtype) == v.kind:
            return v
    return array(v, dtype)


def caster(frm, to):
    if frm == to or to == 'r' or (frm == 'b' and to == 'i'):
        return lambda p: p
    if to == 'b':
        return lambda p: neg_guard(eq0(p))

    def tr(p):
        if is_int(p):
            return p
        return P(intern('fn', ('trunc', p), 'i'))
    return tr


def astype(a, dt, copy=True, **kw):
    k = dtype_kind(dt)
    tr = caster(a.kind, k)
    rd = a.reader()
    return mkarr(a.shape, lambda idx: tr(rd(idx)), k)


def eye(n, m=None, k=0, dtype=None):
    N = topoly(n)
    M = N if m is None else topoly(m)
    return mkarr((N, M), lambda idx: eq0(idx[0] - idx[1] + k), dtype_kind(dtype))


def tri(n, m=None, k=0, dtype=None):
    N = topoly(n)
    M = N if m is None else topoly(m)
    kk = topoly(k)
    return mkarr((N, M), lambda idx: ge0(idx[0] - idx[1] + kk), dtype_kind(dtype))


def tril(a, k=0):
    rd = asarr(a).reader()
    a = asarr(a)
    return mkarr(a.shape, lambda i: mul(ge0(i[-2] - i[-1] + k), rd(i)), a.kind)


def triu(a, k=0):
    a = asarr(a)
    rd = a.reader()
    return mkarr(a.shape, lambda i: mul(ge0(i[-1] - i[-2] - k), rd(i)), a.kind)


def diag(a, k=0):
    a = asarr(a)
    rd = a.reader()
    if k != 0:
        raise Unsupported("diag offset")
    if a.ndim == 1:
        return mkarr((a.shape[0], a.shape[0]), lambda i: mul(eq0(i[0] - i[1]), rd([i[0]])), a.kind)
    if a.ndim == 2:
        d0, d1 = a.shape
        if not same_dim(d0, d1):
            d0 = pmin(d0, d1)
        return mkarr((d0,), lambda i: rd([i[0], i[0]]), a.kind)
    raise PyRaise('ValueError', 'Input must be 1- or 2-d.')


def where(c, a=None, b=None):
    if a is None:
        c = asarr(c)
        m = mask_of(c if c.kind == 'b' else elementwise(lambda p: neg_guard(eq0(p)), [c], 'b'))
        return tuple(mkarr((m[1],), (lambda idx, f=f: f(idx[0])), 'i') for f in m[2])
    return elementwise(lambda x, p, q: ite(x, p, q), [c, a, b], joinkind(kindof(a), kindof(b)))


def indices(shape):
    sh = shape_arg(shape)
    n = len(sh)
    return mkarr((P(n),) + sh, lambda idx: select(idx[0], list(idx[1:])), 'i')


def linspace(*a, **k):
    raise Unsupported("linspace")


def unique_count_name(a):
    rd = a.reader()
    vs = [fresh(d, base='u') for d in a.shape]
    return vs, rd([P(v) for v in vs])


_uniq = {}


def unique(a, return_inverse=False, **kw):
    """sorted distinct values: only the count and that each is a value of a are known"""
    if return_inverse or kw:
        raise Unsupported("np.unique options")
    a = asarr(a)
    k = fresh(size_of(a), base='u')
    flat = ravel(a)
    body = flat.at(P(k))
    t = mk_argmax(k, size_of(a), body)      # a canonical name of the multiset-as-sequence
    key = (T.id_of(size_of(a)), T.id_of(rebuild_close(k, size_of(a), body)))
    nm = _uniq.setdefault(key, 'uniq%d' % len(_uniq))
    cnt = intern('var', ('n_' + nm,), 'i')
    VAR_RANGE[cnt] = (ZERO, None)
    return mkarr((P(cnt),), lambda idx: app('val_' + nm, tuple(idx), 'i' if a.kind != 'r' else 'r'), a.kind)


def rebuild_close(k, n, body):
    return P(T._canon1('max', k, n, body)) if k in body.fv else body


def c_(*key):
    key = key[0] if len(key) == 1 and isinstance(key[0], tuple) else key
    xs = []
    for x in key:
        a = asarr(x)
        if a.ndim == 0:
            a = reshape(a, [1, 1])
        elif a.ndim == 1:
            a = basic_view(a, [SliceV(None, None, None), None])
        xs.append(a)
    return concatenate(xs, xs[0].ndim - 1)


def r_(*key):
    key = key[0] if len(key) == 1 and isinstance(key[0], tuple) else key
    xs = []
    for x in key:
        if isinstance(x, SliceV):
            xs.append(arange(0 if x.lo is None else x.lo, x.hi))
        else:
            a = asarr(x)
            xs.append(reshape(a, [1]) if a.ndim == 0 else a)
    return concatenate(xs, 0)


def ogrid(key):
    key = key if isinstance(key, tuple) else (key,)
    outs = []
    n = len(key)
    for j, s in enumerate(key):
        a = arange(0 if s.lo is None else s.lo, s.hi)
        if n > 1:
            a = basic_view(a, [SliceV(None, None, None) if i == j else None for i in range(n)])
        outs.append(a)
    return outs[0] if n == 1 else LRef(outs)


def add_at(a, key, v):
    """np.add.at: unbuffered accumulation"""
    keys = expand_key(a, key)
    if not any(isinstance(k, Arr) for k in keys):
        setitem(a, key, binop('Add', getitem(a, key), v))
        return
    shape, fwd, items, rds, where_, advpos, bsh, masks = adv_plan(a, keys)
    val = asarr(v)
    bshape([shape, val.shape])
    vrd = bread(val, shape)
    old = a.reader()

    def newval(idx):
        rs = [fresh(d, base='s') for d in shape]
        b = fwd([P(x) for x in rs])
        g = ONE
        for x, y in zip(b, idx):
            g = mul(g, eq0(x - y))
        return old(idx) + mk_sums(list(zip(rs, shape)), mul(g, vrd([P(x) for x in rs])))
    store(a, newval)


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    n = topoly(minlength)
    vs = fresh(x.shape[0], base='g')
    if not (n is not ZERO and prover.prove_nonneg(n - 1 - x.at(P(vs)))):
        raise Unsupported("bincount of unknown length")
    rd = x.reader()
    w = None if weights is None else asarr(weights).reader()

    def fn(idx):
        v = fresh(x.shape[0], base='s')
        t = eq0(rd([P(v)]) - idx[0])
        return mk_sum(v, x.shape[0], t if w is None else mul(t, w([P(v)])))
    return mkarr((n,), fn, 'i' if weights is None else 'r')


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not same_dim(x, y):
            return False
    return reduce_all(elementwise(lambda p, q: eq0(p - q), [a, b], 'b'))


def sign(v):
    return elementwise(lambda p: gt0(p) - gt0(-p), [v], kindof(v))


def np_sqrt(v):
    return elementwise(psqrt, [v], 'r')


def fn1(name):
    def f(v):
        return elementwise(lambda p: P(intern('fn', (name, p), 'r')), [v], 'r')
    return f


def squeeze(a, axis=None):
    a = asarr(a)
    keys = []
    for j, d in enumerate(a.shape):
        one = prover.prove_zero(d - 1, smt=False)
        if axis is not None:
            one = (axis % a.ndim) == j
        keys.append(0 if one else SliceV(None, None, None))
    return basic_view(a, keys)


def expand_dims(a, axis):
    a = asarr(a)
    n = a.ndim + 1
    keys = [SliceV(None, None, None)] * a.ndim
    keys.insert(axis % n, None)
    return basic_view(a, keys)


def norm(a, ord=None):
    return np_sqrt(np_sum(elementwise(lambda p: p * p, [asarr(a)], 'r')))


def take(a, idx, axis=None):
    a = asarr(a)
    if axis is None:
        return getitem(ravel(a), idx)
    keys = [SliceV(None, None, None)] * a.ndim
    keys[axis] = idx
    return getitem(a, tuple(keys))


def swapaxes(a, i, j):
    a = asarr(a)
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(a, ax)


def maximum2(a, b):
    if isinstance(a, Inf) or isinstance(b, Inf):
        raise Unsupported("maximum with infinity")
    return elementwise(pmax, [a, b], joinkind(kindof(asarr(a)), kindof(asarr(b))))


def minimum2(a, b):
    return elementwise(pmin, [a, b], joinkind(kindof(asarr(a)), kindof(asarr(b))))


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if type(axes) is int:
        la = list(range(a.ndim - axes, a.ndim))
        lb = list(range(axes))
    else:
        x, y = to_tuple(axes)
        la = [x] if type(x) is int else list(to_tuple(x))
        lb = [y] if type(y) is int else list(to_tuple(y))
    letters = 'abcdefghijklmnop'
    sa = list(letters[:a.ndim])
    sb = list(letters[a.ndim:a.ndim + b.ndim])
    for i, j in zip(la, lb):
        sb[j] = sa[i]
    out = [c for i, c in enumerate(sa) if i not in [x % a.ndim for x in la]] + \
        [c for j, c in enumerate(sb) if j not in [y % b.ndim for y in lb]]
    return einsum(''.join(sa) + ',' + ''.join(sb) + '->' + ''.join(out), a, b)


# ---------------------------------------------------------------- attributes of values
def value_attr(interp, o, name):
    if isinstance(o, Arr):
        return arr_attr(o, name)
    if isinstance(o, LRef):
        return list_method(o, name)
    if isinstance(o, DRef):
        return dict_method(o, name)
    if isinstance(o, (int, Num, bool)) and not isinstance(o, str):
        if name in ('sum', 'max', 'min', 'mean', 'copy', 'ravel', 'astype', 'item', 'all', 'any', 'reshape', 'ndim',
                    'shape', 'size', 'dtype', 'T', 'real', 'tolist'):
            if name == 'ndim':
                return 0
            if name == 'shape':
                return ()
            if name == 'size':
                return 1
            if name in ('item', 'copy', 'sum', 'max', 'min', 'mean', 'tolist'):
                return Builtin(name, lambda *a, **k: o)
            if name in ('any', 'all'):
                return Builtin(name, lambda *a, **k: mknum(tobool(topoly(o), kindof(o)), 'b'))
            return arr_attr(asarr(o), name)
        raise PyRaise('AttributeError', name)
    if isinstance(o, (str, Str)):
        return str_method(o, name)
    if isinstance(o, tuple):
        if name == 'index':
            return list_method(LRef(o), 'index')
        if name == 'count':
            return list_method(LRef(o), 'count')
        raise PyRaise('AttributeError', name)
    if isinstance(o, Func):
        if name in ('__name__',):
            return o.name
        if name == '__doc__':
            return Str()
    if isinstance(o, TypeVal):
        if name == '__name__':
            return o.name
    if isinstance(o, Builtin):
        if o.name == 'add' and name == 'at':
            return Builtin('add.at', add_at)
        if name == 'reduce':
            if o.name == 'add':
                return Builtin('add.reduce', lambda a, axis=0: np_sum(a, axis))
            if o.name == 'maximum':
                return Builtin('max.reduce', lambda a, axis=0: np_max(a, axis))
            if o.name == 'logical_or':
                return Builtin('or.reduce', lambda a, axis=0: reduce_any(a, axis))
        if name == 'outer' and o.name == 'add':
            return Builtin('add.outer', lambda a, b: elementwise(lambda p, q: p + q, [expand_dims(a, 1), b],
                                                                joinkind(kindof(a), kindof(b))))
    if isinstance(o, DtypeVal):
        if name == 'kind':
            return {'r': 'f', 'i': 'i', 'b': 'b'}[o.kind]
    if isinstance(o, OpqVal):
        raise Unsupported("attribute %s of opaque value" % name)
    if isinstance(o, Undef):
        raise Unsupported("attribute of undefined value")
    if isinstance(o, PyRaise):
        return Str()
    raise PyRaise('AttributeError', "%s of %r" % (name, o))


def str_method(s, name):
    def fmt(*a, **k):
        return Str((s,) + a)
    if isinstance(s, str) and name != 'format' and hasattr(str, name):
        def f(*a, **k):
            a = [to_py(x) for x in a]
            r = getattr(s, name)(*a, **k)
            return LRef(r) if isinstance(r, list) else r
        return Builtin('str.' + name, f)
    if name == 'format':
        return Builtin('str.format', fmt)
    if not hasattr(str, name):
        raise PyRaise('AttributeError', name)
    raise Unsupported("method %s of opaque string" % name)


def to_py(x):
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, (tuple, LRef)):
        return [to_py(y) for y in to_tuple(x)] if isinstance(x, LRef) else tuple(to_py(y) for y in x)
    raise Unsupported("symbolic value in string method")


def arr_attr(a, name):
    if name == 'shape':
        return tuple(mknum(d, 'i') for d in a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return mknum(size_of(a), 'i')
    if name == 'T':
        return transpose(a)
    if name == 'dtype':
        return DtypeVal(a.kind)
    if name == 'flat':
        return ravel(a)
    if name == 'real':
        return a

    def method(f):
        return Builtin('ndarray.' + name, f)
    if name == 'reshape':
        def f(*s, **k):
            if len(s) == 1 and isinstance(s[0], (tuple, LRef)):
                s = to_tuple(s[0])
            return reshape(a, list(s))
        return method(f)
    if name in ('ravel', ):
        return method(lambda *x, **k: ravel(a) if a.contig else ravel(copy(a)))
    if name == 'flatten':
        return method(lambda *x: copy(ravel(a)))
    if name == 'copy':
        return method(lambda *x, **k: copy(a))
    if name == 'astype':
        return method(lambda dt, **k: astype(a, dt))
    if name == 'sum':
        return method(lambda *x, **k: np_sum(a, *x, **k))
    if name == 'mean':
        return method(lambda *x, **k: np_mean(a, *x, **k))
    if name == 'max':
        return method(lambda *x, **k: np_max(a, *x, **k))
    if name == 'min':
        return method(lambda *x, **k: np_min(a, *x, **k))
    if name == 'argmax':
        return method(lambda *x, **k: np_argmax(a, *x, **k))
    if name == 'argmin':
        return method(lambda *x, **k: np_argmin(a, *x, **k))
    if name == 'any':
        return method(lambda *x, **k: reduce_any(a, *x, **k))
    if name == 'all':
        return method(lambda *x, **k: reduce_all(a, *x, **k))
    if name == 'dot':
        return method(lambda b: dot(a, b))
    if name == 'transpose':
        return method(lambda *x: transpose(a, to_tuple(x[0]) if len(x) == 1 and isinstance(x[0], tuple) else (x or None)))
    if name == 'cumsum':
        return method(lambda *x: cumsum(a, *x))
    if name == 'repeat':
        return method(lambda r, axis=None: repeat(a, r, axis))
    if name == 'squeeze':
        return method(lambda *x, **k: squeeze(a, *x, **k))
    if name == 'swapaxes':
        return method(lambda i, j: swapaxes(a, i, j))
    if name == 'take':
        return method(lambda i, axis=None: take(a, i, axis))
    if name == 'fill':
        return method(lambda v: arr_setitem(a, Ellipsis, v))
    if name == 'item':
        return method(lambda *x: mknum(a.at(*([ZERO] * a.ndim)), a.kind) if not x else getitem(a, tuple(x)))
    if name == 'tolist':
        def tl():
            vs = iter_values(a)
            if isinstance(vs, Seq):
                return LRef(rec=('slist', vs.n, vs.fn))
            return LRef(vs)
        return method(tl)
    if name == 'diagonal':
        return method(lambda: diag(a))
    if name == 'prod':
        return method(lambda *x: np_prod(a, *x))
    if name == 'nonzero':
        return method(lambda: where(a))
    raise PyRaise('AttributeError', name) if not hasattr_ndarray(name) else Unsupported('ndarray.' + name)


def hasattr_ndarray(name):
    import numpy
    return hasattr(numpy.ndarray, name)


# ---------------------------------------------------------------- casts and isinstance
def cast_type(t, args, kwargs):
    n = t.name
    if n.endswith('Error') or n in ('Exception',):
        return PyRaise(n, str(args[0]) if args else '')
    if n in ('float', 'float64', 'float32', 'float_'):
        if not args:
            return Num(ZERO, 'r')
        v = args[0]
        if isinstance(v, Inf):
            return v
        if isinstance(v, str):
            if v in ('inf', '-inf'):
                return Inf(-1 if v[0] == '-' else 1)
            raise Unsupported("float of string")
        if isinstance(v, Arr):
            if v.ndim > 0:
                if n == 'float':
                    return Num(one_elem(v), 'r')
                return astype(v, TypeVal('float', 'r'))
            return Num(v.at(), 'r')
        if v is None or isinstance(v, (LRef, tuple)):
            raise PyRaise('TypeError', 'float() argument')
        return Num(topoly(v), 'r')
    if n in ('int', 'int64', 'int32', 'intp', 'long', 'int_', 'uint8', 'int8', 'int16', 'uint16', 'uint32', 'uint64'):
        if not args:
            return 0
        v = args[0]
        if isinstance(v, str):
            return int(v)
        if isinstance(v, Arr):
            if v.ndim > 0:
                if n == 'int':
                    return toint(mknum(one_elem(v), v.kind))
                return astype(v, TypeVal('int', 'i'))
            v = mknum(v.at(), v.kind)
        if v is None or isinstance(v, (LRef, tuple)):
            raise PyRaise('TypeError', 'int() argument')
        return toint(v)
    if n in ('bool', 'bool_'):
        if not args:
            return False
        if isinstance(args[0], Arr) and args[0].ndim:
            return truth(args[0])
        if isinstance(args[0], Num):
            return mknum(tobool(args[0].p, args[0].kind), 'b')
        return truth(args[0])
    if n == 'str':
        if args and isinstance(args[0], str):
            return args[0]
        if args and type(args[0]) is int:
            return str(args[0])
        return Str(tuple(args))
    if n == 'list':
        if not args:
            return LRef([])
        vs = iter_values(args[0])
        if isinstance(vs, Seq):
            return LRef(rec=('slist', vs.n, vs.fn))
        return LRef(vs)
    if n == 'tuple':
        if not args:
            return ()
        vs = iter_values(args[0])
        if isinstance(vs, Seq):
            return vs
        return tuple(vs)
    if n == 'dict':
        d = {}
        if args:
            if isinstance(args[0], DRef):
                d.update(args[0].rec)
            else:
                for kv in to_tuple(args[0]):
                    k, v = to_tuple(kv)
                    d[k] = v
        d.update(kwargs)
        return DRef(d)
    if n == 'set':
        return make_set(args[0] if args else ())
    if n == 'object':
        return Opaque('object')
    if n == 'type':
        v = args[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, tuple):
            return TypeVal('tuple')
        if isinstance(v, LRef):
            return TypeVal('list')
        if isinstance(v, Arr):
            return TypeVal('ndarray')
        if isinstance(v, (str, Str)):
            return TypeVal('str')
        if isinstance(v, Num):
            raise Unsupported("type of number")
        return TypeVal(type(v).__name__)
    raise Unsupported("call of type %s" % n)


def one_elem(v):
    if not prover.prove_zero(size_of(v) - 1):
        raise PyRaise('TypeError', 'only size-1 arrays can be converted')
    return v.at(*[ZERO] * v.ndim)


def toint(v):
    p = topoly(v)
    if is_int(p):
        return mknum(p, 'i')
    if p.const is not None:
        c = p.const
        return int(c.numerator // c.denominator) if c >= 0 else -int((-c.numerator) // c.denominator)
    return mknum(P(intern('fn', ('trunc', p), 'i')), 'i')


def isinstance_(v, t):
    if isinstance(t, tuple):
        return any(isinstance_(v, x) for x in t)
    if isinstance(t, ClassVal):
        return isinstance(v, Inst) and t in v.cls.mro
    if isinstance(t, Opaque):
        if t.name == 'numbers.Integral':
            t = TypeVal('Integral')
        elif t.name in ('numbers.Number', 'numbers.Real'):
            t = TypeVal('Number')
        else:
            return False
    n = t.name
    if isinstance(v, Undef) or isinstance(v, OpqVal):
        raise Unsupported("isinstance of unknown value")
    if n == 'tuple':
        return isinstance(v, tuple)
    if n == 'list':
        return isinstance(v, LRef)
    if n == 'dict':
        return isinstance(v, DRef)
    if n == 'ndarray':
        return isinstance(v, Arr)
    if n in ('str', 'basestring', 'unicode'):
        return isinstance(v, (str, Str))
    if n in ('int', 'Integral', 'integer', 'int64', 'int32'):
        if isinstance(v, bool):
            return n in ('int', 'Integral')
        return isinstance(v, int) or (isinstance(v, Num) and v.kind == 'i')
    if n in ('float', 'float64', 'floating'):
        return isinstance(v, Num) and v.kind == 'r'
    if n in ('Number', 'Real', 'number'):
        return is_num(v)
    if n in ('bool', 'bool_'):
        return isinstance(v, bool) or (isinstance(v, Num) and v.kind == 'b')
    if n == 'object':
        return True
    if n == 'NoneType':
        return v is None
    return False


# ---------------------------------------------------------------- python builtins
def py_range(*args):
    if all(type(a) is int for a in args):
        r = list(range(*args))
        if len(r) > 400:
            return Seq(P(len(r)), lambda i: mknum(i + r[0], 'i'))
        return LRef(r)
    ps = [topoly(a) for a in args]
    if len(ps) == 1:
        lo, hi, st = ZERO, ps[0], 1
    elif len(ps) == 2:
        lo, hi, st = ps[0], ps[1], 1
    else:
        lo, hi = ps[0], ps[1]
        if ps[2].const is None:
            raise Unsupported("symbolic range step")
        st = int(ps[2].const)
    if any(isinstance(a, Num) and a.kind == 'r' for a in args):
        raise PyRaise('TypeError', 'float object cannot be interpreted as an integer')
    if st == 1:
        n = hi - lo
    elif st == -1:
        n = lo - hi
    else:
        raise Unsupported("range step")
    if not nonneg(n):
        if not decide(ge0(n)):
            n = ZERO
    if st == 1:
        return Seq(n, lambda i: mknum(lo + i, 'i'))
    return Seq(n, lambda i: mknum(lo - i, 'i'))


def py_zip(*seqs):
    from .interp import StarSeq
    if len(seqs) == 1 and isinstance(seqs[0], StarSeq):
        s = seqs[0].seq
        # zip(*rows): needs rows of a known fixed length
        k = fresh(s.n, base='e')
        row = s.fn(P(k))
        cols = to_tuple(row)
        outs = []
        for j in range(len(cols)):
            outs.append(Seq(s.n, lambda i, j=j: to_tuple(s.fn(i))[j]))
        return LRef(outs)
    vs = [iter_values(s) for s in seqs]
    if all(isinstance(v, list) for v in vs):
        return LRef([tuple(t) for t in zip(*vs)])
    ns = [P(len(v)) if isinstance(v, list) else v.n for v in vs]
    n = ns[0]
    for m in ns[1:]:
        if m is n or prover.prove_zero(m - n, smt=False):
            continue
        if nonneg(m - n):
            continue
        if nonneg(n - m):
            n = m
            continue
        n = n if decide(ge0(m - n)) else m

    def el(i):
        out = []
        for v in vs:
            if isinstance(v, list):
                out.append(v[int(i.const)] if i.const is not None else merge_values([(eq0(i - j), x) for j, x in enumerate(v)]))
            else:
                out.append(v.fn(i))
        return tuple(out)
    return Seq(n, el)


def py_enumerate(s, start=0):
    vs = iter_values(s)
    if isinstance(vs, list):
        return LRef([(i + start, v) for i, v in enumerate(vs)])
    return Seq(vs.n, lambda i: (mknum(i + topoly(start), 'i'), vs.fn(i)))


def py_sum(s, start=0):
    vs = iter_values(s)
    if isinstance(vs, list):
        r = start
        for v in vs:
            r = binop('Add', r, v)
        return r
    k = fresh(vs.n, base='r')
    g = vs.fn(P(k))
    if is_num(g):
        kd = kindof(g)
        return binop('Add', start, mknum(mk_sum(k, vs.n, topoly(g)), 'i' if kd == 'b' else kd))
    a = asarr(g)
    rd = a.reader()

    def fn(idx):
        vsn = [fresh(d, base='m') for d in a.shape]
        t = subst(rd([P(x) for x in vsn]), dict(zip(vsn, idx)))
        return mk_sum(k, vs.n, t)
    return binop('Add', start, mkarr(a.shape, fn, a.kind))


def py_minmax(ismax):
    def f(*args, **kw):
        if kw:
            raise Unsupported("max/min with key")
        if len(args) == 1:
            vs = iter_values(args[0])
            if isinstance(vs, Seq):
                if decide(eq0(vs.n)):
                    raise PyRaise('ValueError', 'max() arg is an empty sequence')
                k = fresh(vs.n, base='r')
                g = vs.fn(P(k))
                b = topoly(g)
                return mknum(mk_max(k, vs.n, b) if ismax else -mk_max(k, vs.n, -b), kindof(g))
        else:
            vs = list(args)
        if not vs:
            raise PyRaise('ValueError', 'max() arg is an empty sequence')
        r = vs[0]
        for v in vs[1:]:
            if isinstance(r, Inf) or isinstance(v, Inf):
                i, o = (r, v) if isinstance(r, Inf) else (v, r)
                if isinstance(o, Inf):
                    raise Unsupported("max of infinities")
                r = i if (i.sign > 0) == ismax else o
                continue
            if isinstance(v, Arr) and v.ndim or isinstance(r, Arr) and r.ndim:
                raise Unsupported("max of arrays")
            p, q = topoly(r), topoly(v)
            r = mknum(pmax(p, q) if ismax else pmin(p, q), joinkind(kindof(r), kindof(v)))
        return r
    return f


def py_map(f, *seqs):
    from . import loops
    s = py_zip(*seqs) if len(seqs) > 1 else seqs[0]
    vs = iter_values(s)

    def ap(v):
        return I.call(f, list(v) if len(seqs) > 1 else [v], {})
    if isinstance(vs, list):
        return LazyMap(vs, ap)
    return LazyMap(vs, ap)


class LazyMap(object):
    """python-3 map object: evaluated only when consumed"""
    def __init__(self, vs, ap):
        self.vs, self.ap = vs, ap


_iv = X.iter_values


def _iter_values(v):
    if isinstance(v, LazyMap):
        vs, v.vs = v.vs, []
        if isinstance(vs, list):
            return [v.ap(x) for x in vs]
        from . import loops
        return loops.symbolic_map(I, vs.n, lambda k: v.ap(vs.fn(k)))
    return _iv(v)


X.iter_values = _iter_values
iter_values = _iter_values


def py_any(s):
    r = any_of_filtered(s)
    if r is not None:
        return r
    vs = iter_values(s)
    if isinstance(vs, list):
        return any(truth(v) for v in vs)
    k = fresh(vs.n)
    g = vs.fn(P(k))
    return mknum(neg_guard(mk_all(k, vs.n, neg_guard(tobool(topoly(g), kindof(g))))), 'b')


def py_all(s):
    vs = iter_values(s)
    if isinstance(vs, list):
        return all(truth(v) for v in vs)
    k = fresh(vs.n)
    g = vs.fn(P(k))
    return mknum(mk_all(k, vs.n, tobool(topoly(g), kindof(g))), 'b')


def py_hasattr(o, n):
    try:
        I.getattr(o, n)
        return True
    except PyRaise as e:
        if e.name == 'AttributeError':
            return False
        raise


def py_getattr(o, n, *d):
    try:
        return I.getattr(o, n)
    except PyRaise as e:
        if e.name == 'AttributeError' and d:
            return d[0]
        raise


def py_reversed(s):
    vs = iter_values(s)
    if isinstance(vs, list):
        return LRef(list(reversed(vs)))
    return Seq(vs.n, lambda i: vs.fn(vs.n - 1 - i))


def py_abs(v):
    if isinstance(v, Inf):
        return Inf(1)
    return elementwise(pabs, [v], 'i' if kindof(v) == 'b' else kindof(v))


def py_callable(v):
    return isinstance(v, (Func, Bound, Builtin, ClassVal, TypeVal))


def py_round(v, n=0):
    raise Unsupported("round")


def random_values(loc=0.0, scale=1.0, size=None):
    """arbitrary values (nothing is assumed about their distribution)"""
    from . import loops
    if loops.DEPTH[0]:
        raise Unsupported("random values in a loop")
    nm = fresh(None, 'r', 'random').args[0]
    if size is None:
        return Num(P(var(nm, 'r')), 'r')
    sh = [topoly(s) for s in (to_tuple(size) if not is_num(size) else [size])]
    return mkarr(sh, lambda idx: app('A_' + nm, tuple(idx), 'r'), 'r')


def install(interp):
    B = interp.builtins

    def b(name, f):
        B[name] = Builtin(name, f)
    b('len', seqlen)
    b('range', py_range)
    b('xrange', py_range)
    b('zip', py_zip)
    b('enumerate', py_enumerate)
    b('slice', lambda *a: SliceV(None, a[0], None) if len(a) == 1 else SliceV(a[0], a[1], a[2] if len(a) > 2 else None))
    b('sum', py_sum)
    b('max', py_minmax(True))
    b('min', py_minmax(False))
    b('map', py_map)
    b('any', py_any)
    b('all', py_all)
    b('isinstance', isinstance_)
    b('issubclass', lambda c, t: t in c.mro)
    b('hasattr', py_hasattr)
    b('getattr', py_getattr)
    b('setattr', lambda o, n, v: interp.setattr(o, n, v))
    b('reversed', py_reversed)
    b('abs', py_abs)
    b('print', lambda *a, **k: None)
    b('repr', lambda v: Str((v,)))
    b('callable', py_callable)
    b('super', lambda *a: X.SuperVal(a[0], a[1]))
    b('round', py_round)
    b('id', lambda v: Str(('id',)))
    b('iter', lambda v: v)
    b('sorted', lambda *a, **k: (_ for _ in ()).throw(Unsupported("sorted")))
    b('property', lambda *a: None)
    b('divmod', lambda a, c: (binop('FloorDiv', a, c), binop('Mod', a, c)))
    b('vars', lambda *a: (_ for _ in ()).throw(Unsupported("vars")))
    b('open', lambda *a, **k: (_ for _ in ()).throw(Unsupported("open")))
    for n, k in (('int', 'i'), ('float', 'r'), ('bool', 'b'), ('str', None), ('list', None), ('tuple', None),
                 ('dict', None), ('object', None), ('type', None), ('set', None)):
        B[n] = TypeVal(n, k)
    for n in ('ValueError', 'TypeError', 'IndexError', 'KeyError', 'Exception', 'NotImplementedError', 'RuntimeError',
              'AttributeError', 'ImportError', 'AssertionError', 'KeyboardInterrupt', 'StopIteration',
              'ZeroDivisionError', 'IOError', 'OSError', 'BaseException', 'DeprecationWarning', 'UserWarning'):
        B[n] = TypeVal(n)
    B['True'], B['False'], B['None'] = True, False, None
    B['NotImplemented'] = Opaque('NotImplemented')
    B['__name__'] = 'pystruct'
    B['__file__'] = Str()

    np = Opaque('numpy')
    A = np.attrs

    def n(name, f):
        A[name] = Builtin(name, f)
    for nm, kd in (('float', 'r'), ('float64', 'r'), ('float32', 'r'), ('float_', 'r'), ('double', 'r'), ('int', 'i'), ('int64', 'i'),
                   ('int32', 'i'), ('intp', 'i'), ('int_', 'i'), ('int8', 'i'), ('int16', 'i'), ('uint8', 'i'), ('uint64', 'i'), ('uint32', 'i'), ('uint16', 'i'), ('bool', 'b'),
                   ('bool_', 'b'), ('object', None), ('ndarray', None), ('integer', None), ('floating', None),
                   ('number', None)):
        A[nm] = TypeVal(nm, kd)
    A['inf'] = Inf(1)
    A['newaxis'] = None
    A['pi'] = Num(P(Fraction('3.141592653589793')), 'r')
    for nm, f in dict(zeros=zeros, ones=ones, empty=empty, full=full, arange=arange, array=array, asarray=asarray,
                      asanyarray=asarray, ascontiguousarray=lambda a, dtype=None: asarray(a, dtype) if asarr(a).contig else array(a, dtype),
                      require=lambda a, dtype=None, **k: asarray(a, dtype), atleast_1d=lambda a: asarr(a) if asarr(a).ndim else reshape(a, [1]),
                      atleast_2d=lambda a: (lambda x: x if x.ndim >= 2 else (basic_view(x, [None, SliceV(None, None, None)]) if x.ndim == 1 else reshape(x, [1, 1])))(asarr(a)),
                      zeros_like=lambda a, dtype=None: like(ZERO, a, dtype), ones_like=lambda a, dtype=None: like(ONE, a, dtype),
                      empty_like=lambda a, dtype=None: empty(tuple(mknum(d, 'i') for d in asarr(a).shape), TypeVal('x', dtype_kind(dtype, asarr(a).kind))),
                      full_like=lambda a, v, dtype=None: full(tuple(mknum(d, 'i') for d in asarr(a).shape), v, dtype),
                      dot=dot, matmul=dot, inner=lambda a, b_: dot(a, b_) if asarr(b_).ndim < 2 else dot(a, transpose(b_)), vdot=lambda a, b_: dot(ravel(a), ravel(b_)),
                      outer=outer, einsum=einsum, tensordot=tensordot,
                      sum=np_sum, mean=np_mean, max=np_max, amax=np_max, min=np_min, amin=np_min, argmax=np_argmax, argmin=np_argmin,
                      any=reduce_any, all=reduce_all, cumsum=cumsum, prod=np_prod, maximum=maximum2, minimum=minimum2,
                      abs=py_abs, absolute=py_abs, fabs=py_abs, sign=sign, sqrt=np_sqrt, square=lambda v: power(v, 2), exp=fn1('exp'), log=fn1('log'),
                      log10=fn1('log10'), floor=lambda v: elementwise(floor_poly, [v], 'r'),
                      add=lambda a, b_: binop('Add', a, b_), subtract=lambda a, b_: binop('Sub', a, b_), multiply=lambda a, b_: binop('Mult', a, b_),
                      divide=lambda a, b_: binop('Div', a, b_), true_divide=lambda a, b_: binop('Div', a, b_), power=power,
                      floor_divide=lambda a, b_: binop('FloorDiv', a, b_), mod=lambda a, b_: binop('Mod', a, b_), remainder=lambda a, b_: binop('Mod', a, b_),
                      negative=lambda a: unary('USub', a),
                      equal=lambda a, b_: compare('Eq', a, b_), not_equal=lambda a, b_: compare('NotEq', a, b_), less=lambda a, b_: compare('Lt', a, b_),
                      greater=lambda a, b_: compare('Gt', a, b_), less_equal=lambda a, b_: compare('LtE', a, b_), greater_equal=lambda a, b_: compare('GtE', a, b_),
                      logical_and=lambda a, b_: elementwise(lambda p, q: mul(p, q), [as_bool(a), as_bool(b_)], 'b'),
                      logical_or=lambda a, b_: elementwise(bor, [as_bool(a), as_bool(b_)], 'b'),
                      logical_not=lambda a: elementwise(neg_guard, [as_bool(a)], 'b'),
                      hstack=hstack, vstack=vstack, column_stack=column_stack, stack=stack, row_stack=vstack,
                      concatenate=lambda s, axis=0: concatenate(seq_arrays(s), axis) if not isinstance(seq_arrays(s), Seq) else concat_seq(seq_arrays(s), axis, lambda a: a),
                      append=lambda a, v, axis=None: concatenate([ravel(a), ravel(asarr(v))], 0) if axis is None else concatenate([asarr(a), asarr(v)], axis),
                      repeat=repeat, tile=tile, tri=tri, tril=tril, triu=triu, diag=diag, diagonal=diag, eye=eye, identity=lambda k, dtype=None: eye(k, dtype=dtype),
                      unique=unique, where=where, nonzero=where, flatnonzero=lambda a: where(ravel(a))[0],
                      indices=indices, copy=copy, ravel=ravel, reshape=lambda a, s: reshape(a, list(to_tuple(s)) if not is_num(s) else [s]),
                      transpose=transpose, swapaxes=swapaxes, squeeze=squeeze, expand_dims=expand_dims, take=take,
                      array_equal=array_equal, bincount=bincount, isscalar=lambda v: is_num(v) or isinstance(v, str),
                      shape=lambda a: arr_attr(asarr(a), 'shape'), ndim=lambda a: asarr(a).ndim, size=lambda a: mknum(size_of(asarr(a)), 'i'),
                      clip=lambda a, lo, hi: minimum2(maximum2(a, lo), hi), dtype=lambda d: DtypeVal(dtype_kind(d)),
                      tril_indices=lambda n_, k=0: where(elementwise(lambda p: p, [tri(n_, k=k, dtype=TypeVal('bool', 'b'))], 'b')),
                      isnan=lambda a: elementwise(lambda p: ZERO, [a], 'b'), isinf=lambda a: elementwise(lambda p: ZERO, [a], 'b') if not isinstance(a, Inf) else True,
                      isfinite=lambda a: elementwise(lambda p: ONE, [a], 'b'), seterr=lambda **k: None,
                      diag_indices=lambda n_: (arange(n_), arange(n_)), ).items():
        n(nm, f)
    A['c_'] = Opaque('c_', attrs={'__getitem__': lambda k: c_(k)})
    A['r_'] = Opaque('r_', attrs={'__getitem__': lambda k: r_(k)})
    A['ogrid'] = Opaque('ogrid', attrs={'__getitem__': ogrid})
    A['linalg'] = Opaque('linalg', attrs={'norm': Builtin('norm', norm)})
    A['random'] = Opaque('random', attrs={nm: Builtin(nm, random_values) for nm in ('normal', 'uniform')})
    A['testing'] = Opaque('testing')
    interp.ext['numpy'] = np
    interp.ext['numbers'] = Opaque('numbers', attrs={'Integral': Opaque('numbers.Integral'), 'Number': Opaque('numbers.Number'),
                                                     'Real': Opaque('numbers.Real')})
    interp.ext['time'] = Opaque('time', attrs={'time': Builtin('time', lambda: Num(P(fresh(None, 'r', 'time')), 'r'))})
    interp.ext['time'].attrs['perf_counter'] = interp.ext['time'].attrs['time']
    interp.ext['math'] = Opaque('math', attrs={'sqrt': Builtin('sqrt', np_sqrt)})
    interp.ext['warnings'] = Opaque('warnings', attrs={'warn': Builtin('warn', lambda *a, **k: None)})
    interp.ext['copy'] = Opaque('copy', attrs={'copy': Builtin('copy', shallow), 'deepcopy': Builtin('deepcopy', deepcopy)})
    interp.ext['itertools'] = Opaque('itertools', attrs={'product': Builtin('product', it_product)})
    interp.ext['functools'] = Opaque('functools', attrs={'partial': Builtin('partial', lambda f, *a, **k: Builtin('partial', lambda *b_, **k2: interp.call(f, list(a) + list(b_), dict(k, **k2))))})

    def parallel(n_jobs=None, verbose=None, **kw):
        def run(gen):
            vs = iter_values(gen)
            if isinstance(vs, Seq):
                return LRef(rec=('slist', vs.n, lambda i: vs.fn(i)))
            return LRef(vs)
        return Builtin('Parallel()', run)

    def delayed(f):
        return Builtin('delayed()', lambda *a, **k: interp.call(f, list(a), k))
    # contract of joblib: Parallel()(delayed(f)(args) ...) returns [f(args) ...] in order
    interp.ext['joblib'] = Opaque('joblib', attrs={'Parallel': Builtin('Parallel', parallel), 'delayed': Builtin('delayed', delayed),
                                                   'cpu_count': Builtin('cpu_count', lambda: mknum(P(var('ncpu', 'i', 1)), 'i'))})
    interp.ext['sklearn.base'] = Opaque('sklearn.base', attrs={'BaseEstimator': Opaque('BaseEstimator')})
    interp.ext['sklearn'] = Opaque('sklearn')
    interp.ext['sklearn.utils'] = Opaque('sklearn.utils')
    interp.ext['scipy'] = Opaque('scipy', attrs={'sparse': Opaque('scipy.sparse')})


def as_bool(v):
    if kindof(asarr(v)) == 'b':
        return v
    return elementwise(lambda p: neg_guard(eq0(p)), [v], 'b')


def shallow(v):
    if isinstance(v, Arr):
        return copy(v)
    if isinstance(v, LRef):
        return LRef(rec=v.rec)
    if isinstance(v, DRef):
        return DRef(v.rec)
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.rec.update(v.rec)
        return o
    return v


def deepcopy(v):
    if isinstance(v, Arr):
        return copy(v)
    if isinstance(v, tuple):
        return tuple(deepcopy(x) for x in v)
    if isinstance(v, LRef):
        r = v.rec
        if r[0] == 'list':
            return LRef([deepcopy(x) for x in r[1]])
        return LRef(rec=(r[0], r[1], lambda i, f=r[2]: deepcopy(f(i))))
    if isinstance(v, DRef):
        return DRef({k: deepcopy(x) for k, x in v.rec.items()})
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.rec.update({k: deepcopy(x) for k, x in v.rec.items()})
        return o
    return v


def it_product(*seqs, **kw):
    rep = kw.get('repeat', 1)
    if type(rep) is not int:
        raise Unsupported("product with symbolic repeat")
    vs = [iter_values(s) for s in seqs] * rep
    if any(isinstance(v, Seq) for v in vs):
        raise Unsupported("product of symbolic sequences")
    return LRef([tuple(t) for t in itertools.product(*vs)])
