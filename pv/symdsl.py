"""The contract language, symbolic side: draws are universally quantified, ensure() is a proof obligation."""
import ast
import copy
import os
import time
from .terms import *          # noqa
from . import terms as T
from . import prover
from .values import *         # noqa
from . import values as V
from . import interp as X
from . import nplib as N
from . import loops as L
from .interp import I, decide, path_choice, topoly, mknum, is_num, iter_values, PathAbort, truth, kindof

W = V.W


class Ledger(object):
    def __init__(self):
        self.obl = []        # (label, status, backend, detail)
        self.assumed = []
        self.stubs = []


LED = Ledger()


def record(label, ok, detail=''):
    LED.obl.append((label, bool(ok), detail))


def dim(name, lo=1, hi=None):
    return mknum(var('d_' + name, 'i', topoly(lo), None if hi is None else topoly(hi)), 'i')


def real(name, *shape):
    if not shape:
        return Num(var('r_' + name, 'r'), 'r', True)
    sh = [topoly(s) for s in shape]
    return mkarr(sh, lambda idx: app('A_' + name, tuple(idx), 'r'), 'r', origin=name)


def nonneg_real(name, *shape):
    v = real(name, *shape)
    if shape:
        T.APP_RANGE['A_' + name] = lambda args: (ZERO, None)
    else:
        T.VAR_RANGE[list(v.p.atoms())[0]] = (ZERO, None)
    return v


def pos_real(name, *shape):
    v = nonneg_real(name, *shape)
    if shape:
        T.POS_APPS.add('A_' + name)
    else:
        prover.add_fact(gt0(v.p))
    return v


def ints(name, shape, lo, hi):
    if not isinstance(shape, (tuple, LRef)):
        shape = (shape,)
    sh = [topoly(s) for s in X.to_tuple(shape)]
    if not is_num(lo) or not is_num(hi):
        vs = [fresh(d, base='m') for d in sh]

        def bound(f):
            if is_num(f):
                return topoly(f)
            with prover.assume(*[ge0(d - 1) for d in sh]):
                return topoly(pure(lambda: I.call(f, [mknum(P(x), 'i') for x in vs], {})))
        plo, phi = bound(lo), bound(hi)
        T.APP_RANGE['I_' + name] = lambda args: (subst(plo, dict(zip(vs, args))), subst(phi, dict(zip(vs, args))) - 1)
        return mkarr(sh, lambda idx: app('I_' + name, tuple(idx), 'i'), 'i', origin=name)
    lo, hi = topoly(lo), topoly(hi)
    T.APP_RANGE['I_' + name] = lambda args: (lo, hi - 1)
    return mkarr(sh, lambda idx: app('I_' + name, tuple(idx), 'i'), 'i', origin=name)


def integer(name, lo, hi):
    return mknum(var('n_' + name, 'i', topoly(lo), topoly(hi) - 1), 'i')


def choice(name, options):
    o = X.to_tuple(options)
    return o[path_choice(len(o))]


def as_cond(c):
    """0/1 poly of a condition value, quantified over all entries for arrays"""
    if isinstance(c, bool):
        return ONE if c else ZERO
    if isinstance(c, Num):
        return c.p if c.kind == 'b' else ONE - eq0(c.p)
    if isinstance(c, int):
        return ONE if c else ZERO
    if isinstance(c, Arr):
        vs = [fresh(d, base='q') for d in c.shape]
        p = c.at(*[P(v) for v in vs])
        if c.kind != 'b':
            p = ONE - eq0(p)
        for v, d in reversed(list(zip(vs, c.shape))):
            p = mk_all(v, d, p)
        return p
    if c is None:
        return ZERO
    raise Unsupported("condition %r" % (c,))


def assume(c):
    if isinstance(c, Arr):
        p = as_cond(c)
        prover.add_fact(p)
        return
    p = X.renorm(as_cond(c))
    if p is ONE:
        return
    if p is ZERO:
        raise PathAbort()
    lit = prover.literal(p)
    if lit is not None:
        prover.add_fact(p)
        if PATHS():
            X.add_pc(p, False)
        if prover.contradictory():
            raise PathAbort()
        return
    if any(a.kind == 'all' for a in p.atoms()):
        prover.add_fact(p)
        return
    if not decide(p):
        raise PathAbort()


def PATHS():
    return X.PATHS


def prove_cond(c):
    """prove that a condition value holds for every entry"""
    if isinstance(c, Arr):
        vs = [fresh(d, base='q') for d in c.shape]
        p = c.at(*[P(v) for v in vs])
        facts = [ge0(d - 1) for d in c.shape]
        with prover.assume(*facts):
            if prover.contradictory():
                return True, ''
            if c.kind != 'b':
                p = ONE - eq0(p)
            return prover.entails(p), p
    p = as_cond(c)
    return prover.entails(p), p


def ensure(label, cond):
    if L.quiet():
        return
    ok, p = prove_cond(cond)
    if not ok:
        ok = not prover.feasible()
    record(label, ok, '' if ok else 'cannot show: %s' % short(p))


def ensure_le(label, a, b):
    if L.quiet():
        return
    d = N.binop('Sub', b, a)
    if isinstance(d, Arr):
        vs = [fresh(x, base='q') for x in d.shape]
        p = d.at(*[P(v) for v in vs])
        with prover.assume(*[ge0(x - 1) for x in d.shape]):
            ok = prover.prove_nonneg(p)
    else:
        p = topoly(d)
        ok = prover.prove_nonneg(p)
    if not ok:
        ok = not prover.feasible()
    record(label, ok, '' if ok else 'cannot show >= 0: %s' % short(p))


def short(p):
    try:
        s = str(p)
    except Exception:
        s = '?'
    return s if len(s) < 1500 else s[:1500] + '...'


def compare_values(a, b):
    """(ok, detail)"""
    if a is None or b is None:
        return (a is None and b is None), 'None versus a value'
    if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b, '%r versus %r' % (a, b)
        if isinstance(a, Str) and isinstance(b, Str) and N.str_key(a) == N.str_key(b):
            return True, ''
        return False, 'strings %r %r' % (a, b)
    if isinstance(a, OpqV) and isinstance(b, OpqV):
        return a.obj is b.obj, 'opaque objects'
    if isinstance(a, DRef) and isinstance(b, DRef):
        if set(a.rec) != set(b.rec):
            return False, 'different keys'
        for k in a.rec:
            r = compare_values(a.rec[k], b.rec[k])
            if not r[0]:
                return r
        return True, ''
    if isinstance(a, Inst) and isinstance(b, Inst):
        return a.id == b.id, 'different objects'
    if isinstance(a, Inf) and isinstance(b, Inf):
        return a.sign == b.sign, 'infinities'
    if isinstance(a, (tuple, LRef, Seq)) or isinstance(b, (tuple, LRef, Seq)):
        if is_num(a) or is_num(b) or (isinstance(a, Arr) and a.ndim == 0) or (isinstance(b, Arr) and b.ndim == 0):
            return False, 'sequence versus number'
        sa, sb = iter_values(a), iter_values(b)
        na = P(len(sa)) if isinstance(sa, list) else sa.n
        nb = P(len(sb)) if isinstance(sb, list) else sb.n
        if not prover.prove_zero(na - nb):
            return False, 'lengths %s and %s' % (short(na), short(nb))
        if isinstance(sa, list) and isinstance(sb, list):
            for x, y in zip(sa, sb):
                r = compare_values(x, y)
                if not r[0]:
                    return r
            return True, ''
        if isinstance(sa, list) or isinstance(sb, list):
            m = len(sa) if isinstance(sa, list) else len(sb)
            for i in range(m):
                x = sa[i] if isinstance(sa, list) else sa.fn(P(i))
                y = sb[i] if isinstance(sb, list) else sb.fn(P(i))
                r = compare_values(x, y)
                if not r[0]:
                    return r
            return True, ''
        k = fresh(na, base='q')
        with prover.assume(ge0(na - 1)):
            if prover.contradictory():
                return True, ''
            return compare_values(sa.fn(P(k)), sb.fn(P(k)))
    if isinstance(a, Undef) or isinstance(b, Undef):
        raise Unsupported("comparison of undefined values: %s" % (a.why if isinstance(a, Undef) else b.why))
    if (isinstance(a, Arr) or is_num(a)) and (isinstance(b, Arr) or is_num(b)):
        if is_num(a) and is_num(b):
            d = topoly(a) - topoly(b)
            ok = prover.prove_zero(d)
            return ok, '' if ok else 'difference not shown zero: %s' % short(d)
        A, B = N.asarr(a), N.asarr(b)
        if A.ndim != B.ndim:
            return False, 'ranks %d and %d' % (A.ndim, B.ndim)
        for x, y in zip(A.shape, B.shape):
            if not prover.prove_zero(x - y):
                return False, 'shapes %s and %s' % (A.shape, B.shape)
        vs = [fresh(d, base='q') for d in A.shape]
        with prover.assume(*[ge0(x - 1) for x in A.shape]):
            if prover.contradictory():
                return True, ''
            idx = [P(v) for v in vs]
            d = A.at(*idx) - B.at(*idx)
            ok = prover.prove_zero(d)
        return ok, '' if ok else 'difference not shown zero: %s' % short(d)
    if a is b:
        return True, ''
    if isinstance(a, (ClassVal, Func, Builtin, TypeVal)) or isinstance(b, (ClassVal, Func, Builtin, TypeVal)):
        return a is b, 'different objects'
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a is b, 'different objects'
    if (is_num(a) or isinstance(a, (Arr, Inf))) and (is_num(b) or isinstance(b, (Arr, Inf))):
        return False, 'infinite versus finite'
    raise Unsupported("comparison of %r and %r" % (a, b))


class OpqV(object):
    pass


OpqV = X.OpqVal


def ensure_eq(label, a, b):
    if L.quiet():
        return
    ok, det = compare_values(a, b)
    if not ok:
        ok = not prover.feasible()
    record(label, ok, '' if ok else det)


def ensure_kind(label, a, kind):
    if L.quiet():
        return
    k = kindof(a) if not isinstance(a, (LRef, tuple)) else N.asarr(a).kind
    record(label, not (kind == 'i' and k != 'i'), 'kind %s' % k)


def fail(label):
    if L.quiet():
        return
    ok = not prover.feasible()
    record(label, ok, '' if ok else 'reachable')


def SUM(n, f):
    n = topoly(n)
    if n.const is not None:
        s = 0
        for i in range(int(n.const)):
            s = N.binop('Add', s, I.call(f, [i], {}))
        return s
    k = fresh(n, base='s')
    with prover.assume(ge0(n - 1)):
        v = pure(lambda: I.call(f, [mknum(P(k), 'i')], {}))
    if isinstance(v, Arr):
        rd = v.reader()

        def fn(idx):
            vs = [fresh(d, base='m') for d in v.shape]
            return subst(mk_sum(k, n, rd([P(x) for x in vs])), dict(zip(vs, idx)))
        return mkarr(v.shape, fn, v.kind)
    return mknum(mk_sum(k, n, topoly(v)), joink(kindof(v)))


def joink(k):
    return 'i' if k == 'b' else k


def pure(thunk):
    """evaluate without path forks escaping: merge the inner paths"""
    outs = X.explore(thunk)
    for o in outs:
        if o.kind != 'ok':
            raise Unsupported("specification expression raises %s" % (o.value,))
    for o in outs:
        L.import_value(o.value, o.store)
    if len(outs) == 1:
        return outs[0].value
    return X.merge_values([(o.cond, o.value) for o in outs])


def ALL(n, f):
    n = topoly(n)
    if n.const is not None:
        r = ONE
        for i in range(int(n.const)):
            r = mul(r, as_cond(I.call(f, [i], {})))
        return mknum(r, 'b')
    k = fresh(n, base='s')
    with prover.assume(ge0(n - 1)):
        v = pure(lambda: I.call(f, [mknum(P(k), 'i')], {}))
        p = as_cond(v)
    return mknum(mk_all(k, n, p), 'b')


def MAX(n, f):
    n = topoly(n)
    k = fresh(n, base='s')
    with prover.assume(ge0(n - 1)):
        v = pure(lambda: I.call(f, [mknum(P(k), 'i')], {}))
    return mknum(mk_max(k, n, topoly(v)), kindof(v))


def ARGMAX(n, f):
    n = topoly(n)
    k = fresh(n, base='s')
    with prover.assume(ge0(n - 1)):
        v = pure(lambda: I.call(f, [mknum(P(k), 'i')], {}))
    return mknum(mk_argmax(k, n, topoly(v)), 'i')


def IF(c, a, b):
    p = as_cond(c)
    if p is ONE:
        return a
    if p is ZERO:
        return b
    return X.merge_values([(p, a), (neg_guard(p), b)])


def IMPLIES(a, b):
    p, q = as_cond(a), as_cond(b)
    return mknum(ONE - p + mul(p, q), 'b')


def AND(*a):
    r = ONE
    for x in a:
        r = mul(r, as_cond(x))
    return mknum(r, 'b')


def OR(*a):
    r = ZERO
    for x in a:
        r = bor(r, as_cond(x))
    return mknum(r, 'b')


def NOT(a):
    return mknum(neg_guard(as_cond(a)), 'b')


def array_of(shape, f, kind='r'):
    if not isinstance(shape, (tuple, LRef)):
        shape = (shape,)
    sh = [topoly(s) for s in X.to_tuple(shape)]
    vs = [fresh(d, base='m') for d in sh]
    with prover.assume(*[ge0(d - 1) for d in sh]):
        v = pure(lambda: I.call(f, [mknum(P(x), 'i') for x in vs], {}))
        p = topoly(v)
    return mkarr(sh, lambda idx: subst(p, dict(zip(vs, idx))), kind)


def list_of(n, f):
    n = topoly(n)
    if n.const is not None:
        return LRef([I.call(f, [i], {}) for i in range(int(n.const))])

    f = freeze(f)

    def fn(i):
        return I.call(f, [mknum(P(i), 'i')], {})
    return LRef(rec=('slist', n, fn))


def freeze(f):
    """the closure with the variables as they are now: elements are computed later"""
    if not isinstance(f, X.Func) or f.env is None:
        return f

    def clone(e):
        if e is None:
            return None
        r = W.store[e].copy()
        r['__parent__'] = clone(r['__parent__'])
        return W.new(r)
    g = copy.copy(f)
    g.env = clone(f.env)
    return g


def raises(f, *args, **kwargs):
    try:
        I.call(f, list(args), kwargs)
    except PyRaise as e:
        return e.name
    return None


def ensure_raises(label, f, *args, **kwargs):
    if L.quiet():
        return
    r = raises(f, *args, **kwargs)
    ok = r is not None or not prover.feasible()
    record(label, ok, '' if ok else 'no exception')


def flatten_bufs(v, out, seen):
    if isinstance(v, Arr):
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            flatten_bufs(x, out, seen)
    elif isinstance(v, LRef):
        if v.id in seen:
            return
        seen.add(v.id)
        out.append(v)
        r = v.rec
        if r[0] == 'list':
            for x in r[1]:
                flatten_bufs(x, out, seen)
        elif r[0] == 'slist':
            k = fresh(r[1], base='q')
            flatten_bufs(r[2](P(k)), out, seen)
    elif isinstance(v, DRef):
        for x in v.rec.values():
            flatten_bufs(x, out, seen)


def snapshot(*objs):
    out = []
    flatten_bufs(tuple(objs), out, set())
    return tuple((v, W.store[v.bid] if isinstance(v, Arr) else v.rec) for v in out)


def ensure_unchanged(label, snap, *objs):
    if L.quiet():
        return
    ok, det = True, ''
    for v, rec in snap:
        if isinstance(v, Arr):
            now = W.store[v.bid]
            if now is rec:
                continue
            if now.kind != rec.kind:
                ok, det = False, 'kind changed'
                break
            vs = [fresh(d, base='q') for d in rec.shape]
            with prover.assume(*[ge0(x - 1) for x in rec.shape]):
                if prover.contradictory():
                    continue
                d = now.get([P(x) for x in vs]) - rec.get([P(x) for x in vs])
                if not prover.prove_zero(d):
                    ok, det = False, 'buffer of %s changed by %s' % (rec.origin, short(d))
                    break
        else:
            now = v.rec
            if now is rec or now == rec:
                continue
            r = compare_values(LRef(rec=now), LRef(rec=rec))
            if not r[0]:
                ok, det = False, 'list changed'
                break
    if not ok:
        ok = not prover.feasible()
    record(label, ok, det)


def is_view(a, b):
    return a.bid == b.bid


def modular(qual, f):
    stub(qual, f)


def stub(qual, f):
    """calls of `qual` are replaced by f: the callee's contract"""
    LED.stubs.append(qual)
    parts = qual.split('.')
    if parts[0] == 'builtins':
        I.builtins[parts[1]] = f
        return
    if parts[0] != 'pystruct':
        o = I.ext.setdefault(parts[0], Opaque(parts[0]))
        for i, r in enumerate(parts[1:-1]):
            name = '.'.join(parts[:i + 2])
            q = I.ext.get(name) or o.attrs.get(r)
            o.attrs[r] = I.ext[name] = q if isinstance(q, Opaque) else Opaque(name)
            o = o.attrs[r]
        o.attrs[parts[-1]] = f
        return
    if not defined(parts):
        raise Unsupported('no function %s to replace by its contract' % qual)
    I.overrides[qual] = lambda interp, g, args, kw: interp.call(f, list(args), kw)


def defined(parts):
    """does the module named by the first parts define the function or method named by the rest?"""
    for cut in range(len(parts) - 1, 0, -1):
        base = os.path.join(I.root, *parts[:cut])
        path = base + '.py' if os.path.isfile(base + '.py') else os.path.join(base, '__init__.py')
        if os.path.isfile(path):
            with open(path) as f:
                body = ast.parse(f.read()).body
            for name in parts[cut:]:
                found = [b for b in body if isinstance(b, (ast.FunctionDef, ast.ClassDef)) and b.name == name]
                if not found:
                    return False
                body = found[0].body
            return True
        if os.path.isfile(base + '.pyx'):
            return True
    return True


def is_symbolic():
    return True


def function(name, sign=None):
    if sign in ('nonneg', 'pos'):
        T.APP_RANGE['A_' + name] = lambda args: (ZERO, None)
        if sign == 'pos':
            T.POS_APPS.add('A_' + name)
    return Builtin(name, lambda *idx: mknum(app('A_' + name, tuple(topoly(i) for i in idx), 'r'), 'r'))


def int_function(name, lo, hi):
    lo, hi = topoly(lo), topoly(hi)
    T.APP_RANGE['I_' + name] = lambda args: (lo, hi - 1)
    return Builtin(name, lambda *idx: mknum(app('I_' + name, tuple(topoly(i) for i in idx), 'i'), 'i'))


def candidates(owner, *fs):
    """ghost expressions that loops may keep some location equal to; the ghost state of the owner (if any) stays
    abstract"""
    for f in fs:
        L.CANDIDATES.append((owner.id if owner is not None else None, lambda f=f: pure(lambda: I.call(f, [], {}))))


def invariant(*fs):
    """invariants 'location == f(iterations done, value before the loop)' that loops may use for some location"""
    for f in fs:
        def thunk(k, old, f=f):
            return pure(lambda: I.call(f, [k, old], {}))
        thunk.indexed = True
        L.CANDIDATES.append((None, thunk))


def split_loops(*ats):
    """analyse loops that run past iteration `at` as two loops"""
    L.SPLITS.extend(a.p if isinstance(a, Num) else P(a) for a in ats)


UNFOLD = {}


def recursive(name, n, shape, first, step, kind='r', lo=None, hi=None):
    """the function defined by f(0, *idx) = first(*idx) and f(i + 1, *idx) = step(f(i, .), i, *idx) for i + 1 < n"""
    fname = 'R%d_%s' % (len(UNFOLD), name)
    dims = [topoly(d) for d in X.to_tuple(shape)]
    if lo is not None:
        l, h = topoly(lo), topoly(hi)
        T.APP_RANGE[fname] = lambda args: (l, h - 1)
    it = fresh(None, base='r')
    T.VAR_RANGE[it] = (ZERO, topoly(n) - 2)
    vs = [fresh(d, base='m') for d in dims]
    idx = [mknum(P(v), 'i') for v in vs]

    def at(i):
        return Builtin(name, lambda *j: mknum(app(fname, (topoly(i),) + tuple(topoly(x) for x in j), kind), kind))
    with prover.assume(*[ge0(d - 1) for d in dims]):
        f0 = topoly(pure(lambda: I.call(first, list(idx), {})))
        i = mknum(P(it), 'i')
        with prover.assume(ge0(topoly(n) - 2)):
            f1 = topoly(pure(lambda: I.call(step, [at(i), i] + list(idx), {})))

    def step_at(args):
        return subst(f1, dict(zip([it] + vs, (args[0] - 1,) + tuple(args[1:]))))
    UNFOLD[fname] = step_at

    def rw(args):
        i, j = args[0], args[1:]
        c = i.const if i.const is not None else dict(i.m).get((), 0)
        if i is ZERO:
            return subst(f0, dict(zip(vs, j)))
        if c >= 1 and T.nonneg(i - 1):
            return step_at(args)
        return None
    T.REWRITE[fname] = rw
    return Builtin(name, lambda i, *j: at(i).fn(*j))


def telescope(n, f, attained=False):
    """lemma: the sum of f(i + 1) - f(i) over i < n is f(n) - f(0), with recursive functions unfolded once
    (and, if asked for, maxima written as the value at their argmax)"""
    if not T.nonneg(topoly(n)):
        raise Unsupported('telescoping sum over a range of unknown sign')

    def at(i):
        return unfolded(topoly(I.call(f, [mknum(i, 'i')], {})), attained)
    v = fresh(topoly(n), base='k')
    body = at(P(v) + 1) - at(P(v))
    prover.add_fact(eq0(T.mk_sum(v, topoly(n), body) - at(topoly(n)) + at(ZERO)))


def sum_at(n, f):
    v = fresh(n, base='k')
    return T.mk_sum(v, n, topoly(I.call(f, [mknum(P(v), 'i')], {})))


def reversal(n, f):
    """lemma: the sum of f(i) over i < n is the sum of f(n - 1 - i)"""
    n = topoly(n)
    prover.add_fact(eq0(sum_at(n, f) - sum_at(n, Builtin('reversed', lambda i: I.call(
        f, [mknum(n - 1 - topoly(i), 'i')], {})))))


def ends_apart(n, f):
    """lemma: a sum over i < n + 1 is its first summand and the rest, and its last summand and the rest"""
    n = topoly(n)
    if not T.nonneg(n):
        raise Unsupported('sum over a range of unknown sign')
    first, last = (topoly(I.call(f, [mknum(i, 'i')], {})) for i in (ZERO, n))
    s = sum_at(n + 1, f)
    prover.add_fact(eq0(s - first - sum_at(n, Builtin('next', lambda i: I.call(f, [mknum(topoly(i) + 1, 'i')], {})))))
    prover.add_fact(eq0(s - last - sum_at(n, f)))


def sums_le(name, n, f, g):
    """obligation: f(i) <= g(i) for i < n; its consequence for the sums is known afterwards"""
    ensure(name, ALL(n, Builtin('le', lambda i: N.compare('LtE', I.call(f, [i], {}), I.call(g, [i], {})))))
    prover.add_fact(ge0(sum_at(topoly(n), g) - sum_at(topoly(n), f)))


def unfolded(p, attained):
    for a in list(p.atoms()):
        if a.kind == 'app' and a.args[0] in UNFOLD and T.nonneg(a.args[1] - 1):
            p = subst_top(p, a, UNFOLD[a.args[0]](a.args[1:]))
    for a in list(p.atoms()):
        if attained and a.kind == 'max' and T.positive(a.args[1][0]):
            bs, ns, body = T.open_binder(a)
            p = subst_top(p, a, subst(body, {bs[0]: T.mk_argmax(bs[0], ns[0], body)}))
    return p


def fabricate(cls):
    return Inst(cls)


NAMES = ['dim', 'real', 'nonneg_real', 'pos_real', 'ints', 'integer', 'choice', 'assume', 'ensure', 'ensure_eq',
         'ensure_le', 'ensure_kind', 'fail', 'SUM', 'ALL', 'MAX', 'ARGMAX', 'IF', 'IMPLIES', 'AND', 'OR', 'NOT',
         'array_of', 'list_of',
         'raises', 'ensure_raises', 'snapshot', 'ensure_unchanged', 'is_view', 'stub', 'modular', 'is_symbolic', 'fabricate',
         'candidates', 'invariant', 'split_loops', 'recursive', 'telescope', 'reversal', 'ends_apart', 'sums_le', 'function', 'int_function']
L.LEDGER[0] = lambda: LED.obl


def install():
    g = globals()
    I.ext['pv.dsl'] = Opaque('pv.dsl', attrs={n: Builtin(n, g[n]) for n in NAMES})
    for n in NAMES:
        I.builtins[n] = I.ext['pv.dsl'].attrs[n]
