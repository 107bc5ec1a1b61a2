"""Hash-consed polynomial terms with binders: the logic of the verifier.

Every numeric term is a polynomial with rational coefficients over atoms.  Atoms are
variables, uninterpreted applications, Iverson brackets [p >= 0], [p > 0], [p == 0],
flattened multi-binder sums of products, max / argmax / forall over a range, integer
division, reciprocals.  All constructors normalise, so equality of normal forms is a proof
of equality; `prover.py` adds case splits and an SMT back end for what is left.
Integers are mathematical integers, reals are mathematical reals.
"""
from fractions import Fraction
import itertools
from math import gcd

F0, F1 = Fraction(0), Fraction(1)


class EngineError(Exception):
    """construct outside the engine's reach (never a verdict)"""


# ----------------------------------------------------------------------------- atoms, polys
class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'sort', 'fv', 'h', '_rng')
    table = {}
    count = 0

    def __repr__(self):
        return show_atom(self)


def _fv_of(x):
    if isinstance(x, Poly):
        return x.fv
    if isinstance(x, Atom):
        return x.fv
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r = r | _fv_of(y)
        return r
    return frozenset()


def _h_of(x):
    if isinstance(x, (Poly, Atom)):
        return x.h
    if isinstance(x, tuple):
        return max([_h_of(y) for y in x] or [0])
    return 0


def intern(kind, args, sort):
    key = (kind, args, sort)
    a = Atom.table.get(key)
    if a is not None:
        return a
    a = Atom()
    Atom.count += 1
    a.id = Atom.count
    a.kind, a.args, a.sort = kind, args, sort
    a._rng = None
    if kind == 'var':
        a.fv = frozenset((a,))
        a.h = 0
    elif kind in BINDERS:
        bound = frozenset(args[0])
        a.fv = _fv_of(args[1:]) - bound
        a.h = _h_of(args[1:]) + 1
    else:
        a.fv = _fv_of(args)
        a.h = _h_of(args)
    Atom.table[key] = a
    return a


BINDERS = ('sum', 'max', 'argmax', 'all')
IDEM = ('ge', 'gt', 'eq', 'bv', 'all', 'beq')


class Poly(object):
    """m: tuple of (mono, coef), mono = tuple of (atom, exp) sorted by atom id"""
    __slots__ = ('m', 'fv', 'h', '_hash', '_isint')
    table = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __neg__(self):
        return scale(self, -F1)

    def __sub__(self, o):
        return add(self, scale(P(o), -F1))

    def __rsub__(self, o):
        return add(P(o), scale(self, -F1))

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __pow__(self, k):
        r = ONE
        for _ in range(k):
            r = mul(r, self)
        return r

    @property
    def const(self):
        """Fraction if constant, else None"""
        if not self.m:
            return F0
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None

    def atoms(self):
        s = set()
        for mono, _ in self.m:
            for a, _e in mono:
                s.add(a)
        return s


def _mono_key(mono):
    return tuple((a.id, e) for a, e in mono)


def _mk(d):
    items = [(mo, c) for mo, c in d.items() if c != 0]
    items.sort(key=lambda t: (len(t[0]), _mono_key(t[0])))
    m = tuple(items)
    p = Poly.table.get(m)
    if p is None:
        p = Poly()
        p.m = m
        fv = frozenset()
        h = 0
        for mo, _c in m:
            for a, _e in mo:
                fv = fv | a.fv
                if a.h > h:
                    h = a.h
        p.fv = fv
        p.h = h
        p._isint = None
        Poly.table[m] = p
    return p


ZERO = _mk({})
ONE = _mk({(): F1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mk({((x, 1),): F1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return _mk({(): Fraction(x)})
    if isinstance(x, Fraction):
        return _mk({(): x})
    if isinstance(x, float):
        return _mk({(): Fraction(x)})
    raise EngineError("not a number: %r" % (x,))


def add(p, q):
    if not p.m:
        return q
    if not q.m:
        return p
    d = dict(p.m)
    for mo, c in q.m:
        d[mo] = d.get(mo, F0) + c
    return _mk(d)


def addall(ps):
    d = {}
    for p in ps:
        for mo, c in p.m:
            d[mo] = d.get(mo, F0) + c
    return _mk(d)


def scale(p, c):
    c = Fraction(c)
    if c == 1:
        return p
    return _mk({mo: k * c for mo, k in p.m})


def mono_mul(a, b):
    """product of two monos -> mono, or None if zero, with light guard simplification"""
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    newg = []
    for at, e in b:
        if at in d:
            if at.kind not in IDEM:
                d[at] = d[at] + e
                if d[at] == 0:
                    del d[at]
        else:
            d[at] = e
            if at.kind in ('ge', 'gt', 'eq', 'inv'):
                newg.append(at)
    for g in newg:
        if g not in d:
            continue
        if g.kind == 'inv':
            continue
        for o in list(d):
            if o is g or o.kind not in ('ge', 'gt', 'eq'):
                continue
            r = guard_pair(g, o)
            if r is None:
                continue
            if r == 0:
                return None
            # r is the atom implied by the other: drop it
            d.pop(r, None)
            if r is g:
                break
    for g in [g for g in d if g.kind == 'ge']:
        at = _unit_atom(g)
        if at is not None and at in d:
            lo = atom_range(at)[0]
            if lo is not None and lo.const is not None and lo.const >= 0:
                del d[g]      # a*[a >= 1] = a for a natural number a
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


def _unit_atom(g):
    p = g.args[0]
    if len(p.m) != 2:
        return None
    at = None
    for mo, c in p.m:
        if mo == ():
            if c != -1:
                return None
        elif c == 1 and len(mo) == 1 and mo[0][1] == 1 and mo[0][0].sort == 'i':
            at = mo[0][0]
        else:
            return None
    return at


_gp = {}


def guard_pair(g, o):
    """0 contradictory; atom that is redundant given the other; None unknown"""
    k = (g, o)
    if k in _gp:
        return _gp[k]
    r = _guard_pair(g, o)
    _gp[k] = r
    return r


def _guard_pair(g, o):
    p, q = g.args[0], o.args[0]
    if not (p.fv & q.fv) and p.fv and q.fv:
        return None
    if g.kind == 'eq' and o.kind == 'eq':
        for t in (p - q, p + q):
            if t.const is not None and t.const != 0:
                return 0
        return None
    if g.kind == 'eq' or o.kind == 'eq':
        e, i = (g, o) if g.kind == 'eq' else (o, g)
        pe, pi = e.args[0], i.args[0]
        for t in (pi - pe, pi + pe):
            c = t.const
            if c is not None:
                ok = c >= 0 if i.kind == 'ge' else c > 0
                return i if ok else 0
        return None
    s = (p + q).const
    if s is not None:
        if s < 0 or (s == 0 and 'gt' in (g.kind, o.kind)):
            return 0
    d = (p - q).const
    if d is not None:
        # p = q + d
        if d > 0:
            return g if True and not (g.kind == 'gt' and d <= 0) else None
        if d < 0:
            return o
        # same poly, one strict
        return g if g.kind == 'ge' else o
    return None


def mul(p, q):
    if not p.m or not q.m:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    d = {}
    inv = False
    for a, ca in p.m:
        for b, cb in q.m:
            mo = mono_mul(a, b)
            if mo is None:
                continue
            d[mo] = d.get(mo, F0) + ca * cb
            if any(at.kind == 'inv' for at, _ in mo):
                inv = True
    r = _mk(d)
    if inv:
        r = cancel_inv(r)
    return r


def cancel_inv(p):
    """inv(q) * q -> 1 when q is a single atom or monomial"""
    d = {}
    changed = False
    for mo, c in p.m:
        m = dict(mo)
        for at in list(m):
            if at.kind == 'inv' and at in m:
                q = at.args[0]
                if len(q.m) == 1:
                    qm, qc = q.m[0]
                    while at in m and all(m.get(x, 0) >= e for x, e in qm) and qm:
                        for x, e in qm:
                            m[x] -= e
                            if m[x] == 0:
                                del m[x]
                        m[at] -= 1
                        if m[at] == 0:
                            del m[at]
                        c = c / qc
                        changed = True
        mo2 = tuple(sorted(m.items(), key=lambda t: t[0].id))
        d[mo2] = d.get(mo2, F0) + c
    return _mk(d) if changed else p


# ----------------------------------------------------------------------------- variables
_fresh = itertools.count()
VAR_RANGE = {}     # var atom -> (lo Poly or None, hi Poly (inclusive) or None)
APP_RANGE = {}     # fname -> function(args) -> (lo, hi) inclusive or None each
FACTS = []         # list of (poly, strict) known >= 0 (>0): path condition
EQFACTS = []       # polys known == 0
VERSION = [0]
BFACTS = {}        # boolean atoms -> 0/1


def var(name, sort='i', lo=None, hi=None):
    a = intern('var', (name,), sort)
    if lo is not None or hi is not None:
        VAR_RANGE[a] = (None if lo is None else P(lo), None if hi is None else P(hi))
    return P(a)


def fresh(n=None, sort='i', base='k'):
    a = intern('var', ('%s~%d' % (base, next(_fresh)),), sort)
    if n is not None:
        VAR_RANGE[a] = (ZERO, P(n) - 1)
    return a


def bvar(h, k):
    return intern('var', ('$%d.%d' % (h, k),), 'i')


REWRITE = {}   # fname -> function(args) -> Poly or None


def app(fname, args=(), sort='r'):
    args = tuple(a if isinstance(a, (Poly, Obj)) else P(a) for a in args)
    rw = REWRITE.get(fname)
    if rw is not None:
        r = rw(args)
        if r is not None:
            return r
    a = intern('app', (fname,) + args, sort)
    if a in BFACTS:
        return P(BFACTS[a])
    return P(a)


def is_bit(a):
    """an integer function value in {0, 1}"""
    if a.kind != 'app' or a.sort != 'i':
        return False
    lo, hi = atom_range(a)
    return lo is ZERO and hi is ONE


def bapp(fname, args=()):
    """boolean-valued uninterpreted predicate as an Iverson atom"""
    args = tuple(a if isinstance(a, (Poly, Obj)) else P(a) for a in args)
    a = intern('bv', (fname,) + args, 'i')
    if a in BFACTS:
        return P(BFACTS[a])
    return P(a)


class Obj(object):
    """opaque object term (uninterpreted): name + args"""
    __slots__ = ('name', 'args', 'fv', 'h')
    table = {}

    def __new__(cls, name, args=()):
        args = tuple(args)
        k = (name, args)
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.name, o.args = name, args
            o.fv = _fv_of2(args)
            o.h = max([a.h for a in args] or [0])
            cls.table[k] = o
        return o

    def __repr__(self):
        return "%s(%s)" % (self.name, ','.join(map(repr, self.args))) if self.args else str(self.name)


def _fv_of2(args):
    r = frozenset()
    for a in args:
        r = r | a.fv
    return r


_fv_old = _fv_of


def _fv_of(x):   # noqa: F811  (extend to Obj)
    if isinstance(x, Obj):
        return x.fv
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r = r | _fv_of(y)
        return r
    return _fv_old(x)


_h_old = _h_of


def _h_of(x):   # noqa: F811
    if isinstance(x, Obj):
        return x.h
    if isinstance(x, tuple):
        return max([_h_of(y) for y in x] or [0])
    return _h_old(x)


# ----------------------------------------------------------------------------- integrality
def atom_is_int(a):
    return a.sort == 'i'


def is_int(p):
    """integer-valued for all values of its (integer) atoms"""
    if p._isint is None:
        p._isint = _is_int(p)
    return p._isint


def _is_int(p):
    if all(c.denominator == 1 for _, c in p.m):
        return all(atom_is_int(a) for mo, _ in p.m for a, _e in mo)
    ats = sorted(p.atoms(), key=lambda a: a.id)
    if not all(atom_is_int(a) for a in ats):
        return False
    degs = [max([e for mo, _ in p.m for x, e in mo if x is a]) for a in ats]
    tot = 1
    for d in degs:
        tot *= d + 1
    if tot > 300:
        return False
    for vals in itertools.product(*[range(d + 1) for d in degs]):
        env = dict(zip(ats, vals))
        s = F0
        for mo, c in p.m:
            t = c
            for a, e in mo:
                t *= Fraction(env[a]) ** e
            s += t
        if s.denominator != 1:
            return False
    return True


# ----------------------------------------------------------------------------- cheap bounds
_nn_cache = {}


def clear_caches():
    VERSION[0] += 1


def atom_range(a):
    """(lo, hi) inclusive polys or None"""
    if a.kind == 'var':
        return VAR_RANGE.get(a, (None, None))
    if a.kind == 'app':
        f = APP_RANGE.get(a.args[0])
        if f is not None:
            return f(a.args[1:])
        return (None, None)
    if a.kind in IDEM:
        return (ZERO, ONE)
    if a.kind == 'inv':
        return (ZERO, None) if positive(a.args[0]) else (None, None)
    if a.kind == 'fn' and a.args[0] == 'sqrt':
        return (ZERO, None)
    if a.kind == 'argmax':
        return (ZERO, a.args[1][0] - 1)
    if a.kind == 'sum':
        bs, ns, body = a.args
        cnt = ONE
        for n in ns:
            if not nonneg(n):
                return (None, None)
            cnt = mul(cnt, n)
        if cnt.fv & frozenset(bs):
            return (None, None)
        if len(body.m) == 1 and body.m[0][1] == 1 and len(body.m[0][0]) == 1 and body.m[0][0][0][1] == 1:
            lo, hi = atom_range(body.m[0][0][0][0])
            bset = frozenset(bs)
            lo = None if lo is None or lo.fv & bset else mul(lo, cnt)
            hi = None if hi is None or hi.fv & bset else mul(hi, cnt)
            return (lo, hi)
        return (ZERO if nonneg(body) else None, None)
    if a.kind == 'idiv':
        p, q = a.args
        lo = ZERO if nonneg(p) else None
        hi = None
        if lo is not None:
            hi = idiv_hi(p, q)
        return (lo, hi)
    return (None, None)


def idiv_hi(p, q):
    # upper bound of p as a polynomial: substitute var upper bounds when coefficient is 1
    up = upper_poly(p)
    if up is None:
        return None
    k = divexact(up + 1, q)
    if k is not None:
        return k - 1
    return None


def upper_poly(p):
    """a polynomial upper bound obtained by replacing ranged vars by their upper ends"""
    for _ in range(8):
        cand = None
        for a in sorted(p.atoms(), key=lambda a: -a.id):
            if a.kind in ('var', 'app', 'argmax', 'sum'):
                lo, hi = atom_range(a)
                if hi is None:
                    continue
                c, r = linear_in(p, a)
                if c is None:
                    continue
                if nonneg(c):
                    cand = (a, hi)
                elif lo is not None and nonneg(-c):
                    cand = (a, lo)
                if cand:
                    break
        if not cand:
            return p
        p = subst_top(p, cand[0], cand[1])
    return p


def linear_in(p, a):
    """p = c*a + r with c, r free of top-level a (a may occur inside other atoms); else None"""
    c, r = {}, {}
    for mo, k in p.m:
        e = dict(mo).get(a, 0)
        if e == 0:
            r[mo] = k
        elif e == 1:
            c[tuple(t for t in mo if t[0] is not a)] = k
        else:
            return None, None
    return _mk(c), _mk(r)


def subst_top(p, a, q):
    """replace top-level occurrences of atom a by q"""
    r = ZERO
    for mo, k in p.m:
        e = dict(mo).get(a, 0)
        t = _mk({tuple(x for x in mo if x[0] is not a): k})
        for _ in range(e):
            t = mul(t, q)
        r = add(r, t)
    return r


def nonneg(p, depth=0):
    """cheap sound test p >= 0 from ranges and facts"""
    c = p.const
    if c is not None:
        return c >= 0
    key = (p, VERSION[0])
    r = _nn_cache.get(key)
    if r is not None:
        return r
    _nn_cache[key] = False
    r = _nonneg(p, {}, 0)
    if not r and FACTS:
        for f, _s in FACTS:
            if (f.fv & p.fv) or f.const is not None:
                d = p - f
                if d.const is not None:
                    if d.const >= 0:
                        r = True
                        break
                elif len(d.m) <= len(p.m) + 2 and _nonneg(d, {}, 0):
                    r = True
                    break
        if not r and len(FACTS) <= 24:
            fs = [f for f, _s in FACTS if f.fv & p.fv]
            for f, g in itertools.combinations(fs, 2):
                d = p - f - g
                if d.const is not None and d.const >= 0 or len(d.m) <= 2 and _nonneg(d, {}, 0):
                    r = True
                    break
    if not r and EQFACTS:
        for f in EQFACTS:
            if f.fv & p.fv:
                for d in (p - f, p + f):
                    if d.const is not None:
                        if d.const >= 0:
                            r = True
                    elif len(d.m) <= len(p.m) and _nonneg(d, {}, 0):
                        r = True
    _nn_cache[key] = r
    return r


POS_APPS = set()


def _atom_positive(a):
    return (a.kind == 'app' and a.args[0] in POS_APPS) or (P(a), True) in FACTS or \
        (a.kind == 'inv' and positive(a.args[0])) or \
        (a.kind == 'sum' and all(nonneg(n - 1) for n in a.args[1]) and positive(a.args[2]))


def positive(p):
    if is_int(p):
        return nonneg(p - 1)
    c = p.const
    if c is not None:
        return c > 0
    for f, s in FACTS:
        if s and (p - f).const is not None and (p - f).const >= 0:
            return True
    # all-positive monomials
    lo = [c for mo, c in p.m]
    if all(x > 0 for x in lo):
        ok = False
        for mo, c in p.m:
            good = True
            strict = True
            for a, e in mo:
                l, _h = atom_range(a)
                if l is None or l.const is None or l.const < 0:
                    if _atom_positive(a):
                        continue
                    if e % 2 == 0:
                        strict = False
                        continue
                    good = False
                    break
                if l.const == 0 and not _atom_positive(a):
                    strict = False
            if not good:
                return False
            if strict:
                ok = True
        return ok
    return False


def _nonneg(p, ext, depth):
    """corner elimination: p linear in a ranged atom is bounded by its values at the ends"""
    c = p.const
    if c is not None:
        return c >= 0
    if depth > 9:
        return False
    ats = p.atoms()
    # remainder form: b = q*D + M
    for a in ats:
        if a.kind == 'idiv' and a not in ext:
            pp, q = a.args
            if len(pp.m) == 1 and pp.m[0][1] == 1 and len(pp.m[0][0]) == 1 and pp.m[0][0][0][1] == 1:
                b = pp.m[0][0][0][0]
                if b in ats:
                    lo, hi = atom_range(a)
                    D = fresh(None)
                    VAR_RANGE[D] = (lo, hi)
                    Mv = fresh(q)
                    p2 = subst_top(subst_top(p, a, P(D)), b, q * P(D) + P(Mv))
                    return _nonneg(p2, ext, depth + 1)
    # choose an atom with a finite symbolic range, innermost first (largest id)
    best = None
    for a in sorted(ats, key=lambda a: -a.id):
        lo, hi = atom_range(a)
        lo, hi = ext.get(a, lo), hi
        if hi is not None and lo is not None:
            # must be linear, and no other range should mention it first
            dep = any(a in (atom_range(b)[1].fv if atom_range(b)[1] is not None else ())
                      or a in (atom_range(b)[0].fv if atom_range(b)[0] is not None else ())
                      for b in ats if b is not a)
            if dep:
                continue
            cc, r = linear_in(p, a)
            if cc is None:
                continue
            best = (a, lo, hi)
            break
    if best is not None:
        a, lo, hi = best
        w = hi - lo     # >= 0 because a exists
        ext2 = ext
        if len(w.m) <= 2:
            nonc = [(mo, c) for mo, c in w.m if mo != ()]
            cst = w - _mk(dict(nonc)) if nonc else w
            if len(nonc) == 1 and len(nonc[0][0]) == 1 and nonc[0][0][0][1] == 1 and nonc[0][1] == 1:
                d = nonc[0][0][0][0]
                need = -cst
                old = ext.get(d, atom_range(d)[0])
                if old is None or (old.const is not None and need.const is not None and need.const > old.const):
                    ext2 = dict(ext)
                    ext2[d] = need
        return (_nonneg(subst_top(p, a, lo), ext2, depth + 1)
                and _nonneg(subst_top(p, a, hi), ext2, depth + 1))
    # eliminate atoms with only a lower bound, innermost first; bounds may bring in further atoms
    q = p
    used = {}
    for _ in range(40):
        todo = []
        for a in q.atoms():
            if a in used or a in used.values():
                continue
            lo, hi = atom_range(a)
            lo = ext.get(a, lo)
            if lo is not None:
                todo.append((a, lo))
        if not todo:
            break
        free = [x for x in todo if not any(x[0] in l.fv for b, l in todo if b is not x[0])]
        a, lo = max(free or todo, key=lambda t: t[0].id)
        t = fresh(None)
        VAR_RANGE[t] = (ZERO, None)
        used[a] = t
        q = subst_top(q, a, lo + P(t))
    pos = set(used.values())
    for mo, c in q.m:
        for a, e in mo:
            if a in pos or a.kind in IDEM or e % 2 == 0:
                continue
            return False
        if c < 0:
            return False
    return True


# ----------------------------------------------------------------------------- division
def _lead(p, order):
    return max(p.m, key=lambda t: order(t[0]))


def divmod_poly(p, q):
    """p = k*q + r by single-divisor multivariate division (grlex)"""
    if q.const is not None:
        if q.const == 0:
            return None
        return scale(p, 1 / q.const), ZERO

    def order(mo):
        return (sum(e for _, e in mo), tuple(sorted(((a.id, e) for a, e in mo), reverse=True)))
    qm, qc = _lead(q, order)
    k, r = ZERO, ZERO
    n = 0
    while p.m:
        n += 1
        if n > 200:
            return None
        pm, pc = _lead(p, order)
        d = dict(pm)
        ok = True
        for a, e in qm:
            if d.get(a, 0) < e:
                ok = False
                break
            d[a] -= e
        if ok:
            t = _mk({tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id)): pc / qc})
            k = add(k, t)
            p = p - mul_raw(t, q)
        else:
            t = _mk({pm: pc})
            r = add(r, t)
            p = p - t
    return k, r


def mul_raw(p, q):
    return mul(p, q)


def divexact(p, q):
    if q.m == ():
        return None
    kr = divmod_poly(p, q)
    if kr is None:
        return None
    k, r = kr
    if r.m == () and is_int(k):
        return k
    return None


def idiv(p, q):
    """floor(p/q), q > 0"""
    p, q = P(p), P(q)
    if q.const == 1:
        return p
    if p.const is not None and q.const is not None:
        return P(p.const // q.const)
    if p is ZERO:
        return ZERO
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1:
        a = p.m[0][0][0][0]
        if a.kind == 'app' and a.args[0] == 'rowex' and a.args[3] is q:
            return a.args[1]
    kr = divmod_poly(p, q)
    if kr is not None:
        k, r = kr
        if not is_int(k):
            # split integer and fractional coefficients
            ki = _mk({mo: Fraction(c.numerator // c.denominator) for mo, c in k.m})
            k = ki
            r = p - mul(k, q)
        if r is ZERO:
            return k
        if nonneg(r) and nonneg(q - 1 - r):
            return k
        if nonneg(-r - 1) and nonneg(r + q):
            return k - 1
        p, base = r, k
    else:
        base = ZERO
    # nested: q = g*q2 with p = g*k + r, 0 <= r < g
    if len(q.m) == 1 and len(q.m[0][0]) >= 1:
        mo, c = q.m[0]
        facs = [P(a) for a, e in mo for _ in range(e)]
        if c != 1:
            facs.append(P(c))
        if len(facs) > 1:
            for n in range(1, len(facs)):
                for sub in itertools.combinations(range(len(facs)), n):
                    g = ONE
                    for i in sub:
                        g = mul(g, facs[i])
                    kr = divmod_poly(p, g)
                    if kr is None:
                        continue
                    k, r = kr
                    if r is ZERO or not is_int(k):
                        if r is ZERO and is_int(k):
                            q2 = divexact(q, g)
                            return base + idiv(k, q2)
                        continue
                    if nonneg(r) and nonneg(g - 1 - r):
                        q2 = divexact(q, g)
                        if q2 is not None:
                            return base + idiv(k, q2)
    # idiv(idiv(p,a),b) -> idiv(p, a*b)
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1:
        a = p.m[0][0][0][0]
        if a.kind == 'idiv':
            return base + idiv(a.args[0], mul(a.args[1], q))
    return base + P(intern('idiv', (p, q), 'i'))


def imod(p, q):
    p, q = P(p), P(q)
    return p - mul(q, idiv(p, q))


def inv(p):
    p = P(p)
    c = p.const
    if c is not None:
        if c == 0:
            raise EngineError("division by the constant zero")
        return P(1 / c)
    # pull out content
    k = p.m[0][1]
    if k != 1:
        return scale(inv(scale(p, 1 / k)), 1 / k)
    if len(p.m) == 1:
        r = ONE
        for a, e in p.m[0][0]:
            if a.kind == 'inv':
                t = a.args[0]
            else:
                t = P(intern('inv', (P(a),), 'r'))
            for _ in range(e):
                r = mul(r, t)
        return r
    return P(intern('inv', (p,), 'r'))


def psqrt(p):
    """sqrt of a polynomial: exact when a perfect square of a provably nonneg poly"""
    p = P(p)
    c = p.const
    if c is not None and c >= 0:
        from math import isqrt
        n, d = c.numerator, c.denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return P(Fraction(isqrt(n), isqrt(d)))
    # try univariate-ish square completion: p = (a + b)^2 with lead monomials
    sq = _poly_sqrt(p)
    if sq is not None:
        if nonneg(sq):
            return sq
        if nonneg(-sq):
            return -sq
    return P(intern('fn', ('sqrt', p), 'r'))


def _poly_sqrt(p):
    if not p.m:
        return ZERO

    def order(mo):
        return (sum(e for _, e in mo), tuple(sorted(((a.id, e) for a, e in mo), reverse=True)))

    def msq(mo, c):
        from math import isqrt
        if c < 0 or isqrt(c.numerator) ** 2 != c.numerator or isqrt(c.denominator) ** 2 != c.denominator:
            return None
        if any(e % 2 for _, e in mo):
            return None
        return _mk({tuple((a, e // 2) for a, e in mo): Fraction(isqrt(c.numerator), isqrt(c.denominator))})
    mo, c = _lead(p, order)
    r = msq(mo, c)
    if r is None:
        return None
    lead = r
    rest = p - mul(r, r)
    for _ in range(10):
        if not rest.m:
            return r
        mo, c = _lead(rest, order)
        t = divmod_poly(_mk({mo: c}), scale(lead, 2))
        if t is None or t[1].m:
            return None
        r = r + t[0]
        rest = p - mul(r, r)
    return None


# ----------------------------------------------------------------------------- guards
def norm_int_guard(p):
    """divide integer poly by the gcd of its non-constant coefficients, floor the constant"""
    cs = [c for mo, c in p.m if mo != ()]
    if not cs:
        return p
    den = 1
    for c in cs:
        den = den * c.denominator // gcd(den, c.denominator)
    k0 = dict(p.m).get((), F0)
    den = den * k0.denominator // gcd(den, k0.denominator)
    g = 0
    for c in cs:
        g = gcd(g, int(c * den))
    s = Fraction(den, g)
    d = {mo: c * s for mo, c in p.m}
    if () in d:
        d[()] = Fraction(d[()].numerator // d[()].denominator)
    return _mk(d)


def two_valued(p, f):
    """[f(p)] for p = c*a + r, a an integer function value in [l, l+1] with constant l: linear interpolation"""
    mo = p.m[-1][0] if p.m[-1][0] != () else p.m[0][0]
    if len(p.m) > 2 or len(mo) != 1 or mo[0][1] != 1 or mo[0][0].kind != 'app':
        return None
    if len(p.m) == 2 and () not in (p.m[0][0], p.m[1][0]):
        return None
    a = mo[0][0]
    if a.sort != 'i':
        return None
    lo, hi = atom_range(a)
    if lo is None or hi is None or lo.const is None or hi.const is None or hi.const - lo.const != 1:
        return None
    d = dict(p.m)
    v = [d[mo] * x.const + d.get((), F0) for x in (lo, hi)]
    f0, f1 = (P(1 if f(x) else 0) for x in v)
    return mul(f0, hi - P(a)) + mul(f1, P(a) - lo)


def guard_split(p, f):
    """f(p) by cases on an Iverson bracket that p contains: G*f(p[G:=1]) + (1-G)*f(p[G:=0])"""
    gs = {}
    for mo, _ in p.m:
        for a, _e in mo:
            if a.kind in ('ge', 'eq'):
                gs[a] = True
    if not gs:
        return None
    pairs = {}
    for g in gs:
        c = g.kind == 'ge' and -1 - g.args[0]
        for h in pairs:
            if g.kind == 'ge' and h.kind == 'ge' and h.args[0] is c:
                pairs[h] = g
                break
        else:
            pairs[g] = None
    if len(pairs) > 2:
        return None
    g = min(pairs, key=lambda a: a.id)
    h = pairs[g]

    def with_(v):
        out = {}
        for mo, c in p.m:
            m2 = []
            zero = False
            for a, e in mo:
                x = v if a is g else (1 - v) if (h is not None and a is h) else None
                if x is None:
                    m2.append((a, e))
                elif x == 0:
                    zero = True
                    break
            if not zero:
                k = tuple(m2)
                out[k] = out.get(k, F0) + c
        return _mk({k: c for k, c in out.items() if c != 0})
    f1, f0 = f(with_(1)), f(with_(0))
    if f1 is f0:
        return f1
    return mul(P(g), f1) + mul(ONE - P(g) if h is None else P(h), f0)


NEGINF = []        # the atom that stands for minus infinity as start of a running maximum


def neginf():
    if not NEGINF:
        NEGINF.append(intern('var', ('neginf',), 'r'))
    return P(NEGINF[0])


def below_all(p, f):
    """a comparison with minus infinity"""
    c, r = linear_in(p, NEGINF[0])
    if c is not None and c.const is not None and c is not ZERO and NEGINF[0] not in r.fv:
        return ONE if c.const < 0 else ZERO
    return guard_split(p, f)


def ge0(p):
    """Iverson [p >= 0]"""
    p = P(p)
    c = p.const
    if c is not None:
        return ONE if c >= 0 else ZERO
    if NEGINF and NEGINF[0] in p.fv:
        r = below_all(p, ge0)
        if r is not None:
            return r
    r = guard_split(p, ge0)
    if r is not None:
        return r
    if len(p.m) <= 2:
        r = two_valued(p, lambda x: x >= 0)
        if r is not None:
            return r
    if is_int(p):
        p = norm_int_guard(p)
        if nonneg(p):
            return ONE
        if nonneg(-p - 1):
            return ZERO
    else:
        p = scale(p, 1 / abs(p.m[-1][1]))
        if nonneg(p):
            return ONE
        if positive(-p):
            return ZERO
    if p in EQFACTS or -p in EQFACTS:
        return ONE
    if len(p.m) > 2 and is_int(p):
        r = _radix(p)
        if r is not None:
            if nonneg(r[2]):
                return ge0(r[1])
            if nonneg(-1 - r[2]):
                return ge0(r[1] - 1)
        else:
            r = _radix(p + 1)
            if r is not None and nonneg(-r[2]):
                return ge0(r[1] - 1)
    return P(intern('ge', (p,), 'i'))


def _radix(p):
    """(S, u, v) with p = S*u + v, 0 <= v < S or -S < v < S, for a size S that multiplies a varying term"""
    cands = {}
    for mo, c in p.m:
        if len(mo) == 1 and mo[0][1] == 1:
            continue
        for a, e in mo:
            if (a.kind == 'var' and a.args[0].startswith('d_')) and a not in cands and len(mo) + e > 2:
                cands[a] = True
    for a in sorted(cands, key=lambda a: a.id):
        um, vm = {}, {}
        for mo, c in p.m:
            d = dict(mo)
            if a in d and c.denominator == 1:
                um[tuple((x, e - (x is a)) for x, e in mo if e > (x is a))] = c
            else:
                vm[mo] = c
        v, u = _mk(vm), _mk(um)
        if not is_int(u) or not is_int(v) or len(v.m) > 6:
            continue
        S = P(a)
        if nonneg(v + S - 1) and nonneg(S - 1 - v):
            return S, u, v
    return None


def gt0(p):
    p = P(p)
    if is_int(p):
        return ge0(p - 1)
    c = p.const
    if c is not None:
        return ONE if c > 0 else ZERO
    if NEGINF and NEGINF[0] in p.fv:
        r = below_all(p, gt0)
        if r is not None:
            return r
    p = scale(p, 1 / abs(p.m[-1][1]))
    if positive(p):
        return ONE
    if nonneg(-p):
        return ZERO
    if (p, True) in FACTS:
        return ONE
    return P(intern('gt', (p,), 'i'))


def eq0(p):
    p = P(p)
    c = p.const
    if c is not None:
        return ONE if c == 0 else ZERO
    r = guard_split(p, eq0)
    if r is not None:
        return r
    if len(p.m) <= 2:
        r = two_valued(p, lambda x: x == 0)
        if r is not None:
            return r
    k = p.m[-1][1]
    p = scale(p, 1 / k) if k != 1 else p
    if is_int(p) or all(atom_is_int(a) for a in p.atoms()):
        den = 1
        for _, c in p.m:
            den = den * c.denominator // gcd(den, c.denominator)
        p = scale(p, den)
        g = 0
        for mo, c in p.m:
            if mo != ():
                g = gcd(g, int(c))
        k0 = dict(p.m).get((), F0)
        if k0 % g != 0:
            return ZERO
        if g > 1:
            p = scale(p, Fraction(1, g))
        if nonneg(p - 1) or nonneg(-p - 1):
            return ZERO
    else:
        if positive(p) or positive(-p):
            return ZERO
    if p in EQFACTS or -p in EQFACTS:
        return ONE
    if len(p.m) == 2 and p.m[0][1] == -p.m[1][1] and all(len(mo) == 1 and mo[0][1] == 1 and is_bit(mo[0][0])
                                                         for mo, _ in p.m):
        a, b = [P(mo[0][0]) for mo, _ in p.m]
        return ONE - a - b + scale(mul(a, b), 2)
    if len(p.m) > 2 and is_int(p):
        r = _radix(p)
        if r is not None:
            return mul(eq0(r[1]), eq0(r[2]))
    # equation between Iverson brackets
    return P(intern('eq', (p,), 'i'))


def bnot(p):
    return ONE - p


def band(p, q):
    return mul(p, q)


def bor(p, q):
    return p + q - mul(p, q)


def ite(c, a, b):
    """c is a 0/1 poly"""
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    return add(mul(c, a), mul(neg_guard(c), b))


def neg_guard(c):
    """1 - c, keeping interval guards as guards (so that sums can use them as ranges)"""
    if len(c.m) == 1 and c.m[0][1] == 1 and len(c.m[0][0]) == 1:
        a = c.m[0][0][0][0]
        if a.kind == 'ge':
            p = a.args[0]
            return ge0(-p - 1) if is_int(p) else gt0(-p)
        if a.kind == 'gt':
            return ge0(-a.args[0])
    return ONE - c


def pmax(a, b):
    if nonneg(a - b):
        return a
    if nonneg(b - a):
        return b
    c = ge0(a - b)
    return ite(c, a, b)


def pmin(a, b):
    return -pmax(-a, -b)


def pabs(a):
    if nonneg(a):
        return a
    if nonneg(-a):
        return -a
    return ite(ge0(a), a, -a)


# ----------------------------------------------------------------------------- substitution
def subst(p, m):
    """m: {var atom: Poly}"""
    if not m:
        return p
    keys = frozenset(m)
    if not (p.fv & keys):
        return p
    return _subst(p, m, keys, {})


def _subst(p, m, keys, memo):
    if not (p.fv & keys):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    parts = []
    for mo, c in p.m:
        t = _mk({(): c})
        keep = []
        for a, e in mo:
            if a.fv & keys:
                s = _subst_atom(a, m, keys, memo)
                for _ in range(e):
                    t = mul(t, s)
                    if not t.m:
                        break
            else:
                keep.append((a, e))
            if not t.m:
                break
        if t.m and keep:
            t = mul(t, _mk({tuple(keep): F1}))
        parts.append(t)
    r = addall(parts)
    memo[p] = r
    return r


def _subst_arg(x, m, keys, memo):
    if isinstance(x, Poly):
        return _subst(x, m, keys, memo)
    if isinstance(x, Obj):
        if x.fv & keys:
            return Obj(x.name, tuple(_subst_arg(y, m, keys, memo) for y in x.args))
        return x
    return x


def subst_obj(o, m):
    return _subst_arg(o, m, frozenset(m), {})


def _subst_atom(a, m, keys, memo):
    if a in memo:
        return memo[a]
    k = a.kind
    if k == 'var':
        r = m.get(a)
        if r is None:
            r = P(a)
    elif k == 'app':
        r = app(a.args[0], tuple(_subst_arg(x, m, keys, memo) for x in a.args[1:]), a.sort)
    elif k == 'bv':
        r = bapp(a.args[0], tuple(_subst_arg(x, m, keys, memo) for x in a.args[1:]))
    elif k == 'ge':
        r = ge0(_subst(a.args[0], m, keys, memo))
    elif k == 'gt':
        r = gt0(_subst(a.args[0], m, keys, memo))
    elif k == 'eq':
        r = eq0(_subst(a.args[0], m, keys, memo))
    elif k == 'idiv':
        r = idiv(_subst(a.args[0], m, keys, memo), _subst(a.args[1], m, keys, memo))
    elif k == 'inv':
        r = inv(_subst(a.args[0], m, keys, memo))
    elif k == 'fn':
        r = mkfn(a.args[0], tuple(_subst_arg(x, m, keys, memo) for x in a.args[1:]))
    elif k == 'sum':
        bs, rngs, body = open_binder(a)
        bs2 = [fresh(subst(n, m), base='b') for n in rngs]
        body = subst(body, dict(zip(bs, map(P, bs2))))
        body = subst(body, m)
        r = body
        r = mk_sums(list(zip(bs2, [subst(n, m) for n in rngs])), body)
    elif k in ('max', 'argmax', 'all'):
        bs, rngs, body = open_binder(a)
        n2 = subst(rngs[0], m)
        b2 = fresh(n2, base='b')
        body = subst(subst(body, {bs[0]: P(b2)}), m)
        r = {'max': mk_max, 'argmax': mk_argmax, 'all': mk_all}[k](b2, n2, body)
    else:
        raise EngineError("subst in %s" % k)
    memo[a] = r
    return r


def mkfn(name, args):
    if name == 'sqrt':
        return psqrt(args[0])
    return P(intern('fn', (name,) + tuple(args), 'r'))


def open_binder(a):
    """bound vars, ranges, body of a binder atom (bound vars as stored)"""
    return a.args[0], a.args[1], a.args[2]


# ----------------------------------------------------------------------------- binders
SUM_SPLITS = []   # functions(binder atom, range poly, monomial atoms) -> list of replacement or None


def mk_sum(v, n, body):
    """sum over v in [0,n); v a fresh var atom"""
    return mk_sums([(v, P(n))], body)


def mk_sums(binders, body):
    """sum of body over the product of ranges"""
    out = []
    work = [(tuple(binders), mo, c) for mo, c in body.m]
    n = 0
    while work:
        n += 1
        if n > 20000:
            raise EngineError("sum normalisation does not terminate")
        bs, mo, c = work.pop()
        r = _sum_step(list(bs), mo)
        if r[0] == 'done':
            out.append(scale(r[1], c))
        else:
            for bs2, p2 in r[1]:
                for mo2, c2 in p2.m:
                    work.append((tuple(bs2), mo2, c * c2))
    return addall(out)


def _sum_step(bs, mo):
    """either ('done', poly) or ('more', [(binders, poly)...])"""
    bvars = [b for b, _ in bs]
    bset = frozenset(bvars)
    # empty ranges
    for b, n in bs:
        if n.const is not None and n.const <= 0:
            return 'done', ZERO
    # single ranges
    for i, (b, n) in enumerate(bs):
        if n.const is not None and n.const == 1:
            p = subst(_mk({mo: F1}), {b: ZERO})
            return 'more', [(bs[:i] + bs[i + 1:], p)]
    # ranges that depend on a condition: one sum for each case
    for i, (b, n) in enumerate(bs):
        for a in n.atoms():
            if a.kind in IDEM and not (a.fv & bset):
                m = _mk({mo: F1})
                return 'more', [(bs[:i] + [(b, _with_guard(n, a, 1))] + bs[i + 1:], mul(P(a), m)),
                                (bs[:i] + [(b, _with_guard(n, a, 0))] + bs[i + 1:], m - mul(P(a), m))]
    # dependent ranges: make them guards
    for i, (b, n) in enumerate(bs):
        dep = n.fv & bset
        if dep:
            up = n
            for d in dep:
                nd = dict(bs)[d]
                c, r = linear_in(up, d)
                if c is None or (d in c.fv) or (d in r.fv):
                    raise EngineError("sum range depends nonlinearly on a bound variable")
                if nonneg(c):
                    up = subst(up, {d: nd - 1})
                elif nonneg(-c):
                    up = subst(up, {d: ZERO})
                else:
                    raise EngineError("sum range dependence with unknown sign")
            b2 = fresh(up, base='b')
            p = mul(ge0(subst(n, {}) - 1 - P(b2)), subst(_mk({mo: F1}), {b: P(b2)}))
            return 'more', [(bs[:i] + [(b2, up)] + bs[i + 1:], p)]
    # flatten inner sums that mention a bound variable
    for a, e in mo:
        if a.kind == 'sum' and (a.fv & bset):
            ib, rngs, body = open_binder(a)
            nb = []
            p = _mk({tuple(t for t in mo if t[0] is not a): F1})
            for _ in range(e):
                fr = [fresh(n, base='b') for n in rngs]
                p = mul(p, subst(body, dict(zip(ib, map(P, fr)))))
                nb += list(zip(fr, rngs))
            return 'more', [(bs + nb, p)]
    # division of an offset index: split the range at the offset
    for a, e in mo:
        for d in _idivs(a, bset):
            p, q = d.args
            if q.fv & bset:
                continue
            for b, n in bs:
                if b not in p.fv or divexact(n, q) is not None:
                    continue
                c, r = linear_in(p, b)
                if c is not ONE or b in r.fv or r.fv & bset:
                    continue
                s = -r
                if s.const == 0 or not dim_level(s) or not nonneg(s) or not nonneg(n - s) or divexact(n - s, q) is None:
                    continue
                others = [x for x in bs if x[0] is not b]
                b1, b2 = fresh(s, base='b'), fresh(n - s, base='b')
                m = _mk({mo: F1})
                return 'more', [(others + [(b1, s)], subst(m, {b: P(b1)})),
                                (others + [(b2, n - s)], subst(m, {b: P(b2) + s}))]
    # equality guards
    for a, e in mo:
        if a.kind == 'eq' and (a.fv & bset):
            p = a.args[0]
            for b, n in bs:
                if b not in p.fv:
                    continue
                c, r = linear_in(p, b)
                if c is None or c.const is None or abs(c.const) != 1 or (b in r.fv):
                    continue
                e_ = scale(r, -1 / c.const)
                if not is_int(e_):
                    continue
                # do not create dependence of another binder's range on b (already excluded)
                rest = _mk({tuple(t for t in mo if t[0] is not a): F1})
                q = mul(subst(rest, {b: e_}), mul(ge0(e_), ge0(n - 1 - e_)))
                return 'more', [([x for x in bs if x[0] is not b], q)]
    # mixed radix
    for a, e in mo:
        for d in _idivs(a, bset):
            p, q = d.args
            if q.fv & bset:
                continue
            for b, n in bs:
                if b not in p.fv:
                    continue
                c, r = linear_in(p, b)
                if c is None or b in r.fv or c is ZERO:
                    continue
                if c.const == 1:
                    if divexact(n, q) is None:
                        continue
                    # choose the finest divisor for b among all idivs of the mono
                    qq = _finest(mo, b, n, q)
                else:
                    qq = divexact(q, c)
                    if qq is None or qq.const == 1 or not is_int(qq) or not positive(qq) or divexact(n, qq) is None:
                        continue
                k = divexact(n, qq)
                if k is ONE or k.const == 1:
                    continue
                b1, b2 = fresh(k, base='b'), fresh(qq, base='b')
                p2 = subst(_mk({mo: F1}), {b: mul(P(b1), qq) + P(b2)})
                return 'more', [([x for x in bs if x[0] is not b] + [(b1, k), (b2, qq)], p2)]
    # registered splits (triangular unranking, mask unranking)
    for f in SUM_SPLITS:
        for i, (b, n) in enumerate(bs):
            r = f(b, n, mo)
            if r is not None:
                nb, val, guard = r
                p2 = mul(guard, subst(_mk({mo: F1}), {b: val}))
                return 'more', [(bs[:i] + bs[i + 1:] + nb, p2)]
    # interval guards -> ranges
    for a, e in mo:
        if a.kind == 'ge' and (a.fv & bset):
            p = a.args[0]
            if not is_int(p):
                continue
            for b in [b for b in bvars if b in p.fv]:
                c, r = linear_in(p, b)
                if c is None or (b in r.fv) or (c.const is None and b in c.fv):
                    continue
                if (len(p.fv & bset) != 1) and c.const is not None and abs(c.const) == 1:
                    continue
                cr = _unit_interval(c, r)
                if cr is None:
                    continue
                c, r = cr
                n = dict(bs)[b]
                rest = _mk({tuple(t for t in mo if t[0] is not a): F1})
                others = [x for x in bs if x[0] is not b]
                if c.const > 0:
                    lo = -r        # b >= lo
                    if nonneg(-lo):
                        return 'more', [(bs, rest)]
                    if nonneg(lo - n):
                        return 'done', ZERO
                    if dim_level(lo) and nonneg(lo) and nonneg(n - lo):
                        b2 = fresh(n - lo, base='b')
                        return 'more', [(others + [(b2, n - lo)], subst(rest, {b: P(b2) + lo}))]
                else:
                    hi = r + 1     # b < hi
                    if nonneg(hi - n):
                        return 'more', [(bs, rest)]
                    if nonneg(-hi):
                        return 'done', ZERO
                    if dim_level(hi) and nonneg(hi) and nonneg(n - hi):
                        b2 = fresh(hi, base='b')
                        return 'more', [(others + [(b2, hi)], subst(rest, {b: P(b2)}))]
    # a variable that occurs in one guard only: count its values
    for a, e in mo:
        if a.kind == 'ge' and len(a.fv & bset) > 1 and is_int(a.args[0]):
            p = a.args[0]
            for b in [b for b in bvars if b in p.fv]:
                if any(b in t[0].fv for t in mo if t[0] is not a) or \
                        any(b in n.fv for x, n in bs if x is not b):
                    continue
                c, r = linear_in(p, b)
                if c is None or b in r.fv or c.const is None or abs(c.const) != 1:
                    continue
                n = dict(bs)[b]
                count = n + r if c.const > 0 else r + 1
                if nonneg(count) and nonneg(n - count):
                    rest = _mk({tuple(t for t in mo if t[0] is not a): F1})
                    return 'more', [([x for x in bs if x[0] is not b], mul(rest, count))]
    # canonical orientation of remaining guards inside the sum
    for a, e in mo:
        if a.kind in ('ge', 'gt') and (a.fv & bset):
            p = a.args[0]
            if not canonical_orientation(p):
                rest = _mk({tuple(t for t in mo if t[0] is not a): F1})
                g = neg_guard(P(a))
                if g.const is None and len(g.m) == 1:
                    return 'more', [(bs, rest - mul(rest, g))]
    # interval guards inside arguments: split the range where they change
    for a, e in mo:
        for g in _inner_guards(a, bset):
            p = g.args[0]
            inv_b = [b for b in bvars if b in p.fv]
            if len(inv_b) != 1 or not is_int(p):
                continue
            b = inv_b[0]
            c, r = linear_in(p, b)
            if c is None or (b in r.fv):
                continue
            cr = _unit_interval(c, r)
            if cr is None:
                continue
            c, r = cr
            n = dict(bs)[b]
            s = -r if c.const > 0 else r + 1
            if not dim_level(s) or not nonneg(s) or not nonneg(n - s) or nonneg(-s) or nonneg(s - n):
                continue
            others = [x for x in bs if x[0] is not b]
            b1, b2 = fresh(s, base='b'), fresh(n - s, base='b')
            m = _mk({mo: F1})
            return 'more', [(others + [(b1, s)], subst(m, {b: P(b1)})),
                            (others + [(b2, n - s)], subst(m, {b: P(b2) + s}))]
    # few summands are written out
    for i, (b, n) in enumerate(bs):
        if n.const is not None and n.const <= 5:
            m = _mk({mo: F1})
            return 'more', [(bs[:i] + bs[i + 1:], subst(m, {b: P(j)})) for j in range(int(n.const))]
    # factor out, connected components
    return 'done', _close_sum(bs, mo)


def _with_guard(p, a, v):
    """p with the guard atom a replaced by its truth value at top level"""
    d = []
    for mo, c in p.m:
        if any(x is a for x, _ in mo):
            if v:
                d.append(scale(_mk({tuple(t for t in mo if t[0] is not a): F1}), c))
        else:
            d.append(scale(_mk({mo: F1}), c))
    return addall(d)


def _unit_interval(c, r):
    """[c*b + r >= 0] as a guard with unit coefficient, when the division is exact enough to stay simple"""
    if c.const is not None and abs(c.const) == 1:
        return c, r
    if not is_int(c) or not is_int(r):
        return None
    if positive(c):
        q = idiv(r, c)
        u = ONE
    elif positive(-c):
        q = idiv(r, -c)
        u = -ONE
    else:
        return None
    if not dim_level(q) or any(a.kind == 'idiv' for mo, _ in q.m for a, _e in mo):
        return None
    return u, q


def _inner_guards(a, bset):
    """ge atoms on bound variables inside the arguments of a (not under another binder)"""
    out = []

    def rec(x, top):
        if isinstance(x, Poly):
            if x.fv & bset:
                for mo, _ in x.m:
                    for y, _e in mo:
                        rec(y, False)
        elif isinstance(x, Atom):
            if not (x.fv & bset):
                return
            if x.kind == 'ge' and not top:
                out.append(x)
            if x.kind not in BINDERS:
                for y in x.args:
                    rec(y, False)
        elif isinstance(x, tuple):
            for y in x:
                rec(y, False)
    rec(a, True)
    return out


def dim_level(p):
    return all('~' not in v.args[0] and '$' not in v.args[0] for v in p.fv)




def canonical_orientation(p):
    """deterministic choice between p and its negation, invariant under bound renaming"""
    k = shape_key(p)
    q = -p - 1 if is_int(p) else -p
    k2 = shape_key(q)
    return k <= k2


def shape_key(p):
    # invariant under renaming of bound vars: multiset of (coef, shape of mono) - coarse
    return tuple(sorted((c, tuple(sorted((atom_shape(a), e) for a, e in mo))) for mo, c in p.m))


def atom_shape(a):
    if a.kind == 'var':
        n = a.args[0]
        if n.startswith('$') or '~' in n:
            r = VAR_RANGE.get(a)
            return ('b', '')
        return ('v', n)
    if a.kind in ('app', 'bv', 'fn'):
        return (a.kind, str(a.args[0]))
    return (a.kind, '')


def _idivs(a, bset):
    """idiv atoms mentioning bound vars anywhere inside atom a"""
    out = []
    seen = set()

    def rec(x):
        if isinstance(x, Poly):
            if x in seen or not (x.fv & bset):
                return
            seen.add(x)
            for mo, _ in x.m:
                for y, _e in mo:
                    rec(y)
        elif isinstance(x, Atom):
            if x in seen or not (x.fv & bset):
                return
            seen.add(x)
            if x.kind == 'idiv':
                out.append(x)
            for y in x.args:
                rec(y)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, Obj):
            for y in x.args:
                rec(y)
    rec(a)
    return out


def _finest(mo, b, n, q):
    best = q
    for a, e in mo:
        for d in _idivs(a, frozenset((b,))):
            p2, q2 = d.args
            if b not in p2.fv:
                continue
            if divexact(best, q2) is not None and divexact(n, q2) is not None:
                best = q2
    return best


def _close_sum(bs, mo):
    bset = frozenset(b for b, _ in bs)
    outer = []
    inner = []
    for a, e in mo:
        (inner if a.fv & bset else outer).append((a, e))
    # connected components
    comp = {b: {b} for b, _ in bs}
    for a, e in inner:
        vs = [b for b in a.fv & bset]
        u = set()
        for b in vs:
            u |= comp[b]
        for b in u:
            comp[b] = u
    res = _mk({tuple(outer): F1})
    done = set()
    for b, n in bs:
        if b in done:
            continue
        g = comp[b]
        done |= g
        at = [(a, e) for a, e in inner if a.fv & g]
        if not at:
            if nonneg(n):
                res = mul(res, n)
            else:
                res = mul(res, pmax(n, ZERO))
            continue
        gb = [(x, m) for x, m in bs if x in g]
        # polynomial summation: body is a power of the single binder
        if len(gb) == 1 and len(at) == 1 and at[0][0] is gb[0][0] and nonneg(gb[0][1]):
            n_ = gb[0][1]
            if at[0][1] == 1:
                res = mul(res, scale(mul(n_, n_ - 1), Fraction(1, 2)))
                continue
            if at[0][1] == 2:
                res = mul(res, scale(mul(mul(n_, n_ - 1), scale(n_, 2) - 1), Fraction(1, 6)))
                continue
        res = mul(res, P(_canon_binder('sum', gb, at)))
    return res


def _canon_binder(kind, gb, at):
    """choose the canonical naming of bound variables"""
    h = max([a.h for a, _ in at] + [n.h for _, n in gb]) + 1
    k = len(gb)
    names = [bvar(h, i) for i in range(k)]
    body = _mk({tuple(sorted(at, key=lambda t: t[0].id)): F1})
    if k == 1:
        b, n = gb[0]
        nb = rename(body, {b: names[0]})
        return intern(kind, ((names[0],), (n,), nb), sum_sort(nb))
    # colour refinement to prune permutations
    col = {b: (id_of(n), tuple(sorted((atom_shape(a), e) for a, e in at if b in a.fv))) for b, n in gb}
    groups = {}
    for b, n in gb:
        groups.setdefault(col[b], []).append((b, n))
    keys = sorted(groups)
    best = None
    perms = [list(itertools.permutations(groups[x])) for x in keys]
    tot = 1
    for x in perms:
        tot *= len(x)
    if tot > 5040:
        raise EngineError("too many bound variables to canonicalise")
    for choice in itertools.product(*perms):
        order = [t for grp in choice for t in grp]
        nb = rename(body, {b: names[i] for i, (b, _n) in enumerate(order)})
        key = tuple((_mono_key(mo), c) for mo, c in nb.m)
        if best is None or key < best[0]:
            best = (key, tuple(n for _, n in order), nb)
    return intern(kind, (tuple(names), best[1], best[2]), sum_sort(best[2]))


def sum_sort(body):
    return 'i' if is_int(body) else 'r'


_pid = {}


def id_of(p):
    r = _pid.get(p)
    if r is None:
        r = len(_pid)
        _pid[p] = r
    return r


_ren_cache = {}


def rename(p, m):
    """pure variable renaming without re-simplification of guards"""
    keys = frozenset(m)
    memo = {}

    def rp(x):
        if not (x.fv & keys):
            return x
        if x in memo:
            return memo[x]
        d = {}
        for mo, c in x.m:
            mo2 = tuple(sorted(((ra(a), e) for a, e in mo), key=lambda t: t[0].id))
            d[mo2] = d.get(mo2, F0) + c
        r = _mk(d)
        memo[x] = r
        return r

    def ra(a):
        if not (a.fv & keys):
            return a
        if a in memo:
            return memo[a]
        if a.kind == 'var':
            r = m.get(a, a)
        else:
            r = intern(a.kind, tuple(rx(y) for y in a.args), a.sort)
            if a.kind in ('eq',):
                # sign normalisation depends on monomial order
                p = r.args[0]
                if p.m and p.m[-1][1] < 0:
                    r = intern('eq', (-p,), 'i')
        memo[a] = r
        return r

    def rx(y):
        if isinstance(y, Poly):
            return rp(y)
        if isinstance(y, Atom):
            return ra(y)
        if isinstance(y, tuple):
            return tuple(rx(z) for z in y)
        if isinstance(y, Obj):
            return Obj(y.name, tuple(rx(z) for z in y.args)) if y.fv & keys else y
        return y
    return rp(p)


def replace_atom(p, a, q):
    """p with every occurrence of the atom a replaced by q"""
    v = fresh(None, base='x')
    VAR_RANGE[v] = atom_range(a)
    memo = {a: v}

    def rp(x):
        if x not in memo:
            d = {}
            for mo, c in x.m:
                mo2 = tuple(sorted(((ra(y), e) for y, e in mo), key=lambda t: t[0].id))
                d[mo2] = d.get(mo2, F0) + c
            r = _mk(d)
            memo[x] = x if r is x or not r.fv - x.fv else r
        return memo[x]

    def ra(y):
        if y not in memo:
            r = y if y.kind == 'var' else intern(y.kind, tuple(rx(z) for z in y.args), y.sort)
            memo[y] = r if v in r.fv else y
        return memo[y]

    def rx(y):
        if isinstance(y, Poly):
            return rp(y)
        if isinstance(y, Atom):
            return ra(y)
        if isinstance(y, tuple):
            return tuple(rx(z) for z in y)
        if isinstance(y, Obj):
            return Obj(y.name, tuple(rx(z) for z in y.args))
        return y
    r = rp(p)
    return subst(r, {v: q}) if v in r.fv else p


def mk_max(v, n, body):
    n = P(n)
    if not (v in body.fv):
        return body
    if n.const == 1:
        return subst(body, {v: ZERO})
    if n.const is not None and n.const <= 4:
        r = subst(body, {v: ZERO})
        for i in range(1, int(n.const)):
            r = pmax(r, subst(body, {v: P(i)}))
        return r
    out, inn = {}, {}
    for mo, c in body.m:
        if any(v in a.fv for a, _ in mo):
            inn[mo] = c
        else:
            out[mo] = c
    return _mk(out) + P(_canon1('max', v, n, _mk(inn)))


def mk_argmax(v, n, body):
    n = P(n)
    if not (v in body.fv):
        return ZERO
    if n.const == 1:
        return ZERO
    inn = {mo: c for mo, c in body.m if any(v in a.fv for a, _ in mo)}
    b = _mk(inn)
    return P(_canon1('argmax', v, n, b))


def mk_all(v, n, body):
    """Iverson of forall v in [0,n): body (0/1 poly)"""
    n = P(n)
    if body is ONE or (n.const is not None and n.const <= 0):
        return ONE
    if n.const is not None and n.const <= 4:
        r = ONE
        for i in range(int(n.const)):
            r = mul(r, subst(body, {v: P(i)}))
        return r
    if body is ZERO:
        return ge0(-n)
    if not (v in body.fv):
        e = ge0(-n)
        return bor(e, body)
    a = _canon1('all', v, n, body)
    if a in BFACTS:
        return P(BFACTS[a])
    return P(a)


def _canon1(kind, v, n, body):
    h = max(body.h, n.h) + 1
    name = bvar(h, 0)
    nb = rename(body, {v: name})
    srt = {'max': 'i' if is_int(nb) else 'r', 'argmax': 'i', 'all': 'i'}[kind]
    return intern(kind, ((name,), (n,), nb), srt)


# ----------------------------------------------------------------------------- triangular unranking
def tri_i(p):
    return app('tri_i', (p,), 'i')


def tri_j(p):
    p = P(p)
    i = tri_i(p)
    return p - scale(mul(i, i + 1), Fraction(1, 2))


def _rw_tri(args):
    """tri_i(i(i+1)/2 + j) = i when 0 <= j <= i"""
    p = args[0]
    if p.const is not None:
        c = int(p.const)
        i = 0
        while (i + 1) * (i + 2) // 2 <= c:
            i += 1
        return P(i)
    for mo, c in p.m:
        if c == Fraction(1, 2) and len(mo) == 1 and mo[0][1] == 2:
            i = P(mo[0][0])
            j = p - scale(mul(i, i + 1), Fraction(1, 2))
            if is_int(j) and nonneg(j) and (nonneg(i - j) or _tri_guarded(i, j)):
                return i
    return None


TRI_GUARDS = set()


def _tri_guarded(i, j):
    return (i, j) in TRI_GUARDS


REWRITE['tri_i'] = _rw_tri


def _tri_split(b, n, mo):
    """sum over b < S(S+1)/2 with tri_i(b) inside"""
    found = False
    for a, e in mo:
        if _mentions_app(a, 'tri_i', b):
            found = True
            break
    if not found:
        return None
    # n = S(S+1)/2 ?
    s2 = psqrt(scale(n, 8) + 1)
    S = scale(s2 - 1, Fraction(1, 2))
    if not is_int(S) or mul(S, S + 1) is not scale(n, 2):
        return None
    i, j = fresh(S, base='b'), fresh(S, base='b')
    TRI_GUARDS.add((P(i), P(j)))
    val = scale(mul(P(i), P(i) + 1), Fraction(1, 2)) + P(j)
    return [(i, S), (j, S)], val, ge0(P(i) - P(j))


def _mentions_app(a, fname, b):
    st = [a]
    while st:
        x = st.pop()
        if isinstance(x, Atom):
            if b not in x.fv:
                continue
            if x.kind == 'app' and x.args[0] == fname and b in _fv_of(x.args[1:]):
                return True
            st.extend(x.args)
        elif isinstance(x, Poly):
            if b in x.fv:
                for mo, _ in x.m:
                    for y, _e in mo:
                        st.append(y)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Obj):
            st.extend(x.args)
    return False


SUM_SPLITS.append(_tri_split)


def _tri_range(args):
    return (ZERO, None)


APP_RANGE['tri_i'] = _tri_range

# rowex(i, j, S, f): rank of cell (i, j), j != f, among the cells of a matrix with S + 1 columns that excludes the
# column f of row i
APP_RANGE['rowex'] = lambda args: (mul(args[0], args[2]), mul(args[0], args[2]) + args[2] - 1)


def row_excluded(p):
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1:
        a = p.m[0][0][0][0]
        if a.kind == 'app' and a.args[0] == 'rowex':
            return a
    return None


# ----------------------------------------------------------------------------- mask unranking
MASKS = {}   # name -> (ndims tuple of range polys, function(list of idx polys) -> 0/1 poly, params)


def _find_unrank(a, b):
    """(mask, parameters) of an unranking at an index that mentions b inside atom a"""
    st, seen = [a], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Atom):
            if b not in x.fv:
                continue
            if x.kind == 'app' and x.args[0].startswith('unrank_') and b in x.args[-1].fv:
                ps = x.args[1:-1]
                if not any(b in q.fv for q in ps):
                    return x.args[0].split('_')[1], ps
            st.extend(x.args)
        elif isinstance(x, Poly):
            if b in x.fv:
                for mo, _ in x.m:
                    for y, _e in mo:
                        st.append(y)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Obj):
            st.extend(x.args)
    return None


def _mask_split(b, n, mo):
    if not MASKS:
        return None
    for a, _e in mo:
        h = _find_unrank(a, b)
        if h is None:
            continue
        name, ps = h
        if n is not mask_count(name, ps):
            return None
        dims = mask_dims(name, ps)
        vs = [fresh(d, base='b') for d in dims]
        idx = [P(v) for v in vs]
        return list(zip(vs, dims)), mask_rank(name, ps, idx), mask_body(name, ps, idx)
    return None


SUM_SPLITS.append(_mask_split)


def new_mask(dims, fn):
    """register (or find) a boolean mask; identical masks share a name. Bound and loop variables that the mask
    depends on are its parameters."""
    vs = [intern('var', ('$mask.%d' % i,), 'i') for i in range(len(dims))]
    for v, d in zip(vs, dims):
        VAR_RANGE[v] = (ZERO, P(d) - 1)
    body = fn([P(v) for v in vs])
    fv = set(body.fv)
    for d in dims:
        fv |= P(d).fv
    params = sorted([v for v in fv if v not in vs and ('~' in v.args[0] or v.args[0].startswith('$'))],
                    key=lambda v: v.id)
    ren = {}
    for i, v in enumerate(params):
        m = intern('var', ('$mp.%d' % i,), 'i')
        VAR_RANGE.pop(m, None)
        ren[v] = P(m)
    if ren:
        body0, dims0 = subst(body, ren), tuple(subst(P(d), ren) for d in dims)
    else:
        body0, dims0 = body, tuple(P(d) for d in dims)
    ps = tuple(P(v) for v in params)
    key = (dims0, body0)
    name = _mask_keys.get(key)
    if name is not None:
        return name, ps
    name = 'M%d' % len(MASKS)
    mps = [intern('var', ('$mp.%d' % i,), 'i') for i in range(len(params))]
    MASKS[name] = (dims0, body0, vs, mps)
    _mask_keys[key] = name
    np_ = len(params)
    for d in range(len(dims)):
        def rw(args, d=d, name=name):
            p = args[-1]
            # unrank(rank(i,j)) = component
            if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1:
                a, e = p.m[0][0][0]
                if e == 1 and a.kind == 'app' and a.args[0] == 'rank_' + name and \
                        all(x is y for x, y in zip(a.args[1:1 + np_], args[:-1])):
                    return a.args[1 + np_ + d]
            return None
        REWRITE['unrank_%s_%d' % (name, d)] = rw
        APP_RANGE['unrank_%s_%d' % (name, d)] = lambda args, d=d: (ZERO, mask_dims(name, args[:-1])[d] - 1)
    APP_RANGE['rank_' + name] = lambda args: (ZERO, mask_count(name, args[:np_]) - 1)
    return name, ps


_mask_keys = {}


def mask_dims(name, ps):
    dims, body, vs, mps = MASKS[name]
    return [subst(d, dict(zip(mps, ps))) for d in dims] if ps else list(dims)


def mask_body(name, ps, idx):
    dims, body, vs, mps = MASKS[name]
    m = dict(zip(mps, ps))
    m.update(zip(vs, idx))
    return subst(body, m)


def mask_rank(name, ps, idx):
    return app('rank_' + name, tuple(ps) + tuple(idx), 'i')


def mask_count(name, ps=()):
    dims = mask_dims(name, ps)
    vs = [fresh(d, base='b') for d in dims]
    return mk_sums(list(zip(vs, dims)), mask_body(name, ps, [P(v) for v in vs]))


# ----------------------------------------------------------------------------- printing
def show_atom(a):
    k = a.kind
    if k == 'var':
        return a.args[0]
    if k in ('app', 'bv', 'fn'):
        return '%s(%s)' % (a.args[0], ','.join(map(str, a.args[1:])))
    if k == 'ge':
        return '[%s>=0]' % show(a.args[0])
    if k == 'gt':
        return '[%s>0]' % show(a.args[0])
    if k == 'eq':
        return '[%s==0]' % show(a.args[0])
    if k == 'idiv':
        return '(%s div %s)' % (show(a.args[0]), show(a.args[1]))
    if k == 'inv':
        return '1/(%s)' % show(a.args[0])
    if k in BINDERS:
        return '%s{%s}(%s)' % (k, ','.join('%s<%s' % (b.args[0], show(n)) for b, n in zip(a.args[0], a.args[1])),
                               show(a.args[2]))
    return '?' + k


def show(p):
    if not p.m:
        return '0'
    out = []
    for mo, c in p.m:
        s = '*'.join(show_atom(a) + ('^%d' % e if e != 1 else '') for a, e in mo)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


# ----------------------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(p, env):
    """env: dict var atom/name -> number, fname -> callable"""
    s = 0
    for mo, c in p.m:
        t = c
        # evaluate guards first
        for a, e in sorted(mo, key=lambda x: 0 if x[0].kind in IDEM else 1):
            v = eval_atom(a, env)
            if v == 0:
                t = 0
                break
            t = t * (v if e == 1 else v ** e)
        s = s + t
    return s


def eval_arg(x, env):
    return evaluate(x, env) if isinstance(x, Poly) else x


def eval_atom(a, env):
    k = a.kind
    if k == 'var':
        if a in env:
            return env[a]
        if a.args[0] in env:
            return env[a.args[0]]
        raise EvalError("unbound %s" % a.args[0])
    if k in ('app', 'bv'):
        f = a.args[0]
        args = [eval_arg(x, env) for x in a.args[1:]]
        if f == 'tri_i':
            i = 0
            while (i + 1) * (i + 2) // 2 <= args[0]:
                i += 1
            return i
        if f == 'rowex':
            i, j, S, g = [int(evaluate(x, env)) for x in a.args[1:]]
            return i * S + j - (1 if j > g else 0)
        if f.startswith('rank_') or f.startswith('unrank_'):
            return _eval_mask(f, args, env)
        if f not in env:
            raise EvalError("no interpretation of %s" % f)
        return env[f](*args)
    if k == 'ge':
        return 1 if evaluate(a.args[0], env) >= 0 else 0
    if k == 'gt':
        return 1 if evaluate(a.args[0], env) > 0 else 0
    if k == 'eq':
        return 1 if evaluate(a.args[0], env) == 0 else 0
    if k == 'idiv':
        return evaluate(a.args[0], env) // evaluate(a.args[1], env)
    if k == 'inv':
        v = evaluate(a.args[0], env)
        if v == 0:
            raise EvalError("1/0")
        return Fraction(1) / v if isinstance(v, (int, Fraction)) else 1.0 / v
    if k == 'fn':
        if a.args[0] == 'sqrt':
            import math
            return Fraction(math.sqrt(evaluate(a.args[1], env)))
        if a.args[0] in env:
            return env[a.args[0]](*[eval_arg(x, env) for x in a.args[1:]])
        raise EvalError("fn %s" % a.args[0])
    if k == 'sum':
        bs, rngs, body = a.args
        ns = [int(evaluate(n, env)) for n in rngs]
        s = 0
        e2 = dict(env)
        for vals in itertools.product(*[range(n) for n in ns]):
            for b, v in zip(bs, vals):
                e2[b] = v
            s = s + evaluate(body, e2)
        return s
    if k in ('max', 'argmax', 'all'):
        bs, rngs, body = a.args
        n = int(evaluate(rngs[0], env))
        e2 = dict(env)
        vals = []
        for i in range(n):
            e2[bs[0]] = i
            vals.append(evaluate(body, e2))
        if k == 'all':
            return 1 if all(v != 0 for v in vals) else 0
        if not vals:
            raise EvalError("max of empty range")
        mx = max(vals)
        return mx if k == 'max' else vals.index(mx)
    raise EvalError(k)


def _eval_mask(f, args, env):
    parts = f.split('_')
    name = parts[1]
    np_ = len(MASKS[name][3])
    ps = [P(x) for x in args[:np_]]
    args = args[np_:]
    ns = [int(evaluate(d, env)) for d in mask_dims(name, ps)]
    cells = [c for c in itertools.product(*[range(n) for n in ns])
             if evaluate(mask_body(name, ps, [P(x) for x in c]), env)]
    if parts[0] == 'rank':
        return cells.index(tuple(int(x) for x in args)) if tuple(int(x) for x in args) in cells else -1
    return cells[int(args[0])][int(parts[2])]
