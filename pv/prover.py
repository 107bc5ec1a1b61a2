"""Deciding equalities and inequalities of terms: normal form, case split, z3 / cvc5."""
from fractions import Fraction
import sys
import time
from .terms import *     # noqa
from . import terms as T

try:
    import z3
except ImportError:       # CPython of the project: borrow the pure-ctypes package
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3

STATS = {'nf': 0, 'split': 0, 'z3': 0, 'z3_s': 0.0, 'failed': 0, 'z3_calls': 0}
Z3_TIMEOUT = 4000


class assume(object):
    """with assume(poly01): facts hold inside (literal or conjunction; other shapes are kept for z3 only)"""
    def __init__(self, *polys):
        self.polys = polys

    def __enter__(self):
        self.save = (list(T.FACTS), list(T.EQFACTS), dict(T.BFACTS), list(GEN))
        for p in self.polys:
            add_fact(p)
        return self

    def __exit__(self, *a):
        T.FACTS[:], T.EQFACTS[:] = self.save[0], self.save[1]
        T.BFACTS.clear()
        T.BFACTS.update(self.save[2])
        GEN[:] = self.save[3]
        T.clear_caches()


GEN = []      # general 0/1 polys known to be 1


def snapshot_facts():
    return (list(T.FACTS), list(T.EQFACTS), dict(T.BFACTS), list(GEN))


def restore_facts(s):
    T.FACTS[:], T.EQFACTS[:] = s[0], s[1]
    T.BFACTS.clear()
    T.BFACTS.update(s[2])
    GEN[:] = s[3]
    T.clear_caches()


def add_fact(p):
    """p: 0/1 poly known to be one"""
    p = P(p)
    if p is ONE:
        return
    lit = literal(p)
    if lit is not None:
        for a, v in lit:
            add_lit(a, v)
    else:
        GEN.append(p)
    T.clear_caches()


def literal(p):
    """list of (atom, truth) when p is a conjunction of literals, else None"""
    if len(p.m) == 1 and p.m[0][1] == 1:
        if all(a.kind in IDEM or T.is_bit(a) for a, _ in p.m[0][0]):
            return [(a, 1) for a, _ in p.m[0][0]]
    if len(p.m) == 2:
        d = dict(p.m)
        if d.get((), 0) == 1:
            mo = [m for m in d if m != ()][0]
            if d[mo] == -1 and len(mo) == 1 and (mo[0][0].kind in IDEM or T.is_bit(mo[0][0])):
                return [(mo[0][0], 0)]
    return None


def add_lit(a, v):
    if a.kind == 'ge':
        p = a.args[0]
        if v:
            T.FACTS.append((p, False))
        elif is_int(p):
            T.FACTS.append((-p - 1, False))
        else:
            T.FACTS.append((-p, True))
    elif a.kind == 'gt':
        p = a.args[0]
        T.FACTS.append((p, True) if v else (-p, False))
    elif a.kind == 'eq':
        p = a.args[0]
        if v:
            T.EQFACTS.append(p)
        else:
            GEN.append(ONE - P(a))
            T.BFACTS[a] = 0
    else:
        T.BFACTS[a] = v


def reduce_eq(p, f):
    """p minus the multiple of f (known to be zero) that cancels f's first monomial, if that shortens p"""
    m0 = max((mo for mo, _ in f.m if mo), key=lambda mo: (len(mo), [-a.id for a, _ in mo]), default=None)
    if m0 is None:
        return p
    c0 = dict(f.m)[m0]
    need = dict(m0)
    q = {}
    for mo, c in p.m:
        d = dict(mo)
        if all(d.get(a, 0) >= e for a, e in need.items()):
            q[tuple((a, e - need.get(a, 0)) for a, e in mo if e > need.get(a, 0))] = c / c0
    if not q:
        return p
    r = p - mul(T._mk(q), f)
    return r if len(r.m) < len(p.m) else p


def both_signs():
    fs = {p for p, s in T.FACTS if not s}
    return [p for p in fs if -p in fs and p.const is None][:3]


def squeezed():
    """facts f >= 0 whose f is at most zero by the ranges of its variables: f == 0"""
    return [p for p, s in T.FACTS if not s and p.const is None and len(p.m) <= 3
            and T._nonneg(-p, {}, 0)]


def renorm(p):
    m = {v: P(v) for v in p.fv}
    if not m:
        return p
    r = T._subst(p, m, frozenset(m), {})
    return r


def lit_poly(a, v):
    return P(a) if v else ONE - P(a)


def split_atom(p, prefer_eq=True):
    """a top-level guard atom to split on"""
    best = None
    for mo, _ in p.m:
        for a, _e in mo:
            if a.kind in IDEM:
                if best is None or (a.kind == 'eq', -a.id) > (best.kind == 'eq', -best.id):
                    best = a
    if best is None:
        for mo, _ in p.m:
            for a, _e in mo:
                if T.is_bit(a):
                    return a
    return best


def assign_atom(p, a, v):
    """substitute the guard atom a by constant v at top level"""
    d = {}
    for mo, c in p.m:
        md = dict(mo)
        if a in md:
            if v == 0:
                continue
            mo = tuple(t for t in mo if t[0] is not a)
        d[mo] = d.get(mo, F0) + c
    return T._mk(d)


def solve_var(p):
    """p == 0 solved for a free plain variable: (atom, poly) or None"""
    cands = []
    for mo, c in p.m:
        if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind == 'var' and abs(c) == 1:
            a = mo[0][0]
            cc, r = linear_in(p, a)
            if cc is not None and cc.const is not None and a not in r.fv:
                cands.append((a, scale(r, -1 / cc.const)))
    if not cands:
        return None
    # prefer index variables over dimensions
    cands.sort(key=lambda t: (0 if '~' in t[0].args[0] else 1, -t[0].id))
    return cands[0]


def prove_zero(p, depth=0, smt=True):
    p = P(p)
    if p is ZERO:
        if depth == 0:
            STATS['nf'] += 1
        return True
    p = renorm(p)
    if p is ZERO:
        if depth == 0:
            STATS['nf'] += 1
        return True
    # substitute solved equalities
    for f in list(T.EQFACTS) + squeezed():
        s = solve_var(f)
        if s is not None and s[0] in p.fv:
            q = subst(p, {s[0]: s[1]})
            if q is ZERO:
                STATS['nf'] += 1
                return True
            p = q
        elif s is None and len(f.m) <= 2:
            a = [mo[0][0] for mo, c in f.m if len(mo) == 1 and mo[0][1] == 1 and abs(c) == 1]
            if len(a) == 1 and a[0].kind in ('argmax', 'app') and (f - P(a[0]) if dict(f.m)[((a[0], 1),)] > 0
                                                                   else f + P(a[0])).const is not None:
                c = dict(f.m)[((a[0], 1),)]
                p = T.replace_atom(p, a[0], scale(f - scale(P(a[0]), c), -1 / c))
                if p is ZERO:
                    STATS['nf'] += 1
                    return True
    for f in [f for f in T.EQFACTS if solve_var(f) is None] + both_signs():
        p = reduce_eq(p, f)
        if p is ZERO:
            STATS['nf'] += 1
            return True
    # an index into a packed triangle: v = i(i+1)/2 + j
    v = tri_index(p)
    if v is not None and depth < 12:
        i = fresh(None, base='ti')
        T.VAR_RANGE[i] = (ZERO, None)
        hi = T.VAR_RANGE.get(v, (None, None))[1]
        S = None
        if hi is not None:
            S = scale(psqrt(scale(hi + 1, 8) + 1) - 1, Fraction(1, 2))
            if is_int(S):
                T.VAR_RANGE[i] = (ZERO, S - 1)
        j = fresh(P(i) + 1, base='tj')
        return prove_zero(subst(p, {v: scale(mul(P(i), P(i) + 1), Fraction(1, 2)) + P(j)}), depth + 1, smt)
    # clear reciprocals
    q = clear_inv(p)
    if q is not p:
        p = q
        if p is ZERO:
            STATS['nf'] += 1
            return True
    q = align_sums(p)
    if q is not p:
        p = q
        if p is ZERO:
            STATS['nf'] += 1
            return True
    a = split_atom(p)
    if a is not None and depth < 12:
        ok = True
        decided = decided_by_sums(a) if depth < 3 else None
        for v in (1, 0):
            if decided is not None and decided != v:
                continue
            with assume(lit_poly(a, v)):
                if contradictory() or (v == 0 and a.kind == 'all' and depth < 6 and holds_everywhere(a, depth, smt)):
                    continue
                q = assign_atom(p, a, v)
                if v == 1 and a.kind == 'eq':
                    s = solve_var(a.args[0])
                    if s is not None:
                        q = subst(q, {s[0]: s[1]})
                if not prove_zero(q, depth + 1, smt):
                    ok = False
                    break
        if ok:
            if depth == 0:
                STATS['split'] += 1
            return True
        return False
    if depth < 8 and pointwise_zero(p, depth):
        return True
    if smt and z3_prove_zero(p):
        return True
    return False


def decided_by_sums(a):
    """truth of a comparison of sums of conditional terms, if the sign of the summands settles it"""
    if a.kind not in ('ge', 'gt'):
        return None
    p = a.args[0]
    if not any(x.kind == 'sum' and has_guard(x.args[2]) for x in p.atoms()):
        return None
    if sum_bound(p, a.kind == 'gt', 1):
        return 1
    if sum_bound(-p, a.kind == 'ge', 1):
        return 0
    return None


def has_guard(p):
    return any(x.kind in IDEM for x in p.atoms())


def holds_everywhere(a, depth, smt):
    """the body of a universal statement shown at an arbitrary index"""
    name, n, body = a.args[0][0], a.args[1][0], a.args[2]
    global Z3_TIMEOUT
    k = fresh(n, base='u')
    old, Z3_TIMEOUT = Z3_TIMEOUT, min(Z3_TIMEOUT, 500)
    try:
        with assume(ge0(n - 1)):
            return _holds_at(k, name, body, depth, smt)
    finally:
        Z3_TIMEOUT = old


def _holds_at(k, name, body, depth, smt):
    return contradictory() or prove_zero(ONE - subst(body, {name: P(k)}), depth + 1, smt)


def pointwise_zero(p, depth):
    """sums over common ranges that cancel element by element"""
    groups = {}
    for mo, c in p.m:
        ss = [a for a, e in mo if a.kind == 'sum' and e == 1]
        if len(ss) != 1:
            return False
        groups.setdefault(tuple(ss[0].args[1]), []).append((mo, c, ss[0]))
    if not groups:
        return False
    if all(len(g) > 1 and not any(n.fv & set(g[0][2].args[0]) for n in rngs) for rngs, g in groups.items()):
        for rngs, g in groups.items():
            vs = [fresh(n, base='z') for n in rngs]
            tot = ZERO
            for mo, c, a in g:
                outer = T._mk({tuple(t for t in mo if t[0] is not a): c})
                tot = tot + mul(outer, subst(a.args[2], {b: P(v) for b, v in zip(a.args[0], vs)}))
            if not prove_zero(tot, depth + 1, False):
                break
        else:
            return True
    # one range common to all of them
    common = None
    for rngs in groups:
        common = list(rngs) if common is None else [n for n in common if n in rngs]
    for N in (common or [])[:2]:
        if bound_inside(N) or len(p.m) < 2:
            continue
        i = fresh(N, base='z')
        tot = ZERO
        for rngs, g in groups.items():
            for mo, c, a in g:
                ib, ns, bd = T.open_binder(a)
                pos = list(ns).index(N)
                other = [(b, n) for j, (b, n) in enumerate(zip(ib, ns)) if j != pos]
                if any(ib[pos] in n.fv for b, n in other):
                    other = [(b, subst(n, {ib[pos]: P(i)})) for b, n in other]
                bd = subst(bd, {ib[pos]: P(i)})
                inner = T.mk_sums(other, bd) if other else bd
                tot = tot + scale(mul(T._mk({tuple(t for t in mo if t[0] is not a): F1}), inner), c)
        if prove_zero(tot, depth + 1, False):
            return True
    return False


def tri_index(p):
    st, seen = [p], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Poly):
            st.extend(x.atoms())
        elif isinstance(x, T.Atom):
            if x.kind == 'app' and x.args[0] == 'tri_i':
                q = x.args[1]
                if len(q.m) == 1 and q.m[0][1] == 1 and len(q.m[0][0]) == 1:
                    a, e = q.m[0][0][0]
                    lo = atom_range(a)[0] if a.kind == 'var' else None
                    if e == 1 and lo is not None and lo is ZERO and not a.args[0].startswith('$'):
                        return a
            if x.kind not in T.BINDERS:
                for y in x.args:
                    if isinstance(y, Poly):
                        st.append(y)
    return None


def clear_inv(p):
    """multiply by denominators (each denominator is a separate nonzero obligation at its introduction)"""
    n = 0
    while n < 6:
        n += 1
        invs = [a for a in p.atoms() if a.kind == 'inv']
        if not invs:
            return p
        a = invs[0]
        k = max(dict(mo).get(a, 0) for mo, _ in p.m)
        q = a.args[0]
        r = ZERO
        for mo, c in p.m:
            e = dict(mo).get(a, 0)
            t = T._mk({tuple(x for x in mo if x[0] is not a): c})
            for _ in range(k - e):
                t = mul(t, q)
            r = r + t
        p = r
    return p


def align_sums(p):
    """sum_{i<n+c} = sum_{i<n} + the last c terms, where both occur"""
    for _ in range(6):
        ss = []
        for a in p.atoms():
            if a.kind == 'sum' and len(a.args[1]) <= 3:
                ss.append(a)
        rep = None
        for a in ss:
            for b in ss:
                if a is b:
                    continue
                if len(a.args[1]) != len(b.args[1]):
                    continue
                off = [j for j, (x, y) in enumerate(zip(a.args[1], b.args[1])) if x is not y]
                if len(off) != 1:
                    continue
                j = off[0]
                d = (a.args[1][j] - b.args[1][j]).const
                if d is None or d <= 0 or d > 4 or d.denominator != 1 or not T.nonneg(b.args[1][j]):
                    continue
                if len(a.args[1]) == 1:
                    va, vb = a.args[0][0], b.args[0][0]
                    if va in b.args[2].fv and va is not vb:
                        continue
                    if subst(a.args[2], {va: P(vb)}) is not b.args[2]:
                        continue
                    rep = a, P(b) + T.addall([subst(b.args[2], {vb: b.args[1][0] + t}) for t in range(int(d))])
                    break
                if set(a.args[0]) & set(x for y in a.args[1] + b.args[1] for x in y.fv):
                    continue
                bs, ns, body = T.open_binder(b)
                va, na, body_a = T.open_binder(a)
                if subst(body_a, {x: P(y) for x, y in zip(va, bs)}) is not body:
                    continue
                rest = [(x, y) for i, (x, y) in enumerate(zip(bs, ns)) if i != j]
                rep = a, P(b) + T.addall([T.mk_sums(rest, subst(body, {bs[j]: ns[j] + t})) for t in range(int(d))])
                break
            if rep:
                break
        if rep is None:
            return p
        a, by = rep
        r = ZERO
        for mo, c in p.m:
            e = dict(mo).get(a, 0)
            t = T._mk({tuple(x for x in mo if x[0] is not a): c})
            for _e in range(e):
                t = mul(t, by)
            r = r + t
        p = r
    return p


def contradictory():
    for f, s in T.FACTS:
        c = f.const
        if c is not None and (c < 0 or (s and c == 0)):
            return True
        if nonneg_wo(-f - 1 if is_int(f) else -f, f) and (s or is_int(f)):
            return True
    apart = [a.args[0] for a, v in T.BFACTS.items() if a.kind == 'eq' and not v]
    if apart:
        for f in squeezed():
            if f in apart or -f in apart:
                return True
    for f in T.EQFACTS:
        c = f.const
        if c is not None and c != 0:
            return True
        if is_int(f) and (nonneg(f - 1) or nonneg(-f - 1)):
            return True
    return False


def sums_nonneg(p):
    """p >= 0, where sums over the same range have a nonnegative body together (e.g. a sum of squares)"""
    rest, groups = {}, {}
    for mo, c in p.m:
        at = [a for a, e in mo if a.kind == 'sum']
        if len(at) != 1 or dict(mo)[at[0]] != 1:
            rest[mo] = c
            continue
        a = at[0]
        co = T._mk({tuple(t for t in mo if t[0] is not a): c})
        bs, ns, body = T.open_binder(a)
        if a.args[1] not in groups:
            groups[a.args[1]] = [bs, []]
        to = {x: P(y) for x, y in zip(bs, groups[a.args[1]][0]) if x is not y}
        groups[a.args[1]][1].append(mul(co, T.subst(body, to) if to else body))
    r = T._mk(rest)
    if not (r.const is not None and r.const >= 0 or T.nonneg(r)):
        return False
    for _bs, bodies in groups.values():
        b = T.ZERO
        for x in bodies:
            b = b + x
        for a in b.atoms():
            if a.kind == 'inv' and T.positive(a.args[0]):
                b = mul(b, a.args[0])
        if not T.nonneg(b) and T._poly_sqrt(b) is None and not entails(ge0(b)):
            return False
    return True


def nonneg_wo(p, f):
    return T._nonneg(p, {}, 0)


def entails(p, smt=True):
    """is the 0/1 poly p equal to one under the current facts? True / False (=> not provable)"""
    p = P(p)
    if p is ONE:
        return True
    if p is ZERO:
        return contradictory()
    return prove_zero(ONE - p, smt=smt)


def feasible(p=None):
    """False only if facts (and p) are contradictory for z3"""
    if contradictory():
        return False
    tr = Z3Tr()
    s = z3.Solver()
    s.set('timeout', 2000)
    for f in tr.facts():
        s.add(f)
    if p is not None:
        s.add(tr.boolean(P(p)))
    tr.side(s)
    STATS['z3_calls'] += 1
    t = time.time()
    r = s.check()
    STATS['z3_s'] += time.time() - t
    return r != z3.unsat


class Z3Tr(object):
    def __init__(self):
        self.memo = {}
        self.sidec = []
        self.seen = []
        self.atoms = []

    def poly(self, p):
        if p.const is not None:
            c = p.const
            return z3.RealVal(str(c)) if c.denominator != 1 else z3.IntVal(int(c))
        terms = []
        allint = all(c.denominator == 1 for _, c in p.m) and all(a.sort == 'i' for mo, _ in p.m for a, _e in mo)
        for mo, c in p.m:
            t = None
            for a, e in mo:
                v = self.atom(a)
                if not allint and z3.is_int(v):
                    v = z3.ToReal(v)
                for _ in range(e):
                    t = v if t is None else t * v
            k = (z3.IntVal(int(c)) if allint else z3.RealVal(str(c)))
            terms.append(k if t is None else (t if c == 1 else k * t))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def boolean(self, p):
        # 0/1 poly as formula
        lit = literal(p)
        if lit is not None:
            fs = [self.guard(a) if v else z3.Not(self.guard(a)) for a, v in lit]
            return z3.And(fs) if len(fs) != 1 else fs[0]
        return self.poly(p) == 1

    def guard(self, a):
        if a.kind in ('ge', 'gt', 'eq'):
            q = self.poly(a.args[0])
            z = z3.RealVal(0) if z3.is_real(q) else z3.IntVal(0)
            return {'ge': q >= z, 'gt': q > z, 'eq': q == z}[a.kind]
        if a.kind == 'all':
            self.atom_seen(a)
            return z3.Bool('B%d' % a.id)
        if a.kind == 'bv' and len(a.args) > 1 and all(isinstance(x, Poly) for x in a.args[1:]):
            f = z3.Function('b_' + str(a.args[0]), *([z3.RealSort()] * (len(a.args) - 1) + [z3.BoolSort()]))
            return f(*[self.toreal(self.poly(x)) for x in a.args[1:]])
        return z3.Bool('B%d' % a.id)

    def toreal(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def atom_seen(self, a):
        if a not in self.seen:
            self.seen.append(a)

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        k = a.kind
        if k in IDEM:
            r = z3.If(self.guard(a), z3.IntVal(1), z3.IntVal(0))
            self.memo[a] = r
            return r
        mk = z3.Int if a.sort == 'i' else z3.Real
        if k == 'var':
            r = mk('v_' + a.args[0])
        elif k == 'app':
            args = a.args[1:]
            if args and all(isinstance(x, Poly) for x in args):
                if all(is_int(x) for x in args):
                    zs = [self.toint(self.poly(x)) for x in args]
                    f = z3.Function('f_' + a.args[0], *([z3.IntSort()] * len(zs)
                                                      + [z3.IntSort() if a.sort == 'i' else z3.RealSort()]))
                else:
                    zs = [self.toreal(self.poly(x)) for x in args]
                    f = z3.Function('g_' + a.args[0], *([z3.RealSort()] * len(zs)
                                                      + [z3.IntSort() if a.sort == 'i' else z3.RealSort()]))
                r = f(*zs)
            else:
                r = mk('a%d' % a.id)
        else:
            r = mk('t%d' % a.id)
        self.memo[a] = r
        self.atom_seen(a)
        self.side_atom(a, r)
        self.look_inside(a)
        return r

    def look_inside(self, a):
        """index terms hidden in opaque terms are instances for the axioms of max / argmax / forall"""
        st, seen = [y for x in a.args for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, Poly)], set()
        todo = []
        while st and len(seen) < 400:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if isinstance(x, Poly):
                st.extend(x.atoms())
                continue
            if x.kind in ('var', 'argmax', 'max') and x not in self.memo and not bound_inside(x):
                todo.append(x)
            for y in x.args:
                for q in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(q, Poly):
                        st.append(q)
        for x in todo:
            self.atom(x)

    def toint(self, e):
        return z3.ToInt(e) if z3.is_real(e) else e

    def side_atom(self, a, r):
        if a.kind in ('var', 'app', 'argmax'):
            lo, hi = atom_range(a)
            if lo is not None:
                self.sidec.append(r >= self.poly(lo))
            if hi is not None:
                self.sidec.append(r <= self.poly(hi))
            if a.kind == 'argmax':
                self.sidec.append(self.poly(a.args[1][0]) >= 1)
        elif a.kind == 'idiv':
            p, q = self.poly(a.args[0]), self.poly(a.args[1])
            self.sidec.append(z3.And(q * r <= p, p < q * r + q))
        elif a.kind == 'inv':
            q = self.poly(a.args[0])
            self.sidec.append(self.toreal(q) * r == 1)
        elif a.kind == 'fn' and a.args[0] == 'sqrt':
            q = self.toreal(self.poly(a.args[1]))
            self.sidec.append(z3.Implies(q >= 0, z3.And(r >= 0, r * r == q)))
        elif a.kind == 'fn' and a.args[0] == 'trunc':
            q = self.toreal(self.poly(a.args[1]))
            rr = self.toreal(r)
            self.sidec.append(z3.Implies(q >= 0, z3.And(rr <= q, q < rr + 1)))
            self.sidec.append(z3.Implies(q < 0, z3.And(rr >= q, q > rr - 1)))

    def facts(self):
        fs = []
        for p, s in T.FACTS:
            q = self.poly(p)
            z = z3.RealVal(0) if z3.is_real(q) else z3.IntVal(0)
            fs.append(q > z if s else q >= z)
        for p in T.EQFACTS:
            q = self.poly(p)
            fs.append(q == (z3.RealVal(0) if z3.is_real(q) else z3.IntVal(0)))
        for a, v in T.BFACTS.items():
            if a.kind == 'app':
                fs.append(self.poly(P(a)) == v)
                continue
            g = self.guard(a)
            fs.append(g if v else z3.Not(g))
        for p in GEN:
            fs.append(self.boolean(p))
        return fs

    def matches(self, body, name):
        """index terms at which an array read at the bound variable in body is read elsewhere"""
        pats, st, done = set(), [body], set()
        while st:
            x = st.pop()
            if x in done:
                continue
            done.add(x)
            if isinstance(x, Poly):
                st.extend(a for a in x.atoms() if name in a.fv)
                continue
            if x.kind == 'app':
                for i, y in enumerate(x.args[1:]):
                    if isinstance(y, Poly) and y is P(name):
                        pats.add((x.args[0], i, len(x.args)))
            for y in x.args:
                for q in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(q, Poly) and name in q.fv:
                        st.append(q)
        out = []
        for a in list(self.seen):
            if a.kind == 'app':
                for i, y in enumerate(a.args[1:]):
                    if (a.args[0], i, len(a.args)) in pats and isinstance(y, Poly) and is_int(y) \
                            and not bound_inside(y) and y not in out and (len(y.m) != 1 or y.m[0][1] != 1):
                        out.append(y)
        return out

    def side(self, s):
        """ranges, and instances of the axioms of max / argmax / forall atoms at the index terms around"""
        rounds = 0
        done = set()
        inst = set()
        while rounds < 3:
            rounds += 1
            ints = [a for a in list(self.seen) if a.sort == 'i' and a.kind in ('var', 'argmax', 'app', 'idiv')]
            bind = [a for a in list(self.seen) if a.kind in ('max', 'argmax', 'all')]
            for b in bind:
                n = b.args[1][0]
                name = b.args[0][0]
                body = b.args[2]
                if b.kind == 'max' and ('m', b) not in inst:
                    inst.add(('m', b))
                    am = intern('argmax', b.args, 'i')
                    x = subst(body, {name: P(am)})
                    self.sidec.append(self.atom(b) == self.poly(x)
                                      if z3.is_real(self.atom(b)) == z3.is_real(self.poly(x))
                                      else self.toreal(self.atom(b)) == self.toreal(self.poly(x)))
                for t in [P(t) for t in ints[:14]] + self.matches(body, name)[:12]:
                    if (b, t) in inst:
                        continue
                    inst.add((b, t))
                    val = subst(body, {name: t})
                    inr = z3.And(self.poly(t) >= 0, self.poly(t) < self.poly(n))
                    if b.kind == 'all':
                        self.sidec.append(z3.Implies(z3.And(self.guard(b), inr), self.boolean(val)))
                    elif b.kind == 'max':
                        self.sidec.append(z3.Implies(inr, self.atom(b) >= self.poly(val)))
                    else:
                        vm = subst(body, {name: P(b)})
                        self.sidec.append(z3.Implies(inr, self.poly(vm) >= self.poly(val)))
        for c in self.sidec:
            s.add(c)


def bound_inside(x):
    return any(v.args[0].startswith('$') for v in x.fv)


def z3_prove_zero(p):
    tr = Z3Tr()
    s = z3.Solver()
    s.set('timeout', Z3_TIMEOUT)
    for f in tr.facts():
        s.add(f)
    q = tr.poly(p)
    s.add(q != 0)
    tr.side(s)
    t = time.time()
    STATS['z3_calls'] += 1
    r = s.check()
    STATS['z3_s'] += time.time() - t
    if r == z3.unsat:
        STATS['z3'] += 1
        return True
    return False


def z3_prove(p):
    """prove the 0/1 poly p is one, keeping its boolean structure"""
    return z3_prove_zero(ONE - p)


def sum_bound(p, strict, depth):
    """p = sum{i<N} b(i) + rest with b >= 0 entrywise and rest (+ a member b(t)) >= 0"""
    ranges = []
    for mo, c in p.m:
        for a, e in mo:
            if a.kind == 'sum' and e == 1:
                for n in a.args[1]:
                    if n not in ranges:
                        ranges.append(n)
    for N in ranges[:4]:
        if not nonneg(N):
            continue
        i = fresh(N, base='sb')
        body, rest = ZERO, ZERO
        for mo, c in p.m:
            sums = [(a, e) for a, e in mo if a.kind == 'sum' and e == 1 and N in a.args[1]]
            if len(sums) != 1:
                rest = rest + T._mk({mo: c})
                continue
            a = sums[0][0]
            ib, ns, bd = T.open_binder(a)
            pos = list(ns).index(N)
            other = [(b, n) for j, (b, n) in enumerate(zip(ib, ns)) if j != pos]
            bd = subst(bd, {ib[pos]: P(i)})
            inner = T.mk_sums(other, bd) if other else bd
            body = body + scale(mul(T._mk({tuple(t for t in mo if t[0] is not a): F1}), inner), c)
        kr = T.divmod_poly(rest, N) if rest.m and N.const is None else None
        tries = [(body, rest)]
        if kr is not None and kr[0].m:
            tries.insert(0, (body + kr[0], kr[1]))
        for b, r in tries:
            if i not in b.fv:
                continue
            if not prove_nonneg(b, False, depth + 1):
                continue
            if r is ZERO and not strict or prove_nonneg(r, strict, depth + 1):
                return True
            for t in members(p, N):
                if prove_nonneg(r + subst(b, {i: P(t)}), strict, depth + 1):
                    return True
    return False


def members(p, N):
    vs = set(p.fv)
    for g in GEN:
        vs |= g.fv
    out = []
    for v in vs:
        lo, hi = T.VAR_RANGE.get(v, (None, None))
        if v.args[0].startswith('n_') and lo is not None and hi is not None and lo is ZERO and hi is N - 1:
            out.append(v)
    return sorted(out, key=lambda v: v.id)


def prove_nonneg(p, strict=False, depth=0):
    p = P(p)
    if (positive(p) if strict else nonneg(p)):
        STATS['nf'] += 1
        return True
    p = renorm(p)
    if (positive(p) if strict else nonneg(p)):
        STATS['nf'] += 1
        return True
    a = split_atom(p)
    if a is not None:
        for v in (1, 0):
            with assume(lit_poly(a, v)):
                if contradictory():
                    continue
                if not prove_nonneg(assign_atom(p, a, v), strict, depth):
                    return False
        return True
    if depth < 3 and sum_bound(p, strict, depth):
        STATS['split'] += 1
        return True
    tr = Z3Tr()
    s = z3.Solver()
    s.set('timeout', Z3_TIMEOUT)
    for f in tr.facts():
        s.add(f)
    q = tr.poly(p)
    s.add(q <= 0 if strict else q < 0)
    tr.side(s)
    t = time.time()
    STATS['z3_calls'] += 1
    r = s.check()
    STATS['z3_s'] += time.time() - t
    if r == z3.unsat:
        STATS['z3'] += 1
        return True
    return False
