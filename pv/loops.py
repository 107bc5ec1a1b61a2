"""Loops over symbolically many iterations.

A loop is verified for every number of iterations: the body is executed once at a generic iteration k from
a generic state; every location it changes is denoted by a ghost function C(k, index) (the state at the start
of iteration k).  The engine then infers the loop invariant C(k, index) = closed form, which is inductive by
construction of the rules below (base case = state before the loop, step = the executed body), and the state
after the loop is C(n, index).  Locations for which no rule applies stay uninterpreted, with their defining
recurrence kept in RECS for induction lemmas.
"""
from .terms import *          # noqa
from . import terms as T
from . import prover
from .values import *         # noqa
from . import values as V
from . import interp as X
from .interp import (explore, decide, path_choice, rebuild, map_value, merge_values, mknum, topoly, kindof, is_num,
                     BreakEx, ContinueEx, ReturnEx, PATHS, PathAbort)

W = V.W
RECS = {}         # cname -> (dims, init fn, step fn(k, idx), n)
_cn = itertools.count()
CANDIDATES = []   # (owner id, thunk -> value): ghost expressions offered as loop invariants "location == expression"
LEDGER = [lambda: []]
QUIET = [0, 0]    # depth of explorations whose invariants are not settled, number of obligations put off
LOOPSTAT = {'loops': 0, 'solved': 0, 'open': 0}
DEBUG = bool(__import__("os").environ.get("LOOPDEBUG"))


def quiet():
    """obligations are decided in the last exploration of a loop only"""
    if QUIET[0]:
        QUIET[1] += 1
    return QUIET[0] > 0


class Restart(Exception):
    pass


HIDDEN = {}     # open ghost function of an inner loop -> functions its recurrence mentions
LENIENT = [False]


def mentions(p, names, seen=None):
    """which of the function names occur in p"""
    out = set()
    seen = set() if seen is None else seen
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            if x in seen:
                continue
            seen.add(x)
            for mo, _ in x.m:
                for a, _e in mo:
                    st.append(a)
        elif isinstance(x, Atom):
            if x in seen:
                continue
            seen.add(x)
            if x.kind in ('app', 'bv'):
                if x.args[0] in names:
                    out.add(x.args[0])
                if x.args[0] in HIDDEN and not LENIENT[0]:
                    out |= HIDDEN[x.args[0]] & set(names)
            st.extend(x.args)
        elif isinstance(x, Obj):
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def functions_in(p):
    out = set()
    seen = set()
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            if x not in seen:
                seen.add(x)
                st.extend(a for mo, _ in x.m for a, _e in mo)
        elif isinstance(x, Atom):
            if x not in seen:
                seen.add(x)
                if x.kind in ('app', 'bv'):
                    out.add(x.args[0])
                    out |= HIDDEN.get(x.args[0], set())
                st.extend(x.args)
        elif isinstance(x, Obj):
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def same_value(a, b):
    if a is b:
        return True
    if type(a) in (int, bool, str) and type(a) is type(b):
        return a == b
    if isinstance(a, Num) and isinstance(b, Num):
        return a.p is b.p and a.kind == b.kind
    if isinstance(a, LRef) and isinstance(b, LRef):
        return a.id == b.id
    if isinstance(a, DRef) and isinstance(b, DRef):
        return a.id == b.id
    if isinstance(a, Inst) and isinstance(b, Inst):
        return a.id == b.id
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.bid == b.bid and a.fwd is b.fwd and a.shape == b.shape
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    if isinstance(a, Inf) and isinstance(b, Inf):
        return a.sign == b.sign
    return False


MISSING = Undef('not defined before the loop')


class Loc(object):
    """a location changed by the loop"""
    def __init__(self, key, init):
        self.key = key                 # ('slot', id, name) | ('buf', id) | ('list', id)
        self.init = init               # value / ArrRec / list record
        self.cname = 'C%d' % next(_cn)
        self.closed = None             # function(kk, idx) -> Poly
        self.mode = None
        if key[0] == 'buf':
            self.mode, self.dims, self.kind = 'poly', init.shape, init.kind
            self.initfn = lambda idx, r=init: r.get(idx)
        elif key[0] == 'slot':
            if isinstance(init, Inf) and init.sign < 0:
                self.mode, self.dims, self.kind = 'poly', (), 'r'
                self.initfn = lambda idx: T.neginf()
            elif is_num(init):
                self.mode, self.dims, self.kind = 'poly', (), kindof(init)
                p0 = topoly(init)
                self.initfn = lambda idx: p0
            elif isinstance(init, Arr):
                self.mode, self.dims, self.kind = 'poly', init.shape, init.kind
                rd = init.reader()
                self.initfn = lambda idx: rd(list(idx))
            else:
                self.mode = 'other'
        else:
            self.mode = 'list'
        self.bid = None

    @property
    def sort(self):
        return 'r' if self.kind == 'r' else 'i'

    def at(self, kk, idx):
        """ghost state C(kk, idx)"""
        if self.closed is not None:
            return self.closed(kk, list(idx))
        r = app(self.cname, (kk,) + tuple(idx), self.sort)
        if self.kind == 'b':
            return ge0(r - 1)
        return r

    def raw(self, kk, idx):
        return intern('app', (self.cname, P(kk)) + tuple(idx), self.sort)

    def carry(self, kk):
        if self.key[0] == 'buf':
            return ArrRec(self.dims, lambda idx: self.at(kk, idx), self.kind)
        if self.mode == 'poly':
            if isinstance(self.init, Arr):
                a = mkarr(self.dims, lambda idx: self.at(kk, idx), self.kind)
                self.bid = a.bid
                return a
            return mknum(self.at(kk, []), self.kind)
        if self.mode == 'list':
            if self.listval is not None:
                return self.listval(kk)
            return ('list+', self.key[1], (), self.init[3] if self.init[0] == 'list+' else self.init)
        if self.otherval is not None:
            return self.otherval(kk)
        return Undef('loop-carried value of %s' % (self.key[-1],))

    listval = None
    otherval = None


def write_loc(loc, val):
    k = loc.key
    if k[0] == 'slot':
        if val is MISSING:
            W.store[k[1]].pop(k[2], None)
        else:
            W.store[k[1]][k[2]] = val
    else:
        W.store[k[1]] = val


def read_loc(store, key):
    if key[0] == 'slot':
        return store[key[1]].get(key[2], MISSING)
    return store[key[1]]


def diff(base, new):
    """locations of base that changed in new"""
    out = []
    for i, r in base.items():
        s = new.get(i)
        if s is r:
            continue
        if isinstance(r, dict):
            for kx in set(r) | set(s):
                if not same_value(r.get(kx, MISSING), s.get(kx, MISSING)):
                    out.append(('slot', i, kx))
        elif isinstance(r, ArrRec):
            out.append(('buf', i))
        elif isinstance(r, tuple):
            if r != s or any(x is not y for x, y in zip(r, s)):
                out.append(('list', i))
    return out


def symbolic_map(interp, n, body):
    DEPTH[0] += 1
    try:
        return symbolic_map0(interp, n, body)
    finally:
        DEPTH[0] -= 1


def symbolic_map0(interp, n, body):
    """[body(k) for k in range(n)] for symbolic n: a loop appending to a fresh list"""
    acc = LRef([])

    def b(k):
        v = body(k)
        from . import nplib
        nplib.list_method(acc, 'append').fn(v)
    symbolic_loop(interp, n, b, 'comprehension')
    r = acc.rec
    if r[0] == 'list':
        items = r[1]
        return Seq(P(len(items)), lambda i: items[int(i.const)])
    return Seq(r[1], r[2])


SPLITS = []     # iterations at which loops are analysed as two loops, one after the other


def symbolic_loop(interp, n, body, where, start=None):
    """returns True when left by break"""
    n = P(n)
    LOOPSTAT['loops'] += 1
    if n.const is not None:
        for i in range(int(n.const)):
            try:
                body(P(i))
            except BreakEx:
                return True
            except ContinueEx:
                pass
        return False
    if not nonneg(n):
        if not decide(ge0(n)):
            return False
        if renorm_const(n) is not None:
            return symbolic_loop(interp, P(renorm_const(n)), body, where)
    for at in SPLITS:
        if at is not n and nonneg(at) and nonneg(n - at):
            # two loops: the iterations before the given one, and the others
            if symbolic_loop(interp, at, body, where):
                return True
            return symbolic_loop(interp, n - at, lambda k: body(P(k) + at), where)
    peeled = 0
    while True:
        try:
            return _loop(interp, n, body, where, peeled)
        except Peel:
            peeled += 1
            if peeled > 2:
                raise Unsupported("loop-carried value of an unsupported type at %s" % where)
            # execute the first iteration, then continue with the rest
            if not decide(ge0(n - 1)):
                return False
            try:
                body0 = body
                body0(ZERO)
            except BreakEx:
                return True
            except ContinueEx:
                pass
            n = n - 1
            body = (lambda b: (lambda k: b(P(k) + 1)))(body0)
            if prover.prove_zero(n, smt=False):
                return False


def renorm_const(n):
    p = X.renorm(n)
    return int(p.const) if p.const is not None else None


class Peel(Exception):
    pass


DEPTH = [0]


def _loop(interp, n, body, where, peeled):
    DEPTH[0] += 1
    try:
        return _loop0(interp, n, body, where, peeled)
    finally:
        DEPTH[0] -= 1


def _loop0(interp, n, body, where, peeled):
    rejected = set()
    mark = len(LEDGER[0]())
    restarts = 0
    while restarts < 12:
        m = len(rejected)
        try:
            return _loop1(interp, n, body, where, peeled, rejected)
        except Restart:
            del LEDGER[0]()[mark:]
            if len(rejected) == m:
                restarts += 1
            continue
    raise Unsupported("too many restarts of the loop at %s" % where)


def hoist(outs, k, names):
    """decisions that do not depend on the iteration are taken outside"""
    for o in outs:
        for lit in o.pc:
            if k not in lit.fv and not mentions(lit, names):
                if prover.entails(lit) or prover.entails(ONE - lit):
                    continue
                decide(lit if not lit_neg(lit) else ONE - lit)
                raise Restart()


def carried_alone(bid, locs, store, base):
    """whether the buffer belongs to the array a location is carried in, and nothing else refers to it"""
    own = [l for l in locs.values() if l.bid == bid]
    if len(own) != 1 or not isinstance(own[0].init, Arr):
        return False
    if references(own[0].init.bid, base, own[0].key):
        return False
    return not references(bid, {i: store[i] for i in base if i in store}, own[0].key)


def references(bid, store, but):
    def holds(v):
        if isinstance(v, Arr):
            return v.bid == bid
        if isinstance(v, (tuple, list)):
            return any(holds(x) for x in v)
        return False
    for i, r in store.items():
        if isinstance(r, dict):
            if any(holds(x) for name, x in r.items() if ('slot', i, name) != but):
                return True
        elif isinstance(r, tuple):
            if r[0] == 'list' and holds(r[1]) or r[0] == 'list+' and holds(r[2]) or r[0] == 'slist' and \
                    isinstance(r[1], Poly) and holds_seq(r, holds):
                return True
    return False


def holds_seq(r, holds):
    try:
        return holds(r[2](P(fresh(r[1], base='m'))))
    except (EngineError, PyRaise):
        return True


def evaluate(thunk, store):
    """the value of a candidate in a state, as a function of an index (None when it has none)"""
    def go():
        v = thunk()
        if is_num(v):
            p = topoly(v)
            return (), kindof(v), (lambda idx: p)
        if isinstance(v, Arr):
            rd = v.reader()
            return v.shape, v.kind, (lambda idx: rd(list(idx)))
        return None
    try:
        return with_store(store, go)
    except (PyRaise, Unsupported, EngineError):
        return None


def at_index(thunk, kk, loc):
    """invariants may mention the number of iterations done and the value before the loop"""
    if not getattr(thunk, 'indexed', False):
        return thunk
    def old():
        if isinstance(loc.init, Arr) or loc.key[0] == 'buf':
            return mkarr(loc.dims, lambda idx: loc.initfn(list(idx)), loc.kind)
        return mknum(loc.initfn([]), loc.kind)
    return lambda: thunk(mknum(kk, 'i'), old())


def guess(locs, guesses, rejected, k, base, facts0, before):
    """assume location == candidate for the open locations where this holds before the loop"""
    new = False
    for loc in list(locs.values()):
        if loc.mode != 'poly' or loc.closed is not None:
            continue
        for ci, (owner, thunk) in enumerate(CANDIDATES):
            if (loc.key, ci) in rejected or (loc.key[0] == 'slot' and loc.key[1] == owner):
                continue
            prover.restore_facts(facts0)
            first = evaluate(at_index(thunk, ZERO, loc), base)
            if first is None or len(first[0]) != len(loc.dims) or \
                    not all(prover.prove_zero(a - b, smt=False) for a, b in zip(first[0], loc.dims)):
                if DEBUG:
                    print('no guess (dims)', loc.key, ci, first)
                rejected.add((loc.key, ci))
                continue
            t = [fresh(d, base='t') for d in loc.dims]
            tp = [P(x) for x in t]
            if not prover.prove_zero(rebuild(first[2](tp) - loc.initfn(tp)), smt=False):
                rejected.add((loc.key, ci))
                if DEBUG:
                    print('no guess', loc.key, ci, first[2](tp), loc.initfn(tp))
                continue
            then = evaluate(at_index(thunk, P(k), loc), before)
            if then is None:
                if DEBUG:
                    print('no guess (then)', loc.key, ci)
                rejected.add((loc.key, ci))
                continue
            e = rebuild(then[2](tp))
            if mentions(e, {loc.cname}):
                if DEBUG:
                    print('no guess (mentions)', loc.key, ci, loc.cname, e)
                continue
            if DEBUG:
                print('guess', loc.key, ci, loc.cname, e)

            def closed(kk, idx, e=e, t=t):
                return subst(rebuild(e), dict(zip([k] + t, [P(kk)] + list(idx))))
            if loc.kind != 'r':
                loc.kind = first[1]
            install(loc, closed)
            guesses.append((loc, ci, thunk, t))
            new = True
            break
        prover.restore_facts(facts0)
    return new


def check_guesses(guesses, rejected, outs, facts0, base, where, k):
    """the assumed invariants hold after every normal path of the generic iteration"""
    bad = False
    for loc, ci, thunk, t in guesses:
        tp = [P(x) for x in t]
        for o in outs:
            if o.kind != 'ok':
                continue
            prover.restore_facts(o.facts)
            st = step_fn(loc, [(ONE, o.store)])
            e = evaluate(at_index(thunk, P(k) + 1, loc), o.store)
            ok = st is not None and e is not None and prover.prove_zero(rebuild(st(tp) - e[2](tp)))
            if DEBUG and not ok:
                print('guess rejected', where, loc.key, ci, None if st is None or e is None else (st(tp), e[2](tp)))
            if not ok:
                rejected.add((loc.key, ci))
                bad = True
                break
    prover.restore_facts(facts0)
    if bad:
        W.restore(base)
        raise Restart()


def generalise(locs, k, n, outs):
    """an open ghost function also depends on the indices around the loop that its recurrence mentions"""
    opens = [l for l in locs.values() if l.mode == 'poly' and l.closed is None]
    if not opens:
        return
    extra = []
    for l in opens:
        hidden = set()
        HIDDEN[l.cname] = HIDDEN[l.cname + 'g'] = hidden
        t = [fresh(d, base='t') for d in l.dims]
        tp = [P(x) for x in t]
        for o in outs:
            if o.kind == 'ok':
                st = step_fn(l, [(ONE, o.store)])
                if st is None:
                    continue
                q = st(tp)
                for p in [q] + list(o.pc):
                    hidden |= functions_in(P(p))
                    extra += [v for v in P(p).fv if v not in t]
        extra += [v for v in (l.initfn(tp)).fv if v not in t]
    extra += list(n.fv)
    extra = sorted({v for v in extra if '~' in v.args[0] and v is not k}, key=lambda v: v.id)
    if not extra:
        return
    more = tuple(P(v) for v in extra)
    for l in opens:
        def rw(args, l=l, name=l.cname + 'g'):
            return app(name, tuple(args) + more, l.sort)
        T.REWRITE[l.cname] = rw
    T.clear_caches()
    for o in outs:
        o.pc[:] = [rebuild(p) for p in o.pc]


def lit_neg(p):
    return dict(p.m).get((), 0) == 1 and len(p.m) == 2


def _loop1(interp, n, body, where, peeled, rejected):
    mark = len(LEDGER[0]())
    guesses = []
    base = W.snapshot()
    facts0 = prover.snapshot_facts()
    k = fresh(n, base='k')
    K = P(k)
    locs = {}
    rounds = 0
    settled = False
    while True:
        rounds += 1
        if rounds > 40:
            raise Unsupported("loop analysis does not stabilise at %s" % where)
        W.restore(base)
        prover.restore_facts(facts0)
        del LEDGER[0]()[mark:]
        add_fact = prover.add_fact
        add_fact(ge0(n - 1))
        carried = {}
        for key, loc in locs.items():
            c = loc.carry(K)
            carried[key] = c
            write_loc(loc, c)
        W_before = W.snapshot()

        def thunk():
            return body(K)
        put_off = QUIET[1]
        if not settled:
            QUIET[0] += 1
        try:
            outs = explore(thunk)
        finally:
            if not settled:
                QUIET[0] -= 1
        W.restore(base)
        prover.restore_facts(facts0)
        names = set(l.cname for l in locs.values())
        new = set()
        for o in outs:
            if o.kind == 'ok':
                for d in diff(W_before, o.store):
                    if d not in locs:
                        if d[1] in base:
                            new.add(d)
                        elif carried_alone(d[1], locs, o.store, base):
                            continue    # the array held by this location only was changed in place
                        else:
                            # write into a carried array object
                            raise Unsupported("in-place change of a rebound array in the loop at %s" % where)
        if settled and new:
            raise Unsupported("loop analysis does not stabilise at %s" % where)
        if new:
            for d in sorted(new, key=str):
                locs[d] = Loc(d, read_loc(base, d))
            check_alias(locs, where)
            continue
        hoist(outs, k, names)
        if not settled:
            owned = any(owner is not None for owner, _ in CANDIDATES)
            if owned and solve(locs, outs, k, n, where, base, peeled, ints=True):
                continue
            if owned and guess(locs, guesses, rejected, k, base, facts0, W_before):
                continue
            if solve(locs, outs, k, n, where, base, peeled):
                continue        # something new was solved: explore again with the closed forms
            if CANDIDATES and not owned and guess(locs, guesses, rejected, k, base, facts0, W_before):
                continue
            LENIENT[0] = True
            try:
                if solve(locs, outs, k, n, where, base, peeled):
                    continue
            finally:
                LENIENT[0] = False
        if guesses and not settled:
            check_guesses(guesses, rejected, outs, facts0, base, where, k)
        if not settled and put_off != QUIET[1] and not QUIET[0]:
            settled = True      # once more, now deciding the obligations inside
            continue
        break
    generalise(locs, k, n, outs)
    LOOPSTAT['open'] += len([l for l in locs.values() if l.mode == 'poly' and l.closed is None])
    # ---------------- exits
    exits = [o for o in outs if o.kind in ('raise', 'break', 'return')]
    if exits:
        g = ZERO
        for o in exits:
            g = bor(g, o.cond)
        if any(o.kind == 'ok' for o in outs):
            allok = mk_all(k, n, ONE - g)
            ok = decide_general(allok)
        else:
            ok = decide(eq0(n))
        if not ok:
            # the first iteration that leaves: a definable term (first index where g holds)
            k0 = mk_argmax(k, n, g)
            add_fact(ge0(n - 1))
            if len(exits) > 1:
                o = exits[path_choice(len(exits))]
            else:
                o = exits[0]
            add_fact(subst(o.cond, {k: k0}))
            X.add_pc(subst(o.cond, {k: k0}), False)
            j = fresh(k0, base='j')
            nb = mk_all(j, k0, subst(ONE - g, {k: P(j)}))
            if nb is not ONE:
                add_fact(nb)
            if prover.contradictory():
                raise PathAbort()
            for loc in locs.values():
                v = final_value(loc, k0, outs, k, n)
                write_loc(loc, v)
            try:
                body(k0)
            except BreakEx:
                return True
            except ContinueEx:
                pass
            raise PathAbort()
    # ---------------- normal end
    vals = [(loc, final_value(loc, n, outs, k, n)) for loc in locs.values()]
    for loc, v in vals:
        write_loc(loc, v)
    return False


def decide_general(p):
    if p is ONE:
        return True
    if p is ZERO:
        return False
    if prover.entails(p):
        return True
    lit = prover.literal(p)
    if lit is not None and len(lit) == 1:
        return decide(p)
    c = path_choice(2)
    f = p if c == 0 else ONE - p
    prover.add_fact(f)
    X.add_pc(f)
    if prover.contradictory():
        raise PathAbort()
    return c == 0


def check_alias(locs, where):
    ids = {}
    for loc in locs.values():
        if loc.key[0] == 'slot' and isinstance(loc.init, Arr):
            ids.setdefault(loc.init.bid, []).append(loc)
    for b, ls in ids.items():
        if ('buf', b) in locs:
            pass        # a rebound name whose old buffer is also written: the carry is a separate copy


def ok_paths(outs):
    """(condition, store) of the normal paths, without the literals that only exclude exits"""
    oks = [o for o in outs if o.kind == 'ok']
    res = []
    for o in oks:
        c = ONE
        for pos, lit in zip(o.pcpos, o.pc):
            if pos is None:
                c = mul(c, lit)
                continue
            sib = o.taken[:pos]
            others = [q for q in outs if q.taken[:pos] == sib and len(q.taken) > pos and q.taken[pos] != o.taken[pos]]
            if others and all(q.kind != 'ok' for q in others):
                continue
            c = mul(c, lit)
        res.append((c, o.store))
    return res


def merged(loc, oks, kk=None):
    """value of the location after the generic iteration"""
    return [(c, read_loc(s, loc.key)) for c, s in oks]


def step_fn(loc, oks):
    """idx -> Poly, the state after iteration k"""
    vals = merged(loc, oks)
    if loc.key[0] == 'buf':
        recs = [(c, r) for c, r in vals]
        for c, r in recs:
            if len(r.shape) != len(loc.dims):
                return None
        return lambda idx: addall([mul(c, r.get(idx)) for c, r in recs])
    out = []
    for (c, v), (_c, s) in zip(vals, oks):
        if isinstance(loc.init, Arr):
            if not isinstance(v, Arr) or v.ndim != len(loc.dims):
                return None
            for a, b in zip(v.shape, loc.dims):
                if not (a is b or prover.prove_zero(a - b, smt=False)):
                    return None
            rec = s[v.bid]
            fwd = v.fwd
            out.append((c, (lambda rec, fwd: (lambda idx: rec.get(idx if fwd is None else fwd(list(idx)))))(rec, fwd)))
        else:
            if isinstance(v, Arr) and v.ndim == 0:
                rec, fwd = s[v.bid], v.fwd
                p = rec.get([] if fwd is None else fwd([]))
            elif is_num(v):
                p = topoly(v)
            else:
                return None
            out.append((c, (lambda p: (lambda idx: p))(p)))
    return lambda idx: addall([mul(c, f(idx)) for c, f in out])


def step_kind(loc, oks):
    ks = []
    for (c, v), (_c, s) in zip(merged(loc, oks), oks):
        try:
            ks.append(v.kind if isinstance(v, ArrRec) else s[v.bid].kind if isinstance(v, Arr) else kindof(v))
        except Unsupported:
            return loc.kind
    return X.joinkind(loc.kind, *ks)


def with_store(s, thunk):
    """read lazily from values living in the store s"""
    keep = W.store
    W.store = s
    try:
        return thunk()
    finally:
        W.store = keep


def solve(locs, outs, k, n, where, base, peeled, ints=False):
    """infer closed forms; True when a new one was found"""
    oks = ok_paths(outs)
    if not oks:
        return False
    news = False
    names = {l.cname: l for l in locs.values() if l.mode == 'poly' and l.closed is None}
    for loc in list(locs.values()):
        if loc.mode == 'poly' and loc.closed is None:
            st = step_fn(loc, oks)
            if st is not None and loc.kind == 'r' and loc.key[0] == 'slot' and \
                    any(loc.key[1] == owner for owner, _ in CANDIDATES):
                continue        # ghost state stays abstract
            if st is None:
                # rebinding to something of another type/shape
                vals = merged(loc, oks)
                if peeled < 2 and loc.key[0] == 'slot':
                    raise Peel()
                loc.mode = 'other'
                news = True
                continue
            kd = step_kind(loc, oks)
            if kd != loc.kind and loc.key[0] == 'slot':
                loc.kind = kd
                news = True
                continue
            if ints and loc.kind == 'r':
                continue
            try:
                r = try_solve(loc, st, k, n, names)
                if r is not None:
                    r(P(k), [P(fresh(d, base='t')) for d in loc.dims])
            except EngineError:
                r = None
            if DEBUG:
                t = [fresh(d, base='t') for d in loc.dims]
                print(where, loc.key, loc.cname, 'solved' if r else 'open', st([P(x) for x in t]))
            if r is not None:
                install(loc, r)
                news = True
                LOOPSTAT['solved'] += 1
                continue
            RECS[loc.cname] = (loc.dims, loc.initfn, st, k, n)
        elif loc.mode == 'list' and loc.listval is None:
            vals = merged(loc, oks)
            r0 = loc.init
            if all(v[0] == 'list+' and v[1] == loc.key[1] for _, v in vals):
                m = len(vals[0][1][2])
                if all(len(v[2]) == m for _, v in vals):
                    elts = []
                    for q in range(m):
                        pr = [(c, import_value(v[2][q], s), s) for (c, v), (_c, s) in zip(vals, oks)]
                        elts.append(pr)
                    un = set()
                    keep = W.store
                    loc.elts = elts
                    loc.m = m

                    def lv(kk, loc=loc, r0=r0, m=m, elts=elts):
                        return list_state(r0, m, elts, k, kk)
                    loc.listval = lv
                    news = True
                    return True
                loc.bad = "different number of appends on different paths"
        elif loc.mode == 'other' and loc.otherval is None:
            pass
    return news


def import_value(v, store):
    """make the buffers of a value computed on a path available in the current world"""
    seen = set()

    def rec(x):
        if isinstance(x, Arr):
            if x.bid not in W.store:
                W.store[x.bid] = store[x.bid]
        elif isinstance(x, (LRef, DRef)):
            if x.id not in W.store:
                W.store[x.id] = store[x.id]
            if x.id in seen:
                return
            seen.add(x.id)
            r = store.get(x.id, W.store[x.id])
            if isinstance(r, dict):
                for y in r.values():
                    rec(y)
            elif r[0] == 'list':
                for y in r[1]:
                    rec(y)
            elif r[0] == 'slist':
                for i, q in store.items():
                    if i not in W.store:
                        W.store[i] = q
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, Inst):
            if x.id not in W.store:
                W.store[x.id] = store[x.id]
            if x.id in seen:
                return
            seen.add(x.id)
            for y in store.get(x.id, {}).values():
                rec(y)
        elif isinstance(x, Seq) or isinstance(x, Func):
            for i, q in store.items():
                if i not in W.store:
                    W.store[i] = q
    rec(v)
    return v


def list_state(r0, m, elts, k, kk):
    """list record at the start of iteration kk"""
    kk = P(kk)
    if m == 0:
        return r0
    n0 = P(len(r0[1])) if r0[0] == 'list' else r0[1]

    def at_old(i):
        if r0[0] == 'list':
            if i.const is not None:
                return r0[1][int(i.const)]
            return merge_values([(eq0(i - j), v) for j, v in enumerate(r0[1])])
        return r0[2](i)

    def new_at(i):      # i-th appended
        if m == 1:
            return inst(elts[0], i)
        q = imod(i, P(m))
        it = idiv(i, P(m))
        if q.const is not None:
            return inst(elts[int(q.const)], it)
        return merge_values([(eq0(q - j), inst(elts[j], it)) for j in range(m)])

    def inst(pairs, i):
        for c, x, st in pairs:
            import_value(x, st)
        v = merge_values([(c, x) for c, x, _ in pairs]) if len(pairs) > 1 else pairs[0][1]
        return map_value(v, lambda p: subst(rebuild(p), {k: i}))

    def fn(i):
        i = P(i)
        if n0 is ZERO or nonneg(i - n0):
            return new_at(i - n0)
        if nonneg(n0 - 1 - i):
            return at_old(i)
        c = ge0(i - n0)
        return merge_values([(c, new_at(i - n0)), (ONE - c, at_old(i))])
    return ('slist', n0 + scale(kk, m), fn)


def install(loc, closed):
    loc.closed = closed

    def rw(args):
        return closed(args[0], list(args[1:]))
    T.REWRITE[loc.cname] = rw


def is01(g):
    """provably 0/1: a polynomial of brackets with g*g = g"""
    for mo, c in g.m:
        for a, _e in mo:
            if a.kind not in IDEM:
                return False
    return len(g.m) <= 12 and mul(g, g) is g


def own_location(s, loc, t):
    """under the guard [t == f] the location read at index f is the location t itself"""
    out = []
    for mo, c in s.m:
        sol = {}
        for a, _e in mo:
            if a.kind == 'eq':
                for v in t:
                    if v in a.fv:
                        cc, r = linear_in(a.args[0], v)
                        if cc is not None and cc.const in (1, -1) and v not in r.fv:
                            sol[v] = scale(r, -1 / cc.const)
        if not sol:
            out.append(T._mk({mo: c}))
            continue
        x = ONE
        for a, e in mo:
            if a.kind == 'app' and a.args[0] == loc.cname:
                args = [P(v) if v in sol and q is sol[v] else q for q, v in zip(a.args[2:], t)]
                a = intern('app', (loc.cname, a.args[1]) + tuple(args), a.sort)
            for _ in range(e):
                x = mul(x, P(a))
        out.append(scale(x, c))
    return addall(out)


def untouched(loc, s, me, k, t):
    """reads of the location itself at places that no earlier iteration wrote give the value before the loop"""
    if loc.cname in T.REWRITE:
        return s
    gs = set()
    for mo, c in (s - P(me)).m:
        gs.add(T._mk({tuple((x, e) for x, e in mo if x.kind in IDEM and not mentions(P(x), {loc.cname})): F1}))
    if ONE in gs or not gs:
        return s
    K = P(k)

    def rw(args):
        idx = list(args[1:])
        if args[0] is not K or all(x is P(y) for x, y in zip(idx, t)):
            return None
        j = fresh(K, base='j')
        for g in gs:
            hit = subst(subst(g, {k: P(j)}), dict(zip(t, idx)))
            if not (hit is ZERO or prover.prove_zero(hit, smt=False)):
                return None
        return loc.initfn(idx)
    T.REWRITE[loc.cname] = rw
    try:
        return rebuild(s)
    finally:
        del T.REWRITE[loc.cname]


def try_solve(loc, st, k, n, names):
    t = [fresh(d, base='t') for d in loc.dims]
    tp = [P(x) for x in t]
    s = own_location(rebuild(st(tp)), loc, t)
    K = P(k)
    me = loc.raw(K, tp)
    cat = P(me) if loc.kind != 'b' else ge0(P(me) - 1)
    if loc.dims and loc.kind != 'b':
        s = untouched(loc, s, me, k, t)
    ment = mentions(s, names)
    init = loc.initfn(tp)

    def clo(f):
        """f(kk) -> Poly over t"""
        def closed(kk, idx):
            v = f(P(kk))
            return subst(v, dict(zip(t, idx)))
        return closed
    if s is cat:
        return clo(lambda kk: init)
    if ment - {loc.cname}:
        return None
    if not ment:
        return clo(lambda kk: ite(ge0(kk - 1), subst(s, {k: kk - 1}), init))
    if loc.kind == 'b':
        at = list(cat.m[0][0])[0][0]
    else:
        at = me
    d = s - cat
    if not mentions(d, names):
        def acc(kk):
            j = fresh(kk, base='j')
            return init + mk_sum(j, kk, subst(d, {k: P(j)}))
        return clo(acc)
    a, b = linear_in(s, at)
    if a is None:
        return None
    # running maximum / minimum
    if not mentions(b, names) is None and len(loc.dims) >= 0:
        r = running_max(loc, s, at, a, b, k, init, names)
        if r is not None:
            return clo(r)
    if mentions(a, names):
        return None
    g = ONE - a
    if not is01(g):
        # own-location update inside the guard: a = (1-g) + g*alpha, handled when hit once
        r = hit_once_general(loc, s, at, a, b, k, n, tp, init, names)
        return clo(r) if r is not None else None
    if mentions(b, names):
        return None
    r = running_argmax(g, b, k, init)
    if r is not None:
        return clo(r)
    # all hits write the same value
    for cand in const_ratio(b, g):
        if k not in cand.fv and mul(cand, g) is b:
            def fl(kk, cand=cand):
                j = fresh(kk, base='j')
                no = mk_all(j, kk, subst(a, {k: P(j)}))
                return mul(no, init) + mul(ONE - no, cand)
            once = hit_once(g, b, k, n, init)
            return clo(once if once is not None else fl)
    once = hit_once(g, b, k, n, init)
    if once is not None:
        return clo(once)
    return None


def const_ratio(b, g):
    if b is ZERO:
        return [ZERO]
    if not g.m:
        return []
    (mo, c) = g.m[-1]
    dm = dict(b.m)
    out = []
    # b = cand * g with cand a constant or a guard-free factor
    for mo2, c2 in b.m:
        m2 = dict(mo2)
        if all(m2.get(x) == e for x, e in mo):
            rest = tuple(y for y in mo2 if y[0] not in dict(mo))
            out.append(T._mk({rest: c2 / c}))
    # sums of such
    if len(out) > 1:
        out.append(addall(out))
    return out


def split_hits(g, k):
    """g = sum of products, each with an equation that determines k: [(e, mono poly)]"""
    res = []
    for mo, c in g.m:
        if c != 1:
            return None
        e = None
        for a, _x in mo:
            if a.kind == 'eq' and k in a.fv:
                cc, r = linear_in(a.args[0], k)
                if cc is not None and cc.const is not None and k not in r.fv:
                    e_ = scale(r, -1 / cc.const)
                    if is_int(e_):
                        e = e_
                        break
        if e is None:
            return None
        res.append((e, T._mk({mo: F1})))
    return res


def div_guard(g, k):
    """g (one monomial) is an interval [q*k <= t < q*k + q]: the hit is k = t div q"""
    if len(g.m) != 1 or g.m[0][1] != 1:
        return None
    mo = g.m[0][0]
    lo = hi = None
    for a, _e in mo:
        if a.kind == 'ge' and k in a.fv:
            c, r = linear_in(a.args[0], k)
            if c is None or k in r.fv or k in c.fv:
                return None
            if nonneg(c - 1):
                hi = (c, r)         # c*k + r >= 0
            elif nonneg(-c - 1):
                lo = (c, r)         # t - q*k >= 0 : r = t
            else:
                return None
    if lo is None or hi is None:
        return None
    q = -lo[0]
    if hi[0] is not q:
        return None
    # r_lo - q k >= 0 and q k + r_hi >= 0 with r_hi = q - 1 - r_lo
    if hi[1] is not (q - 1 - lo[1]):
        return None
    return idiv(lo[1], q)


def hit_once(g, b, k, n, init):
    hits = split_hits(g, k)
    if hits is None:
        e = div_guard(g, k)
        if e is None:
            return None
        hits = [(e, g)]
    hs = []
    for e, gm in hits:
        h = mul(mul(subst(gm, {k: e}), ge0(e)), ge0(n - 1 - e))
        hs.append((e, gm, h))
    if len(hs) > 1:
        for i in range(len(hs)):
            for j in range(i):
                x = mul(hs[i][2], hs[j][2])
                if x is not ZERO and not prover.prove_zero(x, smt=False):
                    if hs[i][0] is not hs[j][0]:
                        return None
    # group by e
    groups = {}
    for e, gm, h in hs:
        groups.setdefault(e, []).append(h)

    def f(kk):
        keep = ONE
        val = ZERO
        for e, hl in groups.items():
            h = addall(hl)
            lt = ge0(kk - 1 - e)
            h = mul(h, lt)
            keep = keep - h
            val = val + mul(h, subst(b, {k: e}))
        return mul(keep, init) + val
    return f


def hit_once_general(loc, s, at, a, b, k, n, tp, init, names):
    """locations updated from their own old value, each at most once: a, b in terms of guards that fix k"""
    d = s - P(at)
    if mentions(b, names):
        return None
    # every monomial of d contains a guard determining k, the same for all
    e0 = None
    for mo, c in d.m:
        h = split_hits(T._mk({mo: F1}) if True else None, k)
        if h is None:
            # strip non guard atoms
            gm = tuple((x, e) for x, e in mo if x.kind in IDEM)
            h = split_hits(T._mk({gm: F1}), k)
        if h is None:
            return None
        e = h[0][0]
        if e0 is None:
            e0 = e
        elif e is not e0:
            return None
    if e0 is None:
        return None

    # C(e0, t) is still the initial value
    dd = subst(d, {k: e0})
    c1, r1 = linear_in(dd, intern('app', (loc.cname, e0) + tuple(tp), loc.sort))
    if c1 is None or mentions(c1, names) or mentions(r1, names):
        return None

    def f(kk):
        rng = mul(mul(ge0(e0), ge0(n - 1 - e0)), ge0(kk - 1 - e0))
        return init + mul(rng, mul(c1, init) + r1)
    try:
        f(n)
    except Unsupported:
        return None
    return f


def running_max(loc, s, at, a, b, k, init, names):
    """s = [F > c] F + [F <= c] c"""
    gs = [x for x in a.atoms() if x.kind in ('ge', 'gt')]
    if len(gs) != 1 or loc.kind == 'b':
        return None
    g = gs[0]
    for sign in (1, -1):
        q = scale(g.args[0], sign)
        c, r = linear_in(q, at)
        if c is None or c.const is None or c is ZERO or mentions(r, names):
            continue
        F = scale(r, -1 / c.const)
        if mentions(F, names):
            continue
        C = P(at)
        for mx in (True, False):
            for strict in (True, False):
                if mx:
                    gg = gt0(F - C) if strict else ge0(F - C)
                else:
                    gg = gt0(C - F) if strict else ge0(C - F)
                cand = ite(gg, F, C)
                alt = mul(gg, F) + mul(ONE - gg, C)
                if s is cand or s is alt or prover.prove_zero(s - cand, smt=False):
                    def f(kk, mx=mx, F=F):
                        j = fresh(kk, base='j')
                        Fj = subst(F, {k: P(j)})
                        m = mk_max(j, kk, Fj) if mx else -mk_max(j, kk, -Fj)
                        val = pmax(init, m) if mx else pmin(init, m)
                        return ite(ge0(kk - 1), val, init)
                    return f
    return None


def running_argmax(g, b, k, init):
    """s = [F(k) > max{j<k} F(j)] (k + c) + [else] s: the first place of the running maximum"""
    q = linear_shift(b, g, k)
    if q is None:
        return None
    st, seen = [g], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.atoms():
            if a.kind == 'max' and len(a.args[1]) == 1 and a.args[1][0] is P(k):
                bv = a.args[0][0]
                F = subst(a.args[2], {bv: P(k)})
                if k not in F.fv:
                    continue
                want = ite(ge0(P(k) - 1), gt0(F - P(a)), ONE)
                if g is want or prover.prove_zero(g - want, smt=False):
                    def f(kk, F=F):
                        j = fresh(kk, base='j')
                        return ite(ge0(kk - 1), mk_argmax(j, kk, subst(F, {k: P(j)})) + q, init)
                    return f
            st.extend(y for y in a.args if isinstance(y, Poly))
    return None


def linear_shift(b, g, k):
    """the constant c with b = g*(k + c)"""
    r = b - mul(g, P(k))
    if r is ZERO:
        return ZERO
    for c in (1, -1):
        if r is scale(g, c):
            return P(c)
    return None


def final_value(loc, kk, outs, k, n):
    """value of the location at the start of iteration kk (kk = n: after the loop)"""
    kk = P(kk)
    if loc.mode == 'poly':
        if loc.key[0] == 'buf':
            return ArrRec(loc.dims, lambda idx: loc.at(kk, idx), loc.kind)
        if isinstance(loc.init, Arr):
            return mkarr(loc.dims, lambda idx: loc.at(kk, idx), loc.kind)
        return mknum(loc.at(kk, []), loc.kind)
    if loc.mode == 'list':
        if loc.listval is None:
            oks = ok_paths(outs)
            if not oks:
                return loc.init
            raise Unsupported("list changed in a loop in an unsupported way (%s)" % getattr(loc, 'bad', ''))
        return loc.listval(kk)
    # other: overwritten in every iteration
    oks = ok_paths(outs)
    if not oks:
        return loc.init
    vals = [(c, import_value(v, s)) for (c, v), (_c, s) in zip(merged(loc, oks), oks)]
    if any(isinstance(v, Undef) for _, v in vals):
        return Undef('loop-carried')
    try:
        v = merge_values(vals)
        v = map_value(v, lambda p: subst(rebuild(p), {k: kk - 1}))
    except Unsupported as e:
        return Undef(str(e))
    if prover.entails(ge0(kk - 1), smt=False):
        return v
    if loc.init is MISSING:
        return LastOf(v, ge0(kk - 1))
    if isinstance(loc.init, Undef) or isinstance(v, Undef):
        return Undef('loop may be empty')
    c = ge0(kk - 1)
    return merge_values([(c, v), (ONE - c, loc.init)])


class LastOf(Undef):
    """bound only if the loop ran"""
    def __init__(self, v, cond):
        self.v, self.cond = v, cond
        self.why = 'variable of a possibly empty loop'
