"""The contract language, concrete side: contracts run under CPython on the real pystruct with drawn values.

(The symbolic side of the same vocabulary is in symdsl.py: there the draws are universally quantified.)"""
import random
import sys
import copy as _copy
import numpy as np


class Skip(Exception):
    """the drawn values do not meet the precondition"""


class ContractFailure(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, label, detail)
        self.label, self.detail = label, detail


class State(object):
    rng = random.Random(0)
    size = 3
    fixed = None         # replay: name -> value
    draws = {}
    literals = []
    checked = 0
    undo = []
    fake = []            # modules made up for stubs of libraries that are not installed
    mode = 0
    bias = 0.25


S = State()


def _draw(name, f):
    if name in S.draws:
        raise AssertionError("name drawn twice: " + name)
    if S.fixed is not None:
        if name not in S.fixed:
            raise Skip()
        v = S.fixed[name]
    else:
        v = f()
    S.draws[name] = v
    return v


def dim(name, lo=1, hi=None):
    """an arbitrary integer >= lo (<= hi)"""
    def f():
        up = lo + S.size
        if S.rng.random() < 0.12 and S.literals:
            c = S.rng.choice(S.literals)
            if lo <= c <= max(up, 9) and (hi is None or c <= hi):
                return c
        if hi is not None:
            up = min(up, hi)
        return S.rng.randint(lo, up)
    return int(_draw(name, f))


def _real():
    r = S.rng
    if S.mode == 1:
        return float(r.choice([-1, 0, 1]))
    if S.mode == 2:
        return r.randint(-64, 64) / 16.0
    if S.mode == 3:
        return float(r.choice([0, 0, 1, -1, 0.5, 2]))
    if S.mode == 4:      # values that differ by little
        return r.choice([0, 0, 1, -1]) + r.randint(-3, 3) / 1024.0
    return r.randint(-8, 8) / 4.0


def _layout(name, a):
    """arrays of two and more dimensions come in either memory layout"""
    if a.ndim < 2:
        return a
    key = name + ' layout'
    if S.fixed is not None:
        order = S.fixed.get(key, 'C')
    else:
        order = S.rng.choice('CCCF')
    if order == 'F':
        S.draws[key] = order
        return np.asfortranarray(a)
    return a


def real(name, *shape):
    """arbitrary reals"""
    shape = tuple(int(s) for s in shape)

    def f():
        if not shape:
            return _real()
        n = int(np.prod(shape))
        return np.array([_real() for _ in range(n)], dtype=float).reshape(shape).tolist()
    v = _draw(name, f)
    if not shape:
        return float(v)
    return _layout(name, np.array(v, dtype=float).reshape(shape))


def nonneg_real(name, *shape):
    v = real(name, *shape)
    return abs(v)


def pos_real(name, *shape):
    v = real(name, *shape)
    return np.abs(v) + 0.25 if shape else abs(v) + 0.25


def ints(name, shape, lo, hi):
    """arbitrary integers in [lo, hi)"""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = tuple(int(s) for s in shape)

    def f():
        n = 1
        for s in shape:
            n *= s
        if callable(lo) or callable(hi):
            vals = []
            for ix in np.ndindex(*shape):
                a = lo(*ix) if callable(lo) else lo
                b = hi(*ix) if callable(hi) else hi
                if b <= a:
                    raise Skip()
                vals.append(S.rng.randint(int(a), int(b) - 1))
            return np.array(vals, dtype=int).reshape(shape).tolist()
        if n and hi <= lo:
            raise Skip()
        vals = [S.rng.randint(int(lo), int(hi) - 1) for _ in range(n)]
        return np.array(vals, dtype=int).reshape(shape).tolist()
    v = _draw(name, f)
    return _layout(name, np.array(v, dtype=int).reshape(shape))


def integer(name, lo, hi):
    def f():
        if hi <= lo:
            raise Skip()
        return S.rng.randint(int(lo), int(hi) - 1)
    return int(_draw(name, f))


def choice(name, options):
    options = list(options)
    i = _draw(name, lambda: S.rng.randrange(len(options)))
    return options[i]


def assume(c):
    if not np.all(c):
        raise Skip()


def _close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=1e-7, atol=1e-7, equal_nan=False))


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        try:
            if len(a) != len(b):
                return False
        except TypeError:
            return False
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or np.isscalar(a):
        try:
            if hasattr(a, 'toarray'):
                a = a.toarray()
            if hasattr(b, 'toarray'):
                b = b.toarray()
            return _close(a, b)
        except (TypeError, ValueError):
            return False
    return a is b or a == b


def ensure(label, cond):
    S.checked += 1
    if not bool(np.all(cond)):
        raise ContractFailure(label, 'condition is false')


def ensure_eq(label, a, b):
    S.checked += 1
    if not same(a, b):
        raise ContractFailure(label, 'left side %s, right side %s' % (_short(a), _short(b)))


def ensure_le(label, a, b):
    S.checked += 1
    if not np.all(np.asarray(a) <= np.asarray(b) + 1e-7 * (1 + np.abs(np.asarray(b)))):
        raise ContractFailure(label, 'left side %s exceeds right side %s' % (_short(a), _short(b)))


def ensure_kind(label, a, kind):
    """kind 'i' integer array / number, 'r' real"""
    S.checked += 1
    k = np.asarray(a).dtype.kind
    if kind == 'i' and k not in 'iu':
        raise ContractFailure(label, 'expected integers, got %s' % np.asarray(a).dtype)


def fail(label):
    S.checked += 1
    raise ContractFailure(label, 'reached')


def _short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def SUM(n, f):
    s = 0
    for i in range(int(n)):
        s = s + f(i)
    return s


def ALL(n, f):
    return all(bool(np.all(f(i))) for i in range(int(n)))


def MAX(n, f):
    return max(f(i) for i in range(int(n)))


def ARGMAX(n, f):
    return int(np.argmax([f(i) for i in range(int(n))]))


def IF(c, a, b):
    return a if c else b


def AND(*a):
    return all(bool(x) for x in a)


def OR(*a):
    return any(bool(x) for x in a)


def NOT(a):
    return not bool(a)


def IMPLIES(a, b):
    return (not a) or bool(b)


def array_of(shape, f, kind='r'):
    """the array with entries f(i, j, ...)"""
    shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    out = np.zeros(shape, dtype=float if kind == 'r' else int)
    for idx in np.ndindex(*shape):
        out[idx] = f(*idx)
    return out


def list_of(n, f):
    return [f(i) for i in range(int(n))]


def raises(f, *args, **kwargs):
    """name of the exception raised by the call, or None"""
    try:
        f(*args, **kwargs)
    except (Skip, ContractFailure):
        raise
    except Exception as e:
        return type(e).__name__
    return None


def ensure_raises(label, f, *args, **kwargs):
    S.checked += 1
    if raises(f, *args, **kwargs) is None:
        raise ContractFailure(label, 'no exception')


def snapshot(*objs):
    return _copy.deepcopy(objs)


def ensure_unchanged(label, snap, *objs):
    S.checked += 1
    for a, b in zip(snap, objs):
        if not same_exact(a, b):
            raise ContractFailure(label, 'argument changed: %s -> %s' % (_short(a), _short(b)))


def same_exact(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_exact(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_exact(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
    try:
        return bool(a == b)
    except Exception:
        return True


def is_view(a, b):
    """whether writing into a could change b"""
    return bool(np.shares_memory(a, b))


def modular(qual, f):
    """verification only: use the callee's contract f instead of its body (proved elsewhere); runs use the body"""


def stub(qual, f):
    """replace the function / method called `qual` by f (its contract) everywhere in the package"""
    parts = qual.split('.')
    if parts[0] != 'pystruct' and not _try_import('.'.join(parts[:-1])):
        import types
        for cut in range(1, len(parts)):
            name = '.'.join(parts[:cut])
            if name not in sys.modules:
                sys.modules[name] = types.ModuleType(name)
                if cut > 1:
                    setattr(sys.modules['.'.join(parts[:cut - 1])], parts[cut - 1], sys.modules[name])
                S.fake.append(name)
    for cut in range(len(parts) - 1, 0, -1):
        name = '.'.join(parts[:cut])
        if name in sys.modules or _try_import(name):
            owner = sys.modules[name]
            rest = parts[cut:]
            break
    else:
        raise Skip()
    for r in rest[:-1]:
        owner = getattr(owner, r)
    attr = rest[-1]
    if not hasattr(owner, attr):
        if parts[0] == 'pystruct':
            raise Skip()
        setattr(owner, attr, None)
    orig = owner.__dict__.get(attr, getattr(owner, attr)) if isinstance(owner, type) else getattr(owner, attr)
    _patch(owner, attr, f)
    if not isinstance(owner, type):
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').split('.')[0] == 'pystruct' and m is not owner:
                for k, v in list(vars(m).items()):
                    if v is orig and callable(v):
                        _patch(m, k, f)


def _try_import(name):
    import importlib
    try:
        importlib.import_module(name)
        return True
    except ImportError:
        return False


def _patch(owner, attr, f):
    old = owner.__dict__.get(attr, None) if isinstance(owner, type) else getattr(owner, attr)
    had = attr in owner.__dict__
    S.undo.append((owner, attr, old, had))
    setattr(owner, attr, f)


def unpatch():
    for owner, attr, old, had in reversed(S.undo):
        if had:
            setattr(owner, attr, old)
        else:
            delattr(owner, attr)
    S.undo = []
    for name in S.fake:
        sys.modules.pop(name, None)
    S.fake = []


def begin(rng, size, fixed=None, mode=0):
    S.rng, S.size, S.fixed, S.mode = rng, size, fixed, mode
    S.draws = {}
    S.checked = 0


def is_symbolic():
    return False


def fabricate(cls):
    """an instance without running __init__"""
    return cls.__new__(cls)


def candidates(owner, *fs):
    """verification only: ghost expressions offered as invariants of the loops ("some location equals this")"""


def _table(name, draw):
    made = {}

    def f(*idx):
        k = tuple(int(i) for i in idx)
        if k not in made:
            made[k] = _draw('%s(%s)' % (name, ','.join(map(str, k))), draw)
        return made[k]
    return f


def function(name, sign=None):
    """an arbitrary function of integers with real values (sign 'nonneg' or 'pos')"""
    f = _table(name, _real)
    if sign == 'nonneg':
        return lambda *i: abs(f(*i))
    if sign == 'pos':
        return lambda *i: abs(f(*i)) + 0.25
    return f


def int_function(name, lo, hi):
    """an arbitrary function of integers with integer values in [lo, hi)"""
    def draw():
        if hi <= lo:
            raise Skip()
        return S.rng.randint(int(lo), int(hi) - 1)
    f = _table(name, draw)
    return lambda *i: int(f(*i))


def invariant(*fs):
    """verification only: f(iterations done, value before the loop) offered as invariant of some location of a loop"""


def split_loops(*ats):
    """verification only: loops that run past iteration `at` are verified as two loops, one after the other"""


def recursive(name, n, shape, first, step, kind='r', lo=None, hi=None):
    """the function defined by f(0, *idx) = first(*idx) and f(i + 1, *idx) = step(f(i, .), i, *idx) for i + 1 < n"""
    memo = {}

    def f(i, *idx):
        key = (int(i),) + tuple(int(j) for j in idx)
        if key not in memo:
            memo[key] = first(*idx) if i == 0 else step(lambda *j: f(i - 1, *j), i - 1, *idx)
        return memo[key]
    return f


def telescope(n, f, attained=False):
    """lemma: the sum of f(i + 1) - f(i) over i < n is f(n) - f(0)"""


def reversal(n, f):
    """lemma: the sum of f(i) over i < n is the sum of f(n - 1 - i)"""


def ends_apart(n, f):
    """lemma: a sum over i < n + 1 is its first summand and the rest, and its last summand and the rest"""


def sums_le(name, n, f, g):
    """obligation: f(i) <= g(i) for i < n; its consequence for the sums is known afterwards"""
    ensure(name, ALL(n, lambda i: f(i) <= g(i)))
