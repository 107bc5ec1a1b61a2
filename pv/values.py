"""Symbolic values and the mutable world of the interpreter."""
import itertools
from .terms import *          # noqa
from . import terms as T
from . import prover


class PyRaise(Exception):
    """a Python exception of the interpreted program"""
    def __init__(self, name, msg=''):
        Exception.__init__(self, name, msg)
        self.name, self.msg = name, msg


class Unsupported(EngineError):
    pass


class PathAbort(Exception):
    """path became infeasible"""


class Num(object):
    __slots__ = ('p', 'kind', 'np')

    def __init__(self, p, kind, np=False):
        self.p, self.kind, self.np = p, kind, np

    def __repr__(self):
        return 'Num(%r,%s)' % (self.p, self.kind)


class Inf(object):
    def __init__(self, sign):
        self.sign = sign

    def __repr__(self):
        return 'Inf(%d)' % self.sign


class Undef(object):
    """value that may be unbound / depends on a possibly empty loop"""
    def __init__(self, why=''):
        self.why = why


class Str(object):
    """opaque string"""
    def __init__(self, parts=()):
        self.parts = parts

    def __repr__(self):
        return 'Str(%r)' % (self.parts,)


_ids = itertools.count(1)


class World(object):
    def __init__(self):
        self.store = {}
        self.side = []          # (description, 0/1 poly or callable) side conditions
        self.log = []

    def new(self, rec):
        i = next(_ids)
        self.store[i] = rec
        return i

    def snapshot(self):
        s = {}
        for i, r in self.store.items():
            s[i] = r.copy() if r.__class__ in (dict, EnvRec, InstRec) else r
        return s

    def restore(self, s):
        self.store = {i: (r.copy() if r.__class__ in (dict, EnvRec, InstRec) else r) for i, r in s.items()}


class EnvRec(dict):
    def copy(self):
        return EnvRec(self)


class InstRec(dict):
    def copy(self):
        return InstRec(self)


W = World()


class ArrRec(object):
    __slots__ = ('shape', 'fn', 'kind', 'writes', '_memo', '_ver', 'origin')

    def __init__(self, shape, fn, kind, writes=0, origin=None):
        self.shape, self.kind, self.writes = tuple(shape), kind, writes
        self._memo = {}
        self._ver = None
        self.fn = fn
        self.origin = origin

    def get(self, idx):
        v = T.VERSION[0]
        if self._ver != v:
            self._memo = {}
            self._ver = v
        key = tuple(idx)
        r = self._memo.get(key)
        if r is None:
            r = self.fn(list(idx))
            self._memo[key] = r
        return r


class Arr(object):
    """reference to a buffer, possibly through a view"""
    __slots__ = ('bid', 'shape', 'fwd', 'inv', 'contig')

    def __init__(self, bid, shape, fwd=None, inv=None, contig=True):
        self.bid, self.shape, self.fwd, self.inv, self.contig = bid, tuple(shape), fwd, inv, contig

    @property
    def rec(self):
        return W.store[self.bid]

    @property
    def kind(self):
        return self.rec.kind

    @property
    def ndim(self):
        return len(self.shape)

    def reader(self):
        rec = self.rec
        if self.fwd is None:
            return rec.get
        fwd = self.fwd
        return lambda idx: rec.get(fwd(list(idx)))

    def at(self, *idx):
        return self.reader()(list(idx))

    def __repr__(self):
        return 'Arr#%d(%s)%s' % (self.bid, ','.join(map(str, self.shape)), self.kind)


def mkarr(shape, fn, kind, origin=None):
    rec = ArrRec(shape, fn, kind, origin=origin)
    return Arr(W.new(rec), rec.shape)


class LRef(object):
    """python list"""
    __slots__ = ('id',)

    def __init__(self, items=None, rec=None):
        self.id = W.new(rec if rec is not None else ('list', tuple(items or ())))

    @property
    def rec(self):
        return W.store[self.id]

    def set(self, rec):
        W.store[self.id] = rec


class SRef(LRef):
    """python set: list of distinct elements (concrete), or a symbolic sequence possibly with repetitions"""
    __slots__ = ()


class DRef(object):
    __slots__ = ('id',)

    def __init__(self, d=None):
        self.id = W.new(dict(d or {}))

    @property
    def rec(self):
        return W.store[self.id]


class Seq(object):
    """immutable symbolic sequence: length poly, element function poly -> value"""
    def __init__(self, n, fn, kind='seq'):
        self.n, self.fn, self.kind = n, fn, kind


class Inst(object):
    __slots__ = ('cls', 'id')

    def __init__(self, cls):
        self.cls = cls
        self.id = W.new(InstRec())

    @property
    def rec(self):
        return W.store[self.id]

    def __repr__(self):
        return '<%s>' % self.cls.name


class ClassVal(object):
    def __init__(self, name, bases, body, module):
        self.name, self.bases, self.body, self.module = name, bases, body, module
        self._mro = None

    @property
    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassVal)] + \
                [[b for b in self.bases if isinstance(b, ClassVal)]]
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("mro")
                out.append(c)
                for s in seqs:
                    if s[0] is c:
                        del s[0]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.body:
                return c.body[name], c
        return None, None

    def __repr__(self):
        return '<class %s>' % self.name


class Func(object):
    def __init__(self, node, module, env=None, cls=None, qual=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual or (module.name + '.' + self.name)
        self.defaults = None

    def __repr__(self):
        return '<func %s>' % self.qual


class Bound(object):
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class TypeVal(object):
    """builtin / numpy type used in isinstance, dtype=... and as a cast"""
    def __init__(self, name, kind=None):
        self.name, self.kind = name, kind

    def __repr__(self):
        return '<type %s>' % self.name


class Opaque(object):
    """external object (module, solver result...) with python-side attribute handler"""
    def __init__(self, name, getattr_=None, call=None, attrs=None):
        self.name, self.getattr_, self.call, self.attrs = name, getattr_, call, attrs or {}

    def __repr__(self):
        return '<opaque %s>' % self.name
