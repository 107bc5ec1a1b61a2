"""C17: periodic saving of learners."""
import os
import pickle
import shutil
import tempfile
import numpy as np
from pv.dsl import *          # noqa
from pystruct.utils import SaveLogger
from pystruct.models import MultiClassClf
from pystruct.learners import (OneSlackSSVM, NSlackSSVM, SubgradientSSVM, FrankWolfeSSVM,
                               LatentSSVM, SubgradientLatentSSVM)


class Learner(object):
    def __init__(self, **attributes):
        for name in attributes:
            setattr(self, name, attributes[name])


def c_when():
    """saved at the multiples of save_every and at the end, and at no other iteration"""
    every, t = dim('save_every', 1), dim('iteration', 0)
    final = choice('final', [False, True])
    learner, saved = Learner(w=real('w', 3)), []
    logger = SaveLogger('model.pickle', save_every=every, verbose=0)

    def save(self, learner_, file_name):
        ensure('the learner', learner_ is learner)
        ensure('the file', file_name == 'model.pickle')
        saved.append(True)
    stub('pystruct.utils.logging.SaveLogger.save', save)
    logger(learner, 'final' if final else t)
    ensure('saved when due', (len(saved) == 1) if final or t % every == 0 else len(saved) == 0)


def c_name():
    """the iteration is substituted in the file name"""
    pattern = choice('pattern', ['model.pickle', 'model_%d.pickle', '%d', 'a/%d/model_b'])
    t = choice('iteration', [0, 1, 20, 300, 'final'])
    saved = []
    stub('pystruct.utils.logging.SaveLogger.save', lambda self, learner, file_name: saved.append(file_name))
    SaveLogger(pattern, save_every=1)(Learner(), t)
    ensure('file name', saved == [pattern.replace('%d', str(t))])


def real_learner(attributes):
    s = OneSlackSSVM(MultiClassClf(2, 3))
    for name in attributes:
        setattr(s, name, attributes[name])
    return s


class File(object):
    def __init__(self):
        self.is_open = False

    def __enter__(self):
        self.is_open = True
        return self

    def __exit__(self, *args):
        self.is_open = False


def c_save():
    """the whole learner but its cache is written, and the learner is as before, even after a failure"""
    has = choice('cache', ['no', 'none', 'some'])
    fails = choice('fails', ['no', 'opening', 'writing'])
    attributes = {'w': real('w', 4), 'curve': [1.0, 2.0], 'name': 'x', 'alphas': real('alphas')}
    cache = [[(1, 2, 3)]] if has == 'some' else None
    learner = Learner(**attributes) if is_symbolic() else real_learner(attributes)
    if has != 'no':
        learner.inference_cache_ = cache
    if is_symbolic():
        saving_symbolic(learner, attributes, has, fails)
    else:
        saving(learner, attributes, has, fails)
    ensure('cache as before', learner.inference_cache_ is cache if has != 'no' else not hasattr(learner, 'inference_cache_'))
    for name in ('w', 'curve', 'name', 'alphas'):
        ensure('as before', getattr(learner, name) is attributes[name])
    ensure('list as before', learner.curve == [1.0, 2.0])


def saving_symbolic(learner, attributes, has, fails):
    f, written = File(), []

    def opening(name, mode='r'):
        ensure('the file given', name == 'model.pickle')
        ensure('for writing bytes', mode == 'wb')
        if fails == 'opening':
            raise IOError('cannot open')
        return f

    def dump(obj, file, protocol=None):
        ensure('into the open file', file is f and f.is_open)
        ensure('the learner', obj is learner)
        for name in ('w', 'curve', 'name', 'alphas'):
            ensure('complete', getattr(obj, name) is attributes[name])
        ensure('without its cache', has == 'no' or obj.inference_cache_ is None)
        if fails == 'writing':
            raise ValueError('cannot write')
        written.append(True)
    stub('builtins.open', opening)
    stub('pickle.dump', dump)
    logger = SaveLogger('other.pickle')
    if fails == 'no':
        logger.save(learner, 'model.pickle')
        ensure('written once', len(written) == 1)
    else:
        ensure_raises('failure reported', logger.save, learner, 'model.pickle')
    ensure('file closed', not f.is_open)


def saving(learner, attributes, has, fails):
    """the same with real files in a scratch directory"""
    where = tempfile.mkdtemp()
    try:
        name = os.path.join(where, 'missing' if fails == 'opening' else '.', 'model.pickle')
        if fails == 'writing':
            attributes['alphas'] = learner.alphas = lambda: 0          # cannot be pickled
        logger = SaveLogger(name)
        if fails == 'no':
            logger.save(learner, name)
            ensure('nothing else written', os.listdir(where) == ['model.pickle'])
            same_state(logger.load(), learner)
        else:
            ensure_raises('failure reported', logger.save, learner, name)
    finally:
        shutil.rmtree(where)


def same_state(a, b, seen=None):
    """a loaded copy has the state of b, except for the inference cache"""
    if isinstance(b, np.ndarray):
        ensure_eq('same values', a, b)
        ensure('same type', a.dtype == b.dtype)
    elif isinstance(b, (list, tuple)):
        ensure('same length', type(a) is type(b) and len(a) == len(b))
        for x, y in zip(a, b):
            same_state(x, y)
    elif isinstance(b, dict):
        ensure('same keys', set(a) == set(b))
        for k in b:
            same_state(a[k], b[k])
    elif hasattr(b, '__dict__') and type(b).__module__.startswith(('pystruct', 'contracts')):
        ensure('same class', type(a) is type(b))
        ensure('same attributes', set(vars(a)) == set(vars(b)))
        for k in vars(b):
            if k == 'inference_cache_':
                ensure('no cache stored', getattr(a, k) is None)
            else:
                same_state(getattr(a, k), getattr(b, k))
    elif isinstance(b, (int, float, str, bool, type(None), np.generic)):
        ensure('same value', a == b or b != b)


def contents(where):
    r = {}
    for name in os.listdir(where):
        with open(os.path.join(where, name), 'rb') as f:
            r[name] = f.read()
    return r


LEARNERS = (OneSlackSSVM, NSlackSSVM, SubgradientSSVM, FrankWolfeSSVM, OneSlackSSVM)


def c_training():
    """learners in training are saved when due and loading gives their state at that time"""
    n, iterations = 5, choice('max_iter', [1, 3, 4])
    every = choice('save_every', [1, 2, 3])
    X, Y = real('X', n, 2), np.array([0, 1, 2, 1, 0])
    cls = LEARNERS[choice('learner', [0, 1, 2, 3, 4])]
    options = {'inference_cache': choice('cached', [0, 2])} if cls is OneSlackSSVM else {}
    where = tempfile.mkdtemp()
    names, checked = {}, []
    try:
        pattern = os.path.join(where, choice('pattern', ['m_%d', 'fixed']))
        logger = SaveLogger(pattern, save_every=every)

        def log(learner, t):
            before = {k: v for k, v in vars(learner).items()}
            learner.logger = None
            old = contents(where)
            logger(learner, t)
            due, new = t == 'final' or t % every == 0, contents(where)
            name = os.path.basename(pattern.replace('%d', str(t)))
            ensure('only the configured file is written', all(new[k] == old[k] for k in old if k != name)
                   and set(new) - set(old) <= {name})
            if due:
                ensure('saved when due', name in new)
                same_state(SaveLogger(os.path.join(where, name)).load(), learner)
            else:
                ensure('saved only when due', new == old)
            learner.logger = log
            ensure('attributes as before', set(before) == set(vars(learner)))
            for k, v in before.items():
                ensure('as before', vars(learner)[k] is v)
            checked.append(t)
        svm = cls(MultiClassClf(2, 3), max_iter=iterations, logger=log, **options)
        svm.fit(X, Y)
        ensure('saved at the end', checked[-1] == 'final')
    finally:
        shutil.rmtree(where)


BOUNDED = {'c_training': 'real files and whole training runs',
           'c_name': 'some file names and iterations'}
