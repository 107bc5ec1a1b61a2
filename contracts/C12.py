"""C12: Frank-Wolfe keeps weights, dual variables and step sizes consistent."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners import FrankWolfeSSVM


class Truth(object):
    def __init__(self, i):
        self.i = i


class Guess(object):
    """the t-th candidate found"""
    def __init__(self, t, i):
        self.t, self.i = t, i


class Blocks(object):
    """the documented algorithm: weights W and loss terms L of each sample, as ghost state"""
    def __init__(self, n, d, line_search, averaging):
        self.n, self.d, self.line_search, self.averaging = n, d, line_search, averaging
        self.C = pos_real('C')
        self.W = np.zeros((n, d))
        self.L = np.zeros(n)
        self.k = 0
        self.mean = np.zeros(d)
        self.mean_l = 0.0

    def weights(self):
        return array_of((self.d,), lambda j: SUM(self.n, lambda i: self.W[i, j]))

    def losses(self):
        return SUM(self.n, lambda i: self.L[i])

    def gamma(self, i, ws, ls):
        if not self.line_search:
            return 2.0 * self.n / (self.k + 2.0 * self.n)
        w = self.weights()
        slope = SUM(self.d, lambda j: (self.W[i, j] - ws[j]) * w[j]) - self.C * self.n * (self.L[i] - ls)
        best = slope / (SUM(self.d, lambda j: (self.W[i, j] - ws[j]) ** 2) + 1e-15)
        return max(0.0, min(1.0, best))

    def step(self, i, difference, loss):
        ws, ls = difference * self.C, loss / self.n
        g = self.gamma(i, ws, ls)
        self.W[i] = (1.0 - g) * self.W[i] + g * ws
        self.L[i] = (1.0 - g) * self.L[i] + g * ls
        share = 2.0 / (self.k + 2.0) if self.averaging else 1.0
        self.mean = (1.0 - share) * self.mean + share * self.weights()
        self.mean_l = (1.0 - share) * self.mean_l + share * self.losses()
        self.k = self.k + 1


class Oracle(StructuredModel):
    """arbitrary features and losses of arbitrary candidates"""
    def __init__(self, b):
        self.size_joint_feature = b.d
        self.b = b
        self.phi, self.other, self.lost = function('phi'), function('phi_candidate'), function('losses', 'nonneg')
        self.seen = 0
        candidates(b, lambda: b.W, lambda: b.L, lambda: b.weights(), lambda: b.losses(), lambda: b.mean,
                   lambda: b.mean_l)

    def initialize(self, X, Y):
        pass

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure_eq('its truth', y.i, x)
        ensure('relaxed candidates', relaxed)
        ensure_eq('inference with the sum of the weights of all samples', w, self.b.weights())
        return Guess(self.seen, x)

    def joint_feature(self, x, y):
        if isinstance(y, Truth):
            return array_of((self.size_joint_feature,), lambda j: self.phi(y.i, j))
        return array_of((self.size_joint_feature,), lambda j: self.other(y.t, j))

    def loss(self, y, y_hat):
        i, t = y.i, y_hat.t
        self.b.step(i, array_of((self.size_joint_feature,), lambda j: self.phi(i, j) - self.other(t, j)), self.lost(t))
        self.seen = self.seen + 1
        return self.lost(t)


class Shuffler(object):
    """some order of the samples in each pass"""
    def __init__(self, n):
        self.order, self.passes, self.n = int_function('order', 0, n), 0, n
        candidates(None, lambda: self.passes)

    def shuffle(self, perm):
        t = self.passes
        perm[:] = array_of((self.n,), lambda j: self.order(t, j), 'i')
        self.passes = self.passes + 1

    def randint(self, low=0, high=None, size=None):
        ensure_eq('lowest', low, 0)
        ensure_eq('highest', high, self.n)
        ensure_eq('draws', size, self.n)
        t = self.passes
        self.passes = self.passes + 1
        return array_of((self.n,), lambda j: self.order(t, j), 'i')


def blocks(n, d, epochs, line_search, averaging, method, every=0):
    b = Blocks(n, d, line_search, averaging)
    m = Oracle(b)
    r = Shuffler(n)
    stub('sklearn.utils.check_random_state', lambda seed: r)
    s = FrankWolfeSSVM(m, max_iter=epochs, C=b.C, line_search=line_search, do_averaging=averaging,
                       sample_method=method, check_dual_every=every)
    s._objective = lambda X, Y: 0.0
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('learned weights', s.w, b.mean if averaging else b.weights())
    ensure_eq('a step for each sample and pass', b.k, n * epochs)
    return b, s


def c_default_steps():
    """the default step 2n / (k + 2n), samples in arbitrary order"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    blocks(n, d, epochs, False, choice('averaging', [False, True]), choice('method', ['perm', 'rnd']))


def c_in_order():
    """samples in the given order"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    blocks(n, d, epochs, choice('line_search', [False, True]), True, 'seq')


def c_line_search():
    """the exact line search over [0, 1]"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    blocks(n, d, epochs, True, False, 'perm')


def c_step_sizes():
    """lemma: the line search stays in [0, 1] and never loses, the default step lies in (0, 1]"""
    slope, square = real('slope'), nonneg_real('square')
    g = max(0.0, min(1.0, slope / (square + 1e-15)))
    ensure_le('at least zero', 0.0, g)
    ensure_le('at most one', g, 1.0)
    ensure_le('gain of the dual', 0.0, g * slope - g * g * square / 2)
    n, k = dim('n', 1), dim('k', 0)
    h = 2.0 * n / (k + 2.0 * n)
    ensure_le('default step at least zero', 0.0, h)
    ensure_le('default step at most one', h, 1.0)


def c_gain():
    """lemma: a step of size g changes the dual objective by g * slope - g^2 / 2 * square"""
    n, d = dim('n_samples', 1), dim('d', 1)
    b = Blocks(n, d, False, False)
    b.W, b.L = real('W', n, d), real('L', n)
    i, g = integer('i', 0, n), real('step')
    ws, ls = real('ws', d), real('ls')
    w = b.weights()
    slope = SUM(d, lambda j: (b.W[i, j] - ws[j]) * w[j]) - b.C * n * (b.L[i] - ls)
    square = SUM(d, lambda j: (b.W[i, j] - ws[j]) ** 2)
    dual = -0.5 * SUM(d, lambda j: w[j] ** 2) + b.C * n * b.losses()
    W, L = b.W, b.L
    b.W = array_of((n, d), lambda a, j: IF(a == i, (1 - g) * W[i, j] + g * ws[j], W[a, j]))
    b.L = array_of((n,), lambda a: IF(a == i, (1 - g) * L[i] + g * ls, L[a]))
    v = b.weights()
    ensure_eq('change of the dual', -0.5 * SUM(d, lambda j: v[j] ** 2) + b.C * n * b.losses(),
              dual + g * slope - g * g * square / 2)


class Whole(StructuredModel):
    """all samples at once: arbitrary features and losses; the documented batch algorithm as ghost state"""
    def __init__(self, n, d, line_search=False):
        self.size_joint_feature = d
        self.n, self.line_search = n, line_search
        self.C = pos_real('C')
        self.phi, self.other, self.lost = function('phi'), function('phi_candidate'), function('losses', 'nonneg')
        self.w, self.l, self.t = np.zeros(d), 0.0, 0
        self.dual, self.primal = 0.0, 0.0
        candidates(self, lambda: self.w, lambda: self.l)

    def initialize(self, X, Y):
        pass

    def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
        ensure('relaxed candidates', relaxed)
        ensure_eq('inference with the current weights', w, self.w)
        return Guess(self.t, 0)

    def batch_joint_feature(self, X, Y, Y_true=None):
        ensure('true labels known', Y_true is not None)
        if isinstance(Y, Guess):
            return array_of((self.size_joint_feature,), lambda j: self.other(Y.t, j))
        return array_of((self.size_joint_feature,), lambda j: self.phi(j))

    def batch_loss(self, Y, Y_hat):
        t = Y_hat.t
        self.step(array_of((self.size_joint_feature,), lambda j: self.phi(j) - self.other(t, j)),
                  SUM(self.n, lambda i: self.lost(t, i)))
        return array_of((self.n,), lambda i: self.lost(t, i))

    def step(self, difference, loss):
        w, l, d = self.w, self.l, self.size_joint_feature
        squares = SUM(d, lambda j: w[j] ** 2)
        self.dual = -0.5 * squares + l * self.n * self.C
        self.primal = 0.5 * squares + self.C * (loss - SUM(d, lambda j: w[j] * difference[j]))
        g = 2.0 / (self.t + 2.0)
        if self.line_search:
            far = SUM(d, lambda j: (w[j] - self.C * difference[j]) ** 2) / (self.C * self.n)
            slope = SUM(d, lambda j: (w[j] - self.C * difference[j]) * w[j]) / (self.C * self.n) - l + loss / self.n
            g = max(0.0, min(1.0, slope / (far + 1e-15)))
        self.w = (1.0 - g) * w + g * self.C * difference
        self.l = (1.0 - g) * l + g * loss / self.n
        self.t = self.t + 1


def c_batch():
    """batch learning: steps and recorded values"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    m = Whole(n, d, choice('line_search', [False, True]))
    watch = lambda s, i: values(s, m, i)
    s = FrankWolfeSSVM(m, max_iter=epochs, C=m.C, batch_mode=True, line_search=m.line_search, tol=-np.inf, logger=watch)
    s._objective = lambda X, Y: 0.0
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('a step in every pass', m.t, epochs)
    ensure_eq('learned weights', s.w, m.w)
    ensure_eq('final dual value', s.objective_curve_[-1],
              -0.5 * SUM(d, lambda j: m.w[j] ** 2) + m.l * n * m.C)


def values(s, m, i):
    if i != 'final':
        ensure_eq('dual value', s.objective_curve_[-1], m.dual)
        ensure_eq('primal value', s.primal_objective_curve_[-1], m.primal)


def c_dual_gap():
    """dual value, gap and primal value of the current weights"""
    n, d = dim('n_samples', 1), dim('d', 1)
    m = Whole(n, d)
    s = FrankWolfeSSVM(m, C=m.C)
    m.w, m.l = real('w', d), real('l')
    s.w, s.l = m.w * 1.0, m.l
    dual, gap, primal = s._calc_dual_gap(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('dual', dual, m.dual)
    ensure_eq('primal', primal, m.primal)
    ensure_eq('gap', gap, m.primal - m.dual)


def c_recorded():
    """the recorded primal and dual values are those of the current weights"""
    recorded(1)


def c_recorded_sometimes():
    """the same with a check only every few passes"""
    recorded(choice('check_dual_every', [2, 3]))


def recorded(every):
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    averaging = choice('averaging', [False, True])
    b = Blocks(n, d, False, averaging)
    m = Oracle(b)
    r = Shuffler(n)
    stub('sklearn.utils.check_random_state', lambda seed: r)
    duals, gaps = function('duals'), function('gaps', 'nonneg')
    c = Counter()

    def gap(X, Y):
        t = c.checks
        ensure_eq('weights checked', s.w, b.mean if averaging else b.weights())
        ensure_eq('loss terms checked', s.l, b.mean_l if averaging else b.losses())
        c.checks = c.checks + 1
        return duals(t), gaps(t), duals(t) + gaps(t)
    s = FrankWolfeSSVM(m, max_iter=epochs, C=b.C, line_search=False, do_averaging=averaging, check_dual_every=every,
                       tol=-1.0)
    s._calc_dual_gap = gap
    s._objective = lambda X, Y: 0.0
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('checks', c.checks, (epochs + every - 1) // every)
    ensure_eq('values recorded', len(s.objective_curve_), c.checks + 1)
    ensure_eq('values recorded', len(s.primal_objective_curve_), c.checks + 1)
    ensure('dual values', ALL(c.checks, lambda t: s.objective_curve_[t] == duals(t)))
    ensure('primal values', ALL(c.checks, lambda t: s.primal_objective_curve_[t] == duals(t) + gaps(t)))


class Counter(object):
    def __init__(self):
        self.checks = 0
        candidates(None, lambda: self.checks)


def c_stop():
    """training goes on until max_iter passes are done or a checked gap is below the tolerance"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    batch = choice('batch_mode', [False, True])
    every = choice('check_dual_every', [1, 2])
    tol = real('tol')
    done, gaps = [], []
    m = Whole(n, d) if batch else Oracle(Blocks(n, d, True, True))
    s = FrankWolfeSSVM(m, max_iter=epochs, C=(m if batch else m.b).C, tol=tol, batch_mode=batch,
                       check_dual_every=every, logger=lambda s, i: done.append(i))
    if batch:
        s.line_search = False

    def gap(X, Y):
        gaps.append(function_value(len(gaps)))
        return 0.0, gaps[-1], gaps[-1]
    values_ = function('gaps')
    function_value = lambda t: values_(t)
    if not batch:
        s._calc_dual_gap = gap
    s._objective = lambda X, Y: 0.0
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    last = len(done) - 2
    for t in range(last + 1):
        if batch:
            small = s.primal_objective_curve_[t] - s.objective_curve_[t] < tol * n * m.C
        else:
            small = t % every == 0 and gaps[t // every] < tol
        ensure('stops with a small gap only', small if t == last and last < epochs - 1 else True)
        ensure('stops with a small gap', t == last if small else True)


BOUNDED = {'c_recorded_sometimes': 'a list appended to in some rounds only',
           'c_stop': 'a loop left early on values of unknown functions'}
