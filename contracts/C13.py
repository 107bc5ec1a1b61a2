"""C13: the perceptron update and its average follow the documented rule."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners import StructuredPerceptron


BOUNDED = {'c_average_later_online': 'the invariant of the running mean over two nested loops is not discharged in time'}


class Truth(object):
    def __init__(self, i):
        self.i = i


class Guess(object):
    """the prediction made for sample i in pass t"""
    def __init__(self, t, i):
        self.t, self.i = t, i


class Oracle(StructuredModel):
    """arbitrary truths and predictions: features and losses of the prediction made in pass t for sample i are
    arbitrary; the weights asked for are checked against the documented rule, kept as ghost state"""
    def __init__(self, n, epochs, d, batch, lr, average):
        self.size_joint_feature = d
        self.n, self.batch, self.lr, self.average = n, batch, lr, average
        self.phi = function('phi')
        self.other = function('phi_predicted')
        self.losses = function('losses', 'nonneg')
        self.largest = function('max_losses', 'pos')
        # ghost state: prediction number, weights now and at the start of the pass, sum of averaged weights and number
        self.calls = 0
        self.w = np.zeros(d)
        self.total = np.zeros(d)
        self.count = 0
        self.later = average is not False and average != 0 and average != -1
        if average != -1 and not self.later:
            candidates(None if batch else self, lambda: self.w, lambda: self.mean())

    def mean(self):
        return self.started() * self.total / IF(self.count >= 1, self.count, 1)

    def started(self):
        return IF(self.count >= 1, 1, 0)

    def initialize(self, X, Y):
        pass

    def max_loss(self, y):
        return self.largest(y.i)

    def difference(self, t, i, j):
        return IF(self.losses(t, i) == 0, 0.0, self.phi(i, j) - self.other(t, i, j))

    def before(self, t, j):
        """the weights before pass t"""
        return SUM(t, lambda s: self.lr(s) * SUM(self.n, lambda i: self.difference(s, i, j)))

    def mean_in_pass(self, t, k, j):
        """mean of the weights after each of the first k samples of pass t"""
        return self.before(t, j) + SUM(k, lambda i: SUM(i + 1, lambda q: self.lr(t) * self.difference(t, q, j))) / IF(k >= 1, k, 1)

    def mean_of_passes(self, k, j):
        """mean of the weights after each of the k passes from the given one on"""
        def change(s):
            return self.lr(self.average + s) * SUM(self.n, lambda i: self.difference(self.average + s, i, j))
        return self.before(self.average, j) * IF(k >= 1, 1, 0) + SUM(k, lambda t: SUM(t + 1, change)) / IF(k >= 1, k, 1)

    def mean_of_steps(self, p, j):
        """mean of the weights after each sample of the p passes from the given one on"""
        return SUM(p, lambda t: self.mean_in_pass(self.average + t, self.n, j)) / IF(p >= 1, p, 1)

    def inference(self, x, w, relaxed=None, constraints=None):
        t, i = self.calls // self.n, self.calls % self.n
        ensure_eq('sample', x, i)
        ensure_eq('weights', w, self.w)
        self.calls = self.calls + 1
        return Guess(t, i)

    def loss(self, y, y_hat):
        """the documented step follows the look at the loss of a prediction"""
        t, i = y_hat.t, y_hat.i
        self.w = self.w + array_of((self.size_joint_feature,), lambda j: self.lr(t) * self.difference(t, i, j))
        if self.average is not False and self.average != -1 and not self.later:
            averaged = IF(t >= self.average, 1, 0)
            if self.batch:
                averaged = averaged * IF(i == self.n - 1, 1, 0)
            keep = 1 if self.batch else self.started()
            self.total = keep * self.total + averaged * self.w
            self.count = self.count + averaged
        return self.losses(t, i)

    def joint_feature(self, x, y):
        d = self.size_joint_feature
        if isinstance(y, Truth):
            return array_of((d,), lambda j: self.phi(y.i, j))
        return array_of((d,), lambda j: self.phi(y.i, j) - self.difference(y.t, y.i, j))


def run(batch, average, exponent=0, epochs=None):
    n, d = dim('n_samples', 1), dim('d', 1)
    if epochs is None:
        epochs = dim('max_iter', 1)
    t0 = dim('decay_t0', 1)
    m = Oracle(n, epochs, d, batch, lambda t: 1.0 * (t + t0) ** exponent, 0 if average is True else average)
    if batch and average is True:
        # the weights after each of the first k passes, averaged
        invariant(lambda k, old: array_of((d,), lambda j: SUM(k, lambda t: SUM(t + 1, lambda s: m.lr(s) * SUM(
            n, lambda i: m.difference(s, i, j)))) / IF(k >= 1, k, 1)))
    if average == -1 and not batch:
        # the weights after each of the first k samples of this pass, averaged
        invariant(lambda k, old: array_of((d,), lambda j: IF(k >= 1, m.mean_in_pass((m.calls - k) // n, k, j), 0.0)))
        # and after the last sample of a pass
        invariant(lambda k, old: array_of((d,), lambda j: IF(k >= 1, m.mean_in_pass(k - 1, n, j), 0.0)))
    if m.later:
        split_loops(average)
    if m.later and batch:
        invariant(lambda k, old: array_of((d,), lambda j: m.mean_of_passes(k, j)))
    s = StructuredPerceptron(m, max_iter=epochs, batch=batch, average=average, decay_exponent=exponent, decay_t0=t0)
    X, Y = list_of(n, lambda i: i), list_of(n, lambda i: Truth(i))
    s.fit(X, Y)
    return n, m, s, epochs


def finish(n, m, s, epochs):
    passes = len(s.loss_curve_)
    total = SUM(n, lambda i: m.largest(i))
    ensure('at most max_iter passes', passes <= epochs)
    if passes < epochs:
        ensure_eq('training ends early at loss zero only', s.loss_curve_[-1], 0.0)
    ensure_eq('every pass predicts every sample once', m.calls, passes * n)
    ensure_eq('loss curve', s.loss_curve_, list_of(passes, lambda t: SUM(n, lambda i: m.losses(t, i)) / total))


def c_online():
    """online updates"""
    n, m, s, epochs = run(False, False)
    finish(n, m, s, epochs)
    ensure_eq('final weights', s.w, m.w)


def c_batch():
    """batch updates, whatever the number of jobs"""
    n, m, s, epochs = run(True, False)
    finish(n, m, s, epochs)
    ensure_eq('final weights', s.w, m.w)


def c_decay():
    """the learning rate decays with the pass as documented"""
    n, m, s, epochs = run(choice('batch', [False, True]), False, choice('decay_exponent', [1, -1]))
    finish(n, m, s, epochs)
    ensure_eq('final weights', s.w, m.w)


def c_average_online():
    """the mean over all steps"""
    n, m, s, epochs = run(False, True)
    finish(n, m, s, epochs)
    ensure_eq('number averaged', m.count, m.calls)
    ensure_eq('averaged weights', s.w, m.mean())


def c_average_batch():
    """the mean over all passes"""
    n, m, s, epochs = run(True, True)
    finish(n, m, s, epochs)
    ensure_eq('number averaged', m.count, len(s.loss_curve_))
    ensure_eq('averaged weights', s.w, m.mean())


def average_from(batch):
    if choice('reached', [True, False]):
        average = dim('average', 1)
        epochs = average + dim('averaged', 1)
    else:
        epochs = dim('max_iter', 1)
        average = epochs + dim('beyond', 0)
    n, m, s, epochs = run(batch, average, 0, epochs)
    finish(n, m, s, epochs)
    passes = len(s.loss_curve_)
    if passes <= average:
        ensure_eq('nothing averaged', s.w, np.zeros(s.w.shape))
    else:
        ensure_eq('averaged weights', s.w, array_of(s.w.shape, lambda j: m.mean_of_passes(passes - average, j) if batch
                                                    else m.mean_of_steps(passes - average, j)))


def c_average_later_batch():
    """the mean over the passes from a given one on"""
    average_from(True)


def c_average_later_online():
    """the mean over the steps from a given pass on"""
    average_from(False)


def c_average_last():
    """the mean over the steps of the last pass"""
    batch = choice('batch', [False, True])
    n, m, s, epochs = run(batch, -1)
    finish(n, m, s, epochs)
    last = len(s.loss_curve_) - 1
    ensure_eq('averaged weights', s.w, array_of(s.w.shape, lambda j: m.before(last + 1, j) if batch else
                                                m.mean_in_pass(last, n, j)))
