"""C11: the subgradient learners take the documented steps and averages."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners import SubgradientSSVM, SubgradientLatentSSVM


BOUNDED = {'c_batches': 'batch boundaries come from scikit-learn',
           'c_stop': 'counts of violated constraints in a nested loop',
           'c_online_rule': 'all options of the step together: 30 combinations of nested loops'}


class Truth(object):
    def __init__(self, i):
        self.i = i


class Guess(object):
    """the candidate found for sample i in step t"""
    def __init__(self, t, i):
        self.t, self.i = t, i


class Rule(object):
    """the documented step, as ghost state: weights, smoothed gradient, average, step number"""
    def __init__(self, d, n, momenta=(0.0, 0.5), exponents=(0, 1, 2)):
        self.d, self.n = d, n
        self.C = pos_real('C')
        self.momentum = choice('momentum', list(momenta))
        self.exponent = choice('decay_exponent', list(exponents))
        self.t0 = dim('decay_t0', 1)
        self.auto = choice('learning_rate', ['auto', 'given'])
        self.rate = self.C * n if self.auto == 'auto' else pos_real('rate')
        self.averaging = choice('averaging', [None, 'linear', 'squared'])
        self.steps = 0
        self.w = np.zeros(d)
        self.grad = np.zeros(d)
        self.mean = np.zeros(d)

    def options(self):
        return {'C': self.C, 'momentum': self.momentum, 'decay_exponent': self.exponent, 'decay_t0': self.t0,
                'learning_rate': 'auto' if self.auto == 'auto' else self.rate, 'averaging': self.averaging}

    def step(self, difference):
        t = self.steps
        self.grad = (1 - self.momentum) * (difference - self.w / (self.C * self.n)) + self.momentum * self.grad
        self.w = self.w + self.rate / (t + self.t0) ** self.exponent * self.grad
        if self.averaging == 'linear':
            share = 2.0 / (t + 2)
        elif self.averaging == 'squared':
            share = 6.0 * (t + 1) / ((t + 2) * (2 * t + 3))
        else:
            share = 1.0
        self.mean = (1 - share) * self.mean + share * self.w
        self.steps = t + 1


def c_step():
    """a single step, from any state"""
    d, n, t = dim('d', 1), dim('n_samples', 1), dim('t', 0)
    r = Rule(d, n)
    r.steps, r.w, r.grad, r.mean = t, real('w', d), real('gradient', d), real('average', d)
    s = SubgradientSSVM(StructuredModel(), **r.options())
    s.learning_rate_, s.t, s.grad_old, s.w = r.rate, 1.0 * t, r.grad * 1.0, r.mean * 1.0
    w, difference = r.w * 1.0, real('difference', d)
    r.step(difference)
    new = s._solve_subgradient(difference, n, w)
    ensure_eq('weights', new, r.w)
    ensure_eq('weights changed in place', w, r.w)
    ensure_eq('smoothed gradient', s.grad_old, r.grad)
    ensure_eq('learned weights', s.w, r.mean if r.averaging else r.w)
    ensure_eq('step number', s.t, t + 1)


def c_weights_of_steps():
    """the documented averages give step k the weight k + 1 (linear) or its square"""
    t = dim('steps', 1)
    d = dim('d', 1)
    for kind in ('linear', 'squared'):
        power = 1 if kind == 'linear' else 2
        steps = real('steps_' + kind, t, d)
        s = SubgradientSSVM(StructuredModel(), averaging=kind, decay_exponent=0, C=1.0)
        s.learning_rate_, s.t, s.grad_old, s.w = 1.0, 0, np.zeros(d), np.zeros(d)
        average = Average(steps, power)
        candidates(average, lambda: average.mean(), lambda: average.k)
        w = np.zeros(d)
        for k in range(t):
            w = s._solve_subgradient(steps[k], 1, w * 1.0)
            average.k = average.k + 1
        ensure_eq(kind, s.w, average.mean())


class Average(object):
    """mean of the first k steps with weights 1, 2, 3, ... or their squares"""
    def __init__(self, steps, power):
        self.steps, self.power, self.k = steps, power, 0

    def mean(self):
        k = self.k
        total = k * (k + 1) / 2.0 if self.power == 1 else k * (k + 1) * (2 * k + 1) / 6.0
        share = IF(k >= 1, 1.0 / IF(k >= 1, total, 1.0), 0.0)
        return array_of((self.steps.shape[1],), lambda j:
                        share * SUM(k, lambda i: (i + 1.0) ** self.power * self.steps[i, j]))


class Oracle(StructuredModel):
    """arbitrary features and losses of arbitrary candidates; the weights asked for are those of the documented rule"""
    def __init__(self, n, d, rule):
        self.size_joint_feature = d
        self.n, self.rule = n, rule
        self.phi, self.other, self.losses = function('phi'), function('phi_candidate'), function('losses', 'nonneg')
        self.objectives = function('objectives')
        self.seen = 0
        self.evaluated = 0
        candidates(rule, lambda: rule.w, lambda: rule.grad, lambda: rule.mean, lambda: rule.steps)

    def initialize(self, X, Y):
        pass

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure_eq('sample', x, self.seen % self.n)
        ensure_eq('its truth', y.i, x)
        ensure_eq('weights', w, self.rule.w)
        return Guess(self.seen, x)

    def joint_feature(self, x, y):
        if isinstance(y, Truth):
            return array_of((self.size_joint_feature,), lambda j: self.phi(y.i, j))
        return array_of((self.size_joint_feature,), lambda j: self.other(y.t, j))

    def loss(self, y, y_hat):
        i, t = y.i, y_hat.t
        self.rule.step(array_of((self.size_joint_feature,), lambda j: self.phi(i, j) - self.other(t, j)))
        self.seen = self.seen + 1
        return self.losses(t)

    def objective(self, model, w, X, Y, C, variant='n_slack', n_jobs=1):
        ensure_eq('objective of the learned weights', w, self.rule.mean if self.rule.averaging else self.rule.w)
        ensure_eq('objective with C', C, self.rule.C)
        ensure('objective of the n-slack problem', variant == 'n_slack')
        self.evaluated = self.evaluated + 1
        return self.objectives(self.evaluated - 1)


class Course(StructuredModel):
    """the weights after step t are arbitrary (`weights`, `learned`): the step itself is proved by c_step; checks which
    samples are looked at with which weights, and what each step is given"""
    def __init__(self, n, d):
        self.size_joint_feature = d
        self.n = n
        self.phi, self.other, self.losses = function('phi'), function('phi_candidate'), function('losses', 'nonneg')
        self.weights, self.learned, self.objectives = function('weights'), function('learned'), function('objectives')
        self.seen = 0
        self.steps = 0
        self.evaluated = 0
        candidates(None, lambda: self.seen, lambda: self.steps, lambda: self.evaluated)

    def initialize(self, X, Y):
        pass

    def before(self, t):
        return array_of((self.size_joint_feature,), lambda j: IF(t >= 1, self.weights(t, j), 0.0))

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure_eq('sample', x, self.seen % self.n)
        ensure_eq('its truth', y.i, x)
        ensure('relaxed candidates', relaxed)
        ensure_eq('inference with the current weights', w, self.before(self.steps))
        return Guess(self.seen, x)

    def joint_feature(self, x, y):
        if isinstance(y, Truth):
            return array_of((self.size_joint_feature,), lambda j: self.phi(y.i, j))
        return array_of((self.size_joint_feature,), lambda j: self.other(y.t, j))

    def loss(self, y, y_hat):
        self.seen = self.seen + 1
        return self.losses(y_hat.t)

    def truth(self, t, j):
        return self.phi(t % self.n, j)

    def violated(self, t):
        w, d = self.before(t), self.size_joint_feature
        return self.losses(t) - SUM(d, lambda j: w[j] * (self.truth(t, j) - self.other(t, j))) > 0

    def step(self, learner, difference, n_samples, w):
        t = self.seen - 1
        ensure_eq('one step for each sample', self.steps, t)
        ensure_eq('feature difference', difference, array_of((self.size_joint_feature,), lambda j:
                                                             self.truth(t, j) - self.other(t, j)))
        ensure_eq('number of samples', n_samples, self.n)
        ensure_eq('step from the current weights', w, self.before(self.steps))
        self.steps = self.steps + 1
        k = self.steps
        w[:] = array_of((self.size_joint_feature,), lambda j: self.weights(k, j))
        learner.w = array_of((self.size_joint_feature,), lambda j: self.learned(k, j))
        return w

    def objective(self, model, w, X, Y, C, variant='n_slack', n_jobs=1):
        k = self.steps
        ensure_eq('objective of the learned weights', w, array_of((self.size_joint_feature,), lambda j:
                                                                  self.learned(k, j)))
        ensure('objective of the n-slack problem', variant == 'n_slack')
        self.evaluated = self.evaluated + 1
        return self.objectives(self.evaluated - 1)


def train(n, d, epochs, break_early, given='auto', again=False, **options):
    m = Course(n, d)
    C, rate = pos_real('C'), pos_real('rate')

    def step(learner, difference, n_samples, w):
        ensure_eq('learning rate', learner.learning_rate_, C * n if given == 'auto' else rate)
        return m.step(learner, difference, n_samples, w)
    stub('pystruct.utils.inference.objective_primal', m.objective)
    stub('pystruct.learners.subgradient_ssvm.SubgradientSSVM._solve_subgradient', step)
    s = SubgradientSSVM(m, max_iter=epochs, break_on_no_constraints=break_early, C=C,
                        learning_rate='auto' if given == 'auto' else rate, **options)
    if again:
        s.learning_rate_ = pos_real('rate_of_an_earlier_training')
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('learned weights', s.w, array_of((d,), lambda j: m.learned(m.steps, j)))
    ensure_eq('objective curve', s.objective_curve_, list_of(m.evaluated, lambda k: m.objectives(k)))
    return m


def c_online():
    """online learning: one step for each sample in order, with its feature difference at the current weights"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    if choice('batch_size', [None, 1]) is None:
        m = train(n, d, epochs, False, again=True)
    else:
        m = train(n, d, epochs, False, 'given', batch_size=1)
    ensure_eq('max_iter passes', m.seen, n * epochs)


def c_online_break():
    """training stops early only after a whole pass"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    m = train(n, d, epochs, True)
    passes = m.seen // n
    ensure_eq('whole passes', m.seen, passes * n)
    ensure('at most max_iter passes', passes <= epochs)


def c_stop():
    """training stops early only if no constraint was violated in the last pass"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    m = latent_break(n, d, epochs) if choice('latent', [False, True]) else train(n, d, epochs, True)
    if m.seen < n * epochs:
        ensure('nothing is violated', ALL(n, lambda i: NOT(m.violated(m.seen - n + i))))


class Batches(Course):
    """steps taken for batches of samples: the mean feature difference, or the sum over the violated constraints"""
    def __init__(self, n, d, size, violated=False):
        Course.__init__(self, n, d)
        self.size, self.violated = size, violated
        self.asked = 0
        self.first = 0
        self.slacks = 0
        candidates(None, lambda: self.asked, lambda: self.first)

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure_eq('sample', x, self.asked % self.n)
        ensure_eq('its truth', y.i, x)
        ensure('relaxed candidates', relaxed)
        ensure_eq('inference with the current weights', w, self.before(self.steps))
        self.asked = self.asked + 1
        return Guess(self.asked - 1, x)

    def loss(self, y, y_hat):
        return self.losses(y_hat.t)

    def latent(self, x, y, w):
        ensure_eq('completed sample', x, self.asked % self.n)
        ensure_eq('completion with the current weights', w, self.before(self.steps))
        return y

    def difference(self, t, j):
        return self.phi(t % self.n, j) - self.other(t, j)

    def share(self, t):
        if not self.violated:
            return 1.0 / (self.asked - self.first)
        w = self.before(self.steps)
        d = self.size_joint_feature
        return IF(self.losses(t) - SUM(d, lambda j: w[j] * self.difference(t, j)) > 0, 1.0, 0.0)

    def step(self, learner, difference, n_samples, w):
        first, asked = self.first, self.asked
        ensure('size of the batch', asked - first <= self.size)
        ensure_eq('direction of the step', difference, array_of((self.size_joint_feature,), lambda j: SUM(
            asked - first, lambda i: self.share(first + i) * self.difference(first + i, j))))
        ensure_eq('number of samples', n_samples, self.n)
        ensure_eq('step from the current weights', w, self.before(self.steps))
        self.first = self.asked
        self.steps = self.steps + 1
        k = self.steps
        w[:] = array_of((self.size_joint_feature,), lambda j: self.weights(k, j))
        learner.w = array_of((self.size_joint_feature,), lambda j: self.learned(k, j))
        return w


def c_whole_batch():
    """batch_size=-1: one step for each pass, with the mean feature difference of all samples"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    m = Batches(n, d, n)
    stub('pystruct.utils.inference.objective_primal', m.objective)
    stub('pystruct.learners.subgradient_ssvm.SubgradientSSVM._solve_subgradient', lambda *a: m.step(*a))
    s = SubgradientSSVM(m, max_iter=epochs, break_on_no_constraints=False, batch_size=-1)
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('learned weights', s.w, array_of((d,), lambda j: m.learned(m.steps, j)))
    ensure_eq('a step for each pass', m.steps, epochs)
    ensure_eq('every sample in each pass', m.asked, n * epochs)


def c_batches():
    """mini-batches and parallel batches: every sample once in each pass, in batches of at most the given size"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    kind = choice('kind', ['mini', 'parallel', 'latent parallel'])
    size = dim('size', 2, 4)
    n_jobs = choice('n_jobs', [size, -1])
    m = Batches(n, d, size, violated=kind == 'parallel')
    stub('pystruct.utils.inference.objective_primal', m.objective)
    stub('pystruct.learners.subgradient_ssvm.SubgradientSSVM._solve_subgradient', lambda *a: m.step(*a))
    calls = lambda n_jobs, verbose=0: lambda todo: [f(*a, **kw) for f, a, kw in todo]
    if kind == 'mini':
        s = SubgradientSSVM(m, max_iter=epochs, break_on_no_constraints=False, batch_size=size)
    elif kind == 'parallel':
        stub('pystruct.learners.subgradient_ssvm.Parallel', calls)
        stub('pystruct.learners.subgradient_ssvm.cpu_count', lambda: size if n_jobs == -1 else size + 3)
        s = SubgradientSSVM(m, max_iter=epochs, break_on_no_constraints=False,
                            n_jobs=n_jobs)
    else:
        stub('pystruct.learners.subgradient_latent_ssvm.Parallel', calls)
        stub('pystruct.learners.subgradient_latent_ssvm.cpu_count', lambda: size if n_jobs == -1 else size + 3)
        s = SubgradientLatentSSVM(m, max_iter=epochs, break_on_no_constraints=False,
                                  n_jobs=n_jobs)
        s.w = np.zeros(d)
        s._objective = lambda X, Y: 0.0
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('learned weights', s.w, array_of((d,), lambda j: m.learned(m.steps, j)))
    ensure_eq('every sample in each pass', m.asked, n * epochs)
    ensure_eq('a step for each batch', m.steps, epochs * -(-n // size))


def c_latent_online():
    """latent learning: the feature difference between the completed truth and the candidate found for it"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    m = LatentCourse(n, d)
    C, rate = pos_real('C'), pos_real('rate')
    given = choice('learning_rate', ['auto', 'given'])

    def step(learner, difference, n_samples, w):
        ensure_eq('learning rate', learner.learning_rate_, C * n if given == 'auto' else rate)
        return m.step(learner, difference, n_samples, w)
    stub('pystruct.learners.subgradient_ssvm.SubgradientSSVM._solve_subgradient', step)
    s = SubgradientLatentSSVM(m, max_iter=epochs, break_on_no_constraints=False, C=C,
                              learning_rate='auto' if given == 'auto' else rate)
    if given == 'auto':
        s.learning_rate_ = pos_real('rate_of_an_earlier_training')
    s.w = np.zeros(d)
    s._objective = lambda X, Y: 0.0
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('learned weights', s.w, array_of((d,), lambda j: m.learned(m.steps, j)))
    ensure_eq('max_iter passes', m.seen, n * epochs)


def latent_break(n, d, epochs):
    m = LatentCourse(n, d)
    stub('pystruct.learners.subgradient_ssvm.SubgradientSSVM._solve_subgradient', lambda *a: m.step(*a))
    s = SubgradientLatentSSVM(m, max_iter=epochs, break_on_no_constraints=True)
    s.w = np.zeros(d)
    s._objective = lambda X, Y: 0.0
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('learned weights', s.w, array_of((d,), lambda j: m.learned(m.steps, j)))
    return m


def c_latent_break():
    """latent learning stops early only after a whole pass"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    m = latent_break(n, d, epochs)
    passes = m.seen // n
    ensure_eq('whole passes', m.seen, passes * n)
    ensure('at most max_iter passes', passes <= epochs)


class Hidden(object):
    def __init__(self, t, i):
        self.t, self.i = t, i


class LatentCourse(Course):
    """completions `h` of the samples, found anew with the current weights of each step"""
    def __init__(self, n, d):
        Course.__init__(self, n, d)
        self.completed = function('phi_completed')

    def latent(self, x, y, w):
        ensure_eq('completed sample', x, self.seen % self.n)
        ensure_eq('its label', y.i, x)
        ensure_eq('completion with the current weights', w, self.before(self.steps))
        return Hidden(self.seen, x)

    def loss_augmented_inference(self, x, h, w, relaxed=None):
        ensure('truth of the inference is completed', isinstance(h, Hidden))
        ensure_eq('sample', x, self.seen % self.n)
        ensure_eq('its completion', h.t, self.seen)
        ensure('relaxed candidates', relaxed)
        ensure_eq('inference with the current weights', w, self.before(self.steps))
        return Guess(self.seen, x)

    def joint_feature(self, x, y):
        if isinstance(y, Hidden):
            return array_of((self.size_joint_feature,), lambda j: self.completed(y.t, j))
        return array_of((self.size_joint_feature,), lambda j: self.other(y.t, j))

    def truth(self, t, j):
        return self.completed(t, j)


class Single(StructuredModel):
    """one sample; the candidate and its loss are arbitrary"""
    def __init__(self, d, rule, phi, other):
        self.size_joint_feature = d
        self.rule, self.phi, self.other = rule, phi, other

    def initialize(self, X, Y):
        pass

    def latent(self, x, y, w):
        ensure_eq('completion with the current weights', w, self.rule.w)
        return y

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure('relaxed candidates', relaxed)
        ensure_eq('inference with the current weights', w, self.rule.w)
        return Guess(0, 0)

    def joint_feature(self, x, y):
        return self.other * 1.0 if isinstance(y, Guess) else self.phi * 1.0

    def loss(self, y, y_hat):
        return nonneg_real('loss')


def c_continued():
    """a warm start continues from the learned weights and step number of the previous training"""
    d, t = dim('d', 1), dim('t', 0)
    r = Rule(d, 1)
    start = real('start', d)
    r.steps, r.w, r.mean = t, start * 1.0, start * 1.0
    m = Single(d, r, real('phi', d), real('phi_candidate', d))
    stub('pystruct.utils.inference.objective_primal', lambda *a, **k: 0.0)
    options = r.options()
    latent = choice('latent', [False, True])
    if latent:
        s = SubgradientLatentSSVM(m, max_iter=1, break_on_no_constraints=False, **options)
        s._objective = lambda X, Y: 0.0
    else:
        s = SubgradientSSVM(m, max_iter=1, break_on_no_constraints=False, **options)
    s.w, s.t, s.learning_rate_ = start * 1.0, 1.0 * t, r.rate
    s.objective_curve_, s.timestamps_ = [1.0], [0.0]
    s.fit([0], [Truth(0)], warm_start=True)
    r.step(m.phi - m.other)
    ensure_eq('learned weights', s.w, r.mean if r.averaging else r.w)
    ensure_eq('step number', s.t, t + 1)
    ensure_eq('learning rate', s.learning_rate_, r.rate)


def c_online_rule():
    """online learning takes the documented step for each sample in order, all parts together"""
    n, d, epochs = dim('n_samples', 1), dim('d', 1), dim('max_iter', 1)
    rule = Rule(d, n)
    m = Oracle(n, d, rule)
    stub('pystruct.utils.inference.objective_primal', m.objective)
    s = SubgradientSSVM(m, max_iter=epochs, batch_size=choice('batch_size', [None, 1]),
                        break_on_no_constraints=choice('break_on_no_constraints', [True, False]), **rule.options())
    s.fit(list_of(n, lambda i: i), list_of(n, lambda i: Truth(i)))
    ensure_eq('learned weights', s.w, rule.mean if rule.averaging else rule.w)
    ensure_eq('one objective for each pass and the final one', m.evaluated, len(s.objective_curve_))
    ensure_eq('objective curve', s.objective_curve_, list_of(m.evaluated, lambda k: m.objectives(k)))
    passes = m.seen // n
    ensure_eq('whole passes', m.seen, passes * n)
    ensure('at most max_iter passes', passes <= epochs)
    if not s.break_on_no_constraints:
        ensure('max_iter passes', passes == epochs)
