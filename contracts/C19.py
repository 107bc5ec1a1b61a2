"""C19: the inference cache of the one-slack learner."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners import OneSlackSSVM
from pystruct.learners.one_slack_ssvm import NoConstraint


class Cached(object):
    """some result of inference"""
    def __init__(self, i, t):
        self.i, self.t = i, t


class Arbitrary(StructuredModel):
    """arbitrary features and losses of the truth (t = -1) and of results t of sample i"""
    def __init__(self, d, rescale=False):
        self.size_joint_feature = d
        self.phi, self.lost = function('phi'), function('losses', 'nonneg')
        self.truth = function('phi_truth')
        if rescale:
            self.rescale_C = True

    def joint_feature(self, x, y, y_true=None):
        if getattr(self, 'rescale_C', False):
            ensure('truth passed on', y_true is not None)
        return array_of((self.size_joint_feature,), lambda j: self.phi(y.i, y.t, j))

    def loss(self, y, y_hat):
        return self.lost(y_hat.i, y_hat.t)


# ------------------------------------------------------------------------------------------------ _check_bad_constraint
def judged(k, tol, given):
    d = dim('d', 1)
    w, last = real('w', d), real('last_slack')
    violation, difference, loss = real('violation'), real('difference', d), real('loss')
    old, old_loss = real('old', k, d), real('old_loss', k)
    check = choice('check_constraints', [False, True])
    bad = choice('break_on_bad', [False, True])
    s = OneSlackSSVM(StructuredModel(), tol=tol, check_constraints=check)
    s.w, s.last_slack_ = w, last
    old_list = list_of(k, lambda c: (old[c], old_loss[c]))
    gain = violation - last
    smaller = AND(bad, AND(gain < 0, violation > 0))
    weak = gain < (tol if given is None else given)
    same = NOT(ALL(k, lambda c: NOT(AND(loss == old_loss[c], ALL(d, lambda j: old[c, j] == difference[j])))))
    weaker = AND(check, NOT(ALL(k, lambda c: violation - MAX2(old_loss[c] - SUM(d, lambda j: w[j] * old[c, j]))
                                >= -1e-5)))
    raised, answer = False, None
    try:
        answer = s._check_bad_constraint(violation, difference, loss, old_list, bad, **(
            {} if given is None else {'tol': given}))
    except ValueError:
        raised = True
    late = AND(NOT(OR(weak, same)), AND(weaker, bad))
    if raised:
        ensure('complains about bad inference only', OR(smaller, late))
    else:
        ensure('complains about bad inference', NOT(OR(smaller, late)))
        ensure('rejected when too weak, known or weaker than a known one',
               OR(weak, OR(same, weaker)) if answer else NOT(OR(weak, OR(same, weaker))))


def MAX2(v):
    return IF(v > 0, v, 0.0)


def c_judge():
    """a constraint is rejected when it is violated too little more than the known ones"""
    judged(0, nonneg_real('tol'), None)


def c_judge_tolerance():
    """the given tolerance decides"""
    judged(choice('known', [0, 1]), nonneg_real('tol'), nonneg_real('given'))


def c_judge_known():
    """... or is one of them, or is violated less than one of them"""
    judged(dim('known', 0), nonneg_real('tol'), None)


# ------------------------------------------------------------------------------------------------ _constraint_from_cache
def prepared(n, c, d, cache_tol, tol):
    """a learner in training with c results cached for each of n samples"""
    m = Arbitrary(d)
    s = OneSlackSSVM(m, tol=tol, cache_tol=cache_tol, inference_cache=c)
    s.w = real('w', d)
    s.cache_tol_ = nonneg_real('current_cache_tol') if cache_tol == 'auto' else tol if cache_tol is None else cache_tol
    s.objective_curve_, s.primal_objective_curve_ = [real('dual')], [real('primal')]
    s.inference_cache_ = list_of(n, lambda i: list_of(c, lambda t: (
        array_of((d,), lambda j: m.phi(i, t, j)), m.lost(i, t), Cached(i, t))))
    return s, m


def c_from_cache():
    """for each sample the cached result with the largest loss-augmented score"""
    n, c, d = dim('n_samples', 1), dim('cached', 1), dim('d', 1)
    tol = nonneg_real('tol')
    kind = choice('cache_tol', ['auto', 'none', 'number'])
    cache_tol = {'auto': 'auto', 'none': None, 'number': nonneg_real('given_tol')}[kind]
    s, m = prepared(n, c, d, cache_tol, tol)
    gt = array_of((d,), lambda j: m.truth(j))
    pick = lambda i: ARGMAX(c, lambda t: SUM(d, lambda j: m.phi(i, t, j) * s.w[j]) + m.lost(i, t))
    difference = array_of((d,), lambda j: (gt[j] - SUM(n, lambda i: m.phi(i, pick(i), j))) / n)
    loss = SUM(n, lambda i: m.lost(i, pick(i))) / n
    known = []
    asked = []
    reject = choice('reject', [False, True])

    def judge(self, violation, given_difference, given_loss, constraints, break_on_bad, tol=None):
        ensure('the working set', constraints is known)
        ensure('a weak cached constraint is no sign of bad inference', not break_on_bad)
        ensure_eq('feature difference judged', given_difference, difference)
        ensure_eq('loss judged', given_loss, loss)
        ensure_eq('violation judged', violation, loss - SUM(d, lambda j: s.w[j] * difference[j]))
        ensure_eq('tolerance', s.tol if tol is None else tol, cache_tol if kind == 'number' else s.tol)
        asked.append(True)
        return reject
    stub('pystruct.learners.one_slack_ssvm.OneSlackSSVM._check_bad_constraint', judge)
    gap = s.primal_objective_curve_[-1] - s.objective_curve_[-1]
    close = kind == 'auto' and gap < s.cache_tol_
    if close or reject:
        ensure_raises('nothing from the cache', s._constraint_from_cache, list_of(n, lambda i: i),
                      list_of(n, lambda i: i), gt, known)
        ensure('judged unless the gap is small', len(asked) == (0 if close else 1))
        return
    Y_hat, given_difference, given_loss = s._constraint_from_cache(
        list_of(n, lambda i: i), list_of(n, lambda i: i), gt, known)
    ensure('judged', len(asked) == 1)
    ensure_eq('feature difference', given_difference, difference)
    ensure_eq('loss', given_loss, loss)
    ensure_eq('results', len(Y_hat), n)
    i = integer('i', 0, n)
    ensure_eq('result of its sample', Y_hat[i].i, i)
    ensure_eq('the best cached result', Y_hat[i].t, pick(i))


def c_no_cache():
    """without cached results nothing comes from the cache"""
    n, d = dim('n_samples', 1), dim('d', 1)
    s = OneSlackSSVM(Arbitrary(d), inference_cache=choice('cache', [0, 5]))
    if choice('attribute', [False, True]):
        s.inference_cache_ = None
    ensure_raises('nothing from the cache', s._constraint_from_cache, list_of(n, lambda i: i),
                  list_of(n, lambda i: i), np.zeros(d), [])


# ------------------------------------------------------------------------------------------------ _find_new_constraint
class Inference(Arbitrary):
    def __init__(self, d, rescale, w):
        Arbitrary.__init__(self, d, rescale)
        self.w = w

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure('relaxed inference', relaxed)
        ensure_eq('its sample', x, y)
        ensure_eq('inference with the current weights', w, self.w)
        return Cached(x, 0)


def c_fresh():
    """fresh inference: the mean constraint of the results of all samples"""
    n, d = dim('n_samples', 1), dim('d', 1)
    w = real('w', d)
    m = Inference(d, choice('rescale_C', [False, True]), w)
    s = OneSlackSSVM(m, inference_cache=choice('cache', [0, 1]), n_jobs=choice('n_jobs', [1, 2]))
    s.w = w
    gt = array_of((d,), lambda j: m.truth(j))
    difference = array_of((d,), lambda j: (gt[j] - SUM(n, lambda i: m.phi(i, 0, j))) / n)
    loss = SUM(n, lambda i: m.lost(i, 0)) / n
    known, asked = [], []
    reject, check = choice('reject', [False, True]), choice('check', [False, True])

    def judge(self, violation, given_difference, given_loss, constraints, break_on_bad, tol=None):
        ensure('the working set', constraints is known)
        ensure_eq('feature difference judged', given_difference, difference)
        ensure_eq('loss judged', given_loss, loss)
        ensure_eq('violation judged', violation, loss - SUM(d, lambda j: w[j] * difference[j]))
        ensure('tolerance', tol is None or tol == s.tol)
        asked.append(True)
        return reject
    stub('pystruct.learners.one_slack_ssvm.OneSlackSSVM._check_bad_constraint', judge)
    X = list_of(n, lambda i: i)
    if reject and check:
        ensure_raises('no new constraint', s._find_new_constraint, X, X, gt, known, check)
        return
    Y_hat, given_difference, given_loss = s._find_new_constraint(X, X, gt, known, check)
    ensure('judged if asked for', len(asked) == (1 if check else 0))
    ensure_eq('feature difference', given_difference, difference)
    ensure_eq('loss', given_loss, loss)
    i = integer('i', 0, n)
    ensure('result of each sample', len(Y_hat) == n)
    ensure_eq('its sample', Y_hat[i].i, i)


# ------------------------------------------------------------------------------------------------ constraint_equal
def c_equal_labels():
    """results are the same if all their labels are"""
    n = dim('n_nodes', 0)
    a, b = ints('a', (n,), 0, 5), ints('b', (n,), 0, 5)
    ensure('same labels', OneSlackSSVM.constraint_equal(a, b) == ALL(n, lambda v: a[v] == b[v]))


def c_equal_relaxed():
    """relaxed results are the same if all their marginals are"""
    n, k, e = dim('n_nodes', 1), dim('n_states', 1), dim('n_edges', 0)
    a, b, p, q = real('a', n, k), real('b', n, k), real('p', e, k * k), real('q', e, k * k)
    same = ALL(n, lambda v: ALL(k, lambda s: a[v, s] == b[v, s]))
    same = AND(same, ALL(e, lambda v: ALL(k * k, lambda s: p[v, s] == q[v, s])))
    ensure('same marginals', OneSlackSSVM.constraint_equal((a, p), (b, q)) == same)
    labels = ints('labels', (n,), 0, 5)
    ensure('labels are no marginals', not OneSlackSSVM.constraint_equal((a, p), labels))
    ensure('marginals are no labels', not OneSlackSSVM.constraint_equal(labels, (a, p)))


def c_equal_typed():
    """the same for the marginals of several node types"""
    n, m, k, l, e = dim('n', 1), dim('m', 1), dim('k', 1), dim('l', 1), dim('n_edges', 0)
    a, b, c, d, p, q = (real('a', n, k), real('b', n, k), real('c', m, l), real('d', m, l), real('p', e, k * l),
                        real('q', e, k * l))
    same = ALL(n, lambda v: ALL(k, lambda s: a[v, s] == b[v, s]))
    same = AND(same, ALL(m, lambda v: ALL(l, lambda s: c[v, s] == d[v, s])))
    same = AND(same, ALL(e, lambda v: ALL(k * l, lambda s: p[v, s] == q[v, s])))
    ensure('same marginals', OneSlackSSVM.constraint_equal(([a, c], [p]), ([b, d], [q])) == same)


# ------------------------------------------------------------------------------------------------ _update_cache
def c_update():
    """each sample keeps its latest different results, no more than configured"""
    n, d, size = choice('n_samples', [1, 2, 3]), dim('d', 1), choice('inference_cache', [0, 1, 2, 3])
    rescale = choice('rescale_C', [False, True])
    m = Results(d, rescale)
    s = OneSlackSSVM(m, inference_cache=size)
    kept = [[] for i in range(n)]
    rounds = choice('rounds', [1, 2, 4, 6])
    start = choice('attribute', [False, True])
    if start:
        s.inference_cache_ = None
    for t in range(rounds):
        found = [choice('result_%d_%d' % (t, i), [0, 1, 2, 3]) for i in range(n)]
        relaxed = [choice('relaxed_%d_%d' % (t, i), [False, True]) for i in range(n)]
        Y_hat = [m.result(i, f, r) for i, (f, r) in enumerate(zip(found, relaxed))]
        s._update_cache(list(range(n)), [m.result(i, i, False) for i in range(n)], Y_hat)
        for i in range(n):
            if (found[i], relaxed[i]) not in kept[i]:
                kept[i] = (kept[i] + [(found[i], relaxed[i])])[-size:]
    if size == 0:
        ensure('nothing cached', not getattr(s, 'inference_cache_', None))
        return
    ensure('a cache for each sample', len(s.inference_cache_) == n)
    for i in range(n):
        ensure('no more than configured', len(s.inference_cache_[i]) <= size)
        ensure('the latest different results', [m.name(y) for _, _, y in s.inference_cache_[i]] == kept[i])
        for phi, loss, y in s.inference_cache_[i]:
            f, r = m.name(y)
            ensure_eq('its features', phi, array_of((d,), lambda j: m.phi(i, f, int(r), j)))
            ensure_eq('its loss', loss, m.lost(i, f, int(r)))


def c_update_one():
    """the results kept for a sample, from any earlier ones"""
    d, size, c = dim('d', 1), dim('inference_cache', 1), dim('cached', 0)
    assume(c <= size)
    m = Named(d, choice('rescale_C', [False, True]))
    s = OneSlackSSVM(m, inference_cache=size)
    features, losses = real('features', c, d), real('old_losses', c)
    known, at = choice('known', [False, True]), integer('at', 0, IF(c > 0, c, 1))
    assume(OR(NOT(known), c > 0))
    new = -2
    stub('pystruct.learners.one_slack_ssvm.OneSlackSSVM.constraint_equal',
         lambda *args: AND(known, args[-1] + args[-2] - new == at))
    s.inference_cache_ = [list_of(c, lambda t: (features[t], losses[t], t))]
    s._update_cache([0], [-1], [new])
    kept = s.inference_cache_[0]
    ensure('no more than configured', len(kept) <= size)
    if known:
        ensure_eq('kept as they were', len(kept), c)
        v = integer('v', 0, c)
        ensure_eq('the same results', kept[v][2], v)
        ensure_eq('the same features', kept[v][0], features[v])
        ensure_eq('the same loss', kept[v][1], losses[v])
        return
    dropped = IF(c == size, 1, 0)
    ensure_eq('one more, the oldest dropped if necessary', len(kept), c + 1 - dropped)
    last = kept[len(kept) - 1]
    ensure_eq('the new one', last[2], new)
    ensure_eq('its features', last[0], array_of((d,), lambda j: m.phi(0, new, j)))
    ensure_eq('its loss', last[1], m.lost(-1, new))
    if c > dropped:
        v = integer('v', 0, c - dropped)
        ensure_eq('the latest results', kept[v][2], v + dropped)
        ensure_eq('their features', kept[v][0], features[v + dropped])
        ensure_eq('their losses', kept[v][1], losses[v + dropped])


class Named(Arbitrary):
    """samples and results are numbers"""
    def joint_feature(self, x, y, y_true=None):
        if getattr(self, 'rescale_C', False):
            ensure_eq('truth passed on', y_true, -1)
        return array_of((self.size_joint_feature,), lambda j: self.phi(x, y, j))

    def loss(self, y, y_hat):
        return self.lost(y, y_hat)


# ------------------------------------------------------------------------------------------------ fit
def c_rounds():
    """training asks the cache first and runs fresh inference whenever it gives nothing"""
    n, d, rounds = choice('n_samples', [1, 2]), dim('d', 1), choice('max_iter', [1, 2, 4])
    script = [choice('round_%d' % t, ['cache', 'fresh', 'nothing']) for t in range(rounds)]
    m = Arbitrary(d)
    m.initialize = lambda X, Y: None
    m.batch_joint_feature = lambda X, Y, Y_true=None: np.zeros(d)
    s = OneSlackSSVM(m, max_iter=rounds, inference_cache=choice('cache', [1, 3]))
    s._objective = lambda X, Y: 0.0
    done, cached = [], []

    def constraint(t):
        return [Cached(i, t) for i in range(n)], array_of((d,), lambda j: m.phi(0, t, j)), m.lost(0, t)

    def from_cache(X, Y, gt, constraints):
        t = len(done)
        done.append('cache')
        if script[t] != 'cache':
            raise NoConstraint
        return constraint(t)

    def fresh(X, Y, gt, constraints, check=True):
        t = len(done) - 1
        ensure('after asking the cache', script[t] != 'cache')
        ensure('checked', check)
        done[t] = 'fresh'
        if script[t] == 'nothing':
            raise NoConstraint
        return constraint(t)

    def update(X, Y, Y_hat):
        cached.append((len(done) - 1, [(y.i, y.t) for y in Y_hat]))

    def solve(constraints, n_samples):
        t = len(done) - 1
        ensure_eq('the new constraint', (constraints[-1][0], constraints[-1][1]), constraint(t)[1:])
        s.w = real('w_%d' % t, d)
        return real('value_%d' % t)
    s._constraint_from_cache, s._find_new_constraint, s._update_cache = from_cache, fresh, update
    s._solve_1_slack_qp = solve
    s.fit(list(range(n)), list(range(n)))
    rounds = [i for i, what in enumerate(script) if what == 'nothing'][:1] or [rounds]
    ensure('rounds until nothing is found', len(done) == min(rounds[0] + 1, len(script)))
    ensure('fresh results are cached', cached == [
        (t, [(i, t) for i in range(n)]) for t in range(rounds[0]) if script[t] == 'fresh'])
    ensure('marked', s.cached_constraint_ == [what == 'cache' for what in script[:rounds[0]]] + [False])


def c_history():
    """the same for the cache that training leaves behind"""
    n, d, size = choice('n_samples', [1, 2]), dim('d', 1), choice('cache', [1, 2])
    m = History(d, choice('rescale_C', [False, True]))
    s = OneSlackSSVM(m, max_iter=choice('max_iter', [1, 3, 5]), inference_cache=size, tol=-100.0,
                     cache_tol=choice('cache_tol', ['auto', -100.0, 0.1]))
    s.fit(list(range(n)), [np.array([i, -1]) for i in range(n)])
    assume(s.inference_cache_ is not None)        # nothing found better than the truth
    ensure('a cache for each sample', len(s.inference_cache_) == n)
    for i, kept in enumerate(s.inference_cache_):
        ensure('no more than configured', 1 <= len(kept) <= size)
        for phi, loss, y in kept:
            ensure('a result found for this sample', any(a == i and b is y for a, b in m.found))
            ensure_eq('its features', phi, m.joint_feature(i, y, y))
            ensure_eq('its loss', loss, m.loss(s, y))


class History(Arbitrary):
    """samples are numbers, results arrays of the sample and the number of the inference"""
    def __init__(self, d, rescale):
        Arbitrary.__init__(self, d, rescale)
        self.found = []

    def initialize(self, X, Y):
        pass

    def joint_feature(self, x, y, y_true=None):
        if getattr(self, 'rescale_C', False):
            ensure('truth passed on', y_true is not None)
        return array_of((self.size_joint_feature,), lambda j: self.phi(x, y[1], j))

    def loss(self, y, y_hat):
        return self.lost(y_hat[0], y_hat[1])

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        r = np.array([x, len(self.found)])
        self.found.append((x, r))
        return r


BOUNDED = {'c_rounds': 'histories of working sets are beyond the loop rule',
           'c_history': 'histories of working sets are beyond the loop rule',
           'c_update': 'sequences of updates of several samples: lists of lists that grow and shrink'}


class Results(Arbitrary):
    """labellings of three nodes or their marginals, each naming its number"""
    def result(self, i, f, relaxed):
        y = np.array([f // 2, f % 2, 1])
        if not relaxed:
            return y
        return np.array([y, 1 - y]).T * 1.0, np.array([[f + 0.5, 1.0, 0.0, 0.0]])

    def name(self, y):
        if isinstance(y, tuple):
            return int(y[1][0, 0]), True
        return int(2 * y[0] + y[1]), False

    def joint_feature(self, x, y, y_true=None):
        f, r = self.name(y)
        if getattr(self, 'rescale_C', False):
            ensure('truth passed on', y_true is not None)
        return array_of((self.size_joint_feature,), lambda j: self.phi(x, f, int(r), j))

    def loss(self, y, y_hat):
        f, r = self.name(y_hat)
        return self.lost(self.name(y)[0], f, int(r))
