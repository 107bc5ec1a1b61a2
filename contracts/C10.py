"""C10: the cutting-plane learners solve the dual of the stated problem over constraints that were generated."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners import NSlackSSVM, OneSlackSSVM


BOUNDED = {'c_n_slack': 'offsets into lists of varying lengths are beyond the engine',
           'c_one_slack_prune': 'deletion from lists at computed positions is beyond the engine',
           'c_n_slack_prune': 'deletion from lists at computed positions is beyond the engine',
           'c_n_slack_fit': 'histories of growing and shrinking working sets are beyond the loop rule',
           'c_one_slack_fit': 'histories of growing and shrinking working sets are beyond the loop rule'}


class Program(object):
    """stands in for the solver of quadratic programs: checks each program and gives arbitrary answers"""
    def __init__(self, matrix, losses, bounds, blocks, equality, restricted):
        self.matrix, self.losses = matrix, losses            # feature differences (k, d), losses (k,)
        self.k, self.d = matrix.shape
        self.bounds, self.blocks = bounds, blocks            # upper bounds of the sums over blocks
        self.equality = equality
        self.restricted = restricted                         # index array of the weights that may not be positive
        self.solution = real('multipliers', self.k)
        self.value = real('dual_value')
        self.first = choice('first_answer', ['optimal', 'unknown', 'error'])
        self.second = choice('second_answer', ['optimal', 'unknown'])
        self.calls = 0
        stub('cvxopt.matrix', lambda values: values)
        stub('cvxopt.sparse', lambda values: values)
        stub('cvxopt.solvers.options', {})
        stub('cvxopt.solvers.qp', self.qp)

    def qp(self, P, q, G, h, A=None, b=None):
        self.calls = self.calls + 1
        k, d, m = self.k, self.d, self.matrix
        extra = 0.0 if self.calls == 1 else 1e-8
        ensure_eq('Gram matrix', P, array_of((k, k), lambda i, j:
                  SUM(d, lambda t: m[i, t] * m[j, t]) + IF(i == j, extra, 0.0)))
        ensure_eq('negated losses', q, array_of((k,), lambda i: -self.losses[i]))
        n_blocks, n_neg = len(self.bounds), self.restricted.shape[0]
        rows = k + n_blocks + n_neg
        left = np.vstack((array_of((k, k), lambda r, i: IF(r == i, -1.0, 0.0)),
                          array_of((n_blocks, k), lambda r, i: IF(self.blocks(r, i), 1.0, 0.0)),
                          array_of((n_neg, k), lambda r, i: self.matrix[i, self.restricted[r]])))
        right = np.hstack((np.zeros(k), self.bounds, np.zeros(n_neg)))
        if is_symbolic():
            ensure_eq('inequalities: left sides', G, left)
            ensure_eq('inequalities: right sides', h, right)
        else:
            ensure('shape of the inequalities', np.shape(G) == (rows, k) and np.shape(h) == (rows,))
            ensure_eq('inequalities in any order', ordered(G, h), ordered(left, right))
        if self.equality is None:
            ensure('no equations', A is None and b is None)
        else:
            ensure_eq('equation: left side', A, array_of((1, k), lambda r, i: 1.0))
            ensure_eq('equation: right side', b[0], self.equality)
        status = self.first if self.calls == 1 else self.second
        if status == 'error':
            raise ValueError('solver failed')
        return {'status': status, 'x': array_of((k, 1), lambda i, j: self.solution[i]),
                'primal objective': self.value}


def ordered(left, right):
    rows = np.column_stack([np.asarray(left, dtype=float), np.asarray(right, dtype=float)])
    return np.round(rows[np.lexsort(np.round(rows, 6).T)], 9)


def restriction(d):
    """no restriction or any list of weights that may not be positive"""
    if choice('negativity_constraint', [False, True]):
        q = dim('n_restricted', 1)
        neg = ints('restricted', (q,), 0, d)
        return neg, neg
    return None, ints('none_restricted', (0,), 0, d)


def settle(p, svm, solve, constraints, n, size):
    """solve the program, check weights, value, pruning"""
    pruned = []

    def prune(self, constraints_, a):
        ensure('pruning of the working set', constraints_ is constraints)
        ensure_eq('pruning with the multipliers', a, p.solution)
        pruned.append(True)
    stub('pystruct.learners.%s.%s.prune_constraints' % (
        'one_slack_ssvm' if size is None else 'n_slack_ssvm', type(svm).__name__), prune)
    if p.first != 'optimal' and p.second != 'optimal':
        ensure_raises('solver failed twice', solve, constraints, n)
        return
    value = solve(constraints, n)
    ensure('programs solved', p.calls == (1 if p.first == 'optimal' else 2))
    ensure('pruned once', len(pruned) == 1)
    ensure_eq('dual objective', value, -p.value)
    ensure_eq('weights', svm.w, array_of((p.d,), lambda t: SUM(p.k, lambda i: p.solution[i] * p.matrix[i, t])))


def c_one_slack():
    """one-slack dual: multipliers of all constraints sum to C times the number of samples"""
    k, d, n = dim('n_constraints', 1), dim('d', 1), dim('n_samples', 1)
    C = pos_real('C')
    matrix, losses = real('differences', k, d), real('losses', k)
    given, neg = restriction(d)
    svm = OneSlackSSVM(StructuredModel(), C=C, negativity_constraint=given)
    p = Program(matrix, losses, np.zeros(0), lambda b, i: False, C * n, neg)
    settle(p, svm, svm._solve_1_slack_qp, list_of(k, lambda i: (matrix[i], losses[i])), n, None)


def c_n_slack_flat():
    """n-slack dual: with the same number of constraints for every sample"""
    n, s, d = dim('n_samples', 1), dim('n_constraints', 1), dim('d', 1)
    C = pos_real('C')
    all_differences, all_losses = real('differences', n, s, d), real('losses', n, s)
    matrix = array_of((n * s, d), lambda r, t: all_differences[r // s, r % s, t])
    losses = array_of((n * s,), lambda r: all_losses[r // s, r % s])
    given, neg = restriction(d)
    svm = NSlackSSVM(StructuredModel(), C=C, negativity_constraint=given)
    p = Program(matrix, losses, array_of((n,), lambda i: C), lambda b, r: r // s == b, None, neg)
    constraints = list_of(n, lambda i: list_of(s, lambda j: [None, all_differences[i, j], all_losses[i, j]]))
    settle(p, svm, svm._solve_n_slack_qp, constraints, n, s)


def c_n_slack():
    """n-slack dual: multipliers of the constraints of each sample sum to at most C, any number of constraints each"""
    n, s, d = dim('n_samples', 1), dim('most_constraints', 1), dim('d', 1)
    C = pos_real('C')
    all_differences, all_losses = real('differences', n, s, d), real('losses', n, s)
    sizes = ints('sizes', (n,), 0, s + 1)
    assume(SUM(n, lambda i: sizes[i]) >= 1)
    matrix = np.vstack([all_differences[i, j] for i in range(n) for j in range(sizes[i])])
    losses = np.array([all_losses[i, j] for i in range(n) for j in range(sizes[i])])
    owner = [i for i in range(n) for j in range(sizes[i])]
    given, neg = restriction(d)
    svm = NSlackSSVM(StructuredModel(), C=C, negativity_constraint=given)
    p = Program(matrix, losses, array_of((n,), lambda i: C), lambda b, r: owner[r] == b, None, neg)
    constraints = list_of(n, lambda i: list_of(sizes[i], lambda j: [None, all_differences[i, j], all_losses[i, j]]))
    settle(p, svm, svm._solve_n_slack_qp, constraints, n, s)


def c_one_slack_prune():
    """pruning keeps constraints and their multipliers together and removes inactive constraints only"""
    k = dim('n_constraints', 2)
    window, threshold = choice('window', [0, 1, 2, 3]), choice('threshold', [0.0, 0.25, 0.5])
    svm = OneSlackSSVM(StructuredModel(), inactive_window=window, inactive_threshold=threshold)
    past = ints('history', (k,), 1, 4)
    history = nonneg_real('past_multipliers', k, 3)
    a = nonneg_real('multipliers', k)
    if choice('some zero', [True, False]):
        a = a * ints('nonzero', (k,), 0, 2)
        history = history * ints('past_nonzero', (k, 3), 0, 2)
    constraints = [('constraint', i) for i in range(k)]
    svm.alphas = [list(history[i, :past[i]]) for i in range(k - 1)]
    svm.prune_constraints(constraints, a)
    ensure('one history for each constraint', len(svm.alphas) == len(constraints))
    kept = [i for _, i in constraints]
    ensure('order kept', kept == sorted(set(kept)))
    full = [list(history[i, :past[i]]) * (i < k - 1) + [a[i]] for i in range(k)]
    for i, own in zip(kept, svm.alphas):
        ensure_eq('multipliers of the constraint', own, full[i])
    if window == 0:
        ensure('nothing pruned', len(kept) == k)
        return
    recent = [max(f[-window:]) for f in full]
    strongest = max(recent[1:])
    for i in range(k):
        ensure('inactive constraints only are pruned', (i in kept) == (recent[i] >= threshold * strongest))


def c_n_slack_prune():
    """pruning keeps constraints and their counters together; a constraint goes when it was inactive too often"""
    n, s = dim('n_samples', 1), dim('most_constraints', 1)
    window, threshold = choice('window', [0, 1, 2, 3]), choice('threshold', [0.0, 0.25, 0.5])
    C = pos_real('C')
    svm = NSlackSSVM(StructuredModel(), C=C, inactive_window=window, inactive_threshold=threshold)
    old, new = ints('old', (n,), 0, s + 1), ints('new', (n,), 0, 2)
    counts = ints('counts', (n, s), 0, window + 1)
    a = nonneg_real('multipliers', n, s + 1) * ints('nonzero', (n, s + 1), 0, 2)
    constraints = [[(i, j) for j in range(old[i] + new[i])] for i in range(n)]
    svm.last_active = [np.array(counts[i, :old[i]]) for i in range(n)]
    svm.prune_constraints(constraints, np.array([a[i, j] for i in range(n) for j in range(old[i] + new[i])]))
    for i in range(n):
        inactive = [IF(j < old[i], counts[i, min(j, s - 1)], 0) + IF(a[i, j] < threshold * C, 1, 0)
                    for j in range(old[i] + new[i])]
        expected = [j for j in range(old[i] + new[i]) if window == 0 or inactive[j] <= window]
        ensure('constraints kept', constraints[i] == [(i, j) for j in expected])
        if window:
            ensure_eq('counters', list(svm.last_active[i]), [inactive[j] for j in expected])


class Generator(StructuredModel):
    """arbitrary candidates: the losses name the candidate and its sample"""
    def __init__(self, n, n_y, d, steps):
        self.size_joint_feature = d
        self.n, self.n_y = n, n_y
        self.phi = real('phi', n, n_y, d)
        self.order = ints('candidates', (steps, n), 0, n_y)
        self.generated = [set() for _ in range(n)]
        self.calls = [0] * n
        self.watch = None
        self.inference_method = 'one'

    def initialize(self, X, Y):
        pass

    def joint_feature(self, x, y):
        return self.phi[x, y[1] if isinstance(y, tuple) else y] * 1.0

    def loss(self, y, y_hat):
        """unique for every sample and candidate; zero for the truth, candidate 0"""
        return 0.0 if y[1] == y_hat else 4.0 ** y[0] * y_hat * 0.25

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure('relaxed candidates', relaxed)
        k = self.order[self.calls[x] % len(self.order), x]
        self.calls[x] += 1
        self.generated[x].add(int(k))
        if self.watch is not None:
            self.watch(int(x), int(k), w)
        return int(k)

    def last(self, back):
        return [int(self.order[(self.calls[i] - back) % len(self.order), i]) for i in range(self.n)]

    def batch_joint_feature(self, X, Y, Y_true=None):
        return np.sum([self.joint_feature(x, y) for x, y in zip(X, Y)], axis=0)

    def difference(self, x, y):
        return self.phi[x, 0] - self.phi[x, y]


def feasible(k, total, name):
    """arbitrary multipliers of the given sum"""
    a = nonneg_real(name, k) * ints(name + '_nonzero', (k,), 0, 2)
    return a * (total / a.sum()) if a.sum() > 0 else np.full(k, total / k)


def c_n_slack_fit():
    """the working set holds constraints generated for the sample; weights come from the multipliers"""
    n, n_y, d = dim('n_samples', 1), choice('n_y', [2, 3, 4]), dim('d', 1)
    model = Generator(n, n_y, d, choice('steps', [1, 2, 3]))
    C = pos_real('C')
    state = {'calls': 0, 'w': np.zeros(d), 'value': 0.0, 'solved': False, 'rows': [], 'at': 0, 'first': None, 'due': {}}
    names = {model.loss((i, 0), y): (i, y) for i in range(n) for y in range(1, n_y)}

    def excess(i, y, w):
        return max(model.loss((i, 0), y) - w.dot(model.difference(i, y)), 0.0)

    def watch(i, y, w):
        """the candidate of the sample before must be in the working set by now, if it was violated"""
        ensure('violated candidates enter the working set', i not in state['due'])
        known = [excess(i, k, w) for j, k in state['rows'] if j == i]
        clear = excess(i, y, w) > 1e-3 and not (svm.check_constraints and any(
            e > excess(i, y, w) - 1e-3 for e in known))
        if clear and (i, y) not in state['rows']:
            state['due'][i] = y

    def qp(P, q, G, h, A=None, b=None):
        P, q, G, h = [np.array(v, dtype=float) for v in (P, q, G, h)]
        k = len(P)
        state['calls'] += 1
        rows = [names.get(round(float(-v), 9)) for v in q]
        ensure('losses of generated constraints', all(r is not None for r in rows))
        ensure('generated for that sample', all(y in model.generated[i] for i, y in rows))
        ensure('no constraint twice', len(set(rows)) == k)
        state['due'] = {i: y for i, y in state['due'].items() if (i, y) not in rows}
        m = np.array([model.difference(i, y) for i, y in rows])
        ensure_eq('Gram matrix', P, m.dot(m.T))
        blocks = np.array([[1.0 if i == j else 0.0 for i, _ in rows] for j in range(n)])
        ensure_eq('inequalities', ordered(G, h), ordered(np.vstack([-np.eye(k), blocks]), [0.0] * k + [C] * n))
        a = np.zeros(k)
        for j in range(n):
            own = [t for t in range(k) if rows[t][0] == j]
            if own:
                a[own] = feasible(len(own), C * choice('share_%d_%d' % (state['calls'], j), [1.0, 0.5]),
                                  'a_%d_%d' % (state['calls'], j))
        state.update(w=a.dot(m), value=real('value_%d' % state['calls']), solved=True, rows=rows,
                     at=sum(model.calls), first=state['first'] or rows)
        return {'status': 'optimal', 'x': a.reshape(-1, 1), 'primal objective': state['value']}
    stub('cvxopt.matrix', lambda v, *args: v)
    stub('cvxopt.sparse', lambda v: v)
    stub('cvxopt.solvers.options', {})
    stub('cvxopt.solvers.qp', qp)
    tol = choice('tol', [-np.inf, 0.2])
    svm = NSlackSSVM(model, C=C, max_iter=choice('max_iter', [1, 3, 5]), batch_size=choice('batch_size', [-1, 1, 2]),
                     check_constraints=choice('check', [False, True]), tol=tol,
                     inactive_window=choice('window', [0, 1, 2]), inactive_threshold=choice('threshold', [1e-5, 0.25]))
    X, Y = np.arange(n), [(i, 0) for i in range(n)]
    model.watch = watch
    known = None
    start = choice('start', ['fresh', 'known constraints', 'fit before', 'last constraints'])
    if start in ('fit before', 'last constraints'):
        svm.fit(X, Y)
        known = svm.constraints_ if start == 'last constraints' else None
        state.update(w=np.zeros(d), solved=False, rows=[], at=0, first=None, due={})
    if start != 'fresh' and known is None:
        given = ints('known', (n, n_y), 0, 2)
        known = [[[y, model.difference(i, y), model.loss((i, 0), y)] for y in range(1, n_y) if given[i, y]]
                 for i in range(n)]
        for i, sample in enumerate(known):
            model.generated[i] |= set(c[0] for c in sample)
    before = list(model.calls)
    given = [(i, c[0]) for i, sample in enumerate(known or []) for c in sample]
    svm.fit(X, Y, constraints=known)
    ensure_eq('weights', svm.w, state['w'])
    ensure_eq('objective', svm.objective_curve_[-1], -state['value'] if state['solved'] else 0.0)
    ensure('known constraints are used', not given or sorted(state['first'] or []) == sorted(given))
    passes = [model.calls[i] - before[i] - 1 for i in range(n)]          # one more for the final objective
    ensure('every sample in every pass', all(q == passes[0] for q in passes))
    ensure('passes', 1 <= passes[0] <= svm.max_iter)
    curve = svm.objective_curve_[-1 - passes[0]:-1]
    ensure('objective of every pass', len(curve) == passes[0])
    stalled = [k > 1 and curve[k] - curve[k - 1] < tol for k in range(passes[0])]
    ensure('stops early only after a pass without a program',
           passes[0] == svm.max_iter or state['at'] <= sum(model.calls) - 2 * n or stalled[-1])
    ensure('stops when the objective stalls', not any(stalled[:-1]))
    slack = [max(model.loss((i, 0), y) - svm.w.dot(model.difference(i, y)), 0.0)
             for i, y in enumerate(model.last(1))]
    ensure_eq('final primal objective', svm.primal_objective_curve_[-1], C * sum(slack) + svm.w.dot(svm.w) / 2)
    for i, sample in enumerate(svm.constraints_):
        for y, difference, loss in sample:
            ensure('final working set', y in model.generated[i])
            ensure('solved for the final working set', (i, y) in state['rows'])
            ensure_eq('its feature difference', difference, model.difference(i, y))
            ensure_eq('its loss', loss, model.loss((i, 0), y))


def c_one_slack_fit():
    """the working set holds means of constraints generated for the samples; weights come from the multipliers"""
    n, n_y, d = dim('n_samples', 1), choice('n_y', [2, 3, 4]), dim('d', 1)
    assume(n <= 3)
    model = Generator(n, n_y, d, choice('steps', [1, 2, 3]))
    C = pos_real('C')
    state = {'calls': 0, 'total': 0, 'w': np.zeros(d), 'value': 0.0, 'warm': False}
    names = {}
    for ys in np.ndindex(*(n_y,) * n):
        names[round(float(np.mean([model.loss((i, 0), y) for i, y in enumerate(ys)])), 9)] = ys

    def identify(loss):
        ys = names.get(round(float(loss), 9))
        ensure('mean loss of generated constraints', ys is not None)
        ensure('generated for these samples', all(y in model.generated[i] or y == 0 for i, y in enumerate(ys)))
        return np.mean([model.difference(i, y) for i, y in enumerate(ys)], axis=0)

    def qp(P, q, G, h, A=None, b=None):
        P, q, G, h = [np.array(v, dtype=float) for v in (P, q, G, h)]
        k = len(P)
        state['calls'] += 1
        state['total'] += 1
        m = np.array([identify(-v) for v in q])
        ensure_eq('Gram matrix', P, m.dot(m.T))
        ensure_eq('inequalities', ordered(G, h), ordered(-np.eye(k), [0.0] * k))
        ensure_eq('equation', (np.array(A, dtype=float), float(b[0])), (np.ones((1, k)), C * n))
        found = sorted((-q - m.dot(state['w'])).tolist() + [0.0])     # how much the weights so far violate each
        space = 1e-6 * (1.0 + sum(abs(v) for v in found))
        least = tol - 1.0 if state['calls'] == 1 else tol + found[-2]
        ensure('the constraint added is violated by more than the others', found[-1] >= least - space)
        if tol > 0 and not (state['calls'] == 1 and state['warm']):
            ensure_eq('primal objective', svm.primal_objective_curve_[-1],
                      C * n * found[-1] + state['w'].dot(state['w']) / 2)
        a = feasible(k, C * n, 'a_%d' % state['total'])
        state.update(w=a.dot(m), value=real('value_%d' % state['total']))
        return {'status': 'optimal', 'x': a.reshape(-1, 1), 'primal objective': state['value']}
    stub('cvxopt.matrix', lambda v, *args: v)
    stub('cvxopt.sparse', lambda v: v)
    stub('cvxopt.solvers.options', {})
    stub('cvxopt.solvers.qp', qp)
    tol = choice('tol', [-np.inf, 0.01, 1.5])
    svm = OneSlackSSVM(model, C=C, max_iter=choice('max_iter', [1, 3, 6]), tol=tol,
                       check_constraints=choice('check', [False, True]), inference_cache=choice('cache', [0, 1, 3]),
                       inactive_window=choice('window', [0, 1, 2]), inactive_threshold=choice('threshold', [1e-5, 0.25]))
    X, Y = np.arange(n), [(i, 0) for i in range(n)]
    svm.fit(X, Y)
    start = choice('then', ['stop', 'fit again', 'soft', 'warm'])
    if start != 'stop' and state['calls']:
        if start != 'warm':
            state.update(w=np.zeros(d), value=0.0)
        state.update(calls=0, warm=start == 'warm')
        svm.fit(X, Y, warm_start={'fit again': False, 'soft': 'soft', 'warm': True}[start])
    else:
        start = 'stop'
    ensure_eq('weights', svm.w, state['w'])
    ensure_eq('objective', svm.objective_curve_[-1], -state['value'])

    def candidate(back):
        ys = model.last(back)
        return (np.mean([model.difference(i, y) for i, y in enumerate(ys)], axis=0),
                np.mean([model.loss((i, 0), y) for i, y in enumerate(ys)]))
    slack = [max(model.loss((i, 0), y) - svm.w.dot(model.difference(i, y)), 0.0)
             for i, y in enumerate(model.last(1))]
    ensure_eq('final primal objective', svm.primal_objective_curve_[-1], C * sum(slack) + svm.w.dot(svm.w) / 2)
    ensure('programs', state['calls'] <= svm.max_iter)
    final = svm.constraints_ if state['calls'] or start == 'warm' else [(np.zeros(d), 0.0)]        # of the truth
    if state['calls'] < svm.max_iter:
        difference, loss = candidate(2)
        same = [np.allclose(other, difference) and abs(mean - loss) < 1e-9 for other, mean in final]
        weaker = [loss - svm.w.dot(difference) < max(mean - svm.w.dot(other), 0.0) for other, mean in final]
        last = max([mean - svm.w.dot(other) for other, mean in final] + [0.0]) if state['calls'] else -1.0
        low = loss - svm.w.dot(difference) < last + tol + 1e-6 * (1.0 + last)
        ensure('stops early only without a new constraint', any(same) or low or svm.check_constraints and any(weaker))
    for difference, loss in svm.constraints_ if state['calls'] else ():
        ensure_eq('final working set', difference, identify(loss))
    ensure('one history of multipliers for each constraint', not state['calls'] or len(svm.alphas) == len(svm.constraints_))
