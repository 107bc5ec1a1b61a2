"""C09: constraint generation reports consistent feature difference, loss and slack."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners.ssvm import BaseSSVM
from pystruct.learners import (OneSlackSSVM, NSlackSSVM, SubgradientSSVM, FrankWolfeSSVM, LatentSSVM,
                               SubgradientLatentSSVM)
from pystruct.utils.inference import find_constraint, find_constraint_latent, objective_primal
from pystruct.utils.inference import inference as predict_one, loss_augmented_inference as augment_one


class Table(StructuredModel):
    """an arbitrary model: features, losses and predictions are entries of arbitrary tables, inputs are numbers"""
    def __init__(self, n, n_y, d, rescale=False, hidden=False):
        self.size_joint_feature = d
        self.phi = real('phi', n, n_y, d)
        self.losses = real('losses', n_y, n_y)
        self.plain = ints('plain', (n,), 0, n_y)
        self.augmented = ints('augmented', (n, n_y), 0, n_y)
        self.w = real('w', d)
        self.expected = True
        if rescale:
            self.rescale_C = True
            self.scale = real('scale', n_y)
        if hidden:
            self.completion = ints('completion', (n, n_y), 0, n_y)

    def joint_feature(self, x, y, y_true=None):
        if y_true is not None:
            return self.phi[x, y] * self.scale[y_true]
        return self.phi[x, y] * 1.0

    def loss(self, y, y_hat):
        return self.losses[y, y_hat]

    def inference(self, x, w, relaxed=None, constraints=None):
        ensure_eq('weights passed on', w, self.w)
        if constraints is not None:
            return constraints.number
        return self.plain[x]

    def latent(self, x, y, w):
        ensure_eq('weights passed on', w, self.w)
        return self.completion[x, y]

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure_eq('weights passed on', w, self.w)
        ensure_eq('relaxation passed on', relaxed, self.expected)
        return self.augmented[x, y]


class Fractional(StructuredModel):
    """an arbitrary model whose loss-augmented inference returns relaxed marginals"""
    def __init__(self, d, n_nodes, n_states):
        self.size_joint_feature = d
        self.truth = real('phi_truth', d)
        self.relaxed = real('phi_relaxed', d)
        self.answer = (real('unary_marginals', n_nodes, n_states), real('pairwise_marginals', n_nodes, n_states))
        self.value = real('continuous_loss')

    def joint_feature(self, x, y):
        if isinstance(y, tuple):
            ensure_eq('candidate', y, self.answer)
            return self.relaxed * 1.0
        return self.truth * 1.0

    def continuous_loss(self, y, y_hat):
        ensure_eq('loss between truth and', y_hat, self.answer[0])
        return self.value

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        return self.answer


def positive(v):
    return IF(v > 0, v, 0.0)


def check(tag, result, y_hat, difference, loss, w):
    r_y, r_d, r_slack, r_loss = result
    ensure_eq(tag + 'candidate', r_y, y_hat)
    ensure_eq(tag + 'feature difference', r_d, difference)
    ensure_eq(tag + 'loss', r_loss, loss)
    d = w.shape[0]
    ensure_eq(tag + 'slack', r_slack, positive(loss - SUM(d, lambda j: w[j] * difference[j])))


def c_find_constraint():
    """candidate, feature difference, loss and slack, with and without a candidate, difference and rescaling"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    rescale = choice('rescale_C', [False, True])
    m = Table(n, n_y, d, rescale)
    x, y, w = integer('x', 0, n), integer('y', 0, n_y), m.w
    given, difference = choice('given', [False, True]), choice('difference', [False, True])
    m.expected = choice('relaxed', [True, False])
    s = m.scale[y] if rescale else 1.0
    phi = m.phi
    y_hat = integer('y_hat', 0, n_y) if given else m.augmented[x, y]
    r = find_constraint(m, x, y, w, y_hat=y_hat if given else None, relaxed=m.expected, compute_difference=difference)
    expected = array_of((d,), lambda j: (s * phi[x, y, j] if difference else 0.0) - s * phi[x, y_hat, j])
    check('', r, y_hat, expected, m.losses[y, y_hat], w)


def c_find_constraint_defaults():
    """by default the difference is computed and inference is relaxed"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    m = Table(n, n_y, d)
    x, y, w = integer('x', 0, n), integer('y', 0, n_y), m.w
    y_hat = m.augmented[x, y]
    check('', find_constraint(m, x, y, w), y_hat, array_of((d,), lambda j: m.phi[x, y, j] - m.phi[x, y_hat, j]),
          m.losses[y, y_hat], w)


def c_find_constraint_relaxed():
    """for relaxed candidates the loss is the relaxed loss of the unary marginals"""
    d = dim('d', 1)
    m = Fractional(d, dim('n_nodes', 1), dim('n_states', 1))
    w = real('w', d)
    difference = choice('difference', [False, True])
    r = find_constraint(m, 0, 0, w, compute_difference=difference)
    check('', r, m.answer, array_of((d,), lambda j: (m.truth[j] if difference else 0.0) - m.relaxed[j]), m.value, w)


def c_find_constraint_latent():
    """for latent models the truth is the completed labelling"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    m = Table(n, n_y, d, hidden=True)
    x, y, w = integer('x', 0, n), integer('y', 0, n_y), m.w
    m.expected = choice('relaxed', [True, False])
    h = m.completion[x, y]
    h_hat = m.augmented[x, h]
    check('', find_constraint_latent(m, x, y, w, relaxed=m.expected), h_hat,
          array_of((d,), lambda j: m.phi[x, h, j] - m.phi[x, h_hat, j]), m.losses[h, h_hat], w)


def c_objective_primal():
    """half the squared norm plus C times the sum of the slacks"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    rescale = choice('rescale_C', [False, True])
    m = Table(n, n_y, d, rescale)
    t = ints('Y', (n,), 0, n_y)
    X, Y = list_of(n, lambda i: i), list_of(n, lambda i: t[i])
    C, w = pos_real('C'), m.w
    variant, jobs = choice('variant', ['n_slack', 'one_slack']), choice('n_jobs', [1, 2, -1])
    ensure_eq('objective', objective_primal(m, w, X, Y, C, variant=variant, n_jobs=jobs), primal(m, t, n, C, w))


def slack(m, i, y, w):
    y_hat = m.augmented[i, y]
    s = m.scale[y] if getattr(m, 'rescale_C', False) else 1.0
    return positive(m.losses[y, y_hat] - SUM(w.shape[0], lambda j: w[j] * (s * m.phi[i, y, j] - s * m.phi[i, y_hat, j])))


def primal(m, t, n, C, w):
    return SUM(w.shape[0], lambda j: w[j] * w[j]) / 2 + C * SUM(n, lambda i: slack(m, i, t[i], w))


def c_learner_objective():
    """the learners report the primal objective of their current weights"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    m = Table(n, n_y, d)
    t = ints('Y', (n,), 0, n_y)
    X, Y = list_of(n, lambda i: i), list_of(n, lambda i: t[i])
    C, jobs = pos_real('C'), choice('n_jobs', [1, 2])
    cls = choice('learner', [BaseSSVM, OneSlackSSVM, NSlackSSVM, SubgradientSSVM])
    s = cls(m, C=C, n_jobs=jobs)
    s.w = m.w
    ensure_eq('objective', s._objective(X, Y), primal(m, t, n, C, m.w))


def c_latent_learner_objective():
    """the latent subgradient learner reports the objective with completed labellings"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    m = Table(n, n_y, d, hidden=True)
    t = ints('Y', (n,), 0, n_y)
    X, Y = list_of(n, lambda i: i), list_of(n, lambda i: t[i])
    C, jobs = pos_real('C'), choice('n_jobs', [1, 2])
    s = SubgradientLatentSSVM(m, C=C, n_jobs=jobs)
    s.w = m.w
    w = m.w

    def slack_of(i):
        h = m.completion[i, t[i]]
        h_hat = m.augmented[i, h]
        return positive(m.losses[h, h_hat] - SUM(d, lambda j: w[j] * (m.phi[i, h, j] - m.phi[i, h_hat, j])))
    ensure_eq('objective', s._objective(X, Y), SUM(d, lambda j: w[j] * w[j]) / 2 + C * SUM(n, slack_of))


def c_latent_cutting_plane_objective():
    """the latent learner built on a cutting-plane learner reports that objective too"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    m = Table(n, n_y, d, hidden=True)
    t = ints('Y', (n,), 0, n_y)
    X, Y = list_of(n, lambda i: i), list_of(n, lambda i: t[i])
    C = pos_real('C')
    base = choice('learner', [OneSlackSSVM, NSlackSSVM])(m, C=C, n_jobs=choice('n_jobs', [1, 2]))
    base.w = m.w
    ensure_eq('objective', base._objective(X, Y), primal(m, t, n, C, m.w))


def c_wrappers():
    """the functions used for parallel jobs call the model once with the same arguments"""
    n, n_y, d = dim('n_samples', 1), dim('n_y', 1), dim('d', 1)
    m = Table(n, n_y, d)
    x, y = integer('x', 0, n), integer('y', 0, n_y)
    m.expected = choice('relaxed', [True, False])
    ensure_eq('augmented', augment_one(m, x, y, m.w, relaxed=m.expected), m.augmented[x, y])
    ensure_eq('plain', predict_one(m, x, m.w), m.plain[x])


# ---- the same on the real models ----

def on_model(inst, rescale=False):
    m, x = inst.model, inst.x
    w = real('w', m.size_joint_feature)
    y, y_hat = inst.draw('y'), inst.draw('y_hat')
    recorder(y_hat)
    r = find_constraint(m, x, y, w)
    a, b = m.joint_feature(x, y), m.joint_feature(x, y_hat)
    check('', r, y_hat, array_of((m.size_joint_feature,), lambda j: a[j] - b[j]), m.loss(y, y_hat), w)


def c_graph():
    """GraphCRF"""
    on_model(graph('nonneg', choice('directed', [False, True])))


def c_edge_feature_graph():
    """EdgeFeatureGraphCRF"""
    on_model(edge_feature_graph('nonneg'))


def c_multi_label():
    """MultiLabelClf"""
    on_model(multi_label())


def c_chain():
    """ChainCRF"""
    on_model(chain(False))


def c_multi_class():
    """MultiClassClf, with and without rescaling"""
    d, c = dim('n_features', 1), dim('n_classes', 1)
    rescale = choice('rescale_C', [False, True])
    cw = class_weights(c, 'nonneg')
    m = MultiClassClf(n_features=d, n_classes=c, class_weight=cw, rescale_C=rescale)
    x, w, y = real('x', d), real('w', m.size_joint_feature), integer('y', 0, c)
    r = find_constraint(m, x, y, w)
    y_hat = m.loss_augmented_inference(x, y, w)
    s = cw[y] if rescale else 1.0
    difference = array_of((c * d,), lambda j: s * x[j % d] * (IF(j // d == y, 1.0, 0.0) - IF(j // d == y_hat, 1.0, 0.0)))
    check('', r, y_hat, difference, m.loss(y, y_hat), w)


def c_binary():
    """BinaryClf"""
    d = dim('n_features', 1)
    m = BinaryClf(n_features=d)
    x, w, y = real('x', d), real('w', d), 2 * integer('bit', 0, 2) - 1
    r = find_constraint(m, x, y, w)
    y_hat = m.loss_augmented_inference(x, y, w)
    check('', r, y_hat, array_of((d,), lambda j: x[j] * (y - y_hat) / 2.0), IF(y == y_hat, 0.0, 1.0), w)
