"""C03: losses are class-weighted Hamming losses."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners import OneSlackSSVM, NSlackSSVM, SubgradientSSVM, LatentSSVM, SubgradientLatentSSVM


def check_loss(s):
    """loss formula, zero on agreement, never above the maximal loss"""
    y, y_hat = s.draw('y'), s.draw('y_hat')

    def weight(l):
        return 1.0 if s.weights is None else s.weights[l]
    loss = s.model.loss(y, y_hat)
    ensure_eq('hamming', loss, SUM(s.n_nodes, lambda i: IF(s.label(y, i) == s.label(y_hat, i), 0.0,
                                                           weight(s.label(y, i)))))
    ensure_eq('zero on agreement', s.model.loss(y, y), 0)
    ensure_le('nonnegative', 0, loss)
    return y, y_hat, loss


def check_max(s, y, loss):
    top = s.model.max_loss(y)
    ensure_eq('maximal loss', top, SUM(s.n_nodes, lambda i: 1.0 if s.weights is None else s.weights[s.label(y, i)]))
    ensure_le('bounded', loss, top)


def c_graph():
    """GraphCRF, with and without class weights"""
    s = graph(choice('cw', ['none', 'nonneg', 'integer']))
    y, y_hat, loss = check_loss(s)
    check_max(s, y, loss)


def c_chain():
    """ChainCRF"""
    s = chain(choice('cw', ['none', 'nonneg', 'integer']))
    y, y_hat, loss = check_loss(s)
    check_max(s, y, loss)


def c_edge_feature_graph():
    """EdgeFeatureGraphCRF"""
    s = edge_feature_graph(choice('cw', ['none', 'nonneg', 'integer']))
    y, y_hat, loss = check_loss(s)
    check_max(s, y, loss)


def c_grid():
    """GridCRF and DirectionalGridCRF"""
    s = grid(choice('directional', [False, True]), choice('nb', [4, 8]))
    y, y_hat, loss = check_loss(s)
    check_max(s, y, loss)


def c_multi_label():
    """MultiLabelClf"""
    s = multi_label()
    y, y_hat, loss = check_loss(s)
    check_max(s, y, loss)


def c_zero_only_on_agreement():
    """with positive class weights the loss is zero only when the labellings agree: it is at least the weight of any
    position where they differ"""
    s = graph(choice('cw', ['none', 'positive']))
    y, y_hat = s.draw('y'), s.draw('y_hat')
    i = integer('i', 0, s.n_nodes)
    assume(y[i] != y_hat[i])
    ensure_le('at least that weight', 1.0 if s.weights is None else s.weights[y[i]], s.model.loss(y, y_hat))


def c_multi_class():
    """MultiClassClf"""
    n, c = dim('n_features', 1), dim('n_classes', 1)
    cw = class_weights(c, choice('cw', ['none', 'nonneg', 'integer']))
    m = MultiClassClf(n_features=n, n_classes=c, class_weight=cw)
    y, y_hat = integer('y', 0, c), integer('y_hat', 0, c)
    w = 1.0 if cw is None else cw[y]
    ensure_eq('hamming', m.loss(y, y_hat), IF(y == y_hat, 0.0, w))
    ensure_eq('maximal loss', m.max_loss(np.array([y])), w)


def c_binary():
    """BinaryClf"""
    m = BinaryClf(n_features=dim('n_features', 1))
    y, y_hat = choice('y', [-1, 1]), choice('y_hat', [-1, 1])
    ensure_eq('hamming', m.loss(y, y_hat), 0 if y == y_hat else 1)


def c_latent_graph():
    """LatentGraphCRF: label disagreement, not hidden-state disagreement"""
    s = latent_graph()
    y, y_hat, loss = check_loss(s)


def c_latent_grid():
    """LatentGridCRF and LatentDirectionalGridCRF"""
    s = latent_grid(choice('directional', [False, True]), choice('nb', [4, 8]))
    y, y_hat, loss = check_loss(s)


def c_latent_node():
    """LatentNodeCRF: only the visible nodes count"""
    s = latent_node(choice('cw', ['none', 'nonneg', 'integer']))
    y, y_hat, loss = check_loss(s)
    check_max(s, y, loss)


def c_edge_feature_latent_node():
    """EdgeFeatureLatentNodeCRF"""
    s = latent_node(choice('cw', ['none', 'nonneg', 'integer']), True)
    y, y_hat, loss = check_loss(s)
    check_max(s, y, loss)


def one_hot(y, n_nodes, n_states):
    return array_of((n_nodes, n_states), lambda i, k: IF(y[i] == k, 1.0, 0.0))


def c_relaxed_graph():
    """the loss of relaxed marginals is the expected weighted Hamming loss, and of one-hot marginals the loss"""
    s = graph(choice('cw', ['none', 'nonneg', 'integer']))
    y, y_hat = s.draw('y'), s.draw('y_hat')
    q = real('q', s.n_nodes, s.n_cls)
    pw = real('pw', 2, 2)

    def weight(l):
        return 1.0 if s.weights is None else s.weights[l]
    ensure_eq('expected loss', s.model.loss(y, (q, pw)), SUM(s.n_nodes, lambda i: weight(y[i]) * (1 - q[i, y[i]])))
    ensure_eq('one-hot', s.model.loss(y, (one_hot(y_hat, s.n_nodes, s.n_cls), pw)), s.model.loss(y, y_hat))


def c_relaxed_latent_graph():
    """LatentGraphCRF: relaxed marginals of hidden states are summed per label"""
    s = latent_graph()
    y, y_hat = s.draw('y'), s.draw('y_hat')
    ensure_eq('one-hot', s.model.loss(y, (one_hot(y_hat, s.n_nodes, s.model.n_states), None)),
              s.model.loss(y, y_hat))


def c_relaxed_latent_node():
    """LatentNodeCRF and EdgeFeatureLatentNodeCRF: only the visible nodes' label marginals count"""
    s = latent_node(choice('cw', ['none', 'nonneg', 'integer']), choice('with_ef', [False, True]))
    y, y_hat = s.draw('y'), s.draw('y_hat')
    n = s.x[0].shape[0]
    ensure_eq('one-hot', s.model.loss(y, (one_hot(y_hat, y.shape[0], s.model.n_states), None)),
              s.model.loss(y, y_hat))


def c_relaxed_grid():
    """GridCRF: relaxed marginals of shape (height, width, n_states)"""
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    h, wd = dim('height', 1), dim('width', 1)
    m = GridCRF(n_states=n_states, n_features=n_features, inference_method='ad3')
    y = ints('y', (h, wd), 0, n_states)
    y_hat = ints('y_hat', (h, wd), 0, n_states)
    q = array_of((h, wd, n_states), lambda i, j, k: IF(y_hat[i, j] == k, 1.0, 0.0))
    ensure_eq('one-hot', m.loss(y, (q, None)), m.loss(y, y_hat))


def c_base_loss():
    """latent models: the loss between labels is the Hamming loss of the labels"""
    s = latent_graph()
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    y_hat = ints('y_hat', (s.n_nodes,), 0, s.n_cls)
    ensure_eq('hamming', s.model.base_loss(y, y_hat), SUM(s.n_nodes, lambda i: IF(y[i] == y_hat[i], 0.0, 1.0)))


def c_relaxed_base_loss():
    """latent models: the loss of relaxed labels is the expected Hamming loss, of one-hot ones the Hamming loss"""
    s = latent_graph()
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    y_hat = ints('y_hat', (s.n_nodes,), 0, s.n_cls)
    q = real('q', s.n_nodes, s.n_cls)
    ensure_eq('expected loss', s.model.base_loss(y, (q, None)), SUM(s.n_nodes, lambda i: 1 - q[i, y[i]]))
    ensure_eq('one-hot', s.model.base_loss(y, (one_hot(y_hat, s.n_nodes, s.n_cls), None)), s.model.base_loss(y, y_hat))


def c_base_loss_latent_node():
    """models with latent nodes: the loss between labels is the weighted Hamming loss, also of one-hot labels"""
    s = latent_node(choice('cw', ['none', 'nonneg', 'integer']), choice('with_ef', [False, True]))
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    y_hat = ints('y_hat', (s.n_nodes,), 0, s.n_cls)
    loss = s.model.base_loss(y, y_hat)
    ensure_eq('hamming', loss, SUM(s.n_nodes, lambda i: IF(y[i] == y_hat[i], 0.0,
                                                           1.0 if s.weights is None else s.weights[y[i]])))
    ensure_eq('one-hot', s.model.base_loss(y, (one_hot(y_hat, s.n_nodes, s.n_cls), None)), loss)


def typed_loss(n_types):
    s = Typed(n_types, choice('cw', ['none', 'nonneg']))
    ys, ys_hat = s.draw('y'), s.draw('y_hat')
    y, y_hat = s.flat(ys), s.flat(ys_hat)

    def weight(t, l):
        return 1.0 if s.weights is None else s.weights[t][l]
    r = range(n_types)
    loss = s.model.loss(y, y_hat)
    ensure_eq('hamming', loss, sum([SUM(s.n_nodes[t], lambda i: IF(ys[t][i] == ys_hat[t][i], 0.0,
                                                                   weight(t, ys[t][i]))) for t in r]))
    top = s.model.max_loss(y)
    ensure_eq('maximal loss', top, sum([SUM(s.n_nodes[t], lambda i: 1.0 * weight(t, ys[t][i])) for t in r]))
    ensure_le('bounded', loss, top)
    q = [real('q_%d' % t, s.n_nodes[t], s.n_states[t]) for t in r]
    ensure_eq('expected loss', s.model.loss(y, (q, None)),
              sum([SUM(s.n_nodes[t], lambda i: weight(t, ys[t][i]) * (1 - q[t][i, ys[t][i]])) for t in r]))
    ensure_eq('one-hot', s.model.loss(y, ([one_hot(ys_hat[t], s.n_nodes[t], s.n_states[t]) for t in r], None)), loss)


def c_typed_one():
    """NodeTypeEdgeFeatureGraphCRF with one type"""
    typed_loss(1)


def c_typed_two():
    """NodeTypeEdgeFeatureGraphCRF with two types"""
    typed_loss(2)


class Losses(StructuredModel):
    """an arbitrary model: inputs are sample numbers, losses and maximal losses are arbitrary tables"""
    def __init__(self, n, n_y):
        self.size_joint_feature = 1
        self.inference_calls = 0
        self.plain = ints('plain', (n,), 0, n_y)
        self.table, self.top = real('losses', n_y, n_y), pos_real('max_losses', n_y)

    def inference(self, x, w, relaxed=None, constraints=None):
        return self.plain[x]

    def loss(self, y, y_hat):
        return self.table[y, y_hat]

    def max_loss(self, y):
        return self.top[y]

    def base_loss(self, y, y_hat):
        return self.table[y, y_hat]

    def label_from_latent(self, h):
        return h


def c_score():
    """a learner's score is one minus the total loss over the total maximal loss, latent learners use the labels"""
    n, n_y = dim('n_samples', 1), dim('n_y', 1)
    m = Losses(n, n_y)
    kind = choice('learner', ['one slack', 'n slack', 'subgradient', 'latent', 'subgradient latent'])
    if kind == 'one slack':
        learner = OneSlackSSVM(m)
    elif kind == 'n slack':
        learner = NSlackSSVM(m)
    elif kind == 'subgradient':
        learner = SubgradientSSVM(m)
    elif kind == 'latent':
        learner = LatentSSVM(OneSlackSSVM(m))
        learner.base_ssvm.w = real('w_base', 1)
    else:
        learner = SubgradientLatentSSVM(m)
    learner.w = real('w', 1)
    t = ints('Y', (n,), 0, n_y)
    X, Y = list_of(n, lambda i: i), list_of(n, lambda i: t[i])
    total = SUM(n, lambda i: m.table[t[i], m.plain[i]])
    ensure_eq('score', learner.score(X, Y), 1 - total / SUM(n, lambda i: m.top[t[i]]))
