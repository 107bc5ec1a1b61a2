"""C08: model operations never modify their inputs."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa
from pystruct.inference import inference_methods, maxprod, linear_programming
from pystruct.inference.common import compute_energy
from pystruct.utils import make_grid_edges, edge_list_to_features, compress_sym, expand_sym, find_constraint
from pystruct.utils.graph_functions import is_forest


def check_frame(s, latent=False):
    """every operation leaves input, labellings and weights as they were"""
    m = s.model
    y, y_hat = s.draw('y'), s.draw('y_hat')
    w = real('w', m.size_joint_feature)
    recorder(s.draw('answer').reshape(-1))
    before = snapshot(s.x, y, y_hat, w, s.weights)

    def unchanged(what):
        ensure_unchanged(what, before, s.x, y, y_hat, w, s.weights)
    m.joint_feature(s.x, y)
    unchanged('joint_feature')
    m.loss(y, y_hat)
    unchanged('loss')
    if not latent:      # max_loss of the latent graph models takes labels, not hidden states
        m.max_loss(y)
        unchanged('max_loss')
    m.inference(s.x, w)
    unchanged('inference')
    m.inference(s.x, w, relaxed=True)
    unchanged('relaxed inference')
    m.loss_augmented_inference(s.x, y, w)
    unchanged('loss_augmented_inference')
    m.loss_augmented_inference(s.x, y, w, relaxed=True)
    unchanged('relaxed loss_augmented_inference')


def c_graph():
    """GraphCRF"""
    check_frame(graph(choice('cw', ['none', 'nonneg', 'integer'])))


def c_chain():
    """ChainCRF"""
    check_frame(chain(choice('cw', ['none', 'nonneg', 'integer'])))


def c_edge_feature_graph():
    """EdgeFeatureGraphCRF"""
    check_frame(edge_feature_graph(choice('cw', ['none', 'nonneg', 'integer'])))


def c_grid():
    """GridCRF and DirectionalGridCRF"""
    check_frame(grid(choice('directional', [False, True]), choice('nb', [4, 8])))


def c_multi_label():
    """MultiLabelClf"""
    check_frame(multi_label())


def c_latent_graph():
    """LatentGraphCRF"""
    check_frame(latent_graph(), latent=True)


def c_latent_grid():
    """LatentGridCRF and LatentDirectionalGridCRF"""
    check_frame(latent_grid(choice('directional', [False, True]), choice('nb', [4, 8])), latent=True)


def c_latent_node():
    """LatentNodeCRF"""
    check_frame(latent_node(choice('cw', ['none', 'nonneg', 'integer'])))


def c_edge_feature_latent_node():
    """EdgeFeatureLatentNodeCRF"""
    check_frame(latent_node(choice('cw', ['none', 'nonneg', 'integer']), True))


def c_typed():
    """NodeTypeEdgeFeatureGraphCRF with one or two types"""
    check_frame(typed(choice('n_types', [1, 2]), 'nonneg'))


def c_relaxed_labels():
    """joint feature and loss of relaxed labellings leave the marginals alone"""
    s = graph(choice('cw', ['none', 'nonneg', 'integer']))
    y = s.draw('y')
    q = (real('q', s.n_nodes, s.n_cls), real('pw', s.x[1].shape[0], s.n_cls * s.n_cls))
    before = snapshot(s.x, y, q)
    s.model.loss(y, q)
    ensure_unchanged('loss', before, s.x, y, q)
    s.model.joint_feature(s.x, q)
    ensure_unchanged('joint_feature', before, s.x, y, q)


def c_relaxed_edge_features():
    """joint feature of relaxed labellings of the edge feature model"""
    s = edge_feature_graph()
    q = (real('q', s.n_nodes, s.n_cls), real('pw', s.x[1].shape[0], s.n_cls * s.n_cls))
    before = snapshot(s.x, q)
    s.model.joint_feature(s.x, q)
    ensure_unchanged('joint_feature', before, s.x, q)


def c_latent_completion():
    """latent completion of LatentGraphCRF"""
    s = latent_graph()
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    w = real('w', s.model.size_joint_feature)
    answer = s.draw('answer')
    assume(ALL(s.n_nodes, lambda i: s.label(answer, i) == y[i]))
    recorder(answer)
    before = snapshot(s.x, y, w)
    s.model.latent(s.x, y, w)
    ensure_unchanged('latent', before, s.x, y, w)
    s.model.label_from_latent(answer)
    ensure_unchanged('label_from_latent', before, s.x, y, w)


def c_latent_node_completion():
    """latent completion of LatentNodeCRF and EdgeFeatureLatentNodeCRF"""
    s = latent_node('none', choice('edge_features_', [False, True]))
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    hidden = ints('hidden', (s.n_hid,), s.n_cls, s.model.n_states)
    w = real('w', s.model.size_joint_feature)
    recorder(np.concatenate([y, hidden]))
    before = snapshot(s.x, y, w)
    s.model.latent(s.x, y, w)
    ensure_unchanged('latent', before, s.x, y, w)


def c_binary():
    """BinaryClf, single and batch operations"""
    n, d = dim('n_samples', 0), dim('n_features', 1)
    m = BinaryClf(n_features=d)
    X, w, x = real('X', n, d), real('w', d), real('x', d)
    Y = 2 * ints('bits', (n,), 0, 2) - 1
    Y_hat = 2 * ints('bits2', (n,), 0, 2) - 1
    y = choice('y', [-1, 1])
    before = snapshot(X, w, x, Y, Y_hat)
    m.joint_feature(x, y)
    m.inference(x, w)
    m.loss_augmented_inference(x, y, w)
    ensure_unchanged('single', before, X, w, x, Y, Y_hat)
    m.batch_joint_feature(X, Y)
    m.batch_inference(X, w)
    m.batch_loss_augmented_inference(X, Y, w)
    m.batch_loss(Y, Y_hat)
    ensure_unchanged('batch', before, X, w, x, Y, Y_hat)


def c_multi_class():
    """MultiClassClf, single and batch operations"""
    n, d, c = dim('n_samples', 0), dim('n_features', 1), dim('n_classes', 1)
    cw = class_weights(c, choice('cw', ['none', 'nonneg', 'integer']))
    m = MultiClassClf(n_features=d, n_classes=c, class_weight=cw, rescale_C=choice('rescale_C', [False, True]))
    X, w, x = real('X', n, d), real('w', m.size_joint_feature), real('x', d)
    Y, Y_hat = ints('Y', (n,), 0, c), ints('Y_hat', (n,), 0, c)
    y = integer('y', 0, c)
    before = snapshot(X, w, x, Y, Y_hat, cw)
    m.joint_feature(x, y, y)
    m.inference(x, w)
    m.loss_augmented_inference(x, y, w)
    m.loss(y, y)
    ensure_unchanged('single', before, X, w, x, Y, Y_hat, cw)
    m.batch_joint_feature(X, Y, Y_hat)
    ensure_unchanged('batch joint feature', before, X, w, x, Y, Y_hat, cw)
    m.batch_inference(X, w)
    m.batch_loss(Y, Y_hat)
    ensure_unchanged('batch inference and loss', before, X, w, x, Y, Y_hat, cw)


def c_multi_class_batch_augmented():
    """MultiClassClf batch loss-augmented inference"""
    n, d, c = dim('n_samples', 0), dim('n_features', 1), dim('n_classes', 1)
    cw = class_weights(c, choice('cw', ['none', 'nonneg', 'integer']))
    m = MultiClassClf(n_features=d, n_classes=c, class_weight=cw, rescale_C=choice('rescale_C', [False, True]))
    X, w, Y = real('X', n, d), real('w', m.size_joint_feature), ints('Y', (n,), 0, c)
    before = snapshot(X, w, Y, cw)
    m.batch_loss_augmented_inference(X, Y, w)
    ensure_unchanged('arguments', before, X, w, Y, cw)


def potentials(per_edge):
    n_nodes, n_states, n_edges = dim('n_nodes', 1), dim('n_states', 1), dim('n_edges', 0)
    u = real('unary', n_nodes, n_states)
    p = real('pairwise', n_edges, n_states, n_states) if per_edge else real('pairwise', n_states, n_states)
    return n_nodes, n_states, n_edges, u, p, ints('edges', (n_edges, 2), 0, n_nodes)


def c_max_product_chain():
    """max-product on chains hands the dynamic program, which overwrites its arguments, copies"""
    n_nodes, n_states = dim('n_nodes', 1), dim('n_states', 1)
    u = real('unary', n_nodes, n_states)
    p = real('pairwise', n_nodes - 1, n_states, n_states) if choice('per_edge', [False, True]) \
        else real('pairwise', n_states, n_states)
    e = array_of((n_nodes - 1, 2), lambda i, j: i + j, 'i')
    path = ints('path', (n_nodes,), 0, n_states)

    def viterbi(score, trans_score):
        score[...] = 0
        trans_score[...] = 0
        return path
    stub('pystruct.inference._viterbi.viterbi', viterbi)
    before = snapshot(u, p, e)
    maxprod.inference_max_product(u, p, e)
    ensure_unchanged('arguments', before, u, p, e)


def c_unaries_and_energy():
    """unary inference and the energy of a labelling"""
    n_nodes, n_states, n_edges, u, p, e = potentials(choice('per_edge', [False, True]))
    y = ints('y', (n_nodes,), 0, n_states)
    before = snapshot(u, p, e, y)
    inference_methods.inference_unaries(u, p, e)
    ensure_unchanged('unaries', before, u, p, e, y)
    compute_energy(u, p, e, y)
    ensure_unchanged('energy', before, u, p, e, y)


def c_solvers():
    """inference through external solvers, whatever they do to the arrays that the front end computes for them, and
    provided that they leave the others alone"""
    n_nodes, n_states, n_edges, u, p, e = potentials(choice('per_edge', [False, True]))
    um, pm = real('um', n_nodes, n_states), real('pm', n_edges, n_states * n_states)
    relaxed = choice('relaxed', [False, True])

    def lp(unaries, edges, edge_weights):
        unaries[...] = 0
        edge_weights[...] = 0
        return um, pm, 0.0

    def ad3(unaries, edges, pairwise, verbose=0, n_iterations=0, exact=False):
        return um, pm, 0.0, 'fractional'
    stub('pystruct.inference.linear_programming.lp_general_graph', lp)
    stub('ad3.general_graph', ad3)
    before = snapshot(u, p, e)
    inference_methods.inference_lp(u, p, e, relaxed=relaxed)
    ensure_unchanged('lp', before, u, p, e)
    inference_methods.inference_ad3(u, p, e, relaxed=relaxed)
    ensure_unchanged('ad3', before, u, p, e)


def c_qpbo():
    """QPBO works on scaled copies"""
    n_nodes, n_states, n_edges, u, p, e = potentials(choice('per_edge', [False, True]))
    answer = ints('answer', (n_nodes,), 0, n_states)

    def expand(edges, unaries, pairwise, random_seed=None):
        edges[...] = 0
        unaries[...] = 0
        pairwise[...] = 0
        return answer
    stub('pyqpbo.alpha_expansion_general_graph', expand)
    before = snapshot(u, p, e)
    inference_methods.inference_qpbo(u, p, e)
    ensure_unchanged('arguments', before, u, p, e)


def c_utils():
    """grid, edge list and symmetric matrix utilities"""
    h, w, nf = dim('height', 1), dim('width', 1), dim('n_features', 1)
    x = real('x', h, w, nf)
    nb = choice('nb', [4, 8])
    before = snapshot(x)
    make_grid_edges(x, neighborhood=nb)
    lists = make_grid_edges(x, neighborhood=nb, return_lists=True)
    ensure_unchanged('make_grid_edges', before, x)
    before = snapshot(lists)
    edge_list_to_features(lists)
    ensure_unchanged('edge_list_to_features', before, lists)


def c_sym():
    """packing and unpacking of symmetric matrices"""
    n = dim('n', 1)
    A = real('A', n, n)
    packed = real('packed', n * (n + 1) // 2)
    before = snapshot(A, packed)
    compress_sym(A)
    compress_sym(A, make_symmetric=False)
    expand_sym(packed)
    ensure_unchanged('arguments', before, A, packed)


def c_find_constraint():
    """constraint generation"""
    s = graph()
    y, y_hat = s.draw('y'), s.draw('y_hat')
    w = real('w', s.model.size_joint_feature)
    recorder(y_hat)
    before = snapshot(s.x, y, y_hat, w)
    find_constraint(s.model, s.x, y, w, compute_difference=choice('difference', [False, True]))
    ensure_unchanged('arguments', before, s.x, y, y_hat, w)
