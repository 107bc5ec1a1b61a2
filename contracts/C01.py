"""C01: a model scores a labelling by the inner product of the weights with its joint feature."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models import (GraphCRF, EdgeFeatureGraphCRF, GridCRF, DirectionalGridCRF, ChainCRF, MultiLabelClf,
                             BinaryClf, MultiClassClf, LatentGraphCRF, LatentNodeCRF, EdgeFeatureLatentNodeCRF,
                             LatentGridCRF, LatentDirectionalGridCRF, NodeTypeEdgeFeatureGraphCRF)

from contracts.common import (Typed, numbers, graph, chain, edge_feature_graph, grid, latent_graph, latent_grid,
                              latent_node, multi_label)

DISPATCH = ['pystruct.models.crf.inference_dispatch', 'pystruct.models.latent_graph_crf.inference_dispatch',
            'pystruct.models.latent_node_crf.inference_dispatch',
            'pystruct.models.node_type_edge_feature_graph_crf.inference_dispatch']


def recorder(calls, answer):
    def dispatch(unary, pairwise, edges, method, relaxed=False, return_energy=False, **kwargs):
        calls.append((unary, pairwise, edges))
        return answer
    stub('pystruct.inference.inference_methods.inference_dispatch', dispatch)


def score(u, p, e, y):
    s = SUM(u.shape[0], lambda i: u[i, y[i]])
    if p.ndim == 2:
        return s + SUM(e.shape[0], lambda k: p[y[e[k, 0]], y[e[k, 1]]])
    return s + SUM(e.shape[0], lambda k: p[k, y[e[k, 0]], y[e[k, 1]]])


def draw_graph(n_features):
    n_nodes = dim('n_nodes', 1)
    n_edges = dim('n_edges', 0)
    feats = numbers('features', n_nodes, n_features)
    edges = ints('edges', (n_edges, 2), 0, n_nodes)
    return n_nodes, n_edges, feats, edges


def grid_edge_contract(h, w, nb):
    """what the grid models need of make_grid_edges (C15 proves much more): lists of pairs of cells"""
    lists = [ints('edges%d' % q, (dim('n_edges%d' % q, 0), 2), 0, h * w) for q in range(2 if nb == 4 else 4)]

    def make_grid_edges(x, neighborhood=4, return_lists=False):
        ensure_eq('neighbourhood passed on', neighborhood, nb)
        if return_lists:
            return list(lists)
        return np.vstack(lists)
    modular('pystruct.utils.graph.make_grid_edges', make_grid_edges)


def check_score(model, x, y, yflat):
    w = real('w', model.size_joint_feature)
    calls = []
    recorder(calls, yflat)
    model.inference(x, w)
    u, p, e = calls[0]
    ensure_eq('one call', len(calls), 1)
    jf = model.joint_feature(x, y)
    ensure_eq('length', jf.shape, (model.size_joint_feature,))
    ensure_eq('score', np.dot(w, jf), score(u, p, e, yflat))


def c_graph_crf():
    """GraphCRF, directed and undirected"""
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    directed = choice('directed', [False, True])
    n_nodes, n_edges, feats, edges = draw_graph(n_features)
    y = ints('y', (n_nodes,), 0, n_states)
    model = GraphCRF(n_states=n_states, n_features=n_features, directed=directed, inference_method='ad3')
    check_score(model, (feats, edges), y, y)


def c_chain_crf():
    """ChainCRF, directed and undirected"""
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    directed = choice('directed', [False, True])
    n_nodes = dim('n_nodes', 1)
    x = numbers('x', n_nodes, n_features)
    y = ints('y', (n_nodes,), 0, n_states)
    model = ChainCRF(n_states=n_states, n_features=n_features, directed=directed)
    check_score(model, x, y, y)


def c_edge_feature_graph_crf():
    """EdgeFeatureGraphCRF without symmetry constraints"""
    n_states, n_features, n_ef = dim('n_states', 1), dim('n_features', 1), dim('n_edge_features', 1)
    n_nodes, n_edges, feats, edges = draw_graph(n_features)
    ef = numbers('edge_features', n_edges, n_ef)
    y = ints('y', (n_nodes,), 0, n_states)
    model = EdgeFeatureGraphCRF(n_states=n_states, n_features=n_features, n_edge_features=n_ef,
                                inference_method='ad3')
    check_score(model, (feats, edges, ef), y, y)


def distinct_indices(name, count, n, others=()):
    out = []
    for i in range(count):
        j = integer('%s%d' % (name, i), 0, n)
        for o in out + list(others):
            assume(j != o)
        out.append(j)
    return out


def sym_weights(n_unary, n_ef, n_states, sym, anti):
    """a weight vector that has the declared symmetries"""
    u = real('w_unary', n_unary)
    R = real('w_pair', n_ef, n_states, n_states)

    def entry(f, a, b):
        v = R[f, a, b]
        for i in sym:
            v = v + IF(f == i, R[f, b, a], 0.0)
        for i in anti:
            v = v - IF(f == i, R[f, b, a], 0.0)
        return v
    return np.hstack([u, array_of((n_ef, n_states, n_states), entry).ravel()])


def ensure_symmetries(pairwise, sym, anti):
    for i in sym:
        ensure_eq('joint feature is symmetric', pairwise[i], pairwise[i].T)
    for i in anti:
        ensure_eq('joint feature is antisymmetric', pairwise[i], -pairwise[i].T)


def c_edge_feature_graph_crf_symmetries():
    """EdgeFeatureGraphCRF with up to two symmetric and two antisymmetric edge features (at any positions among any
    number of edge features), for weights that have these symmetries"""
    n_states, n_features, n_ef = dim('n_states', 1), dim('n_features', 1), dim('n_edge_features', 1)
    n_nodes, n_edges, feats, edges = draw_graph(n_features)
    ef = numbers('edge_features', n_edges, n_ef)
    y = ints('y', (n_nodes,), 0, n_states)
    counts = choice('counts', [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2)])
    sym = distinct_indices('sym', counts[0], n_ef)
    anti = distinct_indices('anti', counts[1], n_ef, sym)
    model = EdgeFeatureGraphCRF(n_states=n_states, n_features=n_features, n_edge_features=n_ef,
                                inference_method='ad3', symmetric_edge_features=sym,
                                antisymmetric_edge_features=anti)
    w = sym_weights(n_states * n_features, n_ef, n_states, sym, anti)
    ensure_eq('advertised size', w.shape, (model.size_joint_feature,))
    calls = []
    recorder(calls, y)
    x = (feats, edges, ef)
    model.inference(x, w)
    u, p, e = calls[0]
    jf = model.joint_feature(x, y)
    ensure_eq('length', jf.shape, (model.size_joint_feature,))
    ensure_eq('score', np.dot(w, jf), score(u, p, e, y))
    ensure_symmetries(jf[n_states * n_features:].reshape(n_ef, n_states, n_states), sym, anti)


def c_grid_crf():
    """GridCRF, four and eight neighbours"""
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    nb = choice('neighborhood', [4, 8])
    h, wd = dim('height', 1), dim('width', 1)
    x = numbers('x', h, wd, n_features)
    y = ints('y', (h, wd), 0, n_states)
    model = GridCRF(n_states=n_states, n_features=n_features, neighborhood=nb, inference_method='ad3')
    grid_edge_contract(h, wd, nb)
    check_score(model, x, y, y.ravel())


def c_directional_grid_crf():
    """DirectionalGridCRF, four and eight neighbours"""
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    nb = choice('neighborhood', [4, 8])
    h, wd = dim('height', 1), dim('width', 1)
    x = numbers('x', h, wd, n_features)
    y = ints('y', (h, wd), 0, n_states)
    model = DirectionalGridCRF(n_states=n_states, n_features=n_features, neighborhood=nb, inference_method='ad3')
    grid_edge_contract(h, wd, nb)
    check_score(model, x, y, y.ravel())


def c_multi_label():
    """MultiLabelClf with any list of edges between labels, none included"""
    n_labels, n_features = dim('n_labels', 1), dim('n_features', 1)
    n_edges = dim('n_edges', 0)
    edges = ints('edges', (n_edges, 2), 0, n_labels)
    x = numbers('x', n_features)
    y = ints('y', (n_labels,), 0, 2)
    given = choice('edges_given', [True, False])
    if given:
        model = MultiLabelClf(n_labels=n_labels, n_features=n_features, edges=edges, inference_method='ad3')
    else:
        model = MultiLabelClf(n_labels=n_labels, n_features=n_features, inference_method='ad3')
    check_score(model, x, y, y)


def c_binary():
    """BinaryClf: predicting the sign of <w, x> is maximising <w, joint_feature(x, y)>"""
    n = dim('n_features', 1)
    x, w = numbers('x', n), real('w', n)
    model = BinaryClf(n_features=n)
    jp, jn = model.joint_feature(x, 1), model.joint_feature(x, -1)
    ensure_eq('length', jp.shape, (model.size_joint_feature,))
    y = model.inference(x, w)
    ensure('label', OR(y == 1, y == -1))
    ensure_le('maximal against +1', np.dot(w, jp), np.dot(w, model.joint_feature(x, y)))
    ensure_le('maximal against -1', np.dot(w, jn), np.dot(w, model.joint_feature(x, y)))
    ensure_eq('score difference', np.dot(w, jp) - np.dot(w, jn), np.dot(w, x))


def c_multi_class():
    """MultiClassClf: the label returned maximises <w, joint_feature>, and the energy is its score"""
    n, c = dim('n_features', 1), dim('n_classes', 1)
    x, w = numbers('x', n), real('w', n * c)
    model = MultiClassClf(n_features=n, n_classes=c)
    ensure_eq('size', model.size_joint_feature, n * c)
    k = integer('k', 0, c)
    jf = model.joint_feature(x, k)
    ensure_eq('length', jf.shape, (model.size_joint_feature,))
    y, energy = model.inference(x, w, return_energy=True)
    ensure_le('maximal', np.dot(w, jf), np.dot(w, model.joint_feature(x, y)))
    ensure_eq('energy', energy, np.dot(w, model.joint_feature(x, y)))
    ensure_eq('same label without energy', model.inference(x, w), y)


def c_latent_graph_crf():
    """LatentGraphCRF with a per-label number of hidden states"""
    n_labels, n_features = dim('n_labels', 1), dim('n_features', 1)
    spl = choice('per_label', [True, False])
    n_nodes, n_edges, feats, edges = draw_graph(n_features)
    if spl:
        ms = ints('ms', (n_labels,), 1, 5)
        m = list_of(n_labels, lambda i: ms[i])
    else:
        m = dim('m', 1)
    model = LatentGraphCRF(n_labels=n_labels, n_features=n_features, n_states_per_label=m, inference_method='ad3')
    h = ints('h', (n_nodes,), 0, model.n_states)
    check_score(model, (feats, edges), h, h)


def c_latent_node_crf():
    """LatentNodeCRF: for labellings that give visible nodes labels and hidden nodes hidden states"""
    n_labels, n_features = dim('n_labels', 1), dim('n_features', 1)
    n_states = dim('n_states', n_labels + 1)
    n_hs = n_states - n_labels
    lnf = choice('latent_node_features', [False, True])
    n_vis, n_hid, n_edges = dim('n_visible', 1), dim('n_hidden', 0), dim('n_edges', 0)
    edges = ints('edges', (n_edges, 2), 0, n_vis + n_hid)
    feats = numbers('features', n_vis + n_hid if lnf else n_vis, n_features)
    y = ints('y', (n_vis + n_hid,), lambda i: n_labels * IF(i < n_vis, 0, 1),
             lambda i: n_labels + n_hs * IF(i < n_vis, 0, 1))
    model = LatentNodeCRF(n_labels=n_labels, n_features=n_features, n_hidden_states=n_hs, inference_method='ad3',
                          latent_node_features=lnf)
    check_score(model, (feats, edges, n_hid), y, y)


def c_edge_feature_latent_node_crf():
    """EdgeFeatureLatentNodeCRF: likewise"""
    n_labels, n_features, n_ef = dim('n_labels', 1), dim('n_features', 1), dim('n_ef', 1)
    n_states = dim('n_states', n_labels + 1)
    n_hs = n_states - n_labels
    lnf = choice('latent_node_features', [False, True])
    n_vis, n_hid, n_edges = dim('n_visible', 1), dim('n_hidden', 0), dim('n_edges', 0)
    edges = ints('edges', (n_edges, 2), 0, n_vis + n_hid)
    ef = numbers('edge_features', n_edges, n_ef)
    feats = numbers('features', n_vis + n_hid if lnf else n_vis, n_features)
    y = ints('y', (n_vis + n_hid,), lambda i: n_labels * IF(i < n_vis, 0, 1),
             lambda i: n_labels + n_hs * IF(i < n_vis, 0, 1))
    model = EdgeFeatureLatentNodeCRF(n_labels=n_labels, n_features=n_features, n_hidden_states=n_hs,
                                     n_edge_features=n_ef, inference_method='ad3', latent_node_features=lnf)
    check_score(model, (feats, edges, ef, n_hid), y, y)


def c_edge_feature_latent_node_crf_symmetries():
    """EdgeFeatureLatentNodeCRF with symmetric and antisymmetric edge features"""
    n_labels, n_features, n_ef = dim('n_labels', 1), dim('n_features', 1), dim('n_ef', 1)
    n_states = dim('n_states', n_labels + 1)
    n_vis, n_hid, n_edges = dim('n_visible', 1), dim('n_hidden', 0), dim('n_edges', 0)
    edges = ints('edges', (n_edges, 2), 0, n_vis + n_hid)
    ef = numbers('edge_features', n_edges, n_ef)
    feats = real('features', n_vis, n_features)
    y = ints('y', (n_vis + n_hid,), lambda i: n_labels * IF(i < n_vis, 0, 1),
             lambda i: n_labels + (n_states - n_labels) * IF(i < n_vis, 0, 1))
    counts = choice('counts', [(1, 0), (0, 1), (1, 1)])
    sym = distinct_indices('sym', counts[0], n_ef)
    anti = distinct_indices('anti', counts[1], n_ef, sym)
    model = EdgeFeatureLatentNodeCRF(n_labels=n_labels, n_features=n_features, n_hidden_states=n_states - n_labels,
                                     n_edge_features=n_ef, inference_method='ad3', latent_node_features=False,
                                     symmetric_edge_features=sym, antisymmetric_edge_features=anti)
    w = sym_weights(n_labels * n_features, n_ef, n_states, sym, anti)
    ensure_eq('advertised size', w.shape, (model.size_joint_feature,))
    calls = []
    recorder(calls, y)
    x = (feats, edges, ef, n_hid)
    model.inference(x, w)
    u, p, e = calls[0]
    jf = model.joint_feature(x, y)
    ensure_eq('length', jf.shape, (model.size_joint_feature,))
    ensure_eq('score', np.dot(w, jf), score(u, p, e, y))
    ensure_symmetries(jf[n_labels * n_features:].reshape(n_ef, n_states, n_states), sym, anti)


def c_latent_grid_crf():
    """LatentGridCRF"""
    n_labels, n_features, m = dim('n_labels', 1), dim('n_features', 1), dim('m', 1)
    nb = choice('neighborhood', [4, 8])
    h, wd = dim('height', 1), dim('width', 1)
    x = numbers('x', h, wd, n_features)
    model = LatentGridCRF(n_labels=n_labels, n_features=n_features, n_states_per_label=m, neighborhood=nb,
                          inference_method='ad3')
    y = ints('y', (h, wd), 0, model.n_states)
    grid_edge_contract(h, wd, nb)
    check_score(model, x, y, y.ravel())


def c_latent_directional_grid_crf():
    """LatentDirectionalGridCRF"""
    n_labels, n_features, m = dim('n_labels', 1), dim('n_features', 1), dim('m', 1)
    nb = choice('neighborhood', [4, 8])
    h, wd = dim('height', 1), dim('width', 1)
    x = numbers('x', h, wd, n_features)
    model = LatentDirectionalGridCRF(n_labels=n_labels, n_features=n_features, n_states_per_label=m, neighborhood=nb,
                                     inference_method='ad3')
    y = ints('y', (h, wd), 0, model.n_states)
    grid_edge_contract(h, wd, nb)
    check_score(model, x, y, y.ravel())


def typed(n_types):
    inst = Typed(n_types)
    model, ys = inst.model, inst.draw('y')
    y = inst.flat(ys)
    w = real('w', model.size_joint_feature)
    calls = []
    recorder(calls, y)
    model.inference(inst.x, w)
    u, p, e = calls[0]
    ensure_eq('one call', len(calls), 1)
    for k in range(n_types ** 2):
        ensure_eq('edges', e[k], inst.edges[k])
    jf = model.joint_feature(inst.x, y)
    ensure_eq('length', jf.shape, (model.size_joint_feature,))
    ensure_eq('score', np.dot(w, jf), inst.score(u, p, ys))


def c_typed_one():
    """a graph of one node type"""
    typed(1)


def c_typed_two():
    """graphs of two node types"""
    typed(2)


def linear(u, p, e, U, P):
    """the potentials weighted by marginals"""
    k = u.shape[1]
    s = SUM(u.shape[0], lambda i: SUM(k, lambda a: U[i, a] * u[i, a]))
    if p.ndim == 2:
        flat = p.reshape(k * k)
        return s + SUM(e.shape[0], lambda q: SUM(k * k, lambda c: P[q, c] * flat[c]))
    each = p.reshape(e.shape[0], k * k)
    return s + SUM(e.shape[0], lambda q: SUM(k * k, lambda c: P[q, c] * each[q, c]))


def check_relaxed(inst, marginals=None, answer=None):
    """the joint feature of a relaxed labelling gives the score that its marginals give; one-hot marginals (which give
    the score of their labelling) included"""
    model, x = inst.model, inst.x
    w = real('w', model.size_joint_feature)
    calls = []
    recorder(calls, answer)
    model.inference(x, w)
    u, p, e = calls[0][:3]
    n, k = u.shape
    U = real('unary_marginals', n, k) if marginals is None else marginals(n, k)
    P = real('pairwise_marginals', e.shape[0], k * k)
    given = U if x_ndim(x) != 3 else U.reshape(x.shape[0], x.shape[1], k)
    jf = model.joint_feature(x, (given, P))
    ensure_eq('length', jf.shape, (model.size_joint_feature,))
    ensure_eq('score', np.dot(w, jf), linear(u, p, e, U, P))


def x_ndim(x):
    return x.ndim if isinstance(x, np.ndarray) else 0


def c_relaxed_graphs():
    """relaxed labellings of GraphCRF, ChainCRF, EdgeFeatureGraphCRF and LatentGraphCRF"""
    which = choice('model', ['graph', 'chain', 'edge features', 'latent'])
    if which == 'graph':
        check_relaxed(graph())
    elif which == 'chain':
        check_relaxed(chain())
    elif which == 'latent':
        check_relaxed(latent_graph())
    else:
        check_relaxed(edge_feature_graph())


def c_relaxed_grids():
    """relaxed labellings of the four grid models"""
    directional = choice('directional', [False, True])
    nb = choice('neighborhood', [4, 8])
    if choice('latent', [False, True]):
        inst = latent_grid(directional, nb)
    else:
        inst = grid(directional, nb)
    check_relaxed(inst, answer=inst.flat(inst.draw('answer')))


def c_relaxed_multi_label():
    """relaxed labellings of MultiLabelClf (the marginals of a label sum to one)"""
    def marginals(n, k):
        on = real('on', n)
        return array_of((n, 2), lambda i, s: IF(s == 1, on[i], 1 - on[i]))
    check_relaxed(multi_label(), marginals)


def c_relaxed_latent_node():
    """relaxed labellings of LatentNodeCRF and EdgeFeatureLatentNodeCRF (visible nodes take labels, hidden nodes
    hidden states)"""
    inst = latent_node('none', choice('with_edge_features', [False, True]))

    def marginals(n, k):
        raw = real('unary_marginals', n, k)
        L = inst.n_cls
        return array_of((n, k), lambda i, s: IF(i < inst.n_nodes, IF(s < L, raw[i, s], 0.0),
                                                IF(s < L, 0.0, raw[i, s])))
    check_relaxed(inst, marginals)


def relaxed_typed(n_types):
    inst = Typed(n_types)
    model, answer = inst.model, inst.flat(inst.draw('answer'))
    w = real('w', model.size_joint_feature)
    calls = []
    recorder(calls, answer)
    model.inference(inst.x, w)
    u, p = calls[0][:2]
    U = [real('unary_marginals_%d' % t, inst.n_nodes[t], inst.n_states[t]) for t in range(n_types)]
    P = [real('pairwise_marginals_%d' % q, inst.edges[q].shape[0], inst.n_states[a] * inst.n_states[b])
         for q, (a, b) in enumerate(inst.pairs)]
    jf = model.joint_feature(inst.x, (list(U), list(P)))
    ensure_eq('length', jf.shape, (model.size_joint_feature,))
    s = 0.0
    for t in range(n_types):
        s = s + SUM(inst.n_nodes[t], lambda i: SUM(inst.n_states[t], lambda a: U[t][i, a] * u[t][i, a]))
    for q, (ta, tb) in enumerate(inst.pairs):
        n_pairs = inst.n_states[ta] * inst.n_states[tb]
        flat = p[q].reshape(inst.edges[q].shape[0], n_pairs)
        s = s + SUM(inst.edges[q].shape[0], lambda r: SUM(n_pairs, lambda c: P[q][r, c] * flat[r, c]))
    ensure_eq('score', np.dot(w, jf), s)


def c_relaxed_typed():
    """relaxed labellings of a model of node types"""
    relaxed_typed(choice('n_types', [1, 2]))


BOUNDED = {'c_label_types': 'the verifier treats machine integers as mathematical ones'}


def c_label_types():
    """labels of small integer types give the joint features of the same labels as ints"""
    n_states, n_nodes, n_edges = choice('n_states', [3, 18]), dim('n_nodes', 1), dim('n_edges', 0)
    which = choice('model', ['edge features', 'typed', 'multi-label', 'graph'])
    y = ints('y', (n_nodes,), 0, n_states if which != 'multi-label' else 2)
    small = y.astype(choice('dtype', ['uint8', 'int8', 'int16', 'uint32']))
    edges = ints('edges', (n_edges, 2), 0, n_nodes)
    feats, ef = real('features', n_nodes, 2), real('edge_features', n_edges, 2)
    if which == 'edge features':
        m, x = EdgeFeatureGraphCRF(n_states, 2, 2, inference_method='ad3'), (feats, edges, ef)
    elif which == 'typed':
        m, x = NodeTypeEdgeFeatureGraphCRF(1, [n_states], [2], [[2]]), ([feats], [edges], [ef])
    elif which == 'multi-label':
        m, x = MultiLabelClf(n_nodes, 2, edges=edges, inference_method='ad3'), feats[0]
    else:
        m, x = GraphCRF(n_states, 2, inference_method='ad3'), (feats, edges)
    ensure_eq('joint feature', m.joint_feature(x, small), m.joint_feature(x, y))
