"""Instances of every model family: (model, input, function drawing a labelling) of arbitrary size."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models import (GraphCRF, EdgeFeatureGraphCRF, GridCRF, DirectionalGridCRF, ChainCRF, MultiLabelClf,
                             BinaryClf, MultiClassClf, LatentGraphCRF, LatentNodeCRF, EdgeFeatureLatentNodeCRF,
                             LatentGridCRF, LatentDirectionalGridCRF, NodeTypeEdgeFeatureGraphCRF)


class Instance(object):
    """a model, an input, the number of nodes and the way labellings of it are drawn"""
    def __init__(self, model, x, n_nodes, draw, n_cls, label):
        self.model, self.x, self.n_nodes, self.draw = model, x, n_nodes, draw
        self.n_cls = n_cls      # number of classes that class weights refer to
        self.label = label      # label(y, i): the class of node i under labelling y
        self.weights = None     # class weights given
        self.constant = False   # objectives agree only up to a constant

    def flat(self, y):
        return y.reshape(-1)


def recorder(answer):
    """replace the inference dispatch by a stand-in that records what it is given"""
    calls = []

    def dispatch(unary, pairwise, edges, method, relaxed=False, return_energy=False, **kwargs):
        calls.append((unary, pairwise, edges, method, relaxed, return_energy))
        return answer
    stub('pystruct.inference.inference_methods.inference_dispatch', dispatch)
    return calls


def score(u, p, e, y):
    """sum of the unary and pairwise potentials of labelling y"""
    s = SUM(u.shape[0], lambda i: u[i, y[i]])
    if p.ndim == 2:
        return s + SUM(e.shape[0], lambda k: p[y[e[k, 0]], y[e[k, 1]]])
    return s + SUM(e.shape[0], lambda k: p[k, y[e[k, 0]], y[e[k, 1]]])


def grid_edge_contract(h, w, nb):
    """what the grid models need of make_grid_edges (C15 proves much more): lists of pairs of cells"""
    lists = [ints('edges%d' % q, (dim('n_edges%d' % q, 0), 2), 0, h * w) for q in range(2 if nb == 4 else 4)]

    def make_grid_edges(x, neighborhood=4, return_lists=False):
        ensure_eq('neighbourhood passed on', neighborhood, nb)
        if return_lists:
            return list(lists)
        return np.vstack(lists)
    modular('pystruct.utils.graph.make_grid_edges', make_grid_edges)


def class_weights(n, mode, name='class_weight'):
    """None, or arbitrary class weights (nonnegative unless said otherwise)"""
    if mode == 'none':
        return None
    if mode == 'positive':
        return pos_real(name, n)
    if mode == 'integer':
        return ints(name, (n,), 0, dim(name + '_bound', 1))
    return nonneg_real(name, n)


def numbers(name, *shape):
    """features: floats or integers"""
    if choice(name + '_kind', ['real', 'integer']) == 'integer':
        b = dim(name + '_bound', 1)
        return ints(name, shape, -b, b + 1)
    return real(name, *shape)


def graph(cw='none', directed=None):
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    n_nodes, n_edges = dim('n_nodes', 1), dim('n_edges', 0)
    feats = real('features', n_nodes, n_features)
    edges = ints('edges', (n_edges, 2), 0, n_nodes)
    c = class_weights(n_states, cw)
    if directed is None:
        directed = choice('directed', [False, True])
    m = GraphCRF(n_states=n_states, n_features=n_features, directed=directed, inference_method='ad3', class_weight=c)
    r = Instance(m, (feats, edges), n_nodes, lambda name: ints(name, (n_nodes,), 0, n_states), n_states,
                 lambda y, i: y[i])
    r.weights = c
    return r


def chain(cw='none'):
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    n_nodes = dim('n_nodes', 1)
    c = class_weights(n_states, cw)
    m = ChainCRF(n_states=n_states, n_features=n_features, directed=choice('directed', [False, True]), class_weight=c)
    r = Instance(m, real('x', n_nodes, n_features), n_nodes, lambda name: ints(name, (n_nodes,), 0, n_states),
                 n_states, lambda y, i: y[i])
    r.weights = c
    return r


def edge_feature_graph(cw='none'):
    n_states, n_features, n_ef = dim('n_states', 1), dim('n_features', 1), dim('n_edge_features', 1)
    n_nodes, n_edges = dim('n_nodes', 1), dim('n_edges', 0)
    feats = real('features', n_nodes, n_features)
    edges = ints('edges', (n_edges, 2), 0, n_nodes)
    ef = real('edge_features', n_edges, n_ef)
    c = class_weights(n_states, cw)
    m = EdgeFeatureGraphCRF(n_states=n_states, n_features=n_features, n_edge_features=n_ef, inference_method='ad3',
                            class_weight=c)
    r = Instance(m, (feats, edges, ef), n_nodes, lambda name: ints(name, (n_nodes,), 0, n_states), n_states,
                 lambda y, i: y[i])
    r.weights = c
    return r


def grid(directional=False, nb=4):
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    h, wd = dim('height', 1), dim('width', 1)
    x = real('x', h, wd, n_features)
    grid_edge_contract(h, wd, nb)
    if directional:
        m = DirectionalGridCRF(n_states=n_states, n_features=n_features, neighborhood=nb, inference_method='ad3')
    else:
        m = GridCRF(n_states=n_states, n_features=n_features, neighborhood=nb, inference_method='ad3')
    return Instance(m, x, h * wd, lambda name: ints(name, (h, wd), 0, n_states), n_states,
                    lambda y, i: y[i // wd, i % wd])


def multi_label():
    n_labels, n_features = dim('n_labels', 1), dim('n_features', 1)
    n_edges = dim('n_edges', 0)
    edges = ints('edges', (n_edges, 2), 0, n_labels)
    m = MultiLabelClf(n_labels=n_labels, n_features=n_features, edges=edges, inference_method='ad3')
    return Instance(m, real('x', n_features), n_labels, lambda name: ints(name, (n_labels,), 0, 2), 2,
                    lambda y, i: y[i])


def label_of_state(ms, n_labels, s):
    """the label of hidden state s when label l owns ms[l] consecutive states"""
    return SUM(n_labels, lambda l: IF(s >= SUM(l + 1, lambda k: ms[k]), 1, 0))


def latent_graph(per_label=False):
    n_labels, n_features = dim('n_labels', 1), dim('n_features', 1)
    n_nodes, n_edges = dim('n_nodes', 1), dim('n_edges', 0)
    feats = real('features', n_nodes, n_features)
    edges = ints('edges', (n_edges, 2), 0, n_nodes)
    m = dim('m', 1)
    model = LatentGraphCRF(n_labels=n_labels, n_features=n_features, n_states_per_label=m, inference_method='ad3')
    return Instance(model, (feats, edges), n_nodes, lambda name: ints(name, (n_nodes,), 0, n_labels * m), n_labels,
                    lambda h, i: h[i] // m)


def latent_grid(directional=False, nb=4):
    n_labels, n_features, m = dim('n_labels', 1), dim('n_features', 1), dim('m', 1)
    h, wd = dim('height', 1), dim('width', 1)
    x = real('x', h, wd, n_features)
    grid_edge_contract(h, wd, nb)
    if directional:
        model = LatentDirectionalGridCRF(n_labels=n_labels, n_features=n_features, n_states_per_label=m,
                                         neighborhood=nb, inference_method='ad3')
    else:
        model = LatentGridCRF(n_labels=n_labels, n_features=n_features, n_states_per_label=m, neighborhood=nb,
                              inference_method='ad3')
    return Instance(model, x, h * wd, lambda name: ints(name, (h, wd), 0, n_labels * m), n_labels,
                    lambda y, i: y[i // wd, i % wd] // m)


def latent_node(cw='none', edge_features=False):
    """labellings give visible nodes labels and hidden nodes hidden states; only visible nodes have a class"""
    n_labels, n_features = dim('n_labels', 1), dim('n_features', 1)
    n_states = dim('n_states', n_labels + 1)
    n_hs = n_states - n_labels
    lnf = choice('latent_node_features', [False, True])
    n_vis, n_hid, n_edges = dim('n_visible', 1), dim('n_hidden', 0), dim('n_edges', 0)
    edges = ints('edges', (n_edges, 2), 0, n_vis + n_hid)
    feats = real('features', n_vis + n_hid if lnf else n_vis, n_features)
    c = class_weights(n_labels, cw)
    if edge_features:
        n_ef = dim('n_ef', 1)
        ef = real('edge_features', n_edges, n_ef)
        m = EdgeFeatureLatentNodeCRF(n_labels=n_labels, n_features=n_features, n_hidden_states=n_hs,
                                     n_edge_features=n_ef, inference_method='ad3', latent_node_features=lnf,
                                     class_weight=c)
        x = (feats, edges, ef, n_hid)
    else:
        m = LatentNodeCRF(n_labels=n_labels, n_features=n_features, n_hidden_states=n_hs, inference_method='ad3',
                          latent_node_features=lnf, class_weight=c)
        x = (feats, edges, n_hid)

    def draw(name):
        return np.concatenate([ints(name + '_visible', (n_vis,), 0, n_labels),
                               ints(name + '_hidden', (n_hid,), n_labels, n_states)])
    r = Instance(m, x, n_vis, draw, n_labels, lambda y, i: y[i])
    r.weights = c
    r.n_hid = n_hid
    return r


class Typed(object):
    """a model of several node types with an arbitrary instance of it; `gone`: the type that this instance has no
    nodes of, given as None; `busy`: every type has nodes and every pair of types edges"""
    def __init__(self, n_types, cw='none', gone=None, busy=False):
        r = range(n_types)
        self.n_types = n_types
        self.n_states = [dim('n_states_%d' % t, 1) for t in r]
        self.n_features = [dim('n_features_%d' % t, 1) for t in r]
        self.n_nodes = [0 if t == gone else dim('n_nodes_%d' % t, int(busy)) for t in r]
        n_ef = {}
        for a in r:
            for b in r:
                n_ef[a, b] = n_ef[b, a] if b < a else dim('n_edge_features_%d_%d' % (a, b), 1)
        self.n_edge_features = [[n_ef[a, b] for b in r] for a in r]
        self.features = [real('features_%d' % t, self.n_nodes[t], self.n_features[t]) for t in r]
        self.pairs = [(a, b) for a in r for b in r]
        self.edges, self.edge_features = [], []
        for a, b in self.pairs:
            if a == gone or b == gone:
                self.edges.append(np.zeros((0, 2), dtype=int))
                self.edge_features.append(np.zeros((0, n_ef[a, b])))
                continue
            e = dim('n_edges_%d_%d' % (a, b), int(busy))
            if not busy:
                assume(OR(e == 0, AND(self.n_nodes[a] >= 1, self.n_nodes[b] >= 1)))
            both = [ints('edges_%d_%d_%s' % (a, b, end), (e,), 0,
                         self.n_nodes[t] if busy else IF(self.n_nodes[t] >= 1, self.n_nodes[t], 1))
                    for t, end in ((a, 'from'), (b, 'to'))]
            self.edges.append(np.vstack(both).T)
            self.edge_features.append(real('edge_features_%d_%d' % (a, b), e, n_ef[a, b]))
        self.x = ([None if t == gone else self.features[t] for t in r],
                  [None if gone in q else self.edges[k] for k, q in enumerate(self.pairs)],
                  [None if gone in q else self.edge_features[k] for k, q in enumerate(self.pairs)])
        self.weights = None
        if cw != 'none':
            self.weights = [class_weights(self.n_states[t], cw, 'class_weight_%d' % t) for t in r]
        self.model = NodeTypeEdgeFeatureGraphCRF(n_types, list(self.n_states), list(self.n_features),
                                                 [list(row) for row in self.n_edge_features], inference_method='ad3',
                                                 l_class_weight=self.weights)

    def draw(self, name):
        """labels of the nodes of each type, each starting at 0"""
        return [ints('%s_%d' % (name, t), (self.n_nodes[t],), 0, self.n_states[t]) for t in range(self.n_types)]

    def start(self, t):
        return sum(self.n_states[:t])

    def flat(self, ys):
        return np.hstack([y + self.start(t) for t, y in enumerate(ys)])

    def score(self, u, p, ys):
        """sum of the potentials of a labelling"""
        s = 0.0
        for t in range(self.n_types):
            s = s + SUM(self.n_nodes[t], lambda i: u[t][i, ys[t][i]])
        for k, (a, b) in enumerate(self.pairs):
            e = self.edges[k]
            s = s + SUM(e.shape[0], lambda q: p[k][q, ys[a][e[q, 0]], ys[b][e[q, 1]]])
        return s


def typed(n_types, cw='none'):
    """the same with flat labellings"""
    t = Typed(n_types, cw)
    return Instance(t.model, t.x, sum(t.n_nodes), lambda name: t.flat(t.draw(name)), sum(t.n_states),
                    lambda y, i: y[i])
