"""C16: multi-type labels, features and weights are packed consistently (one to three node types)."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa


def instance(cw='none'):
    """one to three types; in some instances one type has no nodes, given as None"""
    n = choice('n_types', [1, 2, 3])
    gone = choice('type without nodes', [None, 0, n - 1])
    return Typed(n, cw, gone)


def offset(s, t):
    return sum(s.n_nodes[:t])


def check_flatten(s):
    ys = s.draw('y')
    flat = s.model.flattenY(ys)
    ensure_eq('one label per node', flat.shape, (sum(s.n_nodes),))
    ensure_kind('integers', flat, 'i')
    for t in range(s.n_types):
        ensure_eq('position and range', flat[offset(s, t):offset(s, t) + s.n_nodes[t]], ys[t] + s.start(t))
    back = s.model.unflattenY(s.x, flat)
    ensure_eq('one array per type', len(back), s.n_types)
    for t in range(s.n_types):
        ensure_eq('inverse', back[t], ys[t])
    y = s.flat(s.draw('flat'))
    ensure_eq('inverse of unflatten', s.model.flattenY(s.model.unflattenY(s.x, y)), y)


def c_flatten():
    """flattening and unflattening are inverse, labels of a type are in its own range, one or two types"""
    n = choice('n_types', [1, 2])
    check_flatten(Typed(n, 'none', choice('type without nodes', [None, 0, n - 1])))


def c_flatten_three():
    """the same for three types"""
    check_flatten(Typed(3, 'none', choice('type without nodes', [None, 1])))


def c_flatten_lists():
    """lists of labels, none included, are flattened like arrays"""
    s = Typed(2)
    ys = s.draw('y')
    flat = s.model.flattenY([list_of(s.n_nodes[t], lambda i: ys[t][i]) for t in range(2)])
    ensure_kind('integers', flat, 'i')
    ensure_eq('same labels', flat, s.flat(ys))


def c_flatten_wrong():
    """the wrong number of label arrays, or of labels, is rejected"""
    s = Typed(2)
    ys = s.draw('y')
    more = ints('more', (dim('n_more', 0),), 0, 3)
    ensure_raises('too few arrays', s.model.flattenY, ys[:1])
    ensure_raises('too many arrays', s.model.flattenY, ys + [more])
    n = dim('n_flat', 0)
    assume(n != sum(s.n_nodes))
    ensure_raises('wrong number of labels', s.model.unflattenY, s.x, ints('flat', (n,), 0, sum(s.n_states)))


def packed_weights(s):
    """weights as one matrix per type and per pair of types, and as the vector they are packed into"""
    W = [real('W_%d' % t, s.n_states[t], s.n_features[t]) for t in range(s.n_types)]
    V = [real('V_%d_%d' % (a, b), s.n_edge_features[a][b], s.n_states[a], s.n_states[b]) for a, b in s.pairs]
    return W, V, np.hstack([m.ravel() for m in W] + [m.ravel() for m in V])


def check_packing(s):
    """weights, node features, edge features and labels of a type or pair of types meet each other"""
    W, V, w = packed_weights(s)
    ensure_eq('advertised size', w.shape, (s.model.size_joint_feature,))
    ys = s.draw('y')
    calls = recorder(s.flat(ys))
    s.model.inference(s.x, w)
    u, p, e = calls[0][:3]
    ensure_eq('unary potentials per type', len(u), s.n_types)
    ensure_eq('pairwise potentials per pair', len(p), s.n_types ** 2)
    for t in range(s.n_types):
        ensure_eq('unary potentials', u[t], np.dot(s.features[t], W[t].T))
    for k, (a, b) in enumerate(s.pairs):
        ef = s.edge_features[k]
        ensure_eq('pairwise potentials', p[k], array_of(
            (ef.shape[0], s.n_states[a], s.n_states[b]),
            lambda q, i, j: SUM(s.n_edge_features[a][b], lambda f: ef[q, f] * V[k][f, i, j])))
        ensure_eq('edges', e[k], s.edges[k])


def c_packing():
    """one type, or two"""
    n = choice('n_types', [1, 2])
    check_packing(Typed(n, 'none', choice('type without nodes', [None, 0])))


def c_packing_three():
    """three types"""
    check_packing(Typed(3, 'none', choice('type without nodes', [None, 1]), True))


def check_joint_feature(s):
    W, V, w = packed_weights(s)
    ys = s.draw('y')
    total = 0.0
    for t in range(s.n_types):
        total = total + SUM(s.n_nodes[t], lambda i: SUM(s.n_features[t], lambda f: W[t][ys[t][i], f] *
                                                        s.features[t][i, f]))
    for k, (a, b) in enumerate(s.pairs):
        e, ef = s.edges[k], s.edge_features[k]
        total = total + SUM(e.shape[0], lambda q: SUM(s.n_edge_features[a][b], lambda f: ef[q, f] * V[k][
            f, ys[a][e[q, 0]], ys[b][e[q, 1]]]))
    ensure_eq('blocks', np.dot(w, s.model.joint_feature(s.x, s.flat(ys))), total)


def c_joint_feature():
    """the joint feature consists of the blocks of each type and pair of types, in the order of the weights: its
    inner product with arbitrary weights is that of features and weights block by block"""
    n = choice('n_types', [1, 2])
    check_joint_feature(Typed(n, 'none', choice('type without nodes', [None, 0])))


def c_joint_feature_three():
    """the same for three types"""
    check_joint_feature(Typed(3, 'none', None, True))


def config(n_types, n_states, n_features, n_ef, weights=None):
    return NodeTypeEdgeFeatureGraphCRF(n_types, n_states, n_features, n_ef, inference_method='ad3',
                                       l_class_weight=weights)


def c_configurations():
    """configurations whose numbers of types, states, features or class weights do not fit are rejected"""
    n = choice('n_types', [1, 2, 3])
    r = range(n)
    n_states = [dim('n_states_%d' % t, 1) for t in r]
    n_features = [dim('n_features_%d' % t, 1) for t in r]
    f = [[dim('n_ef_%d_%d' % (a, b), 1) for b in r] for a in r]
    n_ef = [[f[min(a, b)][max(a, b)] for b in r] for a in r]
    weights = [real('class_weight_%d' % t, n_states[t]) for t in r]
    m = config(n, n_states, n_features, n_ef, weights)
    ensure_eq('size', m.size_joint_feature,
              sum([n_states[t] * n_features[t] for t in r]) +
              sum([n_states[a] * n_states[b] * n_ef[a][b] for a in r for b in r]))
    more = dim('more', 1)
    ensure_raises('too few numbers of states', config, n, n_states[1:], n_features, n_ef)
    ensure_raises('too many numbers of states', config, n, n_states + [more], n_features, n_ef)
    ensure_raises('too few numbers of features', config, n, n_states, n_features[1:], n_ef)
    ensure_raises('too many numbers of features', config, n, n_states, n_features + [more], n_ef)
    ensure_raises('edge feature rows', config, n, n_states, n_features, n_ef + [n_ef[0]])
    ensure_raises('edge feature columns', config, n, n_states, n_features, [row + [more] for row in n_ef])
    ensure_raises('class weights for too many types', config, n, n_states, n_features, n_ef, weights + [weights[0]])
    if n > 1:
        ensure_raises('class weights for too few types', config, n, n_states, n_features, n_ef, weights[1:])
        a, b = choice('entry', [(0, 1), (1, 0), (n - 1, 0)])
        other = dim('other', 1)
        assume(other != n_ef[a][b])
        n_ef[a][b] = other
        ensure_raises('edge feature numbers that are not symmetric', config, n, n_states, n_features, n_ef)
        n_ef[a][b] = n_ef[b][a]
    t = choice('type', [0, n - 1])
    length = dim('length', 0)
    assume(length != n_states[t])
    weights[t] = real('wrong', length)
    ensure_raises('class weights of the wrong length', config, n, n_states, n_features, n_ef, weights)


def rejected(s, x, y):
    """by initialize, alone and among other instances, and by the joint feature"""
    good = s.flat(s.draw('good'))
    ensure_raises('single instance', s.model.initialize, x, y)
    ensure_raises('first of a list', s.model.initialize, [x, s.x], [y, good])
    ensure_raises('last of a list', s.model.initialize, [s.x, x], [good, y])
    ensure_raises('joint feature', s.model.joint_feature, x, y)


def c_accepted():
    """data that agree are accepted"""
    n = choice('n_types', [1, 2])
    s = Typed(n, 'none', choice('type without nodes', [None, 0]))
    y = s.flat(s.draw('y'))
    s.model.initialize(s.x, y)
    s.model.initialize([s.x, s.x], [y, y])
    s.model.initialize([s.x])
    ensure_eq('features', s.model.joint_feature(s.x, y).shape, (s.model.size_joint_feature,))


def c_wrong_numbers():
    """the wrong number of feature, edge or edge feature arrays is rejected"""
    s = Typed(choice('n_types', [1, 2]), 'none', None, True)
    f, e, ef = s.x
    what = choice('what', ['features', 'edges', 'edge features'])
    more = choice('more', [False, True])
    if what == 'features':
        f = f + [f[0]] if more else f[1:]
    elif what == 'edges':
        e = e + [e[0]] if more else e[1:]
    else:
        ef = ef + [ef[0]] if more else ef[1:]
    rejected(s, (f, e, ef), s.flat(s.draw('y')))


def c_wrong_shapes():
    """arrays with the wrong number of features, rows or columns are rejected"""
    s = Typed(2, 'none', None, True)
    f, e, ef = s.x
    what = choice('what', ['features', 'columns', 'rows', 'edge features'])
    n = dim('wrong', 0)
    t, k = choice('type', [0, 1]), choice('pair', [0, 1, 2])
    if what == 'features':
        assume(n != s.n_features[t])
        f[t] = real('wrong_features', s.n_nodes[t], n)
    elif what == 'columns':
        assume(n != 2)
        e[k] = ints('wrong_edges', (e[k].shape[0], n), 0, 1)
    elif what == 'rows':
        assume(n != e[k].shape[0])
        ef[k] = real('wrong_edge_features', n, ef[k].shape[1])
    else:
        assume(n != ef[k].shape[1])
        ef[k] = real('wrong_edge_features', ef[k].shape[0], n)
    rejected(s, (f, e, ef), s.flat(s.draw('y')))


def c_wrong_edges():
    """edges to nodes that the type does not have are rejected"""
    s = Typed(2, 'none', None, True)
    f, e, ef = s.x
    k, end = choice('pair', [0, 1, 2]), choice('end', [0, 1])
    q, node = integer('which', 0, e[k].shape[0]), integer('node', -5, 12)
    n = s.n_nodes[s.pairs[k][end]]
    assume(OR(node < 0, node >= n))
    e[k] = array_of(e[k].shape, lambda i, c: IF(AND(i == q, c == end), node, s.edges[k][i, c]), 'i')
    rejected(s, (f, e, ef), s.flat(s.draw('y')))


def c_wrong_labels():
    """labels outside the range of the node's type, and the wrong number of labels, are rejected"""
    s = Typed(2, 'none', None, True)
    y = s.flat(s.draw('y'))
    t = choice('type', [0, 1])
    if choice('what', ['label', 'number']) == 'label':
        i, l = integer('node', 0, s.n_nodes[t]), integer('label', -5, 12)
        assume(OR(l < s.start(t), l >= s.start(t + 1)))
        bad = array_of(y.shape, lambda j: IF(j == offset(s, t) + i, l, y[j]), 'i')
    else:
        n = dim('n_labels', 0)
        assume(n != y.shape[0])
        bad = ints('bad', (n,), 0, sum(s.n_states))
    rejected(s, s.x, bad)
