"""C05: max-product inference is exact on chains and forests."""
import itertools
import numpy as np
from pv.dsl import *          # noqa
from pystruct.inference.maxprod import inference_max_product, is_chain, edges_to_graph
from pystruct.inference._viterbi import viterbi
from pystruct.utils.graph_functions import is_forest

BOUNDED = {'c_is_forest': 'breadth-first search over data-dependent queues: compared with counting components',
           'c_forest': 'message passing over data-dependent queues: compared with enumeration',
           'c_chain_enumerated': 'compared with enumeration'}


def potentials(name, *shape):
    """arbitrary potentials; small integers make ties likely"""
    kind = choice(name + '_kind', ['real', 'tied', 'large'])
    if kind == 'real':
        return real(name, *shape)
    if kind == 'large':
        return 2.0 ** 30 * real(name, *shape) - choice(name + '_shift', [0, 2 ** 34])
    return ints(name, shape, 0, 2).astype(float)


def score(u, p, e, y):
    return sum([u[i, y[i]] for i in range(len(u))]) + sum([p[k, y[e[k, 0]], y[e[k, 1]]] for k in range(len(e))])


def best(u, p, e):
    return max([score(u, p, e, y) for y in itertools.product(range(u.shape[1]), repeat=len(u))])


def forest_edges(n, name):
    """an arbitrary forest over n nodes, nodes and edges in any order and orientation"""
    out = []
    order = list(np.argsort(real(name + '_order', n)))
    for i in range(1, n):
        j = integer('%s_parent%d' % (name, i), -1, i)
        if j >= 0:
            pair = [order[i], order[j]]
            out.append(pair if choice('%s_turn%d' % (name, i), [False, True]) else pair[::-1])
    edges = np.array(out, dtype=int).reshape(-1, 2)
    return edges[np.argsort(real(name + '_edge_order', len(edges)))]


def components(n, edges):
    label = list(range(n))
    for a, b in edges:
        label = [label[a] if l == label[b] else l for l in label]
    return len(set(label))


def c_is_chain():
    """exactly the edge lists (0, 1), (1, 2), ... over all nodes are chains"""
    n, m = dim('n_vertices', 1), dim('n_edges', 0)
    edges = ints('edges', (m, 2), 0, n)
    if choice('given', ['any', 'chain']) == 'chain':
        edges = array_of((n - 1, 2), lambda i, c: i + c, 'i')
        ensure('chains are recognised', is_chain(edges, n))
    else:
        r = is_chain(edges, n)
        ensure('only chains', OR(NOT(r), AND(m == n - 1, ALL(m, lambda i: AND(edges[i, 0] == i, edges[i, 1] == i + 1)))))


def c_is_forest():
    """exactly the graphs without cycles, parallel edges and loops are forests"""
    n = dim('n_vertices', 1, 7)
    if choice('given', ['any', 'forest']) == 'forest':
        edges = forest_edges(n, 'forest')
    else:
        edges = ints('edges', (dim('n_edges', 0), 2), 0, n)
    ensure('no cycle', bool(is_forest(edges, n)) == (len(edges) == n - components(n, edges)))
    if len(edges):
        ensure('number of nodes left out', bool(is_forest(edges)) == bool(is_forest(edges, n)))


def c_forest():
    """forests: the labelling returned has maximal score"""
    n, n_states = dim('n_vertices', 1, 6), dim('n_states', 1, 3)
    edges = forest_edges(n, 'forest')
    u = potentials('u', n, n_states)
    if choice('shared', [False, True]):
        shared = potentials('p', n_states, n_states)
        given, p = shared, np.array([shared] * len(edges)).reshape(len(edges), n_states, n_states)
    else:
        given = p = potentials('p', len(edges), n_states, n_states)
    y = inference_max_product(u, given, edges)
    ensure('labels', y.shape == (n,) and ((0 <= y) & (y < n_states)).all())
    ensure_le('maximal', best(u, p, edges), score(u, p, edges, y))


def c_chain_enumerated():
    """chains, with shared or separate pairwise potentials"""
    n, n_states = dim('n_vertices', 1, 6), dim('n_states', 1, 3)
    edges = np.array([[i, i + 1] for i in range(n - 1)], dtype=int).reshape(-1, 2)
    u = potentials('u', n, n_states)
    if choice('shared', [False, True]):
        shared = potentials('p', n_states, n_states)
        given, p = shared, np.array([shared] * len(edges)).reshape(len(edges), n_states, n_states)
    else:
        given = p = potentials('p', len(edges), n_states, n_states)
    y = inference_max_product(u, given, edges)
    ensure_le('maximal', best(u, p, edges), score(u, p, edges, y))


def c_viterbi():
    """dynamic programming on chains: the labelling returned has a maximal score"""
    n, n_states = dim('n_vertices', 1), dim('n_states', 1)
    u = real('u', n, n_states)
    given = choice('given', ['separate', 'shared', 'algorithm'])
    if given == 'shared':
        shared = real('shared', n_states, n_states)
        p = array_of((n - 1, n_states, n_states), lambda i, j, k: shared[j, k])
    else:
        p = real('p', n - 1, n_states, n_states)
    # the best score of the first i + 1 nodes, the last of them having label k, and the best label from the end
    best = recursive('best', n, (n_states,), lambda k: u[0, k],
                     lambda prev, i, k: MAX(n_states, lambda j: prev(j) + u[i + 1, k] + p[i, j, k]))
    ends = recursive('ends', n, (), lambda: ARGMAX(n_states, lambda j: best(n - 1, j)),
                     lambda prev, m: ARGMAX(n_states, lambda j: best(n - 2 - m, j) + u[n - 1 - m, prev()]
                                            + p[n - 2 - m, j, prev()]), 'i', 0, n_states)
    invariant(lambda k, old: array_of((n, n_states), lambda a, b: IF(a <= k, best(a, b), old[a, b])),
              lambda k, old: array_of((n, n_states), lambda a, b: IF(AND(1 <= a, a <= k), ARGMAX(
                  n_states, lambda j: best(a - 1, j) + u[a, b] + p[a - 1, j, b]), old[a, b]), 'i'),
              lambda k, old: array_of((n,), lambda a: IF(a >= n - 1 - k, ends(n - 1 - a), old[a]), 'i'))
    if given == 'algorithm':
        y = viterbi(u.copy(), p.copy())
    else:
        y = inference_max_product(u, shared if given == 'shared' else p, array_of((n - 1, 2), lambda i, c: i + c, 'i'))
    ensure('labels', AND(len(y) == n, ALL(n, lambda i: AND(0 <= y[i], y[i] < n_states))))
    ensure_eq('path', y, array_of((n,), lambda a: ends(n - 1 - a), 'i'))
    # the labelling returned attains the best score; no labelling exceeds it
    telescope(n - 1, lambda m: best(n - 1 - m, ends(m)), attained=True)
    reversal(n, lambda i: u[i, ends(n - 1 - i)])
    reversal(n - 1, lambda i: p[i, ends(n - 1 - i), ends(n - 2 - i)])
    ends_apart(n - 1, lambda m: u[n - 1 - m, ends(m)])
    top = MAX(n_states, lambda j: best(n - 1, j))
    ensure_eq('score', SUM(n, lambda i: u[i, y[i]]) + SUM(n - 1, lambda i: p[i, y[i], y[i + 1]]), top)
    other = ints('other', (n,), 0, n_states)
    telescope(n - 1, lambda i: best(i, other[i]))
    ends_apart(n - 1, lambda i: u[i, other[i]])
    sums_le('every step', n - 1, lambda i: best(i, other[i]) + p[i, other[i], other[i + 1]],
            lambda i: MAX(n_states, lambda j: best(i, j) + p[i, j, other[i + 1]]))
    ensure_le('maximal', SUM(n, lambda i: u[i, other[i]]) + SUM(n - 1, lambda i: p[i, other[i], other[i + 1]]), top)
