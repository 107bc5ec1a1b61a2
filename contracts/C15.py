"""C15: grid edges enumerate each neighbouring pair exactly once, by direction."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.models import GridCRF, DirectionalGridCRF, ChainCRF
from pystruct.models.chain_crf import make_chain_edges
from pystruct.utils import make_grid_edges, edge_list_to_features


def times(edges, a, b):
    """how often the pair {a, b} (a < b or a == b) is listed"""
    n = SUM(edges.shape[0], lambda k: IF(AND(edges[k, 0] == a, edges[k, 1] == b), 1, 0))
    return n + SUM(edges.shape[0], lambda k: IF(AND(edges[k, 0] == b, edges[k, 1] == a), 1, 0))


def two_cells(h, w):
    return integer('row', 0, h), integer('column', 0, w), integer('other_row', 0, h), integer('other_column', 0, w)


DIRECTIONS = ((0, 1), (1, 0), (-1, 1), (1, 1))


def c_each_direction_lists_its_pairs_once():
    """the q-th list contains exactly the pairs of cells adjacent in direction q, each once, row-major"""
    h, w, n_features = dim('height', 1), dim('width', 1), dim('n_features', 1)
    nb = choice('nb', [4, 8])
    q = choice('direction', [0, 1, 2, 3])
    assume(q < 2 or nb == 8)
    lists = make_grid_edges(real('x', h, w, n_features), neighborhood=nb, return_lists=True)
    ensure_eq('number of directions', len(lists), 2 if nb == 4 else 4)
    r, c, r2, c2 = two_cells(h, w)
    dr, dc = DIRECTIONS[q]
    e = lists[q]
    ensure_kind('integer edges', e, 'i')
    ensure_eq('two ends', e.shape[1], 2)
    adjacent = IF(AND(r2 - r == dr, c2 - c == dc), 1, 0) + IF(AND(r2 - r == -dr, c2 - c == -dc), 1, 0)
    ensure_eq('each pair once and no other', times(e, r * w + c, r2 * w + c2), adjacent)


def c_lists_partition_the_edge_list():
    """the edge list is the concatenation of the per-direction lists; as the pairs of different directions differ,
    every neighbouring pair is therefore listed exactly once in it, and no other pair"""
    h, w, n_features = dim('height', 1), dim('width', 1), dim('n_features', 1)
    nb = choice('nb', [4, 8])
    x = real('x', h, w, n_features)
    lists = make_grid_edges(x, neighborhood=nb, return_lists=True)
    edges = make_grid_edges(x, neighborhood=nb)
    ensure_kind('integer edges', edges, 'i')
    ensure_eq('concatenation', edges, np.vstack(lists))
    ensure_eq('default neighbourhood', make_grid_edges(x), make_grid_edges(x, neighborhood=4))


def c_ends_are_cells():
    """both ends of every edge are cells of the grid"""
    h, w, n_features = dim('height', 1), dim('width', 1), dim('n_features', 1)
    nb = choice('nb', [4, 8])
    edges = make_grid_edges(real('x', h, w, n_features), neighborhood=nb)
    k, side = integer('k', 0, edges.shape[0]), choice('side', [0, 1])
    ensure('from zero', edges[k, side] >= 0)
    ensure('below the number of cells', edges[k, side] < h * w)


def c_other_neighbourhoods_are_rejected():
    """any neighbourhood but 4 and 8 raises"""
    x = real('x', dim('height', 1), dim('width', 1), dim('n_features', 1))
    nb = integer('nb', -3, 20)
    assume(nb != 4)
    assume(nb != 8)
    ensure_raises('neighbourhood', make_grid_edges, x, nb)
    ensure_raises('neighbourhood with lists', make_grid_edges, x, nb, True)


def c_features_mark_the_direction():
    """the feature row of an edge is the indicator of the list it comes from, for any lists of edges"""
    n_dir = choice('n_directions', [1, 2, 3, 4])
    n_nodes = dim('n_nodes', 1)
    lists = [ints('edges%d' % q, (dim('n_edges%d' % q, 0), 2), 0, n_nodes) for q in range(n_dir)]
    f = edge_list_to_features(lists)
    start = 0
    ensure_eq('columns', f.shape[1], n_dir)
    for q in range(n_dir):
        n = lists[q].shape[0]
        ensure_eq('direction %d' % q, f[start:start + n], array_of((n, n_dir), lambda i, j: IF(j == q, 1.0, 0.0)))
        start = start + n
    ensure_eq('rows', f.shape[0], start)


def c_chain_edges():
    """chain edges link consecutive nodes in order"""
    n = dim('n', 1)
    x = real('x', n, dim('n_features', 1))
    e = make_chain_edges(x)
    ensure_eq('links', e, array_of((n - 1, 2), lambda i, j: i + j, 'i'))
    ensure_eq('model', ChainCRF(n_states=2, n_features=2)._get_edges(x), e)


def model_gives(m, x, w):
    calls = []

    def dispatch(unary, pairwise, es, method, **kwargs):
        calls.append((pairwise, es))
        return ints('answer', (unary.shape[0],), 0, 2)
    stub('pystruct.inference.inference_methods.inference_dispatch', dispatch)
    m.inference(x, w)
    return calls[0]


def c_grid_models_use_their_neighbourhood():
    """the grid models hand the backend the edges of the configured neighbourhood, the directional ones with features
    that mark each edge's direction"""
    h, w, nf = dim('height', 1), dim('width', 1), dim('n_features', 1)
    nb = choice('nb', [4, 8])
    directional = choice('directional', [False, True])
    x = real('x', h, w, nf)
    cls = DirectionalGridCRF if directional else GridCRF
    m = cls(n_states=2, n_features=nf, neighborhood=nb, inference_method='ad3')
    wt = real('w', m.size_joint_feature)
    pairwise, edges = model_gives(m, x, wt)
    ensure_eq('edges', edges, make_grid_edges(x, neighborhood=nb))
    if directional:
        lists = make_grid_edges(x, neighborhood=nb, return_lists=True)
        per_direction = wt[2 * nf:].reshape(len(lists), 2, 2)
        start = 0
        for q in range(len(lists)):
            n = lists[q].shape[0]
            ensure_eq('weights of direction %d' % q, pairwise[start:start + n],
                      array_of((n, 2, 2), lambda k, a, b: per_direction[q, a, b]))
            start = start + n
