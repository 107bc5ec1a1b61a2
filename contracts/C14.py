"""C14: latent completion is always consistent with the observed labels."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa


def any_answer(n, n_states):
    """whatever the backend returns, as long as it is a labelling"""
    h = ints('answer', (n,), 0, n_states)
    recorder(h)
    return h


def c_latent_graph():
    """LatentGraphCRF: the completed states map back to exactly the observed labels, whatever the backend returns"""
    s = latent_graph()
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    any_answer(s.n_nodes, s.model.n_states)
    h = s.model.latent(s.x, y, real('w', s.model.size_joint_feature))
    ensure_eq('labels', s.model.label_from_latent(h), y)


def c_latent_grid():
    """the latent grid models: the completed states map back to exactly the observed labels and keep the grid's shape"""
    s = latent_grid(choice('directional', [False, True]), choice('nb', [4, 8]))
    y = ints('y', (s.x.shape[0], s.x.shape[1]), 0, s.n_cls)
    any_answer(s.n_nodes, s.model.n_states)
    h = s.model.latent(s.x, y, real('w', s.model.size_joint_feature))
    ensure_eq('labels', s.model.label_from_latent(h), y)


def c_latent_node():
    """the latent node models: visible nodes keep their labels and hidden nodes get hidden states, or the answer is
    refused"""
    s = latent_node('none', choice('with_edge_features', [False, True]))
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    any_answer(s.n_nodes + s.n_hid, s.model.n_states)
    w = real('w', s.model.size_joint_feature)
    try:
        h = s.model.latent(s.x, y, w)
    except ValueError:
        return
    ensure_eq('visible', h[:s.n_nodes], y)
    ensure('hidden', ALL(s.n_hid, lambda j: h[s.n_nodes + j] >= s.n_cls))


def c_label_from_latent_node():
    """visible nodes with labels and hidden nodes with hidden states map back to the labels of the visible nodes"""
    s = latent_node('none', choice('with_edge_features', [False, True]))
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    h = np.concatenate([y, ints('hidden', (s.n_hid,), s.n_cls, s.model.n_states)])
    ensure_eq('labels', s.model.label_from_latent(h), y)


def c_latent_node_keeps_consistent_answers():
    """a consistent answer of the backend is returned as it is"""
    s = latent_node('none', choice('with_edge_features', [False, True]))
    y = ints('y', (s.n_nodes,), 0, s.n_cls)
    h = np.concatenate([y, ints('hidden', (s.n_hid,), s.n_cls, s.model.n_states)])
    recorder(h)
    ensure_eq('answer', s.model.latent(s.x, y, real('w', s.model.size_joint_feature)), h)


def c_latent_graph_keeps_consistent_answers():
    """a consistent answer of the backend is returned as it is"""
    s = latent_graph()
    m = s.model.n_states // s.n_cls
    h = ints('answer', (s.n_nodes,), 0, s.model.n_states)
    y = array_of((s.n_nodes,), lambda i: h[i] // m, 'i')
    recorder(h)
    ensure_eq('answer', s.model.latent(s.x, y, real('w', s.model.size_joint_feature)), h)


def c_states_map_uniform():
    """with m states per label, label l owns exactly the states l m, ..., l m + m - 1"""
    n_labels, m = dim('n_labels', 1), dim('m', 1)
    model = LatentGraphCRF(n_labels=n_labels, n_features=dim('n_features', 1), n_states_per_label=m,
                           inference_method='ad3')
    ensure_eq('number of states', model.n_states, n_labels * m)
    l, o = integer('label', 0, n_labels), integer('offset', 0, m)
    ensure_eq('label', model.label_from_latent(l * m + o), l)


def c_states_map():
    """label l owns a contiguous block of exactly its declared number of states (bounded: up to four labels)"""
    n_labels = choice('n_labels', [1, 2, 3, 4])
    ms = ints('states_per_label', (n_labels,), 1, 6)
    model = LatentGraphCRF(n_labels=n_labels, n_features=dim('n_features', 1), n_states_per_label=ms,
                           inference_method='ad3')
    ensure_eq('number of states', model.n_states, SUM(n_labels, lambda k: ms[k]))
    l = choice('label', [0, 1, 2, 3])
    assume(l < n_labels)
    o = integer('offset', 0, ms[l])
    ensure_eq('label', model.label_from_latent(SUM(l, lambda k: ms[k]) + o), l)


def c_latent_graph_unequal():
    """LatentGraphCRF with a different number of states for each label (bounded: up to three labels): the completed
    states map back to exactly the observed labels, whatever the backend returns. Nodes are numbered by label, which
    is no restriction as the edges are arbitrary."""
    n_labels, n_features = choice('n_labels', [1, 2, 3]), dim('n_features', 1)
    n_edges = dim('n_edges', 0)
    count = [dim('n_nodes%d' % l, 0 if l else 1) for l in range(n_labels)]
    n_nodes = sum(count)
    ms = ints('states_per_label', (n_labels,), 1, 6)
    m = LatentGraphCRF(n_labels=n_labels, n_features=n_features, n_states_per_label=ms, inference_method='ad3')
    any_answer(n_nodes, m.n_states)
    y = np.concatenate([array_of((count[l],), lambda i: l, 'i') for l in range(n_labels)])
    x = (real('features', n_nodes, n_features), ints('edges', (n_edges, 2), 0, n_nodes))
    h = m.latent(x, y, real('w', m.size_joint_feature))
    ensure_eq('labels', m.label_from_latent(h), y)
