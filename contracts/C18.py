"""C18: wrongly sized inputs, weights and configurations are rejected, data that agree are accepted."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa


def weights_of_wrong_shape(size):
    n = dim('n_w', 0)
    if choice('wrong weights', ['length', 'matrix']) == 'matrix':
        return real('w', size, n)
    assume(n != size)
    return real('w', n)


def operations(m, x, y, w):
    return [('inference', lambda: m.inference(x, w)),
            ('loss-augmented inference', lambda: m.loss_augmented_inference(x, y, w))]


def wrong_weights(s, latent=None):
    """weights of any other length are rejected by every operation that takes weights"""
    recorder(s.flat(s.draw('answer')))
    y = s.draw('y')
    w = weights_of_wrong_shape(s.model.size_joint_feature)
    ensure_raises('inference', s.model.inference, s.x, w)
    ensure_raises('loss-augmented inference', s.model.loss_augmented_inference, s.x, y, w)
    if latent is not None:
        ensure_raises('latent', s.model.latent, s.x, latent, w)


def c_weights_graph():
    """GraphCRF, ChainCRF and EdgeFeatureGraphCRF reject weights of the wrong size"""
    f = choice('family', ['graph', 'chain', 'edge features'])
    wrong_weights(graph() if f == 'graph' else chain() if f == 'chain' else edge_feature_graph())


def c_weights_grid():
    """the grid models reject weights of the wrong size"""
    wrong_weights(grid(choice('directional', [False, True]), choice('nb', [4, 8])))


def c_weights_multi_label():
    """MultiLabelClf rejects weights of the wrong size"""
    wrong_weights(multi_label())


def c_weights_latent_graph():
    """LatentGraphCRF rejects weights of the wrong size"""
    s = latent_graph()
    wrong_weights(s, latent=ints('labels', (s.n_nodes,), 0, s.n_cls))


def c_weights_latent_node():
    """the latent node models reject weights of the wrong size"""
    s = latent_node('none', choice('with_edge_features', [False, True]))
    wrong_weights(s, latent=ints('labels', (s.n_nodes,), 0, s.n_cls))


def c_weights_typed():
    """NodeTypeEdgeFeatureGraphCRF rejects weights of the wrong size"""
    wrong_weights(typed(choice('n_types', [1, 2])))


def unstructured():
    if choice('multi_class', [False, True]):
        n_classes, n_features = dim('n_classes', 1), dim('n_features', 1)
        m = MultiClassClf(n_features=n_features, n_classes=n_classes,
                          class_weight=class_weights(n_classes, choice('cw', ['none', 'nonneg'])))
        return m, n_features, ints('y', (1,), 0, n_classes)[0]
    n_features = dim('n_features', 1)
    return BinaryClf(n_features=n_features), n_features, 2 * ints('y', (1,), 0, 2)[0] - 1


def c_weights_unstructured():
    """BinaryClf and MultiClassClf reject weights of the wrong size, also in their batch operations"""
    m, n_features, y = unstructured()
    w = weights_of_wrong_shape(m.size_joint_feature)
    x = real('x', choice('same', [w.shape[0], n_features]))
    X = real('X', dim('n_samples', 1), choice('same_batch', [w.shape[0], n_features]))
    ensure_raises('inference', m.inference, x, w)
    ensure_raises('loss-augmented inference', m.loss_augmented_inference, x, y, w)
    ensure_raises('batch inference', m.batch_inference, X, w)
    ensure_raises('batch loss-augmented inference', m.batch_loss_augmented_inference, X,
                  array_of((X.shape[0],), lambda i: y, 'i'), w)


def c_inputs_unstructured():
    """BinaryClf and MultiClassClf reject inputs of the wrong size, also in their batch operations"""
    m, n_features, y = unstructured()
    n = dim('n_wrong', 0)
    assume(n != n_features)
    w = real('w', m.size_joint_feature)
    x, X = real('x', n), real('X', dim('n_samples', 1), n)
    Y = array_of((X.shape[0],), lambda i: y, 'i')
    ensure_raises('joint feature', m.joint_feature, x, y)
    ensure_raises('batch joint feature', m.batch_joint_feature, X, Y)
    ensure_raises('inference', m.inference, x, w)
    ensure_raises('loss-augmented inference', m.loss_augmented_inference, x, y, w)
    ensure_raises('batch inference', m.batch_inference, X, w)
    ensure_raises('batch loss-augmented inference', m.batch_loss_augmented_inference, X, Y, w)


def wrong_input(s, x):
    recorder(s.flat(s.draw('answer')))
    y = s.draw('y')
    w = real('w', s.model.size_joint_feature)
    ensure_raises('joint feature', s.model.joint_feature, x, y)
    ensure_raises('inference', s.model.inference, x, w)
    ensure_raises('loss-augmented inference', s.model.loss_augmented_inference, x, y, w)


def wrong_number(name, right):
    n = dim(name, 0)
    assume(n != right)
    return n


def c_features_graph():
    """GraphCRF and LatentGraphCRF reject node features of the wrong length"""
    s = latent_graph() if choice('latent', [False, True]) else graph()
    feats, edges = s.x
    wrong_input(s, (real('wrong', s.n_nodes, wrong_number('n_wrong', s.model.n_features)), edges))


def c_features_chain():
    """ChainCRF rejects node features of the wrong length"""
    s = chain()
    wrong_input(s, real('wrong', s.n_nodes, wrong_number('n_wrong', s.model.n_features)))


def c_features_edge_feature_graph():
    """EdgeFeatureGraphCRF rejects node features, edge features and numbers of edge feature rows that do not fit"""
    s = edge_feature_graph()
    feats, edges, ef = s.x
    what = choice('what', ['features', 'edge features', 'rows'])
    if what == 'features':
        feats = real('wrong', s.n_nodes, wrong_number('n_wrong', s.model.n_features))
    elif what == 'edge features':
        ef = real('wrong', edges.shape[0], wrong_number('n_wrong', s.model.n_edge_features))
    else:
        ef = real('wrong', wrong_number('n_wrong', edges.shape[0]), s.model.n_edge_features)
    wrong_input(s, (feats, edges, ef))


def c_features_latent_node():
    """the latent node models reject node features (and edge features, and their rows) that do not fit"""
    with_ef = choice('with_edge_features', [False, True])
    s = latent_node('none', with_ef)
    feats, edges, n_hid = s.x[0], s.x[1], s.x[-1]
    what = choice('what', ['features', 'edge features', 'rows'])
    assume(with_ef or what == 'features')
    if what == 'features':
        feats = real('wrong', feats.shape[0], wrong_number('n_wrong', s.model.n_features))
    if with_ef:
        ef = s.x[2]
        if what == 'edge features':
            ef = real('wrong', edges.shape[0], wrong_number('n_wrong', s.model.n_edge_features))
        elif what == 'rows':
            ef = real('wrong', wrong_number('n_wrong', edges.shape[0]), s.model.n_edge_features)
        wrong_input(s, (feats, edges, ef, n_hid))
    else:
        wrong_input(s, (feats, edges, n_hid))


def c_features_grid():
    """the grid models reject grids with the wrong number of features per cell"""
    s = grid(choice('directional', [False, True]), choice('nb', [4, 8]))
    h, w = s.x.shape[0], s.x.shape[1]
    wrong_input(s, real('wrong', h, w, wrong_number('n_wrong', s.model.n_features)))


def c_features_latent_grid():
    """the latent grid models reject grids with the wrong number of features per cell"""
    s = latent_grid(choice('directional', [False, True]), choice('nb', [4, 8]))
    h, w = s.x.shape[0], s.x.shape[1]
    wrong_input(s, real('wrong', h, w, wrong_number('n_wrong', s.model.n_features)))


def c_features_multi_label():
    """MultiLabelClf rejects inputs of the wrong length"""
    s = multi_label()
    wrong_input(s, real('wrong', wrong_number('n_wrong', s.model.n_features)))


def c_class_weight_length():
    """class weights whose length is not the number of classes are rejected on construction"""
    n_classes, n_features = dim('n_classes', 1), dim('n_features', 1)
    c = nonneg_real('class_weight', wrong_number('n_weights', n_classes))
    f = choice('family', ['graph', 'chain', 'edge', 'multi-class', 'latent node', 'latent node edge'])
    if f == 'graph':
        ensure_raises(f, GraphCRF, n_states=n_classes, n_features=n_features, class_weight=c, inference_method='ad3')
    elif f == 'chain':
        ensure_raises(f, ChainCRF, n_states=n_classes, n_features=n_features, class_weight=c, inference_method='ad3')
    elif f == 'edge':
        ensure_raises(f, EdgeFeatureGraphCRF, n_states=n_classes, n_features=n_features, n_edge_features=2,
                      class_weight=c, inference_method='ad3')
    elif f == 'multi-class':
        ensure_raises(f, MultiClassClf, n_classes=n_classes, n_features=n_features, class_weight=c)
    elif f == 'latent node':
        ensure_raises(f, LatentNodeCRF, n_labels=n_classes, n_features=n_features, class_weight=c, inference_method='ad3')
    else:
        ensure_raises(f, EdgeFeatureLatentNodeCRF, n_labels=n_classes, n_features=n_features, n_edge_features=2,
                      class_weight=c, inference_method='ad3')


# ---------------------------------------------------------------- initialize

def declared(name, right):
    """(declared size, verdict): not declared, declared as the data have it, or declared differently"""
    how = choice(name, ['unset', 'right', 'wrong'])
    if how == 'unset':
        return None, True
    if how == 'right':
        return right, True
    n = dim(name + '_wrong', 1)
    assume(n != right)
    return n, False


def batch_of_graphs(n_features, n_labels, n_ef=None):
    """any number of samples with graphs of different sizes"""
    n, big, big_e = dim('n_samples', 1), dim('max_nodes', 1), dim('max_edges', 0)
    size = ints('size', (n,), 1, big + 1)
    n_edges = ints('n_edges', (n,), 0, big_e + 1)
    F = real('F', n, big, n_features)
    E = ints('E', (n, big_e, 2), 0, big)
    L = ints('L', (n, big), 0, n_labels)
    if n_ef is None:
        X = list_of(n, lambda k: (F[k, :size[k]], E[k, :n_edges[k]]))
    else:
        EF = real('EF', n, big_e, n_ef)
        X = list_of(n, lambda k: (F[k, :size[k]], E[k, :n_edges[k]], EF[k, :n_edges[k]]))
    return X, list_of(n, lambda k: L[k, :size[k]])


def values(Y):
    """number of different labels in the training labels"""
    return len(np.unique(np.hstack([y.ravel() for y in Y])))


def check_initialize(m, X, Y, ok, expected):
    if not ok:
        ensure_raises('contradiction', m.initialize, X, Y)
        return
    m.initialize(X, Y)
    for name, value in expected:
        ensure_eq(name, getattr(m, name), value)


def c_initialize_graph():
    """GraphCRF: sizes come from the data unless declared; contradictions raise"""
    n_features = dim('n_features', 1)
    X, Y = batch_of_graphs(n_features, dim('n_values', 1))
    n_states = values(Y)
    d = choice('directed', [False, True])
    s, ok1 = declared('states', n_states)
    f, ok2 = declared('features', n_features)
    m = GraphCRF(n_states=s, n_features=f, directed=d, inference_method='ad3')
    size = n_states * n_features + (n_states * n_states if d else n_states * (n_states + 1) // 2)
    check_initialize(m, X, Y, AND(ok1, ok2), [('n_states', n_states), ('n_features', n_features),
                                              ('size_joint_feature', size)])


def c_initialize_edge_feature_graph():
    """EdgeFeatureGraphCRF: sizes come from the data unless declared; contradictions raise"""
    n_features, n_ef = dim('n_features', 1), dim('n_ef', 1)
    X, Y = batch_of_graphs(n_features, dim('n_values', 1), n_ef)
    n_states = values(Y)
    s, ok1 = declared('states', n_states)
    f, ok2 = declared('features', n_features)
    e, ok3 = declared('edge_features', n_ef)
    m = EdgeFeatureGraphCRF(n_states=s, n_features=f, n_edge_features=e, inference_method='ad3')
    check_initialize(m, X, Y, AND(AND(ok1, ok2), ok3),
                     [('n_states', n_states), ('n_features', n_features), ('n_edge_features', n_ef),
                      ('size_joint_feature', n_states * n_features + n_ef * n_states * n_states)])


def c_initialize_latent_node():
    """LatentNodeCRF: the labels and features come from the data unless declared; contradictions raise"""
    n_features, n_hidden = dim('n_features', 1), dim('n_hidden_states', 1)
    X, Y = batch_of_graphs(n_features, dim('n_values', 1), dim('n_hidden_nodes', 1))
    n_labels = values(Y)
    s, ok1 = declared('states', n_labels)
    f, ok2 = declared('features', n_features)
    m = LatentNodeCRF(n_labels=s, n_features=f, n_hidden_states=n_hidden, inference_method='ad3')
    k = n_labels + n_hidden
    check_initialize(m, X, Y, AND(ok1, ok2), [('n_labels', n_labels), ('n_features', n_features), ('n_states', k),
                                              ('size_joint_feature', n_labels * n_features + k * (k + 1) // 2)])


def c_initialize_latent_graph():
    """LatentGraphCRF: the labels and features come from the data unless declared; contradictions raise"""
    n_features, ms = dim('n_features', 1), dim('m', 1)
    X, Y = batch_of_graphs(n_features, dim('n_values', 1))
    n_labels = values(Y)
    s, ok1 = declared('states', n_labels)
    f, ok2 = declared('features', n_features)
    m = LatentGraphCRF(n_labels=s, n_features=f, n_states_per_label=ms, inference_method='ad3')
    k = n_labels * ms
    check_initialize(m, X, Y, AND(ok1, ok2), [('n_labels', n_labels), ('n_features', n_features), ('n_states', k),
                                              ('size_joint_feature', k * n_features + k * (k + 1) // 2)])


def c_states_per_label():
    """a list of numbers of states per label of the wrong length is rejected"""
    n_labels = dim('n_labels', 1)
    ms = ints('states_per_label', (wrong_number('n_listed', n_labels),), 1, 5)
    ensure_raises('states per label', LatentGraphCRF, n_labels=n_labels, n_features=dim('n_features', 1),
                  n_states_per_label=ms, inference_method='ad3')


def c_initialize_chain():
    """ChainCRF: sizes come from the data unless declared; contradictions raise"""
    n_features = dim('n_features', 1)
    n, big = dim('n_samples', 1), dim('max_nodes', 1)
    size = ints('size', (n,), 1, big + 1)
    F = real('F', n, big, n_features)
    L = ints('L', (n, big), 0, dim('n_values', 1))
    X, Y = list_of(n, lambda k: F[k, :size[k]]), list_of(n, lambda k: L[k, :size[k]])
    n_states = values(Y)
    s, ok1 = declared('states', n_states)
    f, ok2 = declared('features', n_features)
    m = ChainCRF(n_states=s, n_features=f)
    check_initialize(m, X, Y, AND(ok1, ok2), [('n_states', n_states), ('n_features', n_features),
                                              ('size_joint_feature', n_states * n_features + n_states * n_states)])


def c_initialize_grid():
    """the grid models: sizes come from the data unless declared; contradictions raise"""
    n_features = dim('n_features', 1)
    n, height, width = dim('n_samples', 1), dim('height', 1), dim('width', 1)
    X = real('X', n, height, width, n_features)
    Y = ints('Y', (n, height, width), 0, dim('n_values', 1))
    n_states = values(Y)
    s, ok1 = declared('states', n_states)
    f, ok2 = declared('features', n_features)
    nb = choice('nb', [4, 8])
    n_dir = 2 if nb == 4 else 4
    kind = choice('kind', ['grid', 'directional', 'latent', 'latent directional'])
    if kind == 'grid' or kind == 'directional':
        cls, label, k = GridCRF if kind == 'grid' else DirectionalGridCRF, 'n_states', n_states
        m = cls(n_states=s, n_features=f, neighborhood=nb, inference_method='ad3')
    else:
        ms = dim('m', 1)
        cls, label, k = LatentGridCRF if kind == 'latent' else LatentDirectionalGridCRF, 'n_labels', n_states * ms
        m = cls(n_labels=s, n_features=f, n_states_per_label=ms, neighborhood=nb, inference_method='ad3')
    size = n_dir * k * k if kind == 'directional' or kind == 'latent directional' else k * (k + 1) // 2
    check_initialize(m, X, Y, AND(ok1, ok2), [(label, n_states), ('n_features', n_features),
                                              ('size_joint_feature', k * n_features + size)])


def c_initialize_unstructured():
    """BinaryClf, MultiClassClf and MultiLabelClf: sizes come from the data unless declared; contradictions raise"""
    n, n_features = dim('n_samples', 1), dim('n_features', 1)
    X = real('X', n, n_features)
    f, ok = declared('features', n_features)
    kind = choice('kind', ['binary', 'multi-class', 'multi-label'])
    if kind == 'binary':
        Y = 2 * ints('Y', (n,), 0, 2) - 1
        check_initialize(BinaryClf(n_features=f), X, Y, ok, [('size_joint_feature', n_features)])
    elif kind == 'multi-class':
        Y = ints('Y', (n,), 0, dim('n_values', 1))
        n_classes = values(Y)
        s, ok1 = declared('classes', n_classes)
        check_initialize(MultiClassClf(n_features=f, n_classes=s), X, Y, AND(ok, ok1),
                         [('n_states', n_classes), ('n_features', n_features),
                          ('size_joint_feature', n_features * n_classes)])
    else:
        n_labels = dim('n_labels', 1)
        Y = ints('Y', (n, n_labels), 0, 2)
        s, ok1 = declared('labels', n_labels)
        n_edges = dim('n_edges', 0)
        edges = ints('edges', (n_edges, 2), 0, n_labels)
        check_initialize(MultiLabelClf(n_features=f, n_labels=s, edges=edges, inference_method='ad3'), X, Y,
                         AND(ok, ok1), [('n_labels', n_labels), ('n_features', n_features),
                                        ('size_joint_feature', n_features * n_labels + 4 * n_edges)])


def c_initialize_checks_class_weight():
    """class weights that do not fit the number of classes found in the data are rejected, fitting ones accepted"""
    n_features = dim('n_features', 1)
    X, Y = batch_of_graphs(n_features, dim('n_values', 1))
    n_states = values(Y)
    fits = choice('fits', [False, True])
    c = nonneg_real('class_weight', n_states if fits else wrong_number('n_weights', n_states))
    kind = choice('kind', ['graph', 'latent node'])
    if kind == 'graph':
        m = GraphCRF(n_features=n_features, class_weight=c, inference_method='ad3')
    else:
        m = LatentNodeCRF(n_features=n_features, class_weight=c, inference_method='ad3')
    if fits:
        m.initialize(X, Y)
        ensure_eq('class weight', m.class_weight, c)
    else:
        ensure_raises('class weight', m.initialize, X, Y)


def c_edge_feature_indices():
    """edge features declared symmetric or antisymmetric must exist and not be declared both"""
    n_ef = dim('n_ef', 1)
    what = choice('what', ['symmetric', 'antisymmetric', 'both'])
    n_states, n_features = dim('n_states', 1), dim('n_features', 1)
    if what == 'both':
        i = integer('index', 0, n_ef)
        sym, anti = [i], [i]
    else:
        i = integer('index', n_ef, n_ef + 3)
        sym, anti = ([i], []) if what == 'symmetric' else ([], [i])
    ensure_raises(what, EdgeFeatureGraphCRF, n_states=n_states, n_features=n_features, n_edge_features=n_ef,
                  symmetric_edge_features=sym, antisymmetric_edge_features=anti, inference_method='ad3')
    if what == 'both':
        ensure_raises('latent', EdgeFeatureLatentNodeCRF, n_labels=n_states, n_features=n_features,
                      n_edge_features=n_ef, symmetric_edge_features=sym, antisymmetric_edge_features=anti,
                      inference_method='ad3')
