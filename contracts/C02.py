"""C02: loss-augmented inference maximises score plus loss."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa


def check_augmented(s, offset=0):
    """the objective handed to inference is, for an arbitrary candidate, its score plus its loss (up to a constant)"""
    y, y_hat, base = s.draw('y'), s.draw('candidate'), s.draw('other')
    w = real('w', s.model.size_joint_feature)
    calls = recorder(s.flat(base))
    s.model.loss_augmented_inference(s.x, y, w)
    ensure_eq('one call', len(calls), 1)
    u, p, e = calls[0][:3]

    def target(h):
        return np.dot(w, s.model.joint_feature(s.x, h)) + s.model.loss(y, h)

    def given(h):
        return score(u, p, e, s.flat(h))
    if s.constant:
        # only differences between candidates matter
        ensure_eq('objective', given(y_hat) - target(y_hat), given(base) - target(base))
    else:
        ensure_eq('objective', given(y_hat), target(y_hat))


def c_graph():
    """GraphCRF"""
    check_augmented(graph(choice('cw', ['none', 'nonneg', 'integer'])))


def c_chain():
    """ChainCRF"""
    check_augmented(chain(choice('cw', ['none', 'nonneg', 'integer'])))


def c_edge_feature_graph():
    """EdgeFeatureGraphCRF"""
    check_augmented(edge_feature_graph(choice('cw', ['none', 'nonneg', 'integer'])))


def c_grid():
    """GridCRF"""
    check_augmented(grid(False, choice('nb', [4, 8])))


def c_directional_grid():
    """DirectionalGridCRF"""
    check_augmented(grid(True, choice('nb', [4, 8])))


def c_multi_label():
    """MultiLabelClf"""
    check_augmented(multi_label())


def c_latent_graph():
    """LatentGraphCRF: hidden states of the wrong label are augmented"""
    check_augmented(latent_graph())


def c_latent_grid():
    """LatentGridCRF and LatentDirectionalGridCRF"""
    check_augmented(latent_grid(choice('directional', [False, True]), choice('nb', [4, 8])))


def c_latent_node():
    """LatentNodeCRF: only visible nodes are augmented"""
    check_augmented(latent_node(choice('cw', ['none', 'nonneg', 'integer'])))


def c_edge_feature_latent_node():
    """EdgeFeatureLatentNodeCRF"""
    check_augmented(latent_node(choice('cw', ['none', 'nonneg', 'integer']), True))


def typed_augmented(n_types, cw):
    s = Typed(n_types, cw)
    w = real('w', s.model.size_joint_feature)
    y, y_hat, base = s.draw('y'), s.draw('candidate'), s.draw('other')
    calls = recorder(s.flat(base))
    s.model.loss_augmented_inference(s.x, s.flat(y), w)
    ensure_eq('one call', len(calls), 1)
    u, p = calls[0][:2]
    ensure_eq('objective', s.score(u, p, y_hat),
              np.dot(w, s.model.joint_feature(s.x, s.flat(y_hat))) + s.model.loss(s.flat(y), s.flat(y_hat)))


def c_typed_one():
    """NodeTypeEdgeFeatureGraphCRF with one type"""
    typed_augmented(1, choice('cw', ['none', 'nonneg', 'integer']))


def c_typed_two():
    """NodeTypeEdgeFeatureGraphCRF with two types"""
    typed_augmented(2, 'nonneg')


def c_binary():
    """BinaryClf: a valid label that maximises score plus loss, ties included"""
    n = dim('n_features', 1)
    m = BinaryClf(n_features=n)
    x, w = real('x', n), real('w', n)
    y, y_hat = choice('y', [-1, 1]), choice('y_hat', [-1, 1])

    def target(h):
        return np.dot(w, m.joint_feature(x, h)) + m.loss(y, h)
    r = m.loss_augmented_inference(x, y, w)
    ensure('valid label', OR(r == -1, r == 1))
    ensure_le('maximal', target(y_hat), target(r))


def c_binary_inference():
    """BinaryClf inference: a valid label of maximal score"""
    n = dim('n_features', 1)
    m = BinaryClf(n_features=n)
    x, w = real('x', n), real('w', n)
    y_hat = choice('y_hat', [-1, 1])
    r = m.inference(x, w)
    ensure('valid label', OR(r == -1, r == 1))
    ensure_le('maximal', np.dot(w, m.joint_feature(x, y_hat)), np.dot(w, m.joint_feature(x, r)))


def c_multi_class():
    """MultiClassClf: a class that maximises score plus loss (both scaled by the class weight under rescale_C)"""
    n, c = dim('n_features', 1), dim('n_classes', 1)
    cw = class_weights(c, choice('cw', ['none', 'nonneg', 'integer']))
    rescale = choice('rescale_C', [False, True])
    m = MultiClassClf(n_features=n, n_classes=c, class_weight=cw, rescale_C=rescale)
    x, w = real('x', n), real('w', m.size_joint_feature)
    y, y_hat = integer('y', 0, c), integer('y_hat', 0, c)

    def target(h):
        jf = m.joint_feature(x, h, y) if rescale else m.joint_feature(x, h)
        return np.dot(w, jf) + m.loss(y, h)
    r, energy = m.loss_augmented_inference(x, y, w, return_energy=True)
    ensure('valid label', AND(r >= 0, r < c))
    ensure_le('maximal', target(y_hat), target(r))
    if not rescale:
        ensure_eq('energy', energy, target(r))
    ensure_eq('same without energy', m.loss_augmented_inference(x, y, w), r)


def c_multi_class_inference():
    """MultiClassClf inference: a class of maximal score"""
    n, c = dim('n_features', 1), dim('n_classes', 1)
    m = MultiClassClf(n_features=n, n_classes=c)
    x, w = real('x', n), real('w', m.size_joint_feature)
    y_hat = integer('y_hat', 0, c)
    r = m.inference(x, w)
    ensure('valid label', AND(r >= 0, r < c))
    ensure_le('maximal', np.dot(w, m.joint_feature(x, y_hat)), np.dot(w, m.joint_feature(x, r)))
