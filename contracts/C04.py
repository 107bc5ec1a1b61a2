"""C04: batch and learner-level operations equal the per-sample ones, in order."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import *      # noqa
from pystruct.models.base import StructuredModel
from pystruct.learners.ssvm import BaseSSVM
from pystruct.learners import LatentSSVM, SubgradientLatentSSVM


class Table(StructuredModel):
    """an arbitrary model: per-sample results are entries of arbitrary tables, inputs are sample numbers"""
    def __init__(self, n, n_y, d, rescale=False):
        self.size_joint_feature = d
        self.phi = real('phi', n, n_y, d)
        self.losses = real('losses', n_y, n_y)
        self.plain = ints('plain', (n,), 0, n_y)
        self.augmented = ints('augmented', (n, n_y), 0, n_y)
        self.constrained = ints('constrained', (n, n), 0, n_y)
        self.relaxed = ints('relaxed', (n,), 0, n_y)
        self.relaxed_constrained = ints('relaxed_constrained', (n, n), 0, n_y)
        self.augmented_rounded = ints('augmented_rounded', (n, n_y), 0, n_y)
        self.w = real('w', d)
        if rescale:
            self.rescale_C = True
            self.scale = real('scale', n_y)

    def joint_feature(self, x, y, y_true=None):
        if y_true is not None:
            return self.phi[x, y] * self.scale[y_true]
        return self.phi[x, y] * 1.0

    def loss(self, y, y_hat):
        return self.losses[y, y_hat]

    def inference(self, x, w, relaxed=None, constraints=None):
        ensure_eq('weights passed on', w, self.w)
        if constraints is not None:
            return (self.relaxed_constrained if relaxed else self.constrained)[x, constraints]
        return (self.relaxed if relaxed else self.plain)[x]

    def loss_augmented_inference(self, x, y, w, relaxed=None):
        ensure_eq('weights passed on', w, self.w)
        return (self.augmented if relaxed else self.augmented_rounded)[x, y]

    def label_from_latent(self, h):
        return h + 1


def samples(n):
    return list_of(n, lambda i: i)


def labels(name, n, n_y):
    t = ints(name, (n,), 0, n_y)
    return t, list_of(n, lambda i: t[i])


def table(rescale=False):
    n, n_y = dim('n_samples', 0), dim('n_y', 1)
    return n, n_y, Table(n, n_y, dim('d', 1), rescale)


def c_batch_joint_feature():
    """the default batch joint feature is the sum of the per-sample ones"""
    n, n_y, m = table()
    t, Y = labels('Y', n, n_y)
    r = m.batch_joint_feature(samples(n), Y)
    ensure_eq('sum', r, array_of((m.size_joint_feature,), lambda j: SUM(n, lambda i: m.phi[i, t[i], j])))
    ensure_eq('with truth', m.batch_joint_feature(samples(n), Y, Y), r)


def c_batch_joint_feature_rescaled():
    """with rescaling the class weight of the true label applies"""
    n, n_y, m = table(True)
    t, Y = labels('Y', n, n_y)
    tt, Yt = labels('Y_true', n, n_y)
    ensure_eq('sum', m.batch_joint_feature(samples(n), Y, Yt),
              array_of((m.size_joint_feature,), lambda j: SUM(n, lambda i: m.phi[i, t[i], j] * m.scale[tt[i]])))


def c_batch_loss():
    """one loss per sample, in order"""
    n, n_y, m = table()
    t, Y = labels('Y', n, n_y)
    th, Yh = labels('Y_hat', n, n_y)
    ensure_eq('losses', m.batch_loss(Y, Yh), list_of(n, lambda i: m.losses[t[i], th[i]]))


def c_batch_inference():
    """one prediction per sample, in order, with each sample's own constraints"""
    n, n_y, m = table()
    ensure_eq('plain', m.batch_inference(samples(n), m.w), list_of(n, lambda i: m.plain[i]))
    ensure_eq('relaxed', m.batch_inference(samples(n), m.w, relaxed=True), list_of(n, lambda i: m.relaxed[i]))


def c_batch_inference_constraints():
    """one prediction per sample, in order, with each sample's own constraints"""
    n, n_y = dim('n_samples', 1), dim('n_y', 1)
    m = Table(n, n_y, dim('d', 1))
    t, C = labels('constraints', n, n)
    ensure_eq('constrained', m.batch_inference(samples(n), m.w, constraints=C),
              list_of(n, lambda i: m.constrained[i, t[i]]))
    ensure_eq('constrained and relaxed', m.batch_inference(samples(n), m.w, relaxed=True, constraints=C),
              list_of(n, lambda i: m.relaxed_constrained[i, t[i]]))


def c_batch_augmented():
    """one loss-augmented prediction per sample, in order"""
    n, n_y, m = table()
    t, Y = labels('Y', n, n_y)
    ensure_eq('augmented', m.batch_loss_augmented_inference(samples(n), Y, m.w, relaxed=True),
              list_of(n, lambda i: m.augmented[i, t[i]]))
    ensure_eq('rounded', m.batch_loss_augmented_inference(samples(n), Y, m.w, relaxed=False),
              list_of(n, lambda i: m.augmented_rounded[i, t[i]]))


class Unbatched(object):
    """a model that can do nothing but single inferences"""
    def __init__(self, m):
        self.m = m

    def inference(self, x, w, relaxed=None, constraints=None):
        if constraints is None:
            return self.m.inference(x, w)
        return self.m.inference(x, w, constraints=constraints)


def c_predict():
    """learners predict one result per sample in order, whatever the number of jobs"""
    n, n_y, m = table()
    s = BaseSSVM(Unbatched(m) if choice('unbatched', [False, True]) else m, n_jobs=choice('n_jobs', [1, 2, -1]), verbose=choice('verbose', [0, 5]))
    s.w = m.w
    ensure_eq('predictions', s.predict(samples(n)), list_of(n, lambda i: m.plain[i]))


def c_predict_constraints():
    """constraints given to predict reach their own sample"""
    n, n_y = dim('n_samples', 1), dim('n_y', 1)
    m = Table(n, n_y, dim('d', 1))
    # sample numbers shifted by one, so that no constraint object is empty
    t, C = labels('constraints', n, n)
    s = BaseSSVM(Unbatched(m) if choice('unbatched', [False, True]) else m, n_jobs=choice('n_jobs', [1, 2, -1]))
    s.w = m.w
    C1 = list_of(n, lambda i: Constraint(t[i]))
    m.constrained = Lookup(m.constrained)
    ensure_eq('predictions', s.predict(samples(n), constraints=C1), list_of(n, lambda i: m.constrained.table[i, t[i]]))


class Constraint(object):
    """an opaque constraint object"""
    def __init__(self, number):
        self.number = number


class Lookup(object):
    def __init__(self, table):
        self.table = table

    def __getitem__(self, k):
        return self.table[k[0], k[1].number]


def c_latent_predict():
    """latent learners predict the labels of the predicted hidden states, in order"""
    n, n_y, m = table()
    s = BaseSSVM(m, n_jobs=choice('n_jobs', [1, 2]))
    s.w = m.w
    if choice('subgradient', [False, True]):
        latent = SubgradientLatentSSVM(m, n_jobs=s.n_jobs)
        latent.w = m.w
    else:
        latent = LatentSSVM(s)
    ensure_eq('labels', latent.predict(samples(n)), list_of(n, lambda i: m.plain[i] + 1))
    ensure_eq('states', latent.predict_latent(samples(n)), list_of(n, lambda i: m.plain[i]))


def c_binary():
    """BinaryClf batch operations"""
    n, d = dim('n_samples', 0), dim('n_features', 1)
    m = BinaryClf(n_features=d)
    X, w = numbers('X', n, d), real('w', d)
    bits, bits2 = ints('bits', (n,), 0, 2), ints('bits2', (n,), 0, 2)
    Y, Y_hat = 2 * bits - 1, 2 * bits2 - 1
    ensure_eq('joint feature', m.batch_joint_feature(X, Y),
              array_of((d,), lambda j: SUM(n, lambda i: one_feature(m, X, Y, i)[j])))
    ensure_eq('with truth', m.batch_joint_feature(X, Y, Y), m.batch_joint_feature(X, Y))
    ensure_eq('inference', m.batch_inference(X, w), array_of((n,), lambda i: m.inference(X[i], w), 'i'))
    ensure_eq('loss', m.batch_loss(Y, Y_hat), array_of((n,), lambda i: m.loss(Y[i], Y_hat[i])))
    ensure_eq('augmented', m.batch_loss_augmented_inference(X, Y, w),
              array_of((n,), lambda i: m.loss_augmented_inference(X[i], Y[i], w), 'i'))


def one_feature(m, X, Y, i):
    return IF(Y[i] == 1, 1.0, 0.0) * m.joint_feature(X[i], 1) + IF(Y[i] == -1, 1.0, 0.0) * m.joint_feature(X[i], -1)


def multi_class(rescale):
    n, d, c = dim('n_samples', 0), dim('n_features', 1), dim('n_classes', 1)
    cw = class_weights(c, choice('cw', ['none', 'nonneg', 'integer']))
    m = MultiClassClf(n_features=d, n_classes=c, class_weight=cw, rescale_C=rescale)
    return n, d, c, m, numbers('X', n, d), real('w', m.size_joint_feature), ints('Y', (n,), 0, c)


def c_multi_class():
    """MultiClassClf batch operations without rescaling"""
    n, d, c, m, X, w, Y = multi_class(False)
    Y_hat = ints('Y_hat', (n,), 0, c)
    ensure_eq('joint feature', m.batch_joint_feature(X, Y),
              array_of((c * d,), lambda j: SUM(n, lambda i: m.joint_feature(X[i], Y[i])[j])))
    ensure_eq('inference', m.batch_inference(X, w), array_of((n,), lambda i: m.inference(X[i], w), 'i'))
    ensure_eq('loss', m.batch_loss(Y, Y_hat), array_of((n,), lambda i: m.loss(Y[i], Y_hat[i])))


def c_multi_class_rescaled():
    """MultiClassClf batch joint feature with the class weight of the true label"""
    n, d, c, m, X, w, Y = multi_class(True)
    Yt = ints('Y_true', (n,), 0, c)
    ensure_eq('joint feature', m.batch_joint_feature(X, Y, Yt),
              array_of((c * d,), lambda j: SUM(n, lambda i: m.joint_feature(X[i], Y[i], Yt[i])[j])))


def c_multi_class_augmented():
    """MultiClassClf batch loss-augmented inference"""
    n, d, c, m, X, w, Y = multi_class(choice('rescale_C', [False, True]))
    ensure_eq('augmented', m.batch_loss_augmented_inference(X, Y, w),
              array_of((n,), lambda i: m.loss_augmented_inference(X[i], Y[i], w), 'i'))
