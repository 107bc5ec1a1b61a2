"""C20: packing and unpacking symmetric matrices."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.utils import expand_sym, compress_sym


def c_expand_is_symmetric_and_inverse():
    """expand_sym gives a symmetric matrix; packing it again without symmetrising returns the vector"""
    n = dim('n', 1)
    v = real('v', n * (n + 1) // 2)
    M = expand_sym(v)
    ensure_eq('shape', M.shape, (n, n))
    ensure_eq('symmetric', M, M.T)
    ensure_eq('inverse', compress_sym(M, make_symmetric=False), v)


def c_pack_unpack_symmetric():
    """packing then unpacking a symmetric matrix returns it"""
    n = dim('n', 1)
    A = real('A', n, n)
    S = A + A.T
    ensure_eq('roundtrip', expand_sym(compress_sym(S, make_symmetric=False)), S)


def c_adjoint():
    """<w, pack(M)> = <unpack(w), M> for any square matrix"""
    n = dim('n', 1)
    M = real('M', n, n)
    w = real('w', n * (n + 1) // 2)
    p = compress_sym(M)
    ensure_eq('length', p.shape, (n * (n + 1) // 2,))
    ensure_eq('adjoint', np.dot(w, p), np.sum(expand_sym(w) * M))


def c_entries():
    """the packed form lists the lower triangle row by row: entry i(i+1)/2+j is M[i,j] (+ M[j,i] off the diagonal)"""
    n = dim('n', 1)
    M = real('M', n, n)
    i = integer('i', 0, n)
    j = integer('j', 0, i + 1)
    p = compress_sym(M, make_symmetric=False)
    ensure_eq('plain', p[i * (i + 1) // 2 + j], M[i, j])
    q = compress_sym(M)
    ensure_eq('symmetrised', q[i * (i + 1) // 2 + j], M[i, j] + IF(i == j, 0.0, M[j, i]))


def c_arguments_unchanged():
    """neither operation changes its argument"""
    n = dim('n', 1)
    M = real('M', n, n)
    v = real('v', n * (n + 1) // 2)
    s = snapshot(M, v)
    compress_sym(M)
    compress_sym(M, make_symmetric=False)
    e = expand_sym(v)
    e += 1.0
    ensure_unchanged('arguments', s, M, v)
