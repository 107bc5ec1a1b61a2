"""C06: the linear program encodes exactly the local polytope and the negated score."""
import numpy as np
from pv.dsl import *          # noqa
from pystruct.inference import inference_methods
from pystruct.inference.linear_programming import lp_general_graph, solve_lp

BOUNDED = {'c_program': 'the constraint matrix is assembled from triples in nested loops with skipped rows: compared with '
                        'the local polytope by rank',
           'c_solve_lp': 'likewise'}


def dense(m):
    """cvxopt matrices as arrays"""
    import cvxopt
    return np.array(cvxopt.matrix(m, tc='d')).reshape(m.size)


def marginals(name, *shape):
    """rows that sum to one"""
    a = real(name, *shape) ** 2 + 0.1
    return a / a.sum(axis=-1)[..., None]


def local_polytope(n_nodes, n_states, edges):
    """equality constraints of the local polytope as rows of (coefficients, right hand side)"""
    n = n_nodes * n_states + len(edges) * n_states ** 2
    rows = []
    for i in range(n_nodes):
        r = np.zeros(n + 1)
        r[i * n_states:(i + 1) * n_states] = 1
        r[n] = 1
        rows.append(r)
    for e in range(len(edges)):
        start = n_nodes * n_states + e * n_states ** 2
        pair = np.arange(start, start + n_states ** 2).reshape(n_states, n_states)
        for end in (0, 1):
            for s in range(n_states):
                r = np.zeros(n + 1)
                r[pair[s] if end == 0 else pair[:, s]] = 1
                r[edges[e][end] * n_states + s] -= 1
                rows.append(r)
    return np.array(rows)


def rank(a):
    return np.linalg.matrix_rank(a) if a.size else 0


def problem():
    n_nodes, n_states, n_edges = dim('n_nodes', 1, 5), dim('n_states', 1, 4), dim('n_edges', 0, 5)
    ends = ints('from', (n_edges,), 0, n_nodes)
    other = ints('step', (n_edges,), 1, max(n_nodes, 2))
    assume(n_nodes > 1 or n_edges == 0)
    edges = np.array([ends, (ends + other) % n_nodes]).T.reshape(-1, 2)
    return n_nodes, n_states, edges


def solver(calls, x, energy):
    import cvxopt

    def lp(c, G, h, A=None, b=None, *args, **kwargs):
        calls.append([dense(m) for m in (c, G, h, A, b)])
        return {'x': cvxopt.matrix(x), 'primal objective': energy, 'status': 'optimal'}
    stub('cvxopt.solvers.lp', lp)


def check_program(call, n_nodes, n_states, edges):
    c, G, h, A, b = call
    n = n_nodes * n_states + len(edges) * n_states ** 2
    ensure_eq('variables', A.shape[1], n)
    ensure_eq('objective entries', c.shape, (n, 1))
    # non-negativity and nothing else
    ensure('inequalities', len(G) == len(h) and not h.any() and ((G != 0).sum(axis=1) == 1).all() and (G <= 0).all()
           and (G.min(axis=0) < 0).all())
    got, want = np.hstack([A, b.reshape(-1, 1)]), local_polytope(n_nodes, n_states, edges)
    ensure_eq('the constraints given follow from the local polytope', rank(np.vstack([got, want])), rank(want))
    ensure_eq('the local polytope follows from the constraints given', rank(np.vstack([got, want])), rank(got))


def check_objective(c, u, p, edges, y):
    n_nodes, n_states = u.shape
    x = np.zeros(len(c))
    for i in range(n_nodes):
        x[i * n_states + y[i]] = 1
    for k in range(len(edges)):
        x[n_nodes * n_states + k * n_states ** 2 + y[edges[k][0]] * n_states + y[edges[k][1]]] = 1
    s = sum([u[i, y[i]] for i in range(n_nodes)]) + sum([p[k, y[edges[k][0]], y[edges[k][1]]] for k in
                                                         range(len(edges))])
    ensure_eq('minus the score', np.dot(c.ravel(), x), -s)


def c_program():
    """through inference_lp: constraints, objective, and the marginals returned"""
    n_nodes, n_states, edges = problem()
    u = real('u', n_nodes, n_states)
    shared = choice('shared', [False, True])
    pw = real('p', n_states, n_states) if shared else real('p', len(edges), n_states, n_states)
    p = np.array([pw] * len(edges)).reshape(-1, n_states, n_states) if shared else pw
    mu, mp = marginals('mu', n_nodes, n_states), marginals('mp', len(edges), n_states ** 2)
    energy = real('energy')
    calls = []
    solver(calls, np.hstack([mu.ravel(), mp.ravel()]), energy)
    what = choice('what', ['relaxed', 'rounded', 'energy'])
    r = inference_methods.inference_lp(u, pw, edges, relaxed=what == 'relaxed', return_energy=what == 'energy')
    ensure_eq('one program', len(calls), 1)
    check_program(calls[0], n_nodes, n_states, edges)
    check_objective(calls[0][0], u, p, edges, ints('y', (n_nodes,), 0, n_states))
    if what == 'relaxed':
        ensure_eq('unary marginals', r[0], mu)
        ensure_eq('pairwise marginals', np.reshape(r[1], (len(edges), n_states ** 2)), mp)
    else:
        y = r[0] if what == 'energy' else r
        ensure_eq('rounded', y, np.argmax(mu, axis=1))
    if what == 'energy':
        ensure_eq('energy', r[1], energy)


def c_solve_lp():
    """the interface with one pairwise cost for all edges (costs, not potentials)"""
    n_nodes, n_states, edges = problem()
    u, p = real('u', n_nodes, n_states), real('p', n_states, n_states)
    mu, mp = marginals('mu', n_nodes, n_states), marginals('mp', len(edges), n_states ** 2)
    calls = []
    solver(calls, np.hstack([mu.ravel(), mp.ravel()]), 0.0)
    r = solve_lp(u, edges, p)
    check_program(calls[0], n_nodes, n_states, edges)
    check_objective(calls[0][0], -u, -np.array([p] * len(edges)).reshape(-1, n_states, n_states), edges,
                    ints('y', (n_nodes,), 0, n_states))
    ensure_eq('unary marginals', r[0], mu)
    ensure_eq('pairwise marginals', r[1], mp)


def c_shapes():
    """potentials and edges that do not fit are rejected"""
    n_nodes, n_states, n_edges = dim('n_nodes', 1), dim('n_states', 1), dim('n_edges', 1)
    edges = ints('edges', (n_edges, 2), 0, n_nodes)
    u = real('u', n_nodes, n_states)
    d = [n_edges, n_states, n_states]
    at, n = choice('dimension', [0, 1, 2]), dim('wrong', 0)
    assume(n != d[at])
    d[at] = n
    ensure_raises('rejected', lp_general_graph, u, edges, real('p', d[0], d[1], d[2]))
