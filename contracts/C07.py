"""C07: the inference front end passes problems on unchanged, decodes what the solver returns and reports its energy."""
import numpy as np
from pv.dsl import *          # noqa
from contracts.common import (score, recorder, graph, chain, edge_feature_graph, grid, multi_label, latent_graph,
                              latent_grid, latent_node, typed, Typed, Instance)
from pystruct.models import (GraphCRF, EdgeFeatureGraphCRF, GridCRF, DirectionalGridCRF, ChainCRF, MultiLabelClf,
                             LatentGraphCRF, LatentNodeCRF, EdgeFeatureLatentNodeCRF, LatentGridCRF,
                             LatentDirectionalGridCRF, NodeTypeEdgeFeatureGraphCRF)
from pystruct.inference import compute_energy, inference_dispatch
from pystruct.inference.inference_methods import inference_ad3, inference_lp
from pystruct.inference.linear_programming import solve_lp


class Problem(object):
    """potentials of any size, with one pairwise matrix for all edges or one for each"""
    def __init__(self):
        n, k = dim('n_nodes', 1), dim('n_states', 1)
        m = dim('n_edges', 0)
        self.n, self.k, self.m = n, k, m
        self.unary = real('unary', n, k)
        self.edges = ints('edges', (m, 2), 0, n)
        if choice('matrices', ['one', 'per edge']) == 'one':
            self.pairwise = real('pairwise', k, k)
        else:
            self.pairwise = real('pairwise', m, k, k)

    def entry(self, e, i, j):
        return self.pairwise[i, j] if self.pairwise.ndim == 2 else self.pairwise[e, i, j]

    def passed(self, unary, edges, pairwise, sign=1):
        ensure_eq('unary potentials passed on', unary, array_of((self.n, self.k), lambda i, s: sign * self.unary[i, s]))
        ensure_eq('edges passed on', edges, self.edges)
        ensure_eq('pairwise potentials passed on', pairwise,
                  array_of((self.m, self.k, self.k), lambda e, i, j: sign * self.entry(e, i, j)))


class Answer(object):
    """what a linear-programming type of solver returns"""
    def __init__(self, p):
        self.unary = real('unary_marginals', p.n, p.k)
        self.pairwise = real('pairwise_marginals', p.m, p.k * p.k)
        self.energy = real('solver_energy')

    def labels(self):
        k = self.unary.shape[1]
        return array_of((self.unary.shape[0],), lambda i: ARGMAX(k, lambda s: self.unary[i, s]), 'i')

    def relaxed(self, what, y):
        ensure(what + ': pair of marginals', isinstance(y, tuple) and len(y) == 2)
        ensure_eq(what + ': unary marginals', y[0], self.unary)
        ensure_eq(what + ': pairwise marginals', y[1], self.pairwise)


def ad3(p, answer, status, exact):
    def general_graph(unaries, edges, edge_weights, verbose=1, n_iterations=1000, eta=0.1, exact=False):
        p.passed(unaries, edges, edge_weights)
        ensure_eq('branch and bound passed on', exact, want)
        return answer.unary, answer.pairwise, answer.energy, status
    want = exact
    stub('ad3.general_graph', general_graph)


def ask(p, method, **options):
    """the front end with the options given as keywords or together with the name of the method"""
    own = {k: v for k, v in options.items() if k not in ('relaxed', 'return_energy')}
    rest = {k: v for k, v in options.items() if k in ('relaxed', 'return_energy')}
    how = choice('options', ['keywords', 'with the name', 'both'])
    if how == 'keywords':
        return inference_dispatch(p.unary, p.pairwise, p.edges, method, **options)
    if how == 'both':       # options given with the name come first
        own = {k: v for k, v in options.items() if k != 'return_energy'}
        rest = {k: not v if k == 'relaxed' else v for k, v in options.items() if k in ('relaxed', 'return_energy')}
    keep = dict(own)
    y = inference_dispatch(p.unary, p.pairwise, p.edges, (method, own), **rest)
    ensure('options of the method kept', own == keep)
    return y


def check(answer, y, relaxed, energy, sign):
    if energy:
        ensure('labelling and energy', isinstance(y, tuple) and len(y) == 2)
        ensure_eq('energy', y[1], sign * answer.energy)
        y = y[0]
    if relaxed:
        answer.relaxed('relaxed', y)
    else:
        ensure_eq('labels', y, answer.labels())


def c_ad3():
    """AD3 gets the problem and its answer is decoded"""
    p = Problem()
    answer = Answer(p)
    status = choice('status', ['integer', 'fractional', 'unsolved'])
    relaxed, energy, exact = choice('relaxed', [False, True]), choice('energy', [False, True]), choice('exact', [False, True])
    ad3(p, answer, status, exact)
    y = ask(p, 'ad3', relaxed=relaxed, return_energy=energy, branch_and_bound=exact)
    check(answer, y, relaxed and status != 'integer', energy, -1)


def c_ad3_defaults():
    """without options: rounded labels only"""
    p = Problem()
    answer = Answer(p)
    ad3(p, answer, choice('status', ['integer', 'fractional', 'unsolved']), False)
    y = inference_dispatch(p.unary, p.pairwise, p.edges, choice('method', ['ad3', ('ad3', {})]))
    ensure_eq('labels', y, answer.labels())


def c_lp():
    """the linear program gets the negated potentials and its answer is decoded"""
    p = Problem()
    answer = Answer(p)

    def lp_general_graph(unaries, edges, edge_weights):
        p.passed(unaries, edges, edge_weights, -1)
        return answer.unary, answer.pairwise, answer.energy
    stub('pystruct.inference.linear_programming.lp_general_graph', lp_general_graph)
    relaxed, energy = choice('relaxed', [False, True]), choice('energy', [False, True])
    y = ask(p, 'lp', relaxed=relaxed, return_energy=energy)
    # the objective of the program is minus the score already
    check(answer, y, relaxed, energy, 1)


def c_lp_image():
    """nodes on a grid: labels and relaxed marginals come back in the shape of the input"""
    h, w, k = dim('height', 1), dim('width', 1), dim('n_states', 1)
    m = dim('n_edges', 0)
    unary, pairwise, edges = real('unary', h, w, k), real('pairwise', k, k), ints('edges', (m, 2), 0, h * w)
    um, pm = real('unary_marginals', h * w, k), real('pairwise_marginals', m, k * k)

    def lp_general_graph(unaries, e, edge_weights):
        ensure_eq('unary potentials', unaries, -unary.reshape(-1, k))
        return um, pm, real('solver_energy')
    stub('pystruct.inference.linear_programming.lp_general_graph', lp_general_graph)
    relaxed = choice('relaxed', [False, True])
    y = inference_dispatch(unary, pairwise, edges, 'lp', relaxed=relaxed)
    if relaxed:
        ensure_eq('unary marginals', y[0], array_of((h, w, k), lambda a, b, s: um[a * w + b, s]))
        ensure_eq('pairwise marginals', y[1], pm)
    else:
        ensure_eq('labels', y, array_of((h, w), lambda a, b: ARGMAX(k, lambda s: um[a * w + b, s]), 'i'))


def c_ad3_image():
    """nodes on a grid: AD3 gets them in row order and relaxed marginals come back in the shape of the input"""
    h, w, k = dim('height', 1), dim('width', 1), dim('n_states', 1)
    m = dim('n_edges', 0)
    unary, pairwise, edges = real('unary', h, w, k), real('pairwise', k, k), ints('edges', (m, 2), 0, h * w)
    um, pm = real('unary_marginals', h * w, k), real('pairwise_marginals', m, k * k)

    def general_graph(unaries, e, edge_weights, verbose=1, n_iterations=1000, eta=0.1, exact=False):
        ensure_eq('unary potentials', unaries, unary.reshape(-1, k))
        return um, pm, real('solver_energy'), 'fractional'
    stub('ad3.general_graph', general_graph)
    relaxed = choice('relaxed', [False, True])
    y = inference_dispatch(unary, pairwise, edges, 'ad3', relaxed=relaxed)
    if relaxed:
        ensure_eq('unary marginals', y[0], array_of((h, w, k), lambda a, b, s: um[a * w + b, s]))
        ensure_eq('pairwise marginals', y[1], pm)
    else:
        ensure_eq('labels', y.reshape(-1), array_of((h * w,), lambda i: ARGMAX(k, lambda s: um[i, s]), 'i'))


def c_ad3_types():
    """several node types: per-type labels are offset by the numbers of states of the types before"""
    n = [dim('n_nodes%d' % t, 1) for t in range(2)]
    k = [dim('n_states%d' % t, 1) for t in range(2)]
    unary = [real('unary%d' % t, n[t], k[t]) for t in range(2)]
    um = [real('marginals%d' % t, n[t], k[t]) for t in range(2)]
    pm = [real('pairwise_marginals%d' % t, dim('n_edges%d' % t, 0), k[t % 2] * k[t // 2]) for t in range(4)]
    edges, pairwise, energy = ['edges'], ['pairwise'], real('solver_energy')
    method = choice('method', ['ad3', 'ad3+'])
    status = choice('status', ['integer', 'fractional', 'unsolved'])
    relaxed, exact, with_energy = choice('relaxed', [False, True]), choice('exact', [False, True]), choice('energy', [False, True])
    refuse = choice('inference_exception', [False, True])
    asked = []
    hard = ['constraint']

    def passed(u, e, p, exact_):
        ensure('problem passed on', u is unary and e is edges and p is pairwise and exact_ is exact)
        asked.append(1)
        return um, pm, energy, status

    def general_graph(u, e, p, verbose=1, n_iterations=1000, eta=0.1, exact=False):
        return passed(u, e, p, exact)

    def general_constrained_graph(u, e, p, constraints, verbose=1, n_iterations=1000, eta=0.1, exact=False):
        ensure('constraints passed on', constraints is hard)
        return passed(u, e, p, exact)
    stub('ad3.general_graph', general_graph)
    stub('ad3.general_constrained_graph', general_constrained_graph)
    options = dict(relaxed=relaxed, return_energy=with_energy, branch_and_bound=exact, inference_exception=refuse)
    if method == 'ad3+':
        options['constraints'] = hard
    if status != 'integer' and refuse and not relaxed:
        ensure_raises('refused', inference_dispatch, unary, pairwise, edges, method, **options)
        return
    y = inference_dispatch(unary, pairwise, edges, method, **options)
    ensure('the solver is asked once', len(asked) == 1)
    if with_energy:
        ensure_eq('energy', y[1], -energy)
        y = y[0]
    if relaxed and status != 'integer':
        ensure('marginals of all types', y[0] is um and y[1] is pm)
    else:
        ensure_eq('labels', y, array_of((n[0] + n[1],), lambda i: IF(
            i < n[0], ARGMAX(k[0], lambda s: um[0][IF(i < n[0], i, 0), s]),
            k[0] + ARGMAX(k[1], lambda s: um[1][IF(i < n[0], 0, i - n[0]), s])), 'i'))


def c_ad3_constrained():
    """hard constraints reach the solver and its answer is decoded"""
    p = Problem()
    answer = Answer(p)
    hard = choice('constraints', [None, ['constraint']])
    status = choice('status', ['integer', 'fractional', 'unsolved'])
    relaxed, energy = choice('relaxed', [False, True]), choice('energy', [False, True])

    def general_constrained_graph(u, e, pw, constraints, verbose=1, n_iterations=1000, eta=0.1, exact=False):
        ensure('problem passed on', u is p.unary and e is p.edges and pw is p.pairwise)
        ensure('constraints passed on', constraints is hard)
        return answer.unary, answer.pairwise, answer.energy, status
    stub('ad3.general_constrained_graph', general_constrained_graph)
    y = inference_dispatch(p.unary, p.pairwise, p.edges, 'ad3+', relaxed=relaxed, return_energy=energy, constraints=hard)
    check(answer, y, relaxed and status != 'integer', energy, -1)


def c_unary():
    """the method without pairwise terms: best state of each node"""
    p = Problem()
    y = ask(p, 'unary')
    ensure_eq('labels', y, array_of((p.n,), lambda i: ARGMAX(p.k, lambda s: p.unary[i, s]), 'i'))


def c_max_product():
    """max-product gets the problem and its options"""
    p = Problem()
    answer = ints('answer', (p.n,), 0, p.k)
    tree, iterations = choice('tree', [None, False, True]), choice('max_iter', [30, 7])

    def inference_max_product(unary_potentials, pairwise_potentials, edges, max_iter=30, damping=0.5, tol=1e-5, relaxed=None):
        ensure('problem passed on', unary_potentials is p.unary and pairwise_potentials is p.pairwise and edges is p.edges)
        ensure('options passed on', max_iter == iterations)
        return answer
    stub('pystruct.inference.maxprod.inference_max_product', inference_max_product)
    y = ask(p, 'max-product', max_iter=iterations)
    ensure_eq('labels', y, answer)


def c_max_product_routes():
    """max-product: chains, forests and other graphs go to their own algorithm, the last with its options"""
    p = Problem()
    kind = choice('graph', ['chain', 'forest', 'cycle'])
    answer = ints('answer', (p.n,), 0, p.k)
    iterations, damp, small = choice('max_iter', [30, 7]), real('damping'), pos_real('tol')
    used = []

    def asked(edges, n_vertices):
        ensure('edges of the problem', edges is p.edges)
        ensure_eq('its nodes', n_vertices, p.n)
    stub('pystruct.inference.maxprod.is_chain', lambda edges, n_vertices: asked(edges, n_vertices) or kind == 'chain')
    stub('pystruct.utils.graph_functions.is_forest', lambda edges, n_vertices: asked(edges, n_vertices) or kind != 'cycle')

    def run(name):
        def solve(unary, pairwise, edges=None, max_iter=None, damping=None, tol=None):
            p.passed(unary, p.edges if name == 'chain' else edges, pairwise)
            if name == 'cycle':
                ensure('options passed on', max_iter == iterations)
                ensure_eq('damping passed on', damping, damp)
                ensure_eq('tolerance passed on', tol, small)
            used.append(name)
            return answer
        return solve
    stub('pystruct.inference._viterbi.viterbi', run('chain'))
    stub('pystruct.inference.maxprod.tree_max_product', run('forest'))
    stub('pystruct.inference.maxprod.iterative_max_product', run('cycle'))
    y = inference_dispatch(p.unary, p.pairwise, p.edges, 'max-product', max_iter=iterations, damping=damp, tol=small)
    ensure('its own algorithm', used == [kind])
    ensure_eq('labels', y, answer)


def c_qpbo():
    """the QPBO backend gets negated scaled potentials; its labels are returned"""
    p = Problem()
    answer = ints('answer', (p.n,), 0, p.k)

    def alpha_expansion_general_graph(edges, unaries, pairwise, **options):
        ensure_eq('edges passed on', edges, p.edges)
        ensure_eq('shape of unary potentials', array_of((2,), lambda i: unaries.shape[i], 'i'), [p.n, p.k])
        ensure('unary potentials, scaled and cut to integers', ALL(p.n, lambda i: ALL(p.k, lambda s: AND(
            unaries[i, s] + 1000 * p.unary[i, s] < 1, unaries[i, s] + 1000 * p.unary[i, s] > -1))))
        ensure('pairwise potentials, scaled and cut to integers', ALL(p.m, lambda e: ALL(p.k, lambda i: ALL(p.k, lambda j:
            AND(pairwise[e, i, j] + 1000 * p.entry(e, i, j) < 1, pairwise[e, i, j] + 1000 * p.entry(e, i, j) > -1)))))
        return answer
    stub('pyqpbo.alpha_expansion_general_graph', alpha_expansion_general_graph)
    y = ask(p, 'qpbo')
    ensure_eq('labels', y, answer)


class Gm(object):
    """the graphical model OpenGM builds: functions and the variables they are applied to"""
    def __init__(self, p, sizes):
        ensure_eq('numbers of states', sizes, array_of((p.n,), lambda i: 1.0 * p.k))
        self.p, self.functions, self.factors = p, [], []

    def reserveFactors(self, n):
        pass

    def reserveFunctions(self, n, kind):
        pass

    def addFunctions(self, f):
        self.functions.append(f)
        return len(self.functions) - 1

    def addFactors(self, fid, variables):
        self.factors.append((fid, variables))

    def evaluate(self, labels):
        return self.p.value


class Solver(object):
    def __init__(self, p, gm):
        self.p, self.start = p, None
        ensure('two kinds of factors', len(gm.factors) == 2 and len(gm.functions) == 2)
        p.passed(gm.functions[gm.factors[0][0]], gm.factors[1][1], gm.functions[gm.factors[1][0]], -1)
        ensure_eq('unary factors', gm.factors[0][1], array_of((p.n,), lambda i: i, 'i'))

    def setStartingPoint(self, start):
        self.start = start

    def infer(self):
        pass

    def arg(self):
        return self.p.answer


NAMES = (('bp', 'BeliefPropagation'), ('dd', 'DualDecompositionSubgradient'), ('trws', 'TrwsExternal'),
         ('trw', 'TreeReweightedBp'), ('gibbs', 'Gibbs'), ('lf', 'LazyFlipper'), ('icm', 'Icm'), ('dyn', 'DynamicProgramming'),
         ('fm', 'AlphaExpansionFusion'), ('gc', 'GraphCut'), ('loc', 'Loc'), ('mqpbo', 'Mqpbo'), ('alphaexp', 'AlphaExpansion'))


def c_ogm():
    """OpenGM gets the negated potentials and the solver that was named; its labels and energy are returned"""
    p = Problem()
    p.answer, p.value = ints('answer', (p.n,), 0, p.k), real('value')
    alg = choice('alg', [a for a, _ in NAMES] + [None])
    used = []

    def solver(name):
        def make(gm):
            used.append(name)
            return Solver(p, gm)
        return make
    stub('opengm.gm', lambda sizes: Gm(p, sizes))
    stub('opengm.label_type', np.int64)
    stub('opengm.value_type', np.float64)
    for _, name in NAMES:
        stub('opengm.inference.' + name, solver(name))
    energy = choice('energy', [False, True])
    y = inference_dispatch(p.unary, p.pairwise, p.edges, 'ogm' if alg is None else ('ogm', {'alg': alg}), return_energy=energy)
    ensure('the solver named', used == [dict(NAMES)['dd' if alg is None else alg]])
    if energy:
        ensure_eq('energy', y[1], p.value)
        y = y[0]
    ensure_eq('labels', y, p.answer)


def c_unknown():
    """unknown methods are rejected"""
    p = Problem()
    name = choice('method', ['AD3', '', 'maxproduct', 'ad3++', None, 'LP', 'unknown'])
    ensure_raises('unknown method', inference_dispatch, p.unary, p.pairwise, p.edges,
                  name if choice('tuple', [False, True]) else (name, {}))


def c_energy():
    """the public energy function sums the selected entries"""
    p = Problem()
    y = ints('y', (p.n,), 0, p.k)
    ensure_eq('energy', compute_energy(p.unary, p.pairwise, p.edges, y), score(p.unary, p.pairwise, p.edges, y))


def c_shapes():
    """pairwise potentials of another shape are rejected by every method of the package"""
    n, k, m = dim('n_nodes', 1), dim('n_states', 1), dim('n_edges', 0)
    unary, edges = real('unary', n, k), ints('edges', (m, 2), 0, n)
    a, b = dim('a', 0), dim('b', 0)
    if choice('rank', [2, 3]) == 2:
        assume(NOT(AND(a == k, b == k)))
        pairwise = real('pairwise', a, b)
    else:
        c = dim('c', 0)
        assume(NOT(AND(c == m, a == k, b == k)))
        pairwise = real('pairwise', c, a, b)
    for method in ('ad3', 'lp', 'unary', 'max-product'):
        ensure_raises(method, inference_dispatch, unary, pairwise, edges, method)
    ensure_raises('energy', compute_energy, unary, pairwise, edges, ints('y', (n,), 0, k))


def c_solve_lp():
    """the linear program with one matrix for all edges"""
    p = Problem()
    assume(p.pairwise.ndim == 2)
    answer = Answer(p)

    def lp_general_graph(unaries, edges, edge_weights):
        p.passed(unaries, edges, edge_weights)
        return answer.unary, answer.pairwise, answer.energy
    stub('pystruct.inference.linear_programming.lp_general_graph', lp_general_graph)
    um, pm, energy = solve_lp(p.unary, p.edges, p.pairwise)
    answer.relaxed('answer', (um, pm))
    ensure_eq('energy', energy, answer.energy)


def c_models():
    """the models ask the front end for their configured method, with the caller's flags, and return its answer"""
    check_flags({'graph': graph, 'chain': chain, 'edge features': edge_feature_graph, 'multi-label': multi_label,
                 'latent graph': latent_graph})


def c_latent_node_models():
    """likewise for latent nodes"""
    check_flags({'latent node': latent_node, 'latent node with edge features': lambda: latent_node('none', True)})


def c_typed_models():
    """likewise for several types of nodes"""
    def types():
        t = Typed(2, busy=True)
        return Instance(t.model, t.x, sum(t.n_nodes), lambda name: t.flat(t.draw(name)), sum(t.n_states),
                        lambda y, i: y[i])
    check_flags({'types': types})


def check_flags(kinds):
    s = kinds[choice('model', list(kinds))]()
    relaxed, energy = choice('flags', [(False, False), (True, False), (False, True)])
    w = real('w', s.model.size_joint_feature)
    answer = s.flat(s.draw('answer'))
    calls = recorder(answer)
    if choice('augmented', [False, True]):
        answered = s.model.loss_augmented_inference(s.x, s.draw('y'), w, relaxed=relaxed, return_energy=energy)
    else:
        answered = s.model.inference(s.x, w, relaxed=relaxed, return_energy=energy)
    ensure('one request', len(calls) == 1)
    ensure('method of the model', calls[0][3] == s.model.inference_method)
    ensure('relaxed as asked for', calls[0][4] == relaxed)
    ensure('energy as asked for', calls[0][5] == energy)
    ensure('answer returned', answered is answer)


def c_grid_models():
    """likewise for grids; the answer has the shape of the grid"""
    latent, directional = choice('latent', [False, True]), choice('directional', [False, True])
    s = latent_grid(directional) if latent else grid(directional)
    relaxed = choice('relaxed', [False, True])
    w = real('w', s.model.size_joint_feature)
    h, wd = s.x.shape[0], s.x.shape[1]
    n, k = h * wd, s.model.n_states
    marginals, edge_marginals = real('marginals', n, k), real('edge_marginals', dim('rows', 0), k * k)
    flat = ints('answer', (n,), 0, k)
    calls = recorder((marginals, edge_marginals) if relaxed else flat)
    if choice('augmented', [False, True]):
        answered = s.model.loss_augmented_inference(s.x, s.draw('y'), w, relaxed=relaxed)
    else:
        answered = s.model.inference(s.x, w, relaxed=relaxed)
    ensure('one request', len(calls) == 1)
    ensure('method of the model', calls[0][3] == s.model.inference_method)
    ensure('relaxed as asked for', calls[0][4] == relaxed)
    if relaxed:
        ensure_eq('marginals', answered[0], array_of((h, wd, k), lambda i, j, a: marginals[i * wd + j, a]))
        ensure_eq('marginals of the edges', answered[1], edge_marginals)
    else:
        ensure_eq('labels', answered, array_of((h, wd), lambda i, j: flat[i * wd + j], 'i'))


def c_model_constraints():
    """hard constraints given to a model's inference reach the front end"""
    kinds = {'graph': graph, 'chain': chain, 'edge features': edge_feature_graph, 'types': lambda: typed(2)}
    s = kinds[choice('model', list(kinds))]()
    w = real('w', s.model.size_joint_feature)
    given, seen = [('XOR', [0], [False], [1])], []

    def dispatch(unary, pairwise, edges, method, relaxed=False, return_energy=False, **kwargs):
        seen.append(kwargs.get('constraints'))
        return None
    stub('pystruct.inference.inference_methods.inference_dispatch', dispatch)
    s.model.inference(s.x, w, constraints=given)
    s.model.inference(s.x, w)
    ensure('constraints passed on', seen[0] is given)
    ensure('none given', not seen[1])


def c_configured():
    """the method configured for a model is the one it uses"""
    method = choice('method', ['lp', 'unary', ('ad3', {'branch_and_bound': True}), 'max-product'])
    kinds = {'graph': lambda: GraphCRF(n_states=2, n_features=3, inference_method=method),
             'chain': lambda: ChainCRF(n_states=2, n_features=3, inference_method=method),
             'edge features': lambda: EdgeFeatureGraphCRF(n_states=2, n_features=3, n_edge_features=1,
                                                          inference_method=method),
             'multi-label': lambda: MultiLabelClf(n_labels=2, n_features=3, inference_method=method),
             'grid': lambda: GridCRF(n_states=2, n_features=3, inference_method=method),
             'directional grid': lambda: DirectionalGridCRF(n_states=2, n_features=3, inference_method=method),
             'latent graph': lambda: LatentGraphCRF(n_labels=2, n_features=3, inference_method=method),
             'latent grid': lambda: LatentGridCRF(n_labels=2, n_features=3, inference_method=method),
             'latent directional grid': lambda: LatentDirectionalGridCRF(n_labels=2, n_features=3,
                                                                         inference_method=method),
             'latent node': lambda: LatentNodeCRF(n_labels=2, n_features=3, inference_method=method),
             'latent node with edge features': lambda: EdgeFeatureLatentNodeCRF(n_labels=2, n_features=3,
                                                                                inference_method=method)}
    model = kinds[choice('model', list(kinds))]()
    ensure('configured method', model.inference_method == method)
    name = choice('typed method', ['ad3', 'ad3+'])
    typed_model = NodeTypeEdgeFeatureGraphCRF(1, [2], [3], [[1]], inference_method=name)
    ensure('configured method of typed graphs', typed_model.inference_method == name)
