"""Maximum flow (C28) over the abstract graph.  CAP(u, v): capacity (0 where there is no edge).  FL: the flow as a ghost matrix, the dictionary
`flow_passed` holds it (0 where it has no entry).  total(row): the sum of a row over the vertices."""
from .common import *
from .graphs import G, VT, NV, nodeof, SetK, IK, KI, GN, fk, names, named, pigeon, nb, deg
from .topo import VS, ei, PE, VERTICES, k_, l_
from . import register
from pyvc.values import dt
from pyvc.builtins_ import has_ite

KR = z3.ArraySort(K, RealS)
KKR = z3.ArraySort(K, KR)
CAP = z3.Function('CAP', K, K, RealS)
total = z3.Function('total', KR, RealS)
r_ = z3.Const('row', KR)
x_ = z3.Real('x')
s_, t_ = z3.Const('source', K), z3.Const('sink', K)
INF = z3.Real('infinity')
CAPS = And(INF > 0, ForAll([k_, l_], And(CAP(k_, l_) >= 0, Implies(CAP(k_, l_) > 0, PE(k_, l_))), patterns=[CAP(k_, l_)]))
ZERO = z3.K(K, z3.RealVal(0))
SUMS = And(total(ZERO) == 0, ForAll([r_, k_, x_], Implies(VT(k_), total(Store(r_, k_, x_)) == total(r_) + x_ - r_[k_]), patterns=[total(Store(r_, k_, x_))]))
PAIR = ('tuple', 'key', 'key')
PS, p_mk = dt(PAIR)[:2]
FLOW = (PAIR, 'real')
ITEM = ('tuple', 'key', 'real')
IS, i_mk, i_v, i_r = dt(ITEM)[:4]
SUM_TEXT = 'the sum of a row over the vertices: 0 for the zero row, changing one entry changes it by the difference'
INF_TEXT = "float('inf') is a number above all others; float arithmetic is exact"


FLOWOF = z3.Function('flow_of', z3.ArraySort(PS, BoolS), z3.ArraySort(PS, RealS), KKR)
fd, fm = z3.Const('fd', z3.ArraySort(PS, BoolS)), z3.Const('fm', z3.ArraySort(PS, RealS))
FLOWDEF = ForAll([fd, fm, k_, l_], FLOWOF(fd, fm)[k_][l_] == If(fd[p_mk(k_, l_)], fm[p_mk(k_, l_)], 0), patterns=[FLOWOF(fd, fm)[k_][l_], MultiPattern(FLOWOF(fd, fm), fd[p_mk(k_, l_)])])
TKR = z3.Function('flow_total', KKR, K, RealS)
FL_ = z3.Const('FL', KKR)


def flow(d):
    """the flow that a dictionary holds (named where the term is not fit for a pattern)"""
    t = FLOWOF(d.dom, d.map)
    if not has_ite(t):
        return t
    F = NAMED.setdefault(t.get_id(), (t, fresh_const('flow', KKR)))[1]
    d.st.assume(F == t)
    return F


NAMED = {}


def onvertices(d):
    return [('flow-on-vertices', ForAll([k_, l_], Implies(d.dom[p_mk(k_, l_)], And(VT(k_), VT(l_))), patterns=[d.dom[p_mk(k_, l_)]]))]


def legal(FL):
    return [('antisymmetric', ForAll([k_, l_], FL[k_][l_] == -FL[l_][k_], patterns=[FL[k_][l_]])), ('within-capacity', ForAll([k_, l_], FL[k_][l_] <= CAP(k_, l_), patterns=[FL[k_][l_]]))]


class _Flow(Contract):
    fields = {'name': 'key', 'value': 'real', 'source': GN, 'target': GN}
    axioms = (VERTICES, CAPS, FLOWDEF)
    assumes = ('neighbors(u) lists each neighbour once (C22); an edge without a value has capacity 0', INF_TEXT)
    DICTS = {'parent': ('key', 'key'), 'currentPathC': ('key', 'real'), 'flow_passed': FLOW}

    def dicthint(self, eng, st, o):
        return named(st, o, self.DICTS)

    def listhint(self, eng, st, o):
        return 'key'

    def inf_hook(self, eng, st, v):
        return INF

    def graph(self, x):
        return x.obj('AdjacencyList', _impl='adjacency_list', **{'@P': z3.Const('P_0', KI), '@C': z3.Const('C_0', KR)})


@register
class Residual(_Flow):
    """(v, residual capacity) for the neighbours and for the vertices from which flow comes"""
    name = G + '_residual_edges'
    verify_self = False

    def apply(self, eng, st, args, kw, node):
        eng.used_contracts.add(self.name)
        eng.unit.trust('_residual_edges(graph, u, flow) yields pairs (v, residual capacity of u -> v), among them all with a positive residual capacity')
        g, u, d = args
        D = wrap(eng, st, d)
        FL = flow(D)
        R = lambda k, l: CAP(k, l) - FL[k][l]
        for n, f in onvertices(D):
            eng.oblige('pre:residual-edges:' + n, st, f, getattr(node, 'lineno', 0))
        eng.oblige('pre:residual-edges:vertex', st, VT(u), getattr(node, 'lineno', 0))
        n, a, pos = fresh_const('n', IntS), fresh_const('items', z3.ArraySort(IntS, IS)), fresh_const('pos', KI)
        j = z3.Int('j')
        st.assume(And(n >= 0, ForAll([j], Implies(rng(0, j, n), And(VT(i_v(a[j])), i_r(a[j]) == R(u, i_v(a[j])))), patterns=[a[j]]),
                      fk(lambda k: Implies(And(VT(k), R(u, k) > 0), And(0 <= pos[k], pos[k] < n, i_v(a[pos[k]]) == k)), lambda k: FL[u][k], lambda k: pos[k])))
        st.frames[st.fid]['@g_pos'] = pos
        return [(st, eng.new_cell(st, ArrRec(n, a, ITEM)))]


@register
class MF_bfs(_Flow):
    name = G + '_breadth_first_search_max_flow'
    uses = ('Residual',)
    variants = ('', 'dinic')

    def setup(self, x):
        return [self.graph(x), s_, t_, x.dict('flow_passed', *FLOW)] + ([True] if x.variant == 'dinic' else []), {}

    def pre(self, c):
        return [('source-and-sink', And(VT(self.s(c)), VT(self.t(c)), self.s(c) != self.t(c)))] + onvertices(c.o('flow_passed'))

    def s(self, c): return c.params['source_node']
    def t(self, c): return c.params['sink_node']

    def result(self, c):
        return ('tuple', 'real', ('dict', 'key', 'key'))

    def all(self, c):
        return c.params['for_dinic'] is True

    def modifies(self, c):
        return [('fld', c.raw('graph'), '@C', 'ghost'), ('fld', c.raw('graph'), '@P', 'ghost')]

    def ghosts_post(self, c):
        if c.calling:
            C, P = fresh_const('C', KR), fresh_const('P', KI)
        else:
            C, P = self.ghosts(c)
        return [(c.raw('graph'), '@C', C), (c.raw('graph'), '@P', P)]

    def ghosts(self, c):
        return c.eng.as_dict(c.new, c.eng.rec(c.new, c.local('currentPathC').v), 'key', 'real').map, (c.local('@g_P') if self.all(c) else Store(c.local('@g_P'), self.t(c), c.local('@g_m')))

    def post(self, c):
        FL = flow(c.o('flow_passed'))
        got, parent = c.res_v
        got, d = c.eng.encode(c.new, got, 'real'), c.P(parent)
        C, P = c.n('graph').g_C, c.n('graph').g_P
        s, t = self.s(c), self.t(c)
        S = lambda k: Or(k == s, d.dom[k])
        R = lambda k, l: CAP(k, l) - FL[k][l]
        tree = fk(lambda k: Implies(d.dom[k], And(VT(k), k != s, S(d.map[k]), VT(d.map[k]), 0 <= P[d.map[k]], P[d.map[k]] < P[k], P[k] <= NV, C[k] > 0, C[k] <= R(d.map[k], k), C[k] <= C[d.map[k]])), lambda k: d.map[k], lambda k: d.dom[k], lambda k: P[k])
        cut = ForAll([k_, l_], Implies(And(S(k_), VT(k_), VT(l_), Not(S(l_))), R(k_, l_) <= 0), patterns=[FL[k_][l_]])
        return [('tree', tree), ('source', And(P[s] == 0, NV >= 1)), ('path', Implies(got != 0, And(got > 0, d.dom[t], got == C[t]))), ('cut', cut if self.all(c) else Implies(got == 0, cut))] + \
            ([] if self.all(c) else [('no-path', Implies(got == 0, Not(d.dom[t])))])

    def loops(self, u):
        def inv(v, inner):
            FL, d, C, q = flow(v.flow_passed), v.parent, v.currentPathC, v.bfs_queue
            Q, P, m, h = [v.g(x) for x in ('Q', 'P', 'm', 'h')]
            s, t = v.source_node, v.sink_node
            S = lambda k: And(0 <= P[k], P[k] < m, Q[P[k]] == k)
            R = lambda k, l: CAP(k, l) - FL[k][l]
            first = h + 1 if inner else h
            pos = v.local('@g_pos') if inner else None
            done = (lambda k, l: Or(P[k] < h, And(P[k] == h, pos[l] < v.it))) if inner else (lambda k, l: P[k] < h)
            out = [('discovered', And(m >= 1, Q[0] == s, fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j)), lambda j: Q[j]))),
                   ('tree-or-source', fk(lambda k: And(d.dom[k] == And(S(k), k != s), C.dom[k] == S(k)), lambda k: d.dom[k], lambda k: C.dom[k], lambda k: P[k])),
                   ('source', And(P[s] == 0, C.map[s] > 0)),
                   ('tree', fk(lambda k: Implies(d.dom[k], And(S(d.map[k]), P[d.map[k]] < P[k], C.map[k] > 0, C.map[k] <= R(d.map[k], k), C.map[k] <= C.map[d.map[k]])), lambda k: d.map[k], lambda k: d.dom[k])),
                   ('processed', ForAll([k_, l_], Implies(And(S(k_), VT(l_), R(k_, l_) > 0, done(k_, l_)), S(l_)), patterns=[FL[k_][l_]])),
                   ('queue', And(0 <= h, first <= m, q.len == m - first, fa('i', lambda i: Implies(rng(0, i, q.len), q.arr[i] == Q[first + i]), lambda i: q.arr[i])))]
            if v.eng.unit.variant == '':
                out += [('sink-not-found', Not(d.dom[t]))]
            if inner:
                out += [('current', And(v.curr_node == Q[h], h < m))]
            return out

        def step2(v, h):
            n = v.next_node
            more = v.bfs_queue.len > h.bfs_queue.len
            m = h.g('m')
            return {'Q': v.define('Q1', lambda j: If(And(more, j == m), n, h.g('Q')[j]), IntS), 'P': v.define('P1', lambda k: If(And(more, k == n), m, h.g('P')[k]), K), 'm': If(more, m + 1, m)}
        return {1: LoopSpec(inv=lambda v: inv(v, False), ghosts=('Q', 'P', 'm', 'h'), ghost_step=lambda v: {'h': v.g('h') + 1},
                            ghost_init=lambda v: {'Q': Store(z3.Const('Q0', IK), 0, v.source_node), 'P': Store(z3.K(K, IntVal(-1)), v.source_node, IntVal(0)), 'm': IntVal(1), 'h': IntVal(0)},
                            assume_head=lambda v: [pigeon.use(v.g('Q'), v.g('P'), v.g('m'))], variant=lambda v: NV - v.g('h')),
                2: LoopSpec(inv=lambda v: inv(v, True), ghosts=('Q', 'P', 'm'), ghost_step=step2, assume_head=lambda v: [pigeon.use(v.g('Q'), v.g('P'), v.g('m'))])}


def added(FL, k, l, x):
    """x units more from k to l"""
    return Store(Store(FL, k, Store(FL[k], l, FL[k][l] + x)), l, Store(FL[l], k, FL[l][k] - x))


def net(FLn, FLo, terms):
    """the net flow out of every vertex has changed by the terms"""
    return ForAll([k_], Implies(VT(k_), total(FLn[k_]) == total(FLo[k_]) + sum([If(k_ == k, x, 0) for k, x in terms], z3.RealVal(0))), patterns=[FLn[k_]])


def push_lemmas(FLn, FLo, k, l, x, r):
    """the dictionary after the two assignments"""
    return [('push', Implies(r, FLn == added(FLo, k, l, x))),
            ('push-net', Implies(r, net(FLn, FLo, [(k, x), (l, -x)])))]


@register
class EdmondsKarp(_Flow):
    """The result is the value of a legal flow; at the end every edge that leaves the set of the vertices that can be reached is saturated, the
    sink is not among them: by weak duality no flow has a larger value."""
    name = G + '_max_flow_edmonds_karp_'
    uses = ('MF_bfs',)
    axioms = _Flow.axioms + (SUMS,)
    DICTS = {'parent': ('key', 'key'), 'flow_passed': FLOW}
    assumes = _Flow.assumes + (SUM_TEXT, 'weak duality: no flow has a larger value than the capacity of a cut', 'termination of the loop over the augmenting paths')

    def setup(self, x):
        return [self.graph(x), s_, t_], {}

    def pre(self, c):
        return [('source-and-sink', And(VT(s_), VT(t_), s_ != t_))]

    def post(self, c):
        if c.calling:
            return []
        FL, d = flow(c.local('flow_passed')), c.local('parent')
        S = lambda k: Or(k == s_, d.dom[k])
        value = c.eng.encode(c.new, c.res_v, 'real')
        return legal(FL) + [('conserved', ForAll([k_], Implies(And(VT(k_), k_ != s_, k_ != t_), total(FL[k_]) == 0), patterns=[FL[k_]])), ('value', value == total(FL[s_])), ('value-at-sink', value == -total(FL[t_])),
                            ('cut', And(S(s_), Not(S(t_)))), ('cut-saturated', ForAll([k_, l_], Implies(And(S(k_), VT(k_), VT(l_), Not(S(l_))), CAP(k_, l_) - FL[k_][l_] <= 0), patterns=[FL[k_][l_]]))]

    def loops(self, u):
        def outer(v):
            FL, d, C, P, new = flow(v.flow_passed), v.parent, v.graph.g_C, v.graph.g_P, v.new_flow
            S = lambda k: Or(k == s_, d.dom[k])
            m = v.m_flow
            return legal(FL) + onvertices(v.flow_passed) + [
                ('net', ForAll([k_], Implies(VT(k_), total(FL[k_]) == If(k_ == s_, m, If(k_ == t_, -m, 0))), patterns=[FL[k_]]))] + self.found(v, FL)

        def inner(v):
            FL, FL0, d, C, P, new, cur = flow(v.flow_passed), flow(v.entry.flow_passed), v.parent, v.graph.g_C, v.graph.g_P, v.new_flow, v.current
            return legal(FL) + onvertices(v.flow_passed) + [
                ('current', And(VT(cur), Or(cur == s_, d.dom[cur]), new <= C[cur], P[cur] >= 0)),
                ('untouched', ForAll([k_, l_], Implies(And(P[k_] <= P[cur], P[l_] <= P[cur]), FL[k_][l_] == FL0[k_][l_]), patterns=[FL[k_][l_]])),
                ('net', net(FL, FL0, [(cur, new), (t_, -new)]))]
        return {1: LoopSpec(inv=outer, kinds={'m_flow': 'real', 'new_flow': 'real', 'current': 'key', 'prev': 'key', 'fp': 'real'}),
                2: LoopSpec(inv=inner, kinds={'current': 'key', 'prev': 'key', 'fp': 'real'}, variant=lambda v: v.graph.g_P[v.current],
                            end_lemmas=lambda v, h: push_lemmas(flow(v.flow_passed), flow(h.flow_passed), v.prev, h.current, v.new_flow, BoolVal(True)))}

    def found(self, v, FL):
        d, C, P, new = v.parent, v.graph.g_C, v.graph.g_P, v.new_flow
        S = lambda k: Or(k == s_, d.dom[k])
        R = lambda k, l: CAP(k, l) - FL[k][l]
        return [('tree', fk(lambda k: Implies(d.dom[k], And(VT(k), k != s_, S(d.map[k]), VT(d.map[k]), 0 <= P[d.map[k]], P[d.map[k]] < P[k], P[k] <= NV, C[k] > 0, C[k] <= R(d.map[k], k), C[k] <= C[d.map[k]])), lambda k: d.map[k], lambda k: d.dom[k], lambda k: P[k])),
                ('path', Implies(new != 0, And(new > 0, d.dom[t_], new == C[t_]))), ('no-path', Implies(new == 0, Not(d.dom[t_]))),
                ('cut', Implies(new == 0, ForAll([k_, l_], Implies(And(S(k_), VT(k_), VT(l_), Not(S(l_))), R(k_, l_) <= 0), patterns=[FL[k_][l_]])))]


@register
class Dinic_dfs(_Flow):
    """pushes flow along a path of the layered graph (the tree of the breadth-first search); on failure nothing changes"""
    name = G + '_depth_first_search_max_flow_dinic'
    rec_group = 'dinic'
    uses = ('Residual', 'Dinic_dfs')
    axioms = _Flow.axioms + (SUMS,)
    assumes = _Flow.assumes + (SUM_TEXT,)
    DICTS = {'parent': ('key', 'key'), 'flow_passed': FLOW}

    def setup(self, x):
        return [self.graph(x), z3.Const('u', K), x.dict('parent', 'key', 'key'), t_, z3.Real('flow'), x.dict('flow_passed', *FLOW)], {}

    def pre(self, c):
        P, d = c.o('graph').g_P, c.o('parent')
        u, t, x = c.params['u'], c.params['sink_node'], c.eng.encode(c.old, c.params['flow'], 'real')
        return [('vertices', And(VT(u), VT(t), 0 <= P[u], P[u] <= NV)), ('amount', x > 0),
                ('tree', fk(lambda k: Implies(d.dom[k], And(VT(k), P[d.map[k]] < P[k], P[k] <= NV)), lambda k: d.map[k], lambda k: d.dom[k], lambda k: P[k]))] + legal(flow(c.o('flow_passed'))) + onvertices(c.o('flow_passed'))

    def decreases(self, c):
        return NV - c.o('graph').g_P[c.params['u']]

    def apply(self, eng, st, args, kw, node):
        out = super().apply(eng, st, args, kw, node)
        for s, v in out:
            s.frames[s.fid]['@g_F1'] = flow(wrap(eng, s, args[5]))
        return out

    def lemmas_post(self, c):
        try:
            F = c.local('@g_F1')
        except Exception:
            return []
        got = c.eng.encode(c.new, c.res_v, 'real')
        return push_lemmas(flow(c.n('flow_passed')), F, c.params['u'], c.local('next_node'), got, got > 0) if F is not None else []

    def modifies(self, c):
        return [('dict', c.raw('flow_passed'))]

    def result(self, c):
        return 'real'

    def post(self, c):
        P = c.o('graph').g_P
        u, t, x = c.params['u'], c.params['sink_node'], c.eng.encode(c.old, c.params['flow'], 'real')
        FLn, FLo = flow(c.n('flow_passed')), flow(c.o('flow_passed'))
        got = c.eng.encode(c.new, c.res_v, 'real')
        return [('amount', And(0 <= got, got <= x)), ('failure', Implies(got == 0, FLn == FLo))] + legal(FLn) + onvertices(c.n('flow_passed')) + [
            ('net', net(FLn, FLo, [(u, got), (t, -got)])),
            ('untouched', ForAll([k_, l_], Implies(Or(P[k_] < P[u], P[l_] < P[u]), FLn[k_][l_] == FLo[k_][l_]), patterns=[FLn[k_][l_]]))]

    def loops(self, u):
        def inv(v):
            a, b = v.flow_passed, v.old.flow_passed
            return [('nothing-yet', flow(a) == flow(b))] + onvertices(a)
        return {1: LoopSpec(inv=inv, ghosts=())}


@register
class Dinic(EdmondsKarp):
    """as for Edmonds-Karp"""
    name = G + '_max_flow_dinic_'
    uses = ('MF_bfs', 'Dinic_dfs')
    assumes = EdmondsKarp.assumes[:-1] + ('termination of the two loops over the phases and paths',)

    def loops(self, u):
        def inv(v, inner):
            FL, m = flow(v.flow_passed), v.local('max_flow')
            out = legal(FL) + onvertices(v.flow_passed) + [('net', ForAll([k_], Implies(VT(k_), total(FL[k_]) == If(k_ == s_, m, If(k_ == t_, -m, 0))), patterns=[FL[k_]]))]
            if inner:
                d, P = v.parent, v.graph.g_P
                out += [('tree', fk(lambda k: Implies(d.dom[k], And(VT(k), P[d.map[k]] < P[k], P[k] <= NV)), lambda k: d.map[k], lambda k: d.dom[k], lambda k: P[k])), ('source', And(0 <= P[s_], P[s_] <= NV))]
            return out
        K_ = {'max_flow': 'real', 'next_flow': 'real', 'path_flow': 'real'}
        return {1: LoopSpec(inv=lambda v: inv(v, False), kinds=K_), 2: LoopSpec(inv=lambda v: inv(v, True), kinds=K_)}
