"""Prim's algorithm (C24): the tree grows by an edge that is lightest among those that leave it (cut property), until it holds every vertex that can
be reached.  Views: priority queue (C10, C11), the graph that is built (C22)."""
from .common import *
from .graphs import G, VT, NV, IX, fk, names, nb, deg
from .topo import VS, ei, PE, VERTICES, k_, l_
from .paths import _Paths, ekey, wt, EKEY, PQC, ORS, or_some, or_val, le, IK, KI, NBS, fin, INF_TEXT
from .scc import REACHES, RE, forward, LEAST, SetK, pigeon
from .mst import _View, KKB, KKR
from . import register

KK = z3.ArraySort(K, K)
s0 = VS[0]
UNDIRECTED = ForAll([k_, l_], Implies(PE(k_, l_), And(PE(l_, k_), wt(l_, k_) == wt(k_, l_))), patterns=[ei(k_, l_)])
p_ = z3.Const('p', ORS)
NEWTEXT = 'a new graph is empty; adding a vertex (an edge) adds exactly that; hasattr tells whether a vertex is present (C22)'


@register
class Abs_tree_new(_View):
    name = 'graphs.graph:Graph.__new__'
    text = NEWTEXT

    def run(self, eng, st, args, kw, node):
        return [(st, eng.new_cell(st, ObjRec('AdjacencyList', {'@IN': z3.K(K, BoolVal(False)), '@ME': z3.K(K, z3.K(K, BoolVal(False))), '@MW': z3.Const('MW0', KKR)})))]


@register
class Abs_copy_vertex(_View):
    name = G + '_copy_vertex'
    text = 'a copied vertex has the name of the original'

    def run(self, eng, st, args, kw, node):
        r = fresh_const('copy', IntS)
        eng.ensure_field(st, 'name')
        st.assume(And(r > 0, st.heap['name'][r] == args[1]))
        return [(st, VRef(r, 'AdjacencyListGraphNode'))]


@register
class Abs_tree_vertex(_View):
    name = 'graphs.adjacency_list:AdjacencyList.add_vertex'
    text = NEWTEXT

    def run(self, eng, st, args, kw, node):
        o, k = args[0], st.heap['name'][args[1].t]
        eng.oblige('pre:add_vertex:new', st, Not(self.at(st, o, 'IN')[k]), getattr(node, 'lineno', 0))
        self.put(eng, st, o, IN=Store(self.at(st, o, 'IN'), k, BoolVal(True)))
        return [(st, None)]


@register
class Abs_tree_edge(_View):
    name = 'graphs.adjacency_list:AdjacencyList.add_edge'
    text = NEWTEXT

    def run(self, eng, st, args, kw, node):
        o, u, v, w = args
        IN, ME, MW = self.at(st, o, 'IN'), self.at(st, o, 'ME'), self.at(st, o, 'MW')
        eng.oblige('pre:add_edge:vertices', st, And(IN[u], IN[v]), getattr(node, 'lineno', 0))
        self.put(eng, st, o, ME=Store(ME, u, Store(ME[u], v, BoolVal(True))), MW=Store(MW, u, Store(MW[u], v, w)))
        return [(st, None)]


@register
class Prim(_Paths):
    name = G + '_minimum_spanning_tree_prim_adjacency_list'
    uses = NBS + PQC + ('Abs_tree_new', 'Abs_copy_vertex', 'Abs_tree_vertex', 'Abs_tree_edge')
    axioms = (VERTICES, EKEY, REACHES(), UNDIRECTED)
    variants = ('',)
    assumes = _Paths.assumes + (LEAST, 'the graph is undirected: both directions of an edge are stored with the same weight')
    DICTS = {'e': ('key', ('ref', 'GraphEdge'))}

    def setup(self, x):
        return [self.graph(x)], {}

    def hasattr_hook(self, eng, st, o, n, node):
        return [(st, st.store[o.id].f['@IN'][n])] if is_z3(n) else None

    @staticmethod
    def weighted(ew, h):
        x = lambda k, l: ew.map[ekey(k, l)]
        return [('edges', fk(lambda k, l: Implies(And(VT(k), VT(l)), And(ew.dom[ekey(k, l)] == PE(k, l), Implies(PE(k, l), And(x(k, l) > 0, h('value')[x(k, l)] == wt(k, l),
                h('source')[x(k, l)] > 0, h('target')[x(k, l)] > 0, h('name')[h('source')[x(k, l)]] == k, h('name')[h('target')[x(k, l)]] == l)))), lambda k, l: ekey(k, l), n=2))]

    def pre(self, c):
        return [('names', names(c.oheap))] + self.weighted(c.o('graph').edge_weights, c.oheap)

    def result(self, c):
        return None

    @staticmethod
    def tree(IN, ME, MW, Q, P, PA, m):
        """Q: the vertices of the tree in the order of their addition, P: their numbers, PA: the vertex each (but the first) was attached to"""
        later = lambda k: And(IN[k], P[k] >= 1)
        child = lambda a, b: And(later(b), PA[b] == a)
        return [('vertices', fk(lambda k: Implies(IN[k], And(VT(k), 0 <= P[k], P[k] < m, Q[P[k]] == k)), lambda k: IN[k], lambda k: P[k])),
                ('order', fa('j', lambda j: Implies(rng(0, j, m), And(IN[Q[j]], P[Q[j]] == j)), lambda j: Q[j])),
                ('attached', fk(lambda k: Implies(later(k), And(IN[PA[k]], P[PA[k]] < P[k], PE(PA[k], k))), lambda k: PA[k])),
                ('edges', ForAll([k_, l_], And(ME[k_][l_] == Or(child(k_, l_), child(l_, k_)), Implies(ME[k_][l_], MW[k_][l_] == wt(k_, l_))), patterns=[ME[k_][l_]])),
                ('lightest', ForAll([j_, k_, l_], Implies(And(later(j_), IN[k_], P[k_] < P[j_], VT(l_), Or(Not(IN[l_]), P[l_] >= P[j_]), PE(k_, l_)), wt(PA[j_], j_) <= wt(k_, l_)), patterns=[MultiPattern(PA[j_], ei(k_, l_))]))]

    def post(self, c):
        t = c.res
        Q, P, PA, m = [c.local('@g_' + x) for x in ('TQ', 'TP', 'PA', 'm')]
        return self.tree(t.g_IN, t.g_ME, t.g_MW, Q, P, PA, m) + [('starts', And(t.g_IN[s0], P[s0] == 0)), ('spans', fk(lambda k: Implies(RE(s0, k), t.g_IN[k]), lambda k: RE(s0, k)))]

    def lemmas_post(self, c):
        IN = c.res.g_IN
        S = fresh_const('S', SetK)
        return [('definition', fk(lambda k: S[k] == IN[k], lambda k: S[k], lambda k: RE(s0, k)), 'def'), forward(s0, S)]

    def inv(self, v, inner):
        t, e, q = v.mst, v.e, v.q.g_Q
        IN = t.g_IN
        Q, P, PA, m, EX = [v.g(x) for x in ('TQ', 'TP', 'PA', 'm', 'EX')]
        ew = v.graph.edge_weights
        done = (lambda k, l: Or(k != v.v, ei(k, l) < v.it)) if inner else (lambda k, l: BoolVal(True))
        w = lambda k: wt(EX[k], k)
        out = [('names', names(v.heap)), ('count', And(m >= 0, v.q.g_n >= 0))] + self.weighted(ew, v.heap) + self.tree(IN, t.g_ME, t.g_MW, Q, P, PA, m)
        out += [('first', Implies(m >= 1, Q[0] == s0)), ('start', Implies(m == 0, And(q[s0][or_some(0)], fk(lambda k: Not(e.dom[k]), lambda k: e.dom[k])))),
                ('best', fk(lambda k: Implies(e.dom[k], And(e.map[k] > 0, IN[EX[k]], PE(EX[k], k), VT(k), e.map[k] == ew.map[ekey(EX[k], k)])), lambda k: e.dom[k], lambda k: EX[k])),
                ('best-is-lightest', ForAll([k_, l_], Implies(And(IN[k_], Not(IN[l_]), PE(k_, l_), done(k_, l_)), And(e.dom[l_], w(l_) <= wt(k_, l_))), patterns=[ei(k_, l_)])),
                ('queue', ForAll([k_, p_], Implies(And(q[k_][p_]), And(VT(k_), If(m == 0, k_ == s0, Implies(Not(IN[k_]), And(e.dom[k_], Or(Not(fin(p_)), w(k_) <= or_val(p_))))))), patterns=[q[k_][p_]])),
                ('queued', fk(lambda k: Implies(And(e.dom[k], Not(IN[k])), q[k][or_some(w(k))]), lambda k: EX[k], lambda k: e.dom[k]))]
        if inner:
            out += [('current', And(VT(v.v), IN[v.v], m >= 1, P[v.v] == m - 1))]
        return out

    def loops(self, u):
        def step2(v, h):
            w, x = nb(v.v, h.it), v.v
            EX, e = h.g('EX'), h.e
            better = Or(Not(e.dom[w]), wt(EX[w], w) > wt(x, w))
            return {'EX': v.define('EX1', lambda k: If(And(k == w, better), x, EX[k]), K)}
        return {1: LoopSpec(inv=lambda v: self.inv(v, False), ghosts=('TQ', 'TP', 'PA', 'm', 'EX'),
                            ghost_init=lambda v: {'TQ': z3.Const('TQ0', IK), 'TP': z3.K(K, IntVal(-1)), 'PA': z3.Const('PA0', KK), 'm': IntVal(0), 'EX': z3.Const('EX0', KK)},
                            assume_head=lambda v: [pigeon.use(v.g('TQ'), v.g('TP'), v.g('m'))], variant=lambda v: (NV - v.g('m'), v.q.g_n)),
                2: LoopSpec(inv=lambda v: self.inv(v, True), ghosts=('EX',), ghost_step=step2,
                            ghost_init=lambda v: {'TQ': Store(v.g('TQ'), v.g('m'), v.v), 'TP': Store(v.g('TP'), v.v, v.g('m')), 'PA': Store(v.g('PA'), v.v, v.g('EX')[v.v]), 'm': v.g('m') + 1})}


j_ = z3.Const('j', K)
