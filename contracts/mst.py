"""Kruskal's algorithm (C24) over views of the edge list, of the disjoint-set forest (C12) and of the graph that is built (C22).
Edge number i (in order of weight) goes from SRC(i) to DST(i) and weighs W(i).  SEL(i): it is chosen.  CN(i, a, b): a and b are connected by
chosen edges with numbers below i (defined by recursion on i).  The chosen edges are a minimum spanning forest exactly when they close no cycle and
connect the ends of every edge of the graph without using a heavier one."""
from .common import *
from .graphs import G, VT, NV, IX, GN, fk
from .topo import VS, VERTICES
from . import register
from pyvc.values import dt

SRC, DST = z3.Function('SRC', IntS, K), z3.Function('DST', IntS, K)
W = z3.Function('W', IntS, RealS)
NE = z3.Int('NE')
KB = z3.ArraySort(K, BoolS)
KI, KK = z3.ArraySort(K, IntS), z3.ArraySort(K, K)
KKB, KKI, KKR = z3.ArraySort(K, KB), z3.ArraySort(K, KI), z3.ArraySort(K, z3.ArraySort(K, RealS))
EDGES = And(NE >= 0, fa('i', lambda i: Implies(rng(0, i, NE), And(VT(SRC(i)), VT(DST(i)))), lambda i: SRC(i), lambda i: DST(i)),
            fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < NE), W(i) <= W(j)), lambda i, j: (W(i), W(j))))
a_, b_ = z3.Consts('a b', K)
i_ = z3.Int('i')
root = z3.Function('rootOf', K, IntS)
kof = z3.Function('keyOfRoot', IntS, K)
ROOTS = fk(lambda k: And(root(k) > 0, kof(root(k)) == k), lambda k: root(k))
DS = 'miscellaneous_data_structures.disjoint_set:DisjointSetForest.'


def connected(CN, SEL):
    """definition of CN(i, a, b)"""
    step = lambda i, a, b: Or(CN(i, a, b), And(SEL(i), Or(And(CN(i, a, SRC(i)), CN(i, DST(i), b)), And(CN(i, a, DST(i)), CN(i, SRC(i), b)))))
    return And(ForAll([a_, b_], CN(0, a_, b_) == (a_ == b_), patterns=[CN(0, a_, b_)]),
               ForAll([i_, a_, b_], Implies(And(0 <= i_, i_ < NE), CN(i_ + 1, a_, b_) == step(i_, a_, b_)), patterns=[CN(i_ + 1, a_, b_)]))


class _View(Contract):
    verify_self = False
    text = ''

    def apply(self, eng, st, args, kw, node):
        eng.used_contracts.add(self.name)
        eng.unit.trust(self.text)
        return self.run(eng, st, args, kw, node)

    def put(self, eng, st, o, **kv):
        r = st.store[o.id]
        for n, t in kv.items():
            r = r.set('@' + n, t)
            eng.mod(('fld', o.id, '@' + n))
        st.store[o.id] = r

    def at(self, st, o, n):
        return st.store[o.id].f['@' + n]


class _Dsu(_View):
    text = 'the disjoint-set forest is used through its partition (C12): one root per class, make_set of a new key adds a class, union merges two'


@register
class Abs_dsu_new(_Dsu):
    name = DS + '__new__'

    def run(self, eng, st, args, kw, node):
        return [(st, eng.new_cell(st, ObjRec('DisjointSetForest', {'@IN': z3.K(K, BoolVal(False)), '@CLS': z3.Const('CLS0', KK)})))]


@register
class Abs_dsu_make(_Dsu):
    name = DS + 'make_set'

    def run(self, eng, st, args, kw, node):
        o, k = args[0], args[1]
        IN, C = self.at(st, o, 'IN'), self.at(st, o, 'CLS')
        # an existing key keeps its class
        self.put(eng, st, o, IN=Store(IN, k, BoolVal(True)), CLS=Store(C, k, z3.If(IN[k], C[k], k)))
        return [(st, None)]


@register
class Abs_dsu_find(_Dsu):
    name = DS + 'find_root'

    def run(self, eng, st, args, kw, node):
        o, k = args[0], args[1]
        eng.oblige('pre:find_root:known', st, self.at(st, o, 'IN')[k], getattr(node, 'lineno', 0))
        return [(st, VRef(root(self.at(st, o, 'CLS')[k]), 'Set'))]


@register
class Abs_dsu_union(_Dsu):
    name = DS + 'union'

    def run(self, eng, st, args, kw, node):
        o, x, y = args[0], args[1], args[2]
        IN, C = self.at(st, o, 'IN'), self.at(st, o, 'CLS')
        eng.oblige('pre:union:known', st, And(IN[x], IN[y]), getattr(node, 'lineno', 0))
        D, r = fresh_const('CLS', KK), fresh_const('newroot', K)
        st.assume(Or(r == C[x], r == C[y]))
        st.assume(fk(lambda k: D[k] == z3.If(Or(C[k] == C[x], C[k] == C[y]), r, C[k]), lambda k: D[k]))
        self.put(eng, st, o, CLS=D)
        return [(st, None)]


@register
class Abs_mst_new(_View):
    name = G + '_generate_mst_object'
    text = 'the new graph has the vertices of the given one and no edges; adding an edge adds exactly that edge with its weight (C22)'

    def run(self, eng, st, args, kw, node):
        return [(st, eng.new_cell(st, ObjRec('AdjacencyList', {'@ME': z3.K(K, z3.K(K, BoolVal(False))), '@MW': z3.Const('MW0', KKR), '@graph': z3.BoolVal(True)})))]


@register
class Abs_mst_add(_View):
    name = 'graphs.adjacency_list:AdjacencyList.add_edge'
    text = Abs_mst_new.text

    def run(self, eng, st, args, kw, node):
        o, u, v, w = args
        ME, MW = self.at(st, o, 'ME'), self.at(st, o, 'MW')
        eng.oblige('pre:add_edge:vertices', st, And(VT(u), VT(v)), getattr(node, 'lineno', 0))
        self.put(eng, st, o, ME=Store(ME, u, Store(ME[u], v, BoolVal(True))), MW=Store(MW, u, Store(MW[u], v, w)))
        return [(st, None)]


@register
class Abs_sorted_edges(_View):
    name = G + '_sort_edges'
    text = '_sort_edges lists the edges of the graph once each, in order of their weight'
    KIND = ('tuple', 'key', ('ref', 'GraphEdge'))

    def run(self, eng, st, args, kw, node):
        D = dt(self.KIND)
        arr = fresh_const('edges', z3.ArraySort(IntS, D[0]))
        i = z3.Int('i')
        for f in ('source', 'target', 'value', 'name'):
            eng.ensure_field(st, f)
        h = st.heap
        e = D[3](arr[i])
        st.assume(ForAll([i], Implies(rng(0, i, NE), And(e > 0, h['source'][e] > 0, h['target'][e] > 0, h['name'][h['source'][e]] == SRC(i), h['name'][h['target'][e]] == DST(i), h['value'][e] == W(i))), patterns=[arr[i]]))
        return [(st, eng.new_cell(st, ArrRec(NE, arr, self.KIND)))]


SELf = z3.Function('SEL', IntS, BoolS)
CNf = z3.Function('CN', IntS, K, K, BoolS)


@register
class Kruskal(Contract):
    name = G + '_minimum_spanning_tree_kruskal_adjacency_list'
    fields = {'source': GN, 'target': GN, 'value': 'real', 'name': 'key'}
    uses = ('Abs_dsu_new', 'Abs_dsu_make', 'Abs_dsu_find', 'Abs_dsu_union', 'Abs_mst_new', 'Abs_mst_add', 'Abs_sorted_edges')
    axioms = (VERTICES, EDGES, ROOTS, connected(CNf, SELf))
    assumes = ('SEL(i) names the branch taken for edge i (each edge is considered once)',)

    def setup(self, x):
        vs = x.eng.new_cell(x.st, ArrRec(NV, VS, 'key'))
        return [x.obj('AdjacencyList', _impl='adjacency_list', vertices=vs)], {}

    def result(self, c):
        return None

    def post(self, c):
        m = c.res
        CH = c.local('@g_CH')
        return [('is-the-new-graph', m.g_graph),
                ('edges-are-chosen-edges', ForAll([a_, b_], Implies(m.g_ME[a_][b_], And(0 <= CH[a_][b_], CH[a_][b_] < NE, SELf(CH[a_][b_]), m.g_MW[a_][b_] == W(CH[a_][b_]),
                                                                                     Or(And(SRC(CH[a_][b_]) == a_, DST(CH[a_][b_]) == b_), And(SRC(CH[a_][b_]) == b_, DST(CH[a_][b_]) == a_)))), patterns=[m.g_ME[a_][b_]])),
                ('chosen-edges-present', fa('i', lambda i: Implies(And(rng(0, i, NE), SELf(i)), And(m.g_ME[SRC(i)][DST(i)], m.g_ME[DST(i)][SRC(i)])), lambda i: SELf(i))),
                ('no-cycle', fa('i', lambda i: Implies(And(rng(0, i, NE), SELf(i)), Not(CNf(i, SRC(i), DST(i)))), lambda i: SELf(i))),
                ('spanning-and-minimum', fa('i', lambda i: Implies(rng(0, i, NE), CNf(i + 1, SRC(i), DST(i))), lambda i: SRC(i)))]

    def loops(self, u):
        def inv1(v):
            d = v.dsf
            return [('made', fk(lambda k: And(d.g_IN[k] == And(VT(k), IX(k) < v.it), Implies(d.g_IN[k], d.g_CLS[k] == k)), lambda k: d.g_IN[k], lambda k: d.g_CLS[k]))]

        def inv2(v):
            d, m, it, CH = v.dsf, v.mst, v.it, v.g('CH')
            C = d.g_CLS
            ch = lambda a, b: CH[a][b]
            return [('made', fk(lambda k: d.g_IN[k] == VT(k), lambda k: d.g_IN[k])),
                    ('classes', ForAll([a_, b_], Implies(And(VT(a_), VT(b_)), (C[a_] == C[b_]) == CNf(it, a_, b_)), patterns=[CNf(it, a_, b_), MultiPattern(C[a_], C[b_])])),
                    ('edges', ForAll([a_, b_], Implies(m.g_ME[a_][b_], And(VT(a_), VT(b_), C[a_] == C[b_], 0 <= ch(a_, b_), ch(a_, b_) < it, SELf(ch(a_, b_)), m.g_MW[a_][b_] == W(ch(a_, b_)),
                                                                   Or(And(SRC(ch(a_, b_)) == a_, DST(ch(a_, b_)) == b_), And(SRC(ch(a_, b_)) == b_, DST(ch(a_, b_)) == a_)))), patterns=[m.g_ME[a_][b_]])),
                    ('present', fa('i', lambda i: Implies(And(rng(0, i, it), SELf(i)), And(m.g_ME[SRC(i)][DST(i)], m.g_ME[DST(i)][SRC(i)])), lambda i: SELf(i))),
                    ('no-cycle', fa('i', lambda i: Implies(And(rng(0, i, it), SELf(i)), Not(CNf(i, SRC(i), DST(i)))), lambda i: SELf(i))),
                    ('spanning', fa('i', lambda i: Implies(rng(0, i, it), CNf(i + 1, SRC(i), DST(i))), lambda i: SRC(i)))]

        def step(v, h):
            i = h.it
            C = h.dsf.g_CLS
            sel = C[SRC(i)] != C[DST(i)]
            CH = h.g('CH')
            return {'CH': v.define('CH1', lambda a: If(And(SELf(i), a == SRC(i)), Store(CH[a], DST(i), i), If(And(SELf(i), a == DST(i)), Store(CH[a], SRC(i), i), CH[a])), K)}
        return {1: LoopSpec(inv=inv1), 2: LoopSpec(inv=inv2, ghost_init=lambda v: {'CH': z3.Const('CH0', KKI)}, ghost_step=step,
                                                  end_lemmas=lambda v, h: [('the-branch-taken', SELf(h.it) == (h.dsf.g_CLS[SRC(h.it)] != h.dsf.g_CLS[DST(h.it)]), 'def')])}


@register
class KruskalP(Kruskal):
    name = G + '_minimum_spanning_tree_parallel_kruskal_adjacency_list'

    def setup(self, x):
        return [Kruskal.setup(self, x)[0][0], x.int('num_threads')], {}
