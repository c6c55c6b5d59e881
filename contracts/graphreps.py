"""Graph representations (C22).  Attributes whose names are computed (vertex names) are a dictionary `_dyn` of the object that holds
them: hasattr, getattr, setattr and delattr with such a name are membership, lookup, update and removal there.  Ghost fields of a graph: IDX
(position of a vertex in `vertices`) and POS (position of a name in the `adjacent` list of a node)."""
import ast
from .common import *
from .lemmas import Lemma
from .graphs import K, fk, SetK, named
from .paths import ekey, esrc, edst, EKEY
from . import register
from pyvc.values import dt
from pyvc.engine import VStar

AM, AL = 'graphs.adjacency_matrix:AdjacencyMatrix.', 'graphs.adjacency_list:AdjacencyList.'
s_, t_ = z3.Const('source', K), z3.Const('target', K)
NODE = {'AdjacencyMatrix': ('ref', 'AdjacencyMatrixGraphNode'), 'AdjacencyList': ('ref', 'AdjacencyListGraphNode')}
ROWS = ('dict', 'key', 'bool')
KM = z3.ArraySort(K, IntS)


def dyn(eng, st, o):
    r = eng.get_attr(st, o, '_dyn')
    return r[0][1]


class _Dyn(Contract):
    assumes = ('vertex names are strings that are not names of attributes of graphs or nodes', 'the keys s + "_" + t of edge_weights differ for different edges (known finding K01 where they do not)')
    axioms = (EKEY,)

    def alloc_hook(self, eng, st, o):
        pass

    def symbolic(self, n):
        return is_z3(n) and n.sort() == K

    def method_hook(self, eng, st, name, o, args, kw, node):
        if name == '__getattribute__' and self.symbolic(args[0]):
            return eng.get_item(st, dyn(eng, st, o), args[0], node)
        if name == '__setattr__' and self.symbolic(args[0]):
            eng.set_item(st, dyn(eng, st, o), args[0], args[1], node)
            return [(st, None)]
        return None

    def hasattr_hook(self, eng, st, o, n, node):
        if not self.symbolic(n):
            return None
        from pyvc.builtins_ import call_method
        return call_method(eng, st, '__contains__', dyn(eng, st, o), [n], {}, node)

    def getattr_hook(self, eng, st, args, node):
        return eng.get_item(st, dyn(eng, st, args[0]), args[1], node) if self.symbolic(args[1]) else None

    def setattr_hook(self, eng, st, args, node):
        return self.method_hook(eng, st, '__setattr__', args[0], args[1:], {}, node)

    def delattr_hook(self, eng, st, args, node):
        if not self.symbolic(args[1]):
            return None
        from pyvc.builtins_ import call_method
        return [(s, None) for s, _ in call_method(eng, st, 'pop', dyn(eng, st, args[0]), [args[1]], {}, node)]

    def str_hook(self, eng, st, v, node):
        return v if self.symbolic(v) else None

    def binop_hook(self, eng, st, op, a, b, node):
        if isinstance(op, ast.Add):
            if self.symbolic(a) and b == '_':
                return ('%edge', a)
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '%edge' and self.symbolic(b):
                return ekey(a[1], b)
        return NotImplemented


def field_kind(st, o, kinds):
    """kind of the container held by a field of the object under construction"""
    for fr in st.frames.values():
        g = fr.get('obj')
        if isinstance(g, VCell) and isinstance(st.store.get(g.id), ObjRec):
            for n, v in st.store[g.id].f.items():
                if isinstance(v, VCell) and isinstance(o, VCell) and v.id == o.id and n in kinds:
                    return kinds[n]
    return None


class _New:
    """construction from any number of nodes with different names (IX: position of a name)"""
    cls = None

    def alloc_hook(self, eng, st, o):
        super().alloc_hook(eng, st, o)
        if isinstance(o, VCell):
            d = eng.new_cell(st, DictRec(z3.K(K, BoolVal(False)), z3.K(K, IntVal(0)), 'key', NODE[self.cls]))
            st.store[o.id] = st.store[o.id].set('_dyn', d)

    def dicthint(self, eng, st, o):
        return field_kind(st, o, {'matrix': ('key', ROWS), 'edge_weights': ('key', ('ref', 'GraphEdge')), '_dyn': ('key', NODE[self.cls])})

    def comp_kind(self, e):
        return 'key'

    def setup(self, x):
        vs = x.list('nodes', NODE[self.cls])
        x['vs'], x['IX'] = vs, z3.Const('IX', KM)
        return [x.eng.prog.find_class(self.cls), VStar(vs)], {}

    def nodes(self, c):
        return c.eng.rec(c.old, c.cx['vs'] if hasattr(c, 'cx') else c['vs'])

    def modifies(self, c):
        return [('nxt',)]

    def pre(self, c):
        r, IX, h = self.nodes(c), c.cx['IX'], c.oheap
        return [('different-names', fa('i', lambda i: Implies(rng(0, i, r.len), And(0 < r.arr[i], r.arr[i] < c.old.nxt, IX[h('name')[r.arr[i]]] == i)), lambda i: r.arr[i]))]

    def given(self, r, h, IX, k, upto=None):
        return And(0 <= IX[k], IX[k] < (r.len if upto is None else upto), h('name')[r.arr[IX[k]]] == k)

    def loops(self, u):
        def names(v):
            r, IX, d, h = v.eng.rec(v.st, v.c['vs']), v.c['IX'], v.obj._dyn, v.heap
            return [('named', fk(lambda k: And(d.dom[k] == self.given(r, h, IX, k, v.it), Implies(d.dom[k], d.map[k] == r.arr[IX[k]])), lambda k: d.dom[k], lambda k: d.map[k]))]

        def rows(v):
            r, IX, m, h = v.eng.rec(v.st, v.c['vs']), v.c['IX'], v.obj.matrix, v.heap
            D = dt(ROWS)
            return [('empty-rows', fk(lambda k: And(m.dom[k] == self.given(r, h, IX, k, v.it), fk(lambda l: Implies(m.dom[k], Not(D[2](m.map[k])[l])), lambda l: D[2](m.map[k])[l])), lambda k: m.dom[k], lambda k: m.map[k]))]
        return {1: LoopSpec(inv=names, ghosts=()), 2: LoopSpec(inv=rows, ghosts=())}


class MG:
    """view of an adjacency-matrix graph"""

    def __init__(self, c, st, h, name='self', obj=None, **kw):
        g = wrap(c.eng, st, c.params[name]) if obj is None else obj
        self.g, self.h, self.nxt = g, h, st.nxt
        self.m, self.d, self.w, self.v = g.matrix, g._dyn, g.edge_weights, g.vertices
        self.IDX = kw.get('IDX', None)
        if self.IDX is None:
            self.IDX = g.g_IDX
        D = dt(ROWS)
        self.row = lambda u: (D[2](self.m.map[u]), D[3](self.m.map[u]))

    def V(self, k):
        return self.m.dom[k]

    def M(self, u, v):
        d, m = self.row(u)
        return And(self.m.dom[u], d[v], m[v])

    def W(self, u, v):
        return self.w.dom[ekey(u, v)]

    def val(self, u, v):
        return self.h('value')[self.w.map[ekey(u, v)]]

    def wf(self):
        m, d, w, v, h = self.m, self.d, self.w, self.v, self.h
        IDX = self.IDX
        e = z3.Const('e', K)
        return [('vertices', And(fk(lambda k: m.dom[k] == And(0 <= IDX[k], IDX[k] < v.len, v.arr[IDX[k]] == k), lambda k: IDX[k], lambda k: m.dom[k]),
                                 fa('i', lambda i: Implies(rng(0, i, v.len), And(m.dom[v.arr[i]], IDX[v.arr[i]] == i)), lambda i: v.arr[i]))),
                ('objects', fk(lambda k: And(d.dom[k] == m.dom[k], Implies(m.dom[k], And(0 < d.map[k], d.map[k] < self.nxt, h('name')[d.map[k]] == k))), lambda k: d.dom[k], lambda k: d.map[k])),
                ('edges-join-vertices', fk(lambda k, l: Implies(self.M(k, l), m.dom[l]), lambda k, l: self.row(k)[1][l], n=2)),
                ('weights', ForAll([e], Implies(w.dom[e], And(self.M(esrc(e), edst(e)), e == ekey(esrc(e), edst(e)), 0 < w.map[e], w.map[e] < self.nxt,
                                                               h('source')[w.map[e]] == d.map[esrc(e)], h('target')[w.map[e]] == d.map[edst(e)])), patterns=[w.dom[e]]))]


class _M(_Dyn):
    fields = {'name': 'key', 'source': NODE['AdjacencyMatrix'], 'target': NODE['AdjacencyMatrix'], 'value': 'elem', '_dyn': ('dict', 'key', NODE['AdjacencyMatrix']), 'data': 'elem', 'is_connected': 'elem'}
    heap_classes = ('AdjacencyMatrixGraphNode', 'GraphEdge')

    def graph(self, x):
        g = x.obj('AdjacencyMatrix', _impl='adjacency_matrix', vertices=x.list('vertices', 'key'), matrix=x.dict('matrix', 'key', ROWS),
                  edge_weights=x.dict('edge_weights', 'key', ('ref', 'GraphEdge')), _dyn=x.dict('attributes', 'key', NODE['AdjacencyMatrix']), **{'@IDX': z3.Const('IDX', KM)})
        x['g'] = g
        return g

    def setup(self, x):
        return [self.graph(x), s_, t_], {}

    def g(self, c):
        return MG(c, c.old, c.oheap)

    def gn(self, c, **kw):
        return MG(c, c.new, c.nheap, **kw)

    def pre(self, c):
        return self.g(c).wf()


@register
class AM_adjacent(_M):
    name = AM + 'is_adjacent'

    def result(self, c):
        return 'bool'

    def post(self, c):
        g = self.g(c)
        return [('exactly-the-edges', B(c.res_v) == g.M(s_, t_))]


@register
class AM_get_edge(_M):
    name = AM + 'get_edge'

    def result(self, c):
        return ('ref', 'GraphEdge')

    def post(self, c):
        g, r = self.g(c), c.res_v.t
        return [('none-exactly-without-weight', (r == 0) == Not(g.W(s_, t_))),
                ('the-edge', Implies(g.W(s_, t_), And(r > 0, g.h('value')[r] == g.val(s_, t_), g.h('name')[g.h('source')[r]] == s_, g.h('name')[g.h('target')[r]] == t_, g.M(s_, t_))))]


class _MUpd(_M):
    def frame(self, c):
        a, b = self.g(c), self.gn(c)
        return [('same-vertices', And(a.v.len == b.v.len, fa('i', lambda i: Implies(rng(0, i, a.v.len), a.v.arr[i] == b.v.arr[i]), lambda i: b.v.arr[i]), fk(lambda k: a.V(k) == b.V(k), lambda k: b.V(k)))),
                ('other-edges', fk(lambda k, l: Implies(Or(k != s_, l != t_), a.M(k, l) == b.M(k, l)), lambda k, l: b.row(k)[1][l], n=2)),
                ('other-weights', fk(lambda k, l: Implies(Or(k != s_, l != t_), And(a.W(k, l) == b.W(k, l), Implies(a.W(k, l), a.val(k, l) == b.val(k, l)))), lambda k, l: ekey(k, l), n=2))] + b.wf()


@register
class AM_add_edge(_MUpd):
    name = AM + 'add_edge'
    cost = z3.Const('cost', E)

    def setup(self, x):
        return [self.graph(x), s_, t_, self.cost], {}

    def modifies(self, c):
        return [('dict', c.params['self'] and c.o('self').matrix.v), ('dict', c.o('self').edge_weights.v), ('heap', 'source'), ('heap', 'target'), ('heap', 'value'), ('nxt',)]

    def raises(self, c):
        g = self.g(c)
        return {'ValueError': Or(Not(g.V(s_)), Not(g.V(t_)))}

    def post(self, c):
        a, b = self.g(c), self.gn(c)
        return [('edge-present', b.M(s_, t_)), ('weight-given', Implies(Not(isNone(self.cost)), And(b.W(s_, t_), b.val(s_, t_) == self.cost))),
                ('weight-kept', Implies(isNone(self.cost), And(a.W(s_, t_) == b.W(s_, t_), Implies(a.W(s_, t_), a.val(s_, t_) == b.val(s_, t_)))))] + self.frame(c)


@register
class AM_remove_edge(_MUpd):
    name = AM + 'remove_edge'

    def modifies(self, c):
        return [('dict', c.o('self').matrix.v), ('dict', c.o('self').edge_weights.v)]

    def pre(self, c):
        g = self.g(c)
        return g.wf() + [('source-is-a-vertex', g.V(s_))]

    def post(self, c):
        b = self.gn(c)
        return [('edge-absent', Not(b.M(s_, t_))), ('no-weight', Not(b.W(s_, t_)))] + self.frame(c)


@register
class AM_neighbors(_M):
    name = AM + 'neighbors'

    def setup(self, x):
        return [self.graph(x), s_], {}

    def listhint(self, eng, st, o):
        return named(st, o, {'neighbors': NODE['AdjacencyMatrix']})

    def dicthint(self, eng, st, o):
        return ('key', 'bool') if named(st, o, {'row': 1}) else None

    def loops(self, u):
        def inv(v):
            g = MG(v.c, v.st, v.heap, obj=v.self)
            e, ls, AT = v.enum(1), v.neighbors, v.g('AT')
            nm = v.heap('name')
            return [('listed', And(ls.len >= 0, fa('i', lambda i: Implies(rng(0, i, ls.len), And(0 < ls.arr[i], ls.arr[i] < v.nxt, g.M(s_, nm[ls.arr[i]]), ls.arr[i] == g.d.map[nm[ls.arr[i]]], AT[nm[ls.arr[i]]] == i, e[1](nm[ls.arr[i]]) < v.it)), lambda i: ls.arr[i]))),
                    ('all-so-far', fk(lambda k: Implies(And(g.M(s_, k), e[1](k) < v.it), And(0 <= AT[k], AT[k] < ls.len, ls.arr[AT[k]] == g.d.map[k])), lambda k: AT[k]))]
        return {1: LoopSpec(inv=inv, ghosts=('AT',), ghost_init=lambda v: {'AT': z3.K(K, IntVal(-1))},
                            ghost_step=lambda v: {'AT': z3.If(MG(v.c, v.st, v.heap, obj=v.self).row(s_)[1][v.enum(1)[0][v.it - 1]], Store(v.g('AT'), v.enum(1)[0][v.it - 1], v.neighbors.len - 1), v.g('AT'))})}

    def result(self, c):
        return ('list', NODE['AdjacencyMatrix'])

    def post(self, c):
        g, r = self.g(c), c.res
        nm = g.h('name')
        AT = c.local('@g_AT')
        return [('only-neighbours', fa('i', lambda i: Implies(rng(0, i, r.len), And(0 < r.arr[i], g.M(s_, nm[r.arr[i]]), r.arr[i] == g.d.map[nm[r.arr[i]]])), lambda i: r.arr[i])),
                ('each-once', fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < r.len), r.arr[i] != r.arr[j]), lambda i, j: (r.arr[i], r.arr[j]))),
                ('every-neighbour', fk(lambda k: Implies(g.M(s_, k), z3.Exists([z3.Int('i')], And(0 <= z3.Int('i'), z3.Int('i') < r.len, r.arr[z3.Int('i')] == g.d.map[k])))))]


# ------------------------------------------------------------------ adjacency lists
KKM = z3.ArraySort(K, KM)
LN = NODE['AdjacencyList']
LST, DCT = ('list', 'key'), ('dict', 'key', LN)


class LG:
    """view of an adjacency-list graph"""

    def __init__(self, c, st, h, name='self', obj=None, IDX=None, POS=None):
        g = wrap(c.eng, st, c.params[name]) if obj is None else obj
        self.g, self.h, self.nxt = g, h, st.nxt
        self.d, self.w, self.v = g._dyn, g.edge_weights, g.vertices
        self.IDX, self.POS = (g.g_IDX if IDX is None else IDX), (g.g_POS if POS is None else POS)
        self.hd, self.ha, self.nm = h('_dyn'), h('adjacent'), h('name')
        L, D = dt(LST), dt(DCT)
        self.len, self.arr = (lambda n: L[2](self.ha[n])), (lambda n: L[3](self.ha[n]))
        self.dom, self.map = (lambda n: D[2](self.hd[n])), (lambda n: D[3](self.hd[n]))

    def V(self, k):
        return self.d.dom[k]

    def node(self, k):
        return self.d.map[k]

    def E(self, u, v):
        return And(self.V(u), self.dom(self.node(u))[v])

    W, val = MG.W, MG.val

    def vertices(self):
        v, IDX = self.v, self.IDX
        return [('vertices', And(fk(lambda k: self.V(k) == And(0 <= IDX[k], IDX[k] < v.len, v.arr[IDX[k]] == k), lambda k: IDX[k], lambda k: self.V(k)), v.len >= 0,
                                 fa('i', lambda i: Implies(rng(0, i, v.len), And(self.V(v.arr[i]), IDX[v.arr[i]] == i)), lambda i: v.arr[i]))),
                ('objects', fk(lambda k: Implies(self.V(k), And(0 < self.node(k), self.node(k) < self.nxt, self.nm[self.node(k)] == k)), lambda k: self.V(k), lambda k: self.node(k)))]

    def listed(self, k, n, P):
        """the adjacent list of node n holds exactly the names in its attributes, each once (P: positions)"""
        l = z3.Const(fresh_name('l'), K)
        i = z3.Int(fresh_name('i'))
        return [ForAll([k, l], Implies(self.V(k), And(self.dom(n)[l] == And(0 <= P[l], P[l] < self.len(n), self.arr(n)[P[l]] == l))), patterns=[P[l], self.dom(n)[l]]),
                ForAll([k, i], Implies(And(self.V(k), 0 <= i, i < self.len(n)), And(self.dom(n)[self.arr(n)[i]], P[self.arr(n)[i]] == i)), patterns=[self.arr(n)[i]]),
                ForAll([k], Implies(self.V(k), self.len(n) >= 0), patterns=[self.len(n)])]

    def adjacency(self):
        k = z3.Const(fresh_name('k'), K)
        n = self.node(k)
        return [('adjacent-lists', And(*self.listed(k, n, self.POS[k]))),
                ('placeholders', fk(lambda k, l: Implies(self.E(k, l), And(0 < self.map(self.node(k))[l], self.map(self.node(k))[l] < self.nxt)), lambda k, l: self.dom(self.node(k))[l], n=2))]

    def joins(self):
        return [('edges-join-vertices', fk(lambda k, l: Implies(self.E(k, l), self.V(l)), lambda k, l: self.dom(self.node(k))[l], n=2))]

    def weights(self):
        w, h, e = self.w, self.h, z3.Const('e', K)
        return [('weights', ForAll([e], Implies(w.dom[e], And(self.E(esrc(e), edst(e)), e == ekey(esrc(e), edst(e)), 0 < w.map[e], w.map[e] < self.nxt,
                                                               h('source')[w.map[e]] == self.node(esrc(e)), h('target')[w.map[e]] == self.node(edst(e)))), patterns=[w.dom[e]]))]

    def wf(self):
        return self.vertices() + self.adjacency() + self.joins() + self.weights()


class _L(_Dyn):
    fields = {'name': 'key', 'source': LN, 'target': LN, 'value': 'elem', '_dyn': DCT, 'adjacent': LST, 'data': 'elem', '_impl': ('const', 'adjacency_list')}
    heap_classes = ('AdjacencyListGraphNode', 'GraphEdge')

    def alloc_hook(self, eng, st, o):
        if isinstance(o, VRef) and o.cls == 'AdjacencyListGraphNode':
            eng.ensure_field(st, '_dyn')
            eng.mod(('heap', '_dyn'))
            D = dt(DCT)
            e = fresh_const('nothing', z3.ArraySort(K, BoolS))
            st.assume(fk(lambda k: Not(e[k]), lambda k: e[k]))
            st.heap['_dyn'] = Store(st.heap['_dyn'], o.t, D[1](e, z3.K(K, IntVal(0))))

    def graph(self, x):
        g = x.obj('AdjacencyList', _impl='adjacency_list', vertices=x.list('vertices', 'key'), edge_weights=x.dict('edge_weights', 'key', ('ref', 'GraphEdge')),
                  _dyn=x.dict('attributes', 'key', LN), **{'@IDX': z3.Const('IDX', KM), '@POS': z3.Const('POS', KKM)})
        x['g'] = g
        return g

    def setup(self, x):
        return [self.graph(x), s_, t_], {}

    def g(self, c):
        return LG(c, c.old, c.oheap)

    def gn(self, c, **kw):
        return LG(c, c.new, c.nheap, **kw)

    def pre(self, c):
        return self.g(c).wf()

    def listhint(self, eng, st, o):
        return 'key' if isinstance(o, VNest) else None


@register
class AL_adjacent(_L):
    name = AL + 'is_adjacent'

    def pre(self, c):
        g = self.g(c)
        return g.wf() + [('vertex', g.V(s_))]

    def result(self, c):
        return 'bool'

    def post(self, c):
        g = self.g(c)
        return [('exactly-the-edges', B(c.res_v) == g.E(s_, t_))]


@register
class AL_get_edge(_L):
    name = AL + 'get_edge'

    def result(self, c):
        return ('ref', 'GraphEdge')

    def post(self, c):
        g, r = self.g(c), c.res_v.t
        return [('none-exactly-without-weight', (r == 0) == Not(g.W(s_, t_))),
                ('the-edge', Implies(g.W(s_, t_), And(r > 0, g.h('value')[r] == g.val(s_, t_), g.nm[g.h('source')[r]] == s_, g.nm[g.h('target')[r]] == t_, g.E(s_, t_))))]


@register
class AL_neighbors(_L):
    name = AL + 'neighbors'

    def setup(self, x):
        return [self.graph(x), s_], {}

    def pre(self, c):
        g = self.g(c)
        return g.wf() + [('vertex', g.V(s_))]

    def comp_kind(self, e):
        return LN

    def result(self, c):
        return ('list', LN)

    def post(self, c):
        g, r, i = self.g(c), c.res, z3.Int('i')
        return [('only-neighbours', fa('i', lambda i: Implies(rng(0, i, r.len), And(0 < r.arr[i], g.E(s_, g.nm[r.arr[i]]), r.arr[i] == g.node(g.nm[r.arr[i]]))), lambda i: r.arr[i])),
                ('each-once', fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < r.len), r.arr[i] != r.arr[j]), lambda i, j: (r.arr[i], r.arr[j]))),
                ('every-neighbour', fk(lambda k: Implies(g.E(s_, k), z3.Exists([i], And(0 <= i, i < r.len, r.arr[i] == g.node(k))))))]


@register
class AL_count(_L):
    name = AL + 'num_vertices'

    def setup(self, x):
        return [self.graph(x)], {}

    def result(self, c):
        return 'int'

    def post(self, c):
        return [('number-of-listed-vertices', I(c.res_v) == self.g(c).v.len)]


@register
class AL_add_vertex(_L):
    name = AL + 'add_vertex'

    def setup(self, x):
        n = x.ref('node', 'AdjacencyListGraphNode')
        x.assume(n.t > 0)
        return [self.graph(x), n], {}

    def modifies(self, c):
        return [('list', c.o('self').vertices.v, 'both'), ('dict', c.o('self')._dyn.v)]

    def pre(self, c):
        g, n = self.g(c), c.params['node'].t
        return g.wf() + [('no-adjacent-nodes-yet', And(g.len(n) == 0, fk(lambda l: Not(g.dom(n)[l]), lambda l: g.dom(n)[l])))]

    def result(self, c):
        return 'none'

    def lemmas_post(self, c):
        a, n = self.g(c), c.params['node'].t
        return [('names', fk(lambda k: Implies(And(a.V(k), Not(a.V(a.nm[n]))), a.node(k) != n), lambda k: a.node(k)))]

    def post(self, c):
        a = self.g(c)
        n = c.params['node'].t
        name = a.nm[n]
        new = Not(a.V(name))
        b = self.gn(c, IDX=z3.If(new, Store(a.IDX, name, a.v.len), a.IDX))
        return [('the-vertex', b.V(name)), ('other-vertices', fk(lambda k: Implies(k != name, b.V(k) == a.V(k)), lambda k: b.V(k))), ('object', Implies(new, b.node(name) == n)),
                ('same-objects', fk(lambda k: Implies(a.V(k), b.node(k) == a.node(k)), lambda k: b.node(k))), ('count', b.v.len == a.v.len + z3.If(new, 1, 0)),
                ('same-edges', fk(lambda k, l: a.E(k, l) == b.E(k, l), lambda k, l: b.dom(b.node(k))[l], n=2)),
                ('same-weights', fk(lambda k, l: And(a.W(k, l) == b.W(k, l), Implies(a.W(k, l), a.val(k, l) == b.val(k, l))), lambda k, l: ekey(k, l), n=2))] + b.wf()


class _LUpd(_L):
    def frame(self, c, b):
        a = self.g(c)
        return [('same-vertices', And(a.v.len == b.v.len, fa('i', lambda i: Implies(rng(0, i, a.v.len), a.v.arr[i] == b.v.arr[i]), lambda i: b.v.arr[i]), fk(lambda k: And(a.V(k) == b.V(k), a.node(k) == b.node(k)), lambda k: b.V(k)))),
                ('other-edges', fk(lambda k, l: Implies(Or(k != s_, l != t_), a.E(k, l) == b.E(k, l)), lambda k, l: b.dom(b.node(k))[l], n=2)),
                ('other-weights', fk(lambda k, l: Implies(Or(k != s_, l != t_), And(a.W(k, l) == b.W(k, l), Implies(a.W(k, l), a.val(k, l) == b.val(k, l)))), lambda k, l: ekey(k, l), n=2))] + b.wf()


@register
class AL_add_edge(_LUpd):
    name = AL + 'add_edge'
    cost = z3.Const('cost', E)

    def setup(self, x):
        return [self.graph(x), s_, t_, self.cost], {}

    def modifies(self, c):
        return [('dict', c.o('self').edge_weights.v)] + [('heap', f) for f in ('source', 'target', 'value', '_dyn', 'adjacent', 'data', 'name')] + [('nxt',)]

    def raises(self, c):
        g = self.g(c)
        return {'ValueError': Or(Not(g.V(s_)), Not(g.V(t_)))}

    def post(self, c):
        a = self.g(c)
        n = a.node(s_)
        b = self.gn(c, POS=c.ghost('POS', lambda k: z3.If(And(k == s_, Not(a.E(s_, t_))), Store(a.POS[s_], t_, a.len(n)), a.POS[k]), K))
        return [('edge-present', b.E(s_, t_)), ('weight-given', Implies(Not(isNone(self.cost)), And(b.W(s_, t_), b.val(s_, t_) == self.cost))),
                ('weight-kept', Implies(isNone(self.cost), And(a.W(s_, t_) == b.W(s_, t_), Implies(a.W(s_, t_), a.val(s_, t_) == b.val(s_, t_)))))] + self.frame(c, b)


@register
class AL_remove_edge(_LUpd):
    name = AL + 'remove_edge'

    def modifies(self, c):
        return [('dict', c.o('self').edge_weights.v)] + [('heap', f) for f in ('_dyn', 'adjacent')]

    def pre(self, c):
        g = self.g(c)
        return g.wf() + [('vertices-given', And(g.V(s_), g.V(t_)))]

    def raises(self, c):
        return {'ValueError': Not(self.g(c).E(s_, t_))}

    def post(self, c):
        a = self.g(c)
        p = a.POS[s_][t_]
        row = self.row(c, a, p)
        b = self.gn(c, POS=Store(a.POS, s_, row))
        return [('edge-absent', Not(b.E(s_, t_))), ('no-weight', Not(b.W(s_, t_)))] + self.frame(c, b)

    def row(self, c, a, p):
        return c.ghost('POSrow', lambda l: z3.If(l == t_, -1, a.POS[s_][l] - z3.If(a.POS[s_][l] > p, 1, 0)), K)


@register
class AL_remove_vertex(_L):
    name = AL + 'remove_vertex'

    def setup(self, x):
        g = self.graph(x)
        a = LG(x, x.st, lambda f: (x.eng.ensure_field(x.st, f), x.st.heap[f])[1], obj=x.P(g))
        k, l, t = z3.Const('k', K), z3.Const('l', K), z3.Int('t')
        R, PP = z3.Const('ROWS', KKM), z3.Const('POS_at', z3.ArraySort(IntS, KKM))
        x['I1'] = I1 = x.define('IDX1', lambda k: z3.If(k == s_, -1, a.IDX[k] - z3.If(a.IDX[k] > a.IDX[s_], 1, 0)), K)
        # definitions: positions after the removal of the name, and after t vertices have been processed
        x.assume(ForAll([k, l], R[k][l] == z3.If(l == s_, -1, a.POS[k][l] - z3.If(a.POS[k][l] > a.POS[k][s_], 1, 0)), patterns=[R[k][l]]))
        x.assume(ForAll([t, k], PP[t][k] == z3.If(And(I1[k] < t, a.dom(a.node(k))[s_]), R[k], a.POS[k]), patterns=[PP[t][k]]))
        x['PP'] = PP
        return [g, s_], {}

    def modifies(self, c):
        return [('list', c.o('self').vertices.v, 'both'), ('dict', c.o('self')._dyn.v), ('dict', c.o('self').edge_weights.v), ('heap', '_dyn'), ('heap', 'adjacent')]

    def pre(self, c):
        g = self.g(c)
        return g.wf() + [('vertex', g.V(s_))]

    def result(self, c):
        return 'none'

    def loops(self, u):
        e, n_ = z3.Const('e', K), z3.Int('n')

        def ends(v, a, b, gone):
            return [('weights-left', ForAll([e], And(b.w.dom[e] == And(a.w.dom[e], Not(gone(e))), b.w.map[e] == a.w.map[e]), patterns=[b.w.dom[e], b.w.map[e]]))]

        def out(v):
            a, b = LG(v.c, v.old.st, v.old.heap, obj=v.old.P(v.c['g'])), LG(v.c, v.st, v.heap, obj=v.self)
            n, k = a.node(s_), v.it
            return [('rest', And(b.len(n) == a.len(n) - k, fa('j', lambda j: Implies(rng(0, j, b.len(n)), b.arr(n)[j] == a.arr(n)[j + k]), lambda j: b.arr(n)[j]))),
                    ('attributes', fk(lambda l: b.dom(n)[l] == And(a.dom(n)[l], a.POS[s_][l] >= k), lambda l: b.dom(n)[l])),
                    ('other-nodes', ForAll([n_], Implies(n_ != n, And(b.ha[n_] == a.ha[n_], b.hd[n_] == a.hd[n_])), patterns=[b.ha[n_], b.hd[n_]]))] + ends(v, a, b, lambda e: And(esrc(e) == s_, a.POS[s_][edst(e)] < k))

        def into(v):
            a, b = LG(v.c, v.old.st, v.old.heap, obj=v.old.P(v.c['g'])), LG(v.c, v.st, v.heap, obj=v.self)
            I1, k = v.c['I1'], z3.Const('k', K)
            P = v.c['PP'][v.it]
            b.IDX = I1
            return b.vertices() + [('attributes', fk(lambda k, l: Implies(b.V(k), b.dom(b.node(k))[l] == And(a.dom(b.node(k))[l], Not(And(l == s_, I1[k] < v.it)))), lambda k, l: b.dom(b.node(k))[l], n=2)),
                                   ('placeholders', fk(lambda k, l: Implies(b.E(k, l), And(0 < b.map(b.node(k))[l], b.map(b.node(k))[l] < b.nxt)), lambda k, l: b.dom(b.node(k))[l], n=2)),
                                   ('lists', And(*b.listed(k, b.node(k), P[k])))] + ends(v, a, b, lambda e: Or(esrc(e) == s_, And(edst(e) == s_, I1[esrc(e)] < v.it)))
        return {1: LoopSpec(inv=out, ghosts=()), 2: LoopSpec(inv=into, ghosts=())}

    def post(self, c):
        a, b = self.g(c), self.gn(c, IDX=c.cx['I1'], POS=c.cx['PP'][self.g(c).v.len - 1])
        return [('vertex-gone', Not(b.V(s_))), ('other-vertices', fk(lambda k: Implies(k != s_, And(b.V(k) == a.V(k), Implies(b.V(k), b.node(k) == a.node(k)))), lambda k: b.V(k))), ('count', b.v.len == a.v.len - 1),
                ('its-edges-gone-others-kept', fk(lambda k, l: b.E(k, l) == And(a.E(k, l), k != s_, l != s_), lambda k, l: b.dom(b.node(k))[l], n=2)),
                ('weights', fk(lambda k, l: And(b.W(k, l) == And(a.W(k, l), k != s_, l != s_), Implies(b.W(k, l), a.val(k, l) == b.val(k, l))), lambda k, l: ekey(k, l), n=2))] + b.wf()


@register
class AM_new(_New, _M):
    name = AM + '__new__'
    cls = 'AdjacencyMatrix'

    def result(self, c):
        return 'obj'

    def post(self, c):
        r, IX, h = self.nodes(c), c.cx['IX'], c.oheap
        b = MG(c, c.new, c.nheap, obj=c.res, IDX=IX)
        return [('exactly-the-given-vertices', fk(lambda k: b.V(k) == self.given(r, h, IX, k), lambda k: b.V(k))), ('objects', fk(lambda k: Implies(b.V(k), b.d.map[k] == r.arr[IX[k]]), lambda k: b.d.map[k])),
                ('no-edges', fk(lambda k, l: Not(b.M(k, l)), lambda k, l: b.row(k)[1][l], n=2)), ('count', b.v.len == r.len)] + b.wf()


@register
class AL_new(_New, _L):
    name = AL + '__new__'
    cls = 'AdjacencyList'

    def nodeview(self, c):
        h = c.oheap
        L, D = dt(LST), dt(DCT)
        return (lambda n: D[2](h('_dyn')[n])), (lambda n: D[3](h('_dyn')[n])), (lambda n: L[2](h('adjacent')[n])), (lambda n: L[3](h('adjacent')[n]))

    def pre(self, c):
        r, IX, h = self.nodes(c), c.cx['IX'], c.oheap
        dom, mp, ln, arr = self.nodeview(c)
        POS, l = z3.Const('POS', KKM), z3.Const('l', K)
        i, j = z3.Ints('i j')
        P = lambda i: POS[h('name')[r.arr[i]]]
        return super().pre(c) + [('nodes', And(
            ForAll([i, l], Implies(rng(0, i, r.len), And(dom(r.arr[i])[l] == And(0 <= P(i)[l], P(i)[l] < ln(r.arr[i]), arr(r.arr[i])[P(i)[l]] == l),
                                                         Implies(dom(r.arr[i])[l], And(0 < mp(r.arr[i])[l], mp(r.arr[i])[l] < c.old.nxt, self.given(r, h, IX, l))))), patterns=[dom(r.arr[i])[l], P(i)[l]]),
            ForAll([i, j], Implies(And(rng(0, i, r.len), rng(0, j, ln(r.arr[i]))), And(dom(r.arr[i])[arr(r.arr[i])[j]], P(i)[arr(r.arr[i])[j]] == j)), patterns=[arr(r.arr[i])[j]]),
            ForAll([i], Implies(rng(0, i, r.len), ln(r.arr[i]) >= 0), patterns=[ln(r.arr[i])])))]

    def result(self, c):
        return 'obj'

    def post(self, c):
        r, IX, h = self.nodes(c), c.cx['IX'], c.oheap
        b = LG(c, c.new, c.nheap, obj=c.res, IDX=IX, POS=z3.Const('POS', KKM))
        dom = self.nodeview(c)[0]
        return [('exactly-the-given-vertices', fk(lambda k: b.V(k) == self.given(r, h, IX, k), lambda k: b.V(k))), ('objects', fk(lambda k: Implies(b.V(k), b.node(k) == r.arr[IX[k]]), lambda k: b.node(k))),
                ('edges-of-the-nodes', fk(lambda k, l: b.E(k, l) == And(self.given(r, h, IX, k), dom(r.arr[IX[k]])[l]), lambda k, l: b.dom(b.node(k))[l], n=2)),
                ('no-weights', fk(lambda k: Not(b.w.dom[k]), lambda k: b.w.dom[k])), ('count', b.v.len == r.len)] + b.wf()
