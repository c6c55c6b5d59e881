"""The node array of trees (C16, C17).  Ghost fields: T (the live nodes), IX (index of a node), LN, RN, PN (left child, right child
and parent of a node, 0 for none), KI (the node with a key, by rank), C (number of live entries in front of a position).
Compaction changes IX and C and nothing else: the links are renumbered so that they mean the same nodes."""
from .common import *
from .graphs import named
from .rotations import NO, some, none, val, II, IB, ix, present
from .binomial import ghost_in
from pyvc.spec import wrap
from . import register

FT = 'linear_data_structures.arrays:ArrayForTrees.'
RI = z3.ArraySort(RealS, IntS)
n_, m_ = z3.Ints('n m')
LINKS = (('left', 'LN'), ('right', 'RN'), ('parent', 'PN'))
GH = {'T': IB, 'IX': II, 'LN': II, 'RN': II, 'PN': II, 'KI': RI, 'C': II}


def ref_of(v):
    return v.t if isinstance(v, VRef) else v.v.t


class TA:
    """the array in one state"""
    def __init__(self, s, h, **over):
        self.A, self.len, self.N, self.last, self.num = s._data.arr, s._data.len, I(s._size), I(s._last_pos_filled), I(s._num)
        self.lf, self.h = s._load_factor, h
        for g in GH:
            setattr(self, g, over[g] if g in over else getattr(s, 'g_' + g))

    def link(self, f, n):
        return self.h(f)[n]

    def nodes(self, nxt, but=None):
        A, T, IX, C, key = self.A, self.T, self.IX, self.C, self.h('key')
        stored = And(0 <= IX[n_], IX[n_] <= self.last, A[IX[n_]] == n_)
        if but is not None:
            stored = Implies(n_ != but, stored)
        return [('nodes', ForAll([n_], Implies(T[n_], And(0 < n_, n_ < nxt, stored)), patterns=[T[n_], IX[n_]])),
                ('keys', ForAll([n_], Implies(T[n_], self.KI[rk(key[n_])] == n_), patterns=[T[n_], key[n_]]))]

    def slots(self, but=None):
        A, T, IX, C = self.A, self.T, self.IX, self.C
        but = IntVal(-1) if but is None else but
        return [('shape', And(self.len == self.N, self.N >= 1, -1 <= self.last, self.last < self.N, 0 <= self.num)),
                ('slots', fa('i', lambda i: Implies(And(rng(0, i, self.N), A[i] != 0, i != but), And(T[A[i]], IX[A[i]] == i)), lambda i: A[i])),
                ('empty-behind', fa('i', lambda i: Implies(And(self.last < i, i < self.N), A[i] == 0), lambda i: A[i])),
                ('counts', And(C[0] == 0, fa('i', lambda i: Implies(rng(0, i, self.N), C[i + 1] == C[i] + If(A[i] == 0, 0, 1)), lambda i: C[i], lambda i: A[i]))),
                ('counts-monotone', fa('i j', lambda i, j: Implies(And(0 <= i, i <= j, j <= self.N), C[i] <= C[j]), lambda i, j: (C[i], C[j]))),
                ('number', And(C[self.N] == self.num, C[self.last + 1] == self.num)), ('number-behind', fa('i', lambda i: Implies(And(self.last < i, i <= self.N), C[i] == self.num), lambda i: C[i]))]

    def links(self):
        out = []
        for f, g in LINKS:
            G = getattr(self, g)
            out.append((f, ForAll([n_], Implies(self.T[n_], If(G[n_] == 0, self.link(f, n_) == NO, And(self.T[G[n_]], self.link(f, n_) == some(self.IX[G[n_]])))), patterns=[self.link(f, n_), G[n_]])))
        return out

    def wf(self, nxt):
        return self.nodes(nxt) + self.slots() + self.links()


class _TA(Contract):
    fields = {'left': 'optint', 'right': 'optint', 'key': 'elem', 'data': 'elem', 'parent': 'optint', 'size': 'int', 'is_root': 'bool', 'height': 'int', 'priority': 'real', 'color': 'int'}
    heap_classes = {'TreeNode'}
    assumes = ('no two live keys are equal (a search tree keeps one node per key)',)

    def arr(self, x):
        N = x.int('array_size')
        data = x.eng.new_cell(x.st, ArrRec(N, z3.Const('nodes', II), ('ref', 'TreeNode')))
        return x.obj('ArrayForTrees', _size=N, _data=data, _dtype=VOpaque('dtype'), _num=x.int('num'), _last_pos_filled=x.int('last'), _load_factor=z3.Real('load_factor'),
                     **{'@' + g: z3.Const(g, s) for g, s in GH.items()})

    def setup(self, x):
        return [self.arr(x)], {}

    def comp_kind(self, e):
        return ('ref', 'TreeNode')

    def dicthint(self, eng, st, o):
        return named(st, o, {'new_indices': ('elem', 'int')})

    def modifies(self, c):
        s = c.raw('self')
        return [('fld', s, '_data', ('list', ('ref', 'TreeNode'))), ('fld', s, '_size'), ('fld', s, '_last_pos_filled'), ('fld', s, '@IX', 'ghost'), ('fld', s, '@C', 'ghost')] + [('heap', f) for f, _ in LINKS]


    def result(self, c):
        return ('opt', ('dict', 'elem', 'int'))

    def dict_post(self, c, a, b):
        """None and nothing moved, or the new index for every key"""
        r = c.res_v
        stay = ForAll([n_], Implies(a.T[n_], b.IX[n_] == a.IX[n_]), patterns=[b.IX[n_]])
        if r is None:
            return [('nothing-moved', stay)]
        isn, r = (B(r.isn), r.val) if isinstance(r, VOpt) else (BoolVal(False), r)
        r = c.eng.rec(c.new, r)
        if not hasattr(r, 'dom'):
            r = c.eng.as_dict(c.new, r, 'elem', 'int')
        key = b.h('key')
        return [('nothing-moved', Implies(isn, stay)), ('new-indices', ForAll([n_], Implies(And(Not(isn), a.T[n_]), And(r.dom[key[n_]], r.map[key[n_]] == b.IX[n_])), patterns=[a.T[n_], b.IX[n_]]))]


@register
class TA_modify(_TA):
    """compaction renumbers the nodes and keeps the tree"""
    name = FT + '_modify'

    def apply(self, eng, st, args, kw, node):
        before = getattr(eng.unit.k, 'before_modify', None)
        if before is not None:
            before(eng, st, args)
        return super().apply(eng, st, args, kw, node)

    def pre(self, c):
        return TA(c.o('self'), c.oheap).wf(c.old.nxt)

    def moved(self, c):
        a = TA(c.o('self'), c.oheap)
        shrink = c.ghost('shrink', z3.ToReal(a.num) < a.lf * z3.ToReal(a.N))
        IX = c.ghost('IX', lambda n: If(shrink, a.C[a.IX[n]], a.IX[n]))
        C = c.ghost('C', lambda i: If(shrink, If(i <= a.num, i, a.num), a.C[i]))
        return a, shrink, IX, C

    def ghosts_post(self, c):
        a, sh, IX, C = self.moved(c)
        return [(c.raw('self'), '@IX', IX), (c.raw('self'), '@C', C)]

    def post(self, c):
        a, sh, IX, C = self.moved(c)
        b = TA(c.n('self'), c.nheap, IX=IX, C=C)
        out = [('shrinks', If(sh, And(b.N == 2 * a.num + 1, b.last == a.num - 1), And(b.N == a.N, b.last == a.last)))]
        return out + self.dict_post(c, a, b) + b.wf(c.new.nxt)

    def lemmas_post(self, c):
        a, sh, IX, C = self.moved(c)
        b = TA(c.n('self'), c.nheap, IX=IX, C=C)
        return [('count-steps', ForAll([n_], Implies(a.T[n_], And(a.C[a.IX[n_] + 1] == a.C[a.IX[n_]] + 1, a.IX[n_] + 1 <= a.last + 1)), patterns=[a.T[n_], a.IX[n_]])),
                ('counted', ForAll([n_], Implies(a.T[n_], And(0 <= a.C[a.IX[n_]], a.C[a.IX[n_]] < a.num)), patterns=[a.T[n_], a.IX[n_]]))] + [
                ('to-' + f, ForAll([n_], Implies(And(a.T[n_], getattr(a, g)[n_] != 0), And(a.T[getattr(a, g)[n_]], b.link(f, n_) == some(If(sh, a.C[a.IX[getattr(a, g)[n_]]], a.IX[getattr(a, g)[n_]])))), patterns=[b.link(f, n_), getattr(a, g)[n_]])) for f, g in LINKS]

    def loops(self, u):
        def base(v):
            a = TA(v.old.self, v.old.heap)
            return a, v.arr_new._data
        def placed(v, a, D, i, j):
            d = v.new_indices
            return [('place', And(j == a.C[i], D.len == 2 * a.num + 1)),
                    ('placed', ForAll([n_], Implies(And(a.T[n_], a.IX[n_] < i), And(D.arr[a.C[a.IX[n_]]] == n_, d.dom[v.heap('key')[n_]], d.map[v.heap('key')[n_]] == a.C[a.IX[n_]])), patterns=[a.T[n_], a.IX[n_]])),
                    ('new-slots', fa('k', lambda k: Implies(rng(0, k, j), And(a.T[D.arr[k]], a.C[a.IX[D.arr[k]]] == k, a.IX[D.arr[k]] < i)), lambda k: D.arr[k])),
                    ('rest-empty', fa('k', lambda k: Implies(And(j <= k, k < 2 * a.num + 1), D.arr[k] == 0), lambda k: D.arr[k]))]
        def inv1(v):
            a, D = base(v)
            return placed(v, a, D, v.it, v.j)
        def inv2(v):
            a, D = base(v)
            out = placed(v, a, D, a.last + 1, v.j)
            for f, g in LINKS:
                G, h = getattr(a, g), v.heap(f)
                out.append((f, ForAll([n_], Implies(a.T[n_], h[n_] == If(G[n_] == 0, NO, some(If(a.C[a.IX[n_]] < v.it, a.C[a.IX[G[n_]]], a.IX[G[n_]])))), patterns=[h[n_]])))
            return out
        return {1: LoopSpec(inv=inv1), 2: LoopSpec(inv=inv2)}


class _Update(_TA):
    """the ghost fields already describe the new contents"""
    uses = ('TA_modify',)

    def modifies(self, c):
        return super().modifies(c) + [('fld', c.raw('self'), '_num'), ('list', c.o('self')._data.v, 'arr')]

    def ghosts_post(self, c):
        return [(c.raw('self'), '@' + g, fresh_const(g, GH[g])) for g in ('IX', 'C')] if c.calling else []

    def post(self, c):
        a, b = TA(c.o('self'), c.oheap), TA(c.n('self'), c.nheap)
        return self.dict_post(c, a, b) + b.wf(c.new.nxt) + [('number', b.num == a.num + self.change)]

    def put(self, eng, st, o, **kv):
        for n, t in kv.items():
            st.store[o.id] = st.store[o.id].set('@' + n, t)
            eng.mod(('fld', o.id, '@' + n))

    def apply(self, eng, st, args, kw, node):
        before = getattr(eng.unit.k, 'before_update', None)
        if before is not None:
            before(eng, st, args, node)
        return super().apply(eng, st, args, kw, node)


@register
class TA_append(_Update):
    """one more node, behind the others, before a possible compaction"""
    name = 'linear_data_structures.arrays:DynamicOneDimensionalArray.append'
    change = 1

    def setup(self, x):
        return [self.arr(x), x.ref('el', 'TreeNode')], {}

    def pre(self, c):
        a = TA(c.o('self'), c.oheap)
        el = ref_of(c.raw('el'))
        return a.nodes(c.old.nxt, el) + a.slots() + a.links() + [('new', And(a.T[el], a.IX[el] == a.last + 1))]

    def before_modify(self, eng, st, args):
        a = TA(wrap(eng, eng.unit.entry_state, args[0]), lambda f: st.heap[f])
        self.put(eng, st, args[0], C=ghost_in(st, 'C1', lambda i: If(i <= a.last + 1, a.C[i], a.num + 1)))

    def loops(self, u):
        def inv(v):
            a, D = TA(v.old.self, v.old.heap), v.arr_new._data
            return [('copied', And(D.len == 2 * a.N + 1, fa('k', lambda k: Implies(rng(0, k, v.it), D.arr[k] == a.A[k]), lambda k: D.arr[k]))),
                    ('rest-empty', fa('k', lambda k: Implies(And(v.it <= k, k < 2 * a.N + 1), D.arr[k] == 0), lambda k: D.arr[k]))]
        return {1: LoopSpec(inv=inv)}


@register
class TA_delete(_Update):
    """the node at the index is gone"""
    name = 'linear_data_structures.arrays:DynamicOneDimensionalArray.delete'
    change = -1

    def setup(self, x):
        return [self.arr(x), x.int('idx')], {}

    def pre(self, c):
        a = TA(c.o('self'), c.oheap)
        i = ix(c.raw('idx'))
        return present(c.raw('idx')) + a.nodes(c.old.nxt) + a.slots(i) + a.links() + [('there', And(0 <= i, i <= a.last, a.A[i] > 0, Not(a.T[a.A[i]])))]

    def before_modify(self, eng, st, args):
        a = TA(wrap(eng, eng.unit.entry_state, args[0]), lambda f: st.heap[f])
        i = z3.Int('idx')
        self.put(eng, st, args[0], C=ghost_in(st, 'C1', lambda k: If(k <= i, a.C[k], a.C[k] - 1)))
