"""Binomial heaps (C11).  SUB[n]: the nodes of the subtree of n (ghost), IX[n][m]: the child of n below which m lies (ghost)."""
from .common import *
from .graphs import named
from .travs import optint
from . import register
from pyvc.values import dt
from pyvc.spec import ghost_def

BH = 'trees.heaps:BinomialHeap.'
BT = 'miscellaneous_data_structures.binomial_trees:BinomialTree.'
NODE = ('ref', 'BinomialTreeNode')
TREE = ('ref', 'BinomialTree')
SB, SI = z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, IntS)
SSB, SSI = z3.ArraySort(IntS, SB), z3.ArraySort(IntS, SI)
_, c_mk, c_len, c_arr = dt(('list', NODE))
n_, m_, i_ = z3.Ints('n m i')



def ghost_in(st, n, f):
    k, fact = ghost_def(n, f, IntS)
    st.assume(fact)
    return k


def node_inv(h, U, SUB, IX, nxt):
    """every node of U is the root of a binomial tree in heap order"""
    ch, par, isr, key = h('children'), h('parent'), h('is_root'), h('key')
    kid = lambda n, i: c_arr(ch[n])[i]
    return [('nodes', ForAll([n_], Implies(U[n_], And(0 < n_, n_ < nxt, c_len(ch[n_]) >= 0, SUB[n_][n_])), patterns=[U[n_]])),
            ('children', ForAll([n_, i_], Implies(And(U[n_], rng(0, i_, c_len(ch[n_]))), And(U[kid(n_, i_)], c_len(ch[kid(n_, i_)]) == i_, par[kid(n_, i_)] == n_, Not(isr[kid(n_, i_)]), SUB[n_][kid(n_, i_)], kid(n_, i_) != n_, IX[n_][kid(n_, i_)] == i_)), patterns=[kid(n_, i_)])),
            ('below-child', ForAll([n_, i_, m_], Implies(And(U[n_], rng(0, i_, c_len(ch[n_])), SUB[kid(n_, i_)][m_]), And(SUB[n_][m_], m_ != n_, IX[n_][m_] == i_)), patterns=[SUB[kid(n_, i_)][m_]])),
            ('below', ForAll([n_, m_], Implies(And(U[n_], SUB[n_][m_]), And(U[m_], key[n_] <= key[m_], Implies(m_ != n_, And(Not(isr[m_]), rng(0, IX[n_][m_], c_len(ch[n_])), SUB[kid(n_, IX[n_][m_])][m_])))), patterns=[SUB[n_][m_]])),
            ('parents', ForAll([n_, m_], Implies(And(U[n_], SUB[n_][m_], m_ != n_), And(SUB[n_][par[m_]], SUB[par[m_]][m_], par[m_] != m_, c_len(ch[m_]) < c_len(ch[par[m_]]), c_len(ch[m_]) < c_len(ch[n_]))), patterns=[SUB[n_][m_]]))]


def tree_ok(h, U, t, nxt):
    """t is a tree whose root is no child"""
    r = h('root')[t]
    return And(0 < t, t < nxt, U[r], h('is_root')[r], h('order')[t] == c_len(h('children')[r]))


def forest(h, U, SUB, R, C, TX, nxt):
    """the trees of the list hold exactly the nodes C, each in one tree; the orders increase"""
    root, order = h('root'), h('order')
    r = lambda i: root[R.arr[i]]
    return [('trees', fa('i', lambda i: Implies(rng(0, i, R.len), tree_ok(h, U, R.arr[i], nxt)), lambda i: R.arr[i])),
            ('roots', fa('i', lambda i: Implies(rng(0, i, R.len), And(C[r(i)], TX[r(i)] == i)), lambda i: R.arr[i])),
            ('in-tree', ForAll([i_, m_], Implies(And(rng(0, i_, R.len), SUB[r(i_)][m_]), And(C[m_], TX[m_] == i_)), patterns=[SUB[r(i_)][m_]])),
            ('content', ForAll([m_], Implies(C[m_], And(U[m_], rng(0, TX[m_], R.len), SUB[r(TX[m_])][m_])), patterns=[C[m_]])),
            ('orders', fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < R.len), order[R.arr[i]] < order[R.arr[j]]), lambda i, j: (R.arr[i], R.arr[j])))]


class _Bin(Contract):
    fields = {'key': 'real', 'data': 'elem', 'parent': NODE, 'is_root': 'bool', 'children': ('list', NODE), 'root': NODE, 'order': 'int'}
    heap_classes = ('BinomialTreeNode', 'BinomialTree')
    assumes = ('a children array is used as the list of its entries (C06); keys are exact numbers',)

    def heap(self, x, rl=None, **kw):
        f = {'@P': z3.Const('P', SI), '@PI': z3.Const('PI', SI), '@SUB': z3.Const('SUB', SSB), '@IX': z3.Const('IX', SSI), '@U': z3.Const('U', SB)}
        f.update({'@' + k: v for k, v in kw.items()})
        return x.obj('BinomialHeap', root_list=rl or x.list('root_list', TREE), **f)

    def listhint(self, eng, st, o):
        return named(st, o, {'new_root_list': TREE, 'child_root_list': TREE})


@register
class Bin_add(_Bin):
    """the root of the other tree becomes the last child of the root"""
    name = BT + 'add_sub_tree'
    elem_class = 'BinomialTree'

    def setup(self, x):
        return [x.ref('self', 'BinomialTree'), x.ref('other_tree', 'BinomialTree')], {}

    def pre(self, c):
        h, s, t = c.oheap, c.raw('self').t, c.raw('other_tree').t
        return [('trees', And(s > 0, t > 0, h('root')[s] > 0, h('root')[t] > 0, h('root')[s] != h('root')[t])), ('length', c_len(h('children')[h('root')[s]]) >= 0)]

    def raises(self, c):
        return {'ValueError': c.oheap('order')[c.raw('self').t] != c.oheap('order')[c.raw('other_tree').t]}

    def modifies(self, c):
        return [('heap', f) for f in ('children', 'parent', 'is_root', 'order')]

    def post(self, c):
        h, k = c.oheap, c.nheap
        s, t = c.raw('self').t, c.raw('other_tree').t
        a, b = h('root')[s], h('root')[t]
        ch = h('children')[a]
        return [('child', k('children') == Store(h('children'), a, c_mk(*self.appended(ch, b)))), ('parent', k('parent') == Store(h('parent'), b, a)),
                ('no-root', k('is_root') == Store(h('is_root'), b, BoolVal(False))), ('order', k('order') == Store(h('order'), s, h('order')[s] + 1))]

    def appended(self, ch, b):
        args = {str(c_len): c_len(ch) + 1, str(c_arr): Store(c_arr(ch), c_len(ch), b)}
        return [args[str(f)] for f in (c_len, c_arr)] if c_mk.domain(0) == IntS else [args[str(f)] for f in (c_arr, c_len)]


@register
class Bin_merge_tree(_Bin):
    """the tree with the greater key is hung below the other one"""
    name = BH + 'merge_tree'
    uses = ('Bin_add',)

    def setup(self, x):
        return [self.heap(x), x.ref('tree1', 'BinomialTree'), x.ref('tree2', 'BinomialTree')], {}

    def pre(self, c):
        h, s, t = c.oheap, c.raw('tree1').t, c.raw('tree2').t
        o = c.o('self')
        return node_inv(h, o.g_U, o.g_SUB, o.g_IX, c.old.nxt) + [('trees', And(tree_ok(h, o.g_U, s, c.old.nxt), tree_ok(h, o.g_U, t, c.old.nxt), h('root')[s] != h('root')[t], h('order')[s] == h('order')[t])),
            ('disjoint', self.disjoint(o.g_SUB, h('root')[s], h('root')[t]))]

    def disjoint(self, SUB, a, b):
        return ForAll([m_], Not(And(SUB[a][m_], SUB[b][m_])), patterns=[SUB[a][m_], SUB[b][m_]])

    def result(self, c):
        return TREE

    def modifies(self, c):
        return [('heap', f) for f in ('children', 'parent', 'is_root', 'order')] + [('fld', c.raw('self'), g, 'ghost') for g in ('@SUB', '@IX')]

    def who(self, c):
        h, s, t = c.oheap, c.raw('tree1').t, c.raw('tree2').t
        first = h('key')[h('root')[s]] <= h('key')[h('root')[t]]
        w, l = If(first, s, t), If(first, t, s)
        return c.ghost('winner', w), c.ghost('loser', l)

    def ghosts_post(self, c):
        w, l = self.who(c)
        h, o = c.oheap, c.o('self')
        a, b = h('root')[w], h('root')[l]
        U1 = c.ghost('union', lambda m: Or(o.g_SUB[a][m], o.g_SUB[b][m]), IntS)
        I1 = c.ghost('index', lambda m: If(o.g_SUB[b][m], c_len(h('children')[a]), o.g_IX[a][m]), IntS)
        return [(c.raw('self'), '@SUB', Store(o.g_SUB, a, U1)), (c.raw('self'), '@IX', Store(o.g_IX, a, I1))]

    def post(self, c):
        w, l = self.who(c)
        h, k, o, n = c.oheap, c.nheap, c.o('self'), c.n('self')
        a, b = h('root')[w], h('root')[l]
        r = c.res_v.t
        return [('result', r == w)] + node_inv(k, n.g_U, n.g_SUB, n.g_IX, c.new.nxt) + [
            ('tree', And(tree_ok(k, n.g_U, r, c.new.nxt), k('order')[r] == h('order')[w] + 1)),
            ('children-else', ForAll([n_], Implies(n_ != a, k('children')[n_] == h('children')[n_]), patterns=[k('children')[n_]])),
            ('parents-else', ForAll([n_], Implies(n_ != b, And(k('parent')[n_] == h('parent')[n_], k('is_root')[n_] == h('is_root')[n_])), patterns=[k('parent')[n_], k('is_root')[n_]])),
            ('orders-else', ForAll([n_], Implies(n_ != w, k('order')[n_] == h('order')[n_]), patterns=[k('order')[n_]]))]


GHOSTS = ('@SUB', '@IX')
FIELDS = ('children', 'parent', 'is_root', 'order')


def else_same(h, k, o, n, C):
    """nothing changes outside the nodes C and the trees that have their roots there"""
    root = h('root')
    return [('nodes-else', ForAll([n_], Implies(Not(C[n_]), And(k('children')[n_] == h('children')[n_], k('parent')[n_] == h('parent')[n_], k('is_root')[n_] == h('is_root')[n_], n.g_SUB[n_] == o.g_SUB[n_])), patterns=[k('children')[n_], k('is_root')[n_], n.g_SUB[n_]])),
            ('trees-else', ForAll([n_], Implies(Not(C[root[n_]]), k('order')[n_] == h('order')[n_]), patterns=[k('order')[n_]]))]


@register
class Bin_last(_Bin):
    """the new tree is joined with the last one of equal order, or put behind it"""
    name = BH + '_merge_heap_last_new_tree'
    uses = ('Bin_merge_tree',)

    def setup(self, x):
        return [self.heap(x), x.list('new_root_list', TREE), x.ref('new_tree', 'BinomialTree')], {}

    def gh(self, c):
        fr = c.old.frames[c.old.fid]
        if '@g_C' in fr:            # the call in merge
            return fr['@g_C'], fr['@g_NT']
        return z3.Const('C', SB), z3.Const('NT', SI)

    def pre(self, c):
        h, o, t, R = c.oheap, c.o('self'), c.raw('new_tree').t, c.o('new_root_list')
        C, NT = self.gh(c)
        return node_inv(h, o.g_U, o.g_SUB, o.g_IX, c.old.nxt) + forest(h, o.g_U, o.g_SUB, R, C, NT, c.old.nxt) + [
            ('new-tree', tree_ok(h, o.g_U, t, c.old.nxt)), ('disjoint', ForAll([m_], Not(And(C[m_], o.g_SUB[h('root')[t]][m_])), patterns=[C[m_], o.g_SUB[h('root')[t]][m_]])),
            ('order', Implies(R.len > 0, h('order')[R.arr[R.len - 1]] <= h('order')[t]))]

    def modifies(self, c):
        return [('heap', f) for f in FIELDS] + [('fld', c.raw('self'), g, 'ghost') for g in GHOSTS] + [('list', c.raw('new_root_list'), 'both')]

    def ghosts_post(self, c):
        if c.calling:
            return [(c.raw('self'), g, fresh_const(g[1:], s)) for g, s in zip(GHOSTS, (SSB, SSI))]
        return []

    def post(self, c):
        h, k, o, n, t = c.oheap, c.nheap, c.o('self'), c.n('self'), c.raw('new_tree').t
        C, NT = self.gh(c)
        R, Q = c.o('new_root_list'), c.n('new_root_list')
        S = o.g_SUB[h('root')[t]]
        C1 = c.ghost('C1', lambda m: Or(C[m], S[m]), IntS)
        NT1 = c.ghost('NT1', lambda m: If(S[m], Q.len - 1, NT[m]), IntS)
        c.eng.bin_out = (C1, NT1)
        joined = And(R.len > 0, h('order')[R.arr[R.len - 1]] == h('order')[t])
        return node_inv(k, n.g_U, n.g_SUB, n.g_IX, c.new.nxt) + forest(k, n.g_U, n.g_SUB, Q, C1, NT1, c.new.nxt) + else_same(h, k, o, n, C1) + [
            ('last', And(Q.len == If(joined, R.len, R.len + 1), k('order')[Q.arr[Q.len - 1]] == If(joined, h('order')[t] + 1, h('order')[t])))]

    def apply(self, eng, st, args, kw, node):
        out = super().apply(eng, st, args, kw, node)
        for s, v in out:
            s.frames[s.fid]['@g_C'], s.frames[s.fid]['@g_NT'] = eng.bin_out
        return out


@register
class Bin_merge(_Bin):
    """the heap holds the nodes of both"""
    name = BH + 'merge'
    uses = ('Bin_merge_tree', 'Bin_last')

    def setup(self, x):
        g = lambda k: {'S': z3.Const('S%d' % k, SB), 'TX': z3.Const('TX%d' % k, SI)}
        return [self.heap(x, **g(1)), self.heap(x, x.list('other_root_list', TREE), **g(2))], {}

    def apply(self, eng, st, args, kw, node):
        before = getattr(eng.unit.k, 'before_merge', None)
        if before is not None:
            before(eng, st, args, node)
        return super().apply(eng, st, args, kw, node)

    def pre(self, c):
        h, a, b = c.oheap, c.o('self'), c.o('other_heap')
        return node_inv(h, a.g_U, a.g_SUB, a.g_IX, c.old.nxt) + [(n + '-1', f) for n, f in forest(h, a.g_U, a.g_SUB, a.root_list, a.g_S, a.g_TX, c.old.nxt)] + \
            [(n + '-2', f) for n, f in forest(h, a.g_U, a.g_SUB, b.root_list, b.g_S, b.g_TX, c.old.nxt)] + [('disjoint', ForAll([m_], And(Not(And(a.g_S[m_], b.g_S[m_])), a.g_U[m_] == Or(a.g_S[m_], b.g_S[m_])), patterns=[a.g_S[m_], b.g_S[m_], a.g_U[m_]]))]

    def modifies(self, c):
        return [('heap', f) for f in FIELDS] + [('fld', c.raw('self'), g, 'ghost') for g in GHOSTS + ('@S', '@TX')] + [('fld', c.raw('self'), 'root_list')]

    def result_list(self, c):
        return TREE

    def ghosts_post(self, c):
        if c.calling:
            return [(c.raw('self'), g, fresh_const(g[1:], s)) for g, s in zip(GHOSTS + ('@TX',), (SSB, SSI, SI))] + [(c.raw('self'), '@S', c.o('self').g_U)]
        return [(c.raw('self'), '@S', c.o('self').g_U), (c.raw('self'), '@TX', c.local('@g_NT'))]

    def post(self, c):
        k, n = c.nheap, c.n('self')
        return node_inv(k, n.g_U, n.g_SUB, n.g_IX, c.new.nxt) + forest(k, n.g_U, n.g_SUB, n.root_list, n.g_S, n.g_TX, c.new.nxt)

    def loops(self, u):
        def inv(v):
            h, h0, a, b, a0 = v.heap, v.old.heap, v.self, v.other_heap, v.old.self
            R1, R2, i, j, Q = a0.root_list, v.old.other_heap.root_list, v.i, v.j, v.new_root_list
            C, NT = v.g('C'), v.g('NT')
            U, SUB = a.g_U, a.g_SUB
            root = h('root')
            out = node_inv(h, U, SUB, a.g_IX, v.nxt) + forest(h, U, SUB, Q, C, NT, v.nxt)
            out += [('position', And(0 <= i, i <= R1.len, 0 <= j, j <= R2.len)),
                    ('done', ForAll([m_], C[m_] == Or(And(a0.g_S[m_], a0.g_TX[m_] < i), And(v.old.other_heap.g_S[m_], v.old.other_heap.g_TX[m_] < j)), patterns=[C[m_], a0.g_S[m_], v.old.other_heap.g_S[m_]]))]
            for nm, R, p in (('1', R1, i), ('2', R2, j)):
                out += [('to-come-' + nm, fa('k', lambda k: Implies(And(p <= k, k < R.len), And(tree_ok(h, U, R.arr[k], v.nxt), Not(C[root[R.arr[k]]]), h('order')[R.arr[k]] == h0('order')[R.arr[k]], SUB[root[R.arr[k]]] == a0.g_SUB[root[R.arr[k]]])), lambda k: R.arr[k])),
                        ('last-' + nm, Implies(And(p < R.len, Q.len > 0), h('order')[Q.arr[Q.len - 1]] <= h('order')[R.arr[p]]))]
            return out
        same = lambda v: [('same', And(v.i == v.entry.i, v.j == v.entry.j))]
        gi = lambda v: {'C': z3.K(IntS, BoolVal(False)), 'NT': z3.K(IntS, IntVal(0))}
        keep = lambda v: {'C': v.g('C'), 'NT': v.g('NT')}
        var = lambda v: v.old.self.root_list.len + v.old.other_heap.root_list.len - v.i - v.j
        K_ = {'new_tree': TREE}
        return {1: LoopSpec(inv=inv, ghosts=('C', 'NT'), ghost_init=gi, variant=var, kinds=K_),
                2: LoopSpec(inv=same, ghosts=(), variant=var), 3: LoopSpec(inv=same, ghosts=(), variant=var),
                4: LoopSpec(inv=lambda v: inv(v) + [('one-list', Or(v.i == v.old.self.root_list.len, v.j == v.old.other_heap.root_list.len))], ghosts=('C', 'NT'), ghost_init=keep, variant=var, kinds=K_),
                5: LoopSpec(inv=lambda v: inv(v) + [('one-list', v.i == v.old.self.root_list.len)], ghosts=('C', 'NT'), ghost_init=keep, variant=var, kinds=K_)}


@register
class Bin_no_children(Contract):
    name = 'linear_data_structures.arrays:DynamicOneDimensionalArray.__new__'
    verify_self = False

    def apply(self, eng, st, args, kw, node):
        eng.used_contracts.add(self.name)
        eng.unit.trust('a new DynamicOneDimensionalArray of size 0 has no entries (C06)')
        eng.oblige('pre:DynamicOneDimensionalArray:no-entries', st, BoolVal(len(args) == 3 and args[2] == 0 and not kw), getattr(node, 'lineno', 0))
        o = eng.fresh(st, ('list', NODE), 'children')
        st.assume(eng.rec(st, o).len == 0)
        return [(st, o)]


class _BinHeap(_Bin):
    """a heap of its own: all nodes are in its trees"""
    def setup(self, x):
        return [self.me(x)], {}

    def me(self, x):
        return self.heap(x, x.list('root_list', TREE), S=z3.Const('S', SB), TX=z3.Const('TX', SI))

    def wf(self, h, s, nxt):
        return node_inv(h, s.g_U, s.g_SUB, s.g_IX, nxt) + forest(h, s.g_U, s.g_SUB, s.root_list, s.g_S, s.g_TX, nxt) + [('all-nodes', ForAll([m_], s.g_U[m_] == s.g_S[m_], patterns=[s.g_U[m_], s.g_S[m_]]))]

    def pre(self, c):
        return self.wf(c.oheap, c.o('self'), c.old.nxt)

    def result(self, c):
        return 'none'

    def comp_kind(self, e):
        return 'bool'

    def first(self, h, s, d):
        """d is the root of the first tree with the least key"""
        R, root, key = s.root_list, h('root'), h('key')
        return And(rng(0, s.g_TX[d], R.len), d == root[R.arr[s.g_TX[d]]], fa('k', lambda k: Implies(And(0 <= k, k < s.g_TX[d]), key[d] < key[root[R.arr[k]]]), lambda k: R.arr[k]))

    def least(self, h, s, d):
        return And(s.g_S[d], ForAll([m_], Implies(s.g_S[m_], h('key')[d] <= h('key')[m_]), patterns=[s.g_S[m_]]))


@register
class Bin_find(_BinHeap):
    """the root of least key"""
    name = BH + 'find_minimum'
    variants = ('node', 'both')

    def setup(self, x):
        return [self.me(x)], ({'get_index': True} if x.variant == 'both' else {})

    def both(self, c):
        if not c.calling:
            return c.eng.unit.variant == 'both'
        return c.eng.rec(c.old, c.raw('kwargs')).d.get('get_index') is not None

    def raises(self, c):
        return {'IndexError': c.o('self').root_list.len == 0}

    def modifies(self, c):
        return []

    def result(self, c):
        c.calling = True
        return ('tuple', NODE, 'int') if self.both(c) else NODE

    def post(self, c):
        h, s = c.oheap, c.o('self')
        d = c.res_v
        out = []
        if self.both(c):
            d, i = d
            n, i = optint(i)
            out = [('index', And(Not(n), rng(0, i, s.root_list.len), d.t == h('root')[s.root_list.arr[i]]))]
        return out + [('root', And(h('is_root')[d.t], d.t > 0)), ('least', self.least(h, s, d.t)), ('first', self.first(h, s, d.t))]

    def loops(self, u):
        def inv(v):
            h, R, i = v.heap, v.self.root_list, v.it
            n, m = optint(v.raw('min_idx'))
            d, root, key = v.min_node.t, h('root'), h('key')
            return [('index', And(v.idx == i, n == (i == 0), (d == 0) == (i == 0), Implies(i > 0, And(rng(0, m, i), d == root[R.arr[m]])))),
                    ('least', fa('k', lambda k: Implies(rng(0, k, i), And(key[d] <= key[root[R.arr[k]]], Implies(k < m, key[d] < key[root[R.arr[k]]]))), lambda k: R.arr[k]))]
        return {1: LoopSpec(inv=inv, kinds={'min_node': NODE, 'min_idx': 'optint'})}


class _Out(_BinHeap):
    """the ghost state after the call"""
    def modifies(self, c):
        return [('heap', f) for f in FIELDS] + [('fld', c.raw('self'), g, 'ghost') for g in GHOSTS + ('@S', '@TX', '@U')] + [('fld', c.raw('self'), 'root_list'), ('nxt',)]

    def result_list(self, c):
        return TREE

    def ghosts_post(self, c):
        if c.calling:
            return [(c.raw('self'), g, fresh_const(g[1:], s)) for g, s in (('@SUB', SSB), ('@IX', SSI), ('@TX', SI), ('@S', SB), ('@U', SB))]
        return []

    def put(self, eng, st, o, **kv):
        for n, t in kv.items():
            st.store[o.id] = st.store[o.id].set('@' + n, t)
            eng.mod(('fld', o.id, '@' + n))


@register
class Bin_insert(_Out):
    """one more node with the entry"""
    name = BH + 'insert'
    uses = ('Bin_no_children', 'Bin_merge')

    def setup(self, x):
        return [self.me(x), z3.Real('key'), z3.Const('data', E)], {}

    def modifies(self, c):
        return super().modifies(c) + [('heap', f) for f in ('key', 'data', 'root')]

    def before_merge(self, eng, st, args, node):
        s, o = args
        v = wrap(eng, st, s)
        t = wrap(eng, st, o).root_list.arr[0]
        N = st.heap['root'][t]
        eng.new_node = N
        self.put(eng, st, s, U=Store(v.g_U, N, BoolVal(True)), SUB=Store(v.g_SUB, N, Store(z3.K(IntS, BoolVal(False)), N, BoolVal(True))))
        self.put(eng, st, o, S=Store(z3.K(IntS, BoolVal(False)), N, BoolVal(True)), TX=z3.K(IntS, IntVal(0)))

    def post(self, c):
        h, k, o, n = c.oheap, c.nheap, c.o('self'), c.n('self')
        N = c.choose('new', IntS, lambda g: BoolVal(True)) if c.calling else c.eng.new_node
        same = And(*[k(f)[m_] == h(f)[m_] for f in ('key', 'data')])
        return self.wf(k, n, c.new.nxt) + [
            ('entry', And(Not(o.g_S[N]), n.g_S == Store(o.g_S, N, BoolVal(True)), k('key')[N] == c.raw('key'), k('data')[N] == c.raw('data'))),
            ('entries-kept', ForAll([m_], Implies(o.g_S[m_], same), patterns=[o.g_S[m_]]))]


@register
class Bin_delete_min(_Out):
    """exactly one node of least key is gone"""
    name = BH + 'delete_minimum'
    uses = ('Bin_find', 'Bin_merge')

    def raises(self, c):
        return {'IndexError': c.o('self').root_list.len == 0}

    def modifies(self, c):
        return super().modifies(c) + [('heap', 'root'), ('list', c.o('self').root_list.v, 'both')]

    def before_merge(self, eng, st, args, node):
        s, o = args
        v = wrap(eng, st, s)
        d, i = st.frames[st.fid]['min_node'], st.frames[st.fid]['min_idx']
        d, i = d.t, optint(i)[1]
        eng.dropped = d
        g = lambda n, f: ghost_in(st, n, f)
        below = v.g_SUB[d]
        R0, R1 = wrap(eng, eng.unit.entry_state, s).root_list, v.root_list
        S0, TX0, rt = v.g_S, v.g_TX, st.heap['root']
        S1, TX1 = g('S1', lambda m: And(S0[m], Not(below[m]))), g('TX1', lambda m: If(TX0[m] > i, TX0[m] - 1, TX0[m]))
        for n, f in (('shorter', R1.len == R0.len - 1), ('removed', fa('k', lambda k: Implies(And(rng(0, k, R0.len), k != i), R1.arr[If(k < i, k, k - 1)] == R0.arr[k]), lambda k: R0.arr[k])),
                     ('same-roots', fa('k', lambda k: Implies(rng(0, k, R0.len), And(rt[R0.arr[k]] == eng.unit.entry_state.heap['root'][R0.arr[k]], S0[rt[R0.arr[k]]], TX0[rt[R0.arr[k]]] == k)), lambda k: R0.arr[k])),
                     ('min-root', And(rng(0, i, R0.len), rt[R0.arr[i]] == d)),
                     ('kept-before', fa('k', lambda k: Implies(And(rng(0, k, R1.len), k < i), And(R1.arr[k] == R0.arr[k], S0[rt[R0.arr[k]]], TX0[rt[R0.arr[k]]] == k)), lambda k: R1.arr[k])),
                     ('kept-after', fa('k', lambda k: Implies(And(rng(0, k, R1.len), k >= i), And(R1.arr[k] == R0.arr[k + 1], S0[rt[R0.arr[k + 1]]], TX0[rt[R0.arr[k + 1]]] == k + 1)), lambda k: R1.arr[k])),
                     ('below-min', ForAll([m_], Implies(below[m_], TX0[m_] == i), patterns=[below[m_]])),
                     ('kept', fa('k', lambda k: Implies(rng(0, k, R1.len), And(S1[rt[R1.arr[k]]], TX1[rt[R1.arr[k]]] == k)), lambda k: R1.arr[k])),
                     ('elsewhere', ForAll([m_], Implies(S1[m_], And(TX0[m_] != i, rng(0, TX0[m_], R0.len), v.g_SUB[st.heap['root'][R0.arr[TX0[m_]]]][m_], R1.arr[TX1[m_]] == R0.arr[TX0[m_]])), patterns=[S1[m_]]))):
            eng.oblige('lemma:' + n, st, f, getattr(node, 'lineno', 0))
            st.assume(f)
        self.put(eng, st, s, U=Store(v.g_U, d, BoolVal(False)), S=S1, TX=TX1)
        self.put(eng, st, o, S=Store(below, d, BoolVal(False)), TX=v.g_IX[d])

    def post(self, c):
        h, k, o, n = c.oheap, c.nheap, c.o('self'), c.n('self')
        if c.calling:
            c.eng.dropped = c.choose('gone', IntS, lambda g: BoolVal(True))
        d = c.eng.dropped
        return self.wf(k, n, c.new.nxt) + [('least', self.least(h, o, d)), ('first', self.first(h, o, d)), ('gone', ForAll([m_], n.g_S[m_] == And(o.g_S[m_], m_ != d), patterns=[n.g_S[m_], o.g_S[m_]]))]

    def loops(self, u):
        def inv(v):
            h, h0, a, L, i, d = v.heap, v.old.heap, v.old.self, v.child_root_list, v.it, v.min_node.t
            kid = lambda j: c_arr(h('children')[d])[j]
            nx0 = v.old.nxt
            return [('trees', And(L.len == i, v.nxt >= nx0, fa('q', lambda q: Implies(rng(0, q, i), And(nx0 <= L.arr[q], L.arr[q] < v.nxt, h('root')[L.arr[q]] == kid(q), h('order')[L.arr[q]] == q)), lambda q: L.arr[q]))),
                    ('old-trees', ForAll([n_], Implies(n_ < nx0, And(h('root')[n_] == h0('root')[n_], h('order')[n_] == h0('order')[n_])), patterns=[h('root')[n_], h('order')[n_]])),
                    ('roots', ForAll([n_], h('is_root')[n_] == Or(h0('is_root')[n_], And(a.g_SUB[d][n_], rng(0, a.g_IX[d][n_], i), n_ == kid(a.g_IX[d][n_]))), patterns=[h('is_root')[n_]]))]
        return {1: LoopSpec(inv=inv)}


@register
class Bin_decrease(_BinHeap):
    """the key of the entry is lowered; entries move between nodes (P: where the entry of a node comes from)"""
    name = BH + 'decrease_key'

    def setup(self, x):
        return [self.me(x), x.ref('node', 'BinomialTreeNode'), z3.Real('new_key')], {}

    def pre(self, c):
        return super().pre(c) + [('node', c.o('self').g_S[c.raw('node').t])]

    def raises(self, c):
        return {'ValueError': c.oheap('key')[c.raw('node').t] <= c.raw('new_key')}

    def modifies(self, c):
        return [('heap', 'key'), ('heap', 'data'), ('fld', c.raw('self'), '@P', 'ghost'), ('fld', c.raw('self'), '@PI', 'ghost')]

    def ghosts_post(self, c):
        g = (fresh_const('P', SI), fresh_const('PI', SI)) if c.calling else (c.local('@g_P'), c.local('@g_PI'))
        return [(c.raw('self'), '@P', g[0]), (c.raw('self'), '@PI', g[1])]

    def moved(self, h, k, S, P, PI, node, new):
        return [('moved', ForAll([m_], Implies(S[m_], And(S[P[m_]], PI[P[m_]] == m_, S[PI[m_]], P[PI[m_]] == m_)), patterns=[P[m_], PI[m_], S[m_]])),
                ('entries', ForAll([m_], Implies(S[m_], And(k('key')[m_] == If(P[m_] == node, new, h('key')[P[m_]]), k('data')[m_] == h('data')[P[m_]])), patterns=[k('key')[m_], k('data')[m_], P[m_]]))]

    def post(self, c):
        n = c.n('self')
        return self.wf(c.nheap, n, c.new.nxt) + self.moved(c.oheap, c.nheap, n.g_S, n.g_P, n.g_PI, c.raw('node').t, c.raw('new_key'))

    def loops(self, u):
        def inv(v):
            h, h0, a, x = v.heap, v.old.heap, v.self, v.local('node').t
            nd = dict(node_inv(h, a.g_U, a.g_SUB, a.g_IX, v.nxt))
            key, U, SUB, P, PI = h('key'), a.g_U, a.g_SUB, v.g('P'), v.g('PI')
            x0 = v.old.local('node').t
            return [('node', And(U[x], SUB[v.g('r')][x], U[v.g('r')], P[x] == x0, key[x] == v.new_key))] + self.moved(h0, h, a.g_S, P, PI, x0, v.new_key) + [
                ('order', ForAll([n_, m_], Implies(And(U[n_], SUB[n_][m_], m_ != x), key[n_] <= key[m_]), patterns=[SUB[n_][m_]]))]

        def init(v):
            a = v.self
            idt = v.define('P', lambda m: m)
            return {'P': idt, 'PI': idt, 'r': v.define('r', v.heap('root')[a.root_list.arr[a.g_TX[v.local('node').t]]])}

        def step(v, h):
            a, b = h.local('node').t, v.local('node').t
            P, PI = h.g('P'), h.g('PI')
            Pa, Pb = v.define('Pa', P[a]), v.define('Pb', P[b])
            return {'P': Store(Store(P, a, Pb), b, Pa), 'PI': Store(Store(PI, Pa, b), Pb, a), 'r': h.g('r')}
        def child(v, h):
            a, b, s, ch = h.local('node').t, v.local('node').t, v.self, h.heap('children')
            k = c_arr(ch[b])[s.g_IX[b][a]]
            return [('subtree', And(s.g_SUB[b][a], s.g_SUB[k][a])), ('no-cycle', Not(s.g_SUB[k][b])), ('child', k == a),
                    ('below', ForAll([m_], Implies(s.g_SUB[a][m_], And(s.g_SUB[b][m_], m_ != b)), patterns=[s.g_SUB[a][m_]]))]
        return {1: LoopSpec(inv=inv, ghosts=('P', 'PI'), end_lemmas=child, ghost_init=init, ghost_step=step, variant=lambda v: c_len(v.heap('children')[v.g('r')]) - c_len(v.heap('children')[v.local('node').t]))}


@register
class Bin_delete(_Out):
    """exactly the entry of the node is gone"""
    name = BH + 'delete'
    uses = ('Bin_find', 'Bin_decrease', 'Bin_delete_min')

    def setup(self, x):
        return [self.me(x), x.ref('node', 'BinomialTreeNode')], {}

    def pre(self, c):
        return super().pre(c) + [('node', c.o('self').g_S[c.raw('node').t])]

    def modifies(self, c):
        return super().modifies(c) + [('heap', f) for f in ('root', 'key', 'data')] + [('list', c.o('self').root_list.v, 'both')] + [('fld', c.raw('self'), g, 'ghost') for g in ('@P', '@PI')]

    def post(self, c):
        h, k, o, n, x = c.oheap, c.nheap, c.o('self'), c.n('self'), c.raw('node').t
        S, T_, P, PI = o.g_S, n.g_S, n.g_P, n.g_PI
        return self.wf(k, n, c.new.nxt) + [
            ('entries-kept', ForAll([m_], Implies(T_[m_], And(S[P[m_]], P[m_] != x, PI[P[m_]] == m_, k('key')[m_] == h('key')[P[m_]], k('data')[m_] == h('data')[P[m_]])), patterns=[T_[m_]])),
            ('only-one-gone', ForAll([m_], Implies(And(S[m_], m_ != x), And(T_[PI[m_]], P[PI[m_]] == m_)), patterns=[S[m_]]))]


@register
class Bin_empty(_BinHeap):
    name = BH + 'is_empty'

    def modifies(self, c):
        return []

    def result(self, c):
        return 'bool'

    def post(self, c):
        s, r = c.o('self'), c.res_v
        r = B(r)
        return [('empty', Implies(r, ForAll([m_], Not(s.g_S[m_]), patterns=[s.g_S[m_]]))), ('not-empty', Implies(Not(r), s.g_S[c.oheap('root')[s.root_list.arr[0]]]))]


@register
class Bin_new(_Bin):
    name = BH + '__new__'

    def setup(self, x):
        return [x.eng.prog.find_class('BinomialHeap')], {}

    def modifies(self, c):
        return []

    def post(self, c):
        return [('empty', I(c.res.root_list.len) == 0)]


PQB = 'miscellaneous_data_structures.queue:BinomialHeapPriorityQueue.'


class _BPQ(_BinHeap):
    """priority queue on a binomial heap"""
    def setup(self, x):
        return [self.q(x)], {}

    def q(self, x):
        return x.obj('BinomialHeapPriorityQueue', items=self.me(x))

    def pre(self, c):
        return self.wf(c.oheap, c.o('self').items, c.old.nxt)

    def mods(self, c):
        s = c.o('self').items.v
        return [('heap', f) for f in FIELDS] + [('fld', s, g, 'ghost') for g in GHOSTS + ('@S', '@TX', '@U')] + [('fld', s, 'root_list'), ('nxt',)] + [('list', c.o('self').items.root_list.v, 'both')]


@register
class PQB_push(_BPQ):
    name = PQB + 'push'
    uses = ('Bin_insert',)

    def setup(self, x):
        return [self.q(x), z3.Const('value', E), z3.Real('priority')], {}

    def modifies(self, c):
        return self.mods(c) + [('heap', f) for f in ('key', 'data', 'root')]

    def post(self, c):
        h, k, o, n = c.oheap, c.nheap, c.o('self').items, c.n('self').items
        N = fresh_const('N', IntS)
        return self.wf(k, n, c.new.nxt) + [
            ('one-more', z3.Exists([N], And(Not(o.g_S[N]), n.g_S == Store(o.g_S, N, BoolVal(True)), k('key')[N] == c.raw('priority'), k('data')[N] == c.raw('value')))),
            ('entries-kept', ForAll([m_], Implies(o.g_S[m_], And(k('key')[m_] == h('key')[m_], k('data')[m_] == h('data')[m_])), patterns=[o.g_S[m_]]))]


@register
class PQB_pop(_BPQ):
    name = PQB + 'pop'
    uses = ('Bin_find', 'Bin_delete_min')

    def raises(self, c):
        return {'IndexError': c.o('self').items.root_list.len == 0}

    def modifies(self, c):
        return self.mods(c) + [('heap', 'root')]

    def result(self, c):
        return 'elem'

    def post(self, c):
        h, k, o, n = c.oheap, c.nheap, c.o('self').items, c.n('self').items
        d = c.eng.dropped
        return self.wf(k, n, c.new.nxt) + [('least', And(self.least(h, o, d), c.res == h('data')[d])), ('gone', ForAll([m_], n.g_S[m_] == And(o.g_S[m_], m_ != d), patterns=[n.g_S[m_], o.g_S[m_]]))]


@register
class PQB_peek(_BPQ):
    name = PQB + 'peek'
    uses = ('Bin_find',)

    def raises(self, c):
        return {'IndexError': c.o('self').items.root_list.len == 0}

    def modifies(self, c):
        return []

    def result(self, c):
        return NODE

    def post(self, c):
        return [('least', self.least(c.oheap, c.o('self').items, c.res.t))]


@register
class PQB_empty(_BPQ):
    name = PQB + 'is_empty'
    uses = ('Bin_empty',)
    modifies = lambda self, c: []

    def result(self, c):
        return 'bool'

    def post(self, c):
        s, r = c.o('self').items, B(c.res_v)
        return [('empty', Implies(r, ForAll([m_], Not(s.g_S[m_]), patterns=[s.g_S[m_]]))), ('not-empty', Implies(Not(r), s.g_S[c.oheap('root')[s.root_list.arr[0]]]))]


@register
class PQB_new(_Bin):
    name = PQB + '__new__'
    uses = ()

    def setup(self, x):
        return [x.eng.prog.find_class('BinomialHeapPriorityQueue')], {}

    def modifies(self, c):
        return []

    def post(self, c):
        return [('empty', I(c.res.items.root_list.len) == 0)]
