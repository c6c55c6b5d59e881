"""Traversals of binary trees (C18).  The shape of the tree is given by Lf/Rg (index of the left/right child, -1: none), T(i): i is
in the traversed subtree, sz(i): size of the subtree of i; pre, ino, post, dep number its nodes by the recursive definition of
the orders (such numberings exist exactly when the links form a finite tree)."""
from .common import *
from .absq import ABS
from .lemmas import Lemma
from . import register

BT = 'trees.binary_trees:BinaryTreeTraversal.'
Lf, Rg = z3.Function('Lf', IntS, IntS), z3.Function('Rg', IntS, IntS)
T = z3.Function('T', IntS, BoolS)
sz, pre_, ino, post_, dep = (z3.Function(n, IntS, IntS) for n in ('sz', 'preorder', 'inorder', 'postorder', 'depth'))
root = z3.Int('root')
A = z3.Const('nodes', z3.ArraySort(IntS, IntS))
N = z3.Int('array_size')
AIi = z3.ArraySort(IntS, IntS)


def s0(c):
    return If(c == -1, 0, sz(c))


def at(i, *fs):
    return [f(i) for f in fs]


def node(i):
    """facts about one node of the subtree"""
    l, r = Lf(i), Rg(i)
    return And(0 <= i, i < N, A[i] > 0, l >= -1, r >= -1, Implies(l != -1, And(T(l), l != r)), Implies(r != -1, T(r)), sz(i) >= 1, sz(i) == 1 + s0(l) + s0(r))


TREE = And(T(root), ForAll([z3.Int('i')], Implies(T(z3.Int('i')), node(z3.Int('i'))), patterns=[T(z3.Int('i')), Lf(z3.Int('i')), Rg(z3.Int('i'))]))


def numbering(f, at_root, at_left, at_right):
    """f numbers the nodes of the subtree 0 .. sz(root)-1, by recursion from the root"""
    i, j = z3.Ints('i j')
    return And(f(root) == at_root,
               ForAll([i], Implies(T(i), And(0 <= f(i), f(i) < sz(root), Implies(Lf(i) != -1, f(Lf(i)) == at_left(i)), Implies(Rg(i) != -1, f(Rg(i)) == at_right(i)))), patterns=[f(i), Lf(i), Rg(i)]),
               ForAll([i, j], Implies(And(T(i), T(j), f(i) == f(j)), i == j), patterns=[MultiPattern(f(i), f(j))]))


PRE = numbering(pre_, 0, lambda i: pre_(i) + 1, lambda i: pre_(i) + 1 + s0(Lf(i)))
IN = numbering(ino, s0(Lf(root)), lambda i: ino(i) - 1 - s0(Rg(Lf(i))), lambda i: ino(i) + 1 + s0(Lf(Rg(i))))
POST = numbering(post_, sz(root) - 1, lambda i: post_(i) - 1 - s0(Rg(i)), lambda i: post_(i) - 1)


def links(h):
    oi = lambda t, x: And((t == OI.oi_none) == (x == -1), Implies(x != -1, OI.oi_val(t) == x))
    return fa('i', lambda i: Implies(T(i), And(oi(h('left')[A[i]], Lf(i)), oi(h('right')[A[i]], Rg(i)))), lambda i: A[i], lambda i: Lf(i), lambda i: Rg(i))


def optint(x):
    return (BoolVal(x is None), I(0 if x is None else x)) if not isinstance(x, VOpt) else (B(x.isn), x.val)


class _Trav(Contract):
    fields = {'left': 'optint', 'right': 'optint', 'key': 'elem', 'data': 'elem', 'parent': 'optint'}
    heap_classes = {'TreeNode'}
    elem_class = 'TreeNode'
    uses = tuple(ABS)
    order = pre_
    axioms = (TREE, PRE)
    assumes = ('the links form a finite tree (C16): subtree sizes and the order numberings of its nodes exist',)

    def listhint(self, eng, st, o):
        for fr in st.frames.values():
            if fr.get('visit') == o:
                return ('ref', 'TreeNode')
        return 'int' if any(isinstance(r, ObjRec) and r.f.get('%seq') == o for r in st.store.values()) else None

    def me(self, x):
        data = x.eng.new_cell(x.st, ArrRec(N, A, ('ref', 'TreeNode')))
        arr = x.obj('ArrayForTrees', _size=N, _data=data, _dtype=VOpaque('TreeNode'), _num=x.int('num'), _last_pos_filled=x.int('last'), _load_factor=z3.Real('load_factor'))
        bst = x.obj('BinarySearchTree', tree=arr, root_idx=root, size=x.int('size'), is_order_statistic=z3.Bool('os'))
        return x.obj('BinaryTreeTraversal', tree=bst)

    def setup(self, x):
        return [self.me(x), root], {}

    def pre(self, c):
        return [('links', links(c.oheap))]

    def number(self, i):
        return type(self).__dict__.get('order', self.order)(i)

    def post(self, c):
        f = type(self).order
        return [('as-many-as-nodes', c.res.len == sz(root)),
                ('in-the-order', fa('i', lambda i: Implies(T(i), c.res.arr[f(i)] == A[i]), lambda i: f(i)))]

    def lemmas_post(self, c):
        return []


def vis(v, f=None):
    """the visited nodes: number k is vi[k]"""
    return v.visit.len, v.visit.arr


def stk(v, name='s'):
    q = getattr(v, name)
    q = getattr(q, '%seq')
    return q.len, q.arr


def seen(v, f):
    n, a = vis(v)
    return [('visited', And(0 <= n, n <= sz(root), fa('i', lambda i: Implies(And(T(i), f(i) < n), a[f(i)] == A[i]), lambda i: f(i))))]


@register
class T_pre(_Trav):
    name = BT + '_pre_order'
    order = pre_

    @staticmethod
    def inv(v):
        n, a = vis(v)
        m, s = stk(v)
        end = lambda i: pre_(i) + sz(i)
        return [('links', links(v.heap)), ('stack-nodes', fa('j', lambda j: Implies(rng(0, j, m), T(s[j])), lambda j: s[j])),
                ('top', n == If(m == 0, sz(root), pre_(s[m - 1]))),
                ('stack-intervals', And(m >= 0, Implies(m > 0, end(s[0]) == sz(root)), fa('j', lambda j: Implies(rng(1, j, m), end(s[j]) == pre_(s[j - 1])), lambda j: s[j])))] + seen(v, pre_)

    loops = {1: LoopSpec(inv=lambda v: T_pre.inv(v), variant=lambda v: sz(root) - vis(v)[0])}


@register
class T_in(_Trav):
    name = BT + '_in_order'
    order = ino
    axioms = (TREE, IN)

    @staticmethod
    def inv(v):
        n, a = vis(v)
        m, s = stk(v)
        none, c = optint(v.raw('node'))
        lo = lambda i: ino(i) - s0(Lf(i))
        hi = lambda i: ino(i) + 1 + s0(Rg(i))
        top = If(m == 0, sz(root), ino(s[m - 1]))
        return [('links', links(v.heap)), ('stack-nodes', And(m >= 0, fa('j', lambda j: Implies(rng(0, j, m), T(s[j])), lambda j: s[j]))),
                ('current', And(Implies(none, n == top), Implies(Not(none), And(T(c), lo(c) == n, hi(c) == top)))),
                ('stack-intervals', And(Implies(m > 0, hi(s[0]) == sz(root)), fa('j', lambda j: Implies(rng(1, j, m), hi(s[j]) == ino(s[j - 1])), lambda j: s[j])))] + seen(v, ino)

    loops = {1: LoopSpec(inv=lambda v: T_in.inv(v), kinds={'node': 'optint'},
                         variant=lambda v: (sz(root) - vis(v)[0], If(optint(v.raw('node'))[0], 0, sz(optint(v.raw('node'))[1]))))}


@register
class T_post(_Trav):
    name = BT + '_post_order'
    order = post_
    int_elems = True
    axioms = (TREE, POST)
    uses = tuple(ABS) + ("ODA_new", "ODA_fill_t", "ODA_setitem_t")

    def pre(self, c):
        return super().pre(c) + [('size', And(c.o('self').tree.size >= 1, fa('i', lambda i: Implies(T(i), i < c.o('self').tree.size), lambda i: T(i), lambda i: Lf(i), lambda i: Rg(i))))]

    @staticmethod
    def inv(v):
        n, a = vis(v)
        m, s = stk(v)
        d, L = v.last._data.arr, v.self.tree.size
        lo = lambda i: post_(i) - sz(i) + 1
        return [('links', links(v.heap)), ('stack-nodes', And(m >= 0, fa('j', lambda j: Implies(rng(0, j, m), And(T(s[j]), post_(s[j]) >= n)), lambda j: s[j]))),
                ('marks', And(v.last._size == L, v.last._data.len == L, fa('i', lambda i: Implies(T(i), And(Not(isNone(d[i])), (ival(d[i]) != 0) == (post_(i) < n))), lambda i: d[i], lambda i: post_(i)))),
                ('top', If(m == 0, n == sz(root), lo(s[m - 1]) <= n)),
                ('stack-order', fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < m), post_(s[j]) < post_(s[i])), lambda i, j: (s[i], s[j]))),
                ('stack-intervals', And(Implies(m > 0, post_(s[0]) == sz(root) - 1),
                                        fa('j', lambda j: Implies(rng(1, j, m), lo(s[j - 1]) <= post_(s[j]) + 1), lambda j: s[j])))] + seen(v, post_)

    @staticmethod
    def steps(v, h):
        m, s = stk(h)
        m1, s1 = stk(v)
        t = s[m - 1]
        return [('below-top', fa('i', lambda i: Implies(rng(0, i, m - 1), post_(t) < post_(s[i])), lambda i: s1[i], lambda i: s[i]), None),
                ('pushed', fa('j', lambda j: Implies(And(m <= j, j < m1), post_(s1[j]) < post_(t)), lambda j: s1[j]), None),
                ('kept', fa('j', lambda j: Implies(And(0 <= j, j < m, j < m1), s1[j] == s[j]), lambda j: s1[j]), None),
                ('pushed-order', Implies(m1 == m + 2, post_(s1[m + 1]) < post_(s1[m])), None)]

    loops = {1: LoopSpec(inv=lambda v: T_post.inv(v), end_lemmas=lambda v, h: T_post.steps(v, h), variant=lambda v: (sz(root) - vis(v)[0], If(stk(v)[0] > 0, sz(stk(v)[1][stk(v)[0] - 1]), 0)))}


@register
class T_out(_Trav):
    name = BT + '_out_order'
    order = ino
    axioms = (TREE, IN)
    uses = ('T_in',)

    def post(self, c):
        return [('as-many-as-nodes', c.res.len == sz(root)),
                ('reverse-in-order', fa('i', lambda i: Implies(T(i), c.res.arr[sz(root) - 1 - ino(i)] == A[i]), lambda i: ino(i)))]


for k in (T_pre, T_in, T_post):
    k.result = lambda self, c: (lambda eng, st: eng.new_cell(st, ArrRec(fresh_const('nv', IntS), fresh_const('visit', AIi), ('ref', 'TreeNode'))))


# ------------------------------------------------------------------ level order
lev, lat, par = (z3.Function(n, IntS, IntS) for n in ('levelorder', 'levelnode', 'parent_of'))


def _level():
    i, j = z3.Ints('i j')
    kids = lambda i: (Lf(i), Rg(i))
    return And(lev(root) == 0, numbering_range(lev),
               ForAll([i], Implies(And(T(i), i != root), And(T(par(i)), lev(par(i)) < lev(i), Or(i == Lf(par(i)), i == Rg(par(i))))), patterns=[par(i), lev(i)]),
               ForAll([i], Implies(And(T(i), Lf(i) != -1, Rg(i) != -1), lev(Lf(i)) < lev(Rg(i))), patterns=[Lf(i), Rg(i)]),
               ForAll([i], Implies(T(i), And(Implies(Lf(i) != -1, par(Lf(i)) == i), Implies(Rg(i) != -1, par(Rg(i)) == i))), patterns=[Lf(i), Rg(i)]),
               ForAll([i], Implies(And(0 <= i, i < sz(root)), And(T(lat(i)), lev(lat(i)) == i)), patterns=[lat(i)]),
               ForAll([i, j], Implies(And(T(i), T(j), lev(i) < lev(j)), And(*[Implies(And(a != -1, b != -1), lev(a) < lev(b)) for a in kids(i) for b in kids(j)])),
                      patterns=[MultiPattern(lev(i), lev(j))]))


def numbering_range(f):
    i, j = z3.Ints('i j')
    return And(ForAll([i], Implies(T(i), And(0 <= f(i), f(i) < sz(root))), patterns=[f(i)]),
               ForAll([i, j], Implies(And(T(i), T(j), f(i) == f(j)), i == j), patterns=[MultiPattern(f(i), f(j))]))


@register
class T_bfs(_Trav):
    name = BT + 'breadth_first_search'
    order = lev
    axioms = (TREE, _level())
    assumes = _Trav.assumes + ('level order: parents before children, left before right, children in the order of their parents',)

    def listhint(self, eng, st, o):
        for fr in st.frames.values():
            if fr.get('visit') == o:
                return ('ref', 'TreeNode')
            if fr.get('q') == o:
                return 'int'

    @staticmethod
    def inv(v):
        n, a = vis(v)
        q = v.q
        m = n + q.len
        return [('links', links(v.heap)), ('queue', fa('j', lambda j: Implies(rng(0, j, q.len), And(T(q.arr[j]), lev(q.arr[j]) == n + j)), lambda j: q.arr[j])),
                ('size', And(q.len >= 0, m <= sz(root), m >= 1)),
                ('known-have-visited-parents', fa('i', lambda i: Implies(And(T(i), i != root, lev(i) < m), lev(par(i)) < n), lambda i: par(i))),
                ('children-of-visited-known', fa('i', lambda i: Implies(And(T(i), lev(i) < n), And(Implies(Lf(i) != -1, lev(Lf(i)) < m), Implies(Rg(i) != -1, lev(Rg(i)) < m))),
                                                 lambda i: lev(i), lambda i: Lf(i), lambda i: Rg(i)))] + seen(v, lev)

    @staticmethod
    def steps(v, h):
        n = vis(h)[0]
        q, q1 = h.q, v.q
        c = q.arr[0]
        m = n + q.len
        m1 = n + 1 + q1.len
        d = lat(m)
        out = [('current', And(T(c), lev(c) == n), None)]
        for k, d in enumerate((lat(m), lat(m + 1))):
            out += [('unknown-%d' % k, Implies(m + k < sz(root), And(T(d), lev(d) == m + k, lev(par(d)) >= n)), None)]
        for k, x in enumerate((Lf(c), Rg(c))):
            out += [('child-unknown-%d' % k, Implies(x != -1, And(lev(x) >= m, par(x) == c)), None)]
            for l, d in enumerate((lat(m), lat(m + 1))):
                out += [('next-%d-%d' % (k, l), Implies(And(x != -1, m + l < sz(root)), Or(par(d) == c, lev(x) < lev(d))), None)]
        return out + [('left-number', Implies(Lf(c) != -1, lev(Lf(c)) == m), None),
                      ('right-number', Implies(Rg(c) != -1, lev(Rg(c)) == m + If(Lf(c) != -1, 1, 0)), None)]

    loops = {1: LoopSpec(inv=lambda v: T_bfs.inv(v), variant=lambda v: sz(root) - vis(v)[0], end_lemmas=lambda v, h: T_bfs.steps(v, h),
                         assume_head=lambda v: [('head-unknown', Implies(vis(v)[0] + v.q.len < sz(root), And(T(lat(vis(v)[0] + v.q.len)), lev(lat(vis(v)[0] + v.q.len)) == vis(v)[0] + v.q.len,
                                                 Implies(lat(vis(v)[0] + v.q.len) != root, T(par(lat(vis(v)[0] + v.q.len)))))), None)])}


@register
class T_dfs(_Trav):
    """the dispatcher, for each of the four orders and for a given node or the root"""
    name = BT + 'depth_first_search'
    uses = ('T_pre', 'T_in', 'T_post', 'T_out')
    axioms = (TREE, PRE, IN, POST)
    variants = tuple('%s %s' % (o, n) for o in ('pre_order', 'in_order', 'post_order', 'out_order') for n in ('node', 'None'))

    def setup(self, x):
        o, n = x.variant.split()
        return [self.me(x), o] + ([root] if n == 'node' else []), {}

    def pre(self, c):
        return super().pre(c) + [('size', And(c.o('self').tree.size >= 1, fa('i', lambda i: Implies(T(i), i < c.o('self').tree.size), lambda i: T(i), lambda i: Lf(i), lambda i: Rg(i))))]

    def post(self, c):
        o = c.eng.unit.variant.split()[0]
        f = {'pre_order': pre_, 'in_order': ino, 'post_order': post_, 'out_order': lambda i: sz(root) - 1 - ino(i)}[o]
        return [('as-many-as-nodes', c.res.len == sz(root)), ('in-the-order', fa('i', lambda i: Implies(T(i), c.res.arr[f(i)] == A[i]), lambda i: f(i)))]


T_out.result = T_in.result
