"""Queries of binary search trees (C16) on the tree described in travs.py: the in-order numbering is the order of the keys."""
from .common import *
from .travs import Lf, Rg, T, sz, ino, root, A, N, TREE, IN, s0, links, optint, stk
from .absq import ABS
from .lemmas import Lemma
from . import register

BS = 'trees.binary_trees:BinarySearchTree.'
KEY = z3.Function('KEY', IntS, E)
par = z3.Function('parent', IntS, IntS)
nat = z3.Function('nat', IntS, IntS)         # the node with an in-order number
i, j = z3.Ints('i j')
x, y = z3.Consts('x y', E)
EQ = ForAll([x, y], py_eq(x, y) == If(Or(isNone(x), isNone(y)), And(isNone(x), isNone(y)), rk(x) == rk(y)), patterns=[py_eq(x, y)])
EMPTY = isNone(KEY(root))
ORD = And(EQ, Implies(Not(EMPTY), And(ForAll([i], Implies(T(i), Not(isNone(KEY(i)))), patterns=[KEY(i)]),
                                      ForAll([i, j], Implies(And(T(i), T(j)), (ino(i) < ino(j)) == (rk(KEY(i)) < rk(KEY(j)))), patterns=[MultiPattern(KEY(i), KEY(j)), MultiPattern(ino(i), ino(j))]))),
          Implies(EMPTY, And(Lf(root) == -1, Rg(root) == -1)))
PAR = And(par(root) == -1, ForAll([i], Implies(T(i), And(Implies(Lf(i) != -1, And(par(Lf(i)) == i, Lf(i) != root)), Implies(Rg(i) != -1, And(par(Rg(i)) == i, Rg(i) != root)))), patterns=[Lf(i), Rg(i)]),
          ForAll([i], Implies(And(T(i), i != root), And(T(par(i)), Or(Lf(par(i)) == i, Rg(par(i)) == i))), patterns=[par(i)]))
NAT = ForAll([i], Implies(And(0 <= i, i < sz(root)), And(T(nat(i)), ino(nat(i)) == i)), patterns=[nat(i)])


def lo(n):
    return ino(n) - s0(Lf(n))


def hi(n):
    return ino(n) + 1 + s0(Rg(n))


def keys(h):
    return fa('i', lambda i: Implies(T(i), h('key')[A[i]] == KEY(i)), lambda i: A[i], lambda i: KEY(i))


def has(k):
    """a node carries the key"""
    return Not(absent(k))


def absent(k):
    return fa('i', lambda i: Implies(T(i), Not(And(Not(EMPTY), rk(KEY(i)) == rk(k)))), lambda i: KEY(i))


class _BST(Contract):
    fields = {'left': 'optint', 'right': 'optint', 'key': 'elem', 'data': 'elem', 'parent': 'optint', 'size': 'int'}
    heap_classes = {'TreeNode'}
    elem_class = 'TreeNode'
    axioms = (TREE, IN, ORD)
    assumes = ('the links form a finite tree whose in-order numbering exists; == on keys agrees with the comparator',)

    def me(self, x):
        data = x.eng.new_cell(x.st, ArrRec(N, A, ('ref', 'TreeNode')))
        num = x.int('num')
        arr = x.obj('ArrayForTrees', _size=N, _data=data, _dtype=VOpaque('TreeNode'), _num=num, _last_pos_filled=x.int('last'), _load_factor=z3.Real('load_factor'))
        return x.obj('BinarySearchTree', tree=arr, root_idx=root, size=x.int('size'), is_order_statistic=z3.Bool('os'), comparator=comp_lt())

    def karg(self):
        return z3.Const('key', E)

    def setup(self, x):
        return [self.me(x), self.karg()], {}

    def pre(self, c):
        return [('links', links(c.oheap)), ('keys', keys(c.oheap)), ('key', Not(isNone(self.arg(c))))]

    def arg(self, c):
        return c.o('key')


def covers(n, none, k):
    """the key can only be in the subtree of n"""
    return fa('i', lambda i: Implies(And(T(i), rk(KEY(i)) == rk(k)), And(Not(none), lo(n) <= ino(i), ino(i) < hi(n))), lambda i: KEY(i))


@register
class BST_search(_BST):
    name = BS + 'search'
    variants = ('plain', 'parent')
    axioms = (TREE, IN, ORD, PAR)

    def setup(self, x):
        return [self.me(x), self.karg()], ({'parent': True} if x.variant == 'parent' else {})

    def wants_parent(self, c):
        if not c.calling:
            return c.eng.unit.variant == 'parent'
        r = c.raw('kwargs')
        return bool(c.eng.rec(c.old, r).d.get('parent'))

    def result(self, c):
        return ('tuple', 'optint', 'optint') if self.wants_parent(c) else 'optint'

    def post(self, c):
        k = self.arg(c)
        r = c.res_v
        if self.wants_parent(c):
            r, p = r
            pn, pv = optint(p)
        n, v = optint(r)
        out = [('found', Implies(Not(n), And(T(v), Not(EMPTY), rk(KEY(v)) == rk(k)))), ('absent', Implies(n, absent(k)))]
        if self.wants_parent(c):
            out += [('parent', Implies(Not(n), And(pn == (v == root), Implies(Not(pn), pv == par(v)))))]
        return out

    @staticmethod
    def inv(v):
        n, w = optint(v.raw('walk'))
        pn, pv = optint(v.raw('parent'))
        return [('not-empty', Not(EMPTY)), ('node', Implies(Not(n), T(w))), ('where', covers(w, n, v.key)),
                ('parent', Implies(Not(n), And(pn == (w == root), Implies(Not(pn), pv == par(w)))))]

    loops = {1: LoopSpec(inv=lambda v: BST_search.inv(v), kinds={'walk': 'optint', 'parent': 'optint'}, variant=lambda v: If(optint(v.raw('walk'))[0], 0, sz(optint(v.raw('walk'))[1])))}


@register
class BST_bound(_BST):
    """the least key of the subtree that is not less than (greater than) the bound"""
    name = BS + '_bound_helper'
    rec_group = 'bound'
    uses = ('BST_bound',)
    variants = ('lower', 'upper')

    def setup(self, x):
        n = VOpt(z3.Bool('nn'), z3.Int('node_idx'))
        return [self.me(x), n, z3.Const('bound_key', E)] + ([True] if x.variant == 'upper' else []), {}

    def arg(self, c):
        return c.o('bound_key')

    def pre(self, c):
        n, v = optint(c.raw('node_idx'))
        return super().pre(c) + [('node', Implies(Not(n), T(v)))]

    def decreases(self, c):
        n, v = optint(c.raw('node_idx'))
        return If(n, 0, sz(v))

    def result(self, c):
        return 'elem'

    def ok(self, c, i):
        up = c.raw('is_upper')
        k = self.arg(c)
        return (rk(KEY(i)) > rk(k)) if up is True else (rk(KEY(i)) >= rk(k)) if up is False else If(B(up), rk(KEY(i)) > rk(k), rk(KEY(i)) >= rk(k))

    def inside(self, c, i):
        n, v = optint(c.raw('node_idx'))
        return And(Not(n), Not(EMPTY), T(i), lo(v) <= ino(i), ino(i) < hi(v))

    def post(self, c):
        r = c.eng.encode(c.new if hasattr(c, 'new') else c.old, c.res_v, 'elem')
        w = z3.Int(fresh_name('w'))
        return [('least', fa('i', lambda i: Implies(And(self.inside(c, i), self.ok(c, i)), And(Not(isNone(r)), rk(r) <= rk(KEY(i)))), lambda i: KEY(i))),
                ('one-of-them', Or(isNone(r), z3.Exists([w], And(self.inside(c, w), self.ok(c, w), KEY(w) == r), patterns=[KEY(w)])))]


class _Wrap(_BST):
    uses = ('BST_bound',)
    strict = False

    def result(self, c):
        return 'elem'

    def post(self, c):
        k = self.arg(c)
        r = c.eng.encode(c.old, c.res_v, 'elem')
        ok = lambda i: And(Not(EMPTY), T(i), rk(KEY(i)) > rk(k) if self.strict else rk(KEY(i)) >= rk(k))
        w = z3.Int(fresh_name('w'))
        return [('least', fa('i', lambda i: Implies(ok(i), And(Not(isNone(r)), rk(r) <= rk(KEY(i)))), lambda i: KEY(i))),
                ('one-of-them', Or(isNone(r), z3.Exists([w], And(ok(w), KEY(w) == r), patterns=[KEY(w)])))]

    axioms = (TREE, IN, ORD, ForAll([i], Implies(T(i), And(lo(root) <= ino(i), ino(i) < hi(root))), patterns=[KEY(i)]))


@register
class BST_lower(_Wrap):
    name = BS + 'lower_bound'


@register
class BST_upper(_Wrap):
    name = BS + 'upper_bound'
    strict = True


SZ = ForAll([i], Implies(T(i), sz(i) <= sz(root)), patterns=[sz(i)])


def sizes(h):
    return fa('i', lambda i: Implies(T(i), h('size')[A[i]] == sz(i)), lambda i: A[i])


def parents(h):
    oi = lambda t, x: And((t == OI.oi_none) == (x == -1), Implies(x != -1, OI.oi_val(t) == x))
    return fa('i', lambda i: Implies(T(i), oi(h('parent')[A[i]], par(i))), lambda i: A[i], lambda i: par(i))


@register
class BST_rank(_BST):
    """one more than the number of smaller keys"""
    name = BS + 'rank'
    uses = ('BST_search',)
    axioms = (TREE, IN, ORD, PAR, SZ)

    def arg(self, c):
        return c.o('x')

    def pre(self, c):
        return super().pre(c) + [('sizes', sizes(c.oheap)), ('parents', parents(c.oheap))]

    def post(self, c):
        n, r = optint(c.res_v)
        k = self.arg(c)
        return [('absent', n == absent(k)), ('rank', Implies(Not(n), fa('i', lambda i: Implies(And(T(i), rk(KEY(i)) == rk(k)), r == ino(i) + 1), lambda i: KEY(i))))]

    @staticmethod
    def inv(v):
        n, w = optint(v.raw('walk'))
        return [('node', And(Not(n), T(w), Not(EMPTY))), ('rank-so-far', fa('i', lambda i: Implies(And(T(i), rk(KEY(i)) == rk(v.x)), v.r == ino(i) - lo(w) + 1), lambda i: KEY(i)))]

    loops = {1: LoopSpec(inv=lambda v: BST_rank.inv(v), variant=lambda v: sz(root) - sz(optint(v.raw('walk'))[1]))}


@register
class BST_select(_BST):
    """the node of the i-th smallest key"""
    name = BS + 'select'
    axioms = (TREE, IN, ORD, NAT, ForAll([i], Implies(T(i), nat(ino(i)) == i), patterns=[ino(i)]))

    def setup(self, x):
        return [self.me(x), x.int('i')], {}

    def pre(self, c):
        return [('links', links(c.oheap)), ('keys', keys(c.oheap)), ('sizes', sizes(c.oheap)), ('count', c.o('self').tree._num == sz(root))]

    def raises(self, c):
        k = I(c.o('i'))
        return {'ValueError': Or(k < 1, k > sz(root), EMPTY)}

    def result(self, c):
        return ('ref', 'TreeNode')

    def post(self, c):
        return [('node', c.res.t == A[nat(I(c.o('i')) - 1)])]

    @staticmethod
    def inv(v):
        n, w = optint(v.raw('walk'))
        return [('node', And(Not(n), T(w))), ('index', And(0 <= v.i, v.i < sz(w), v.i + lo(w) == v.old.i - 1))]

    loops = {1: LoopSpec(inv=lambda v: BST_select.inv(v), kinds={'walk': 'optint'}, variant=lambda v: sz(optint(v.raw('walk'))[1]))}


def lca(u, v, w):
    """w is the lowest common ancestor of the nodes u and v: both are in its subtree, and not in the same child's"""
    inside = lambda a: And(lo(w) <= ino(a), ino(a) < hi(w))
    return And(T(w), inside(u), inside(v), Or(And(ino(u) <= ino(w), ino(w) <= ino(v)), And(ino(v) <= ino(w), ino(w) <= ino(u))))


def in_whole(k):
    return fa('i', lambda i: Implies(T(i), And(lo(root) <= ino(i), ino(i) < hi(root))), lambda i: KEY(i))


class _LCA(_BST):
    axioms = (TREE, IN, ORD, PAR, ForAll([i], Implies(T(i), And(0 == lo(root), hi(root) == sz(root))), patterns=[ino(i)]))

    def setup(self, x):
        return [self.me(x), z3.Const('j', E), z3.Const('k', E)], {}

    def pre(self, c):
        return [('links', links(c.oheap)), ('keys', keys(c.oheap)), ('parents', parents(c.oheap)), ('arguments', And(Not(isNone(c.o('j'))), Not(isNone(c.o('k')))))]

    def raises(self, c):
        return {'ValueError': Or(absent(c.o('j')), absent(c.o('k')))}

    def post(self, c):
        r = c.eng.encode(c.old, c.res_v, 'elem')
        u, v, w = (z3.Int(fresh_name(n)) for n in 'uvw')
        return [('lowest-common-ancestor', ForAll([u, v], Implies(And(T(u), T(v), rk(KEY(u)) == rk(c.o('j')), rk(KEY(v)) == rk(c.o('k'))),
                                                                   z3.Exists([w], And(lca(u, v, w), KEY(w) == r), patterns=[KEY(w)])), patterns=[MultiPattern(KEY(u), KEY(v))]))]


@register
class BST_lca2(_LCA):
    name = BS + '_lca_2'
    uses = ('BST_search',)

    @staticmethod
    def inv(v):
        n, c = optint(v.raw('curr_root'))
        (un, u), (vn, w) = optint(v.raw('u')), optint(v.raw('v'))
        ins = lambda a: And(lo(c) <= ino(a), ino(a) < hi(c))
        return [('node', And(Not(n), T(c), Not(un), Not(vn), T(u), T(w), c != u, c != w)), ('both-inside', And(ins(u), ins(w))),
                ('sides', And(B(v.u_left) == (ino(u) < ino(c)), B(v.v_left) == (ino(w) < ino(c))))]

    loops = {1: LoopSpec(inv=lambda v: BST_lca2.inv(v), kinds={'curr_root': 'optint'}, variant=lambda v: sz(optint(v.raw('curr_root'))[1]))}


mpre = z3.Function('mirrored_preorder', IntS, IntS)
dep = z3.Function('depth', IntS, IntS)
MPRE = And(mpre(root) == 0,
           ForAll([i], Implies(T(i), And(0 <= mpre(i), mpre(i) < sz(root), Implies(Rg(i) != -1, mpre(Rg(i)) == mpre(i) + 1), Implies(Lf(i) != -1, mpre(Lf(i)) == mpre(i) + 1 + s0(Rg(i))))), patterns=[mpre(i), Lf(i), Rg(i)]),
           ForAll([i, j], Implies(And(T(i), T(j), mpre(i) == mpre(j)), i == j), patterns=[MultiPattern(mpre(i), mpre(j))]))
DEP = And(dep(root) == 0, ForAll([i], Implies(T(i), And(dep(i) >= 0, (dep(i) == 0) == (i == root), Implies(i != root, dep(i) == dep(par(i)) + 1))), patterns=[dep(i), par(i)]))


@register
class BST_path(_BST):
    """the nodes from the root to the node of the key"""
    name = BS + '_simple_path'
    uses = tuple(ABS)
    axioms = (TREE, IN, ORD, PAR, MPRE, DEP)

    def listhint(self, eng, st, o):
        return 'int'

    def setup(self, x):
        return [self.me(x), self.karg(), root], {}

    def pre(self, c):
        return super().pre(c) + [('parents', parents(c.oheap)), ('from-the-root', I(c.o('root')) == root)]

    def result(self, c):
        return ('list', 'int')

    def post(self, c):
        k = self.arg(c)
        n, p = c.res.len, c.res.arr
        at = lambda f: Implies(n > 0, fa('i', lambda i: Implies(And(T(i), rk(KEY(i)) == rk(k)), f(i)), lambda i: KEY(i)))
        return [('absent', (n == 0) == absent(k)), ('ends', Implies(n > 0, And(Not(EMPTY), p[0] == root, rk(KEY(p[n - 1])) == rk(k)))),
                ('nodes', fa('j', lambda j: Implies(rng(0, j, n), And(T(p[j]), lo(p[j]) <= ino(p[n - 1]), ino(p[n - 1]) < hi(p[j]))), lambda j: p[j])),
                ('steps', fa('j', lambda j: Implies(rng(1, j, n), par(p[j]) == p[j - 1]), lambda j: p[j]))]

    @staticmethod
    def inv1(v):
        m, s = stk(v, 'stack')
        n = If(m == 0, sz(root), mpre(s[m - 1]))
        end = lambda i: mpre(i) + sz(i)
        return [('stack-nodes', fa('j', lambda j: Implies(rng(0, j, m), T(s[j])), lambda j: s[j])), ('none-found', And(v.node_idx == -1, v.path.len == 0)),
                ('stack-intervals', And(m >= 0, Implies(m > 0, end(s[0]) == sz(root)), fa('j', lambda j: Implies(rng(1, j, m), end(s[j]) == mpre(s[j - 1])), lambda j: s[j]))),
                ('not-yet', fa('i', lambda i: Implies(And(T(i), mpre(i) < n), Or(EMPTY, rk(KEY(i)) != rk(v.key))), lambda i: KEY(i)))]

    @staticmethod
    def inv2(v):
        none, w = optint(v.raw('node_idx'))
        n, p = v.path.len, v.path.arr
        t = If(n == 0, w, p[0])
        return [('node', And(Not(none), T(w), T(t), Not(EMPTY), rk(KEY(t)) == rk(v.key), lo(w) <= ino(t), ino(t) < hi(w), n >= 0)),
                ('path', fa('j', lambda j: Implies(rng(0, j, n), And(T(p[j]), p[j] != root, par(p[j]) == If(j == n - 1, w, p[j + 1]), lo(p[j]) <= ino(t), ino(t) < hi(p[j]))), lambda j: p[j]))]

    loops = {1: LoopSpec(inv=lambda v: BST_path.inv1(v), kinds={'node_idx': 'int'}, variant=lambda v: sz(root) - If(stk(v, 'stack')[0] == 0, sz(root), mpre(stk(v, 'stack')[1][stk(v, 'stack')[0] - 1]))),
             2: LoopSpec(inv=lambda v: BST_path.inv2(v), kinds={'node_idx': 'optint'}, variant=lambda v: dep(optint(v.raw('node_idx'))[1]))}


@register
class BST_lca1(_LCA):
    name = BS + '_lca_1'
    uses = ('BST_path',)
    axioms = (TREE, IN, ORD, PAR, ForAll([i], Implies(T(i), And(0 == lo(root), hi(root) == sz(root))), patterns=[ino(i)]))

    @staticmethod
    def inv(v):
        i, a, b = v.i, v.path1, v.path2
        return [('index', And(0 <= i, i == v.j, i <= a.len, i <= b.len)), ('same-so-far', fa('t', lambda t: Implies(rng(0, t, i), a.arr[t] == b.arr[t]), lambda t: a.arr[t], lambda t: b.arr[t]))]

    loops = {1: LoopSpec(inv=lambda v: BST_lca1.inv(v), variant=lambda v: v.path1.len - v.i)}

    def lemmas_post(self, c):
        a, b, i = c.local('path1'), c.local('path2'), c.local('i')
        if a is None or b is None or i is None or c.res_v is None:
            return []
        r = c.eng.encode(c.old, c.res_v, 'elem')
        u, v = a.arr[a.len - 1], b.arr[b.len - 1]
        w = If(And(i < a.len, i < b.len), a.arr[i - 1], If(a.len <= b.len, u, v))
        uniq = lambda p, k: fa('u', lambda x: Implies(And(T(x), rk(KEY(x)) == rk(k)), x == p), lambda x: KEY(x))
        return [('the-node-of-j', uniq(u, c.o('j'))), ('the-node-of-k', uniq(v, c.o('k'))), ('in-the-tree', And(T(u), T(v), T(w))),
                ('key', KEY(w) == r), ('lowest', lca(u, v, w))]


@register
class BST_lca(_LCA):
    name = BS + 'lowest_common_ancestor'
    uses = ('BST_lca1', 'BST_lca2')
    variants = ('default', '1', '2')

    def setup(self, x):
        a, k = super().setup(x)
        return a + ([] if x.variant == 'default' else [int(x.variant)]), k
