"""Rotations of binary search trees (C17).  Ghost fields of a tree: T (indices of the tree), OR (place of an index in the in-order sequence, a
real number), LO and HI (the places of the subtree of an index lie strictly between them), SZ (size of the subtree), IX (index of a node).
A rotation keeps T and OR, so it keeps the in-order sequence."""
from .common import *
from . import register

SB = 'trees.binary_trees:SelfBalancingBinaryTree.'
II, IR, IB = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, RealS), z3.ArraySort(IntS, BoolS)
n_, m_ = z3.Ints('n m')
NO = OI.oi_none
some = OI.oi_some


def none(t):
    return t == NO


def val(t):
    return OI.oi_val(t)


def oi(x):
    """optint of a runtime value"""
    if isinstance(x, VOpt):
        return If(B(x.isn), NO, some(x.val))
    return NO if x is None else some(I(x))


at = z3.Function('at', IntS, BoolS)      # always true: facts about the tree are instantiated at the indices i for which at(i) is mentioned
AT = ForAll([n_], at(n_), patterns=[at(n_)])


def ix(v):
    """index held by an argument"""
    return v.val if isinstance(v, VOpt) else I(0 if v is None else v)


def present(*vs):
    return [('present', And(*[Not(B(v.isn)) if isinstance(v, VOpt) else BoolVal(v is not None) for v in vs]))]


def fn(f):
    return ForAll([n_], Implies(at(n_), f), patterns=[at(n_)])


def fp(f, *pats):
    """... instantiated where the pattern occurs"""
    ok = []
    for p in pats:
        try:
            z3.ForAll([n_], f, patterns=[p])
            ok.append(p)
        except z3.Z3Exception:
            pass
    return ForAll([n_], f, patterns=ok) if ok else fn(f)


def ats(*xs):
    """mention these indices"""
    return And(*[at(val(x) if x.sort() == NO.sort() else x) for x in xs])


GH = ('T', 'OR', 'LO', 'HI', 'SZ', 'IX')


class R:
    """the tree in one state: L, Rt, P, size, is_root: arrays by index"""
    def __init__(self, s, h, ghosts={}):
        self.A, self.N, self.h = s.tree._data.arr, I(s.tree._size), h
        r = s.root_idx
        self.root = val(oi(r)) if isinstance(r, VOpt) else r.val if hasattr(r, 'isnone') else I(r)
        for g in GH:
            setattr(self, g, ghosts[g] if g in ghosts else getattr(s, 'g_' + g))
        self.os = B(s.is_order_statistic)

    def L(self, i): return self.h('left')[self.A[i]]
    def Rt(self, i): return self.h('right')[self.A[i]]
    def P(self, i): return self.h('parent')[self.A[i]]
    def size(self, i): return self.h('size')[self.A[i]]
    def is_root(self, i): return self.h('is_root')[self.A[i]]
    def f(self, name, i): return self.h(name)[self.A[i]]

    def s(self, t):
        return If(none(t), 0, self.SZ[val(t)])

    def node(self, i):
        A, T, OR, LO, HI, SZ = self.A, self.T, self.OR, self.LO, self.HI, self.SZ
        l, r, p = self.L(i), self.Rt(i), self.P(i)
        return [('index', And(0 <= i, i < self.N, A[i] > 0, self.IX[A[i]] == i)),
                ('places', And(LO[i] < OR[i], OR[i] < HI[i])),
                ('size', And(SZ[i] >= 1, SZ[i] <= SZ[self.root], SZ[i] == 1 + self.s(l) + self.s(r))),
                ('left', Implies(Not(none(l)), And(T[val(l)], self.P(val(l)) == some(i), LO[val(l)] == LO[i], HI[val(l)] == OR[i]))),
                ('right', Implies(Not(none(r)), And(T[val(r)], self.P(val(r)) == some(i), LO[val(r)] == OR[i], HI[val(r)] == HI[i]))),
                ('parent', And(none(p) == (i == self.root), Implies(Not(none(p)), And(T[val(p)], Or(self.L(val(p)) == some(i), self.Rt(val(p)) == some(i))))))]

    def wf(self):
        return [('root', self.T[self.root])] + [('tree-' + n, fp(Implies(self.T[n_], f), self.A[n_]) if n == 'index' else fn(Implies(self.T[n_], f))) for n, f in self.node(n_)]

    def full(self):
        """... with right root flags and (order statistic trees) sizes"""
        return self.wf() + [('root-flags', fn(Implies(self.T[n_], self.is_root(n_) == (n_ == self.root)))), ('sizes', Implies(self.os, fn(Implies(self.T[n_], self.size(n_) == self.SZ[n_]))))]

    def order(self):
        """search order"""
        k = self.h('key')
        return [('search-order', ForAll([n_, m_], Implies(And(at(n_), at(m_), self.T[n_], self.T[m_]), (self.OR[n_] < self.OR[m_]) == (rk(k[self.A[n_]]) < rk(k[self.A[m_]]))), patterns=[MultiPattern(at(n_), at(m_))]))]

    def sizes_at(self, i):
        z = lambda t: If(none(t), 0, self.size(val(t)))
        return self.size(i) == 1 + z(self.L(i)) + z(self.Rt(i))


class _Rot(Contract):
    uses = ('Rot_update',)
    cls = 'SelfBalancingBinaryTree'
    axioms = (AT,)
    fields = {'left': 'optint', 'right': 'optint', 'key': 'elem', 'data': 'elem', 'parent': 'optint', 'size': 'int', 'is_root': 'bool', 'height': 'int', 'priority': 'real', 'color': 'int'}
    heap_classes = {'TreeNode'}
    elem_class = 'TreeNode'
    assumes = ('a tree is a set of indices with places on the real line: sizes and intervals of subtrees exist',)

    def me(self, x):
        N = x.int('array_size')
        data = x.eng.new_cell(x.st, ArrRec(N, z3.Const('nodes', II), ('ref', 'TreeNode')))
        arr = x.obj('ArrayForTrees', _size=N, _data=data, _dtype=VOpaque('TreeNode'), _num=x.int('num'), _last_pos_filled=x.int('last'), _load_factor=z3.Real('load_factor'))
        return x.obj(self.cls, tree=arr, root_idx=x.int('root'), size=x.int('size'), is_order_statistic=z3.Bool('os'), comparator=comp_lt(),
                     **{'@T': z3.Const('T', IB), '@OR': z3.Const('OR', IR), '@LO': z3.Const('LO', IR), '@HI': z3.Const('HI', IR), '@SZ': z3.Const('SZ', II), '@IX': z3.Const('IX', II)})

    def setup(self, x):
        return [self.me(x), x.int('j'), x.int('k')], {}

    def o(self, c):
        return R(c.o('self'), c.oheap)

    def n(self, c, **g):
        return R(c.n('self'), c.nheap, g)

    def modifies(self, c):
        s = c.params['self']
        return [('fld', s, 'root_idx')] + [('heap', f) for f in ('left', 'right', 'parent', 'size', 'is_root')] + [('fld', s, '@' + g, 'ghost') for g in ('LO', 'HI', 'SZ')]

    def result(self, c):
        return 'none'

    def jk(self, c):
        return ix(c.params['j']), ix(c.params['k'])

    up = 'left'      # side of k

    def side(self, a, i, flip=False):
        return a.L(i) if (self.up == 'left') != flip else a.Rt(i)

    def pre(self, c):
        a = self.o(c)
        j, k = self.jk(c)
        p, y = a.P(j), self.side(a, k, True)
        return a.wf() + present(c.params['j'], c.params['k']) + [('child', And(a.T[j], self.side(a, j) == some(k))), ('about', ats(j, k, p, a.L(val(p)), a.Rt(val(p)), y, self.side(a, j, True), self.side(a, k), a.L(val(y)), a.Rt(val(y))))]

    def moved(self, c):
        """old children and parents -> new ones: (left, right, parent, rotated nodes, new top)"""
        a = self.o(c)
        j, k = self.jk(c)
        y = self.side(a, k, True)
        p = a.P(j)
        child = lambda n, t: If(Or(n == j, n == k), t, If(t == some(j), some(k), t))
        if self.up == 'left':
            lf = lambda n: If(n == j, y, child(n, a.L(n)))
            rt = lambda n: If(n == k, some(j), child(n, a.Rt(n)))
        else:
            rt = lambda n: If(n == j, y, child(n, a.Rt(n)))
            lf = lambda n: If(n == k, some(j), child(n, a.L(n)))
        pa = lambda n: If(n == j, some(k), If(n == k, p, If(some(n) == y, some(j), a.P(n))))
        return lf, rt, pa, (j, k), k

    def ghosts(self, c):
        a = self.o(c)
        j, k = self.jk(c)
        y = self.side(a, k, True)
        SZ = Store(Store(a.SZ, j, a.SZ[j] - a.SZ[k] + a.s(y)), k, a.SZ[j])
        if self.up == 'left':
            return {'LO': Store(a.LO, j, a.OR[k]), 'HI': Store(a.HI, k, a.HI[j]), 'SZ': SZ}
        return {'HI': Store(a.HI, j, a.OR[k]), 'LO': Store(a.LO, k, a.LO[j]), 'SZ': SZ}

    def ghosts_post(self, c):
        return [(c.params['self'], '@' + g, t) for g, t in self.ghosts(c).items()]

    def post(self, c):
        a, b = self.o(c), self.n(c)
        lf, rt, pa, rot, top = self.moved(c)
        t = lambda f: fn(Implies(a.T[n_], f))
        isrot = Or(*[n_ == x for x in rot])
        out = [('left', t(b.L(n_) == lf(n_))), ('right', t(b.Rt(n_) == rt(n_))), ('parent', t(b.P(n_) == pa(n_))),
               ('top', b.root == If(none(a.P(rot[0])), top, a.root)),
               ('root-flags', t(b.is_root(n_) == If(isrot, n_ == b.root, a.is_root(n_)))),
               ('other-sizes', t(Implies(Not(And(b.os, isrot)), b.size(n_) == a.size(n_))))]
        out += [('size-%d' % q, Implies(b.os, b.sizes_at(x))) for q, x in enumerate(rot)]
        return out + b.wf()

    def lemmas_post(self, c):
        a, b = self.o(c), self.n(c)
        lf, rt, pa, rot, top = self.moved(c)
        out = [('rotated-%d' % q, And(a.T[x], b.SZ[x] == 1 + b.s(lf(x)) + b.s(rt(x)), b.SZ[x] >= 1, b.L(x) == lf(x), b.Rt(x) == rt(x))) for q, x in enumerate(rot)]
        return out


@register
class Rot_update(_Rot):
    """the flags and sizes of the given nodes, in this order"""
    name = SB + '_update_rotated'
    variants = ('2', '3')
    uses = ()

    def setup(self, x):
        return [self.me(x), x.int('i'), x.int('j')] + ([x.int('k')] if x.variant == '3' else []), {}

    def raws(self, c):
        r = c.params['nodes']
        return r if isinstance(r, (tuple, list)) else r.items if hasattr(r, 'items') else c.eng.rec(c.old, r).items

    def nodes(self, c):
        return [val(oi(v)) if isinstance(v, VOpt) else I(v) for v in self.raws(c)]

    def pre(self, c):
        a = self.o(c)
        ok = lambda t: Implies(Not(none(t)), And(0 <= val(t), val(t) < a.N, a.A[val(t)] > 0))
        opt = [v for v in self.raws(c) if isinstance(v, VOpt)]
        return [('present', And(*[Not(B(v.isn)) for v in opt])), ('nodes', And(*[And(0 <= x, x < a.N, a.A[x] > 0, ok(a.L(x)), ok(a.Rt(x))) for x in self.nodes(c)]))]

    def lemmas_post(self, c):
        return []

    def modifies(self, c):
        return [('heap', 'size'), ('heap', 'is_root')]

    def ghosts_post(self, c):
        return []

    def post(self, c):
        a, b = self.o(c), self.n(c)
        f, z = a.h('is_root'), a.h('size')
        for x in self.nodes(c):
            at = lambda t: If(none(t), 0, z[a.A[val(t)]])
            f, z = Store(f, a.A[x], x == a.root), Store(z, a.A[x], at(a.L(x)) + at(a.Rt(x)) + 1)
        eqh = lambda p, q: fa('r', lambda r: p[r] == q[r], lambda r: p[r])
        return [('flags', eqh(b.h('is_root'), f)), ('sizes', eqh(b.h('size'), If(a.os, z, a.h('size'))))]


@register
class Rot_right(_Rot):
    name = SB + '_right_rotate'
    up = 'left'


@register
class Rot_left(_Rot):
    name = SB + '_left_rotate'
    up = 'right'


class _Double(_Rot):
    def ijkvw(self, c, a):
        j, k = self.jk(c)
        i = val(self.side(a, k, True))
        return i, j, k, a.L(i), a.Rt(i)

    def pre(self, c):
        a = self.o(c)
        j, k = self.jk(c)
        return super().pre(c) + [('grandchild', Not(none(self.side(a, k, True))))]

    def moved(self, c):
        a = self.o(c)
        i, j, k, v, w = self.ijkvw(c, a)
        near, far = (v, w) if self.up == 'left' else (w, v)      # near: goes to k, far: goes to j
        p = a.P(j)
        me = lambda n, t: If(t == some(j), some(i), t)
        if self.up == 'left':
            lf = lambda n: If(n == j, w, If(n == i, some(k), If(n == k, a.L(n), me(n, a.L(n)))))
            rt = lambda n: If(n == k, v, If(n == i, some(j), If(n == j, a.Rt(n), me(n, a.Rt(n)))))
        else:
            rt = lambda n: If(n == j, v, If(n == i, some(k), If(n == k, a.Rt(n), me(n, a.Rt(n)))))
            lf = lambda n: If(n == k, w, If(n == i, some(j), If(n == j, a.L(n), me(n, a.L(n)))))
        pa = lambda n: If(Or(n == j, n == k), some(i), If(n == i, p, If(some(n) == near, some(k), If(some(n) == far, some(j), a.P(n)))))
        return lf, rt, pa, (j, k, i), i

    def ghosts(self, c):
        a = self.o(c)
        i, j, k, v, w = self.ijkvw(c, a)
        near, far = (v, w) if self.up == 'left' else (w, v)
        SZ = Store(Store(Store(a.SZ, k, a.SZ[k] - a.SZ[i] + a.s(near)), j, a.SZ[j] - a.SZ[k] + a.s(far)), i, a.SZ[j])
        LO, HI = Store(a.LO, i, a.LO[j]), Store(a.HI, i, a.HI[j])
        if self.up == 'left':
            return {'LO': Store(LO, j, a.OR[i]), 'HI': Store(HI, k, a.OR[i]), 'SZ': SZ}
        return {'LO': Store(LO, k, a.OR[i]), 'HI': Store(HI, j, a.OR[i]), 'SZ': SZ}


@register
class Rot_left_right(_Double):
    name = SB + '_left_right_rotate'
    up = 'left'


@register
class Rot_right_left(_Double):
    name = SB + '_right_left_rotate'
    up = 'right'


SP = 'trees.binary_trees:SplayTree.'


class _Splay(_Rot):
    """rotations that bring x nearer to the root"""
    cls = 'SplayTree'
    uses = ('Rot_right', 'Rot_left', 'Rot_left_right', 'Rot_right_left')

    def setup(self, x):
        return [self.me(x), x.int('x'), x.int('p')], {}

    def sides(self, a, x, p, g):
        return And(True)

    def xpg(self, c, a):
        p = ix(c.params['p'])
        x = ix(c.params['x'])
        return x, p, val(a.P(p))

    deep = True

    def pre(self, c):
        a = self.o(c)
        x, p, g = self.xpg(c, a)
        q = a.P(g)
        return a.full() + present(*[c.params[q] for q in 'xp' if q in c.params]) + [('about', ats(x, p, a.P(p), q, a.root, a.L(p), a.Rt(p), a.L(g), a.Rt(g), a.L(x), a.Rt(x), a.L(val(q)), a.Rt(val(q)))),
                           ('child', And(a.T[x], a.P(x) == some(p))), ('grandparent', Implies(BoolVal(self.deep), Not(none(a.P(p))))), ('sides', self.sides(a, x, p, g))]

    def ghosts_post(self, c):
        return []

    def post(self, c):
        a, b = self.o(c), self.n(c)
        x = self.xpg(c, a)[0]
        return [('nearer-to-the-root', b.SZ[x] > a.SZ[x]), ('as-many-nodes', b.SZ[b.root] == a.SZ[a.root])] + b.full()

    def lemmas_post(self, c):
        b = self.n(c)
        return [('about-the-root', ats(b.root))]


@register
class Splay_zig(_Splay):
    name = SP + '_zig'
    deep = False


@register
class Splay_zigzig(_Splay):
    name = SP + '_zig_zig'

    def sides(self, a, x, p, g):
        return And(a.L(p) == some(x), a.L(g) == some(p))


@register
class Splay_zagzag(_Splay):
    name = SP + '_zag_zag'

    def sides(self, a, x, p, g):
        return And(a.Rt(p) == some(x), a.Rt(g) == some(p))


class _ZigZag(_Splay):
    def setup(self, x):
        return [self.me(x), x.int('p')], {}


@register
class Splay_zigzag(_ZigZag):
    name = SP + '_zig_zag'

    def xpg(self, c, a):
        p = ix(c.params['p'])
        return val(a.Rt(p)), p, val(a.P(p))

    def sides(self, a, x, p, g):
        return And(a.Rt(p) == some(x), a.L(g) == some(p))


@register
class Splay_zagzig(_ZigZag):
    name = SP + '_zag_zig'

    def xpg(self, c, a):
        p = ix(c.params['p'])
        return val(a.L(p)), p, val(a.P(p))

    def sides(self, a, x, p, g):
        return And(a.L(p) == some(x), a.Rt(g) == some(p))


@register
class Splay(_Splay):
    """x becomes the root"""
    name = SP + 'splay'
    uses = ('Splay_zig', 'Splay_zigzig', 'Splay_zagzag', 'Splay_zigzag', 'Splay_zagzig')

    def setup(self, x):
        return [self.me(x), x.int('x'), VOpt(z3.Bool('pn'), z3.Int('p'))], {}

    def pre(self, c):
        a = self.o(c)
        x = ix(c.params['x'])
        return a.full() + present(c.params['x']) + [('node', And(a.T[x], a.P(x) == oi(c.params['p']))), ('about', ats(x, a.root))]

    def post(self, c):
        a, b = self.o(c), self.n(c)
        return [('x-is-the-root', b.root == ix(c.params['x'])), ('as-many-nodes', b.SZ[b.root] == a.SZ[a.root])] + b.full()

    def loops(self, u):
        def inv(v):
            s, a = R(v.self, v.heap), R(v.old.self, v.old.heap)
            p = oi(v.raw('p'))
            return s.full() + [('node', And(s.T[v.x], s.P(v.x) == p)), ('as-many-nodes', s.SZ[s.root] == a.SZ[a.root]), ('about', ats(v.x, p, s.P(val(p)), s.root))]
        return {1: LoopSpec(inv=inv, kinds={'p': 'optint'}, ghosts=None, variant=lambda v: v.self.g_SZ[R(v.self, v.heap).root] - v.self.g_SZ[v.x])}


CT = 'trees.binary_trees:CartesianTree.'


def near(a, *xs):
    """mention these indices, their relatives and the root"""
    out = [a.root]
    for x in xs:
        x = val(x) if x.sort() == NO.sort() else x
        p = val(a.P(x))
        out += [x, p, val(a.L(x)), val(a.Rt(x)), val(a.L(p)), val(a.Rt(p)), val(a.P(p))]
    return ats(*out)


class _Cart(_Rot):
    """a node is out of heap order only with respect to its parent (bubble up), to its children (trickle down)"""
    cls = 'CartesianTree'
    uses = ('Rot_right', 'Rot_left')

    def setup(self, x):
        return [self.me(x), x.int('node_idx')], {}

    def ghosts_post(self, c):
        return []

    @staticmethod
    def ordered(a, but=None, above=False):
        """heap order of the priorities, but for the edge above (the edges below) the node `but`"""
        q = val(a.P(n_))
        f = lambda i: a.f('priority', i)
        if but is None:
            return fn(Implies(And(a.T[n_], Not(none(a.P(n_)))), f(q) <= f(n_)))
        ok = Implies(n_ != but if above else And(q != but, n_ != but), f(q) <= f(n_))
        g = a.P(but)
        return fn(Implies(And(a.T[n_], Not(none(a.P(n_)))), And(ok, Implies(And(q == but, Not(none(g))), f(val(g)) <= f(n_)))))

    def x(self, c):
        return ix(c.params['node_idx'])

    def lemmas_post(self, c):
        return [('about-the-root', ats(self.n(c).root))]


@register
class Cart_bubble(_Cart):
    """heap order everywhere"""
    name = CT + '_bubble_up'

    def pre(self, c):
        a, x = self.o(c), self.x(c)
        return a.full() + present(c.params['node_idx']) + [('about', near(a, x)), ('node', And(a.T[x], Not(none(a.P(x))))), ('heap-order-elsewhere', self.ordered(a, x, True))]

    def post(self, c):
        a, b = self.o(c), self.n(c)
        return b.full() + [('as-many-nodes', b.SZ[b.root] == a.SZ[a.root]), ('heap-order', self.ordered(b))]

    def loops(self, u):
        def inv(v):
            s, a = R(v.self, v.heap), R(v.old.self, v.old.heap)
            x = v.node_idx
            p = oi(v.raw('parent_idx'))
            return s.full() + [('node', And(s.T[x], s.P(x) == p, v.local('node').t == s.A[x], Implies(Not(none(p)), v.local('parent').t == s.A[val(p)]))), ('as-many-nodes', s.SZ[s.root] == a.SZ[a.root]),
                               ('heap-order-elsewhere', self.ordered(s, x, True)), ('about', near(s, x))]
        return {1: LoopSpec(inv=inv, kinds={'parent_idx': 'optint', 'node': ('ref', 'TreeNode'), 'parent': ('ref', 'TreeNode')}, variant=lambda v: v.self.g_SZ[R(v.self, v.heap).root] - v.self.g_SZ[v.node_idx])}


@register
class Cart_trickle(_Cart):
    """the node becomes a leaf"""
    name = CT + '_trickle_down'

    def pre(self, c):
        a, x = self.o(c), self.x(c)
        return a.full() + present(c.params['node_idx']) + [('about', near(a, x)), ('node', a.T[x]), ('heap-order', self.ordered(a))]

    def post(self, c):
        a, b, x = self.o(c), self.n(c), self.x(c)
        return b.full() + [('leaf', And(none(b.L(x)), none(b.Rt(x)))), ('as-many-nodes', b.SZ[b.root] == a.SZ[a.root]), ('heap-order-elsewhere', fn(Implies(And(b.T[n_], n_ != x, Not(none(b.P(n_)))), b.f('priority', val(b.P(n_))) <= b.f('priority', n_))))]

    def loops(self, u):
        def inv(v):
            s, a = R(v.self, v.heap), R(v.old.self, v.old.heap)
            x = v.node_idx
            return s.full() + [('node', And(s.T[x], v.local('node').t == s.A[x])), ('as-many-nodes', s.SZ[s.root] == a.SZ[a.root]), ('heap-order-elsewhere', self.ordered(s, x)), ('about', near(s, x))]
        def steps(v, h):
            """the child k that has come up"""
            s, t, x = R(h.self, h.heap), R(v.self, v.heap), v.node_idx
            k = val(t.P(x))
            g, l, r = s.P(x), s.L(x), s.Rt(x)
            f = lambda i: s.f('priority', i)
            return [('about', ats(val(g), val(l), val(r))), ('the-child', And(s.T[x], s.T[k], s.P(k) == some(x), t.P(k) == g, Or(l == some(k), r == some(k)), t.P(x) == some(k), ats(k))),
                    ('least', And(Implies(Not(none(g)), f(val(g)) <= f(k)), Implies(Not(none(l)), f(k) <= f(val(l))), Implies(Not(none(r)), f(k) <= f(val(r))))),
                    ('children-of-x', fn(Implies(And(s.T[n_], t.P(n_) == some(x)), And(n_ != k, f(k) <= f(n_))))),
                    ('children-of-k', fn(Implies(And(s.T[n_], t.P(n_) == some(k), n_ != x), And(f(k) <= f(n_), s.P(n_) == some(k))))),
                    ('others', fn(Implies(And(s.T[n_], t.P(n_) != some(k), t.P(n_) != some(x), n_ != k), t.P(n_) == s.P(n_))))]
        return {1: LoopSpec(inv=inv, end_lemmas=steps, kinds={'node': ('ref', 'TreeNode')}, variant=lambda v: v.self.g_SZ[v.node_idx])}


RB = 'trees.binary_trees:RedBlackTree.'


class RBT(R):
    """with black heights (counting the node itself; 0 for no node)"""
    def __init__(self, s, h, ghosts={}):
        super().__init__(s, h, ghosts)
        self.BH = ghosts['BH'] if 'BH' in ghosts else s.g_BH

    def color(self, i):
        return self.f('color', i)

    def bh(self, t):
        return If(none(t), 0, self.BH[val(t)])

    def heights(self):
        i = n_
        return [('black-heights', fn(Implies(self.T[i], And(self.BH[i] >= 0, self.bh(self.L(i)) == self.bh(self.Rt(i)), self.BH[i] == self.bh(self.L(i)) + If(self.color(i) == 0, 1, 0))))),
                ('colors', fn(Implies(self.T[i], Or(self.color(i) == 0, self.color(i) == 1))))]

    def reds(self, but=None):
        """no red node has a red parent (but for one node)"""
        p = self.P(n_)
        ok = Or(none(p), self.color(n_) == 0, self.color(val(p)) == 0)
        return [('no-red-node-below-a-red-one', fn(Implies(self.T[n_], ok if but is None else Or(n_ == but, ok))))]

    def black_root(self, but=None):
        return [('black-root', Or(self.color(self.root) == 0, *([] if but is None else [self.root == but])))]


class _RB(_Rot):
    cls = 'RedBlackTree'
    uses = ('Rot_right', 'Rot_left')

    def me(self, x):
        t = super().me(x)
        x.st.store[t.id] = x.st.store[t.id].set('@BH', z3.Const('BH', II))
        return t

    def setup(self, x):
        return [self.me(x), x.int('node_idx')], {}

    def o(self, c):
        return RBT(c.o('self'), c.oheap)

    def n(self, c, **g):
        return RBT(c.n('self'), c.nheap, g)

    def ghosts_post(self, c):
        return []


@register
class RB_fix_insert(_RB):
    """from a tree whose only flaw is the red node node_idx below a red node"""
    name = RB + '__fix_insert'

    def modifies(self, c):
        return super().modifies(c) + [('heap', 'color'), ('fld', c.params['self'], '@BH', 'ghost')]

    def pre(self, c):
        a, x = self.o(c), ix(c.params['node_idx'])
        return a.full() + present(c.params['node_idx']) + [('about', near(a, x)), ('node', And(a.T[x], a.color(x) == 1))] + a.heights() + a.reds(x) + a.black_root()

    def ghosts_post(self, c):
        b = RBT(c.n('self'), c.nheap, {'BH': z3.Const('bh', II)})
        if c.calling:
            return []
        BH = c.local('@g_BH')
        return [(c.params['self'], '@BH', c.ghost('BH', Store(BH, b.root, 1 + If(none(b.L(b.root)), 0, BH[val(b.L(b.root))]))))]

    def post(self, c):
        a, b = self.o(c), self.n(c)
        return b.full() + [('as-many-nodes', b.SZ[b.root] == a.SZ[a.root])] + b.heights() + b.reds() + b.black_root()

    def lemmas_post(self, c):
        b = self.n(c)
        return [('about-the-root', near(b, b.root))]

    def loops(self, u):
        X = lambda v: ix(v.raw('node_idx'))
        cur = lambda v: RBT(v.self, v.heap, {'BH': v.g('BH')})

        def inv(v):
            s, a = cur(v), RBT(v.old.self, v.old.heap)
            x = X(v)
            return s.full() + [('node', And(Not(none(oi(v.raw('node_idx')))), s.T[x])), ('as-many-nodes', s.SZ[s.root] == a.SZ[a.root]), ('about', near(s, x, s.P(x)))] + s.heights() + s.reds(x) + s.black_root(x)

        def step(v, h):
            s, x, y = cur(h), X(h), X(v)
            p = val(s.P(x))
            g = val(s.P(p))
            u = val(If(s.L(g) == some(p), s.Rt(g), s.L(g)))
            rec = y == g
            BH = h.g('BH')
            return {'BH': v.define('BH', lambda n: If(rec, If(Or(n == p, n == u), BH[n] + 1, BH[n]), If(n == y, BH[g], If(n == g, BH[g] - 1, BH[n]))))}

        return {1: LoopSpec(inv=inv, kinds={'node_idx': 'optint'}, ghosts=('BH',), ghost_init=lambda v: {'BH': v.self.g_BH}, ghost_step=step, ghost_break=step, variant=lambda v: cur(v).SZ[cur(v).root] - cur(v).SZ[X(v)])}


AV = 'trees.binary_trees:AVLTree.'


class AVL(R):
    def height(self, i):
        return self.f('height', i)

    def h0(self, t):
        return If(none(t), -1, self.height(val(t)))

    def balanced_at(self, i, but=None, believed=None):
        """the stored height is exact and the children differ by one level at most (taking the height of the node `but` as believed)"""
        g = (lambda t: self.h0(t)) if but is None else (lambda t: If(And(t == but, Not(none(but))), believed, self.h0(t)))
        l, r = g(self.L(i)), g(self.Rt(i))
        return And(self.height(i) >= 0, self.height(i) == 1 + If(l >= r, l, r), l - r <= 1, r - l <= 1)

    def balanced(self, but=None, believed=None):
        f = self.balanced_at(n_, but, believed)
        return [('balanced' if but is None else 'balanced-elsewhere', fn(Implies(self.T[n_], f if but is None else Or(some(n_) == but, f))))]

    def real(self, i):
        l, r = self.h0(self.L(i)), self.h0(self.Rt(i))
        return 1 + If(l >= r, l, r)

    def lean(self, i):
        return self.h0(self.L(i)) - self.h0(self.Rt(i))


class _AvlRot:
    cls = 'AVLTree'
    uses = ('Rot_right', 'Rot_left', 'Rot_left_right', 'Rot_right_left')

    def o(self, c):
        return AVL(c.o('self'), c.oheap)

    def n(self, c, **g):
        return AVL(c.n('self'), c.nheap, g)

    def modifies(self, c):
        return super().modifies(c) + [('heap', 'height')]

    def ghosts_post(self, c):
        return super().ghosts_post(c) if c.calling else []

    def again(self, c):
        return self.jk(c)[:1]

    def post(self, c):
        a, b = self.o(c), self.n(c)
        rot = self.again(c)
        return super().post(c) + [('new-heights', And(*[b.height(x) == b.real(x) for x in rot])), ('other-heights', fp(Implies(And(a.T[n_], *[n_ != x for x in rot]), b.height(n_) == a.height(n_)), b.height(n_)))]


class _AvlDouble(_AvlRot):
    def again(self, c):
        return self.jk(c)


@register
class Avl_right(_AvlRot, Rot_right):
    name = AV + '_right_rotate'


@register
class Avl_left(_AvlDouble, Rot_left):
    name = AV + '_left_rotate'


@register
class Avl_left_right(_AvlDouble, Rot_left_right):
    name = AV + '_left_right_rotate'


@register
class Avl_right_left(_AvlDouble, Rot_right_left):
    name = AV + '_right_left_rotate'


class _Balance(_Rot):
    cls = 'AVLTree'
    uses = ('Avl_right', 'Avl_left', 'Avl_left_right', 'Avl_right_left')

    def o(self, c):
        return AVL(c.o('self'), c.oheap)

    def n(self, c, **g):
        return AVL(c.n('self'), c.nheap, g)

    def ghosts_post(self, c):
        return []

    def modifies(self, c):
        return super().modifies(c) + [('heap', 'height')]

    def steps(self, v, h):
        """around the visited node"""
        s, t = AVL(h.self, h.heap), AVL(v.self, v.heap)
        w = val(oi(h.raw('walk')))
        u = oi(v.raw('walk'))
        d = s.lean(w)
        turned = Not(And(-1 <= d, d <= 1))
        isrel = Or(n_ == w, t.P(n_) == u, s.P(n_) == some(w))
        same = And(t.L(n_) == s.L(n_), t.Rt(n_) == s.Rt(n_), t.height(n_) == s.height(n_))
        return [('about', And(near(t, w, u), kin(t, w), kin(t, val(u)), kin(s, w))), ('size-here', Implies(s.os, t.size(w) == t.SZ[w])),
                ('size-there', Implies(And(s.os, turned), t.size(val(u)) == t.SZ[val(u)])),
                ('sizes-straight', Implies(And(s.os, Not(turned)), fn(Implies(And(s.T[n_], n_ != w), And(t.size(n_) == s.size(n_), t.SZ[n_] == s.SZ[n_]))))),
                ('visited-node', t.balanced_at(w)),
                ('others-straight', Implies(Not(turned), fn(Implies(And(s.T[n_], n_ != w, some(n_) != u), And(s.L(n_) != some(w), s.Rt(n_) != some(w), t.h0(t.L(n_)) == s.h0(s.L(n_)), t.h0(t.Rt(n_)) == s.h0(s.Rt(n_))))))),
                ('balanced-straight', Implies(Not(turned), fn(Implies(And(s.T[n_], some(n_) != u), t.balanced_at(n_))))),
                ('straight', Implies(Not(turned), And(t.height(w) == s.real(w), t.P(w) == s.P(w), fn(Implies(And(s.T[n_], n_ != w), same))))),
                ('turned-top', Implies(turned, And(Not(none(u)), t.T[val(u)], t.P(val(u)) == s.P(w), t.P(w) == u))),
                ('turned-child', Implies(turned, And(Implies(Not(none(t.L(val(u)))), t.balanced_at(val(t.L(val(u))))), Implies(Not(none(t.Rt(val(u)))), t.balanced_at(val(t.Rt(val(u)))))))),
                ('turned-others', Implies(turned, fn(Implies(And(s.T[n_], n_ != w, some(n_) != u, t.P(n_) != u), And(t.height(n_) == s.height(n_), *[Or(f(t) == f(s), And(f(s) == some(w), f(t) == u)) for f in (lambda r: r.L(n_), lambda r: r.Rt(n_))])))))]

    def post(self, c):
        a, b = self.o(c), self.n(c)
        return b.full() + b.balanced() + [('as-many-nodes', b.SZ[b.root] == a.SZ[a.root])]

    def lemmas_post(self, c):
        b = self.n(c)
        return [('about-the-root', near(b, b.root))]


def kin(a, x):
    """the children and grandchildren"""
    l, r = val(a.L(x)), val(a.Rt(x))
    return ats(l, r, *[f(i) for i in (l, r) for f in (a.L, a.Rt)])


@register
class Avl_balance_deletion(_Balance):
    name = AV + '_balance_deletion'

    def setup(self, x):
        return [self.me(x), VOpt(z3.Bool('wn'), z3.Int('start_idx')), z3.Const('key', E)], {}

    @staticmethod
    def shrunk(a, w, KW):
        """the subtree of w may have become one level lower than its parent believes"""
        i = val(w)
        d, h = a.lean(i), a.real(i)
        return [('shrunk-below', Implies(Not(none(w)), And(a.T[i], Or(h == KW, And(h == KW - 1, -1 <= d, d <= 1)), -2 <= d, d <= 2)))]

    def pre(self, c):
        a, w = self.o(c), oi(c.params['start_idx'])
        return a.full() + [('about', And(near(a, w), kin(a, val(w))))] + a.balanced(w, a.height(val(w))) + self.shrunk(a, w, a.height(val(w)))

    def loops(self, u):
        W = lambda v: oi(v.raw('walk'))
        cur = lambda v: AVL(v.self, v.heap)

        def inv(v):
            s, a, w = cur(v), AVL(v.old.self, v.old.heap), W(v)
            return s.full() + [('about', And(near(s, w), kin(s, val(w)))), ('as-many-nodes', s.SZ[s.root] == a.SZ[a.root])] + s.balanced(w, v.g('KW')) + self.shrunk(s, w, v.g('KW'))

        def step(v, h):
            s, t, w = cur(h), cur(v), val(W(h))
            d = s.lean(w)
            return {'KW': If(And(-1 <= d, d <= 1), t.height(val(W(v))), h.g('KW'))}

        def variant(v):
            s, w = cur(v), W(v)
            d = s.lean(val(w))
            return (If(none(w), 0, 1 + s.SZ[s.root] - s.SZ[val(w)]), If(And(-1 <= d, d <= 1), 0, 1))
        return {1: LoopSpec(inv=inv, end_lemmas=self.steps, kinds={'walk': 'optint'}, ghosts=('KW',), ghost_init=lambda v: {'KW': cur(v).height(val(W(v)))}, ghost_step=step, variant=variant)}


@register
class Avl_balance_insertion(_Balance):
    name = AV + '_balance_insertion'

    def setup(self, x):
        return [self.me(x), x.int('curr'), VOpt(z3.Bool('wn'), z3.Int('last'))], {}

    def listhint(self, eng, st, o):
        return 'optint'

    @staticmethod
    def grown(a, w, KW, p, q):
        """the subtree of w may have become one level higher than its parent believes: then its child p is the higher one,
        and where the children differ by two levels, q is the higher child of p"""
        i = val(w)
        d, h = a.lean(i), a.real(i)
        o = lambda x, y: If(a.L(x) == some(y), a.Rt(x), a.L(x))     # the other child
        return [('grown-below', Implies(Not(none(w)), And(a.T[i], a.T[p], a.P(p) == w, Or(h == KW, And(h == KW + 1, a.height(p) == KW, Or(a.h0(o(i, p)) == KW - 1, a.h0(o(i, p)) == KW - 2))),
                                                          Or(And(-1 <= d, d <= 1), And(h == KW + 1, a.h0(o(i, p)) == KW - 2, a.T[q], a.P(q) == some(p), a.height(q) == KW - 1, a.h0(o(p, q)) == KW - 2)))))]

    def pre(self, c):
        a, w, x = self.o(c), oi(c.params['last']), ix(c.params['curr'])
        return a.full() + [('about', And(near(a, w, x), kin(a, val(w))))] + a.balanced(w, a.height(val(w))) + [('new-leaf', And(a.T[x], a.P(x) == w, none(a.L(x)), none(a.Rt(x)), a.height(x) == 0))] + self.grown(a, w, a.height(val(w)), x, val(w))

    def loops(self, u):
        W = lambda v: oi(v.raw('walk'))
        cur = lambda v: AVL(v.self, v.heap)

        def inv(v):
            s, a, w = cur(v), AVL(v.old.self, v.old.heap), W(v)
            m, q = v.path.len, v.path.arr
            here = And(*[BoolVal(True) if q.range() == IntS else Not(none(q[j])) for j in (0, 1)])
            q = [q[j] if q.range() == IntS else val(q[j]) for j in (0, 1)]
            return s.full() + [('path', And(m == 2, here)), ('about', And(near(s, w, q[0]), kin(s, val(w)))), ('as-many-nodes', s.SZ[s.root] == a.SZ[a.root])] + s.balanced(w, v.g('KW')) + self.grown(s, w, v.g('KW'), q[0], q[1])

        def step(v, h):
            s, t, w = cur(h), cur(v), val(W(h))
            d = s.lean(w)
            return {'KW': If(And(-1 <= d, d <= 1), t.height(val(W(v))), h.g('KW'))}

        def variant(v):
            s, w = cur(v), W(v)
            d = s.lean(val(w))
            return (If(none(w), 0, 1 + s.SZ[s.root] - s.SZ[val(w)]), If(And(-1 <= d, d <= 1), 0, 1))
        return {1: LoopSpec(inv=inv, end_lemmas=self.steps, kinds={'walk': 'optint', 'last': 'optint', 'last2last': 'optint'}, ghosts=('KW',), ghost_init=lambda v: {'KW': cur(v).height(val(W(v)))}, ghost_step=step, variant=variant)}
