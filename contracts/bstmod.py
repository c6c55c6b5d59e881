"""Insertion into and deletion from binary search trees (C16), over the node array (treearr.py).  Ghost fields of a tree: SUB[n] (the nodes of the
subtree of n), D (a number that grows from parent to child) and its bound M, RT (the root node)."""
from .common import *
from .travs import optint
from .treearr import TA, GH, LINKS, _TA, II, IB, ix, ref_of, ghost_in, none, some, val, NO, wrap, fresh_const
from .bst import EQ
from . import register

BS = 'trees.binary_trees:BinarySearchTree.'
BB = z3.ArraySort(IntS, IB)
n_, m_, x_ = z3.Ints('n m x')
TG = {'SUB': BB, 'D': II, 'M': IntS, 'RT': IntS}
HEAP = ('left', 'right', 'parent', 'key', 'data')


class BT(TA):
    def __init__(self, s, h):
        TA.__init__(self, s.tree, h)
        self.SUB, self.D, self.M, self.RT = s.g_SUB, s.g_D, s.g_M, s.g_RT
        self.root = ix(s.root_idx)
        self.os = B(s.is_order_statistic)
        self.key, self.data = h('key'), h('data')

    def pl(self, n):
        return rk(self.key[n])

    @property
    def empty(self):
        return isNone(self.key[self.RT])

    def tree(self):
        T, SUB, LN, RN, PN, D, pl, RT = self.T, self.SUB, self.LN, self.RN, self.PN, self.D, self.pl, self.RT
        def child(nm, G, less):
            c = G[n_]
            side = lambda m: pl(m) < pl(n_) if less else pl(n_) < pl(m)
            return [(nm, ForAll([n_], Implies(And(T[n_], c != 0), And(T[c], PN[c] == n_, D[n_] < D[c], SUB[n_][c], c != RT)), patterns=[c])),
                    (nm + '-below', ForAll([n_, m_], Implies(And(T[n_], c != 0, SUB[c][m_]), And(SUB[n_][m_], side(m_), m_ != n_)), patterns=[SUB[c][m_]])),
                    (nm + '-closed', ForAll([x_, n_], Implies(And(T[x_], T[n_], SUB[x_][n_], c != 0), SUB[x_][c]), patterns=[MultiPattern(SUB[x_][n_], c)]))]
        return [('root', And(T[RT], RT > 0, self.IX[RT] == self.root, PN[RT] == 0)),
                ('all', ForAll([m_], Implies(T[m_], And(SUB[RT][m_], SUB[m_][m_], 0 <= D[m_], D[m_] <= self.M)), patterns=[T[m_], D[m_]])),
                ('below', ForAll([n_, m_], Implies(And(T[n_], SUB[n_][m_]), And(T[m_], Implies(m_ != n_, Or(And(pl(m_) < pl(n_), LN[n_] != 0, SUB[LN[n_]][m_]), And(pl(n_) < pl(m_), RN[n_] != 0, SUB[RN[n_]][m_]))))), patterns=[SUB[n_][m_]])),
                ('up', ForAll([n_, m_], Implies(And(T[n_], SUB[n_][m_], m_ != n_), And(PN[m_] != 0, T[PN[m_]], SUB[n_][PN[m_]], D[PN[m_]] < D[m_], Or(LN[PN[m_]] == m_, RN[PN[m_]] == m_))), patterns=[SUB[n_][m_]]))] + \
            child('left-child', LN, True) + child('right-child', RN, False) + \
            [('not-both', ForAll([n_], Implies(And(T[n_], LN[n_] != 0), LN[n_] != RN[n_]), patterns=[LN[n_], RN[n_]])),
             ('empty', If(self.empty, And(LN[RT] == 0, RN[RT] == 0), ForAll([n_], Implies(T[n_], Not(isNone(self.key[n_]))), patterns=[T[n_], self.key[n_]])))]

    def wf(self, nxt):
        return TA.wf(self, nxt) + self.tree()

    def size_ok(self, n):
        z = self.h('size')
        s = lambda c: If(c == 0, 0, z[c])
        return z[n] == 1 + s(self.LN[n]) + s(self.RN[n])

    def sizes(self, but=lambda n: BoolVal(False)):
        return [('sizes', Implies(self.os, ForAll([n_], Implies(And(self.T[n_], Not(but(n_))), self.size_ok(n_)), patterns=[self.h('size')[n_]])))]

    def absent(self, k):
        return Or(self.empty, ForAll([m_], Implies(self.T[m_], self.pl(m_) != rk(k)), patterns=[self.T[m_], self.key[m_]]))


class _BM(_TA):
    axioms = (EQ,)
    assumes = ('keys that the comparator orders neither way are equal, == agrees with it, and equal keys are one dictionary key',)
    uses = ('BM_search', 'BM_sizes', 'TA_append', 'TA_delete')

    def me(self, x):
        return x.obj('BinarySearchTree', tree=self.arr(x), root_idx=x.int('root'), size=x.int('size'), is_order_statistic=z3.Bool('os'), comparator=comp_lt(), **{'@' + g: z3.Const(g, s) for g, s in TG.items()})

    def karg(self, c):
        return c.o('key')

    def setup(self, x):
        return [self.me(x), z3.Const('key', E)], {}

    def o(self, c):
        return BT(c.o('self'), c.oheap)

    def n(self, c):
        return BT(c.n('self'), c.nheap)

    def pre(self, c):
        return self.o(c).wf(c.old.nxt) + [('key', Not(isNone(self.karg(c))))]

    def modifies(self, c):
        t = c.o('self').tree.v
        return [('fld', t, f) for f in ('_size', '_last_pos_filled', '_num')] + [('fld', t, '_data', ('list', ('ref', 'TreeNode'))), ('list', c.o('self').tree._data.v, 'arr')] + [('fld', t, '@' + g, 'ghost') for g in GH] + \
            [('fld', c.raw('self'), '@' + g, 'ghost') for g in ('SUB', 'D', 'M')] + [('fld', c.raw('self'), f) for f in ('root_idx', 'size')] + [('heap', f) for f in HEAP + ('size',)] + [('nxt',)]

    def put(self, eng, st, o, **kv):
        for n, t in kv.items():
            st.store[o.id] = st.store[o.id].set('@' + n, t)
            eng.mod(('fld', o.id, '@' + n))


    def tree_cell(self, c):
        return c.eng.rec(c.new, c.raw('self')).f['tree']

    def rekey_root(self, c):
        """the root may have been given its first key, or lost its last"""
        if c.calling:
            return []
        b = self.n(c)
        return [(self.tree_cell(c), '@KI', Store(b.KI, rk(b.key[b.RT]), b.RT))]


@register
class BM_search(_BM):
    """finds the node with the key (and its parent)"""
    name = BS + 'search'
    variants = ('plain', 'parent')
    uses = ()

    def setup(self, x):
        return [self.me(x), z3.Const('key', E)], ({'parent': True} if x.variant == 'parent' else {})

    def wants_parent(self, c):
        if c.eng.unit.k is self:
            return c.eng.unit.variant == 'parent'
        return bool(c.eng.rec(c.old, c.raw('kwargs')).d.get('parent'))

    def result(self, c):
        return ('tuple', 'optint', 'optint') if self.wants_parent(c) else 'optint'

    def modifies(self, c):
        return []

    @staticmethod
    def parent_is(a, p, n):
        pn, pv = optint(p)
        return And(pn == (a.PN[n] == 0), Implies(Not(pn), pv == a.IX[a.PN[n]]))

    def post(self, c):
        a, k, r = self.o(c), self.karg(c), c.res_v
        if self.wants_parent(c):
            r, p = r
        isn, v = optint(r)
        n = a.A[v]
        out = [('found', Implies(Not(isn), And(Not(a.empty), a.T[n], a.IX[n] == v, 0 <= v, v <= a.last, a.pl(n) == rk(k), n == a.KI[rk(k)]))), ('absent', Implies(isn, a.absent(k)))]
        return out + ([('parent', Implies(Not(isn), self.parent_is(a, p, n)))] if self.wants_parent(c) else [])

    def loops(self, u):
        def inv(v):
            a = BT(v.self, v.heap)
            isn, w = optint(v.raw('walk'))
            n = a.A[w]
            return [('not-empty', Not(a.empty)), ('node', Implies(Not(isn), And(a.T[n], a.IX[n] == w, self.parent_is(a, v.raw('parent'), n)))),
                    ('where', ForAll([m_], Implies(And(a.T[m_], a.pl(m_) == rk(v.key)), And(Not(isn), a.SUB[n][m_])), patterns=[a.T[m_], a.key[m_]]))]
        def var(v):
            a = BT(v.self, v.heap)
            isn, w = optint(v.raw('walk'))
            return If(isn, 0, 1 + a.M - a.D[a.A[w]])
        return {1: LoopSpec(inv=inv, kinds={'walk': 'optint', 'parent': 'optint'}, variant=var)}


@register
class BM_sizes(_BM):
    """the sizes along the path to the root are put right"""
    name = BS + '_update_size'
    uses = ()

    def setup(self, x):
        return [self.me(x), VOpt(z3.Bool('none'), z3.Int('start_idx'))], {}

    def start(self, c):
        a = self.o(c)
        isn, v = optint(c.raw('start_idx'))
        return a, isn, v, a.A[v]

    def modifies(self, c):
        return [('heap', 'size')]

    def apply(self, eng, st, args, kw, node):
        before = getattr(eng.unit.k, 'before_sizes', None)
        if before is not None:
            before(eng, st, args)
        return super().apply(eng, st, args, kw, node)

    def pre(self, c):
        a, isn, v, n = self.start(c)
        return a.wf(c.old.nxt) + [('start', Implies(Not(isn), And(0 <= v, v <= a.last, a.T[n], a.IX[n] == v)))] + a.sizes(lambda m: And(Not(isn), a.SUB[m][n]))

    def result(self, c):
        return 'none'

    def post(self, c):
        return self.n(c).sizes()

    def loops(self, u):
        def inv(v):
            a = BT(v.self, v.heap)
            isn, w = optint(v.raw('walk'))
            n = a.A[w]
            return [('node', Implies(Not(isn), And(0 <= w, w <= a.last, a.T[n], a.IX[n] == w)))] + a.sizes(lambda m: And(Not(isn), a.SUB[m][n]))
        def var(v):
            a = BT(v.self, v.heap)
            isn, w = optint(v.raw('walk'))
            return If(isn, 0, 1 + a.D[a.A[w]])
        return {1: LoopSpec(inv=inv, kinds={'walk': 'optint'}, variant=var)}


@register
class BM_insert(_BM):
    """the entry is there, every other entry as before"""
    name = BS + 'insert'

    def setup(self, x):
        return [self.me(x), z3.Const('key', E), z3.Const('data', E)], {}

    def pre(self, c):
        return super().pre(c) + self.o(c).sizes()

    def result(self, c):
        return 'none'

    def before_update(self, eng, st, args, node):
        fr = st.frames[st.fid]
        s, N = fr['self'], ref_of(fr['new_node'])
        a = BT(wrap(eng, st, s), lambda f: st.heap[f])
        p = a.A[optint(fr['walk'])[1]]
        eng.new_node = N
        left = rk(fr['key']) < a.pl(p)
        put = lambda G, n, t: ghost_in(st, 'g', lambda i: If(i == n, t, G[i]))
        self.put(eng, st, args[0], T=Store(a.T, N, BoolVal(True)), IX=Store(a.IX, N, a.last + 1), KI=Store(a.KI, rk(fr['key']), N), PN=Store(a.PN, N, p),
                 LN=Store(Store(a.LN, p, If(left, N, a.LN[p])), N, IntVal(0)), RN=Store(Store(a.RN, p, If(left, a.RN[p], N)), N, IntVal(0)))
        self.put(eng, st, s, D=Store(a.D, N, a.D[p] + 1), M=a.M + 1, SUB=ghost_in(st, 'SUB1', lambda x: If(x == N, Store(z3.K(IntS, BoolVal(False)), N, BoolVal(True)), Store(a.SUB[x], N, a.SUB[x][p]))))

    def ghosts_post(self, c):
        return self.rekey_root(c)

    def post(self, c):
        a, b, k, d = self.o(c), self.n(c), self.karg(c), c.o('data')
        N = getattr(c.eng, 'new_node', IntVal(-1))
        hit = lambda n: And(Not(a.empty), a.pl(n) == rk(k))
        out = [('others-stay', ForAll([n_], Implies(And(a.T[n_], Not(a.empty)), And(b.T[n_], b.key[n_] == a.key[n_], b.data[n_] == If(hit(n_), d, a.data[n_]))), patterns=[a.T[n_], b.key[n_], b.data[n_]])),
               ('one-new', ForAll([n_], Implies(b.T[n_], Or(And(a.T[n_], Not(a.empty)), And(b.key[n_] == k, b.data[n_] == d))), patterns=[b.T[n_]])),
               ('not-empty', Not(b.empty)), ('there', And(b.T[b.KI[rk(k)]], rk(b.key[b.KI[rk(k)]]) == rk(k))), ('there-data', b.data[b.KI[rk(k)]] == d), ('root', b.RT == a.RT)]
        return out + b.wf(c.new.nxt) + b.sizes()

    def loops(self, u):
        def inv(v):
            a, e = BT(v.self, v.old.heap), v.entry.heap
            (wn, w), (pn, p) = optint(v.raw('walk')), optint(v.raw('prev_node'))
            n, N, k = a.A[w], ref_of(v.raw('new_node')), v.key
            flag, at = B(v.flag), some(a.last + 1)
            less = rk(k) < a.pl(n)
            h = v.heap
            fresh = lambda f, t: h(f)[N] == t
            return [('node', And(a.T[n], a.IX[n] == w, Not(wn), Not(pn), p == w, 0 <= w, w <= a.last)),
                    ('side', ForAll([x_], Implies(And(a.T[x_], a.SUB[x_][n], x_ != n), (rk(k) < a.pl(x_)) == (a.pl(n) < a.pl(x_))), patterns=[a.SUB[x_][n]])),
                    ('left', h('left') == If(And(Not(flag), less), Store(e('left'), n, at), e('left'))),
                    ('right', h('right') == If(And(Not(flag), Not(less)), Store(e('right'), n, at), e('right'))),
                    ('parent', h('parent') == If(flag, e('parent'), Store(e('parent'), N, some(w)))),
                    ('free', Implies(Not(flag), If(less, a.LN[n], a.RN[n]) == 0))]
        def var(v):
            a = BT(v.self, v.old.heap)
            return a.M - a.D[a.A[optint(v.raw('walk'))[1]]] + If(B(v.flag), 1, 0)
        return {1: LoopSpec(inv=inv, variant=var, kinds={'walk': 'optint', 'prev_node': 'optint'})}


@register
class BM_delete(_BM):
    """exactly the entry with the key is gone"""
    name = BS + 'delete'

    def pre(self, c):
        return super().pre(c) + self.o(c).sizes()

    def result(self, c):
        return None

    def before_update(self, eng, st, args, node):
        fr = st.frames[st.fid]
        s = fr['self']
        a = BT(wrap(eng, st, s), lambda f: st.heap[f])
        i = ix(args[1])
        d, w = a.A[i], a.A[optint(fr['walk'])[1]]
        ln = lambda f: ghost_in(st, f, lambda n: If(none(st.heap[f][n]), 0, a.A[val(st.heap[f][n])]))
        self.put(eng, st, args[0], T=Store(a.T, d, BoolVal(False)), KI=Store(a.KI, rk(st.heap['key'][w]), w), LN=ln('left'), RN=ln('right'), PN=ln('parent'))
        self.put(eng, st, s, SUB=ghost_in(st, 'SUB1', lambda x: Store(a.SUB[x], d, BoolVal(False))))

    def before_sizes(self, eng, st, args):
        b = BT(wrap(eng, st, args[0]), lambda f: st.heap[f])
        self.put(eng, st, eng.rec(st, args[0]).f['tree'], KI=Store(b.KI, rk(b.key[b.RT]), b.RT))

    def ghosts_post(self, c):
        return self.rekey_root(c)

    def post(self, c):
        a, b, k = self.o(c), self.n(c), self.karg(c)
        r = rk(k)
        at = lambda n: b.KI[rk(a.key[n])]
        out = [('others-stay', ForAll([n_], Implies(And(a.T[n_], Not(a.empty), a.pl(n_) != r), And(b.T[at(n_)], b.key[at(n_)] == a.key[n_], b.data[at(n_)] == a.data[n_])), patterns=[a.T[n_], a.key[n_]])),
               ('none-new', ForAll([n_], Implies(And(b.T[n_], Not(b.empty)), And(Not(a.empty), a.T[a.KI[rk(b.key[n_])]], a.key[a.KI[rk(b.key[n_])]] == b.key[n_])), patterns=[b.T[n_], b.key[n_]])),
               ('gone', b.absent(k)), ('root', b.RT == a.RT)]
        if c.res_v is None:
            out += [('was-absent', a.absent(k)), ('unchanged', And(b.T == a.T, b.key == a.key, b.data == a.data))]
        else:
            out += [('true', BoolVal(c.res_v is True)), ('was-there', And(Not(a.empty), a.T[a.KI[r]], a.pl(a.KI[r]) == r))]
        return out + b.wf(c.new.nxt) + b.sizes()

    def loops(self, u):
        def inv(v):
            a = BT(v.self, v.heap)
            w, t, p = (optint(v.raw(x))[1] for x in ('walk', 'twalk', 'par'))
            wn, tn, pn = a.A[w], a.A[t], a.A[p]
            top = a.RN[wn]
            return [('node', And(a.T[tn], a.IX[tn] == t, 0 <= t, t <= a.last, a.SUB[top][tn], Not(B(optint(v.raw('twalk'))[0])))),
                    ('parent', And(Not(B(optint(v.raw('par'))[0])), a.T[pn], a.IX[pn] == p, a.PN[tn] == pn, If(B(v.flag), And(a.LN[pn] == tn, a.SUB[top][pn]), And(p == w, tn == top)))),
                    ('above', ForAll([x_], Implies(And(a.T[x_], a.SUB[x_][wn]), a.SUB[x_][tn]), patterns=[a.SUB[x_][wn]])),
                    ('least', ForAll([m_], Implies(a.SUB[top][m_], Or(a.SUB[tn][m_], a.pl(tn) < a.pl(m_))), patterns=[a.SUB[top][m_]]))]
        def var(v):
            a = BT(v.self, v.heap)
            return a.M - a.D[a.A[optint(v.raw('twalk'))[1]]]
        return {1: LoopSpec(inv=inv, kinds={'twalk': 'optint', 'par': 'optint'}, variant=var)}
