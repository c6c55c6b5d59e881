"""Skip lists (C08).  Ghost fields of a list: LV (level of a node, -1 for a node that is not in the list), OR (place of a node: a real number, 0 for
heads and 1 for tails, shared by the nodes of a tower), D (distance to the tail of the level), HD and TL (head and tail of a level),
TW (the node of a tower at a level)."""
from .common import *
from .graphs import named
from . import register

SL = 'linear_data_structures.linked_lists:SkipList.'
REF = ('ref', 'SkipNode')
INF, KEY = z3.Real('INF'), z3.Real('key')
II, IR = z3.ArraySort(IntS, IntS), z3.ArraySort(IntS, RealS)
n_, m_ = z3.Ints('n m')


def fn(f, *pats):
    ok = []
    for p in pats:
        p = z3.MultiPattern(*p) if isinstance(p, tuple) else p
        try:
            z3.ForAll([n_], f, patterns=[p])
            ok.append(p)
        except z3.Z3Exception:
            pass
    return ForAll([n_], f, patterns=ok) if ok else ForAll([n_], f)


def fnm(f, *pats):
    try:
        return z3.ForAll([n_, m_], f, patterns=[z3.MultiPattern(*p) for p in pats])
    except z3.Z3Exception:
        return ForAll([n_, m_], f)


GH = ('LV', 'OR', 'D', 'HD', 'TL', 'TW')


class S:
    def __init__(self, c, st, h, obj=None, name='self', **kw):
        s = wrap(c.eng, st, c.params[name]) if obj is None else obj
        self.head, self.tail, self.levels, self.size = s.head.t, s.tail.t, I(s._levels), I(s._num_nodes)
        for g in GH:
            setattr(self, g, kw[g] if g in kw else getattr(s, 'g_' + g))
        self.key, self.data, self.next, self.down, self.nxt = h('key'), h('data'), h('next'), h('down'), st.nxt

    def isin(self, n):
        return self.LV[n] >= 0

    def bottom(self, n):
        """n holds an entry"""
        return And(self.LV[n] == 0, 0 < self.OR[n], self.OR[n] < 1)

    def ends(self):
        l = self.levels
        return [('head', self.head == If(l > 0, self.HD[l - 1], 0)), ('tail', self.tail == If(l > 0, self.TL[l - 1], 0))]

    def wf(self):
        LV, OR, D, HD, TL, key, next, dn = self.LV, self.OR, self.D, self.HD, self.TL, self.key, self.next, self.down
        i = lambda n: LV[n] >= 0
        both = And(i(n_), LV[n_] == LV[m_])
        below = And(LV[dn[n_]] == LV[n_] - 1, OR[dn[n_]] == OR[n_], key[dn[n_]] == key[n_])
        l = z3.Int('l')
        return [('nodes', fn(And(LV[n_] >= -1, Implies(i(n_), And(0 < n_, n_ < self.nxt, LV[n_] < self.levels, D[n_] >= 0))), LV[n_])),
                ('ends-of-levels', ForAll([l], Implies(And(0 <= l, l < self.levels), And(LV[HD[l]] == l, OR[HD[l]] == 0, key[HD[l]] == -INF, LV[TL[l]] == l, OR[TL[l]] == 1, key[TL[l]] == INF, next[TL[l]] == 0, D[TL[l]] == 0)), patterns=[HD[l], TL[l]])),
                ('places', fn(Implies(i(n_), And(0 <= OR[n_], OR[n_] <= 1, (OR[n_] == 0) == (n_ == HD[LV[n_]]), (OR[n_] == 1) == (n_ == TL[LV[n_]]), Implies(And(0 < OR[n_], OR[n_] < 1), And(-INF < key[n_], key[n_] < INF)))), OR[n_])),
                ('successors', fn(Implies(And(i(n_), OR[n_] < 1), And(LV[next[n_]] == LV[n_], OR[next[n_]] > OR[n_], D[n_] == D[next[n_]] + 1)), next[n_])),
                ('immediate-successors', fnm(Implies(And(both, OR[n_] < OR[m_]), OR[m_] >= OR[next[n_]]), (next[n_], OR[m_]))),
                ('different-places', fnm(Implies(And(both, OR[n_] == OR[m_]), n_ == m_), (OR[n_], OR[m_]))),
                ('sorted', fnm(Implies(And(both, OR[n_] <= OR[m_]), key[n_] <= key[m_]), (OR[n_], OR[m_]))),
                ('towers', ForAll([n_, l], Implies(And(i(n_), 0 <= l, l <= LV[n_]), And(LV[self.TW[n_][l]] == l, OR[self.TW[n_][l]] == OR[n_], key[self.TW[n_][l]] == key[n_])), patterns=[self.TW[n_][l]])),
                ('subsequence-of-the-level-below', fn(Implies(i(n_), And(Implies(LV[n_] == 0, dn[n_] == 0), Implies(And(LV[n_] > 0), below))), dn[n_]))]

    def count(self):
        return [('size', And(self.levels >= 1, self.size == self.D[self.HD[0]] - 1))]

    def all(self):
        return self.ends() + self.wf() + self.count()


class _SL(Contract):
    fields = {'key': 'real', 'data': 'elem', 'next': REF, 'down': REF}
    heap_classes = ('SkipNode',)
    axioms = (INF > 0,)
    assumes = ('keys are numbers compared exactly; every key lies strictly between -inf and inf',)

    def inf_hook(self, eng, st, v):
        return INF

    def lst(self, x):
        s = x.obj('SkipList', head=x.ref('head', 'SkipNode'), tail=x.ref('tail', 'SkipNode'), _levels=x.int('levels'), _num_nodes=x.int('num_nodes'), seed=None,
                  **{'@LV': z3.Const('LV', II), '@OR': z3.Const('OR', IR), '@D': z3.Const('D', II), '@HD': z3.Const('HD', II), '@TL': z3.Const('TL', II), '@TW': z3.Const('TW', z3.ArraySort(IntS, II))})
        x['s'] = s
        x.assume(And(-INF < KEY, KEY < INF))
        return s

    def setup(self, x):
        return [self.lst(x), KEY], {}

    def o(self, c):
        return S(c, c.old, c.oheap)

    def n(self, c, **kw):
        return S(c, c.new, c.nheap, **kw)

    def pre(self, c):
        return self.o(c).all()

    def listhint(self, eng, st, o):
        return named(st, o, {'path': REF})


def on_path(s, p, key, n=None):
    """entry j of a search path: the last node of level levels-1-j with a smaller key"""
    x = lambda j: p.arr[j]
    return fa('j', lambda j: Implies(rng(0, j, p.len if n is None else n), And(s.LV[x(j)] == s.levels - 1 - j, s.OR[x(j)] < 1, s.key[x(j)] < key, s.key[s.next[x(j)]] >= key)), x)


@register
class SL_path(_SL):
    name = SL + '_search'

    def loops(self, u):
        def inv(v):
            s, p, n = S(v.c, v.st, v.heap, obj=v.self), v.path, v.local('node').t
            return [('path', And(0 <= p.len, p.len <= s.levels, on_path(s, p, v.key))),
                    ('node', If(n == 0, p.len == s.levels, And(p.len < s.levels, s.LV[n] == s.levels - 1 - p.len, s.key[n] < v.key)))]
        return {1: LoopSpec(inv=inv, ghosts=(), variant=lambda v: (v.self._levels - v.path.len, If(v.local('node').t == 0, 0, v.self.g_D[v.local('node').t] + 1)))}

    def pre(self, c):
        k = c.params['key']
        return self.o(c).all() + [('key', And(-INF < k, k < INF))]

    def result(self, c):
        return ('list', REF)

    def post(self, c):
        s, p = self.o(c), c.res
        return [('one-entry-per-level', p.len == s.levels), ('last-smaller-nodes', on_path(s, p, c.params['key'], s.levels))]


@register
class SL_search(_SL):
    name = SL + 'search'
    uses = ('SL_path',)

    def result(self, c):
        return 'bool'

    def post(self, c):
        s = self.o(c)
        return [('present-exactly-if-an-entry-has-the-key', B(c.res_v) == z3.Exists([n_], And(s.bottom(n_), s.key[n_] == KEY)))]


@register
class SL_insert(_SL):
    name = SL + 'insert'
    uses = ('SL_path',)

    def setup(self, x):
        return [self.lst(x), KEY, z3.Const('data', E)], {}

    def modifies(self, c):
        s = c.params['self']
        return [('fld', s, f) for f in ('head', 'tail', '_levels', '_num_nodes')] + [('heap', f) for f in ('key', 'data', 'next', 'down')] + [('nxt',)]

    def loops(self, u):
        G = ('LV', 'OR', 'D', 'HD', 'TL', 'TW')

        def cur(v):
            return S(v.c, v.st, v.heap, obj=v.self, **{g: v.g(g) for g in G})

        def inv(v):
            a, s, p = S(v.c, v.old.st, v.old.heap, obj=v.old.P(v.c['s'])), cur(v), v.path
            t, tot, b, o, N = v.level, v.total_level, v.below.t, v.g('o'), v.g('N')
            x = lambda j: p.arr[j]
            return s.ends() + s.wf() + [
                ('level', And(1 <= t, t <= tot + 1, tot == a.levels, s.levels == tot + If(t > tot, 1, 0), s.D[s.HD[0]] == a.size + 2, p.len == tot)),
                ('tower', And(s.LV[b] == t - 1, s.OR[b] == o, s.key[b] == v.key, 0 < o, o < 1)),
                ('gap', fa('j', lambda j: Implies(And(0 <= j, j < tot, tot - 1 - j >= t), And(s.LV[x(j)] == tot - 1 - j, s.OR[x(j)] < o, s.OR[s.next[x(j)]] > o, s.key[x(j)] < v.key, s.key[s.next[x(j)]] >= v.key)), x)),
                ('entry', And(Not(a.isin(N)), s.bottom(N), s.key[N] == v.key, s.data[N] == v.data, s.OR[N] == o)),
                ('entries', fn(And(s.bottom(n_) == Or(a.bottom(n_), n_ == N), Implies(a.bottom(n_), And(s.OR[n_] == a.OR[n_], s.key[n_] == a.key[n_], s.data[n_] == a.data[n_], Implies(a.key[n_] >= v.key, a.OR[n_] > o)))), s.LV[n_], a.LV[n_]))]

        def init(v):
            a = S(v.c, v.old.st, v.old.heap, obj=v.old.P(v.c['s']))
            N, nx = v.below.t, v.heap('next')
            tip = v.path.arr[v.path.len - 1]
            o = v.define('o', (a.OR[tip] + a.OR[nx[N]]) / 2)
            return {'o': o, 'N': N, 'LV': Store(a.LV, N, 0), 'OR': Store(a.OR, N, o), 'D': v.define('D', lambda n: If(n == N, a.D[tip], If(And(a.LV[n] == 0, a.OR[n] < o), a.D[n] + 1, a.D[n]))),
                    'HD': a.HD, 'TL': a.TL, 'TW': Store(a.TW, N, Store(a.TW[N], 0, N))}

        def step(v, h):
            t, tot, o, new, bel = h.level, h.total_level, h.g('o'), v.below.t, h.below.t
            hd, tl, nx = v.self.head.t, v.self.tail.t, v.heap('next')
            add = t == tot
            LV, OR, D, HD, TL, TW = (h.g(g) for g in G)
            N = lambda n, a, b, c, d: If(n == new, a, If(And(add, n == hd), b, If(And(add, n == tl), c, d)))
            return {'LV': v.define('LV', lambda n: N(n, t, t, t, LV[n])), 'OR': v.define('OR', lambda n: N(n, o, z3.RealVal(0), z3.RealVal(1), OR[n])),
                    'D': v.define('D', lambda n: N(n, If(add, 1, D[nx[new]] + 1), IntVal(2), IntVal(0), If(And(LV[n] == t, OR[n] < o), D[n] + 1, D[n]))),
                    'HD': v.define('HD', lambda l: If(And(add, l == t), hd, HD[l])), 'TL': v.define('TL', lambda l: If(And(add, l == t), tl, TL[l])),
                    'TW': v.define('TW', lambda n: N(n, Store(TW[bel], t, new), Store(TW[HD[t - 1]], t, hd), Store(TW[TL[t - 1]], t, tl), TW[n])), 'o': o, 'N': h.g('N')}

        def gap(v):
            """towers of the path reach the bottom level on the same side of the new place"""
            a = S(v.c, v.old.st, v.old.heap, obj=v.old.P(v.c['s']))
            p = v.path
            x = lambda j: p.arr[j]
            tip = p.arr[p.len - 1]
            return [('left', fa('j', lambda j: Implies(rng(0, j, p.len), And(a.LV[a.TW[x(j)][0]] == 0, a.OR[a.TW[x(j)][0]] <= a.OR[tip], a.OR[x(j)] <= a.OR[tip])), x)),
                    ('right', fa('j', lambda j: Implies(rng(0, j, p.len), And(a.LV[a.TW[a.next[x(j)]][0]] == 0, a.OR[a.TW[a.next[x(j)]][0]] >= a.OR[a.next[tip]], a.OR[a.next[x(j)]] >= a.OR[a.next[tip]])), x))]
        return {1: LoopSpec(inv=inv, ghosts=G, ghost_init=init, ghost_step=step, init_lemmas=gap, variant=lambda v: v.total_level + 1 - v.level)}

    def result(self, c):
        return 'none'

    def post(self, c):
        a, b = self.o(c), self.n(c, **{g: c.local('@g_' + g) for g in GH})
        N, o = c.local('@g_N'), c.local('@g_o')
        return [('new-entry', And(Not(a.isin(N)), b.bottom(N), b.key[N] == KEY, b.data[N] == c.params['data'])),
                ('exactly-one-entry-added', fn(And(b.bottom(n_) == Or(a.bottom(n_), n_ == N), Implies(a.bottom(n_), And(b.OR[n_] == a.OR[n_], b.key[n_] == a.key[n_], b.data[n_] == a.data[n_]))), b.LV[n_], a.LV[n_])),
                ('newest-first', fn(Implies(And(a.bottom(n_), a.key[n_] >= KEY), b.OR[n_] > b.OR[N]), a.LV[n_])), ('size', b.size == a.size + 1)] + b.all()


@register
class SL_extract(_SL):
    name = SL + 'extract'
    uses = ('SL_path',)

    def modifies(self, c):
        s = c.params['self']
        return [('fld', s, f) for f in ('head', 'tail', '_levels', '_num_nodes')] + [('heap', f) for f in ('key', 'data', 'next', 'down')] + [('nxt',)]

    def modifies_exc(self, c):
        return []

    def raises(self, c):
        s = self.o(c)
        return {'KeyError': Not(z3.Exists([n_], And(s.bottom(n_), s.key[n_] == KEY)))}

    def R(self, a, p, l):
        """the node removed at level l"""
        return a.next[p.arr[a.levels - 1 - l]]

    def loops(self, u):
        G = ('LV', 'D')
        old = lambda v: S(v.c, v.old.st, v.old.heap, obj=v.old.P(v.c['s']))

        def unlink(v):
            a, p = old(v), v.path
            s = S(v.c, v.st, v.heap, obj=v.self)
            L = a.LV[n_]
            k = a.levels - 1 - v.level
            x = p.arr[a.levels - 1 - L]
            return [('level', And(v.level >= -1, v.level < a.levels, v.total_level == a.levels)),
                    ('links', fn(Implies(a.isin(n_), s.next[n_] == If(And(L < k, n_ == x), a.next[a.next[n_]], a.next[n_])), s.next[n_])),
                    ('keys', fa('j', lambda j: Implies(And(0 <= j, j < a.levels, j > v.level), a.key[a.next[p.arr[j]]] == v.key), lambda j: p.arr[j]))]

        def shrink(v):
            a = old(v)
            s = S(v.c, v.st, v.heap, obj=v.self, LV=v.g('LV'), D=v.g('D'))
            w = v.walk.t
            r = v.g('r')
            return s.ends() + s.wf() + [('top', And(w == s.head, 0 <= s.levels, s.levels <= a.levels)),
                                        ('entries', And(Implies(s.levels == 0, fn(Not(And(a.bottom(n_), n_ != r)), a.LV[n_])),
                                                        fn(Implies(s.levels > 0, s.bottom(n_) == And(a.bottom(n_), n_ != r)), s.LV[n_], a.LV[n_]))),
                                        ('size', And(Implies(s.levels > 0, s.D[s.HD[0]] == a.size), Implies(s.levels == 0, a.size == 1)))]

        def init(v):
            a, p = old(v), v.path
            k = a.levels - 1 - v.level
            r = lambda l: self.R(a, p, l)
            return {'LV': v.define('LV', lambda n: If(And(a.LV[n] >= 0, a.LV[n] < k, n == r(a.LV[n])), -1, a.LV[n])),
                    'D': v.define('D', lambda n: If(And(a.LV[n] >= 0, a.LV[n] < k, a.OR[n] < a.OR[r(a.LV[n])]), a.D[n] - 1, a.D[n])), 'r': r(0)}

        def step(v, h):
            s = h.self
            return {'LV': v.define('LV', lambda n: If(Or(n == s.head.t, n == s.tail.t), -1, h.g('LV')[n])), 'D': h.g('D'), 'r': h.g('r')}

        def removed(v):
            """the removed nodes with this key are whole towers (from the top of the tower down to some level)"""
            a, p = old(v), v.path
            k, l = a.levels - 1 - v.level, z3.Int('l')
            r = lambda l: self.R(a, p, l)
            q, key = a.LV[n_], v.key
            last = p.arr[a.levels - 1 - k]
            # at the level where the loop stopped, the key does not occur
            stop = a.TW[n_][k]
            gone = And(q < k, n_ == r(q))
            return [('distances', fn(Implies(And(a.isin(n_), a.OR[n_] < 1, a.LV[a.next[n_]] >= 0), a.D[n_] >= 1), a.LV[n_])),
                    ('first-with-the-key', fn(Implies(And(a.isin(n_), a.key[n_] >= key), And(a.OR[p.arr[a.levels - 1 - q]] < a.OR[n_], a.OR[n_] >= a.OR[r(q)])), a.LV[n_])),
                    ('no-such-key-above', fn(Implies(And(a.isin(n_), a.key[n_] == key), And(Implies(q >= k, And(a.LV[stop] == k, a.key[stop] == key)), q < k)), a.LV[n_])),
                    ('towers-start-later', ForAll([n_, l], Implies(And(a.isin(n_), a.key[n_] == key, 0 <= l, l <= q), And(a.LV[a.TW[n_][l]] == l, a.OR[n_] >= a.OR[r(l)])), patterns=[a.TW[n_][l]])),
                    ('towers-go', ForAll([n_, l], Implies(And(a.isin(n_), 0 <= l, l <= q, l < k, a.TW[n_][l] == r(l)), And(a.key[n_] == key, a.OR[n_] == a.OR[r(l)], a.LV[a.TW[r(q)][l]] == l, a.OR[r(q)] >= a.OR[r(l)], gone)), patterns=[a.TW[n_][l]])),
                    ('links-down-go', fn(Implies(And(a.isin(n_), q > 0, q - 1 < k, a.down[n_] == r(q - 1)), And(a.TW[n_][q - 1] == r(q - 1), gone)), a.down[n_]))]

        return {1: LoopSpec(inv=unlink, ghosts=(), variant=lambda v: v.level + 1),
                2: LoopSpec(init_lemmas=removed, inv=shrink, ghosts=G, ghost_init=init, ghost_step=step, variant=lambda v: v.self._levels)}

    def result(self, c):
        return REF

    def post(self, c):
        a = self.o(c)
        r = c.local('@g_r')
        hd, tl = c.n('self').head.t, c.n('self').tail.t
        LV, D = c.local('@g_LV'), c.local('@g_D')
        again = hd >= c.old.nxt        # a new, empty level has been added
        LV2 = c.ghost('LV', lambda n: If(And(again, Or(n == hd, n == tl)), 0, LV[n]), IntS)
        D2 = c.ghost('D', lambda n: If(And(again, n == hd), 1, If(And(again, n == tl), 0, D[n])), IntS)
        OR2 = c.ghost('OR', lambda n: If(And(again, n == hd), z3.RealVal(0), If(And(again, n == tl), z3.RealVal(1), a.OR[n])), IntS)
        HD2, TL2 = c.ghost('HD', lambda l: If(And(again, l == 0), hd, a.HD[l]), IntS), c.ghost('TL', lambda l: If(And(again, l == 0), tl, a.TL[l]), IntS)
        TW2 = c.ghost('TW', lambda n: If(And(again, n == hd), Store(a.TW[n], 0, hd), If(And(again, n == tl), Store(a.TW[n], 0, tl), a.TW[n])), IntS)
        b = self.n(c, LV=LV2, D=D2, OR=OR2, HD=HD2, TL=TL2, TW=TW2)
        q = c.res_v.t
        return [('an-entry-with-the-key', And(a.bottom(r), a.key[r] == KEY)), ('the-newest', fn(Implies(And(a.bottom(n_), a.key[n_] == KEY), a.OR[n_] >= a.OR[r]), a.LV[n_])),
                ('returned', And(b.key[q] == KEY, b.data[q] == a.data[r])),
                ('exactly-this-entry-removed', fn(And(b.bottom(n_) == And(a.bottom(n_), n_ != r), Implies(b.bottom(n_), And(b.OR[n_] == a.OR[n_], b.key[n_] == a.key[n_], b.data[n_] == a.data[n_]))), b.LV[n_], a.LV[n_])),
                ('size', b.size == a.size - 1)] + b.all()


@register
class SL_new(_SL):
    name = SL + '__new__'

    def setup(self, x):
        return [x.eng.prog.find_class('SkipList')], {}

    def pre(self, c):
        return []

    def modifies(self, c):
        return [('heap', f) for f in ('key', 'data', 'next', 'down')] + [('nxt',)]

    def result(self, c):
        return 'obj'

    def post(self, c):
        h, t = c.res.head.t, c.res.tail.t
        K0 = lambda f, so: c.ghost(f[0], f[1], so)
        g = lambda n, f: c.ghost(n, f, IntS)
        z, o = z3.RealVal(0), z3.RealVal(1)
        b = S(c, c.new, c.nheap, obj=c.res, LV=g('LV', lambda n: If(Or(n == h, n == t), IntVal(0), -1)), OR=g('OR', lambda n: If(n == h, z, o)), D=g('D', lambda n: If(n == h, IntVal(1), 0)),
              HD=g('HD', lambda l: h + 0 * l), TL=g('TL', lambda l: t + 0 * l), TW=g('TW', lambda n: z3.K(IntS, n)))
        return [('empty', fn(Not(b.bottom(n_)), b.LV[n_])), ('size', b.size == 0)] + b.all()


@register
class SL_size(_SL):
    name = SL + 'size'

    def setup(self, x):
        return [self.lst(x)], {}

    def result(self, c):
        return 'int'

    def post(self, c):
        return [('size', I(c.res_v) == self.o(c).size)]
