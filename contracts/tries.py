"""Tries (C21).  Words are a free algebra: EPS and EXT(w, ch).  Ghost fields of a trie: NODE (the node of a word, 0 if there is none), WORD (its
inverse), S (the present strings) and WIT (for every node a present string that starts with its word)."""
from .common import *
from .lemmas import Lemma, chain
from .graphs import named
from . import register
from pyvc.values import dt

TR = 'strings.trie:Trie.'
Wd = z3.DeclareSort('Wd')
EPS = z3.Const('EPS', Wd)
EXT = z3.Function('EXT', Wd, K, Wd)
PAR, LST, LEN = z3.Function('PAR', Wd, Wd), z3.Function('LST', Wd, K), z3.Function('LENW', Wd, IntS)
PRF = z3.Function('PRF', Wd, Wd, BoolS)         # prefix
WS = z3.Function('WS', IntS, Wd)                # prefixes of the argument string
s0 = z3.Const('string', z3.ArraySort(IntS, K))
n0 = z3.Int('string_n')
w_, u_, t_, c_ = z3.Const('w', Wd), z3.Const('u', Wd), z3.Const('t', Wd), z3.Const('c', K)
REF = ('ref', 'TrieNode')
CH = ('dict', 'key', REF)
NM, WM, SM, IM = z3.ArraySort(Wd, IntS), z3.ArraySort(IntS, Wd), z3.ArraySort(Wd, BoolS), z3.ArraySort(Wd, Wd)


def fw(vs, f, *pats):
    """ForAll over words and characters; patterns that contain a case distinction (merged heaps) are left out"""
    vs = [{'w': w_, 'u': u_, 't': t_, 'c': c_}[x] for x in vs.split()]
    ok = []
    for p in pats:
        p = z3.MultiPattern(*p) if isinstance(p, tuple) else p
        try:
            z3.ForAll(vs, f, patterns=[p])
            ok.append(p)
        except z3.Z3Exception:
            pass
    return ForAll(vs, f, patterns=ok)


WORDS = And(fw('w c', And(PAR(EXT(w_, c_)) == w_, LST(EXT(w_, c_)) == c_, LEN(EXT(w_, c_)) == LEN(w_) + 1), EXT(w_, c_)),
            LEN(EPS) == 0, fw('w', And(LEN(w_) >= 0, (LEN(w_) == 0) == (w_ == EPS)), LEN(w_)))
GEN = fw('w', Or(w_ == EPS, w_ == EXT(PAR(w_), LST(w_))), PAR(w_))
PRFDEF = And(fw('w', PRF(w_, EPS) == (w_ == EPS), PRF(w_, EPS)),
             fw('w u c', PRF(w_, EXT(u_, c_)) == Or(w_ == EXT(u_, c_), PRF(w_, u_)), PRF(w_, EXT(u_, c_))))
STRING = And(WS(0) == EPS, fa('i', lambda i: Implies(rng(0, i, n0), WS(i + 1) == EXT(WS(i), s0[i])), lambda i: s0[i]))
i_, j_, k_ = z3.Ints('i j k')
_wstep = lambda i: WS(i + 1) == EXT(WS(i), s0[i])


def _stmt(name, stmt, obls):
    l = Lemma(name, lambda: stmt, obls)
    l.stmt = stmt
    return l


def _prefix_obls():
    B0 = [WORDS, PRFDEF, STRING]
    refl = PRF(w_, w_)
    return [('reflexive', B0 + [Or(w_ == EPS, w_ == EXT(u_, c_))], refl),
            ('length-base', B0, LEN(WS(0)) == 0), ('length', B0 + [rng(0, i_, n0), LEN(WS(i_)) == i_, _wstep(i_)], LEN(WS(i_ + 1)) == i_ + 1),
            ('below-base', B0 + [PRF(WS(i_), WS(i_))], PRF(WS(i_), WS(i_))),
            ('below', B0 + [0 <= i_, i_ <= j_, j_ < n0, _wstep(j_), PRF(WS(i_), WS(j_))], PRF(WS(i_), WS(j_ + 1))),
            ('only-base', B0 + [PRF(w_, WS(0))], And(w_ == WS(0), LEN(w_) == 0)),
            ('only', B0 + [0 <= j_, j_ < n0, _wstep(j_), LEN(WS(j_ + 1)) == j_ + 1, Implies(PRF(w_, WS(j_)), And(w_ == WS(LEN(w_)), LEN(w_) <= j_)), PRF(w_, WS(j_ + 1))], And(w_ == WS(LEN(w_)), LEN(w_) <= j_ + 1)),
            ('transitive-base', B0 + [PRF(w_, u_), PRF(u_, EPS)], PRF(w_, EPS)),
            ('transitive', B0 + [PRF(w_, u_), Implies(PRF(u_, t_), PRF(w_, t_)), PRF(u_, EXT(t_, c_))], PRF(w_, EXT(t_, c_)))]


PREFIX = And(fw('w', PRF(w_, w_), PRF(w_, w_)),
             fa('i', lambda i: Implies(And(0 <= i, i <= n0), LEN(WS(i)) == i), lambda i: WS(i)),
             fa('i j', lambda i, j: Implies(And(0 <= i, i <= j, j <= n0), PRF(WS(i), WS(j))), lambda i, j: PRF(WS(i), WS(j))),
             ForAll([w_, j_], Implies(And(0 <= j_, j_ <= n0, PRF(w_, WS(j_))), And(w_ == WS(LEN(w_)), LEN(w_) <= j_)), patterns=[PRF(w_, WS(j_))]),
             ForAll([w_, u_, t_], Implies(And(PRF(w_, u_), PRF(u_, t_)), PRF(w_, t_)), patterns=[MultiPattern(PRF(w_, u_), PRF(u_, t_))]))
prefixes = _stmt('prefixes-of-words', PREFIX, _prefix_obls)


def _closed(N):
    return fw('w c', Implies(N[EXT(w_, c_)] != 0, N[w_] != 0), N[EXT(w_, c_)])


def _closed_obls():
    N = z3.Const('N', NM)
    B0 = [WORDS, PRFDEF, _closed(N)]
    return [('base', B0 + [N[EPS] != 0, PRF(w_, EPS)], N[w_] != 0), ('step', B0 + [Implies(And(N[u_] != 0, PRF(w_, u_)), N[w_] != 0), N[EXT(u_, c_)] != 0, PRF(w_, EXT(u_, c_))], N[w_] != 0)]


prefix_nodes = Lemma('prefixes-have-nodes', lambda N: Implies(_closed(N), ForAll([w_, u_], Implies(And(N[u_] != 0, PRF(w_, u_)), N[w_] != 0), patterns=[PRF(w_, u_)])), _closed_obls)


class T:
    def __init__(self, c, st, h, name='self', NODE=None, WORD=None, S=None, WIT=None, obj=None):
        s = wrap(c.eng, st, c.params[name]) if obj is None else obj
        self.root = s.root.t
        self.N, self.W, self.S, self.X = (s.g_NODE if NODE is None else NODE), (s.g_WORD if WORD is None else WORD), (s.g_S if S is None else S), (s.g_WIT if WIT is None else WIT)
        self.ch, self.char, self.term, self.nxt = h('_children'), h('char'), h('is_terminal'), st.nxt
        D = dt(CH)
        self.dom, self.map = (lambda r: D[2](self.ch[r])), (lambda r: D[3](self.ch[r]))

    def core(self):
        N, D = self.N, dt(('opt', 'key'))
        live = N[w_] != 0
        e = EXT(w_, c_)
        return [('root', And(N[EPS] == self.root, self.root > 0)),
                ('nodes', fw('w', Implies(live, And(0 < N[w_], N[w_] < self.nxt, self.W[N[w_]] == w_)), N[w_])),
                ('parents', _closed(N)),
                ('characters', fw('w c', Implies(N[e] != 0, self.char[N[e]] == D[2](c_)), N[e])),
                ('children', fw('w c', Implies(live, And(self.dom(N[w_])[c_] == (N[e] != 0), Implies(N[e] != 0, self.map(N[w_])[c_] == N[e]))),
                                self.dom(N[w_])[c_], self.map(N[w_])[c_], N[e])),
                ('terminals', fw('w', And(Implies(live, self.term[N[w_]] == self.S[w_]), Implies(self.S[w_], live)), N[w_], self.S[w_]))]

    def witness(self, *also):
        X = self.X[w_]
        return [('no-empty-branch', fw('w', Implies(And(self.N[w_] != 0, w_ != EPS), And(Or(self.S[X], *[X == a for a in also]), PRF(w_, X))), self.X[w_]))]

    def wf(self):
        return self.core() + self.witness()


class _Trie(Contract):
    fields = {'_children': CH, 'char': ('opt', 'key'), 'is_terminal': 'bool'}
    heap_classes = ('TrieNode',)
    axioms = (WORDS, PRFDEF, STRING)
    lemmas = (prefixes,)
    assumes = ('words are finite sequences of characters (free algebra)',)

    def setup(self, x):
        x.assume(n0 >= 0)
        t = x.obj('Trie', root=x.ref('root', 'TrieNode'), **{'@NODE': z3.Const('NODE', NM), '@WORD': z3.Const('WORD', WM), '@S': z3.Const('S', SM), '@WIT': z3.Const('WIT', IM)})
        x['t'] = t
        return [t, VSeq(n0, s0, 'key')], {}

    def old(self, c):
        return T(c, c.old, c.oheap)

    def pre(self, c):
        return self.old(c).wf()

    def cur(self, v, **kw):
        return T(v.c, v.st, v.heap, obj=v.self, **kw)

    def walked(self, v, t, k):
        return [('walked', And(v.walk.t == t.N[WS(k)], v.walk.t != 0))]


@register
class Trie_present(_Trie):
    name = TR + 'is_present'

    def loops(self, u):
        return {1: LoopSpec(inv=lambda v: self.walked(v, self.cur(v), v.it), ghosts=())}

    def lemmas_post(self, c):
        t = self.old(c)
        u = t.X[WS(n0)]
        return [prefix_nodes.use(t.N), ('witness', Implies(And(t.N[WS(n0)] != 0, n0 > 0), And(t.S[u], PRF(WS(n0), u)))), ('own-prefixes', fa('i', lambda i: Implies(And(0 <= i, i <= n0), PRF(WS(i), WS(n0))), lambda i: WS(i))), ('closed-under-prefixes', Implies(t.N[WS(n0)] != 0, fa('i', lambda i: Implies(And(0 <= i, i <= n0), t.N[WS(i)] != 0), lambda i: t.N[WS(i)])))]

    def result(self, c):
        return 'bool'

    def post(self, c):
        t = self.old(c)
        return [('present-exactly-if-some-string-starts-with-it', Implies(n0 > 0, B(c.res_v) == z3.Exists([u_], And(t.S[u_], PRF(WS(n0), u_)))))]


@register
class Trie_inserted(Trie_present):
    name = TR + 'is_inserted'

    def post(self, c):
        t = self.old(c)
        return [('exactly-the-strings', B(c.res_v) == t.S[WS(n0)])]


@register
class Trie_insert(_Trie):
    name = TR + 'insert'

    def modifies(self, c):
        return [('heap', '_children'), ('heap', 'char'), ('heap', 'is_terminal'), ('nxt',)]

    def loops(self, u):
        def inv(v):
            full = WS(n0)
            t = self.cur(v, NODE=v.g('N'), WORD=v.g('W'), WIT=v.g('X'))
            old = self.cur(v.entry)
            return t.core() + t.witness(full) + self.walked(v, t, v.it) + [
                ('next', t.nxt >= old.nxt)]

        def init(v):
            return {'N': v.self.g_NODE, 'W': v.self.g_WORD, 'X': v.self.g_WIT}

        def step(v, h):
            w = WS(v.it)
            new = h.heap
            fresh = v.nxt != h.nxt if not v.nxt.eq(h.nxt) else BoolVal(False)
            if v.nxt.eq(h.nxt):
                return {}
            return {'N': Store(v.g('N'), w, v.walk.t), 'W': Store(v.g('W'), v.walk.t, w), 'X': Store(v.g('X'), w, WS(n0))}
        return {1: LoopSpec(inv=inv, ghost_init=init, ghost_step=step, ghosts=('N', 'W', 'X'))}

    def result(self, c):
        return 'none'

    def post(self, c):
        o = self.old(c)
        t = T(c, c.new, c.nheap, NODE=c.local('@g_N'), WORD=c.local('@g_W'), WIT=c.local('@g_X'), S=Store(o.S, WS(n0), True))
        return [('exactly-this-string-added', ForAll([w_], t.S[w_] == Or(o.S[w_], w_ == WS(n0))))] + t.wf()


@register
class Trie_delete(_Trie):
    name = TR + 'delete'

    def modifies(self, c):
        return [('heap', '_children'), ('heap', 'is_terminal')]

    def listhint(self, eng, st, o):
        return named(st, o, {'path': REF})

    def on_path(self, v, t, upto):
        p = v.path
        return [('path', And(p.len == upto, fa('q', lambda q: Implies(rng(0, q, upto), And(p.arr[q] == v.self.g_NODE[WS(q)], p.arr[q] != 0)), lambda q: p.arr[q], lambda q: WS(q))))]

    def loops(self, u):
        def down(v):
            return self.walked(v, self.cur(v), v.it) + self.on_path(v, None, v.it)

        def up(v):
            full = WS(n0)
            t = self.cur(v, NODE=v.g('N'), S=Store(v.self.g_S, full, False))
            o = self.cur(v)
            i = v.i
            return t.core() + t.witness(full) + self.on_path(v, None, n0 + 1) + [
                ('level', And(0 <= i, i <= n0)), ('not-the-end-of-a-string', Not(t.term[o.N[WS(i)]])),
                ('cut-off', fa('q', lambda q: Implies(And(0 <= q, q <= n0), t.N[WS(q)] == If(q > i, 0, o.N[WS(q)])), lambda q: WS(q)))]
        return {1: LoopSpec(inv=down, ghosts=()),
                2: LoopSpec(inv=up, ghosts=('N',), ghost_init=lambda v: {'N': v.self.g_NODE}, ghost_step=lambda v: {'N': Store(v.g('N'), WS(v.i + 1), 0)},
                            body_assume=lambda v: [('last-character', WS(v.i) == EXT(WS(v.i - 1), s0[v.i - 1]))], variant=lambda v: v.i)}

    def lemmas_post(self, c):
        o = self.old(c)
        if c.local('@g_N') is None:
            return [prefix_nodes.use(o.N), ('own-prefixes', fa('i', lambda i: Implies(And(0 <= i, i <= n0), PRF(WS(i), WS(n0))), lambda i: WS(i)))]
        t, i, X = self.after(c), I(c.local('i')), o.X
        full = WS(n0)
        cu, ck = self.other(c)
        left = And(i >= 1, Not(t.term[t.N[WS(i)]]))
        e = EXT(WS(i), ck)
        return [('other-branch', And(Implies(And(left, z3.Exists([c_], t.dom(t.N[WS(i)])[c_])), t.dom(t.N[WS(i)])[ck]), cu == If(t.term[t.N[WS(i)]], WS(i), X[e])), 'def'),
                ('branch', Implies(left, And(t.N[e] != 0, e != EPS, PRF(e, X[e]), X[e] != full, t.S[X[e]]))),
                ('witness', Implies(i >= 1, And(t.S[cu], PRF(WS(i), cu))))]

    def other(self, c):
        if not hasattr(c, 'other'):
            c.other = z3.Const(fresh_name('other'), Wd), z3.Const(fresh_name('branch'), K)
        return c.other

    def after(self, c):
        o = self.old(c)
        i, N, term = I(c.local('i')), c.local('@g_N'), c.nheap('is_terminal')
        N = c.ghost('NODE', lambda w: If(And(term[o.N[WS(i)]], w == WS(i + 1), i < n0), 0, N[w]), Wd)      # the removed child of the node where the loop stopped
        return T(c, c.new, c.nheap, NODE=N, S=Store(o.S, WS(n0), False))

    def result(self, c):
        return 'bool'

    def post(self, c):
        o = self.old(c)
        if c.res_v is None:
            return [('absent', Not(o.S[WS(n0)])), ('nothing-changed', BoolVal(all(c.nheap(f) is c.oheap(f) for f in ('_children', 'is_terminal'))))]
        full = WS(n0)
        X = c.ghost('X', lambda w: If(o.X[w] == full, self.other(c)[0], o.X[w]), Wd)
        t = self.after(c)
        t.X = X
        return [('was-present', o.S[full]), ('true', BoolVal(c.res_v is True))] + t.wf()
