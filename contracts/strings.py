"""String matching.  OCC[i]: the query occurs at position i of the text; CNT(i): number of occurrences in front of i.
Every algorithm returns a dynamic array whose k-th entry is the k-th occurrence, stated as: entry CNT(i) is i for
every occurrence i, and there are CNT(len(text)) entries."""
from .common import *
from .arrays import ARR, ODA_fill
from .doda import contig, first
from .lemmas import Lemma, chain
from . import register

SA = 'strings.algorithms:'
KA = z3.ArraySort(IntS, K)
T, Q = z3.Const('text', KA), z3.Const('query', KA)
NT, NQ = z3.Int('len_text'), z3.Int('len_query')
OCC = z3.Const('OCC', z3.ArraySort(IntS, BoolS))
CNT = z3.Function('CNT', IntS, IntS)
mis = z3.Function('mis', IntS, IntS)
DEF = [
    NT >= 0, NQ >= 0,
    fa('i k', lambda i, k: Implies(And(OCC[i], 0 <= k, k < NQ), T[i + k] == Q[k]), lambda i, k: (OCC[i], Q[k])),
    fa('i', lambda i: Implies(OCC[i], And(0 <= i, i + NQ <= NT)), lambda i: OCC[i]),
    fa('i', lambda i: Or(OCC[i], i < 0, i + NQ > NT, And(0 <= mis(i), mis(i) < NQ, T[i + mis(i)] != Q[mis(i)])), lambda i: OCC[i]),
]
CDEF = [CNT(0) == 0, fa('i', lambda i: Implies(i >= 0, CNT(i + 1) == CNT(i) + If(OCC[i], 1, 0)), lambda i: CNT(i + 1), lambda i: OCC[i])]
BORD = z3.Function('BORD', IntS, IntS, BoolS)      # Q[0..b) is a border of Q[0..n)
bw = z3.Function('bw', IntS, IntS, IntS)
BDEF = [
    fa('b n m', lambda b, n, m: Implies(And(BORD(b, n), 0 <= m, m < b), Q[m] == Q[n - b + m]), lambda b, n, m: (BORD(b, n), Q[m])),
    fa('b n', lambda b, n: Implies(BORD(b, n), And(0 <= b, b <= n)), lambda b, n: BORD(b, n)),
    fa('b n', lambda b, n: Or(BORD(b, n), b < 0, b > n, And(0 <= bw(b, n), bw(b, n) < b, Q[bw(b, n)] != Q[n - b + bw(b, n)])), lambda b, n: BORD(b, n)),
]


class ALemma(Lemma):
    """lemma over the fixed symbols above, used as an axiom"""
    def __init__(self, name, stmt, obls, axioms):
        super().__init__(name, lambda: stmt, obls, None, axioms)
        self.stmt = stmt


def _vs(n):
    return [z3.Int('l' + x) for x in n.split()]


def _l1():
    a, b, c = _vs('a b c')
    return [('trans', [BORD(a, b), BORD(b, c)], BORD(a, c))]


def _l2():
    a, b, c = _vs('a b c')
    m = bw(a, b)
    return [('of', [BORD(a, c), BORD(b, c), a <= b, Q[b - a + m] == Q[b - a + m], Q[c - a + m] == Q[c - a + m]], BORD(a, b))]


def _l3():
    b, n = _vs('b n')
    m = bw(b + 1, n + 1)
    return [('ext', [BORD(b, n), Q[b] == Q[n]], BORD(b + 1, n + 1)), ('cut', [BORD(b + 1, n + 1), b >= 0], And(BORD(b, n), Q[b] == Q[n]))]


border_trans = ALemma('border-of-border', fa('a b c', lambda a, b, c: Implies(And(BORD(a, b), BORD(b, c)), BORD(a, c)), lambda a, b, c: (BORD(a, b), BORD(b, c))), _l1, BDEF)
border_of = ALemma('shorter-border', fa('a b c', lambda a, b, c: Implies(And(BORD(a, c), BORD(b, c), a <= b), BORD(a, b)), lambda a, b, c: (BORD(a, c), BORD(b, c))), _l2, BDEF)
border_ext = Lemma('border-extension', lambda n: fa('b', lambda b: Implies(b >= 0, BORD(b + 1, n + 1) == And(BORD(b, n), Q[b] == Q[n])), lambda b: BORD(b + 1, n + 1), lambda b: BORD(b, n)), _l3, axioms=BDEF)
occ_next = None


def text():
    return VSeq(NT, T, 'key')


def query():
    return VSeq(NQ, Q, 'key')


def positions(p, upto, upto_index=None):
    """dynamic array p lists exactly the occurrences below `upto`"""
    a = p._data.arr
    return contig(p) + [('starts-at-zero', first(p) == 0),
                        ('one-entry-per-occurrence', p._num == CNT(upto)),
                        ('every-occurrence-listed-in-order', fa('i', lambda i: Implies(And(rng(0, i, upto), OCC[i]), And(0 <= CNT(i), CNT(i) < p._num, a[CNT(i)] == mkint(i))), lambda i: OCC[i])),
                        ('only-occurrences', fa('k', lambda k: Implies(rng(0, k, p._num), And(a[k] == mkint(ival(a[k])), OCC[ival(a[k])], CNT(ival(a[k])) == k, 0 <= ival(a[k]), ival(a[k]) < upto)), lambda k: a[k])),
                        ('counts-grow', CNT(upto) >= 0)]


def gap(lo, hi):
    """no occurrence in [lo,hi): the count stays"""
    return [('no-occurrence-skipped', fa('i', lambda i: Implies(And(lo <= i, i < hi), Not(OCC[i])), lambda i: OCC[i])),
            cnt_gap.use(lo, hi)]


def _cg():
    lo, n = _vs('lo n')
    none = fa('i', lambda i: Implies(And(lo <= i, i < n + 1), Not(OCC[i])), lambda i: OCC[i])
    return [('base', [], CNT(lo) == CNT(lo)), ('step', [lo >= 0, lo <= n, CNT(n) == CNT(lo), none, Not(OCC[n])], CNT(n + 1) == CNT(lo))]


cnt_gap = Lemma('count-over-gap', lambda lo, hi: Implies(And(0 <= lo, lo <= hi, fa('i', lambda i: Implies(And(lo <= i, i < hi), Not(OCC[i])), lambda i: OCC[i])), CNT(hi) == CNT(lo)), _cg, axioms=CDEF)


class _Str(Contract):
    int_elems = True
    axioms = DEF + CDEF
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'DODA_new', 'ODA_new', 'DODA_append_c')

    def setup(self, x):
        return [text(), query()], {}

    nonempty = False

    def pre(self, c):
        return [('query-not-empty', NQ > 0)] if self.nonempty else []

    def result(self, c):
        def mk(eng, st):
            data = eng.new_cell(st, ArrRec(fresh_const('plen', IntS), fresh_const('pos', z3.ArraySort(IntS, E)), 'elem'))
            f = dict(_size=fresh_const('psize', IntS), _data=data, _dtype=VOpaque('int'), _load_factor=z3.RealVal('0.25'), _num=fresh_const('pnum', IntS), _last_pos_filled=fresh_const('plast', IntS))
            return eng.new_cell(st, ObjRec('DynamicOneDimensionalArray', f))
        return mk

    def post(self, c):
        p = c.res
        if not self.nonempty:
            return [('empty-query-or-text', Implies(Or(NT == 0, NQ == 0), p._num == 0))] + [(n, Implies(And(NT > 0, NQ > 0), f)) for n, f in positions(p, NT)]
        return positions(p, NT)

    POSK = {'positions': 'obj'}


# ------------------------------------------------------------ Knuth-Morris-Pratt
def tspec(t, k, cond):
    """entry k of the failure table: a proper border (or -1); every longer proper border is followed by the same character"""
    return And(-1 <= ival(t[k]), ival(t[k]) < k, Not(isNone(t[k])), Implies(ival(t[k]) >= 0, BORD(ival(t[k]), k)),
               fa('b', lambda b: Implies(And(ival(t[k]) < b, b < k, BORD(b, k)), And(k < NQ, Q[b] == Q[k])), lambda b: BORD(b, k)))


def table(t, upto):
    tv = lambda k: ival(t[k])
    return [('entries', fa('k', lambda k: Implies(And(0 <= k, k < upto), And(-1 <= tv(k), tv(k) < k, Not(isNone(t[k])), Implies(tv(k) >= 0, BORD(tv(k), k)))), lambda k: t[k])),
            ('longer-borders', fa('k b', lambda k, b: Implies(And(0 <= k, k < upto, tv(k) < b, b < k, BORD(b, k)), And(k < NQ, Q[b] == Q[k])), lambda k, b: (t[k], BORD(b, k))))]


@register
class KMP_table(_Str):
    name = SA + '_build_kmp_table'
    nonempty = True
    axioms = DEF + BDEF
    lemmas = (border_trans, border_of)

    def setup(self, x):
        return [query()], {}

    def result(self, c):
        def mk(eng, st):
            data = eng.new_cell(st, ArrRec(NQ + 1, fresh_const('tab', z3.ArraySort(IntS, E)), 'elem'))
            return eng.new_cell(st, ObjRec('OneDimensionalArray', dict(_size=NQ + 1, _data=data, _dtype=VOpaque('int'))))
        return mk

    def post(self, c):
        r = c.res
        return [('size', And(r._size == NQ + 1, r._data.len == NQ + 1))] + table(r._data.arr, NQ + 1) + [('last', ival(r._data.arr[NQ]) >= 0)]

    @staticmethod
    def outer(v):
        return [('position', And(0 <= v.cnd, v.cnd < v.pos, v.pos <= NQ, v.pos >= 1, v.kmp_table._size == NQ + 1)),
                ('first', ival(v.kmp_table._data.arr[0]) == -1),
                ('border', BORD(v.cnd, v.pos)),
                ('longest', fa('b', lambda b: Implies(And(v.cnd < b, b < v.pos), Not(BORD(b, v.pos))), lambda b: BORD(b, v.pos)))] + table(v.kmp_table._data.arr, v.pos)

    @staticmethod
    def inner(v):
        return [('position', And(-1 <= v.cnd, v.cnd < v.pos)),
                ('border', Implies(v.cnd >= 0, BORD(v.cnd, v.pos))),
                ('longer-do-not-extend', fa('b', lambda b: Implies(And(v.cnd < b, b < v.pos, BORD(b, v.pos)), Q[b] != Q[v.pos]), lambda b: BORD(b, v.pos)))]

    loops = {1: LoopSpec(inv=lambda v: KMP_table.outer(v), kinds={'cnd': 'int'}, variant=lambda v: NQ - v.pos,
                         end_lemmas=lambda v, h: [border_ext.use(h.pos), ('zero', BORD(IntVal(0), h.pos + 1), None)]),
             2: LoopSpec(inv=lambda v: KMP_table.inner(v), kinds={'cnd': 'int'}, variant=lambda v: v.cnd + 1)}


@register
class KMP_match(_Str):
    name = SA + '_do_match'
    nonempty = True
    axioms = DEF + CDEF + BDEF

    def setup(self, x):
        data = x.list('tab', 'elem', NQ + 1)
        return [text(), query(), x.obj('OneDimensionalArray', _size=NQ + 1, _data=data, _dtype=VOpaque('int'))], {}

    def pre(self, c):
        t = c.o('kmp_table')
        return [('query-not-empty', NQ > 0), ('size', And(t._size == NQ + 1, t._data.len == NQ + 1))] + table(t._data.arr, NQ + 1) + [('last', ival(t._data.arr[NQ]) >= 0)]

    @staticmethod
    def inv(v):
        j, k = v.j, v.k
        return [('position', And(0 <= k, k < NQ, k <= j, j <= NT)),
                ('matched', fa('m', lambda m: Implies(rng(0, m, k), Q[m] == T[j - k + m]), lambda m: Q[m]))] + positions(v.positions, j - k)

    @staticmethod
    def ends(v, h):
        t = v.kmp_table._data.arr
        s0, s1 = h.j - h.k, v.j - v.k
        kk = If(Q[h.k] == T[h.j], h.k + 1, h.k)             # length matched at s0 when the table was consulted
        d = lambda i: kk - (i - s0)
        lo = If(And(Q[h.k] == T[h.j], h.k + 1 == NQ), s0 + 1, s0)
        spec = fa('i', lambda i: Implies(And(lo <= i, i < s1, i != s0, BORD(d(i), kk)), And(kk < NQ, Q[d(i)] == Q[kk])), lambda i: OCC[i])
        bord = fa('i', lambda i: Implies(And(lo <= i, i < s1, i != s0, OCC[i]), BORD(d(i), kk)), lambda i: OCC[i])
        return [('shifts-by-borders', spec, None), ('an-occurrence-gives-a-border', bord, None)] + gap(lo, s1)

    loops = {1: LoopSpec(inv=lambda v: KMP_match.inv(v), kinds={'k': 'int'}, variant=lambda v: (NT - v.j, v.k + 1), end_lemmas=lambda v, h: KMP_match.ends(v, h))}

    def lemmas_post(self, c):
        return [('@count-over-gap', fa('i', lambda i: cnt_gap.inst(i, NT), lambda i: CNT(i)), 'lemma')]


@register
class KMP(_Str):
    name = SA + '_knuth_morris_pratt'
    uses = ('KMP_table', 'KMP_match', 'DODA_new')


# ------------------------------------------------------------ Boyer-Moore (bad character rule)
@register
class BoyerMoore(_Str):
    name = SA + '_boyer_moore'

    def dicthint(self, eng, st, v):
        return ('key', 'int')

    @staticmethod
    def tab(m, n):
        """m[ch] is the last position of ch in Q[0..n)"""
        k = z3.Const(fresh_name('ch'), K)
        return [('positions', ForAll([k], Implies(m.dom[k], And(rng(0, m.map[k], n), Q[m.map[k]] == k)), patterns=[m.map[k]])),
                ('last', fa('i', lambda i: Implies(rng(0, i, n), And(m.dom[Q[i]], m.map[Q[i]] >= i)), lambda i: Q[i]))]

    @staticmethod
    def outer(v):
        m = v.bad_match_table
        up = If(v.shift <= NT - NQ + 1, v.shift, NT)
        return [('range', And(0 <= v.shift)), ('beyond', Implies(v.shift > NT - NQ + 1, fa('i', lambda i: Implies(i >= v.shift, Not(OCC[i])), lambda i: OCC[i])))] + positions(v.positions, v.shift)

    @staticmethod
    def ends(v, h):
        m = v.bad_match_table
        # witness: the text position compared, aligned with a query position beyond the last occurrence of its character
        lo = If(v.j < 0, h.shift + 1, h.shift)
        w = If(v.j < 0, h.shift + NQ, h.shift + v.j)
        inst = fa('i', lambda i: Implies(And(lo <= i, i < v.shift, OCC[i], i <= w, w < i + NQ), T[w] == Q[w - i]), lambda i: OCC[i])
        return [('aligned-character', inst, None)] + gap(lo, v.shift)

    loops = {1: LoopSpec(inv=lambda v: BoyerMoore.tab(v.bad_match_table, v.i), kinds={'bad_match_table': ('dict', 'key', 'int')}),
             2: LoopSpec(inv=lambda v: BoyerMoore.outer(v), variant=lambda v: If(v.shift <= NT, NT + 1 - v.shift, 0), end_lemmas=lambda v, h: BoyerMoore.ends(v, h)),
             3: LoopSpec(inv=lambda v: [('range', And(-1 <= v.j, v.j < NQ)),
                                        ('matched', fa('m', lambda m: Implies(And(v.j < m, m < NQ), Q[m] == T[v.shift + m]), lambda m: Q[m]))], variant=lambda v: v.j + 1)}

    def lemmas_post(self, c):
        return [('@count-over-gap', fa('i', lambda i: cnt_gap.inst(i, NT), lambda i: CNT(i)), 'lemma'),
                ('@count-over-gap', fa('i', lambda i: cnt_gap.inst(NT, i), lambda i: CNT(i)), 'lemma')]


# ------------------------------------------------------------ z-function
@register
class ZVector(_Str):
    name = SA + '_z_vector'
    nonempty = True
    axioms = DEF
    uses = _Str.uses + ('ODA_fill_t',)

    def post(self, c):
        r = c.res
        a = r._data.arr
        return contig(r) + [('length', And(r._num == NT, first(r) == 0)),
                            ('long-enough-exactly-at-occurrences', fa('i', lambda i: Implies(rng(0, i, NT), And(Not(isNone(a[i])), (ival(a[i]) >= NQ) == OCC[i])), lambda i: a[i], lambda i: OCC[i]))]

    @staticmethod
    def zspec(v, upto):
        S, N = v.raw('string').arr, I(v.raw('string').len)
        z = v.z_fct._data.arr
        zv = lambda p: ival(z[p])
        return [('size', And(v.z_fct._size == N, v.z_fct._data.len == N)),
                ('bounds', fa('p', lambda p: Implies(rng(1, p, upto), And(Not(isNone(z[p])), zv(p) >= 0, p + zv(p) <= N, Or(p + zv(p) == N, S[zv(p)] != S[p + zv(p)]))), lambda p: z[p])),
                ('prefixes', fa('p k', lambda p, k: Implies(And(rng(1, p, upto), 0 <= k, k < zv(p)), S[k] == S[p + k]), lambda p, k: (z[p], S[k]))),
                ('rest-zero', fa('p', lambda p: Implies(And(upto <= p, p < N), z[p] == mkint(0)), lambda p: z[p]))]

    @staticmethod
    def outer(v):
        S, N = v.raw('string').arr, I(v.raw('string').len)
        l, r, i = v.seg_left, v.seg_right, v.curr_pos
        return ZVector.zspec(v, i) + [('box', And(0 <= l, l <= r, Or(l >= 1, r == 0), l < i, r < N)),
                                      ('box-copies-a-prefix', fa('k', lambda k: Implies(And(0 <= k, k <= r - l), S[k] == S[l + k]), lambda k: S[k]))]

    @staticmethod
    def inner(v):
        S, N = v.raw('string').arr, I(v.raw('string').len)
        z, z0, i = v.z_fct._data.arr, v.entry.z_fct._data.arr, v.curr_pos
        zc = ival(z[i])
        return [('prefix-so-far', And(Not(isNone(z[i])), zc >= 0, i + zc <= N)),
                ('matches', fa('k', lambda k: Implies(And(0 <= k, k < zc), S[k] == S[i + k]), lambda k: S[k])),
                ('others', fa('p', lambda p: Implies(p != i, z[p] == z0[p]), lambda p: z[p]))]

    @staticmethod
    def copy(v):
        f, z = v.final_z_fct, v.z_fct._data.arr
        lo = NQ + 1
        return contig(f) + [('copied', And(f._num == v.pos - lo, first(f) == 0, fa('k', lambda k: Implies(rng(0, k, f._num), f._data.arr[k] == z[lo + k]), lambda k: f._data.arr[k])))]

    @staticmethod
    def box(v, h):
        S = v.raw('string').arr
        l, r, i = h.seg_left, h.seg_right, h.curr_pos
        return []

    loops = {1: LoopSpec(inv=lambda v: ZVector.outer(v)),
             2: LoopSpec(inv=lambda v: ZVector.inner(v), variant=lambda v: I(v.raw('string').len) - v.curr_pos - ival(v.z_fct._data.arr[v.curr_pos])),
             3: LoopSpec(inv=lambda v: ZVector.copy(v))}


@register
class ZFunction(_Str):
    name = SA + '_z_function'
    uses = ('ODA_getitem_in', 'DODA_new', 'ODA_new', 'DODA_append_c', 'ZVector')
    loops = {1: LoopSpec(inv=lambda v: positions(v.positions, v.pos))}


# ------------------------------------------------------------ Rabin-Karp
ORD = z3.Function('ord', K, IntS)
PP, TH, QH = z3.Function('PP', IntS, IntS), z3.Function('TH', IntS, IntS), z3.Function('QH', IntS, IntS)


def consts():
    """base and modulus of the hash, from the current source"""
    import ast
    from pyvc.program import Program
    m = Program().module('pydatastructs.strings.algorithms')
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and [t.id for t in n.targets[0].elts] == ['PRIME_NUMBER', 'MOD']:
            return tuple(ast.literal_eval(n.value))
    env = {}
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('PRIME_NUMBER', 'MOD'):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    return env['PRIME_NUMBER'], env['MOD']


class _RK:
    """axioms built lazily from the constants of the source"""
    def __init__(self, f):
        self.f = f

    def __call__(self):
        p, m = consts()
        return self.f(IntVal(p), IntVal(m))


def _nn(f, g):
    """recursive definition f(0), f(i+1) = g(i) with f(i) kept apart from f(i+1) in the trigger"""
    return fa('i', lambda i: Implies(i >= 0, f(i + 1) == g(i)), lambda i: f(i + 1))


PPDEF = _RK(lambda p, m: And(PP(0) == 1, _nn(PP, lambda i: (PP(i) * p) % m)))
THDEF = _RK(lambda p, m: And(TH(0) == 0, _nn(TH, lambda i: (TH(i) + ORD(T[i]) * PP(i)) % m)))
QHDEF = _RK(lambda p, m: And(QH(0) == 0, _nn(QH, lambda i: (QH(i) + ORD(Q[i]) * PP(i)) % m)))


def _hash_obls():
    """by induction: 0 <= PP(i), TH(i) < m;  PP(i+k) == PP(i)*PP(k) mod m;  and, while the first k characters agree with
    the query, TH(i+k) - TH(i) == QH(k)*PP(i) mod m"""
    p, m = [IntVal(x) for x in consts()]
    i, k = _vs('i k')
    o = ORD(Q[k])
    nat = [i >= 0, k >= 0]
    rge = And(0 <= PP(i), PP(i) < m, 0 <= TH(i), TH(i) < m)
    dp, dt, dq = PP(i + k + 1) == (PP(i + k) * p) % m, TH(i + k + 1) == (TH(i + k) + ORD(T[i + k]) * PP(i + k)) % m, QH(k + 1) == (QH(k) + o * PP(k)) % m
    dk = PP(k + 1) == (PP(k) * p) % m
    prod = lambda k: PP(i + k) == (PP(i) * PP(k)) % m
    hom = lambda k: (TH(i + k) + m - TH(i)) % m == (QH(k) * PP(i)) % m
    dv = lambda x: x / m
    x1, y1 = PP(i + k) * p, PP(i) * PP(k + 1)
    x2, y2 = TH(i + k) + ORD(T[i + k]) * PP(i + k) + m - TH(i), (QH(k) + o * PP(k)) * PP(i)
    z2 = QH(k + 1) * PP(i)
    ax = [PPDEF(), THDEF(), QHDEF()]
    return ([('range-base', ax + [i == 0], rge), ('range-step', ax + [i >= 1], rge)]
            + [('product-base', nat + [k == 0, PP(0) == 1, rge], prod(k))]
            + chain('product-step', nat + [prod(k), dk, dp],
                    x1 == y1 + m * (PP(i) * dv(PP(k) * p) - dv(PP(i) * PP(k)) * p), x1 % m == y1 % m, prod(k + 1))
            + [('hash-base', [k == 0, QH(0) == 0, rge], hom(k))]
            + chain('hash-step', nat + [hom(k), prod(k), dt, dq, ORD(T[i + k]) == o, rge],
                    x2 == y2 + m * (dv(TH(i + k) + m - TH(i)) - dv(QH(k) * PP(i)) - o * dv(PP(i) * PP(k))), x2 % m == y2 % m,
                    y2 == z2 + m * (dv(QH(k) + o * PP(k)) * PP(i)), y2 % m == z2 % m,
                    TH(i + k + 1) == TH(i + k) + ORD(T[i + k]) * PP(i + k) - m * dv(TH(i + k) + ORD(T[i + k]) * PP(i + k)),
                    (TH(i + k + 1) + m - TH(i)) % m == x2 % m, hom(k + 1)))


def _hash_inst(i):
    p, m = [IntVal(x) for x in consts()]
    return Implies(And(0 <= i, OCC[i]), (TH(i + NQ) + m - TH(i)) % m == (QH(NQ) * PP(i)) % m)


rolling = Lemma('rolling-hash', lambda i: _hash_inst(i), _hash_obls)


class _RKC(_Str):
    def literals(self, c):
        p, m = consts()
        return [('base', I(c.o('p')) == p), ('modulus', I(c.o('m')) == m)]


@register
class RK_pow(_RKC):
    name = SA + '_p_pow'
    axioms = (PPDEF,)

    def setup(self, x):
        return [x.int('length')], {}

    def pre(self, c):
        return [('length', I(c.o('length')) >= 1)] + self.literals(c)

    def result(self, c):
        n = I(c.o('length'))

        def mk(eng, st):
            data = eng.new_cell(st, ArrRec(n, fresh_const('pw', z3.ArraySort(IntS, E)), 'elem'))
            return eng.new_cell(st, ObjRec('OneDimensionalArray', dict(_size=n, _data=data, _dtype=VOpaque('int'))))
        return mk

    def post(self, c):
        r, n = c.res, I(c.o('length'))
        return [('size', And(r._size == n, r._data.len == n)), ('powers', fa('k', lambda k: Implies(rng(0, k, n), r._data.arr[k] == mkint(PP(k))), lambda k: r._data.arr[k]))]

    loops = {1: LoopSpec(inv=lambda v: [('powers', fa('k', lambda k: Implies(rng(0, k, v.i), v.p_pow._data.arr[k] == mkint(PP(k))), lambda k: v.p_pow._data.arr[k]))])}


@register
class RK_hash(_RKC):
    name = SA + '_hash_str'
    axioms = (PPDEF, QHDEF)
    uses = ('RK_pow', 'ODA_getitem_in')

    def setup(self, x):
        return [query()], {}

    def pre(self, c):
        return [('not-empty', NQ >= 1)] + self.literals(c)

    def result(self, c):
        return 'int'

    def post(self, c):
        return [('hash', c.res == QH(NQ))]

    loops = {1: LoopSpec(inv=lambda v: [('hash', v.hash_value == QH(v.i))])}


@register
class RabinKarp(_RKC):
    name = SA + '_rabin_karp'
    axioms = DEF + CDEF + [PPDEF, THDEF]
    uses = ('RK_pow', 'RK_hash', 'ODA_getitem_in', 'ODA_setitem_t', 'DODA_new', 'ODA_new', 'DODA_append_c', 'ODA_fill_t')

    def pre(self, c):
        return []

    loops = {1: LoopSpec(inv=lambda v: [('hashes', fa('k', lambda k: Implies(rng(0, k, v.i + 1), v.text_hash._data.arr[k] == mkint(TH(k))), lambda k: v.text_hash._data.arr[k]))]),
             2: LoopSpec(inv=lambda v: positions(v.positions, v.i), body_assume=lambda v: [rolling.use(v.i)])}

    def lemmas_post(self, c):
        return [('@count-over-gap', fa('i', lambda i: cnt_gap.inst(i, NT), lambda i: CNT(i)), 'lemma')]
