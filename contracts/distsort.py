"""Sorting by counting (C02).  C(v, i): how many of the first i entries equal v; L(v, i): how many are smaller than v; N(i): how many are no None."""
from .common import *
from .lemmas import Lemma, chain
from .arrays import oda
from . import register

ALG = 'linear_data_structures.algorithms:'
AE = z3.ArraySort(IntS, E)
a0 = z3.Const('a', AE)
N0 = z3.Int('n')
MN, MX = z3.Int('MN'), z3.Int('MX')
C = z3.Function('C_', IntS, IntS, IntS)
L = z3.Function('L_', IntS, IntS, IntS)
N = z3.Function('N_', IntS, IntS)
BK = z3.Function('BK', IntS, IntS)


def live(i):
    return Not(isNone(a0[i]))


def is_(i, v):
    return And(live(i), ival(a0[i]) == v)


CDEF = And(fa('v', lambda v: C(v, 0) == 0, lambda v: C(v, 0)),
           fa('v i', lambda v, i: Implies(i >= 0, C(v, i + 1) == C(v, i) + If(is_(i, v), 1, 0)), lambda v, i: C(v, i + 1)))
LDEF = And(fa('v', lambda v: L(v, 0) == 0, lambda v: L(v, 0)),
           fa('v i', lambda v, i: Implies(i >= 0, L(v, i + 1) == L(v, i) + If(And(live(i), ival(a0[i]) < v), 1, 0)), lambda v, i: L(v, i + 1)))
NDEF = And(N(0) == 0, fa('i', lambda i: Implies(i >= 0, N(i + 1) == N(i) + If(live(i), 1, 0)), lambda i: N(i + 1)))
BOUNDS = fa('i', lambda i: Implies(And(rng(0, i, N0), live(i)), And(MN <= ival(a0[i]), ival(a0[i]) <= MX)), lambda i: a0[i])


def cstep(v, i):
    return C(v, i + 1) == C(v, i) + If(is_(i, v), 1, 0)


def lstep(v, i):
    return L(v, i + 1) == L(v, i) + If(And(live(i), ival(a0[i]) < v), 1, 0)


def _stmt(name, stmt, obls):
    l = Lemma(name, lambda: stmt, obls)
    l.stmt = stmt
    return l


v_, i_, j_ = z3.Ints('v i j')
# C counts something at most once per entry, and a counted entry has its own number
count_mono = _stmt('count-monotone', And(fa('v i', lambda v, i: Implies(i >= 0, C(v, i) >= 0), lambda v, i: C(v, i)),
                                         fa('v i j', lambda v, i, j: Implies(And(0 <= i, i < j, is_(i, v)), C(v, i) < C(v, j)), lambda v, i, j: (C(v, i), C(v, j)))),
                   lambda: [('nonneg0', [CDEF], C(v_, 0) >= 0), ('nonneg', [i_ >= 0, cstep(v_, i_), C(v_, i_) >= 0], C(v_, i_ + 1) >= 0),
                            ('base', [0 <= i_, cstep(v_, i_), is_(i_, v_)], C(v_, i_) < C(v_, i_ + 1)),
                            ('step', [0 <= i_, i_ < j_, cstep(v_, j_), C(v_, i_) < C(v_, j_)], C(v_, i_) < C(v_, j_ + 1))])
less_step = _stmt('less-than-next', fa('v i', lambda v, i: Implies(i >= 0, L(v + 1, i) == L(v, i) + C(v, i)), lambda v, i: (L(v, i), C(v, i)), lambda v, i: L(v + 1, i)),
                  lambda: [('base', [CDEF, LDEF], L(v_ + 1, 0) == L(v_, 0) + C(v_, 0)),
                           ('step', [i_ >= 0, cstep(v_, i_), lstep(v_, i_), lstep(v_ + 1, i_), L(v_ + 1, i_) == L(v_, i_) + C(v_, i_)], L(v_ + 1, i_ + 1) == L(v_, i_ + 1) + C(v_, i_ + 1))])
_bi = Implies(And(rng(0, i_, N0), live(i_)), And(MN <= ival(a0[i_]), ival(a0[i_]) <= MX))
ends = Lemma('least-and-greatest', lambda: Implies(And(BOUNDS, N0 >= 0), And(L(MN, N0) == 0, L(MX + 1, N0) == N(N0))),
             lambda: [('base', [LDEF, NDEF], And(L(MN, 0) == 0, L(MX + 1, 0) == N(0))),
                      ('step', [rng(0, i_, N0), _bi, lstep(MN, i_), lstep(MX + 1, i_), NDEF, L(MN, i_) == 0, L(MX + 1, i_) == N(i_)], And(L(MN, i_ + 1) == 0, L(MX + 1, i_ + 1) == N(i_ + 1)))])


def bucket(p):
    return And(MN <= BK(p), BK(p) <= MX, L(BK(p), N0) <= p, p < L(BK(p), N0) + C(BK(p), N0))


p_ = z3.Int('p')
_n1 = lambda v: And(L(v + 1, N0) == L(v, N0) + C(v, N0), C(v, N0) >= 0)
# every position falls into the stretch of exactly one value (BK is defined to be it), stretches follow each other
stretches = Lemma('stretches', lambda: Implies(And(N0 >= 0, MN <= MX, L(MN, N0) == 0),
                  And(fa('p', lambda p: Implies(And(0 <= p, p < L(MX + 1, N0)), bucket(p)), lambda p: BK(p)),
                      fa('v w', lambda v, w: Implies(v < w, L(v, N0) + C(v, N0) <= L(w, N0)), lambda v, w: (L(v, N0), L(w, N0))))),
                  lambda: [('some-bucket', [_n1(v_), L(MN, N0) == 0, 0 <= p_, v_ >= MN, Implies(p_ < L(v_, N0), ex('w', lambda w: And(MN <= w, w < v_, L(w, N0) <= p_, p_ < L(w, N0) + C(w, N0))))],
                            Implies(p_ < L(v_ + 1, N0), ex('w', lambda w: And(MN <= w, w < v_ + 1, L(w, N0) <= p_, p_ < L(w, N0) + C(w, N0))))),
                           ('some-bucket-base', [L(MN, N0) == 0, 0 <= p_], Not(p_ < L(MN, N0))),
                           ('follow-base', [_n1(v_)], L(v_, N0) + C(v_, N0) <= L(v_ + 1, N0)),
                           ('follow', [_n1(j_), L(v_, N0) + C(v_, N0) <= L(j_, N0)], L(v_, N0) + C(v_, N0) <= L(j_ + 1, N0))])


@register
class CountingSort(Contract):
    name = ALG + 'counting_sort'
    variants = ('default',)
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'ODA_new', 'ODA_len')
    int_elems = True
    axioms = (CDEF, LDEF, NDEF)
    lemmas = (count_mono, less_step)
    assumes = ('entries of integer arrays are mathematical integers', 'BK(p) names the value whose stretch of output positions contains p (its existence is proved)')

    def setup(self, x):
        x.assume(N0 >= 0)
        arr = oda(x, 'a', n=N0)
        x['array'] = arr
        x.assume(tags_(a0, 0, N0))
        return [arr], {}

    def modifies(self, c):
        return []

    def post(self, c):
        n = N0
        r = c.res_v
        if isinstance(r, VCell) and r == c.raw('array'):
            return [('nothing-to-sort', fa('i', lambda i: Implies(rng(0, i, n), isNone(a0[i])), lambda i: a0[i]))]
        o = c.res
        b = o._data.arr
        return [('size', And(o._size == N(n), o._data.len == N(n))),
                ('elements-of-the-input', fa('p', lambda p: Implies(rng(0, p, N(n)), And(Not(isNone(b[p])), rng(0, tag(b[p]), n), b[p] == a0[tag(b[p])])), lambda p: b[p])),
                ('no-element-twice', fa('p q', lambda p, q: Implies(And(0 <= p, p < q, q < N(n)), tag(b[p]) != tag(b[q])), lambda p, q: (b[p], b[q]))),
                ('every-element', fa('i', lambda i: Implies(And(rng(0, i, n), live(i)), ex('p', lambda p: And(rng(0, p, N(n)), b[p] == a0[i]))), lambda i: a0[i])),
                ('sorted', fa('p q', lambda p, q: Implies(And(0 <= p, p < q, q < N(n)), ival(b[p]) <= ival(b[q])), lambda p, q: (b[p], b[q])))]

    def loops(self, u):
        def bounds(v):
            k = v.it
            x, n = (none0 if w is None else w for w in (v.raw('max_val'), v.raw('min_val')))
            return [('both', isNone(x) == isNone(n)), ('none', Implies(isNone(n), fa('i', lambda i: Implies(rng(0, i, k), isNone(a0[i])), lambda i: a0[i]))),
                    ('bounds', Implies(Not(isNone(n)), And(ival(n) <= ival(x), fa('i', lambda i: Implies(And(rng(0, i, k), live(i)), And(ival(n) <= ival(a0[i]), ival(a0[i]) <= ival(x))), lambda i: a0[i]))))]

        mn, mx = (lambda v: ival(v.min_val)), (lambda v: ival(v.max_val))

        def settle(v):
            return [('the-least', MN == mn(v), 'def'), ('the-greatest', MX == mx(v), 'def'), ends.use(), stretches.use()]

        def counted(v):
            return [('length', v.count.len == MX - MN + 1), ('counts', fa('w', lambda w: Implies(And(MN <= w, w <= MX), v.count.arr[w - MN] == C(w, v.it)), lambda w: C(w, v.it)))]

        def summed(v):
            c = v.count.arr
            return [('length', v.count.len == MX - MN + 1), ('total', v.total == L(MN + v.it, N0)),
                    ('starts', fa('w', lambda w: Implies(rng(0, w, v.it), c[w] == L(MN + w, N0)), lambda w: c[w])),
                    ('counts', fa('w', lambda w: Implies(And(v.it <= w, w <= MX - MN), c[w] == C(MN + w, N0)), lambda w: c[w]))]

        def gathered(v):
            return [('length', v._lc.len == N(v.it))]

        def placed(v):
            c, b, k = v.count.arr, v.output._data.arr, v.it
            return [('length', And(v.count.len == MX - MN + 1, v.output._size == N(N0), v.output._data.len == N(N0))),
                    ('next-places', fa('w', lambda w: Implies(And(0 <= w, w <= MX - MN), c[w] == L(MN + w, N0) + C(MN + w, k)), lambda w: c[w])),
                    ('placed', fa('p', lambda p: Implies(And(rng(0, p, N(N0)), p < L(BK(p), N0) + C(BK(p), k)),
                                                         And(is_(tag(b[p]), BK(p)), rng(0, tag(b[p]), k), b[p] == a0[tag(b[p])], C(BK(p), tag(b[p])) == p - L(BK(p), N0))), lambda p: b[p], lambda p: BK(p))),
                    ('positions', fa('i', lambda i: Implies(And(rng(0, i, k), live(i)), b[L(ival(a0[i]), N0) + C(ival(a0[i]), i)] == a0[i]), lambda i: a0[i]))]
        return {1: LoopSpec(inv=bounds, kinds={'max_val': 'elem', 'min_val': 'elem'}, ghosts=()),
                2: LoopSpec(inv=counted, ghosts=(), init_lemmas=settle), 3: LoopSpec(inv=summed, ghosts=()),
                4: LoopSpec(inv=gathered, ghosts=()), 5: LoopSpec(inv=placed, ghosts=())}


# ------------------------------------------------------------ radix sort
QUO = z3.Function('QUO', IntS, IntS, IntS)      # floor division
MD = z3.Function('MD', IntS, IntS, IntS)        # remainder
RC = z3.Function('RC', AE, IntS, IntS, IntS, IntS, IntS)        # entries of the array at [s, s+i) whose digit is d
RL = z3.Function('RL', AE, IntS, IntS, IntS, IntS, IntS)        # ... is smaller than d
RN = z3.Function('RN', AE, IntS, IntS, IntS)                    # entries that are no None
DV = z3.Function('DV', IntS, IntS)                              # the digit whose stretch of output positions contains p
A_, e_, s_, d_, x_, y_ = z3.Const('A', AE), z3.Int('e'), z3.Int('s'), z3.Int('d'), z3.Int('x'), z3.Int('y')


def dig(x, e):
    return QUO(x, e) % 10


def rlive(A, s, i):
    return Not(isNone(A[s + i]))


def rc_step(A, e, s, d, i):
    return RC(A, e, s, d, i + 1) == RC(A, e, s, d, i) + If(And(rlive(A, s, i), dig(ival(A[s + i]), e) == d), 1, 0)


def rl_step(A, e, s, d, i):
    return RL(A, e, s, d, i + 1) == RL(A, e, s, d, i) + If(And(rlive(A, s, i), dig(ival(A[s + i]), e) < d), 1, 0)


def rn_step(A, s, i):
    return RN(A, s, i + 1) == RN(A, s, i) + If(rlive(A, s, i), 1, 0)


RDEF = And(ForAll([A_, e_, s_, d_], And(RC(A_, e_, s_, d_, 0) == 0), patterns=[RC(A_, e_, s_, d_, 0)]),
           ForAll([A_, e_, s_, d_], And(RL(A_, e_, s_, d_, 0) == 0), patterns=[RL(A_, e_, s_, d_, 0)]),
           ForAll([A_, s_], And(RN(A_, s_, 0) == 0), patterns=[RN(A_, s_, 0)]),
           ForAll([A_, e_, s_, d_, i_], Implies(i_ >= 0, rc_step(A_, e_, s_, d_, i_)), patterns=[RC(A_, e_, s_, d_, i_ + 1)]),
           ForAll([A_, e_, s_, d_, i_], Implies(i_ >= 0, rl_step(A_, e_, s_, d_, i_)), patterns=[RL(A_, e_, s_, d_, i_ + 1)]),
           ForAll([A_, s_, i_], Implies(i_ >= 0, rn_step(A_, s_, i_)), patterns=[RN(A_, s_, i_ + 1)]))
QDEF = lambda v, e: And(e * QUO(v, e) <= v, v < e * (QUO(v, e) + 1), MD(v, e) == v - e * QUO(v, e))


def _digits(e, hi):
    q = lambda v: QUO(v, e)
    return And(fa('v', lambda v: Implies(v >= 0, And(q(v) >= 0, QUO(v, e * 10) == q(v) / 10, Implies(q(v) == 0, MD(v, e) == v))), lambda v: q(v), lambda v: MD(v, e)),
               fa('v w', lambda v, w: Implies(And(0 <= v, v <= w), q(v) <= q(w)), lambda v, w: (q(v), q(w))),
               fa('v w', lambda v, w: Implies(And(v >= 0, w >= 0, Or(dig(v, e) < dig(w, e), And(dig(v, e) == dig(w, e), MD(v, e) <= MD(w, e)))), MD(v, e * 10) <= MD(w, e * 10)),
                  lambda v, w: (MD(v, e * 10), MD(w, e * 10))))


def _digits_obls():
    q, r = QUO(x_, e_), QUO(x_, e_ * 10)
    h = [e_ >= 1, x_ >= 0, QDEF(x_, e_)]
    h10 = h + [QDEF(x_, e_ * 10)]
    y = [y_ >= 0, QDEF(y_, e_), QDEF(y_, e_ * 10)]
    qy, ry = QUO(y_, e_), QUO(y_, e_ * 10)
    shift = lambda v: QUO(v, e_ * 10) == QUO(v, e_) / 10
    d0, d1, k = dig(x_, e_), dig(y_, e_), z3.Int('k')
    val = lambda v: MD(v, e_ * 10) == MD(v, e_) + e_ * dig(v, e_)
    return [('nonneg', [e_ >= 1, x_ >= 0, x_ < e_ * (q + 1)], q >= 0), ('small', h + [q == 0], MD(x_, e_) == x_)] + \
        chain('shift', h10, x_ < e_ * 10 * (r + 1), And(q < 10 * (r + 1)), 10 * r <= q, r == q / 10) + \
        [('monotone', [e_ >= 1, QDEF(x_, e_), QDEF(y_, e_), x_ <= y_], q <= qy)] + \
        chain('value', h10 + [shift(x_)], q == 10 * r + d0, e_ * q == e_ * 10 * r + e_ * d0, val(x_)) + \
        chain('order', [e_ >= 1, QDEF(x_, e_), QDEF(y_, e_), val(x_), val(y_), d0 < d1, k == d1 - d0], And(0 <= MD(x_, e_), MD(x_, e_) < e_, 0 <= MD(y_, e_), MD(y_, e_) < e_), e_ * d1 == e_ * d0 + e_ * k, e_ * k >= e_, MD(x_, e_ * 10) <= MD(y_, e_ * 10)) + \
        [('order-equal', [val(x_), val(y_), d0 == d1, MD(x_, e_) <= MD(y_, e_)], MD(x_, e_ * 10) <= MD(y_, e_ * 10))]


digits = Lemma('decimal-digits', lambda e: Implies(e >= 1, _digits(e, None)), _digits_obls)
first_digit = Lemma('first-digit', lambda: fa('v', lambda v: And(QUO(v, 1) == v, MD(v, 1) == 0), lambda v: QUO(v, 1), lambda v: MD(v, 1)),
                    lambda: [('quotient', [QDEF(x_, IntVal(1))], And(QUO(x_, 1) == x_, MD(x_, 1) == 0))])


def _rfacts(A, e, s, n):
    Cf, Lf = (lambda d, i: RC(A, e, s, d, i)), (lambda d, i: RL(A, e, s, d, i))
    return And(fa('d i', lambda d, i: Implies(i >= 0, Cf(d, i) >= 0), lambda d, i: Cf(d, i)),
               fa('d i j', lambda d, i, j: Implies(And(0 <= i, i < j, rlive(A, s, i), dig(ival(A[s + i]), e) == d), Cf(d, i) < Cf(d, j)), lambda d, i, j: (Cf(d, i), Cf(d, j))),
               fa('d i j', lambda d, i, j: Implies(And(0 <= i, i <= j), Cf(d, i) <= Cf(d, j)), lambda d, i, j: (Cf(d, i), Cf(d, j))),
               fa('d', lambda d: Lf(d + 1, n) == Lf(d, n) + Cf(d, n), lambda d: Cf(d, n)),
               Lf(0, n) == 0, Lf(10, n) == RN(A, s, n), 0 <= RN(A, s, n), RN(A, s, n) <= n,
               fa('d w', lambda v, w: Implies(v < w, Lf(v, n) + Cf(v, n) <= Lf(w, n)), lambda v, w: (Lf(v, n), Lf(w, n))),
               fa('p', lambda p: Implies(rng(0, p, RN(A, s, n)), And(rng(0, DV(p), 10), Lf(DV(p), n) <= p, p < Lf(DV(p), n) + Cf(DV(p), n))), lambda p: DV(p)))


def _rfacts_obls():
    Cf, Lf = (lambda d, i: RC(A_, e_, s_, d, i)), (lambda d, i: RL(A_, e_, s_, d, i))
    st = [i_ >= 0, rc_step(A_, e_, s_, d_, i_)]
    n = z3.Int('n')
    Q = dig(ival(A_[s_ + i_]), e_)
    nxt = lambda v: And(Lf(v + 1, n) == Lf(v, n) + Cf(v, n), Cf(v, n) >= 0)
    inb = lambda hi: ex('w', lambda w: And(0 <= w, w < hi, Lf(w, n) <= p_, p_ < Lf(w, n) + Cf(w, n)))
    cj = rc_step(A_, e_, s_, d_, j_)
    return [('nonneg0', [RDEF], Cf(d_, 0) >= 0), ('nonneg', st + [Cf(d_, i_) >= 0], Cf(d_, i_ + 1) >= 0),
            ('mono0', st + [rlive(A_, s_, i_), Q == d_], Cf(d_, i_) < Cf(d_, i_ + 1)), ('mono', [0 <= i_, i_ < j_, cj, Cf(d_, i_) < Cf(d_, j_)], Cf(d_, i_) < Cf(d_, j_ + 1)),
            ('weak', [0 <= i_, i_ <= j_, cj, Cf(d_, i_) <= Cf(d_, j_)], Cf(d_, i_) <= Cf(d_, j_ + 1)),
            ('next0', [RDEF], Lf(d_ + 1, 0) == Lf(d_, 0) + Cf(d_, 0)),
            ('next', st + [rl_step(A_, e_, s_, d_, i_), rl_step(A_, e_, s_, d_ + 1, i_), Lf(d_ + 1, i_) == Lf(d_, i_) + Cf(d_, i_)], Lf(d_ + 1, i_ + 1) == Lf(d_, i_ + 1) + Cf(d_, i_ + 1)),
            ('ends0', [RDEF], And(Lf(0, 0) == 0, Lf(10, 0) == RN(A_, s_, 0), RN(A_, s_, 0) == 0)),
            ('ends', [i_ >= 0, rl_step(A_, e_, s_, 0, i_), rl_step(A_, e_, s_, 10, i_), rn_step(A_, s_, i_), And(0 <= Q, Q < 10), Lf(0, i_) == 0, Lf(10, i_) == RN(A_, s_, i_), 0 <= RN(A_, s_, i_), RN(A_, s_, i_) <= i_],
             And(Lf(0, i_ + 1) == 0, Lf(10, i_ + 1) == RN(A_, s_, i_ + 1), 0 <= RN(A_, s_, i_ + 1), RN(A_, s_, i_ + 1) <= i_ + 1)),
            ('follow0', [nxt(v_)], Lf(v_, n) + Cf(v_, n) <= Lf(v_ + 1, n)), ('follow', [nxt(j_), Lf(v_, n) + Cf(v_, n) <= Lf(j_, n)], Lf(v_, n) + Cf(v_, n) <= Lf(j_ + 1, n)),
            ('some-stretch0', [Lf(0, n) == 0, 0 <= p_], Not(p_ < Lf(0, n))),
            ('some-stretch', [nxt(v_), 0 <= p_, v_ >= 0, Implies(p_ < Lf(v_, n), inb(v_))], Implies(p_ < Lf(v_ + 1, n), inb(v_ + 1)))]


radix_counts = Lemma('digit-counts', lambda A, e, s, n: Implies(n >= 0, _rfacts(A, e, s, n)), _rfacts_obls)


def _entry(A, e, s, n, i):
    d = dig(ival(A[s + i]), e)
    Cf, Lf = (lambda i: RC(A, e, s, d, i)), RL(A, e, s, d, n)
    return And(0 <= d, d < 10, 0 <= Lf, Lf + Cf(n) <= RN(A, s, n), RN(A, s, n) <= n, 0 <= Cf(i), Cf(i) < Cf(n), DV(Lf + Cf(i)) == d)


def _entry_obls():
    n = z3.Int('n')
    Cf, Lf, m, u = (lambda d, i: RC(A_, e_, s_, d, i)), (lambda d: RL(A_, e_, s_, d, n)), RN(A_, s_, n), z3.Int('u')
    base = [0 <= i_, i_ < n, rlive(A_, s_, i_), d_ == dig(ival(A_[s_ + i_]), e_), p_ == Lf(d_) + Cf(d_, i_), u == DV(p_)]
    facts = [_rfacts(A_, e_, s_, n)]
    got = [And(0 <= d_, d_ < 10), Cf(d_, i_) >= 0, Cf(d_, i_) < Cf(d_, n), Lf(d_) >= 0, Lf(d_) + Cf(d_, n) <= m, m <= n]
    out = [('entry-%d' % k, base + facts + got[:k], g) for k, g in enumerate(got)]
    inst = [Lf(u) <= p_, p_ < Lf(u) + Cf(u, n), Implies(u < d_, Lf(u) + Cf(u, n) <= Lf(d_)), Implies(d_ < u, Lf(d_) + Cf(d_, n) <= Lf(u))]
    out += [('stretch-%d' % k, base + facts + got, g) for k, g in enumerate(inst)]
    return out + [('same-stretch', base[4:] + got + inst, u == d_), ('entry', base + got + [u == d_], _entry(A_, e_, s_, n, i_))]


radix_entry = Lemma('place-of-an-entry', lambda A, e, s, n, i: Implies(And(0 <= i, i < n, rlive(A, s, i)), _entry(A, e, s, n, i)), _entry_obls)
count_step = Lemma('count-step', lambda A, e, s, i: Implies(i >= 0, fa('d', lambda d: rc_step(A, e, s, d, i), lambda d: RC(A, e, s, d, i + 1), lambda d: RC(A, e, s, d, i))),
                   lambda: [('instance', [RDEF, i_ >= 0], rc_step(A_, e_, s_, d_, i_))])
_n = z3.Int('n')
stretch_starts = Lemma('stretch-starts', lambda A, e, s, n: Implies(n >= 0, And(RL(A, e, s, 0, n) == 0, *[RL(A, e, s, d + 1, n) == RL(A, e, s, d, n) + RC(A, e, s, d, n) for d in range(9)])),
                       lambda: [('instance', [_rfacts(A_, e_, s_, _n)], And(RL(A_, e_, s_, 0, _n) == 0, *[RL(A_, e_, s_, d + 1, _n) == RL(A_, e_, s_, d, _n) + RC(A_, e_, s_, d, _n) for d in range(9)]))])
places = Lemma('places', lambda A, e, s, n: Implies(n >= 0, And(0 <= RN(A, s, n), RN(A, s, n) <= n,
                        fa('p', lambda p: Implies(rng(0, p, RN(A, s, n)), And(rng(0, DV(p), 10), RL(A, e, s, DV(p), n) <= p, p < RL(A, e, s, DV(p), n) + RC(A, e, s, DV(p), n))), lambda p: DV(p)))),
               lambda: [('instance', [_rfacts(A_, e_, s_, _n)], And(0 <= RN(A_, s_, _n), RN(A_, s_, _n) <= _n, Implies(rng(0, p_, RN(A_, s_, _n)), And(rng(0, DV(p_), 10), RL(A_, e_, s_, DV(p_), _n) <= p_, p_ < RL(A_, e_, s_, DV(p_), _n) + RC(A_, e_, s_, DV(p_), _n)))))])
_m = z3.Int('m')
packed = Lemma('packed', lambda A, s, n, m: Implies(And(0 <= m, m <= n, fa('i', lambda i: Implies(rng(s, i, s + n), Not(isNone(A[i])) == (i < s + m)), lambda i: A[i])), RN(A, s, n) == m),
               lambda: [('base', [RDEF, 0 <= _m], RN(A_, s_, 0) == If(0 < _m, 0, _m)),
                        ('step', [i_ >= 0, rn_step(A_, s_, i_), rlive(A_, s_, i_) == (i_ < _m), RN(A_, s_, i_) == If(i_ < _m, i_, _m)], RN(A_, s_, i_ + 1) == If(i_ + 1 < _m, i_ + 1, _m))])


@register
class RadixSort(Contract):
    name = ALG + 'radix_sort'
    variants = ('default', 'explicit')
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'ODA_len')
    int_elems = True
    axioms = (RDEF,)
    assumes = ('entries of integer arrays are mathematical integers', 'QUO and MD are floor division and its remainder', 'DV(p) names the digit whose stretch of output positions contains p (its existence is proved)')

    def setup(self, x):
        n = z3.Int('n')
        x.assume(n >= 0)
        arr = oda(x, 'a', n=n)
        x['array'], x['n'] = arr, n
        x.assume(tags_(a0, 0, n))
        kw = {}
        lo, hi = IntVal(0), n - 1
        if x.variant == 'explicit':
            lo, hi = x.int('start'), x.int('end')
            kw = {'start': lo, 'end': hi}
            x.assume(And(lo >= 0, hi < n, lo <= hi + 1))
        x['lo'], x['hi'] = lo, hi
        x.assume(fa('i', lambda i: Implies(And(lo <= i, i <= hi, live(i)), ival(a0[i]) >= 0), lambda i: a0[i]))
        return [arr], kw

    def binop_hook(self, eng, st, op, a, b, node):
        if isinstance(op, __import__('ast').FloorDiv) and not isinstance(b, int):
            bb = eng.as_int(st, b, node)
            eng.safe('divisor-positive', st, bb >= 1, node)
            return QUO(eng.as_int(st, a, node), bb)
        return NotImplemented

    def modifies(self, c):
        return [('list', c.o('array')._data.v, 'arr')]

    def lemmas_post(self, c):
        return [digits.use(c.local('exp'))] if c.local('exp') is not None else []

    def placed(self, a, lo, hi):
        """the entries that are no None are entries of the range, each once"""
        return [('elements-of-the-range', fa('p', lambda p: Implies(And(lo <= p, p <= hi, Not(isNone(a[p]))), And(lo <= tag(a[p]), tag(a[p]) <= hi, a[p] == a0[tag(a[p])])), lambda p: a[p])),
                ('no-element-twice', fa('p q', lambda p, q: Implies(And(lo <= p, p < q, q <= hi, Not(isNone(a[p])), Not(isNone(a[q]))), tag(a[p]) != tag(a[q])), lambda p, q: (a[p], a[q])))]

    def post(self, c):
        x = c.cx
        lo, hi, n = x['lo'], x['hi'], x['n']
        s = c.n('array')
        a = s._data.arr
        return self.placed(a, lo, hi) + [
            ('every-element', fa('i', lambda i: Implies(And(lo <= i, i <= hi, live(i)), ex('p', lambda p: And(lo <= p, p <= hi, a[p] == a0[i]))), lambda i: a0[i])),
            ('none-last', fa('p q', lambda p, q: Implies(And(lo <= p, p < q, q <= hi, isNone(a[p])), isNone(a[q])), lambda p, q: (a[p], a[q]))),
            ('sorted', fa('p q', lambda p, q: Implies(And(lo <= p, p < q, q <= hi, Not(isNone(a[q]))), ival(a[p]) <= ival(a[q])), lambda p, q: (a[p], a[q]))),
            ('outside', same_out(a, a0, n, lo, hi + 1)), ('length', And(s._size == n, s._data.len == n)),
            ('returns-array', BoolVal(c.res_v == c.raw('array')))]

    def loops(self, u):
        def arr(v):
            return v.array._data.arr

        def size(v):
            return [('array-length', And(v.array._size == v.c['n'], v.array._data.len == v.c['n']))]

        def greatest(v):
            m = none0 if v.raw('max_val') is None else v.max_val
            lo, k = v.c['lo'], v.it
            return [('none', Implies(isNone(m), fa('i', lambda i: Implies(rng(lo, i, k), isNone(a0[i])), lambda i: a0[i]))),
                    ('greatest', Implies(Not(isNone(m)), And(ival(m) >= 0, fa('i', lambda i: Implies(And(rng(lo, i, k), live(i)), ival(a0[i]) <= ival(m)), lambda i: a0[i]))))]

        def passes(v):
            a, e, lo, hi, n = arr(v), v.exp, v.c['lo'], v.c['hi'], v.c['n']
            Q = v.g('Q')
            lv = lambda p: Not(isNone(a[p]))
            return size(v) + [('power', And(e >= 1, Or(e == 1, e >= 10)))] + self.placed(a, lo, hi) + [
                ('every-element', fa('i', lambda i: Implies(And(lo <= i, i <= hi, live(i)), And(lo <= Q[i], Q[i] <= hi, a[Q[i]] == a0[i])), lambda i: a0[i])),
                ('none-last', Or(e == 1, fa('p q', lambda p, q: Implies(And(lo <= p, p < q, q <= hi, isNone(a[p])), isNone(a[q])), lambda p, q: (a[p], a[q])))),
                ('sorted-by-digits', fa('p q', lambda p, q: Implies(And(lo <= p, p < q, q <= hi, lv(p), lv(q)), MD(ival(a[p]), e) <= MD(ival(a[q]), e)), lambda p, q: (a[p], a[q]))),
                ('outside', same_out(a, a0, n, lo, hi + 1))]

        def R(v):
            a, e, lo, n = arr(v), v.exp, v.c['lo'], v.c['hi'] - v.c['lo'] + 1
            return (lambda d, i: RC(a, e, lo, d, i)), (lambda d: RL(a, e, lo, d, n)), RN(a, lo, n)

        def tens(v):
            return [('ten', v.count.len == 10)]

        def counting(v):
            Cf = R(v)[0]
            c = v.count.arr
            return tens(v) + [('counts', fa('d', lambda d: Implies(rng(0, d, 10), c[d] == Cf(d, v.it - v.c['lo'])), lambda d: c[d]))]

        def placing(v):
            Cf, Lf, m = R(v)
            c, b, lo, n, a, e, Q = v.count.arr, v.output.arr, v.c['lo'], v.c['hi'] - v.c['lo'] + 1, arr(v), v.exp, v.g('Q')
            k = v.it - lo + 1             # positions >= k of the range are placed
            S = v.g('S')
            return tens(v) + [('length', v.output.len == n),
                    ('next', fa('d', lambda d: Implies(rng(0, d, 10), c[d] == Lf(d) + Cf(d, k)), lambda d: c[d])),
                    ('placed', fa('p', lambda p: Implies(And(rng(0, p, m), p >= Lf(DV(p)) + Cf(DV(p), k)),
                                                         And(Not(isNone(b[p])), k <= S[p], S[p] < n, b[p] == a[lo + S[p]], dig(ival(b[p]), e) == DV(p), Cf(DV(p), S[p]) == p - Lf(DV(p)))),
                                  lambda p: b[p], lambda p: DV(p))),
                    ('not-yet', fa('p', lambda p: Implies(And(rng(0, p, m), p < Lf(DV(p)) + Cf(DV(p), k)), isNone(b[p])), lambda p: b[p])),
                    ('none', fa('p', lambda p: Implies(And(m <= p, p < n), isNone(b[p])), lambda p: b[p])),
                    ('kept', fa('i', lambda i: Implies(And(v.it < i, i <= v.c['hi'], Not(isNone(a[i]))), And(rng(0, Q[tag(a[i])] - lo, m), b[Q[tag(a[i])] - lo] == a[i])), lambda i: a[i]))]

        def step_at(v):
            a, e, lo, j = arr(v), v.exp, v.c['lo'], v.it - v.c['lo']
            return [count_step.use(a, e, lo, j), radix_entry.use(a, e, lo, v.c['hi'] - lo + 1, j)]

        def summed_up(v):
            return [stretch_starts.use(arr(v), v.exp, v.c['lo'], v.c['hi'] - v.c['lo'] + 1)]

        def place_step(v):
            lo, i, a = v.c['lo'], v.it + 1, arr(v)
            d = dig(ival(a[i]), v.exp)
            p = v.count.arr[d]
            return {'Q': If(isNone(a[i]), v.g('Q'), Store(v.g('Q'), tag(a[i]), lo + p)), 'S': If(isNone(a[i]), v.g('S'), Store(v.g('S'), p, i - lo))}

        def copying(v):
            a, b, lo, n, k = arr(v), v.output.arr, v.c['lo'], v.c['hi'] - v.c['lo'] + 1, v.it
            e = arr(v.entry)
            return size(v) + [('copied', fa('p', lambda p: Implies(And(lo <= p, p < lo + k), a[p] == b[p - lo]), lambda p: a[p])),
                              ('source', fa('p', lambda p: Implies(rng(0, p, k), a[lo + p] == b[p]), lambda p: b[p])),
                              ('rest', fa('p', lambda p: Implies(And(0 <= p, p < v.c['n'], Or(p < lo, p >= lo + k)), a[p] == e[p]), lambda p: a[p]))]

        def start_pass(v):
            a, e, lo, n = arr(v), v.exp, v.c['lo'], v.c['hi'] - v.c['lo'] + 1
            return [places.use(a, e, lo, n)]
        def end_pass(v, h):
            a, b, old, e, lo, n, S = arr(v), v.output.arr, arr(h), h.exp, h.c['lo'], h.c['hi'] - h.c['lo'] + 1, v.g('S')
            m = RN(old, lo, n)
            two = lambda g: fa('p q', lambda p, q: Implies(And(0 <= p, p < q, q < m), g(p, q)), lambda p, q: (b[p], b[q]))
            x = lambda p: ival(b[p])
            return [digits.use(e), radix_counts.use(old, e, lo, n),
                    ('digits-of-positions', fa('p', lambda p: Implies(rng(0, p, m), And(Not(isNone(b[p])), rng(0, S[p], n), b[p] == old[lo + S[p]], dig(x(p), e) == DV(p), RC(old, e, lo, DV(p), S[p]) == p - RL(old, e, lo, DV(p), n), x(p) >= 0)), lambda p: b[p])),
                    ('ordered-by-digit', two(lambda p, q: DV(p) <= DV(q))),
                    ('numbered', two(lambda p, q: Implies(DV(p) == DV(q), RC(old, e, lo, DV(p), S[p]) < RC(old, e, lo, DV(p), S[q])))),
                    ('stable', two(lambda p, q: Implies(DV(p) == DV(q), S[p] < S[q]))),
                    ('ordered-by-rest', two(lambda p, q: Implies(DV(p) == DV(q), MD(x(p), e) <= MD(x(q), e)))),
                    ('ordered', two(lambda p, q: MD(x(p), e * 10) <= MD(x(q), e * 10)))]
        idarr = lambda: z3.Lambda([i_], i_)
        return {1: LoopSpec(inv=greatest, kinds={'max_val': 'elem'}, ghosts=()),
                2: LoopSpec(inv=passes, variant=lambda v: (If(v.exp == 1, 1, 0), QUO(ival(v.max_val), v.exp)), ghosts=('Q', 'S'),
                            ghost_init=lambda v: {'Q': idarr(), 'S': idarr()}, init_lemmas=lambda v: [first_digit.use()],
                            end_lemmas=end_pass),
                3: LoopSpec(inv=counting, ghosts=(), init_lemmas=start_pass), 4: LoopSpec(inv=placing, ghosts=('Q', 'S'), ghost_step=place_step, body_assume=step_at, init_lemmas=summed_up), 5: LoopSpec(inv=copying, ghosts=())}
