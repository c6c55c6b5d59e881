"""Topological sorting (C27) over the abstract graph of graphs.py.  ACYC: a rank grows along every edge; a graph without such a
rank has a non-empty set of vertices each with a predecessor in the set (and a graph with one has no such set)."""
from .common import *
from .lemmas import Lemma
from .graphs import G, nb, deg, VT, IX, NV, nodeof, SetK, IK, KI, GN, fk, fki, GRAPH, NBS, names, named, pigeon
from . import register

VS = z3.Const('VS', IK)
ei = z3.Function('ei', K, K, IntS)
ACYC = z3.Bool('acyclic')
tp = z3.Function('tp', K, IntS)
CY = z3.Function('on_cycle', K, BoolS)
cp = z3.Function('cycle_pred', K, K)
c0 = z3.Const('c0', K)
cardK = z3.Function('cardK', SetK, IntS)
pick = z3.Function('pick', SetK, K)
add, rem = z3.Function('set_add', SetK, K, SetK), z3.Function('set_rem', SetK, K, SetK)
A_, k_, l_ = z3.Const('A', SetK), z3.Const('k', K), z3.Const('l', K)
EMPTYK = z3.K(K, BoolVal(False))
SETS = And(ForAll([A_, k_, l_], add(A_, k_)[l_] == Or(l_ == k_, A_[l_]), patterns=[add(A_, k_)[l_]]),
           ForAll([A_, k_, l_], rem(A_, k_)[l_] == And(l_ != k_, A_[l_]), patterns=[rem(A_, k_)[l_]]))
CARD = And(cardK(EMPTYK) == 0, ForAll([A_], And(cardK(A_) >= 0, Or(cardK(A_) == 0, A_[pick(A_)])), patterns=[cardK(A_)]),
           ForAll([A_, k_], Implies(A_[k_], cardK(A_) >= 1), patterns=[MultiPattern(cardK(A_), A_[k_])]),
           ForAll([A_, k_], Implies(Not(A_[k_]), cardK(add(A_, k_)) == cardK(A_) + 1), patterns=[add(A_, k_)]),
           ForAll([A_, k_], Implies(A_[k_], cardK(rem(A_, k_)) == cardK(A_) - 1), patterns=[rem(A_, k_)]))
CARD_TEXT = 'cardinality of finite sets of vertices: the empty set has 0 elements, adding (removing) an element changes it by one, a set of cardinality 0 is empty'


def PE(u, v):
    return And(VT(u), 0 <= ei(u, v), ei(u, v) < deg(u), nb(u, ei(u, v)) == v)


VERTICES = And(GRAPH, fa('i', lambda i: Implies(rng(0, i, NV), And(VT(VS[i]), IX(VS[i]) == i)), lambda i: VS[i]),
               fk(lambda k: Implies(VT(k), VS[IX(k)] == k), lambda k: IX(k)),
               fki(lambda k, i: Implies(And(VT(k), 0 <= i, i < deg(k)), ei(k, nb(k, i)) == i), lambda k, i: nb(k, i)))
CYCLES = And(Implies(ACYC, ForAll([k_, l_], Implies(PE(k_, l_), And(0 <= tp(k_), tp(k_) < tp(l_))), patterns=[ei(k_, l_)])),
             Implies(Not(ACYC), And(CY(c0), VT(c0), fk(lambda k: Implies(CY(k), And(VT(k), CY(cp(k)), PE(cp(k), k))), lambda k: CY(k), lambda k: cp(k)))))


def _descent(S, f, r):
    """a set in which every element has a predecessor of smaller rank is empty"""
    return Implies(fk(lambda k: Implies(S(k), And(S(f(k)), 0 <= r(f(k)), r(f(k)) < r(k))), lambda k: f(k)), fk(lambda k: Not(S(k)), lambda k: S(k)))


def _descent_obls():
    S, f, r, k = z3.Function('S', K, BoolS), z3.Function('f', K, K), z3.Function('r', K, IntS), z3.Const('k', K)
    hyp = Implies(S(k), And(S(f(k)), 0 <= r(f(k)), r(f(k)) < r(k)))
    return [('step', [hyp, fk(lambda l: Implies(And(0 <= r(l), r(l) < r(k)), Not(S(l))), lambda l: S(l))], Not(S(k)))]


descent = Lemma('descending-predecessors', _descent, _descent_obls)


class _Topo(Contract):
    fields = {'name': 'key'}
    uses = NBS
    axioms = (VERTICES, CYCLES)
    assumes = ('vertices are listed once each and neighbors(u) lists each neighbour once (C22)',)

    def graph(self, x, impl='adjacency_list'):
        vs = x.eng.new_cell(x.st, ArrRec(NV, VS, 'key'))
        return x.obj('AdjacencyList' if impl == 'adjacency_list' else 'AdjacencyMatrix', _impl=impl, vertices=vs)

    def setup(self, x):
        return [self.graph(x)], {}

    def pre(self, c):
        return [('names', names(c.oheap))]

    def raises(self, c):
        return {'ValueError': Not(ACYC)}

    def result(self, c):
        return ('list', 'key')

    def post(self, c):
        P = self.positions(c)
        if P is None:
            return [('has-an-order', BoolVal(False))]
        n, L = c.res.len, c.res.arr
        return [('every-vertex', fk(lambda k: Implies(VT(k), And(0 <= P[k], P[k] < n, L[P[k]] == k)), lambda k: P[k])),
                ('once', fa('j', lambda j: Implies(rng(0, j, n), And(VT(L[j]), P[L[j]] == j)), lambda j: L[j])),
                ('edges-forward', ForAll([k_, l_], Implies(PE(k_, l_), P[k_] < P[l_]), patterns=[MultiPattern(P[k_], P[l_])]))]


    def positions(self, c):
        if c.calling:
            c.eng.positions = fresh_const('position', KI)
            return c.eng.positions
        return c.local('@g_P')


@register
class Kahn(_Topo):
    name = G + '_kahn_adjacency_list'
    axioms = (VERTICES, CYCLES, SETS, CARD)
    assumes = _Topo.assumes + (CARD_TEXT,)

    def dicthint(self, eng, st, o):
        return ('key', 'int')

    def listhint(self, eng, st, o):
        return 'key'

    @staticmethod
    def known(v):
        Q, P, m = v.g('Q'), v.g('P'), v.g('m')
        return lambda k: And(0 <= P[k], P[k] < m, Q[P[k]] == k)

    def degrees(self, v, counted):
        W, d = v.g('W'), v.in_degree
        return [('names', names(v.heap)), ('counted', ForAll([k_, l_], W[k_][l_] == And(PE(l_, k_), counted(l_, k_)), patterns=[W[k_][l_], ei(l_, k_)])),
                ('in-degrees', fk(lambda k: Implies(d.dom[k], d.map[k] == cardK(W[k])), lambda k: d.map[k], lambda k: W[k]))]

    def first(self, v, inner):
        it = v.iter(1)
        u = VS[it]
        cnt = (lambda p, k: Or(IX(p) < it, And(p == u, ei(p, k) < v.it))) if inner else (lambda p, k: IX(p) < it)
        out = self.degrees(v, cnt) + [('all-vertices', fk(lambda k: v.in_degree.dom[k] == VT(k), lambda k: v.in_degree.dom[k], lambda k: VT(k)))]
        out += [('empty-queue', self.q(v).len == 0)]
        return out

    def q(self, v):
        return v.S

    def queue(self, v, h):
        Q, P, m, q = v.g('Q'), v.g('P'), v.g('m'), self.q(v)
        kn = self.known(v)
        return [('queued', And(m >= 0, fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j)), lambda j: Q[j]))),
                ('still-counted', fk(lambda k: v.in_degree.dom[k] == And(VT(k), Not(kn(k))), lambda k: v.in_degree.dom[k], lambda k: VT(k))),
                ('queue', And(0 <= h, h <= m, q.len == m - h, fa('i', lambda i: Implies(rng(0, i, q.len), q.arr[i] == Q[h + i]), lambda i: q.arr[i])))]

    def third(self, v):
        W, d = v.g('W'), v.in_degree
        kn = self.known(v)
        return self.degrees(v, lambda p, k: BoolVal(True)) + self.queue(v, 0) + \
            [('no-predecessors', fk(lambda k: Implies(And(VT(k), kn(k)), cardK(W[k]) == 0), lambda k: W[k], lambda k: v.g('P')[k])),
             ('only-from-the-listed', fa('j', lambda j: Implies(rng(0, j, v.g('m')), IX(v.g('Q')[j]) < v.it), lambda j: v.g('Q')[j])),
             ('looked-at', fk(lambda k: Implies(And(VT(k), IX(k) < v.it), Or(kn(k), cardK(W[k]) > 0)), lambda k: W[k], lambda k: IX(k)))]

    def main(self, v, inner):
        W, d, h, P, Q = v.g('W'), v.in_degree, v.g('h'), v.g('P'), v.g('Q')
        kn = self.known(v)
        cur = Q[h]
        left = lambda p, k: Not(And(kn(p), P[p] < h))
        if inner:
            cnt = lambda p, k: And(left(p, k), Not(And(p == cur, ei(p, k) < v.it)))
            fin = lambda p, k: Or(P[p] < h, And(p == cur, ei(p, k) < v.it))
        else:
            cnt, fin = left, lambda p, k: P[p] < h
        done = h + 1 if inner else h
        out = self.degrees(v, cnt) + self.queue(v, done) + \
            [('output', And(v.L.len == done, fa('j', lambda j: Implies(rng(0, j, done), v.L.arr[j] == Q[j]), lambda j: v.L.arr[j], lambda j: Q[j]))),
             ('predecessors-first', ForAll([k_, l_], Implies(And(kn(k_), PE(l_, k_)), And(kn(l_), P[l_] < P[k_], fin(l_, k_))), patterns=[MultiPattern(P[k_], ei(l_, k_)), MultiPattern(P[k_], P[l_])])),
             ('others-wait', fk(lambda k: Implies(And(VT(k), Not(kn(k))), cardK(W[k]) > 0), lambda k: W[k]))]
        if inner:
            out += [('current', v.n == cur)]
        return out

    def loops(self, u):
        def push3(v):
            m, q = v.g('m'), self.q(v)
            new = q.len > m
            x = q.arr[m]
            return {'Q': If(new, Store(v.g('Q'), m, x), v.g('Q')), 'P': If(new, Store(v.g('P'), x, m), v.g('P')), 'm': q.len}

        def push5(v):
            m, q, h = v.g('m'), self.q(v), v.g('h')
            new = q.len > m - h - 1
            x = nb(v.g('Q')[h], v.it - 1)
            return {'W': Store(v.g('W'), x, rem(v.g('W')[x], v.n)),
                    'Q': If(new, Store(v.g('Q'), m, x), v.g('Q')), 'P': If(new, Store(v.g('P'), x, m), v.g('P')), 'm': q.len + h + 1}

        def pushed(v, h):
            m, x, W, P, cur = h.g('m'), v.g('Q')[h.g('m')], v.g('W'), v.g('P'), v.g('Q')[v.g('h')]
            fin = lambda p, k: Or(P[p] < v.g('h'), And(p == cur, ei(p, k) < v.it))
            new = v.g('m') > m
            cnt = lambda p: Not(Or(And(self.known(h)(p), h.g('P')[p] < v.g('h')), And(p == cur, ei(p, x) < v.it)))
            return [('nothing-left', Implies(new, cardK(W[x]) == 0)), ('no-predecessor-left', Implies(new, fk(lambda l: Not(W[x][l]), lambda l: W[x][l]))),
                    ('counted-before', Implies(new, fk(lambda l: W[x][l] == And(PE(l, x), cnt(l)), lambda l: ei(l, x), lambda l: W[x][l]))),
                    ('all-gone', Implies(new, fk(lambda l: Implies(PE(l, x), Not(cnt(l))), lambda l: ei(l, x)))),
                    ('pushed-after-its-predecessors', Implies(v.g('m') > m, fk(lambda l: Implies(PE(l, x), And(self.known(h)(l), P[l] == h.g('P')[l], fin(l, x))), lambda l: ei(l, x), lambda l: P[l]))),
                    ('position', Implies(v.g('m') > m, And(P[x] == m, Not(self.known(h)(x)))))]

        def count(v):
            x = nb(VS[v.iter(1)], v.it - 1)
            return {'W': Store(v.g('W'), x, add(v.g('W')[x], VS[v.iter(1)]))}

        def head(v):
            P, d, W = v.g('P'), v.in_degree.dom, v.g('W')
            return [pigeon.use(v.g('Q'), P, v.g('m')), descent.use(lambda k: d[k], lambda k: pick(W[k]), tp), descent.use(lambda k: CY(k), cp, lambda k: P[k])]
        return {1: LoopSpec(inv=lambda v: self.first(v, False), ghosts=('W',), ghost_init=lambda v: {'W': z3.K(K, EMPTYK)}),
                2: LoopSpec(inv=lambda v: self.first(v, True), ghosts=('W',), ghost_step=count),
                3: LoopSpec(inv=self.third, ghosts=('Q', 'P', 'm'), ghost_init=lambda v: {'Q': z3.Const('Q0', IK), 'P': z3.K(K, IntVal(-1)), 'm': IntVal(0)}, ghost_step=push3),
                4: LoopSpec(inv=lambda v: self.main(v, False), ghosts=('Q', 'P', 'm', 'W', 'h'), ghost_init=lambda v: {'h': IntVal(0)}, ghost_step=lambda v: {'h': v.g('h') + 1},
                            assume_head=head, variant=lambda v: NV - v.g('h')),
                5: LoopSpec(inv=lambda v: self.main(v, True), ghosts=('Q', 'P', 'm', 'W'), ghost_step=push5, end_lemmas=pushed)}


@register
class TopSort(_Topo):
    name = G + 'topological_sort'
    uses = ('Kahn',)

    def setup(self, x):
        return [self.graph(x), 'kahn'], {}

    def positions(self, c):
        return getattr(c.eng, 'positions', None)
