"""Shortest paths (C26) over the abstract weighted graph: WK(v, x) says that a walk of weight x leads from the source to v (the
least relation closed under the two rules), WA(u, v, x) the same from u.  Distances are real numbers or infinity."""
import ast
from .common import *
from .lemmas import Lemma, chain
from . import graphs
from .graphs import G, nb, deg, VT, IX, NV, nodeof, SetK, IK, KI, fk, fki, NBS, names, named, pigeon, src
from .topo import VS, ei, PE, VERTICES, k_, l_
from . import register
from pyvc.values import dt

OR = ('opt', 'real')
ORS, or_none, or_some, or_isnone, or_val = dt(OR)
wt = z3.Function('weight', K, K, RealS)
ekey = z3.Function('edge_key', K, K, K)
esrc, edst = z3.Function('edge_src', K, K), z3.Function('edge_dst', K, K)
WK = z3.Function('walk', K, RealS, BoolS)
NEG = z3.Bool('negative_cycle')
x_ = z3.Real('x')
EKEY = ForAll([k_, l_], And(esrc(ekey(k_, l_)) == k_, edst(ekey(k_, l_)) == l_), patterns=[ekey(k_, l_)])
WALK = And(WK(src, 0), ForAll([k_, l_, x_], Implies(And(WK(k_, x_), PE(k_, l_)), WK(l_, x_ + wt(k_, l_))), patterns=[MultiPattern(WK(k_, x_), ei(k_, l_)), MultiPattern(WK(k_, x_), wt(k_, l_))]))
INF_TEXT = "float arithmetic is exact; float('inf') + x is infinite"


def fin(d):
    return Not(or_isnone(d))


def le(a, b):
    """a <= b for extended numbers (terms)"""
    return Or(or_isnone(b), And(fin(a), or_val(a) <= or_val(b)))


def _pot(d):
    """feasible distances are no greater than the weight of any walk"""
    return Implies(And(fin(d[src]), ForAll([k_, l_], Implies(And(PE(k_, l_), fin(d[k_])), And(fin(d[l_]), or_val(d[l_]) <= or_val(d[k_]) + wt(k_, l_))), patterns=[ei(k_, l_)])),
                   ForAll([k_, x_], Implies(WK(k_, x_), And(fin(d[k_]), or_val(d[k_]) - or_val(d[src]) <= x_)), patterns=[WK(k_, x_)]))


def _pot_obls():
    d = z3.Const('d', z3.ArraySort(K, ORS))
    hyp = And(fin(d[src]), ForAll([k_, l_], Implies(And(PE(k_, l_), fin(d[k_])), And(fin(d[l_]), or_val(d[l_]) <= or_val(d[k_]) + wt(k_, l_))), patterns=[ei(k_, l_)]))
    S = lambda k, x: And(fin(d[k]), or_val(d[k]) - or_val(d[src]) <= x)
    return [('base', [hyp], S(src, z3.RealVal(0))), ('step', [hyp, S(k_, x_), PE(k_, l_)], S(l_, x_ + wt(k_, l_)))]


potential = Lemma('feasible-distances-bound-walks', _pot, _pot_obls)     # by induction over walks


# WA(k, l, x): a walk of weight x from k to l (least relation); NEG: a negative closed walk can be reached from the source
WA = z3.Function('walk_from', K, K, RealS, BoolS)
nk, nx, ny = z3.Const('neg_vertex', K), z3.Real('neg_weight'), z3.Real('neg_dist')
y_, m_ = z3.Real('y'), z3.Const('m', K)
WALKS = And(ForAll([k_], Implies(VT(k_), WA(k_, k_, 0)), patterns=[WA(k_, k_, 0)]),
            ForAll([k_, l_, m_, x_], Implies(And(WA(k_, l_, x_), PE(l_, m_)), WA(k_, m_, x_ + wt(l_, m_))), patterns=[MultiPattern(WA(k_, l_, x_), wt(l_, m_))]))
NEGDEF = And(Implies(NEG, And(VT(nk), WK(nk, ny), WA(nk, nk, nx), nx < 0)), ForAll([k_, x_, y_], Implies(And(WK(k_, y_), WA(k_, k_, x_), x_ < 0), NEG), patterns=[MultiPattern(WK(k_, y_), WA(k_, k_, x_))]))
# a walk to k continued by a walk from k to l: by induction over the second walk
concat = Lemma('walks-concatenate', lambda k, y, l, x: Implies(And(WK(k, y), WA(k, l, x)), WK(l, y + x)),
               lambda: [('base', [WK(k_, y_)], WK(k_, y_ + 0)), ('step', [WALK, WK(k_, y_), WK(l_, y_ + x_), PE(l_, m_)], WK(m_, y_ + (x_ + wt(l_, m_))))])
IR, AI = z3.ArraySort(IntS, RealS), z3.ArraySort(IntS, IntS)


def events(EV, ED, EP, EC, n):
    """relaxations, in the order in which they happen: vertex, new distance, the relaxation that set the distance of the tail, number of edges"""
    i, j = z3.Ints('ei_ ej_')
    return And(n >= 1, EC[0] == 0, fa('e', lambda e: Implies(rng(0, e, n), And(VT(EV[e]), WK(EV[e], ED[e]), EC[e] >= 0,
                                                                               Implies(e > 0, And(0 <= EP[e], EP[e] < e, PE(EV[EP[e]], EV[e]), ED[e] == ED[EP[e]] + wt(EV[EP[e]], EV[e]), EC[e] == EC[EP[e]] + 1)))),
                                      lambda e: EV[e], lambda e: EP[e], lambda e: EC[e]),
               ForAll([i, j], Implies(And(0 <= i, i < j, j < n, EV[i] == EV[j]), ED[j] < ED[i]), patterns=[MultiPattern(EV[i], EV[j])]))


def _long(EV, ED, EP, EC, n, e, l):
    """a relaxation of l at the end of a chain of at least NV - 1 edges closes a negative walk"""
    d = ED[e] + wt(EV[e], l)
    return Implies(And(events(EV, ED, EP, EC, n), 0 <= e, e < n, EC[e] >= NV - 1, PE(EV[e], l), VT(l), fa('g', lambda g: Implies(And(rng(0, g, n), EV[g] == l), d < ED[g]), lambda g: EV[g])), NEG)


def _long_obls():
    EV, ED, EP, EC, C = z3.Const('EV', IK), z3.Const('ED', IR), z3.Const('EP', AI), z3.Const('EC', AI), z3.Const('C', AI)
    n, e, f, s, t = z3.Ints('n e f s t')
    l = z3.Const('l', K)
    d = ED[e] + wt(EV[e], l)
    hyp = [VERTICES, events(EV, ED, EP, EC, n), 0 <= e, e < n, EC[e] >= NV - 1, PE(EV[e], l), VT(l), fa('g', lambda g: Implies(And(rng(0, g, n), EV[g] == l), d < ED[g]), lambda g: EV[g])]
    ext_ = events(Store(EV, n, l), Store(ED, n, d), Store(EP, n, e), Store(EC, n, EC[e] + 1), n + 1)
    base = [VERTICES, events(EV, ED, EP, EC, n), 0 <= f, f < n, EC[f] >= NV, C[EC[f]] == f, fa('t', lambda t: Implies(And(0 < t, t <= EC[f]), C[t - 1] == EP[C[t]]), lambda t: C[t])]
    inr = lambda t: And(0 <= C[t], C[t] < n, EC[C[t]] == t)
    A1 = fa('t', lambda t: Implies(And(0 <= t, t <= EC[f]), inr(t)), lambda t: C[t])
    A2 = fa('s t', lambda s, t: Implies(And(0 <= s, s < t, t <= EC[f]), C[s] < C[t]), lambda s, t: (C[s], C[t]))
    wa = lambda s, t: WA(EV[C[s]], EV[C[t]], ED[C[t]] - ED[C[s]])
    A3 = fa('s t', lambda s, t: Implies(And(0 <= s, s <= t, t <= EC[f]), wa(s, t)), lambda s, t: (C[s], C[t]))
    f2, s1, t1 = z3.Const('f2', AI), z3.Int('s1'), z3.Int('t1')
    F2 = fa('t', lambda t: f2[t] == IX(EV[C[t]]), lambda t: f2[t])
    nodup = fa('s t', lambda s, t: Implies(And(0 <= s, s < t, t < NV + 1), f2[s] != f2[t]), lambda s, t: (f2[s], f2[t]))
    return [('extended', hyp + [WALK, WK(l, d)], ext_), ('extended-walk', hyp + [WALK, WK(EV[e], ED[e])], WK(l, d)),
            ('chain.base', base, inr(EC[f])), ('chain.step', base + [0 < t, t <= EC[f], inr(t)], inr(t - 1)),
            ('order.step', base + [A1, 0 <= s, s < t, t <= EC[f], Or(s == t - 1, C[s] < C[t - 1])], C[s] < C[t]),
            ('walk.base', base + [A1, WALKS, 0 <= s, s <= EC[f], VT(EV[C[s]])], WA(EV[C[s]], EV[C[s]], z3.RealVal(0))),
            ('walk.step', base + [A1, WALKS, 0 <= s, s < t, t <= EC[f], wa(s, t - 1), inr(t), inr(t - 1), EP[C[t]] == C[t - 1]], WA(EV[C[s]], EV[C[t]], (ED[C[t - 1]] - ED[C[s]]) + wt(EV[C[t - 1]], EV[C[t]]))),
            ('walk.step-weight', base + [A1, 0 < t, t <= EC[f], inr(t), inr(t - 1), EP[C[t]] == C[t - 1]], ED[C[t]] == ED[C[t - 1]] + wt(EV[C[t - 1]], EV[C[t]])),
            ('repeats', base + [A1, F2, graphs._ph(f2, NV + 1, NV)], Not(nodup)),
            ('closed', base + [A1, A2, F2, 0 <= s1, s1 < t1, t1 < NV + 1, f2[s1] == f2[t1]], And(EV[C[s1]] == EV[C[t1]], ED[C[t1]] < ED[C[s1]])),
            ('negative', base + [A1, A3, WALKS, NEGDEF, 0 <= s1, s1 < t1, t1 <= EC[f], EV[C[s1]] == EV[C[t1]], ED[C[t1]] < ED[C[s1]], wa(s1, t1), WK(EV[C[s1]], ED[C[s1]])], NEG)]


longchain = Lemma('long-chain-of-relaxations', _long, _long_obls)


def ext(v):
    """value -> (is infinite, number)"""
    if isinstance(v, VOpt):
        return B(v.isn), v.val
    if is_z3(v) and v.sort() == ORS:
        return or_isnone(v), or_val(v)
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return BoolVal(False), z3.RealVal(v)
    if is_z3(v) and v.sort() in (IntS, RealS):
        return BoolVal(False), z3.ToReal(v) if v.sort() == IntS else v
    return None


class _Paths(Contract):
    fields = {'name': 'key', 'value': 'real', 'source': ('ref', 'AdjacencyListGraphNode'), 'target': ('ref', 'AdjacencyListGraphNode')}
    heap_classes = {'GraphEdge', 'AdjacencyListGraphNode'}
    uses = NBS
    axioms = (VERTICES, EKEY, WALK)
    assumes = ('vertices are listed once each and neighbors(u) lists each neighbour once (C22)', 'every edge has a weight; the keys of different edges differ (finding K01)', INF_TEXT)
    DICTS = {}

    def dicthint(self, eng, st, o):
        return named(st, o, self.DICTS)

    def listhint(self, eng, st, o):
        return 'key'

    def inf_hook(self, eng, st, v):
        return VOpt(BoolVal(True), z3.RealVal(0))

    def binop_hook(self, eng, st, op, a, b, node):
        if isinstance(op, ast.Add):
            if is_z3(a) and a.sort() == K and b == '_':
                return ('%edge', a)
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '%edge' and is_z3(b) and b.sort() == K:
                return ekey(a[1], b)
            if isinstance(a, VOpt) or isinstance(b, VOpt):
                (ia, x), (ib, y) = ext(a), ext(b)
                return VOpt(z3.simplify(Or(ia, ib)), x + y)
        return NotImplemented

    def compare_hook(self, eng, st, op, a, b, node):
        if isinstance(a, VOpt) or isinstance(b, VOpt):
            p, q = ext(a), ext(b)
            if p is None or q is None:
                return NotImplemented
            if isinstance(op, (ast.Gt, ast.GtE)):
                p, q, op = q, p, {ast.Gt: ast.Lt(), ast.GtE: ast.LtE()}[type(op)]
            if isinstance(op, ast.Lt):
                return And(Not(p[0]), Or(q[0], p[1] < q[1]))
            if isinstance(op, ast.LtE):
                return Or(q[0], And(Not(p[0]), p[1] <= q[1]))
        return NotImplemented

    def graph(self, x, impl='adjacency_list'):
        vs = x.eng.new_cell(x.st, ArrRec(NV, VS, 'key'))
        ew = x.dict('edge_weights', 'key', ('ref', 'GraphEdge'))
        x['ew'] = ew
        return x.obj('AdjacencyList' if impl == 'adjacency_list' else 'AdjacencyMatrix', _impl=impl, vertices=vs, edge_weights=ew)

    def setup(self, x):
        t = '' if x.variant == 'all' else z3.Const('target', K)
        return [self.graph(x), src, t], {}

    variants = ('all', 'one')

    def edges(self, c):
        ew, h = c.o('graph').edge_weights, c.oheap
        return fk(lambda k, l: Implies(And(VT(k), VT(l)), And(ew.dom[ekey(k, l)] == PE(k, l), Implies(PE(k, l), And(ew.map[ekey(k, l)] > 0, h('value')[ew.map[ekey(k, l)]] == wt(k, l))))),
                  lambda k, l: ekey(k, l), n=2)

    def pre(self, c):
        return [('names', names(c.oheap)), ('edges', self.edges(c)), ('source', VT(src)), ('target', And(VT(c.raw('target')), c.raw('target') != z3.Const('key_', K)) if is_z3(c.raw('target')) else BoolVal(True))]

    def result(self, c):
        return ('tuple', OR if is_z3(c.raw('target')) else ('dict', 'key', OR), ('dict', 'key', ('opt', 'key')))

    def post(self, c):
        d, p = c.res_v
        if not is_z3(c.raw('target')):
            d = c.eng.rec(c.new, d)
            D = lambda k: d.map[k]
            at = fk(lambda k: d.dom[k] == VT(k), lambda k: d.dom[k])
        else:
            t = c.eng.encode(c.new, d, OR)
            D, at = None, BoolVal(True)
        S = dt(('opt', 'key'))
        if D is None:
            k = c.raw('target')
            return [('some-walk', Implies(fin(t), WK(k, or_val(t)))), ('no-shorter-walk', ForAll([x_], Implies(WK(k, x_), And(fin(t), or_val(t) <= x_)), patterns=[WK(k, x_)]))]
        p = c.eng.rec(c.new, p)
        return [('domain', at), ('some-walk', fk(lambda k: Implies(And(VT(k), fin(D(k))), WK(k, or_val(D(k)))), lambda k: D(k))),
                ('no-shorter-walk', ForAll([k_, x_], Implies(And(VT(k_), WK(k_, x_)), And(fin(D(k_)), or_val(D(k_)) <= x_)), patterns=[WK(k_, x_)])),
                ('source', or_val(D(src)) == 0),
                ('predecessors', fk(lambda k: Implies(VT(k), And(p.dom[k], Implies(k != src, S[3](p.map[k]) == or_isnone(D(k))),
                                                               Implies(Not(S[3](p.map[k])), And(PE(S[4](p.map[k]), k), fin(D(S[4](p.map[k]))), fin(D(k)), or_val(D(k)) == or_val(D(S[4](p.map[k]))) + wt(S[4](p.map[k]), k))))),
                                    lambda k: p.map[k]))]


def good(v, d, p):
    """every finite distance is the weight of a walk; predecessors are edges along which the distance can only have dropped"""
    S = dt(('opt', 'key'))
    pv = lambda k: S[4](p.map[k])
    return [('names', names(v.heap)), ('domains', fk(lambda k: And(d.dom[k] == VT(k), p.dom[k] == VT(k)), lambda k: d.dom[k], lambda k: p.dom[k])),
            ('walks', fk(lambda k: Implies(And(VT(k), fin(d.map[k])), WK(k, or_val(d.map[k]))), lambda k: d.map[k])),
            ('source', And(fin(d.map[src]), or_val(d.map[src]) <= 0)),
            ('predecessors', fk(lambda k: Implies(VT(k), And(Implies(k != src, S[3](p.map[k]) == or_isnone(d.map[k])),
                                                             Implies(Not(S[3](p.map[k])), And(PE(pv(k), k), fin(d.map[pv(k)]), fin(d.map[k]), or_val(d.map[k]) >= or_val(d.map[pv(k)]) + wt(pv(k), k))))),
                                lambda k: p.map[k]))]


@register
class BellmanFord(_Paths):
    """right distances, or ValueError exactly when a negative cycle can be reached (termination is not proved)"""
    name = G + '_bellman_ford_adjacency_list'
    axioms = (VERTICES, EKEY, WALK, WALKS, NEGDEF)
    DICTS = {'distances': ('key', OR), 'predecessor': ('key', ('opt', 'key')), 'visited': ('key', 'bool'), 'cnts': ('key', 'int')}

    def raises(self, c):
        return {'ValueError': NEG}

    def init(self, v):
        u = lambda k: And(VT(k), IX(k) < v.it)
        S = dt(('opt', 'key'))
        return [('started', fk(lambda k: And(v.distances.dom[k] == u(k), v.predecessor.dom[k] == u(k), v.visited.dom[k] == u(k), v.cnts.dom[k] == u(k)), lambda k: v.distances.dom[k], lambda k: v.predecessor.dom[k], lambda k: v.visited.dom[k], lambda k: v.cnts.dom[k], lambda k: IX(k))),
                ('values', fk(lambda k: Implies(u(k), And(or_isnone(v.distances.map[k]), S[3](v.predecessor.map[k]), Not(v.visited.map[k]), v.cnts.map[k] == 0)), lambda k: v.distances.map[k], lambda k: v.predecessor.map[k], lambda k: v.visited.map[k], lambda k: v.cnts.map[k])),
                ('names', names(v.heap))]

    def inv(self, v, inner):
        d, p, Q, m, h, P = v.distances, v.predecessor, v.g('Q'), v.g('m'), v.g('h'), v.g('P')
        first = h + 1 if inner else h
        q = v.que
        cur = Q[h]
        waits = lambda k: And(first <= P[k], P[k] < m, Q[P[k]] == k)
        relaxed = lambda k, l: And(fin(d.map[l]), or_val(d.map[l]) <= or_val(d.map[k]) + wt(k, l))
        todo = (lambda k, l: And(k == cur, ei(k, l) >= v.it)) if inner else (lambda k, l: BoolVal(False))
        # (that distances are weights of walks follows from `events` and `latest`)
        out = [g for g in good(v, d, p) if g[0] != 'walks'] + [('queue', And(0 <= h, first <= m, q.len == m - first, fa('i', lambda i: Implies(rng(0, i, q.len), And(VT(q.arr[i]), q.arr[i] == Q[first + i])), lambda i: q.arr[i]))),
                               ('other-domains', fk(lambda k: And(v.visited.dom[k] == VT(k), v.cnts.dom[k] == VT(k)), lambda k: v.visited.dom[k], lambda k: v.cnts.dom[k])),
                               ('visited-waits', fk(lambda k: Implies(And(VT(k), v.visited.map[k]), waits(k)), lambda k: v.visited.map[k], lambda k: P[k])),
                               ('relaxed', ForAll([k_, l_], Implies(And(PE(k_, l_), fin(d.map[k_]), Not(v.visited.map[k_]), Not(waits(k_)), Not(todo(k_, l_))), relaxed(k_, l_)), patterns=[ei(k_, l_)]))]
        EV, ED, EP, EC, n, LE = (v.g(x) for x in ('EV', 'ED', 'EP', 'EC', 'n', 'LE'))
        out += [('events', events(EV, ED, EP, EC, n)),
                ('latest', fk(lambda k: Implies(And(VT(k), fin(d.map[k])), And(0 <= LE[k], LE[k] < n, EV[LE[k]] == k, ED[LE[k]] == or_val(d.map[k]), EC[LE[k]] == v.cnts.map[k])), lambda k: d.map[k], lambda k: LE[k])),
                ('never-below', fa('e', lambda e: Implies(rng(0, e, n), And(fin(d.map[EV[e]]), or_val(d.map[EV[e]]) <= ED[e])), lambda e: EV[e]))]
        if inner:
            out += [('current', And(VT(cur), v.u == cur))]
        return out

    def loops(self, u):
        def pushed(v, hd):
            l = nb(v.g('Q')[v.g('h')], v.it - 1)
            ch = v.distances.map[l] != hd.distances.map[l]
            EV, ED, EP, EC, n, LE = (v.g(x) for x in ('EV', 'ED', 'EP', 'EC', 'n', 'LE'))
            out = {'EV': If(ch, Store(EV, n, l), EV), 'ED': If(ch, Store(ED, n, or_val(v.distances.map[l])), ED), 'EP': If(ch, Store(EP, n, LE[v.g('Q')[v.g('h')]]), EP),
                   'EC': If(ch, Store(EC, n, v.cnts.map[l]), EC), 'LE': If(ch, Store(LE, l, n), LE), 'n': If(ch, n + 1, n)}
            out.update(queued(v))
            return out

        def newest(v, hd):
            l, n = v.g('EV')[hd.g('n')], hd.g('n')
            return [('newest-is-smallest', Implies(v.g('n') > n, fa('e', lambda e: Implies(And(rng(0, e, n), hd.g('EV')[e] == l), v.g('ED')[n] < hd.g('ED')[e]), lambda e: hd.g('EV')[e], lambda e: v.g('EV')[e]))),
                    ('earlier-ones-stay', And(Or(v.g('n') == n, v.g('n') == n + 1), fa('e', lambda e: Implies(rng(0, e, n), And(v.g('EV')[e] == hd.g('EV')[e], v.g('ED')[e] == hd.g('ED')[e], v.g('EP')[e] == hd.g('EP')[e], v.g('EC')[e] == hd.g('EC')[e])),
                                               lambda e: v.g('EV')[e], lambda e: v.g('EP')[e], lambda e: v.g('EC')[e])))]

        def chain_(v):
            EV, ED, EP, EC, n, LE = (v.g(x) for x in ('EV', 'ED', 'EP', 'EC', 'n', 'LE'))
            return [longchain.use(EV, ED, EP, EC, n, LE[v.g('Q')[v.g('h')]], nb(v.g('Q')[v.g('h')], v.it))]

        def queued(v):
            m, q, h = v.g('m'), v.que, v.g('h')
            new = q.len > m - h - 1
            x = nb(v.g('Q')[h], v.it - 1)
            return {'Q': If(new, Store(v.g('Q'), m, x), v.g('Q')), 'P': If(new, Store(v.g('P'), x, m), v.g('P')), 'm': q.len + h + 1}
        return {1: LoopSpec(inv=self.init),
                2: LoopSpec(inv=lambda v: self.inv(v, False), ghosts=('Q', 'P', 'm', 'h', 'EV', 'ED', 'EP', 'EC', 'n', 'LE'), ghost_init=lambda v: {'EV': Store(z3.Const('EV0', IK), 0, src), 'ED': z3.K(IntS, z3.RealVal(0)), 'EP': z3.K(IntS, IntVal(-1)), 'EC': z3.K(IntS, IntVal(0)), 'n': IntVal(1), 'LE': z3.K(K, IntVal(0)), 'Q': Store(z3.Const('Q0', IK), 0, src), 'P': Store(z3.K(K, IntVal(-1)), src, IntVal(0)), 'm': IntVal(1), 'h': IntVal(0)},
                            ghost_step=lambda v: {'h': v.g('h') + 1}),
                3: LoopSpec(inv=lambda v: self.inv(v, True), ghosts=('Q', 'P', 'm', 'EV', 'ED', 'EP', 'EC', 'n', 'LE'), ghost_step=pushed, assume_head=chain_, end_lemmas=newest)}

    def lemmas_post(self, c):
        d = c.local('distances')
        return [('walks', fk(lambda k: Implies(And(VT(k), fin(d.map[k])), WK(k, or_val(d.map[k]))), lambda k: d.map[k])),
                potential.use(d.map), concat.use(nk, or_val(d.map[nk]), nk, nx)] if d is not None else []


# the priority queue of Dijkstra's algorithm: Q[k][p] says that k is queued with priority p
PQS = z3.ArraySort(K, z3.ArraySort(ORS, BoolS))
PQ_TEXT = 'PriorityQueue(implementation=binomial_heap): push adds an entry, pop removes and returns an entry of least priority, is_empty tells whether there is none (C10, C11)'
NOQ = z3.K(K, z3.K(ORS, BoolVal(False)))


class _PQ(Contract):
    verify_self = False

    def apply(self, eng, st, args, kw, node):
        eng.unit.trust(PQ_TEXT)
        return self.run(eng, st, args, kw, node)

    @staticmethod
    def set(eng, st, o, **f):
        r = st.store[o.id]
        for k, v in f.items():
            r = r.set('@' + k, v)
            eng.mod(('fld', o.id, '@' + k))
        st.store[o.id] = r


class _PQNew(_PQ):
    def run(self, eng, st, args, kw, node):
        if kw.get('implementation') != 'binomial_heap':
            raise Unsupported('priority queue implementation')
        return [(st, eng.new_cell(st, ObjRec('BinomialHeapPriorityQueue', {'@Q': NOQ, '@n': IntVal(0)})))]


class _PQPush(_PQ):
    def run(self, eng, st, args, kw, node):
        o, (k, p) = args[0], (eng.encode(st, args[1], 'key'), eng.encode(st, args[2], OR))
        f = st.store[o.id].f
        Q = fresh_const('Q', PQS)
        st.assume(Q == Store(f['@Q'], k, Store(f['@Q'][k], p, BoolVal(True))))
        self.set(eng, st, o, Q=Q, n=f['@n'] + 1)
        return [(st, None)]


class _PQPop(_PQ):
    def run(self, eng, st, args, kw, node):
        o = args[0]
        f = st.store[o.id].f
        Q0, Q = f['@Q'], fresh_const('Q', PQS)
        k, p = fresh_const('top', K), fresh_const('prio', ORS)
        kk, pp = z3.Const('kk', K), z3.Const('pp', ORS)
        eng.safe('pop-empty', st, f['@n'] > 0, node)
        st.assume(And(Q0[k][p], ForAll([kk, pp], Implies(Q0[kk][pp], le(p, pp)), patterns=[Q0[kk][pp]])))
        st.assume(ForAll([kk, pp], And(Implies(Q[kk][pp], Q0[kk][pp]), Implies(And(Q0[kk][pp], Or(kk != k, pp != p)), Q[kk][pp])), patterns=[Q0[kk][pp], Q[kk][pp]]))
        st.assume(Implies(f['@n'] == 1, ForAll([kk, pp], Not(Q[kk][pp]), patterns=[Q[kk][pp]])))
        st.frames[st.fid]['@g_prio'] = p
        self.set(eng, st, o, Q=Q, n=f['@n'] - 1)
        return [(st, k)]


class _PQEmpty(_PQ):
    def run(self, eng, st, args, kw, node):
        f = st.store[args[0].id].f
        kk, pp = z3.Const('kk', K), z3.Const('pp', ORS)
        st.assume(And(f['@n'] >= 0, Implies(f['@n'] == 0, ForAll([kk, pp], Not(f['@Q'][kk][pp]), patterns=[f['@Q'][kk][pp]]))))
        return [(st, f['@n'] == 0)]


PQM = 'miscellaneous_data_structures.queue:'
for key, name, base in (('Abs_PQ_new', 'PriorityQueue.__new__', _PQNew), ('Abs_PQ_push', 'BinomialHeapPriorityQueue.push', _PQPush),
                        ('Abs_PQ_pop', 'BinomialHeapPriorityQueue.pop', _PQPop), ('Abs_PQ_empty', 'BinomialHeapPriorityQueue.is_empty', _PQEmpty)):
    register(type(key, (base,), dict(name=PQM + name, key=key)))
PQC = ('Abs_PQ_new', 'Abs_PQ_push', 'Abs_PQ_pop', 'Abs_PQ_empty')


@register
class Dijkstra(_Paths):
    name = G + '_dijkstra_adjacency_list'
    uses = PQC
    DICTS = {'dist': ('key', OR), 'pred': ('key', ('opt', 'key')), 'visited': ('key', 'bool')}

    def setup(self, x):
        x.assume(ForAll([k_, l_], Implies(PE(k_, l_), wt(k_, l_) >= 0), patterns=[wt(k_, l_)]))
        return super().setup(x)

    def pre(self, c):
        return super().pre(c) + [('non-negative', ForAll([k_, l_], Implies(PE(k_, l_), wt(k_, l_) >= 0), patterns=[wt(k_, l_)]))]

    def init(self, v):
        u = lambda k: And(VT(k), IX(k) < v.it)
        S = dt(('opt', 'key'))
        return [('started', fk(lambda k: And(v.dist.dom[k] == And(u(k), k != src), v.pred.dom[k] == u(k), v.visited.dom[k] == u(k)), lambda k: v.dist.dom[k], lambda k: v.pred.dom[k], lambda k: v.visited.dom[k], lambda k: IX(k))),
                ('values', fk(lambda k: Implies(u(k), And(Implies(k != src, or_isnone(v.dist.map[k])), S[3](v.pred.map[k]), Not(v.visited.map[k]))), lambda k: v.dist.map[k], lambda k: v.pred.map[k], lambda k: v.visited.map[k])),
                ('names', names(v.heap))]

    def entries(self, v):
        """entries are never below the distance of their vertex"""
        Q, d = v.pq.g_Q, v.dist
        kk, pp = z3.Const('kk', K), z3.Const('pp', ORS)
        return [('entries', ForAll([kk, pp], Implies(Q[kk][pp], And(VT(kk), le(d.map[kk], pp))), patterns=[Q[kk][pp]])), ('count', v.pq.g_n >= 0)]

    def fill(self, v):
        Q, d = v.pq.g_Q, v.dist
        ix = v.enum(2)[1]
        return good(v, d, v.pred) + self.entries(v) + [('queued', fk(lambda k: Implies(And(VT(k), ix(k) < v.it), Q[k][d.map[k]]), lambda k: Q[k], lambda k: ix(k)))]

    def inv(self, v, inner):
        Q, d, vis, p = v.pq.g_Q, v.dist, v.visited, v.pred
        kk, pp = z3.Const('kk', K), z3.Const('pp', ORS)
        S = dt(('opt', 'key'))
        pv = lambda k: S[4](p.map[k])
        done = (lambda k, l: Or(k != v.u, IX(l) < v.it)) if inner else (lambda k, l: BoolVal(True))
        out = good(v, d, p) + self.entries(v) + \
            [('visited-domain', fk(lambda k: vis.dom[k] == VT(k), lambda k: vis.dom[k])),
             ('others-queued', fk(lambda k: Implies(And(VT(k), Not(vis.map[k])), Q[k][d.map[k]]), lambda k: vis.map[k], lambda k: Q[k])),
             ('visited-are-nearest', ForAll([l_, kk, pp], Implies(And(VT(l_), vis.map[l_], Q[kk][pp]), le(d.map[l_], pp)), patterns=[MultiPattern(vis.map[l_], Q[kk][pp])])),
             ('relaxed', ForAll([k_, l_], Implies(And(PE(k_, l_), vis.map[k_], fin(d.map[k_]), done(k_, l_)), And(fin(d.map[l_]), or_val(d.map[l_]) <= or_val(d.map[k_]) + wt(k_, l_))), patterns=[ei(k_, l_)])),
             ('exact', fk(lambda k: Implies(And(VT(k), Not(S[3](p.map[k]))), And(vis.map[pv(k)], or_val(d.map[k]) == or_val(d.map[pv(k)]) + wt(pv(k), k))), lambda k: p.map[k]))]
        if inner:
            out += [('current', And(VT(v.u), vis.map[v.u])), ('nearest', fk(lambda k: Implies(And(VT(k), vis.map[k]), le(d.map[k], d.map[v.u])), lambda k: vis.map[k])),
                    ('visited-count', self.count(v, 1))]
        else:
            out += [('visited-count', self.count(v, 0))]
        return out

    def count(self, v, extra):
        """the visited vertices, in the order of their visits"""
        Q, P, m, vis = v.g('VQ'), v.g('VP'), v.g('m'), v.visited
        if extra:
            return And(m >= 0, fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j, vis.map[Q[j]], Q[j] != v.u)), lambda j: Q[j]),
                       fk(lambda k: Implies(And(VT(k), vis.map[k], k != v.u), And(0 <= P[k], P[k] < m, Q[P[k]] == k)), lambda k: vis.map[k]))
        return And(m >= 0, fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j, vis.map[Q[j]])), lambda j: Q[j]),
                   fk(lambda k: Implies(And(VT(k), vis.map[k]), And(0 <= P[k], P[k] < m, Q[P[k]] == k)), lambda k: vis.map[k]))

    def loops(self, u):
        def step(v, h):
            # the path that skips an already visited vertex visits nothing
            new = Not(h.visited.map[v.u])
            m = h.g('m')
            return {'VQ': If(new, Store(h.g('VQ'), m, v.u), h.g('VQ')), 'VP': If(new, Store(h.g('VP'), v.u, m), h.g('VP')), 'm': If(new, m + 1, m)}
        return {1: LoopSpec(inv=self.init), 2: LoopSpec(inv=self.fill),
                3: LoopSpec(inv=lambda v: self.inv(v, False), ghosts=('VQ', 'VP', 'm'), ghost_init=lambda v: {'VQ': z3.Const('VQ0', IK), 'VP': z3.K(K, IntVal(-1)), 'm': IntVal(0)}, ghost_step=step,
                            assume_head=lambda v: [pigeon.use(v.g('VQ'), v.g('VP'), v.g('m'))], variant=lambda v: (NV - v.g('m'), v.pq.g_n)),
                4: LoopSpec(inv=lambda v: self.inv(v, True), ghosts=())}

    lemmas_post = lambda self, c: [potential.use(c.local('dist').map)] if c.local('dist') is not None else []


@register
class ShortestPaths(_Paths):
    """the dispatcher, for both algorithms and representations"""
    name = G + 'shortest_paths'
    uses = ('BellmanFord', 'Dijkstra')
    axioms = BellmanFord.axioms
    variants = ('bellman_ford/all', 'bellman_ford/one', 'dijkstra/all', 'dijkstra/one')

    def setup(self, x):
        alg, t = x.variant.split('/')
        if alg == 'dijkstra':
            x.assume(ForAll([k_, l_], Implies(PE(k_, l_), wt(k_, l_) >= 0), patterns=[wt(k_, l_)]))
        return [self.graph(x), alg, src] + ([] if t == 'all' else [z3.Const('target', K)]), {}

    def raises(self, c):
        return {'ValueError': NEG} if c.raw('algorithm') == 'bellman_ford' else {}


DK = ('dict', 'key', OR)
DKS, dk_mk, dk_dom, dk_map = dt(DK)[:4]
DMS = z3.ArraySort(K, DKS)
NEXT = ('dict', 'key', ('opt', 'key'))
j_ = z3.Const('j', K)
# every closed walk has a non-negative weight
NONEG = ForAll([k_, x_], Implies(WA(k_, k_, x_), x_ >= 0), patterns=[WA(k_, k_, x_)])
WALL = And(WALKS, NONEG)
concat2 = Lemma('walks-compose', lambda: ForAll([k_, l_, m_, x_, y_], Implies(And(WA(k_, l_, x_), WA(l_, m_, y_)), WA(k_, m_, x_ + y_)), patterns=[MultiPattern(WA(k_, l_, x_), WA(l_, m_, y_))]),
                lambda: [('base', [WA(k_, l_, x_)], WA(k_, l_, x_ + 0)), ('step', [WALKS, WA(k_, l_, x_), WA(k_, m_, x_ + y_), PE(m_, j_)], WA(k_, j_, x_ + (y_ + wt(m_, j_))))])

concat2.stmt = concat2.inst()


def F(m, i, j):
    """there is an entry for (i, j)"""
    return dk_dom(m[i])[j]


def V(m, i, j):
    return or_val(dk_map(m[i])[j])


def _apsp(m):
    """distances that satisfy the triangle inequality are no greater than the weight of any walk"""
    return Implies(And(*tri_hyp(m)), ForAll([k_, l_, x_], Implies(WA(k_, l_, x_), And(F(m, k_, l_), V(m, k_, l_) <= x_)), patterns=[WA(k_, l_, x_)]))


def tri_hyp(m):
    return [fk(lambda k: Implies(VT(k), And(F(m, k, k), V(m, k, k) == 0)), lambda k: m[k]), fk(lambda k, l: Implies(PE(k, l), And(F(m, k, l), V(m, k, l) <= wt(k, l))), lambda k, l: ei(k, l), n=2),
            ForAll([k_, l_, m_], Implies(And(VT(k_), VT(l_), VT(m_), F(m, k_, l_), F(m, l_, m_)), And(F(m, k_, m_), V(m, k_, m_) <= V(m, k_, l_) + V(m, l_, m_))), patterns=[MultiPattern(F(m, k_, l_), F(m, l_, m_))])]


def _apsp_obls():
    m = z3.Const('D', DMS)
    S = lambda k, l, x: And(F(m, k, l), V(m, k, l) <= x)
    return [('base', tri_hyp(m) + [VT(k_)], S(k_, k_, 0)), ('step', tri_hyp(m) + [VERTICES, VT(k_), VT(l_), S(k_, l_, x_), PE(l_, m_), VT(m_)], S(k_, m_, x_ + wt(l_, m_)))]


apsp = Lemma('triangle-inequality-bounds-walks', _apsp, _apsp_obls)


loops_nonneg = Lemma('loops-are-not-negative', lambda: fk(lambda k: Implies(And(VT(k), PE(k, k)), wt(k, k) >= 0), lambda k: ei(k, k)),
                     lambda: chain('loop', [WALKS, NONEG, VT(k_), PE(k_, k_)], WA(k_, k_, 0), WA(k_, k_, 0 + wt(k_, k_)), wt(k_, k_) >= 0))


def best(D, k, did, i, j):
    x, y = V(D, i, j), V(D, i, k) + V(D, k, j)
    thru = And(did, F(D, i, k), F(D, k, j))
    return If(And(thru, Or(Not(F(D, i, j)), y < x)), y, x)


def tri(m, i, j, l):
    return Implies(And(F(m, i, j), F(m, j, l)), And(F(m, i, l), V(m, i, l) <= V(m, i, j) + V(m, j, l)))


def tris(m, t):
    return ForAll([k_, l_, m_], Implies(And(VT(k_), VT(l_), VT(m_), IX(l_) < t), tri(m, k_, l_, m_)), patterns=[MultiPattern(F(m, k_, l_), F(m, l_, m_))])


def phase_done(m, D, k):
    return [VT(k), F(D, k, k), V(D, k, k) == 0,
            fk(lambda i, j: Implies(And(VT(i), VT(j)), And(F(m, i, j) == Or(F(D, i, j), And(F(D, i, k), F(D, k, j))), Implies(F(m, i, j), V(m, i, j) == best(D, k, BoolVal(True), i, j)))), lambda i, j: F(m, i, j), lambda i, j: dk_map(m[i])[j], n=2)]


def _step_obls():
    m, D, k, t = z3.Const('M', DMS), z3.Const('D', DMS), z3.Const('kk', K), z3.Int('t')
    i, j, l = z3.Const('i', K), z3.Const('j', K), z3.Const('l', K)
    h = [VERTICES, IX(k) == t, tris(D, t), VT(i), VT(j), VT(l), IX(j) <= t] + phase_done(m, D, k)
    ins = [tri(D, a, j, b) for a in (i, k) for b in (l, k)]
    upd = lambda a, b: And(F(m, a, b) == Or(F(D, a, b), And(F(D, a, k), F(D, k, b))), Implies(F(m, a, b), V(m, a, b) == best(D, k, BoolVal(True), a, b)))
    ups = [upd(a, b) for a, b in ((i, j), (j, l), (i, l))]
    base = [F(D, k, k), V(D, k, k) == 0]
    return [('same', h + [IX(j) == t], j == k), ('at-k', base + ups + [j == k], tri(m, i, j, l)), ('instances', h + [IX(j) < t], And(*ins)), ('updates', h, And(*ups)), ('before-k', base + ups + ins, tri(m, i, j, l))]


floyd_step = Lemma('floyd-warshall-phase', lambda m, D, k, t: Implies(And(IX(k) == t, tris(D, t), *phase_done(m, D, k)), tris(m, t + 1)), _step_obls)


@register
class FloydWarshall(_Paths):
    """the distances of all pairs, when no negative cycle exists"""
    name = G + '_floyd_warshall_adjacency_list'
    variants = ('all',)
    uses = ()
    axioms = (VERTICES, EKEY, WALKS, NONEG, ForAll([k_, l_], Not(VT(ekey(k_, l_))), patterns=[ekey(k_, l_)]))
    assumes = _Paths.assumes + ('no vertex is named like the key of an edge (finding K01)', 'no negative cycle exists')
    prune = ('get',)
    lemmas = (concat2,)
    DICTS = {'dist': ('key', DK), 'next_vertex': ('key', NEXT)}

    def setup(self, x):
        return [self.graph(x)], {}

    def dicthint(self, eng, st, o):
        return super().dicthint(eng, st, o)

    def pre(self, c):
        ew, h = c.o('graph').edge_weights, c.oheap
        s, t, nm, e_ = h('source'), h('target'), h('name'), z3.Const('e', K)
        return [('names', names(h)), ('edges', self.edges(c)),
                ('edge-keys', ForAll([e_], Implies(ew.dom[e_], And(VT(esrc(e_)), VT(edst(e_)), PE(esrc(e_), edst(e_)), e_ == ekey(esrc(e_), edst(e_)), s[ew.map[e_]] > 0, t[ew.map[e_]] > 0, nm[s[ew.map[e_]]] == esrc(e_), nm[t[ew.map[e_]]] == edst(e_))), patterns=[ew.dom[e_]]))]

    def result(self, c):
        return ('tuple', ('dict', 'key', DK), ('dict', 'key', NEXT))

    def post(self, c):
        d = c.eng.rec(c.new, c.res_v[0])
        m = d.map
        return [('domain', fk(lambda k: d.dom[k] == VT(k), lambda k: d.dom[k])),
                ('some-walk', fk(lambda k, l: Implies(And(VT(k), VT(l), F(m, k, l)), WA(k, l, V(m, k, l))), lambda k, l: F(m, k, l), n=2)),
                ('no-shorter-walk', ForAll([k_, l_, x_], Implies(And(VT(k_), WA(k_, l_, x_)), And(F(m, k_, l_), V(m, k_, l_) <= x_)), patterns=[WA(k_, l_, x_)]))]

    def start(self, v, edges=None):
        u = lambda k: And(VT(k), IX(k) < v.it)
        d, n = v.dist, v.next_vertex
        return [('started', fk(lambda k: And(d.dom[k] == u(k), n.dom[k] == u(k)), lambda k: d.dom[k], lambda k: n.dom[k])),
                ('empty', fk(lambda k, l: Implies(u(k), Not(F(d.map, k, l))), lambda k, l: F(d.map, k, l), n=2))]

    def edges_in(self, v):
        d, n = v.dist, v.next_vertex
        ix = v.enum(2)[1]
        ew = v.graph.edge_weights
        return [('domains', fk(lambda k: And(d.dom[k] == VT(k), n.dom[k] == VT(k)), lambda k: d.dom[k], lambda k: n.dom[k])),
                ('entries', fk(lambda k, l: Implies(VT(k), And(F(d.map, k, l) == And(VT(l), PE(k, l), ix(ekey(k, l)) < v.it), Implies(F(d.map, k, l), And(fin(dk_map(d.map[k])[l]), V(d.map, k, l) == wt(k, l))))), lambda k, l: F(d.map, k, l), lambda k, l: dk_map(d.map[k])[l], n=2))]

    def selfs(self, v):
        d, n = v.dist, v.next_vertex
        m, u = d.map, lambda k: And(VT(k), IX(k) < v.it)
        S = dt(DK)
        return [('domains', fk(lambda k: And(d.dom[k] == VT(k), n.dom[k] == VT(k)), lambda k: d.dom[k], lambda k: n.dom[k])),
                ('entries', fk(lambda k, l: Implies(VT(k), And(F(m, k, l) == And(VT(l), Or(PE(k, l), And(k == l, u(k)))), Implies(F(m, k, l), And(fin(dk_map(m[k])[l]), V(m, k, l) == If(And(k == l, u(k)), 0, wt(k, l)))))), lambda k, l: F(m, k, l), lambda k, l: dk_map(m[k])[l], n=2))]

    def base(self, v):
        """what every phase keeps"""
        d, n = v.dist, v.next_vertex
        m = d.map
        return [('domains', fk(lambda k: And(d.dom[k] == VT(k), n.dom[k] == VT(k)), lambda k: d.dom[k], lambda k: n.dom[k])),
                ('walks', fk(lambda k, l: Implies(And(VT(k), F(m, k, l)), And(VT(l), fin(dk_map(m[k])[l]), WA(k, l, V(m, k, l)))), lambda k, l: F(m, k, l), lambda k, l: dk_map(m[k])[l], n=2)),
                ('selfs', fk(lambda k: Implies(VT(k), And(F(m, k, k), V(m, k, k) == 0)), lambda k: m[k])),
                ('edges', fk(lambda k, l: Implies(PE(k, l), And(F(m, k, l), V(m, k, l) <= wt(k, l))), lambda k, l: ei(k, l), n=2))]

    def phases(self, v):
        m = v.dist.map
        return self.base(v) + [('triangle', tris(m, v.it))]

    def phase(self, v, inner):
        m, D, k = v.dist.map, v.g('D'), v.k
        did = (lambda i, j: Or(IX(i) < v.iter(5), And(i == v.i, IX(j) < v.it))) if inner else (lambda i, j: IX(i) < v.it)
        return self.base(v) + [('current', And(VT(k), VT(v.i)) if inner else VT(k)),
                               ('updated', fk(lambda i, j: Implies(And(VT(i), VT(j)), And(F(m, i, j) == Or(F(D, i, j), And(did(i, j), F(D, i, k), F(D, k, j))),
                                                                                          Implies(F(m, i, j), V(m, i, j) == best(D, k, did(i, j), i, j)))),
                                              lambda i, j: F(m, i, j), lambda i, j: dk_map(m[i])[j], n=2))]

    def loops(self, u):
        return {1: LoopSpec(inv=self.start), 2: LoopSpec(inv=self.edges_in), 3: LoopSpec(inv=self.selfs),
                4: LoopSpec(inv=self.phases, init_lemmas=lambda v: [loops_nonneg.use()], end_lemmas=lambda v, h: [('start', v.g('D') == h.dist.map), ('which', IX(v.k) == h.it)] + [('phase%d' % n, f) for n, f in enumerate(phase_done(v.dist.map, h.dist.map, v.k))] + [ floyd_step.use(v.dist.map, h.dist.map, v.k, h.it)]),
                5: LoopSpec(inv=lambda v: self.phase(v, False), ghosts=(), ghost_init=lambda v: {'D': v.dist.map}), 6: LoopSpec(inv=lambda v: self.phase(v, True), ghosts=())}

    lemmas_post = lambda self, c: [apsp.use(c.local('dist').map)]


@register
class AllPairs(FloydWarshall):
    """the dispatcher (Floyd-Warshall)"""
    name = G + 'all_pair_shortest_paths'
    uses = ('FloydWarshall',)
    loops = {}

    def setup(self, x):
        return [self.graph(x), 'floyd_warshall'], {}

    def lemmas_post(self, c):
        return []
