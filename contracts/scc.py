"""Strongly connected components after Kosaraju (C25) over the abstract graph of graphs.py.  RE: reachability, the least reflexive
relation closed under edges.  Two vertices belong to one component when each reaches the other."""
from .common import *
from pyvc.values import dt, SetRec
from .graphs import G, nb, deg, VT, IX, NV, nodeof, SetK, IK, KI, fk, NBS, names, named, pigeon
from .topo import VS, ei, PE, VERTICES
from . import register

KK = z3.ArraySort(K, K)
KKI = z3.ArraySort(K, KI)
RE = z3.Function('RE', K, K, BoolS)
a_, b_, c_ = z3.Consts('a b c', K)
pick = z3.Function('pick', SetK, K)
REACHES = lambda: And(fk(lambda k: RE(k, k), lambda k: VT(k)),
              fki(lambda k, i: Implies(And(VT(k), 0 <= i, i < deg(k)), RE(k, nb(k, i))), lambda k, i: nb(k, i)),
              ForAll([a_, b_, c_], Implies(And(RE(a_, b_), RE(b_, c_)), RE(a_, c_)), patterns=[MultiPattern(RE(a_, b_), RE(b_, c_))]),
              ForAll([a_, b_], Implies(RE(a_, b_), And(VT(a_), VT(b_))), patterns=[RE(a_, b_)]))
LEAST = 'reachability is the least reflexive relation closed under edges (induction along paths, forwards and backwards)'


def fki(f, *pats):
    k, i = z3.Const(fresh_name('k'), K), z3.Int(fresh_name('i'))
    return ForAll([k, i], f(k, i), patterns=[MultiPattern(*p(k, i)) if isinstance(p(k, i), tuple) else p(k, i) for p in pats])


def same(a, b):
    return And(RE(a, b), RE(b, a))


def forward(a, S):
    """a set that holds a and, with a vertex, its neighbours, holds all that a reaches"""
    return ('induction-forward', Implies(And(S[a], fki(lambda k, i: Implies(And(S[k], VT(k), 0 <= i, i < deg(k)), S[nb(k, i)]), lambda k, i: nb(k, i))),
                                         fk(lambda k: Implies(RE(a, k), S[k]), lambda k: RE(a, k))), 'def')


def backward(b, S):
    return ('induction-backward', Implies(And(S[b], fki(lambda k, i: Implies(And(S[nb(k, i)], VT(k), 0 <= i, i < deg(k)), S[k]), lambda k, i: nb(k, i))),
                                          fk(lambda k: Implies(RE(k, b), S[k]), lambda k: RE(k, b))), 'def')


class _SCC(Contract):
    fields = {'name': 'key'}
    uses = NBS
    axioms = (VERTICES, REACHES())
    assumes = ('vertices are listed once each and neighbors(u) lists each neighbour once (C22)', LEAST)
    DICTS = {'visited': ('key', 'bool'), 'incoming': ('key', ('list', 'key')), 'assigned': ('key', 'bool')}

    def dicthint(self, eng, st, o):
        return named(st, o, self.DICTS)

    def listhint(self, eng, st, o):
        return named(st, o, {'components': ('set', 'key')}) or 'key'

    def sethint(self, eng, st, o):
        return 'key'

    def graph(self, x):
        vs = x.eng.new_cell(x.st, ArrRec(NV, VS, 'key'))
        return x.obj('AdjacencyList', _impl='adjacency_list', vertices=vs, **{'@F': z3.Const('F', KI), '@Z': z3.Const('Z', KK), '@J': z3.Const('J', KKI)})


def fin(L, F):
    return lambda k: And(0 <= F[k], F[k] < L.len, L.arr[F[k]] == k)


def listed(L, F):
    return [('finished-list', And(L.len >= 0, fa('j', lambda j: Implies(rng(0, j, L.len), And(VT(L.arr[j]), F[L.arr[j]] == j)), lambda j: L.arr[j])))]


def incomings(inc, J, seen):
    """incoming[n] lists the predecessors of n whose edge to n was seen"""
    it = lambda n: inc.map[n]
    return [('incoming-dom', fk(lambda n: Implies(inc.dom[n], ln(inc, n) >= 0), lambda n: inc.dom[n])),
            ('incoming-all', fki(lambda k, i: Implies(And(VT(k), 0 <= i, i < deg(k), seen(k, i)), And(inc.dom[nb(k, i)], 0 <= J[nb(k, i)][k], J[nb(k, i)][k] < ln(inc, nb(k, i)), ar(inc, nb(k, i))[J[nb(k, i)][k]] == k)), lambda k, i: nb(k, i))),
            ('incoming-only', fki(lambda n, j: Implies(And(inc.dom[n], 0 <= j, j < ln(inc, n)), PE(ar(inc, n)[j], n)), lambda n, j: ar(inc, n)[j]))]


LK = dt(('list', 'key'))


def ln(inc, n):
    return LK[2](inc.map[n])


def ar(inc, n):
    return LK[3](inc.map[n])


def between(vis, inc, L, F, Z, J):
    """between two searches: every visited vertex is finished and reaches only finished ones"""
    f = fin(L, F)
    return listed(L, F) + [
        ('visited-finished', fk(lambda k: And(vis.dom[k] == f(k), Implies(vis.dom[k], And(vis.map[k], VT(k)))), lambda k: vis.dom[k], lambda k: F[k])),
        ('closed', fki(lambda k, i: Implies(And(vis.dom[k], 0 <= i, i < deg(k)), vis.dom[nb(k, i)]), lambda k, i: nb(k, i))),
        ('last-of-component', fk(lambda k: Implies(vis.dom[k], And(same(k, Z[k]), f(Z[k]))), lambda k: vis.dom[k], lambda k: Z[k])),
        ('finished-before', ForAll([a_, b_], Implies(And(vis.dom[a_], RE(a_, b_)), And(vis.dom[b_], F[b_] <= F[Z[a_]])), patterns=[RE(a_, b_)]))] + \
        incomings(inc, J, lambda k, i: vis.dom[k])


@register
class Kos_visit(_SCC):
    name = G + '_visit'

    def setup(self, x):
        D = lambda n, k: x.dict(n, *self.DICTS[n])
        x['vertex0'] = z3.Const('vertex', K)
        return [self.graph(x), z3.Const('vertex', K), D('visited', 0), D('incoming', 0), x.list('L', 'key')], {}

    def bd(self, c, which):
        g = (c.o if which == 'o' else c.n)
        G_ = g('graph')
        return g('visited'), g('incoming'), g('L'), G_.g_F, G_.g_Z, G_.g_J

    def pre(self, c):
        return [('vertex', And(VT(ek(c.params['vertex'])), Not(c.o('visited').dom[ek(c.params['vertex'])]))), ('names', names(c.oheap))] + between(*self.bd(c, 'o'))

    def modifies(self, c):
        p = c.params
        return [('dict', p['visited']), ('dict', p['incoming']), ('list', p['L'], 'both')] + [('fld', p['graph'], '@' + g, 'ghost') for g in 'FZJ']

    def result(self, c):
        return 'none'

    def ghosts_post(self, c):
        if c.calling:
            return [(c.params['graph'], '@' + g, fresh_const(g, s)) for g, s in (('F', KI), ('Z', KK), ('J', KKI))]
        return [(c.params['graph'], '@' + g, c.local('@g_' + g)) for g in 'FZJ']

    def post(self, c):
        v0 = c.o('visited')
        L0, L1 = c.o('L'), c.n('L')
        return between(*self.bd(c, 'n')) + [('grown', fk(lambda k: Implies(v0.dom[k], c.n('visited').dom[k]), lambda k: v0.dom[k])), ('visited', c.n('visited').dom[ek(c.params['vertex'])]),
                                            ('names', names(c.nheap))]

    # -- invariants
    def inv(self, v, inner):
        s, vis, inc, L = v.stack, v.visited, v.incoming, v.L
        F, Z, J, PO, PP, Q, P, m = [v.g(x) for x in ('F', 'Z', 'J', 'PO', 'PP', 'Q', 'P', 'm')]
        f = fin(L, F)
        L0 = v.old.L
        op = lambda k: And(0 <= PO[k], PO[k] < s.len, s.arr[PO[k]] == k)
        top, it = (v.top, v.it) if inner else (None, None)
        istop = (lambda k: k == top) if inner else (lambda k: BoolVal(False))
        newfin = lambda k: v.finished.dom[k]
        out = [('names', names(v.heap))] + listed(L, F)
        out += [('visited', fk(lambda k: And(vis.dom[k] == Or(f(k), op(k)), Not(And(f(k), op(k))), Implies(vis.dom[k], And(vis.map[k], VT(k)))), lambda k: vis.dom[k], lambda k: F[k], lambda k: PO[k])),
                ('closed-places', fk(lambda k: Or(PO[k] == -1, op(k)), lambda k: PO[k])),
                ('longer', L.len >= L0.len), ('finished-now', fk(lambda k: newfin(k) == And(f(k), F[k] >= L0.len), lambda k: newfin(k), lambda k: F[k])),
                ('stack', And(s.len >= 0, fa('j', lambda j: Implies(rng(0, j, s.len), And(VT(s.arr[j]), Implies(f(s.arr[j]), newfin(s.arr[j])), Implies(op(s.arr[j]), PO[s.arr[j]] >= j))), lambda j: s.arr[j]))),
                ('open-reach', fki(lambda k, j: Implies(And(op(k), PO[k] <= j, j < s.len), RE(k, s.arr[j])), lambda k, j: (PO[k], s.arr[j]))),
                ('neighbours-of-finished', fki(lambda k, i: Implies(And(f(k), 0 <= i, i < deg(k)), vis.dom[nb(k, i)]), lambda k, i: nb(k, i))),
                ('neighbours-of-open', fki(lambda k, i: Implies(And(op(k), 0 <= i, i < deg(k), Implies(istop(k), i < (it if inner else 0))), Or(vis.dom[nb(k, i)], And(PO[k] < PP[nb(k, i)], PP[nb(k, i)] < s.len, s.arr[PP[nb(k, i)]] == nb(k, i)))), lambda k, i: nb(k, i))),
                ('component', fk(lambda k: Implies(f(k), And(same(k, Z[k]), Or(op(Z[k]), f(Z[k])))), lambda k: Z[k])),
                ('complete', ForAll([a_, b_], Implies(And(f(a_), f(Z[a_]), RE(a_, b_)), And(f(b_), F[b_] <= F[Z[a_]])), patterns=[RE(a_, b_)])),
                ('discovered', And(m >= 0, fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j, vis.dom[Q[j]])), lambda j: Q[j]))),
                ('grown', fk(lambda k: Implies(v.old.visited.dom[k], vis.dom[k]), lambda k: vis.dom[k]))]
        vx = ek(v.c['vertex0'])
        out += [('start', Or(vis.dom[vx], And(s.len == 1, s.arr[0] == vx)))]
        out += incomings(inc, J, lambda k, i: And(vis.dom[k], Implies(istop(k), i < (it if inner else 0))))
        if inner:
            m0 = v.g('m0')
            out += [('top', And(m0 >= 1, m0 <= s.len, s.arr[m0 - 1] == top, op(top), PO[top] == m0 - 1)),
                    ('pushed', fa('j', lambda j: Implies(And(m0 <= j, j < s.len), Not(vis.dom[s.arr[j]])), lambda j: s.arr[j]))]
        return out

    def loops(self, u):
        def step(v, h):
            y, PO, Z = v.top, v.g('PO'), v.g('Z')
            done = v.L.len > h.L.len
            s = v.stack
            op = lambda k: And(0 <= PO[k], PO[k] <= s.len, s.arr[PO[k]] == k)
            OS = v.define('OS', lambda k: And(op(k), k != y, RE(y, k)), K)
            z0 = pick(OS)
            F = v.g('F')
            return {'PO': v.define('PO1', lambda k: If(And(done, k == y), -1, PO[k]), K), 'F': v.define('F1', lambda k: If(And(done, k == y), h.L.len, F[k]), K),
                    'Z': v.define('Z1', lambda k: If(And(done, Or(k == y, Z[k] == y)), If(OS[z0], z0, y), Z[k]), K), 'OS': OS}

        def ends(v, h):
            y, OS, F, L = v.top, v.g('OS'), h.g('F'), h.L
            S = fresh_const('S', SetK)
            f = fin(L, F)
            done = v.L.len > L.len
            return [('choice', fk(lambda k: Implies(OS[k], OS[pick(OS)]), lambda k: OS[k], lambda k: RE(y, k)), 'def'),
                    ('definition', fk(lambda k: S[k] == And(RE(y, k), Or(f(k), k == y)), lambda k: S[k], lambda k: RE(y, k)), 'def'),
                    ('edges-stay', Implies(And(done, Not(OS[pick(OS)])), fki(lambda k, i: Implies(And(S[k], VT(k), 0 <= i, i < deg(k)), S[nb(k, i)]), lambda k, i: nb(k, i)))),
                    forward(y, S),
                    ('reach-of-the-finished', Implies(And(done, Not(OS[pick(OS)])), fk(lambda k: Implies(RE(y, k), Or(f(k), k == y)), lambda k: RE(y, k)))),
                    ('through-the-finished', Implies(And(done, Not(OS[pick(OS)])), ForAll([a_, b_], Implies(And(f(a_), h.g('Z')[a_] == y, RE(a_, b_)), Or(f(b_), b_ == y)), patterns=[RE(a_, b_)])))]

        def step2(v, h):
            n, PP, J, more = NAME(v), v.g('PP'), v.g('J'), v.stack.len > h.stack.len
            return {'PP': v.define('PP1', lambda k: If(And(more, k == n), v.stack.len - 1, PP[k]), K), 'J': Store(J, n, Store(J[n], v.top, ln(v.incoming, n) - 1))}
        NAME = lambda v: v.heap('name')[v.P(v.raw('node')).t]
        K0 = z3.K(K, IntVal(-1))
        return {1: LoopSpec(inv=lambda v: self.inv(v, False),
                            ghost_init=lambda v: dict({g: getattr(v.old.graph, 'g_' + g) for g in 'FZJ'}, PO=K0, PP=K0, Q=z3.Const('Q0', IK), P=z3.Const('P0', KI), m=IntVal(0), OS=z3.K(K, BoolVal(False))),
                            ghost_step=step, end_lemmas=ends, assume_head=lambda v: [pigeon.use(v.g('Q'), v.g('P'), v.g('m'))],
                            variant=lambda v: (NV - v.g('m'), v.stack.len)),
                2: LoopSpec(inv=lambda v: self.inv(v, True), ghosts=('PP', 'J'),
                            ghost_init=lambda v: {'m0': v.stack.len, 'PO': Store(v.g('PO'), v.top, v.stack.len - 1), 'Q': Store(v.g('Q'), v.g('m'), v.top), 'P': Store(v.g('P'), v.top, v.g('m')), 'm': v.g('m') + 1},
                            ghost_step=step2)}


def ek(v):
    return v


def assigned_inv(A, comps, CI):
    """the assigned vertices are split into the components found so far"""
    cd = lambda j, k: comps.arr[j][k]
    return [('assigned', fk(lambda k: Implies(A.dom[k], And(A.map[k], VT(k), 0 <= CI[k], CI[k] < comps.len, cd(CI[k], k))), lambda k: A.dom[k], lambda k: CI[k])),
            ('only-assigned', fki(lambda k, j: Implies(And(0 <= j, j < comps.len, cd(j, k)), And(A.dom[k], CI[k] == j)), lambda k, j: cd(j, k))),
            ('not-empty', fa('j', lambda j: Implies(rng(0, j, comps.len), Not(comps.arr[j] == z3.K(K, BoolVal(False)))), lambda j: comps.arr[j])),
            ('predecessors-assigned', ForAll([a_, b_], Implies(And(A.dom[b_], RE(a_, b_)), A.dom[a_]), patterns=[RE(a_, b_)])),
            ('one-component', ForAll([a_, b_], Implies(And(A.dom[a_], A.dom[b_]), (CI[a_] == CI[b_]) == same(a_, b_)), patterns=[MultiPattern(CI[a_], CI[b_])]))]


@register
class Kos_assign(_SCC):
    name = G + '_assign'

    def setup(self, x):
        D = lambda n, k: x.dict(n, *self.DICTS[n])
        x['u0'] = z3.Const('u', K)
        comp = x.eng.new_cell(x.st, SetRec(z3.K(K, BoolVal(False)), 'key'))
        return [self.graph(x), z3.Const('u', K), D('incoming', 0), D('assigned', 0), comp], {}

    def pre(self, c):
        u, A, inc = c.params['u'], c.o('assigned'), c.o('incoming')
        return [('vertex', And(VT(u), Not(A.dom[u]))), ('empty', fk(lambda k: Not(c.o('component').dom[k]), lambda k: c.o('component').dom[k])),
                ('assigned', fk(lambda k: Implies(A.dom[k], And(A.map[k], VT(k))), lambda k: A.dom[k])),
                ('predecessors-assigned', fki(lambda k, i: Implies(And(VT(k), 0 <= i, i < deg(k), A.dom[nb(k, i)]), A.dom[k]), lambda k, i: nb(k, i)))] + \
            incomings(inc, c.o('graph').g_J, lambda k, i: BoolVal(True))

    def modifies(self, c):
        return [('dict', c.params['assigned']), ('dict', c.params['component'])]

    def result(self, c):
        return 'none'

    def post(self, c):
        u, A, B_, C = c.params['u'], c.o('assigned'), c.n('assigned'), c.n('component')
        return [('component', fk(lambda k: C.dom[k] == And(RE(k, u), Not(A.dom[k])), lambda k: C.dom[k], lambda k: RE(k, u))),
                ('assigned', fk(lambda k: And(B_.dom[k] == Or(A.dom[k], C.dom[k]), Implies(B_.dom[k], B_.map[k])), lambda k: B_.dom[k]))]

    def lemmas_post(self, c):
        u, A, C = c.params['u'], c.o('assigned'), c.n('component')
        S = fresh_const('S', SetK)
        return [('definition', fk(lambda k: S[k] == Or(A.dom[k], C.dom[k]), lambda k: S[k], lambda k: RE(k, u)), 'def'),
                ('edges-stay', fki(lambda k, i: Implies(And(S[nb(k, i)], VT(k), 0 <= i, i < deg(k)), S[k]), lambda k, i: nb(k, i))), backward(u, S)]

    def inv(self, v, inner):
        s, A, A0, C, inc = v.stack, v.assigned, v.old.assigned, v.component, v.incoming
        PP, Q, P, m = [v.g(x) for x in ('PP', 'Q', 'P', 'm')]
        J = v.graph.g_J
        top, it = (v.top, v.it) if inner else (None, None)
        u = v.c['u0']
        waits = lambda k: And(0 <= PP[k], PP[k] < s.len, s.arr[PP[k]] == k)
        out = [('assigned', fk(lambda k: And(A.dom[k] == Or(A0.dom[k], C.dom[k]), Implies(A.dom[k], And(A.map[k], VT(k))), Not(And(A0.dom[k], C.dom[k]))), lambda k: A.dom[k], lambda k: C.dom[k])),
               ('component', fk(lambda k: Implies(C.dom[k], RE(k, u)), lambda k: C.dom[k])),
               ('stack', And(s.len >= 0, fa('j', lambda j: Implies(rng(0, j, s.len), And(RE(s.arr[j], u), Not(A0.dom[s.arr[j]]))), lambda j: s.arr[j]))),
               ('start', Or(A.dom[u], waits(u))),
               ('predecessors', fki(lambda k, i: Implies(And(VT(k), 0 <= i, i < deg(k), C.dom[nb(k, i)], *([] if not inner else [Implies(nb(k, i) == top, J[top][k] < it)])), Or(A.dom[k], waits(k))), lambda k, i: nb(k, i))),
               ('discovered', And(m >= 0, fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j, A.dom[Q[j]])), lambda j: Q[j])))]
        if inner:
            m0 = v.g('m0')
            out += [('top', And(m0 >= 1, m0 <= s.len, s.arr[m0 - 1] == top, C.dom[top])),
                    ('pushed', fa('j', lambda j: Implies(And(m0 <= j, j < s.len), Not(A.dom[s.arr[j]])), lambda j: s.arr[j]))]
        return out

    def loops(self, u):
        def step2(v, h):
            PP, n, more = v.g('PP'), v.u, v.stack.len > h.stack.len
            return {'PP': v.define('PP1', lambda k: If(And(more, k == n), v.stack.len - 1, PP[k]), K)}
        K0 = z3.K(K, IntVal(-1))
        return {1: LoopSpec(inv=lambda v: self.inv(v, False),
                            ghost_init=lambda v: dict(PP=Store(K0, v.c['u0'], IntVal(0)), Q=z3.Const('Q0', IK), P=z3.Const('P0', KI), m=IntVal(0)),
                            assume_head=lambda v: [pigeon.use(v.g('Q'), v.g('P'), v.g('m'))],
                            variant=lambda v: (NV - v.g('m'), v.stack.len)),
                2: LoopSpec(inv=lambda v: self.inv(v, True), ghosts=('PP',),
                            ghost_init=lambda v: {'m0': v.stack.len, 'Q': Store(v.g('Q'), v.g('m'), v.top), 'P': Store(v.g('P'), v.top, v.g('m')), 'm': v.g('m') + 1},
                            ghost_step=step2)}


@register
class Kosaraju(_SCC):
    name = G + '_strongly_connected_components_kosaraju_adjacency_list'
    uses = NBS + ('Kos_visit', 'Kos_assign')

    def setup(self, x):
        return [self.graph(x)], {}

    def pre(self, c):
        return [('names', names(c.oheap))]

    def modifies(self, c):
        return [('fld', c.params['graph'], '@' + g, 'ghost') for g in 'FZJ']

    def result(self, c):
        return ('list', ('set', 'key'))

    def index(self, c):
        return fresh_const('CI', KI) if c.calling else c.local('@g_CI')

    def post(self, c):
        CI = self.index(c)
        n = c.res.len
        cd = lambda j, k: c.res.arr[j][k]
        return [('every-vertex', fk(lambda k: Implies(VT(k), And(0 <= CI[k], CI[k] < n, cd(CI[k], k))), lambda k: CI[k], lambda k: VT(k))),
                ('one-class-each', fki(lambda k, j: Implies(And(0 <= j, j < n, cd(j, k)), And(VT(k), CI[k] == j)), lambda k, j: cd(j, k))),
                ('not-empty', fa('j', lambda j: Implies(rng(0, j, n), Not(c.res.arr[j] == z3.K(K, BoolVal(False)))), lambda j: c.res.arr[j])),
                ('mutually-reachable', ForAll([a_, b_], Implies(And(VT(a_), VT(b_)), (CI[a_] == CI[b_]) == same(a_, b_)), patterns=[MultiPattern(CI[a_], CI[b_])]))]

    def loops(self, u):
        bd = lambda v: between(v.visited, v.incoming, v.L, v.graph.g_F, v.graph.g_Z, v.graph.g_J)

        def inv1(v):
            return [('names', names(v.heap))] + bd(v) + [('seen', fa('i', lambda i: Implies(And(rng(0, i, NV), i < v.it), v.visited.dom[VS[i]]), lambda i: VS[i]))]

        def inv2(v):
            L, A = v.L, v.assigned
            return [('names', names(v.heap))] + bd(v) + [('all-visited', fk(lambda k: Implies(VT(k), v.visited.dom[k]), lambda k: VT(k), lambda k: v.visited.dom[k]))] + \
                assigned_inv(A, v.components, v.g('CI')) + \
                [('from-the-end', fa('j', lambda j: Implies(And(rng(0, j, L.len), j > L.len + v.i), A.dom[L.arr[j]]), lambda j: L.arr[j]))]

        def step(v, h):
            n = h.components.len
            more = v.components.len > n
            C = v.comp.dom
            return {'CI': v.define('CI1', lambda k: If(And(more, C[k]), n, h.g('CI')[k]), K)}

        def ends(v, h):
            L, Z, F, A = v.L, v.graph.g_Z, v.graph.g_F, h.assigned
            u = L.arr[L.len + h.i]
            C = v.comp.dom
            return [('one-of-the-unassigned', fk(lambda k: Implies(C[k], And(Not(A.dom[Z[k]]), RE(k, u))), lambda k: C[k])),
                    ('the-last', fk(lambda k: Implies(C[k], Z[k] == u), lambda k: C[k])),
                    ('each-other', fk(lambda k: Implies(C[k], same(k, u)), lambda k: C[k])),
                    ('holds-the-last', Implies(Not(A.dom[u]), C[u]))]
        return {1: LoopSpec(inv=inv1), 2: LoopSpec(inv=inv2, ghost_init=lambda v: {'CI': z3.K(K, IntVal(-1))}, ghost_step=step, end_lemmas=ends)}
