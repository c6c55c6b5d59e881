"""Graph algorithms over an abstract graph: vertices are keys, nb(u, i) for i < deg(u) are the neighbours of u in the order
in which the representation lists them (contracts of neighbors(): C22).  VT(k): k is a vertex; IX numbers the vertices."""
from .common import *
from .lemmas import Lemma
from . import register

G = 'graphs.algorithms:'
nb = z3.Function('nb', K, IntS, K)
deg = z3.Function('deg', K, IntS)
VT = z3.Function('VT', K, BoolS)
IX = z3.Function('IX', K, IntS)
NV = z3.Int('NV')
nodeof = z3.Function('nodeof', K, IntS)
SetK = z3.ArraySort(K, BoolS)
IK, KI = z3.ArraySort(IntS, K), z3.ArraySort(K, IntS)
GN = ('ref', 'AdjacencyListGraphNode')


def fk(f, *pats, n=1):
    ks = [z3.Const(fresh_name('k'), K) for _ in range(n)]
    if pats:
        try:
            return z3.ForAll(ks, f(*ks), patterns=[p(*ks) for p in pats])
        except z3.Z3Exception:
            pass
    return ForAll(ks, f(*ks))


def fki(f, *pats):
    k, i = z3.Const(fresh_name('k'), K), z3.Int(fresh_name('i'))
    return ForAll([k, i], f(k, i), patterns=[p(k, i) for p in pats])


GRAPH = And(NV >= 1, fk(lambda k: deg(k) >= 0, lambda k: deg(k)),
            fk(lambda k: Implies(VT(k), And(0 <= IX(k), IX(k) < NV)), lambda k: IX(k)),
            fk(lambda k, l: Implies(And(VT(k), VT(l), IX(k) == IX(l)), k == l), n=2),
            fki(lambda k, i: Implies(And(VT(k), 0 <= i, i < deg(k)), VT(nb(k, i))), lambda k, i: nb(k, i)))

# reachability and distance from the source
src = z3.Const('source', K)
R = z3.Function('R', K, BoolS)
D = z3.Function('D', K, IntS)
pr = z3.Function('pr', K, K)
pi = z3.Function('pi', K, IntS)


def reach_at(k):
    return Implies(And(R(k), k != src), And(R(pr(k)), D(k) == D(pr(k)) + 1, 0 <= pi(k), pi(k) < deg(pr(k)), k == nb(pr(k), pi(k))))


REACH = And(R(src), D(src) == 0, fk(lambda k: And(Implies(R(k), VT(k)), D(k) >= 0), lambda k: R(k)),
            fki(lambda k, i: Implies(And(R(k), 0 <= i, i < deg(k)), And(R(nb(k, i)), D(nb(k, i)) <= D(k) + 1)), lambda k, i: nb(k, i)))
PRED = fk(reach_at, lambda k: R(k))


def closed(S):
    return And(S(src), fki(lambda k, i: Implies(And(R(k), S(k), 0 <= i, i < deg(k)), S(nb(k, i))), lambda k, i: nb(k, i)))


def _clo_obls():
    S0 = z3.Const('S', SetK)
    k = z3.Const('k', K)
    S = lambda k: S0[k]
    # strong induction on the distance
    return [('step', [REACH, closed(S), R(k), reach_at(k), Implies(And(R(pr(k)), D(pr(k)) < D(k)), S(pr(k)))], S(k))]


def _clo(S):
    return Implies(closed(lambda k: S[k]), fk(lambda k: Implies(R(k), S[k]), lambda k: S[k], lambda k: R(k)))


closure = Lemma('closed-set-contains-the-reachable', _clo, _clo_obls)


def _ph(f, m, N):
    return Implies(And(fa('j', lambda j: Implies(rng(0, j, m), And(0 <= f[j], f[j] < N)), lambda j: f[j]),
                       fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < m), f[i] != f[j]), lambda i, j: (f[i], f[j]))), m <= N)


def _ph_obls():
    f, m, N, j0 = z3.Const('f', z3.ArraySort(IntS, IntS)), z3.Int('m'), z3.Int('N'), z3.Int('j0')
    hit = And(0 <= j0, j0 < m, f[j0] == N)
    none = fa('j', lambda j: Implies(rng(0, j, m), f[j] != N), lambda j: f[j])
    Q, P, f2 = z3.Const('Q', IK), z3.Const('P', KI), z3.Const('f2', z3.ArraySort(IntS, IntS))
    return [('base', [Not(_ph(f, m, IntVal(0)))], BoolVal(False)),
            ('step-hit', [N >= 0, hit, _ph(Store(f, j0, f[m - 1]), m - 1, N), Not(_ph(f, m, N + 1))], BoolVal(False)),
            ('step-none', [N >= 0, none, _ph(f, m, N), Not(_ph(f, m, N + 1))], BoolVal(False)),
            ('apply', [GRAPH, fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j)), lambda j: Q[j]),
                       fa('j', lambda j: f2[j] == IX(Q[j]), lambda j: f2[j]), _ph(f2, m, NV)], m <= NV)]


# m different vertices are at most NV
pigeon = Lemma('different-vertices-fit', lambda Q, P, m: Implies(fa('j', lambda j: Implies(rng(0, j, m), And(VT(Q[j]), P[Q[j]] == j)), lambda j: Q[j]), m <= NV), _ph_obls)


class _Nb(Contract):
    """client view of neighbors(): the node objects of nb(u, 0) .. nb(u, deg(u) - 1), in a new list"""
    verify_self = False

    def apply(self, eng, st, args, kw, node):
        eng.used_contracts.add(self.name)
        eng.unit.trust('graph.neighbors(u) returns a new list of the node objects of the neighbours of u (C22)')
        u = args[1]
        eng.oblige('pre:neighbors:vertex', st, VT(u), getattr(node, 'lineno', 0))
        a = fresh_const('nbs', z3.ArraySort(IntS, IntS))
        i = z3.Int('i')
        st.assume(ForAll([i], Implies(And(0 <= i, i < deg(u)), a[i] == nodeof(nb(u, i))), patterns=[a[i]]))
        eng.ensure_field(st, 'name')
        return [(st, eng.new_cell(st, ArrRec(deg(u), a, GN)))]


for cls, mod in (('AdjacencyList', 'adjacency_list'), ('AdjacencyMatrix', 'adjacency_matrix')):
    register(type('Abs_nb_' + cls, (_Nb,), dict(name='graphs.%s:%s.neighbors' % (mod, cls))))
NBS = ('Abs_nb_AdjacencyList', 'Abs_nb_AdjacencyMatrix')


def names(h):
    return fk(lambda k: Implies(VT(k), And(nodeof(k) > 0, h('name')[nodeof(k)] == k)), lambda k: nodeof(k))


def named(st, o, kinds):
    """kind of the container bound to one of the given local names (None: not one of them)"""
    for fr in st.frames.values():
        for n, k in kinds.items():
            if fr.get(n) == o:
                return k
    return None


class _Search(Contract):
    fields = {'name': 'key'}
    uses = NBS
    axioms = (GRAPH, REACH, PRED)
    variants = ('adjacency_list', 'adjacency_matrix')
    bfs = True
    layered = False
    assumes = ('the operation does not touch the graph; vertex numbers exist (finitely many vertices)',)

    def graph(self, x):
        return x.obj('AdjacencyList' if x.variant == 'adjacency_list' else 'AdjacencyMatrix', _impl=x.variant)

    DICTS = {'visited': ('key', 'bool'), 'layers': ('int', ('set', 'key'))}

    def dicthint(self, eng, st, o):
        return named(st, o, self.DICTS)

    def listhint(self, eng, st, o):
        return 'key'

    def operation(self, x):
        """records the calls: discovered vertices Q[0..m) (Q[0] the source), P their positions, L the vertices reported as
        having no neighbours, stop: an earlier call returned False"""
        tr = x['tr'] = x.obj('Trace', **{'@m': IntVal(1), '@Q': z3.Const('Q0', IK), '@P': z3.Const('P0', KI), '@L': z3.Const('L0', SetK), '@stop': BoolVal(False)})
        Q0, P0 = z3.Const('Q0', IK), z3.Const('P0', KI)
        x.assume(And(Q0[0] == src, P0[src] == 0, fk(lambda k: Implies(k != src, P0[k] < 0), lambda k: P0[k]), fk(lambda k: Not(z3.Const('L0', SetK)[k]), lambda k: z3.Const('L0', SetK)[k])))

        def fn(eng, st, args, node):
            t = st.store[tr.id].f
            u, v = args[0], args[1]
            m, Q, P, L = t['@m'], t['@Q'], t['@P'], t['@L']
            if not self.layered:
                eng.safe('no-call-after-stop', st, Not(t['@stop']), node)
            known = lambda k: And(0 <= P[k], P[k] < m, Q[P[k]] == k)
            eng.safe('called-from-a-discovered-vertex', st, known(u), node)
            new = dict(t)
            if isinstance(v, str) and v == '':
                eng.safe('no-neighbours', st, And(deg(u) == 0, Not(L[u])), node)
                new['@L'] = Store(L, u, BoolVal(True))
            else:
                eng.safe('discovered-once', st, Not(known(v)), node)
                eng.safe('reachable', st, And(R(v), Or(*[nb(u, i) == v for i in self.edge(eng, st)])), node)
                if self.bfs:
                    eng.safe('nondecreasing-distance', st, D(v) >= D(Q[m - 1]), node)
                new.update({'@Q': Store(Q, m, v), '@P': Store(P, v, m), '@m': m + 1})
            r = fresh_const('status', BoolS)
            new['@stop'] = Or(t['@stop'], Not(r))
            for n in ('@m', '@Q', '@P', '@L', '@stop'):
                eng.mod(('fld', tr.id, n))
            st.store[tr.id] = ObjRec('Trace', new)
            return [(st, r)]
        return VSym(fn, 'operation')

    def edge(self, eng, st):
        fr = st.frames[st.fid]
        return [v for n, v in fr.items() if n.startswith('@it')]

    def setup(self, x):
        x['h'] = z3.Int('h0')
        return [self.graph(x), src, self.operation(x)], {}

    def pre(self, c):
        return [('source', VT(src)), ('names', names(c.oheap))]

    def post(self, c):
        t = c.P(c.cx['tr'])
        m, Q, P, L = t.g_m, t.g_Q, t.g_P, t.g_L
        return [('all-reachable-discovered', Or(t.g_stop, fk(lambda k: R(k) == And(0 <= P[k], P[k] < m, Q[P[k]] == k), lambda k: P[k], lambda k: R(k)))),
                ('vertices-without-neighbours-reported', Or(t.g_stop, fk(lambda k: Implies(And(R(k), deg(k) == 0), L[k]), lambda k: L[k], lambda k: R(k))))]

    # -- invariants
    def state(self, v):
        t = v.P(v.c['tr'])
        return t.g_m, t.g_Q, t.g_P, t.g_L, t.g_stop

    def common(self, v, proc, cur, done, pending):
        """proc(k): all neighbours of k were looked at; cur: vertex being processed (None between), done: index in its list;
        pending(j): Q[j] still waits"""
        m, Q, P, L, stop = self.state(v)
        vis = v.visited
        known = lambda k: And(0 <= P[k], P[k] < m, Q[P[k]] == k)
        iscur = (lambda j: Q[j] == cur) if cur is not None else (lambda j: BoolVal(False))
        return [('running', Not(stop)), ('names', names(v.heap)),
                ('discovered', And(m >= 1, Q[0] == src, fa('j', lambda j: Implies(rng(0, j, m), And(R(Q[j]), VT(Q[j]), P[Q[j]] == j, vis.dom[Q[j]], vis.map[Q[j]])), lambda j: Q[j]))),
                ('visited-is-discovered', fk(lambda k: vis.dom[k] == known(k), lambda k: vis.dom[k])),
                ('processed', fa('j i', lambda j, i: Implies(And(rng(0, j, m), Not(pending(j)), 0 <= i, i < deg(Q[j]), Implies(iscur(j), i < (done if done is not None else 0))), vis.dom[nb(Q[j], i)]), lambda j, i: nb(Q[j], i))),
                ('reported-are-discovered', fk(lambda k: Implies(L[k], known(k)), lambda k: L[k])),
                ('reported', fa('j', lambda j: Implies(rng(0, j, m), L[Q[j]] == And(Not(pending(j)), Not(iscur(j)), deg(Q[j]) == 0)), lambda j: L[Q[j]], lambda j: Q[j]))]


@register
class BFS(_Search):
    name = G + '_breadth_first_search_adjacency_list'

    def inv(self, v, inner):
        m, Q, P, L, stop = self.state(v)
        h = v.g('h')
        q, vis = v.bfs_queue, v.visited
        first = h + 1 if inner else h
        out = self.common(v, None, v.curr_node if inner else None, v.it if inner else None, lambda j: j >= first)
        out += [('queue', And(0 <= h, first <= m, q.len == m - first, fa('i', lambda i: Implies(rng(0, i, q.len), q.arr[i] == Q[first + i]), lambda i: q.arr[i])))]
        if inner:
            out += [('current', And(v.curr_node == Q[h], v.next_nodes.len == deg(Q[h]),
                                    fa('i', lambda i: Implies(rng(0, i, deg(Q[h])), v.next_nodes.arr[i] == nodeof(nb(Q[h], i))), lambda i: v.next_nodes.arr[i])))]
        out += [('distances', And(fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < m), D(Q[i]) <= D(Q[j])), lambda i, j: (Q[i], Q[j])),
                                  Implies(h < m, D(Q[m - 1]) <= D(Q[h]) + 1))),
                ('near-vertices-known', Implies(h < m, fk(lambda k: Implies(And(R(k), D(k) <= D(Q[h])), vis.dom[k]), lambda k: vis.dom[k], lambda k: R(k))))]
        return out

    def loops(self, u):
        return {1: LoopSpec(inv=lambda v: self.inv(v, False), ghost_init=lambda v: {'h': IntVal(0)}, ghost_step=lambda v: {'h': v.g('h') + 1},
                            assume_head=lambda v: [pigeon.use(self.state(v)[1], self.state(v)[2], self.state(v)[0])],
                            variant=lambda v: NV - v.g('h')),
                2: LoopSpec(inv=lambda v: self.inv(v, True), ghosts=())}

    def lemmas_post(self, c):
        t = c.P(c.cx['tr'])
        m, Q, P = t.g_m, t.g_Q, t.g_P
        S = fresh_const('S', SetK)
        return [('definition', fk(lambda k: S[k] == And(0 <= P[k], P[k] < m, Q[P[k]] == k), lambda k: S[k]), 'def'), closure.use(S)]


@register
class DFS(_Search):
    name = G + '_depth_first_search_adjacency_list'
    bfs = False

    def inv(self, v, inner):
        m, Q, P, L, stop = self.state(v)
        W, s, vis = v.g('W'), v.dfs_stack, v.visited
        waits = lambda k: And(0 <= W[k], W[k] < s.len, s.arr[W[k]] == k)
        known = lambda k: And(0 <= P[k], P[k] < m, Q[P[k]] == k)
        out = self.common(v, None, v.curr_node if inner else None, v.it if inner else None, lambda j: waits(Q[j]))
        out += [('stack', And(s.len >= 0, s.len <= m, fa('i', lambda i: Implies(rng(0, i, s.len), And(known(s.arr[i]), W[s.arr[i]] == i)), lambda i: s.arr[i])))]
        if inner:
            out += [('current', And(known(v.curr_node), Not(waits(v.curr_node)), v.next_nodes.len == deg(v.curr_node), s.len < m, m - s.len == v.g('p') + 1,
                                    fa('i', lambda i: Implies(rng(0, i, deg(v.curr_node)), v.next_nodes.arr[i] == nodeof(nb(v.curr_node, i))), lambda i: v.next_nodes.arr[i])))]
        else:
            out += [('count', m - s.len == v.g('p'))]
        return out

    def loops(self, u):
        st = lambda v: v.dfs_stack
        return {1: LoopSpec(inv=lambda v: self.inv(v, False), ghost_init=lambda v: {'W': Store(z3.K(K, IntVal(-1)), src, IntVal(0)), 'p': IntVal(0)},
                            ghost_step=lambda v: {'p': v.g('p') + 1},
                            assume_head=lambda v: [pigeon.use(self.state(v)[1], self.state(v)[2], self.state(v)[0])], variant=lambda v: NV - v.g('p')),
                2: LoopSpec(inv=lambda v: self.inv(v, True), ghosts=('W',),
                            ghost_step=lambda v: {'W': If(st(v).len > 0, Store(v.g('W'), st(v).arr[st(v).len - 1], st(v).len - 1), v.g('W'))})}

    lemmas_post = BFS.lemmas_post


LSET = ('set', 'key')


@register
class BFSP(_Search):
    """layer by layer; the operation may be called again after returning False until the layer is complete"""
    name = G + '_breadth_first_search_parallel_adjacency_list'
    layered = True

    def setup(self, x):
        return [self.graph(x), src, x.int('num_threads'), self.operation(x)], {}

    def sethint(self, eng, st, o):
        return 'key'

    def facts(self, v, d, NL):
        """d: current layer; NL: next layer (None before it is started)"""
        m, Q, P, L, stop = self.state(v)
        vis = v.visited
        known = lambda k: And(0 <= P[k], P[k] < m, Q[P[k]] == k)
        nl = NL if NL is not None else (lambda k: BoolVal(False))
        return [('names', names(v.heap)), ('layer', d >= 0),
                ('current-layer', fk(lambda k: v.layers.map[d][k] == And(R(k), D(k) == d), lambda k: v.layers.map[d][k], lambda k: R(k))),
                ('visited', fk(lambda k: vis.dom[k] == Or(And(R(k), D(k) <= d), nl(k)), lambda k: vis.dom[k], lambda k: R(k))),
                ('visited-true', fk(lambda k: Implies(vis.dom[k], vis.map[k]), lambda k: vis.map[k])),
                ('next-layer', fk(lambda k: Implies(nl(k), And(R(k), D(k) == d + 1)), lambda k: nl(k)) if NL is not None else BoolVal(True)),
                ('discovered', And(m >= 1, Q[0] == src, fa('j', lambda j: Implies(rng(0, j, m), And(R(Q[j]), VT(Q[j]), P[Q[j]] == j, vis.dom[Q[j]], D(Q[j]) <= j, D(Q[j]) <= d + 1)), lambda j: Q[j]),
                                   fa('i j', lambda i, j: Implies(And(0 <= i, i < j, j < m), D(Q[i]) <= D(Q[j])), lambda i, j: (Q[i], Q[j])),
                                   fk(lambda k: Implies(And(R(k), D(k) <= d), known(k)), lambda k: P[k], lambda k: R(k)))),
                ('visited-is-discovered', Or(stop, fk(lambda k: Implies(vis.dom[k], known(k)), lambda k: P[k], lambda k: vis.dom[k]))),
                ('reported-are-discovered', fk(lambda k: Implies(L[k], And(known(k), D(k) <= d)), lambda k: L[k]))]

    def loops(self, u):
        def outer(v):
            L, stop = self.state(v)[3:]
            d = I(v.layer)
            return [('running', Not(stop)), ('layers', v.layers.dom[d])] + self.facts(v, d, None) + \
                [('reported', fk(lambda k: Implies(And(R(k), D(k) < d), L[k] == (deg(k) == 0)), lambda k: L[k], lambda k: R(k))),
                 ('not-yet-reported', fk(lambda k: Implies(D(k) >= d, Not(L[k])), lambda k: L[k]))]

        def half(v, it, c, j):
            """items before number it of the layer are complete; of vertex c (if given) the first j neighbours"""
            L, stop = self.state(v)[3:]
            d = I(v.layer)
            ix = v.enum(2)[1]
            upto = lambda k, i: Or(D(k) < d, And(D(k) == d, ix(k) < it), BoolVal(False) if c is None else And(k == c, i < j))
            return [('next-started', And(v.layers.dom[d], v.layers.dom[d + 1]))] + self.facts(v, d, lambda k: v.layers.map[d + 1][k]) + \
                [('processed', fki(lambda k, i: Implies(And(R(k), 0 <= i, i < deg(k), upto(k, i)), v.visited.dom[nb(k, i)]), lambda k, i: nb(k, i))),
                 ('reported', Or(stop, fk(lambda k: Implies(And(R(k), D(k) <= d), L[k] == And(deg(k) == 0, Or(D(k) < d, ix(k) < it))), lambda k: L[k], lambda k: R(k)))),
                 ('once', fk(lambda k: Implies(And(D(k) == d, ix(k) >= it), Not(L[k])), lambda k: L[k]))]

        def inner(v):
            stop = self.state(v)[4]
            d = I(v.layer)
            c = v.curr_node
            return [('current', And(R(c), D(c) == d, c == v.enum(2)[0][v.iter(2)], v.next_nodes.len == deg(c), deg(c) > 0,
                                    fa('i', lambda i: Implies(rng(0, i, deg(c)), v.next_nodes.arr[i] == nodeof(nb(c, i))), lambda i: v.next_nodes.arr[i]))),
                    ('stop', stop == Or(self.state(v.entry)[4], Not(v.status)))] + half(v, v.iter(2), c, v.it)
        return {1: LoopSpec(inv=outer, assume_head=lambda v: [pigeon.use(self.state(v)[1], self.state(v)[2], self.state(v)[0])], variant=lambda v: NV - v.layer),
                2: LoopSpec(inv=lambda v: [('status', v.status == Not(self.state(v)[4]))] + half(v, v.it, None, None)),
                3: LoopSpec(inv=inner)}

    lemmas_post = BFS.lemmas_post
