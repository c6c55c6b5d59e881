"""Shortest paths against Bellman-Ford by definition (|V|-1 rounds)."""
from .g import *

INF = float('inf')


def truth(n, es, s):
    d = {i: INF for i in range(n)}
    d[s] = 0
    for _ in range(n - 1):
        for u, v, w in es:
            if d[u] + w < d[v]:
                d[v] = d[u] + w
    neg = any(d[u] + w < d[v] for u, v, w in es)
    return d, neg


class SP(GraphT):
    files = ['graphs/algorithms.py', 'trees/heaps.py']
    alg = 'dijkstra'
    wlo, whi = 0, 9
    loops = True

    def more(self, r, c):
        c['s'] = r.randrange(c['n'])
        c['to'] = r.choice([None, r.randrange(c['n'])])

    def run(self, c):
        import pydatastructs as p
        g = build(c)
        before = snap(g)
        s = c.get('s', 0)
        d, neg = truth(c['n'], c['e'], s)
        if neg:
            check(min(e[2] for e in c['e']) < 0, 'oracle')
            must_raise(ValueError, 'a negative cycle reachable from the source', p.shortest_paths, g, self.alg, name(s))
            eq(snap(g), before, 'the graph')
            return
        dist, pred = p.shortest_paths(g, self.alg, name(s))
        eq(snap(g), before, 'the graph')
        eq(dist, {name(i): x for i, x in d.items()}, 'distances from %s' % name(s))
        W = {(name(u), name(v)): w for u, v, w in c['e']}
        for i, x in d.items():
            v, tot, k = name(i), 0, 0
            if x == INF or v == name(s):
                eq(pred[v], None, 'predecessor of %s' % v)
                continue
            while v != name(s):
                k += 1
                check(k <= c['n'] and pred[v] is not None and (pred[v], v) in W, 'predecessors of %s do not trace a path: %r' % (name(i), pred))
                tot += W[pred[v], v]
                v = pred[v]
            eq(tot, x, 'weight of the path traced to %s' % name(i))
        if c.get('to') is not None:
            dt, pr = p.shortest_paths(g, self.alg, name(s), name(c['to']))
            eq(dt, d[c['to']], 'distance to the target')


@target
class Dijkstra(SP):
    covers = ('shortest_paths', '_dijkstra_adjacency_list')


@target
class BellmanFord(SP):
    covers = ('shortest_paths', '_bellman_ford_adjacency_list')
    alg = 'bellman_ford'
    wlo = -3

    def more(self, r, c):
        SP.more(self, r, c)
        if r.chance(.7):             # potential shift: negative edges without negative cycles
            pot = [r.randint(-5, 5) for _ in range(c['n'])]
            c['e'] = [[u, v, abs(w) + pot[v] - pot[u]] for u, v, w in c['e']]


class APSP(GraphT):
    files = SP.files
    wlo = -3
    alg = 'floyd_warshall'
    loops = True
    mxn = 7

    def more(self, r, c):
        if r.chance(.8):
            pot = [r.randint(-5, 5) for _ in range(c['n'])]
            c['e'] = [[u, v, abs(w) + pot[v] - pot[u]] for u, v, w in c['e']]

    def run(self, c):
        import pydatastructs as p
        g = build(c)
        before = snap(g)
        T = [truth(c['n'], c['e'], s) for s in range(c['n'])]
        if any(x[1] for x in T):
            if self.alg == 'johnson':
                must_raise(ValueError, 'a negative cycle', p.all_pair_shortest_paths, g, self.alg)
                eq(snap(g), before, 'the graph')
                return
            raise Skip()
        dist, nxt = p.all_pair_shortest_paths(g, self.alg)
        eq(snap(g), before, 'the graph')
        for i in range(c['n']):
            got = {k: v for k, v in dist[name(i)].items() if v != INF}
            want = {name(j): x for j, x in T[i][0].items() if x != INF}
            if any(isinstance(w, float) for w in [e[2] for e in c['e']]):
                check(got.keys() == want.keys() and all(abs(got[k] - want[k]) < 1e-6 for k in want), 'distances from %s: %r, expected %r' % (name(i), got, want))
            else:
                eq(got, want, 'distances from %s' % name(i))


@target
class FloydWarshall(APSP):
    covers = ('all_pair_shortest_paths', '_floyd_warshall_adjacency_list')


@target
class Johnson(APSP):
    covers = ('all_pair_shortest_paths', '_johnson_adjacency_list')
    alg = 'johnson'
    both = False
