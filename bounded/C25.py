"""Strongly connected components and bridges by definition."""
from .g import *


class SCC(GraphT):
    files = ['graphs/algorithms.py']
    weighted = False
    loops = True
    smalln = 3
    alg = 'kosaraju'

    def small(self):
        yield from GraphT.small(self)
        ps = [(i, j) for i in range(4) for j in range(4) if i != j]
        for m in range(0, 4096):
            yield dict(n=4, e=[list(p) for i, p in enumerate(ps) if m >> i & 1], ds='List')

    def run(self, c):
        import pydatastructs as p
        g = build(c)
        before = snap(g)
        got = p.strongly_connected_components(g, self.alg)
        eq(snap(g), before, 'the graph')
        succ = self.succ(c)
        R = {i: set(reach(succ, i)) for i in range(c['n'])}
        want = {frozenset(name(j) for j in R[i] if i in R[j]) for i in R}
        eq(sorted(sorted(s) for s in got), sorted(sorted(s) for s in want), 'components')


@target
class Kosaraju(SCC):
    covers = ('strongly_connected_components', '_visit', '_assign', '_strongly_connected_components_kosaraju_adjacency_list')


@target
class Tarjan(SCC):
    covers = ('strongly_connected_components', '_tarjan_dfs', '_strongly_connected_components_tarjan_adjacency_list')
    alg = 'tarjan'


@target
class Bridges(GraphT):
    files = ['graphs/algorithms.py']
    covers = ('find_bridges',)
    und, weighted = True, False
    smalln = 4

    def run(self, c):
        import pydatastructs as p
        g = build(c, True)
        before = snap(g)
        got = p.find_bridges(g)
        eq(snap(g), before, 'the graph')
        es = sorted({tuple(sorted((name(e[0]), name(e[1])))) for e in c['e']})
        succ = {name(i): [] for i in range(c['n'])}
        for u, v in es:
            succ[u].append(v)
            succ[v].append(u)
        want = []
        for u, v in es:
            s2 = {k: [x for x in l if {k, x} != {u, v}] for k, l in succ.items()}
            if v not in reach(s2, u):
                want.append((u, v))
        eq(sorted(tuple(sorted(x)) for x in got), want, 'bridges')
