"""Topological sorts by definition."""
from .g import *


class Topo(GraphT):
    files = ['graphs/algorithms.py']
    weighted = False
    both = False
    loops = True
    par = False

    def small(self):
        yield dict(n=0, e=[])
        yield from GraphT.small(self)

    def more(self, r, c):
        c['t'] = r.choice([1, 2, 5])
        if r.chance(.75):
            pr = list(range(c['n']))
            r.shuffle(pr)
            es = {(u, v) if pr[u] < pr[v] else (v, u) for u, v in map(tuple, c['e']) if u != v}
            c['e'] = [list(e) for e in sorted(es)]
            r.shuffle(c['e'])

    def run(self, c):
        import pydatastructs as p
        g = build(c)
        before = snap(g)
        succ = self.succ(c)
        cyc = any(i in reach(succ, j) for i in succ for j in succ[i])
        f = (lambda: p.topological_sort_parallel(g, 'kahn', c.get('t', 2))) if self.par else (lambda: p.topological_sort(g, 'kahn'))
        if cyc:
            must_raise(ValueError, 'a cyclic graph', f)
        else:
            L = f()
            eq(sorted(L), sorted(g.vertices), 'vertices in the order')
            pos = {v: i for i, v in enumerate(L)}
            for e in c['e']:
                check(pos[name(e[0])] < pos[name(e[1])], 'edge %s -> %s goes backward in %r' % (name(e[0]), name(e[1]), L))
        eq(snap(g), before, 'the input graph')


@target
class Kahn(Topo):
    covers = ('topological_sort', '_kahn_adjacency_list')


@target
class KahnParallel(Topo):
    covers = ('topological_sort_parallel', '_kahn_adjacency_list_parallel')
    par = True
