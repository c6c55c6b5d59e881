"""Minimum spanning forests against an independent Kruskal."""
from .g import *


class MST(GraphT):
    files = ['graphs/algorithms.py', 'miscellaneous_data_structures/disjoint_set.py', 'trees/heaps.py']
    und = True
    smalln = 4
    wlo, whi = -2, 9
    alg = 'kruskal'
    par = False

    def more(self, r, c):
        c['t'] = r.choice([1, 2, 3, 6])
        if self.alg == 'prim':      # connected graphs
            comp = reach(self.succ(c), 0)
            for i in range(c['n']):
                if i not in comp:
                    j = r.choice(sorted(comp))
                    c['e'].append([i, j, self.wt(r)])
                    comp = reach(self.succ(c), 0)

    def run(self, c):
        import pydatastructs as p
        if self.alg == 'prim' and len(reach(self.succ(c), 0)) != c['n']:
            raise Skip()
        if self.alg == 'prim':
            c['ds'] = 'List'
        g = build(c, True)
        before = snap(g)
        m = p.minimum_spanning_tree_parallel(g, self.alg, c.get('t', 2)) if self.par else p.minimum_spanning_tree(g, self.alg)
        eq(snap(g), before, 'the input graph')
        eq(sorted(m.vertices), sorted(g.vertices), 'vertices of the spanning forest')
        W = {}
        for u, v, w in c['e']:
            W[name(u), name(v)] = W[name(v), name(u)] = w
        adj = {(u, v.name) for u in m.vertices for v in m.neighbors(u)}
        eq({(e.source.name, e.target.name) for e in m.edge_weights.values()}, adj, 'weighted edges and adjacency of the result')
        check(all((v, u) in adj for u, v in adj), 'an edge of the forest has only one direction')
        tot = 0
        par = {v: v for v in m.vertices}

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        for u, v in adj:
            check((u, v) in W, 'edge %s-%s is not in the input' % (u, v))
            eq(m.get_edge(u, v).value, W[u, v], 'weight of %s-%s' % (u, v))
            if u < v:
                tot += W[u, v]
                check(find(u) != find(v), 'the result contains a cycle')
                par[find(u)] = find(v)
        best, par2 = 0, {v: v for v in m.vertices}

        def f2(x):
            while par2[x] != x:
                x = par2[x]
            return x
        k = 0
        for (u, v), w in sorted(W.items(), key=lambda x: x[1]):
            if f2(u) != f2(v):
                par2[f2(u)] = f2(v)
                best += w
                k += 1
        eq(len(adj) // 2, k, 'number of edges of the spanning forest')
        eq(tot, best, 'total weight')


@target
class Kruskal(MST):
    covers = ('minimum_spanning_tree', '_minimum_spanning_tree_kruskal_adjacency_list', '_sort_edges')


@target
class KruskalParallel(MST):
    covers = ('minimum_spanning_tree_parallel', '_minimum_spanning_tree_parallel_kruskal_adjacency_list', 'merge_sort_parallel')
    par = True


@target
class Prim(MST):
    covers = ('minimum_spanning_tree', '_minimum_spanning_tree_prim_adjacency_list')
    alg = 'prim'


@target
class PrimParallel(MST):
    covers = ('minimum_spanning_tree_parallel', '_minimum_spanning_tree_parallel_prim_adjacency_list', '_find_min')
    alg, par = 'prim', True
