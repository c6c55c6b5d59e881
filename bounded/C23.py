"""Graph searches against reachability."""
from .g import *


class Search(GraphT):
    files = ['graphs/algorithms.py', 'graphs/adjacency_list.py', 'graphs/adjacency_matrix.py']
    weighted = False
    loops = True
    kind = 'bfs'

    def more(self, r, c):
        c['s'] = r.randrange(c['n'])
        c['stop'] = r.choice([None, None, r.randint(1, 6)])
        c['t'] = r.choice([1, 2, 4])

    def run(self, c):
        import pydatastructs as p
        g = build(c)
        succ = self.succ(c)
        s = c.get('s', 0)
        d = reach(succ, s)
        before = snap(g)
        calls = []
        stop = c.get('stop')

        def op(cur, nxt, extra, kw=None):
            eq((extra, kw), (7, 8), 'extra arguments')
            calls.append((cur, nxt))
            return stop is None or len(calls) < stop
        if self.kind == 'par':
            res = p.breadth_first_search_parallel(g, name(s), c.get('t', 2), op, 7, kw=8)
        elif self.kind == 'bfs':
            res = p.breadth_first_search(g, name(s), op, 7, kw=8)
        else:
            res = p.depth_first_search(g, name(s), op, 7, kw=8)
        eq(res, None, 'result')
        eq(snap(g), before, 'the graph after the search')
        found = [b for a, b in calls if b != '']
        eq(len(found), len(set(found)), 'each vertex is discovered once; discoveries %r' % (calls,))
        idx = {name(i): i for i in range(c['n'])}
        seen = {name(s)}
        last = 0
        for a, b in calls:
            check(a in seen, 'operation called for %r before it was discovered' % a)
            if b == '':
                eq(succ[idx[a]], [], 'neighbours of %r, reported as having none' % a)
                if self.kind != 'dfs':
                    check(d[idx[a]] >= last - 1, 'order of distances %r' % (calls,))
                continue
            check(idx[b] in succ[idx[a]], '%s is not a neighbour of %s' % (b, a))
            check(b not in seen, '%s is discovered again' % b)
            seen.add(b)
            if self.kind != 'dfs':
                eq(d[idx[b]], d[idx[a]] + 1, 'distance at which %s is reached' % b)
                check(d[idx[b]] >= last, 'order of distances %r' % (calls,))
                last = d[idx[b]]
        full = len(d) - 1 + sum(1 for v in d if not succ[v])
        if stop is None or stop > full:
            eq(sorted(seen), sorted(name(v) for v in d), 'visited vertices')
            eq(sorted(a for a, b in calls if b == ''), sorted(name(v) for v in d if not succ[v]), 'vertices without neighbours')
        elif self.kind != 'par':
            eq(len(calls), stop, 'calls after the operation returned False')
        else:
            # the layer being expanded may be finished, no later one is started
            lay = max([d[idx[a]] for a, b in calls[:stop]], default=0)
            check(all(d[idx[a]] <= lay for a, b in calls), 'calls in a later layer after the operation returned False')


@target
class BFS(Search):
    covers = ('breadth_first_search', '_breadth_first_search_adjacency_list')


@target
class DFS(Search):
    covers = ('depth_first_search', '_depth_first_search_adjacency_list')
    kind = 'dfs'


@target
class BFSParallel(Search):
    covers = ('breadth_first_search_parallel', '_generate_layer', '_breadth_first_search_parallel_adjacency_list')
    kind = 'par'
