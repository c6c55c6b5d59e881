"""Maximum flow against the minimum cut, over all cuts."""
from .g import *


class Flow(GraphT):
    files = ['graphs/algorithms.py']
    wlo, whi = 0, 9
    mxn = 7
    smalln = 3
    alg = 'edmonds_karp'

    def more(self, r, c):
        if c['n'] > 9:
            c['n'] = 9
            c['e'] = [e for e in c['e'] if e[0] < 9 and e[1] < 9]
        if r.chance(.5):      # no antiparallel edges: rerouting needs residual edges
            seen, es = set(), []
            for e in c['e']:
                if (e[1], e[0]) not in seen:
                    seen.add((e[0], e[1]))
                    es.append(e)
            c['e'] = es
        if r.chance(.4):
            for e in c['e']:
                e[2] = r.choice([1, 1, 1, 2])
        if r.chance(.3):      # a vertex whose name is the empty string
            c['z'] = r.randrange(c['n'])
        c['s'], c['tk'] = r.sample(range(c['n']), 2) if c['n'] > 1 else (0, 0)

    def run(self, c):
        import pydatastructs as p
        n = c['n']
        if n < 2:
            raise Skip()
        s, t = c.get('s', 0), c.get('tk', n - 1)
        name = lambda i: '' if i == c.get('z') else globals()['name'](i)
        g = build(c, names=name)
        before = snap(g)
        got = p.max_flow(g, name(s), name(t), self.alg)
        eq(snap(g), before, 'the input graph')
        best = None
        for m in range(2 ** n):
            if m >> s & 1 and not m >> t & 1:
                cap = sum(w for u, v, w in c['e'] if m >> u & 1 and not m >> v & 1)
                best = cap if best is None else min(best, cap)
        eq(got, best, 'flow from %s to %s' % (name(s), name(t)))


@target
class EdmondsKarp(Flow):
    covers = ('max_flow', '_max_flow_edmonds_karp_', '_breadth_first_search_max_flow')


@target
class Dinic(Flow):
    covers = ('max_flow', '_max_flow_dinic_', '_depth_first_search_max_flow_dinic', '_breadth_first_search_max_flow')
    alg = 'dinic'
