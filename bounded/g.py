"""helpers for graph cases: dict(n=vertices, e=[[u, v, w], ...], ds='List'|'Matrix')"""
from .h import *

NAMES = 'abcdefghijklmnopqrstuvwxyz'


def name(i):
    return 'v%d' % i if i >= 26 else NAMES[i]


def build(c, und=False, names=name):
    import pydatastructs as p
    import pydatastructs.utils.misc_util as u
    N = getattr(u, 'Adjacency' + c.get('ds', 'List') + 'GraphNode')
    g = p.Graph(*[N(names(i), i) for i in range(c['n'])], implementation='adjacency_' + c.get('ds', 'List').lower())
    for e in c['e']:
        w = e[2] if len(e) > 2 else None
        g.add_edge(names(e[0]), names(e[1]), w)
        if und:
            g.add_edge(names(e[1]), names(e[0]), w)
    return g


def snap(g):
    return (sorted(g.vertices), sorted((u, v.name) for u in g.vertices for v in g.neighbors(u)),
            sorted((k, e.value, e.source.name, e.target.name) for k, e in g.edge_weights.items()),
            sorted((u, getattr(g, u).data) for u in g.vertices))


class GraphT(Target):
    und = False
    wlo, whi = 1, 9
    weighted = True
    both = True          # both representations
    mxn = 9
    smalln = 3
    loops = False
    case_s = 15

    def pairs(self, n):
        return [(i, j) for i in range(n) for j in range(n) if (i < j if self.und else (i != j or self.loops))]

    def mk(self, n, es, r=None):
        return dict(n=n, e=[list(e) for e in es])

    def small(self):
        for n in range(1, self.smalln + 1):
            ps = self.pairs(n)
            if 2 ** len(ps) > 600:
                ps = [p for p in ps if p[0] != p[1]]
            for m in range(2 ** len(ps)):
                es = [p for i, p in enumerate(ps) if m >> i & 1]
                if self.weighted:
                    es = [(u, v, self.wlo + (u * 5 + v * 3 + len(es)) % (self.whi - self.wlo + 1)) for u, v in es]
                yield dict(n=n, e=[list(e) for e in es], ds='Matrix' if self.both and m % 2 else 'List')

    def edges(self, r, n):
        ps = self.pairs(n)
        x = r.random()
        if x < .25:
            k = n
        elif x < .5:
            k = 2 * n
        elif x < .7:
            k = len(ps) // 2
        elif x < .8:
            k = len(ps)
        else:
            k = r.randint(0, len(ps))
        es = r.sample(ps, min(k, len(ps)))
        if x > .8 and n > 2:           # long path / cycle plus chords
            perm = list(range(n))
            r.shuffle(perm)
            pth = [(perm[i], perm[i + 1]) for i in range(n - 1)] + ([(perm[-1], perm[0])] if x > .9 else [])
            ch = r.sample(es, min(len(es), r.randint(0, n)))
            es = []
            for u, v in pth + ch:
                if self.und and u > v:
                    u, v = v, u
                if (u, v) not in es:
                    es.append((u, v))
        return es

    def wt(self, r):
        x = r.random()
        if x < .6:
            return r.randint(self.wlo, self.whi)
        if x < .8:
            return r.randint(self.wlo, min(self.whi, self.wlo + 2))
        if x < .9:
            return r.randint(self.wlo, self.whi) * 100 + r.randint(0, 2) if self.wlo >= 0 else r.randint(self.wlo, self.whi)
        return r.randint(self.wlo, self.whi) + .5

    def gen(self, r):
        n = 1 + r.size(self.mxn - 1) if r.chance(.97) else r.randint(10, 24)
        n = min(n, 26)
        es = self.edges(r, n)
        if self.und:
            es = [(u, v) if r.chance(.5) else (v, u) for u, v in es]
        if self.weighted:
            es = [(u, v, self.wt(r)) for u, v in es]
        r.shuffle(es)
        c = dict(n=n, e=[list(e) for e in es], ds=r.choice(['List', 'Matrix']) if self.both else 'List')
        self.more(r, c)
        return c

    def more(self, r, c):
        pass

    def nontrivial(self, c):
        return len(c['e']) > 1

    def succ(self, c):
        s = {i: [] for i in range(c['n'])}
        for e in c['e']:
            s[e[0]].append(e[1])
            if self.und:
                s[e[1]].append(e[0])
        return s


def reach(succ, s):
    seen, todo = {s: 0}, [s]
    for x in todo:
        for y in succ[x]:
            if y not in seen:
                seen[y] = seen[x] + 1
                todo.append(y)
    return seen
