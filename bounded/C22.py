"""Graph representations against sets of vertices and edges."""
from .h import *

V = 'abcde'


class Rep(Hist):
    files = ['graphs/adjacency_list.py', 'graphs/adjacency_matrix.py', 'graphs/graph.py', 'utils/misc_util.py']
    ds = 'List'
    maxlen = 3
    mx = 25
    inits = (['abc', 0],)

    def alphabet(self):
        for x, y in ('ab', 'ba', 'aa', 'bc'):
            yield ['edge', x, y, 1]
            yield ['edge', x, y, None]
            yield ['unedge', x, y]
        if self.ds == 'List':
            yield ['vert', 'd']
            yield ['vert', 'a']
            yield ['unvert', 'a']
            yield ['unvert', 'b']
            yield ['again', 'a']

    def init(self, r):
        return [V[:r.randint(0, 5)], r.randint(0, 1)]

    def op(self, r, c):
        x = r.choice(V)
        y = r.choice(V)
        if self.ds == 'List' and r.chance(.3):
            return [r.choice(['vert', 'unvert', 'again']), x]
        return r.choice([['edge', x, y, r.choice([None, r.randint(0, 9), 1.5])]] * 2 + [['unedge', x, y]])

    def run(self, c):
        import pydatastructs as p
        import pydatastructs.utils.misc_util as u
        N = getattr(u, 'Adjacency' + self.ds + 'GraphNode')
        nodes, gone = {}, {}
        verts = list(c['init'][0])
        for v in verts:
            nodes[v] = N(v, 'd' + v)
        E, W = set(), {}
        if c['init'][1] and self.ds == 'List' and len(verts) > 1:      # adjacency given on construction
            nodes[verts[0]] = N(verts[0], 'd' + verts[0], adjacency_list=[nodes[v] for v in verts[1:]])
            E = {(verts[0], v) for v in verts[1:]}
        g = p.Graph(*[nodes[v] for v in verts], implementation='adjacency_' + self.ds.lower())
        self.inv(g, verts, E, W, nodes, 'after construction')
        for op in c['ops']:
            o = op[0]
            w = 'after %r' % (op,)
            if o in ('vert', 'again'):
                x = op[1]
                n = gone.get(x) if o == 'again' else None
                n = n or N(x, 'new' + x)
                g.add_vertex(n)
                if x not in verts:
                    verts.append(x)
                    nodes[x] = n
            elif o == 'unvert':
                if op[1] in verts:
                    gone[op[1]] = nodes.pop(op[1])
                    g.remove_vertex(op[1])
                    verts.remove(op[1])
                    E = {e for e in E if op[1] not in e}
                    W = {e: x for e, x in W.items() if op[1] not in e}
            elif o == 'edge':
                if op[1] in verts and op[2] in verts:
                    g.add_edge(op[1], op[2], op[3]) if op[3] is not None else g.add_edge(op[1], op[2])
                    E.add((op[1], op[2]))
                    if op[3] is not None:
                        W[op[1], op[2]] = op[3]
                else:
                    must_raise(ValueError, 'add_edge with an unknown vertex', g.add_edge, op[1], op[2], op[3])
            else:
                if (op[1], op[2]) in E:
                    g.remove_edge(op[1], op[2])
                    E.discard((op[1], op[2]))
                    W.pop((op[1], op[2]), None)
            self.inv(g, verts, E, W, nodes, w)

    def inv(self, g, verts, E, W, nodes, w):
        eq(sorted(g.vertices), sorted(verts), w + ': vertices')
        eq(g.num_vertices(), len(verts), w + ': num_vertices')
        eq(g.num_edges(), len(E), w + ': num_edges')
        for x in verts:
            nb = g.neighbors(x)
            eq(sorted(n.name for n in nb), sorted(b for a, b in E if a == x), '%s: neighbors of %s' % (w, x))
            check(all(n is nodes[n.name] for n in nb), w + ': neighbors are not the vertices of the graph')
            for y in verts:
                eq(g.is_adjacent(x, y), (x, y) in E, '%s: is_adjacent(%s, %s)' % (w, x, y))
        for x in V:
            for y in V:
                e = g.get_edge(x, y)
                eq(e and (e.source.name, e.target.name, e.value), (x, y, W[x, y]) if (x, y) in W else None, '%s: get_edge(%s, %s)' % (w, x, y))
        eq(len(g.edge_weights), len(W), w + ': number of weighted edges')


@target
class AdjList(Rep):
    covers = ('AdjacencyList', 'AdjacencyListGraphNode')


@target
class AdjMatrix(Rep):
    covers = ('AdjacencyMatrix', 'AdjacencyMatrixGraphNode')
    ds = 'Matrix'


@target
class Names(Target):
    """weights of edges between vertices with arbitrary names"""
    files = Rep.files
    covers = ('AdjacencyList', 'AdjacencyMatrix')

    def small(self):
        yield ['a', 'b', 'c', 'd']
        yield ['v_1', 'v_2', 'v_3', 'v_4']
        yield ['a_b', 'c', 'a', 'b_c']

    def gen(self, r):
        return list({''.join(r.choice('abx1') for _ in range(r.randint(1, 3))) + r.choice(['', '', '_']) + r.choice(['', '1', '2']) for _ in range(r.randint(2, 5))})

    def known(self, c):
        keys = [a + '_' + b for a in c for b in c]
        return 'K01' if len(set(keys)) < len(keys) else None

    def run(self, c):
        import pydatastructs as p
        import pydatastructs.utils.misc_util as u
        for ds in ('List', 'Matrix'):
            g = p.Graph(*[getattr(u, 'Adjacency' + ds + 'GraphNode')(v) for v in c], implementation='adjacency_' + ds.lower())
            k = 0
            for a in c:
                for b in c:
                    k += 1
                    g.add_edge(a, b, k)
            k = 0
            for a in c:
                for b in c:
                    k += 1
                    e = g.get_edge(a, b)
                    eq(e and e.value, k, '%s: weight of %s -> %s' % (ds, a, b))
            eq(g.num_edges(), len(c) ** 2, 'num_edges')
