"""shared helpers for the search-tree targets: structural audit of a pydatastructs tree against a reference map"""
import random as _random
from .h import *

SRC = ['trees/binary_trees.py', 'linear_data_structures/arrays.py']


def empty(b):
    return b.tree[b.root_idx].key is None


def audit(b, ref, w, order=lambda a, c: a < c, sizes=False, extra=None, checknum=True):
    """structure = binary search tree of exactly the keys of ref with consistent links; returns list of (idx, depth)"""
    T = b.tree
    live = [i for i in range(T._last_pos_filled + 1) if T[i] is not None]
    if checknum:
        eq(T._num, len(live), w + ': node count of the array of nodes')
    eq(b.size, T._last_pos_filled + 1, w + ': size counter')
    if not ref:
        check(empty(b), w + ': empty tree still has a root key %r' % (b.tree[b.root_idx].key,))
        check(T[b.root_idx].left is None and T[b.root_idx].right is None and T[b.root_idx].parent is None, w + ': links at the root of an empty tree')
        eq(live, [b.root_idx], w + ': nodes of an empty tree')
        return []
    root = b.root_idx
    check(root is not None and T[root] is not None, w + ': root position %r is not a node' % (root,))
    eq(T[root].parent, None, w + ': parent of the root')
    out, seen = [], set()
    st = [(root, False)]
    post = []
    while st:
        i, done = st.pop()
        if done:
            post.append(i)
            continue
        check(i not in seen, w + ': position %r reached twice' % (i,))
        seen.add(i)
        n = T[i]
        check(n is not None, w + ': link to the empty position %r' % (i,))
        st.append((i, True))
        for c in (n.left, n.right):
            if c is not None:
                check(T[c] is not None, w + ': link from %r to the empty position %r' % (n.key, c))
                eq(T[c].parent, i, w + ': parent link of %r' % (T[c].key,))
                st.append((c, False))
    eq(seen, set(live), w + ': reachable positions and filled positions')

    def inorder(i):
        r, s = [], []
        while s or i is not None:
            if i is not None:
                s.append(i)
                i = T[i].left
            else:
                i = s.pop()
                r.append(i)
                i = T[i].right
        return r
    io = inorder(root)
    ks = [T[i].key for i in io]
    for x, y in zip(ks, ks[1:]):
        check(order(x, y) and not order(y, x), w + ': in-order keys %r are not strictly increasing' % (ks,))
    eq(sorted(map(repr, ks)), sorted(map(repr, ref)), w + ': keys')
    eq({k: T[i].data for k, i in zip(ks, io)}, dict(ref), w + ': data of the keys')
    if sizes:
        sz = {None: 0}
        for i in post:
            sz[i] = 1 + sz[T[i].left] + sz[T[i].right]
            eq(T[i].size, sz[i], w + ': subtree size of %r' % (T[i].key,))
    if extra:
        extra(b, post, w)
    return io


def queries(b, ref, w, probe, order=lambda a, c: a < c, sizes=False, lca=True):
    import functools
    cmp = functools.cmp_to_key(lambda a, c: -1 if order(a, c) else (1 if order(c, a) else 0))
    ks = sorted(ref, key=cmp)
    for x in probe:
        i = b.search(x)
        eq(None if i is None else b.tree[i].key, x if x in ref else None, w + ': search(%r)' % x)
        eq(b.lower_bound(x), next((k for k in ks if not order(k, x)), None), w + ': lower_bound(%r)' % x)
        eq(b.upper_bound(x), next((k for k in ks if order(x, k)), None), w + ': upper_bound(%r)' % x)
        if sizes:
            eq(b.rank(x), ks.index(x) + 1 if x in ref else None, w + ': rank(%r)' % x)
    if sizes:
        for j, k in enumerate(ks):
            eq(b.select(j + 1).key, k, w + ': select(%d)' % (j + 1))
        must_raise(ValueError, w + ': select(0)', b.select, 0)
        must_raise(ValueError, w + ': select(%d)' % (len(ks) + 1), b.select, len(ks) + 1)
    if lca and ks:
        def path(x):
            p = [b.search(x)]
            while b.tree[p[-1]].parent is not None:
                p.append(b.tree[p[-1]].parent)
            return p[::-1]
        r = _random.Random(len(ks))
        prs = [(x, y) for x in ks for y in ks] if len(ks) <= 5 else [(r.choice(ks), r.choice(ks)) for _ in range(12)]
        for x, y in prs:
            a = None
            for u, v in zip(path(x), path(y)):
                if u == v:
                    a = b.tree[u].key
            for alg in (1, 2):
                eq(b.lowest_common_ancestor(x, y, alg), a, w + ': lowest_common_ancestor(%r, %r, %d)' % (x, y, alg))
        absent = [x for x in probe if x not in ref]
        for x in absent[:1]:
            for alg in (1, 2):
                must_raise(ValueError, w + ': lowest_common_ancestor of the absent %r' % x, b.lowest_common_ancestor, x, ks[0], alg)


class TreeHist(Hist):
    """insert / delete histories of one tree class against a dict"""
    files = SRC
    cls = ''
    maxlen = 5
    mx = 40
    inits = (dict(comp=None, sizes=True),)
    sizes = True

    def alphabet(self):
        for k in (1, 2, 3):
            yield ['i', k, k]
            yield ['d', k]

    def small(self):
        import itertools
        for n in range(1, 8):
            if n > 6:
                r = _random.Random(7)
                ps = [r.sample(range(1, n + 1), n) for _ in range(120)]
            else:
                ps = itertools.permutations(range(1, n + 1))
            for p in ps:
                for d in (range(1, n + 1) if n < 6 else (p[0], p[n // 2])):
                    yield dict(init=self.inits[0], ops=[['i', k, k] for k in p] + [['d', d], ['d', d % n + 1], ['i', d, -d], ['d', 99]])
        yield from super().small()

    def init(self, r):
        return dict(comp=r.choice([None, None, 'gt', 'neg']), sizes=r.random() < .7)

    def op(self, r, c):
        m = c.setdefault('n', r.choice([4, 8, 30]))
        ph = len(c['ops']) // r.choice([8, 10, 16])
        return r.choice([['i', r.randint(0, m), r.randint(0, 99)]] * (1 if ph % 2 else 3) + [['d', r.randint(0, m)]] * (3 if ph % 2 else 1))

    ORD = {None: lambda a, c: a < c, 'gt': lambda a, c: a > c, 'neg': lambda a, c: -a < -c}

    def make(self, init):
        import pydatastructs as p
        o = self.ORD[init['comp']]
        return getattr(p, self.cls)(comp=None if init['comp'] is None else o, is_order_statistic=init['sizes'])

    def ins(self, b, k, v):
        b.insert(k, v)

    def rem(self, b, k):
        return b.delete(k)

    def extra(self, b, post, w):
        pass

    def after_insert(self, b, k, w):
        pass

    def run(self, c):
        init = c['init']
        o = self.ORD[init['comp']]
        b = self.make(init)
        ref = {}
        self.prio = {}
        probe = {-1, 0, 99}
        for op in c['ops']:
            w = 'after %r' % (op,)
            probe.add(op[1])
            if op[0] == 'i':
                self.ins(b, op[1], op[2])
                ref[op[1]] = op[2]
                self.after_insert(b, op[1], w)
            else:
                v = self.rem(b, op[1])
                eq(bool(v), op[1] in ref, w + ': result of delete')
                ref.pop(op[1], None)
                self.prio.pop(op[1], None)
            audit(b, ref, w, o, init['sizes'] and self.sizes, self.extra)
        queries(b, ref, 'after %r' % (c['ops'][-3:],), sorted(probe)[:12], o, init['sizes'] and self.sizes)
