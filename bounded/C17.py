"""Self-balancing trees: balance invariants and contents against a dict."""
from .t import *


@target
class AVL(TreeHist):
    cls = 'AVLTree'
    covers = ('AVLTree', 'SelfBalancingBinaryTree')

    def extra(self, b, post, w):
        h = {None: -1}
        for i in post:
            n = b.tree[i]
            h[i] = 1 + max(h[n.left], h[n.right])
            eq(n.height, h[i], w + ': stored height of %r' % (n.key,))
            check(abs(h[n.left] - h[n.right]) <= 1, w + ': node %r is out of balance' % (n.key,))


@target
class RedBlack(TreeHist):
    cls = 'RedBlackTree'
    covers = ('RedBlackTree', 'SelfBalancingBinaryTree')

    def extra(self, b, post, w):
        T = b.tree
        eq(T[b.root_idx].color, 0, w + ': colour of the root')
        bh = {None: 0}
        for i in post:
            n = T[i]
            eq(bh[n.left], bh[n.right], w + ': black heights below %r' % (n.key,))
            bh[i] = bh[n.left] + (n.color == 0)
            check(n.color in (0, 1), w + ': colour %r' % (n.color,))
            if n.color == 1:
                for x in (n.left, n.right):
                    check(x is None or T[x].color == 0, w + ': red %r has a red child' % (n.key,))


class Prio(TreeHist):
    def extra(self, b, post, w):
        for i in post:
            n = b.tree[i]
            for x in (n.left, n.right):
                check(x is None or b.tree[x].priority >= n.priority, w + ': child of %r has a smaller priority' % (n.key,))
            if self.prio:
                eq(n.priority, self.prio[n.key], w + ': priority of %r' % (n.key,))


@target
class Cartesian(Prio):
    cls = 'CartesianTree'
    covers = ('CartesianTree', 'SelfBalancingBinaryTree')

    def ins(self, b, k, v):
        pr = (v * 37 + k * 11) % 17
        self.prio[k] = pr
        b.insert(k, pr, v)


@target
class TreapT(Prio):
    cls = 'Treap'
    covers = ('Treap', 'CartesianTree')

    def run(self, c):
        import random
        s = random.getstate()
        random.seed(len(c['ops']) + sum(o[1] for o in c['ops']))
        try:
            super().run(c)
        finally:
            random.setstate(s)


class SplayBase:
    def after_insert(self, b, k, w):
        eq(b.tree[b.root_idx].key, k, w + ': key at the root')


@target
class Splay(SplayBase, TreeHist):
    cls = 'SplayTree'
    covers = ('SplayTree', 'SelfBalancingBinaryTree')


@target
class SplayJoin(Target):
    """split and join"""
    files = SRC
    covers = ('SplayTree.join', 'SplayTree.split')

    def small(self):
        import itertools
        for n in range(0, 5):
            for p in itertools.permutations(range(1, n + 1)):
                for x in range(0, n + 2):
                    yield dict(a=list(p), d=[], x=x, comp=None, sizes=True, b=[])
                    yield dict(a=list(p), d=[n], x=x, comp=None, sizes=True, b=[11, 10])
                    yield dict(a=list(p), d=[1, n], x=x, comp='gt', sizes=False, b=[-5, -3, -4])

    def gen(self, r):
        n = r.size(25)
        return dict(a=r.sample(range(1, 40), min(n, 39)), d=[r.randint(1, 39) for _ in range(r.size(30))], x=r.randint(0, 40),
                    comp=r.choice([None, 'gt']), sizes=r.random() < .6, b=r.sample(range(50, 70), r.randint(0, 8)))

    def run(self, c):
        import pydatastructs as p
        o = TreeHist.ORD[c['comp']]

        def mk(ks, ds):
            t = p.SplayTree(comp=None if c['comp'] is None else o, is_order_statistic=c['sizes'])
            ref = {}
            for k in ks:
                t.insert(k, k * 2)
                ref[k] = k * 2
            for k in ds:
                t.delete(k)
                ref.pop(k, None)
            return t, ref
        t, ref = mk(c['a'], c['d'])
        s = t.split(c['x'])
        if c['x'] not in ref:
            eq(s, None, 'split at an absent key')
            audit(t, ref, 'after split at an absent key', o, c['sizes'])
            lo, hi = dict(ref), None
        else:
            lo = {k: v for k, v in ref.items() if not o(c['x'], k)}
            hi = {k: v for k, v in ref.items() if o(c['x'], k)}
            audit(t, lo, 'lower part of split(%r)' % c['x'], o, c['sizes'])
            audit(s, hi, 'upper part of split(%r)' % c['x'], o, c['sizes'])
            eq(t.tree[t.root_idx].key, c['x'], 'root after split')
            t.insert(c['x'], 0)
            lo[c['x']] = 0
            t.join(s)
            lo.update(hi)
            audit(t, lo, 'after joining again', o, c['sizes'])
            audit(s, hi, 'the other tree after join', o, c['sizes'])
        u, r2 = mk([k if c['comp'] is None else -abs(k) for k in c['b']], [])
        if lo and r2 and any(not o(x, y) for x in lo for y in r2):
            must_raise(ValueError, 'join of overlapping trees', t.join, u)
            return
        t.join(u)
        lo.update(r2)
        audit(t, lo, 'after join', o, c['sizes'])
        audit(u, r2, 'the other tree after join', o, c['sizes'])
        t.insert(45, 1)
        lo[45] = 1
        audit(t, lo, 'insert after join', o, c['sizes'])
        queries(t, lo, 'after join', [0, 45, 50], o, c['sizes'])
