"""Traversals of every tree shape."""
from .h import *


@target
class Traverse(Target):
    files = ['trees/binary_trees.py']
    covers = ('BinaryTreeTraversal',)

    def small(self):
        import itertools
        for n in range(1, 6):
            for p in itertools.permutations(range(n)):
                yield dict(k=list(p), d=[], t='BinarySearchTree')
        for n in range(3, 6):
            for p in itertools.permutations(range(n)):
                yield dict(k=list(p), d=[p[-1], 0], t='SplayTree')

    def gen(self, r):
        n = r.size(30)
        k = [r.randint(0, 60) for _ in range(max(1, n))]
        return dict(k=k, d=[r.choice(k) for _ in range(r.size(20))], t=r.choice(['BinarySearchTree', 'AVLTree', 'RedBlackTree', 'Treap', 'SplayTree']))

    def run(self, c):
        import pydatastructs as p
        b = getattr(p, c['t'])()
        for k in c['k']:
            b.insert(k, k)
        for k in c['d']:
            b.delete(k)
        T = b.tree
        if T[b.root_idx].key is None:
            raise Skip
        snap = [(T[i] and (T[i].key, T[i].data, T[i].left, T[i].right, T[i].parent)) for i in range(T._size)]

        def pre(i):
            return [] if i is None else [T[i].key] + pre(T[i].left) + pre(T[i].right)

        def ino(i):
            return [] if i is None else ino(T[i].left) + [T[i].key] + ino(T[i].right)

        def post(i):
            return [] if i is None else post(T[i].left) + post(T[i].right) + [T[i].key]

        def lev(i):
            out, q = [], [i]
            while q:
                j = q.pop(0)
                out.append(T[j].key)
                q += [x for x in (T[j].left, T[j].right) if x is not None]
            return out
        tr = p.BinaryTreeTraversal(b)
        live = [i for i in range(T._last_pos_filled + 1) if T[i] is not None]
        for node in [None] + live:
            i = b.root_idx if node is None else node
            for o, f in (('pre_order', pre), ('in_order', ino), ('post_order', post), ('out_order', lambda i: ino(i)[::-1])):
                v = tr.depth_first_search(order=o, node=node)
                check(isinstance(v, list), '%s does not return a list' % o)
                eq([n.key for n in v], f(i), '%s from %r' % (o, node))
                check(all(any(n is T[x] for x in live) for n in v), '%s returns foreign nodes' % o)
            eq([n.key for n in tr.breadth_first_search(node=node)], lev(i), 'breadth_first_search from %r' % (node,))
        eq([(T[i] and (T[i].key, T[i].data, T[i].left, T[i].right, T[i].parent)) for i in range(T._size)], snap, 'the tree')
        must_raise(NotImplementedError, 'unknown order', tr.depth_first_search, order='morris')
        must_raise(NotImplementedError, 'unknown strategy', tr.breadth_first_search, strategy='x')
        must_raise(TypeError, 'traversing a non-tree', p.BinaryTreeTraversal, 3)
