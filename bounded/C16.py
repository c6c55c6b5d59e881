"""Binary search trees against a dict."""
from .t import *


@target
class BST(TreeHist):
    cls = 'BinarySearchTree'
    covers = ('BinarySearchTree', 'BinaryTree', 'ArrayForTrees')


@target
class Root(Target):
    """construction with a root"""
    files = SRC
    covers = ('BinaryTree', 'BinarySearchTree')

    def small(self):
        for k in (1, 5):
            for ops in ([], [['i', 3, 3]], [['i', 3, 3], ['d', k]], [['d', k], ['i', 7, 7]], [['d', 4], ['i', k, 0]]):
                yield [k, k + 1, ops]

    def gen(self, r):
        return [r.randint(0, 9), r.randint(0, 9), [r.choice([['i', r.randint(0, 9), 1], ['d', r.randint(0, 9)]]) for _ in range(r.size(10))]]

    def run(self, c):
        import pydatastructs as p
        for cls in ('BinarySearchTree', 'AVLTree', 'RedBlackTree', 'Treap', 'SplayTree'):
            b = getattr(p, cls)(c[0], c[1])
            ref = {c[0]: c[1]}
            audit(b, ref, cls)
            for op in c[2]:
                if op[0] == 'i':
                    b.insert(op[1], op[2])
                    ref[op[1]] = op[2]
                else:
                    b.delete(op[1])
                    ref.pop(op[1], None)
                audit(b, ref, '%s after %r' % (cls, op))
            queries(b, ref, cls, [0, 3, 5, 9])
        must_raise(ValueError, 'a root without key', p.BinarySearchTree, None, 1)
