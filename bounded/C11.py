"""Binomial heaps against multisets, with a structural walk."""
from .h import *


def order(xs):
    return sorted(xs, key=lambda x: (x[0], x[1] is not None, x[1] or 0))


@target
class BinomialHeap(Hist):
    files = ['trees/heaps.py', 'miscellaneous_data_structures/binomial_trees.py']
    covers = ('BinomialHeap', 'BinomialTree')
    maxlen = 4
    inits = ([0, 0], [3, 1], [7, 7], [5, 3])

    def alphabet(self):
        yield ['insert', 0, 5]
        yield ['insert', 0, -1]
        yield ['delmin', 0]
        yield ['merge', 0]
        yield ['dec', 0, 2, 4]
        yield ['del', 0, 1]

    def init(self, r):
        return [r.size(17), r.size(17)]

    def op(self, r, c):
        i = r.randrange(2)
        return r.choice([['insert', i, r.randint(0, 30)]] * 3 + [['delmin', i]] * 2 + [['merge', i], ['dec', i, r.randrange(99), r.randint(1, 20)],
                        ['del', i, r.randrange(99)], ['decbad', i, r.randrange(99)]])

    def run(self, c):
        import pydatastructs as p
        hs = [p.BinomialHeap(), p.BinomialHeap()]
        ref = [[], []]
        ops = [['insert', i, (7 * k) % 11] for i in (0, 1) for k in range(c['init'][i])] + c['ops']
        cnt = 0
        for op in ops:
            i = op[1]
            h, rf = hs[i], ref[i]
            o = op[0]
            if o == 'insert':
                cnt += 1
                d = None if cnt % 3 == 1 else cnt
                h.insert(op[2], d)
                rf.append((op[2], d))
            elif o == 'delmin':
                if not rf:
                    must_raise(IndexError, 'find_minimum of an empty heap', h.find_minimum)
                    must_raise(IndexError, 'delete_minimum of an empty heap', h.delete_minimum)
                else:
                    m = h.find_minimum()
                    x = (m.key, m.data)
                    check(x in rf and x[0] == min(y[0] for y in rf), 'find_minimum %r of %r' % (x, order(rf)))
                    h.delete_minimum()
                    rf.remove(x)
            elif o == 'merge':
                h.merge(hs[1 - i])
                rf += ref[1 - i]
                hs[1 - i] = p.BinomialHeap()
                ref[1 - i] = []
            elif rf:
                ns = self.nodes(h)
                x = ns[op[2] % len(ns)]
                kd = (x.key, x.data)
                if o == 'dec':
                    h.decrease_key(x, x.key - op[3])
                    rf.remove(kd)
                    rf.append((kd[0] - op[3], kd[1]))
                elif o == 'decbad':
                    must_raise(ValueError, 'decrease_key to the same key', h.decrease_key, x, x.key)
                else:
                    h.delete(x)
                    rf.remove(kd)
            for j in (0, 1):
                self.inv(hs[j], ref[j], 'after %r' % (op,))

    def nodes(self, h):
        out, st = [], [t.root for t in h.root_list]
        while st:
            x = st.pop()
            out.append(x)
            check(len(out) < 5000, 'cyclic heap')
            st += [y for y in x.children if y is not None]
        return out

    def inv(self, h, ref, w):
        ns = self.nodes(h)
        eq(len({id(x) for x in ns}), len(ns), w + ': shared nodes')
        eq(order((x.key, x.data) for x in ns), order(ref), w + ': contents')
        eq(h.is_empty, not ref, w + ': emptiness')
        orders = [t.order for t in h.root_list]
        check(all(a < b for a, b in zip(orders, orders[1:])), w + ': root orders %r' % orders)
        for t in h.root_list:
            check(t.root.is_root, w + ': root flag')
            self.tree(t.root, t.order, w)
        if ref:
            m = h.find_minimum()
            check((m.key, m.data) in ref and m.key == min(y[0] for y in ref), w + ': find_minimum %r' % ((m.key, m.data),))

    def tree(self, x, k, w):
        ch = [y for y in x.children if y is not None]
        eq(len(ch), k, w + ': children of a node of order %d' % k)
        for i, y in enumerate(ch):
            check(y.parent is x and not y.is_root, w + ': parent link')
            check(x.key <= y.key, w + ': heap order %r above %r' % (x.key, y.key))
            self.tree(y, i, w)
