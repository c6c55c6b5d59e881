"""Dynamic one-dimensional arrays against a list of live elements."""
from .h import *


@target
class Dynamic(Hist):
    files = ['linear_data_structures/arrays.py']
    covers = ('DynamicOneDimensionalArray.append', 'delete', '_modify', '__new__', '__reversed__', '__str__')
    maxlen = 3
    inits = ([0, 0, .25], [0, 3, .25], [1, [1, 2, 3], .25], [1, [], .25], [1, [1, 2, 3, 4, 5, 6], .5], [1, [5], .75], [1, [1, 2], 1.0], [1, [1, 2, 3, 4], .6])

    def alphabet(self):
        yield ['append', 0]
        for i in (-1, 0, 1, 2, 3, 5):
            yield ['delete', i]
        yield ['set', 0, 0]
        yield ['force']

    def init(self, r):
        lf = r.choice([.25, .25, .1, .5, .75, 1.0, .33, .6])
        if r.chance(.3):
            return [0, r.size(8), lf]
        return [1, [r.randint(0, 9) for _ in range(r.size(10))], lf]

    def op(self, r, c):
        k = r.random()
        ph = len(c['ops']) // 6 % 2
        if k < (.65 if ph else .35):
            return ['append', r.randint(0, 99)]
        if k < .9:
            return ['delete', r.choice([r.randint(-2, 12), ['live', r.randrange(99)], ['last'], ['live', r.randrange(99)]])]
        if k < .97:
            return ['set', r.randrange(99), r.randint(100, 199)]
        return ['force']

    def run(self, c):
        import pydatastructs as p
        form, arg, lf = c['init']
        a = p.DynamicOneDimensionalArray(int, list(arg) if form else arg, load_factor=lf)
        live = list(arg) if form else []
        self.inv(a, live, 'after construction')
        for k, op in enumerate(c['ops']):
            pos = [i for i in range(a.size) if a[i] is not None]
            if op[0] == 'append':
                v = op[1] or 1000 + k
                a.append(v)
                live.append(v)
            elif op[0] == 'delete':
                i = op[1]
                if isinstance(i, list):
                    if not pos:
                        continue
                    i = pos[-1] if i[0] == 'last' else pos[i[1] % len(pos)]
                before = list(a._data)
                a.delete(i)
                if i in pos:
                    del live[pos.index(i)]
                else:
                    eq(list(a._data), before, 'array after deleting the unoccupied index %d' % i)
            elif op[0] == 'set':
                if pos:
                    j = op[1] % len(pos)
                    a[pos[j]] = op[2]
                    live[j] = op[2] 
            else:
                a._modify(force=True)
            self.inv(a, live, 'after %r' % (op,))

    def inv(self, a, live, w):
        got = [a[i] for i in range(len(a))]
        eq([x for x in got if x is not None], live, w + ': live elements')
        eq(a.size, len(a), w + ': size and length')
        eq(a._num, len(live), w + ': element count')
        last = max([i for i, x in enumerate(got) if x is not None], default=-1)
        check(last <= a._last_pos_filled < max(a.size, 1), w + ': last filled position %d with contents %r' % (a._last_pos_filled, got))
        eq([x for x in list(reversed(a)) if x is not None], live[::-1], w + ': reversed iteration')
        n = a._last_pos_filled + 1
        eq(str(a), str(['' if x is None else str(x) for x in got[:n]]), w + ': string form')
