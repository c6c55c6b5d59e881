from .common import *
from .arrays import oda, ARR
from .lemmas import adj_sorted, adj_
from . import register

ALG = 'linear_data_structures.algorithms:'


class SortBase(Contract):
    variants = ('default', 'explicit', 'doda')
    uses = ('ODA_getitem_in', 'ODA_setitem_t', 'ODA_len', )
    user_comp = True

    def setup(self, x):
        if x.variant == 'doda':
            from .arrays import doda
            arr = doda(x, 'a0')
            n = x['n'] = x.P(arr)._size
        else:
            n = x['n'] = x.int('n')
            arr = oda(x, 'a0', n=n)
        x['array'] = arr
        a0 = x['a0'] = z3.Const('a0', z3.ArraySort(IntS, E))
        x.assume(tags_(a0, 0, n))
        kw = {}
        if x.variant == 'explicit':
            kw = {'start': x.int('start'), 'end': x.int('end')}
            x.assume(And(x.int('start') >= 0, x.int('end') < n))
            if self.user_comp:
                kw['comp'] = comp_le()
            x['lo'], x['hi'] = x.int('start'), x.int('end')
        else:
            x['lo'], x['hi'] = IntVal(0), n - 1
        self.more_setup(x, kw)
        return [arr], kw

    def more_setup(self, x, kw):
        pass

    def modifies(self, c):
        if c.cx.variant == 'doda':
            s = c.o('array')
            return [('list', s._data.v, 'both'), ('fld', s.v, '_data'), ('fld', s.v, '_size'), ('fld', s.v, '_last_pos_filled')]
        return [('list', c.o('array')._data.v, 'arr')]

    returns_array = True

    def post(self, c):
        x = c.cx
        lo, hi, n, a0 = x['lo'], x['hi'], x['n'], x['a0']
        s = c.n('array')
        if x.variant == 'doda':
            # the array object is left sorted, with the same elements, possibly compacted
            from .arrays import doda_sorted_post
            return doda_sorted_post(c, x)
        a = s._data.arr
        out = [('sorted', sorted_(a, lo, hi + 1)),
               ('permutation', perm_(a, a0, 0, n)),
               ('outside-range-unchanged', same_out(a, a0, n, lo, hi + 1))]
        if self.returns_array:
            out.append(('returns-array', BoolVal(isinstance(c.res_v, VCell) and c.res_v == c.raw('array'))))
        return out


def A(v):
    return v.array._data.arr


def core(v):
    """perm + frame on the current array contents"""
    c = v.c
    return [('permutation', perm_(A(v), c['a0'], 0, c['n'])),
            ('outside', same_out(A(v), c['a0'], c['n'], c['lo'], c['hi'] + 1))]


@register
class InsertionSort(SortBase):
    name = ALG + 'insertion_sort'
    variants = ('default', 'explicit')

    @staticmethod
    def outer(v):
        return core(v) + [('sorted-prefix', sorted_(A(v), v.c['lo'], v.i))]

    @staticmethod
    def inner(v):
        c = v.c
        a, i, j, t = A(v), v.i, v.j, v.temp
        b = Store(a, j, t)
        return [('j-range', And(c['lo'] <= j, j <= i)),
                ('permutation', perm_(b, c['a0'], 0, c['n'])),
                ('outside', same_out(a, c['a0'], c['n'], c['lo'], c['hi'] + 1)),
                ('sorted-except-hole', sorted_(a, c['lo'], i + 1, skip=j)),
                ('shifted-greater', fa('q', lambda q: Implies(And(j < q, q <= i), Not(compf(a[q], t))), lambda q: a[q]))]

    loops = {1: LoopSpec(inv=lambda v: InsertionSort.outer(v)),
             2: LoopSpec(inv=lambda v: InsertionSort.inner(v), variant=lambda v: v.j)}




@register
class BubbleSort(SortBase):
    name = ALG + 'bubble_sort'
    variants = ('default', 'explicit')

    @staticmethod
    def tail(v, i, j=None):
        """the i last positions (and, during a pass, the next one once passed) are final"""
        c, a = v.c, A(v)
        fin = lambda q: q > c['hi'] - i if j is None else Or(q > c['hi'] - i, And(q == c['hi'] - i, q <= j))
        return fa('p q', lambda p, q: Implies(And(c['lo'] <= p, p < q, q <= c['hi'], fin(q)), ord_(a[p], a[q])),
                  lambda p, q: (a[p], a[q]))

    loops = {1: LoopSpec(inv=lambda v: core(v) + [('sorted-suffix', BubbleSort.tail(v, v.i))]),
             2: LoopSpec(inv=lambda v: core(v) + [('sorted-suffix', BubbleSort.tail(v, v.i, v.j)),
                         ('max-so-far', fa('p', lambda p: Implies(And(v.c['lo'] <= p, p < v.j), ord_(A(v)[p], A(v)[v.j])), lambda p: A(v)[p]))])}


@register
class SelectionSort(SortBase):
    name = ALG + 'selection_sort'
    variants = ('default', 'explicit')

    @staticmethod
    def pre_(v):
        c, a, i = v.c, A(v), v.i
        return fa('p q', lambda p, q: Implies(And(c['lo'] <= p, p < q, q <= c['hi'], p < i), ord_(a[p], a[q])),
                  lambda p, q: (a[p], a[q]))
    loops = {1: LoopSpec(inv=lambda v: core(v) + [('sorted-prefix', SelectionSort.pre_(v))]),
             2: LoopSpec(inv=lambda v: core(v) + [('sorted-prefix', SelectionSort.pre_(v)), ('jmin-range', And(v.i <= v.jMin, v.jMin < v.j)),
                         ('jmin-minimal', fa('q', lambda q: Implies(And(v.i <= q, q < v.j), ord_(A(v)[v.jMin], A(v)[q])), lambda q: A(v)[q]))])}


@register
class CocktailSort(SortBase):
    name = ALG + 'cocktail_shaker_sort'
    variants = ('default', 'explicit')

    @staticmethod
    def placed(v, lower, upper):
        c, a = v.c, A(v)
        return fa('p q', lambda p, q: Implies(And(c['lo'] <= p, p < q, q <= c['hi'], Or(p < lower, q > upper)), ord_(a[p], a[q])),
                  lambda p, q: (a[p], a[q]))

    @staticmethod
    def base(v):
        c = v.c
        return core(v) + [('bounds', And(c['lo'] <= v.lower, v.upper <= c['hi'])),
                          ('placed', CocktailSort.placed(v, v.lower, v.upper))]
    loops = {1: LoopSpec(inv=lambda v: CocktailSort.base(v) + [('no-swap-sorted', Implies(v.swapping, sorted_(A(v), v.c['lo'], v.c['hi'] + 1)))],
                         variant=lambda v: v.upper - v.lower),
             2: LoopSpec(inv=lambda v: CocktailSort.base(v) + [
                 ('max-so-far', fa('p', lambda p: Implies(And(v.lower <= p, p < v.j), ord_(A(v)[p], A(v)[v.j])), lambda p: A(v)[p])),
                 ('no-swap-sorted', Implies(v.swapping, sorted_(A(v), v.lower, v.j + 1)))]),
             3: LoopSpec(inv=lambda v: CocktailSort.base(v) + [
                 ('min-so-far', fa('q', lambda q: Implies(And(v.j < q, q <= v.upper), ord_(A(v)[v.j], A(v)[q])), lambda q: A(v)[q])),
                 ('no-swap-sorted', Implies(v.swapping, sorted_(A(v), v.lower, v.upper + 2)))])}


@register
class BrickSort(SortBase):
    name = ALG + 'brick_sort'
    variants = ('default', 'explicit')
    returns_array = False

    @staticmethod
    def adj(v, upto, parity):
        """adjacent pairs (k,k+1) of one parity class with k < upto are in order"""
        c, a = v.c, A(v)
        return fa('k', lambda k: Implies(And(c['lo'] <= k, k < upto, k + 1 <= c['hi'], (k - c['lo']) % 2 == parity), ord_(a[k], a[k + 1])),
                  lambda k: a[k])

    @staticmethod
    def flag(v):
        return v.is_sorted

    @classmethod
    def mk(cls):
        B_ = cls
        return {1: LoopSpec(inv=lambda v: core(v) + [('sorted-when-flag', Implies(B_.flag(v), adj_(A(v), v.c['lo'], v.c['hi'] + 1)))]),
                2: LoopSpec(inv=lambda v: core(v) + [('odd-pairs', Implies(B_.flag(v), B_.adj(v, v.i, 1)))]),
                3: LoopSpec(inv=lambda v: core(v) + [('odd-pairs', Implies(B_.flag(v), B_.adj(v, v.c['hi'] + 1, 1))),
                                                    ('even-pairs', Implies(B_.flag(v), B_.adj(v, v.i, 0)))])}

    def lemmas_post(self, c):
        a = c.n('array')._data.arr
        return [adj_sorted.use(a, c.cx['lo'], c.cx['hi'] + 1)]


BrickSort.loops = BrickSort.mk()


@register
class BrickSortParallel(BrickSort):
    name = ALG + 'brick_sort_parallel'

    def setup(self, x):
        a, k = super().setup(x)
        return a + [x.int('num_threads')], k

    @staticmethod
    def flag(v):
        f = v.is_sorted
        return f[0] if isinstance(f, P) else f


BrickSortParallel.loops = BrickSortParallel.mk()


@register
class ShellSort(SortBase):
    name = ALG + 'shell_sort'
    variants = ('default', 'explicit')

    @staticmethod
    def inner(v):
        c = v.c
        a, i, j, t = A(v), v.i, v.j, v.temp
        b = Store(a, j, t)
        return [('gap', v.gap >= 1), ('j-range', And(c['lo'] <= j, j <= i)),
                ('permutation', perm_(b, c['a0'], 0, c['n'])),
                ('outside', same_out(a, c['a0'], c['n'], c['lo'], c['hi'] + 1)),
                ('sorted-except-hole', Implies(v.gap == 1, sorted_(a, c['lo'], i + 1, skip=j))),
                ('shifted-greater', Implies(v.gap == 1, fa('q', lambda q: Implies(And(j < q, q <= i), Not(compf(a[q], t))), lambda q: a[q])))]
    loops = {1: LoopSpec(inv=lambda v: core(v) + [('gap-range', And(v.gap >= 0, Implies(v.c['hi'] - v.c['lo'] + 1 <= 1, v.gap <= 0)) if False else BoolVal(True)),
                         ('last-pass-sorted', Implies(v.gap <= 0, sorted_(A(v), v.c['lo'], v.c['hi'] + 1)))], variant=lambda v: v.gap),
             2: LoopSpec(inv=lambda v: core(v) + [('gap', v.gap >= 1), ('sorted-prefix', Implies(v.gap == 1, sorted_(A(v), v.c['lo'], v.i)))]),
             3: LoopSpec(inv=lambda v: ShellSort.inner(v), variant=lambda v: v.j)}
