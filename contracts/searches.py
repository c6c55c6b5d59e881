"""Searches, bounds and order queries of linear_data_structures.algorithms (Python backend)."""
from .common import *
from .arrays import oda
from . import register

ALG = 'linear_data_structures.algorithms:'


class SearchBase(Contract):
    variants = ('default', 'explicit')
    uses = ('ODA_getitem_in', 'ODA_len')
    end_inclusive = True
    with_value = True
    user_comp = 'le'
    need_sorted = True
    need_eq = True          # == agrees with the comparator's equivalence
    need_nonnone = True

    def setup(self, x):
        n = x['n'] = x.int('n')
        arr = oda(x, 'a', n=n)
        x['a'] = a = z3.Const('a', z3.ArraySort(IntS, E))
        kw = {}
        if x.variant == 'explicit':
            kw = {'start': x.int('start'), 'end': x.int('end')}
            x.assume(And(x.int('start') >= 0, x.int('end') <= n - (1 if self.end_inclusive else 0)))
            if self.user_comp:
                kw['comp'] = comp_le() if self.user_comp == 'le' else comp_lt()
            x['lo'] = x.int('start')
            x['hi'] = x.int('end') + (1 if self.end_inclusive else 0)     # exclusive
        else:
            x['lo'], x['hi'] = IntVal(0), n
        v = x['v'] = z3.Const('value', E)
        lo, hi = x['lo'], x['hi']
        if self.need_nonnone:
            x.assume(And(Not(isNone(v)), fa('k', lambda k: Implies(rng(lo, k, hi), Not(isNone(a[k]))), lambda k: a[k])))
        if self.need_sorted:
            x.assume(sorted_(a, lo, hi))
        if self.need_eq:
            x.assume(fa('k', lambda k: Implies(rng(lo, k, hi), py_eq(a[k], v) == (rk(a[k]) == rk(v))), lambda k: a[k]))
        return [arr] + ([v] if self.with_value else []), kw


class FindBase(SearchBase):
    def result(self, c):
        return 'optint'

    first = False

    def post(self, c):
        x = c.cx
        a, v, lo, hi = x['a'], x['v'], x['lo'], x['hi']
        r = c.res_v
        none = lambda lim: fa('k', lambda k: Implies(rng(lo, k, lim), Not(py_eq(a[k], v))), lambda k: a[k])
        if r is None:
            return [('absent', none(hi))]
        if isinstance(r, VOpt):
            i, isn = r.val, r.isn
        else:
            i, isn = I(r), BoolVal(False)
        out = [('absent', Implies(isn, none(hi))),
               ('found', Implies(Not(isn), And(rng(lo, i, hi), py_eq(a[i], v))))]
        if self.first:
            out.append(('first', Implies(Not(isn), none(i))))
        return out


def none_before(v, lim):
    c = v.c
    return ('absent-before', fa('k', lambda k: Implies(rng(c['lo'], k, lim), Not(py_eq(c['a'][k], c['v']))), lambda k: c['a'][k]))


@register
class LinearSearch(FindBase):
    name = ALG + 'linear_search'
    user_comp = None
    need_sorted = need_eq = need_nonnone = False
    first = True
    loops = {1: LoopSpec(inv=lambda v: [none_before(v, v.i)])}


@register
class BinarySearch(FindBase):
    name = ALG + 'binary_search'
    loops = {1: LoopSpec(inv=lambda v: [
        ('bounds', And(v.c['lo'] <= v.left, v.right < v.c['hi'])),
        ('left-part', fa('k', lambda k: Implies(rng(v.c['lo'], k, v.left), And(Not(py_eq(v.c['a'][k], v.c['v'])))), lambda k: v.c['a'][k])),
        ('right-part', fa('k', lambda k: Implies(And(v.right < k, k < v.c['hi']), And(Not(py_eq(v.c['a'][k], v.c['v'])))), lambda k: v.c['a'][k]))],
        variant=lambda v: v.right - v.left)}


@register
class JumpSearch(FindBase):
    name = ALG + 'jump_search'
    user_comp = 'lt'
    loops = {1: LoopSpec(inv=lambda v: [
        ('bounds', And(v.c['lo'] <= v.prev, v.prev <= v.current_position, v.step >= 1, v.c['lo'] < v.c['hi'],
                       v.current_position >= v.prev + v.step)),
        ('smaller-before', fa('k', lambda k: Implies(And(v.c['lo'] <= k, k < v.prev, k < v.c['hi']), rk(v.c['a'][k]) < rk(v.c['v'])), lambda k: v.c['a'][k]))],
        variant=lambda v: v.c['hi'] - v.prev),
        2: LoopSpec(inv=lambda v: [
            ('bounds', And(v.c['lo'] <= v.prev)),
            none_before(v, v.prev)],
            variant=lambda v: v.current_position - v.prev)}


class BoundBase(SearchBase):
    end_inclusive = False
    user_comp = 'lt'
    need_eq = False

    def result(self, c):
        return 'int'

    def pre(self, c):
        # documented range: start <= end; an empty range yields end
        return [('range', c.cx['lo'] <= c.cx['hi'])]

    def after(self, x, k):
        raise NotImplementedError

    def post(self, c):
        x = c.cx
        r = I(c.res_v)
        return [('range', And(x['lo'] <= r, r <= x['hi'])),
                ('before', fa('k', lambda k: Implies(rng(x['lo'], k, r), Not(self.after(x, k))), lambda k: x['a'][k])),
                ('at', Implies(r < x['hi'], self.after(x, r)))]

    @classmethod
    def inv(cls, v):
        c = v.c
        K_ = lambda k: cls.after(cls, c, k)
        return [('bounds', And(c['lo'] <= v.start, v.start <= v.inclusive_end + 1, v.inclusive_end < c['hi'])),
                ('before', fa('k', lambda k: Implies(rng(c['lo'], k, v.start), Not(K_(k))), lambda k: c['a'][k])),
                ('after', fa('k', lambda k: Implies(And(v.inclusive_end < k, k < c['hi']), K_(k)), lambda k: c['a'][k])),
                # the early probe may already have stored the answer `start0`
                ('index', Or(v.index == v.inclusive_end + 1, And(v.index == c['lo'], c['lo'] < c['hi'], K_(c['lo']))))]


@register
class LowerBound(BoundBase):
    name = ALG + 'lower_bound'

    def after(self, x, k):
        return rk(x['a'][k]) >= rk(x['v'])
    loops = {1: LoopSpec(inv=lambda v: LowerBound.inv(v), variant=lambda v: v.inclusive_end - v.start)}


@register
class UpperBound(BoundBase):
    name = ALG + 'upper_bound'

    def after(self, x, k):
        return rk(x['a'][k]) > rk(x['v'])
    loops = {1: LoopSpec(inv=lambda v: UpperBound.inv(v), variant=lambda v: v.inclusive_end - v.start)}


@register
class IsOrdered(SearchBase):
    name = ALG + 'is_ordered'
    variants = ('default', 'explicit', 'strict')
    with_value = False
    need_sorted = need_eq = need_nonnone = False

    def setup(self, x):
        a, kw = super().setup(x)
        if x.variant == 'strict':
            kw['comp'] = comp_lt()
        return a, kw

    @staticmethod
    def ok(x, k):
        a = x['a']
        return Or(isNone(a[k]), isNone(a[k - 1]), rk(a[k - 1]) <= rk(a[k]))

    def result(self, c):
        return 'bool'

    def post(self, c):
        x = c.cx
        return [('ordered', B(c.res_v) == fa('k', lambda k: Implies(And(x['lo'] < k, k < x['hi']), self.ok(x, k)), lambda k: x['a'][k]))]
    loops = {1: LoopSpec(inv=lambda v: [('ordered-so-far', fa('k', lambda k: Implies(And(v.c['lo'] < k, k < v.i), IsOrdered.ok(v.c, k)), lambda k: v.c['a'][k]))])}
