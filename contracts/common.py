import z3
from z3 import And, Or, Not, Implies, Exists, If, IntVal, BoolVal, Select, Store
from pyvc.values import *
from pyvc.values import forall as ForAll
from pyvc.spec import Contract, LoopSpec, P, wrap


def MultiPattern(*ts):
    return ts


def fa(n, f, *pats):
    """ForAll over fresh-named ints: fa('i j', lambda i,j: ..., lambda i,j: pattern)"""
    vs = [z3.Int(fresh_name('q' + x)) for x in n.split()]
    ps = []
    for p in pats:
        t = p(*vs)
        ps.append(z3.MultiPattern(*t) if isinstance(t, tuple) else t)
    if ps:
        try:
            return z3.ForAll(vs, f(*vs), patterns=ps)
        except z3.Z3Exception:      # a pattern containing a case distinction (merged heap): let the solver choose
            pass
    return z3.ForAll(vs, f(*vs))


def ex(n, f):
    vs = [z3.Int(fresh_name('e' + x)) for x in n.split()]
    return Exists(vs, f(*vs))


def rng(lo, x, hi):
    """lo <= x < hi"""
    return And(I(lo) <= x, x < I(hi))


def ord_(x, y):
    """None-last order of the library's comparison helper"""
    return Or(isNone(y), And(Not(isNone(x)), rk(x) <= rk(y)))


def compf(x, y):
    """value of _comp(x, y, comp)"""
    return And(Not(isNone(x)), Or(isNone(y), rk(x) <= rk(y)))


def sorted_(a, lo, hi, skip=None):
    """ord for all lo <= p < q < hi"""
    def body(p, q):
        g = [I(lo) <= p, p < q, q < I(hi)]
        if skip is not None:
            g += [p != skip, q != skip]
        return Implies(And(*g), ord_(Select(a, p), Select(a, q)))
    return fa('p q', body, lambda p, q: (Select(a, p), Select(a, q)))


def perm_(a, a0, lo, hi):
    """a is a rearrangement of a0 on [lo,hi) (occurrence tags: tag(a0[i]) == i)"""
    x = lambda i: Select(a, i)
    return And(
        fa('i', lambda i: Implies(rng(lo, i, hi), And(x(i) == Select(a0, tag(x(i))), rng(lo, tag(x(i)), hi))), lambda i: x(i)),
        fa('i j', lambda i, j: Implies(And(rng(lo, i, hi), rng(lo, j, hi), i != j), tag(x(i)) != tag(x(j))),
           lambda i, j: (x(i), x(j))))


def tags_(a0, lo, hi):
    return fa('i', lambda i: Implies(rng(lo, i, hi), tag(Select(a0, i)) == i), lambda i: Select(a0, i))


def same_(a, b, lo, hi):
    return fa('i', lambda i: Implies(rng(lo, i, hi), Select(a, i) == Select(b, i)), lambda i: Select(a, i))


def same_out(a, b, n, lo, hi):
    """a == b on [0,n) outside [lo,hi)"""
    return fa('i', lambda i: Implies(And(0 <= i, i < n, Or(i < lo, i >= hi)), Select(a, i) == Select(b, i)), lambda i: Select(a, i))


def comp_le():
    """symbolic user comparator: a total preorder (non-strict), defined on non-None values"""
    def fn(eng, st, args, node):
        u, v = args
        eng.safe('comp-arg-not-none', st, And(Not(isNone(u)), Not(isNone(v))), node)
        return [(st, rk(u) <= rk(v))]
    return VSym(fn, 'comp')


def comp_lt():
    def fn(eng, st, args, node):
        u, v = args
        eng.safe('comp-arg-not-none', st, And(Not(isNone(u)), Not(isNone(v))), node)
        return [(st, rk(u) < rk(v))]
    return VSym(fn, 'comp')


def comp_bool():
    """arbitrary user comparator without any assumption"""
    f = z3.Function('ucomp', E, E, BoolS)

    def fn(eng, st, args, node):
        u, v = args
        return [(st, f(u, v))]
    return VSym(fn, 'comp'), f
