"""Auxiliary lemmas, each with its own (inductive) proof obligations, discharged on every run that uses it."""
from .common import *

LEMMAS = {}


class Lemma:
    """inst(*args) gives the statement at given terms; obls() the proof obligations [(name, hyps, goal)]"""
    def __init__(self, name, inst, obls, trusted=None, axioms=()):
        self.name, self.inst, self._obls, self.trusted, self.axioms = name, inst, obls, trusted, axioms
        LEMMAS[name] = self

    def obls(self):
        return self._obls() if self._obls else []

    def use(self, *args):
        """tuple accepted by Engine.use_lemma: statement assumed, the lemma itself is proved separately"""
        return ('@' + self.name, self.inst(*args), 'lemma')


ArrE = z3.ArraySort(IntS, E)


def adj_(a, lo, hi):
    return fa('k', lambda k: Implies(And(I(lo) <= k, k + 1 < I(hi)), ord_(a[k], a[k + 1])), lambda k: a[k])


def _adj_obls():
    a, lo, hi, q = z3.Const('a', ArrE), z3.Int('lo'), z3.Int('hi'), z3.Int('q')
    P = lambda q: fa('p', lambda p: Implies(And(lo <= p, p < q, q < hi), ord_(a[p], a[q])), lambda p: a[p])
    h = [fa('k', lambda k: Implies(And(lo <= k, k + 1 < hi), ord_(a[k], a[k + 1])), lambda k: a[k])]
    inst = lambda q: Implies(And(lo <= q, q + 1 < hi), ord_(a[q], a[q + 1]))
    return [('base', h, P(lo)), ('step', h + [q >= lo, P(q), inst(q)], P(q + 1))]


adj_sorted = Lemma('adjacent-sorted', lambda a, lo, hi: Implies(adj_(a, lo, hi), sorted_(a, lo, hi)), _adj_obls)


def chain(name, hyps, *steps):
    """obligations proving the last step from hyps through the intermediate ones (cut rule)"""
    out, h = [], list(hyps)
    for i, s in enumerate(steps):
        out.append(('%s.%d' % (name, i) if i < len(steps) - 1 else name, list(h), s))
        h.append(s)
    return out
