"""Multiset (C13): the counter against its order structure.  The search tree is used through its set semantics: a RedBlackTree
holds a set of keys, insert adds one, delete removes one, lower_bound / upper_bound return its least element not less than /
greater than the argument (properties C16 and C17)."""
from .common import *
from .graphs import fk, SetK
from . import register

M = 'miscellaneous_data_structures.multiset:Multiset.'
kr = z3.Function('kr', K, IntS)                    # the order of the elements
TEXT = 'a red-black tree is used through its set semantics (insert, delete, lower_bound, upper_bound: C16, C17)'
KI = z3.ArraySort(K, IntS)
SUM = z3.Function('SUM', KI, IntS)                 # sum of finitely many non-zero counts
SUMDEF = And(SUM(z3.K(K, IntVal(0))) == 0,
             (lambda f, k, v: ForAll([f, k, v], SUM(Store(f, k, v)) == SUM(f) - f[k] + v, patterns=[SUM(Store(f, k, v))]))(z3.Const('f', KI), z3.Const('k', K), z3.Int('v')))


class _Tree(Contract):
    verify_self = False

    def apply(self, eng, st, args, kw, node):
        eng.unit.trust(TEXT)
        return self.run(eng, st, args, kw, node)

    def put(self, eng, st, t, s):
        eng.mod(('fld', t.id, '@S'))
        st.store[t.id] = ObjRec('RedBlackTree', {**st.store[t.id].f, '@S': s})
        return [(st, None)]


TREE = []


def mk(key, method):
    def deco(f):
        register(type(key, (_Tree,), dict(name='trees.binary_trees:' + method, key=key, run=f)))
        TREE.append(key)
        return f
    return deco


@mk('Abs_RB_new', 'RedBlackTree.__new__')
def new(self, eng, st, args, kw, node):
    return [(st, eng.new_cell(st, ObjRec('RedBlackTree', {'@S': z3.K(K, BoolVal(False))})))]


@mk('Abs_RB_insert', 'RedBlackTree.insert')
def insert(self, eng, st, args, kw, node):
    t, x = args[:2]
    return self.put(eng, st, t, Store(st.store[t.id].f['@S'], x, BoolVal(True)))


@mk('Abs_RB_delete', 'RedBlackTree.delete')
def delete(self, eng, st, args, kw, node):
    t, x = args[:2]
    eng.safe('delete-present', st, st.store[t.id].f['@S'][x], node)
    return self.put(eng, st, t, Store(st.store[t.id].f['@S'], x, BoolVal(False)))


def least(S, x, r, isnone, strict):
    ok = lambda k: And(S[k], kr(k) > kr(x) if strict else kr(k) >= kr(x))
    return And(isnone == fk(lambda k: Not(ok(k)), lambda k: S[k]), Implies(Not(isnone), And(ok(r), fk(lambda k: Implies(ok(k), kr(r) <= kr(k)), lambda k: S[k]))))


def bound(strict):
    def run(self, eng, st, args, kw, node):
        t, x = args[:2]
        r, n = fresh_const('bound', K), fresh_const('none', BoolS)
        st.assume(least(st.store[t.id].f['@S'], x, r, n, strict))
        return [(st, VOpt(n, r))]
    return run


for nm, strict in (('lower_bound', False), ('upper_bound', True)):
    mk('Abs_RB_' + nm, 'BinarySearchTree.' + nm)(bound(strict))


def cnt(s, k):
    return If(s.counter.dom[k], s.counter.map[k], 0)


def wf(c, s):
    g = s.g_C
    return [('counts', And(fk(lambda k: And(g[k] == cnt(s, k), g[k] >= 0), lambda k: g[k]))),
            ('tree-holds-the-present', fk(lambda k: s.tree.g_S[k] == (g[k] > 0), lambda k: s.tree.g_S[k])),
            ('length', I(s._n) == SUM(g))]


class _MS(Contract):
    uses = tuple(TREE)
    axioms = (SUMDEF,)
    assumes = ('the sum of finitely many counts changes by the difference when one count changes (definition of SUM)',)

    def me(self, x):
        t = x.obj('RedBlackTree', **{'@S': z3.Const('S0', SetK)})
        return x.obj('Multiset', counter=x.dict('counter', 'key', 'int'), tree=t, _n=x.int('n'), **{'@C': z3.Const('C0', KI)})

    def dicthint(self, eng, st, o):
        return ('key', 'int') if any(isinstance(r, ObjRec) and r.f.get('counter') == o for r in st.store.values()) else None

    def setup(self, x):
        return [self.me(x), z3.Const('element', K)], {}

    def pre(self, c):
        return wf(c, c.o('self'))

    def counts(self, c):
        """the abstract counts afterwards"""
        return c.o('self').g_C

    def modifies(self, c):
        s = c.o('self')
        return [('dict', s.counter.v), ('fld', s.v, '_n', 'int'), ('fld', s.tree.v, '@S', 'ghost'), ('fld', s.v, '@C', 'ghost')]

    def ghosts_post(self, c):
        return [(c.raw('self'), '@C', self.counts(c))]

    def post(self, c):
        return self.result_is(c) + [('counts-exactly', c.n('self').g_C == self.counts(c))] + wf(c, c.n('self'))

    def result_is(self, c):
        return []


@register
class MS_add(_MS):
    name = M + 'add'

    def counts(self, c):
        g, e = c.o('self').g_C, c.o('element')
        return Store(g, e, g[e] + 1)


@register
class MS_remove(_MS):
    name = M + 'remove'

    def counts(self, c):
        g, e = c.o('self').g_C, c.o('element')
        return Store(g, e, If(g[e] > 0, g[e] - 1, g[e]))


class _Query(_MS):
    def modifies(self, c):
        return []

    def ghosts_post(self, c):
        return []

    def post(self, c):
        return self.result_is(c)


@register
class MS_count(_Query):
    name = M + 'count'

    def result_is(self, c):
        return [('the-count', c.res == c.o('self').g_C[c.o('element')])]


@register
class MS_contains(_Query):
    name = M + '__contains__'

    def result_is(self, c):
        return [('present', B(c.res) == (c.o('self').g_C[c.o('element')] > 0))]


@register
class MS_len(_Query):
    name = M + '__len__'

    def setup(self, x):
        return [self.me(x)], {}

    def result_is(self, c):
        return [('sum-of-counts', c.res == SUM(c.o('self').g_C))]


class _Bound(_Query):
    def result_is(self, c):
        return [('least', least(c.o('self').tree.g_S, c.o('element'), c.res.val, c.res.isnone, self.strict)),
                ('present-elements', fk(lambda k: c.o('self').tree.g_S[k] == (c.o('self').g_C[k] > 0), lambda k: c.o('self').g_C[k]))]


@register
class MS_lower(_Bound):
    name = M + 'lower_bound'
    strict = False


@register
class MS_upper(_Bound):
    name = M + 'upper_bound'
    strict = True


@register
class MS_init(_MS):
    name = M + '__init__'
    uses = tuple(TREE) + ('MS_add',)

    def setup(self, x):
        return [x.obj('Multiset', **{'@C': z3.K(K, IntVal(0))})], {}

    def pre(self, c):
        return []

    def counts(self, c):
        return z3.K(K, IntVal(0))

    def modifies(self, c):
        return [('fld', c.raw('self'), n) for n in ('counter', '_n', 'tree', '@C')]
