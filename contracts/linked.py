"""Linked lists of four kinds.  Ghost fields of a list object: S (the node at each position) and Q (the position of each
node).  The contracts of the two base classes are stated for lists whose last node may link anywhere outside or back to
the first one, because the circular classes call them on their own representation; the class contracts close the ends."""
from .common import *
from . import register

LL = 'linear_data_structures.linked_lists:'
RA = z3.ArraySort(IntS, IntS)
REF = ('ref', 'LinkedListNode')


def inner(s, S, Q, size, nx, pv, nxt):
    """chain of distinct allocated nodes (ends left open)"""
    out = [('size', size >= 0),
           ('nodes', fa('k', lambda k: Implies(rng(0, k, size), And(S[k] > 0, S[k] < nxt, Q[S[k]] == k)), lambda k: S[k])),
           ('links', fa('k', lambda k: Implies(rng(0, k, size), And(Implies(k + 1 < size, nx[S[k]] == S[k + 1]))), lambda k: S[k]))]
    if pv is not None:
        out.append(('back-links', fa('k', lambda k: Implies(And(1 <= k, k < size), pv[S[k]] == S[k - 1]), lambda k: S[k])))
    return out


class L:
    """a list in one state"""
    def __init__(self, c, st, h, name, doubly, S=None, Q=None):
        s = wrap(c.eng, st, c.params[name])
        self.S, self.Q = (s.g_S, s.g_Q) if S is None else (S, Q)
        self.size, self.head, self.tail = I(s.size), s.head.t, s.tail.t
        self.nx, self.pv = h('next'), (h('prev') if doubly else None)
        self.nxt = st.nxt
        self.key, self.data = h('key'), h('data')

    def inner(self):
        return inner(None, self.S, self.Q, self.size, self.nx, self.pv, self.nxt)

    def last(self):
        return self.S[self.size - 1]

    def ends(self):
        return [('head', self.head == If(self.size > 0, self.S[0], 0)), ('tail', self.tail == If(self.size > 0, self.last(), 0))]

    def closed(self, circular):
        e = [('last-link', Implies(self.size > 0, self.nx[self.last()] == (self.S[0] if circular else 0)))]
        if self.pv is not None:
            e.append(('first-back-link', Implies(self.size > 0, self.pv[self.S[0]] == (self.last() if circular else 0))))
        return self.inner() + self.ends() + e

    def open_(self):
        """what the base-class operations accept"""
        e = Or(self.size == 0, self.nx[self.last()] == 0, self.nx[self.last()] == self.S[0])
        o = [('last-link', e)]
        if self.pv is not None:
            o.append(('first-back-link', Or(self.size == 0, self.pv[self.S[0]] == 0, And(self.pv[self.S[0]] == self.last(), self.nx[self.last()] == self.S[0]))))
        return self.inner() + self.ends() + o

    def member(self, r):
        return And(rng(0, self.Q[r], self.size), self.S[self.Q[r]] == r)


class _LL(Contract):
    fields = dict(next=REF, prev=REF, key='elem', data='elem')
    heap_classes = ('LinkedListNode',)
    cls = None
    doubly = False
    circular = None        # None: open contract of a base class

    def me(self, x):
        return x.obj(self.cls, head=x.ref('head', 'LinkedListNode'), tail=x.ref('tail', 'LinkedListNode'), size=x.int('size'),
                     **{'@S': z3.Const('S', RA), '@Q': z3.Const('Q', RA)})

    def lo(self, c):
        return L(c, c.old, c.oheap, 'self', self.doubly)

    def ln(self, c, S, Q):
        return L(c, c.new, c.nheap, 'self', self.doubly, S, Q)

    def wf_pre(self, o):
        return o.open_() if self.circular is None else o.closed(self.circular)

    def pre(self, c):
        return self.wf_pre(self.lo(c))

    def modifies(self, c):
        s = c.raw('self')
        return [('fld', s, 'head', REF), ('fld', s, 'tail', REF), ('fld', s, 'size'), ('heap', 'next'), ('heap', 'prev'), ('heap', 'key'), ('heap', 'data'), ('nxt',)]

    def frame(self, c, o, n, new):
        """keys and data of all old nodes; links of nodes outside the list"""
        f = lambda a, b: fa('r', lambda r: Implies(And(r > 0, r < o.nxt), b[r] == a[r]), lambda r: b[r])
        g = lambda a, b: fa('r', lambda r: Implies(And(r > 0, r < o.nxt, Not(o.member(r))), b[r] == a[r]), lambda r: b[r])
        out = [('contents', And(f(o.key, n.key), f(o.data, n.data))), ('other-nodes', And(g(o.nx, n.nx), g(c.oheap('prev'), c.nheap('prev'))))]
        return out

    def inserted(self, c, o, i):
        """ghosts after inserting a new node at position i -> (new node, S', Q')"""
        new = o.nxt                  # the node allocated by the operation
        S = c.ghost('S', lambda k: If(k < i, o.S[k], If(k == i, new, o.S[k - 1])))
        Q = c.ghost('Q', lambda r: If(r == new, i, If(o.Q[r] >= i, o.Q[r] + 1, o.Q[r])))
        return new, S, Q

    def with_new(self, c, o, i):
        new, S, Q = self.inserted(c, o, i)
        c.set_ghost(c.raw('self'), '@S', S)
        c.set_ghost(c.raw('self'), '@Q', Q)
        n = self.ln(c, S, Q)
        e = lambda v: c.eng.encode(c.old, c.raw(v), 'elem')
        return new, n, [('one-node-more', And(n.size == o.size + 1, n.nxt == o.nxt + 1)), ('new-node', And(n.key[new] == e('key'), n.data[new] == e('data')))] + self.frame(c, o, n, new)

    def kw(self, x):
        return [z3.Const('key', E), z3.Const('data', E)]


def at_index(o, idx):
    """effective position of insert_at(idx)"""
    return If(And(o.size == 0, Or(idx == 0, idx == -1)), 0, If(idx < 0, o.size + idx, idx))


class InsertAt(_LL):
    def setup(self, x):
        return [self.me(x), x.int('index')] + self.kw(x), {}

    def raises(self, c):
        o = self.lo(c)
        i = at_index(o, I(c.o('index')))
        return {'IndexError': Or(i < 0, i > o.size)}

    def post(self, c):
        o = self.lo(c)
        i = at_index(o, I(c.o('index')))
        new, n, base = self.with_new(c, o, i)
        if self.circular is not None:
            return base + n.closed(self.circular)
        out = base + n.inner() + n.ends() + [('last-link', n.nx[n.last()] == If(o.size == 0, 0, o.nx[o.last()]))]
        if self.doubly:
            out.append(('first-back-link', n.pv[n.S[0]] == If(Or(o.size == 0, i == 0), 0, o.pv[o.S[0]])))
        return out

    def walk(self, v):
        o, st = v.self, v.st
        S = o.g_S
        w = [('walked', And(0 <= v.counter, v.counter <= v.index, v.current_node.t == S[v.counter],
                            (v.prev_node.t if isinstance(v.raw('prev_node'), VRef) else I(0)) == If(v.counter > 0, S[v.counter - 1], 0)))]
        return w

    @property
    def loops(self):
        return {1: LoopSpec(inv=self.walk, variant=lambda v: v.index - v.counter)}


class Extract(_LL):
    def setup(self, x):
        return [self.me(x), x.int('index')], {}

    def eff(self, c, o):
        i = I(c.o('index'))
        return If(i < 0, o.size + i, i)

    def raises(self, c):
        o = self.lo(c)
        i = self.eff(c, o)
        return {'ValueError': o.size == 0, 'IndexError': And(o.size != 0, Or(i < 0, i >= o.size))}

    def modifies(self, c):
        s = c.raw('self')
        return [('fld', s, 'head', REF), ('fld', s, 'tail', REF), ('fld', s, 'size'), ('heap', 'next'), ('heap', 'prev')]

    def result(self, c):
        return REF

    def post(self, c):
        o = self.lo(c)
        i = self.eff(c, o)
        S = c.ghost('S', lambda k: If(k < i, o.S[k], o.S[k + 1]))
        Q = c.ghost('Q', lambda r: If(o.Q[r] > i, o.Q[r] - 1, o.Q[r]))
        c.set_ghost(c.raw('self'), '@S', S)
        c.set_ghost(c.raw('self'), '@Q', Q)
        n = self.ln(c, S, Q)
        base = [('returned-node', c.res.t == o.S[i]), ('one-node-less', n.size == o.size - 1)] + self.frame(c, o, n, None)
        if self.circular is not None:
            return base + n.closed(self.circular)
        out = base + n.inner()
        out += [('head', Implies(n.size > 0, n.head == n.S[0])), ('tail', n.tail == If(n.size > 0, n.last(), 0)),
                ('head-of-empty', Implies(n.size == 0, n.head == If(o.nx[o.last()] == o.S[0], o.S[0], 0))),
                ('last-link', Implies(n.size > 0, n.nx[n.last()] == o.nx[o.last()]))]
        if self.doubly:
            out.append(('first-back-link', Implies(And(n.size > 0, o.nx[o.last()] == 0), n.pv[n.S[0]] == 0)))
        return out

    def walk(self, v):
        S = v.self.g_S
        return [('walked', And(0 <= v.counter, v.counter <= v.index, v.current_node.t == S[v.counter],
                               (v.prev_node.t if isinstance(v.raw('prev_node'), VRef) else I(0)) == If(v.counter > 0, S[v.counter - 1], 0)))]

    @property
    def loops(self):
        return {1: LoopSpec(inv=self.walk, variant=lambda v: v.index - v.counter)}


class InsertAfter(_LL):
    arg = 'prev_node'

    def setup(self, x):
        return [self.me(x), x.ref(self.arg, 'LinkedListNode')] + self.kw(x), {}

    def pre(self, c):
        o = self.lo(c)
        r = c.o(self.arg).t
        return super().pre(c) + [('node-of-this-list', o.member(r))]

    def post(self, c):
        o = self.lo(c)
        p = o.Q[c.o(self.arg).t]
        new, n, base = self.with_new(c, o, p + 1)
        if self.circular is not None:
            return base + n.closed(self.circular)
        end = o.nx[o.last()]
        out = base + n.inner() + [('head', n.head == n.S[0]), ('tail', n.tail == If(And(p == o.size - 1, end == 0), new, o.tail)), ('last-link', n.nx[n.last()] == end)]
        if self.doubly:
            out.append(('first-back-link', n.pv[n.S[0]] == If(And(p == o.size - 1, end != 0), new, o.pv[o.S[0]])))
        return out


class InsertBefore(InsertAfter):
    arg = 'next_node'
    doubly = True

    def post(self, c):
        o = self.lo(c)
        p = o.Q[c.o(self.arg).t]
        new, n, base = self.with_new(c, o, p)
        if self.circular is not None:
            return base + n.closed(self.circular)
        beg = o.pv[o.S[0]]
        out = base + n.inner() + [('tail', n.tail == n.last()), ('head', n.head == If(And(p == 0, beg == 0), new, o.head)), ('first-back-link', n.pv[n.S[0]] == beg),
                                  ('last-link', n.nx[n.last()] == If(And(p == 0, beg != 0), new, o.nx[o.last()]))]
        return out


class GetItem(_LL):
    name = LL + 'LinkedList.__getitem__'

    def setup(self, x):
        return [self.me(x), x.int('index')], {}

    def raises(self, c):
        o = self.lo(c)
        i = I(c.o('index'))
        return {'IndexError': Or(i < -o.size, i >= o.size)}

    def modifies(self, c):
        return []

    def result(self, c):
        return REF

    def pre(self, c):
        o = self.lo(c)
        return o.inner()[:3] + [o.ends()[0]]

    def post(self, c):
        o = self.lo(c)
        i = I(c.o('index'))
        return [('node', c.res.t == o.S[If(i < 0, o.size + i, i)])]

    @property
    def loops(self):
        return {1: LoopSpec(inv=lambda v: [('walked', And(0 <= v.counter, v.counter <= v.index, v.current_node.t == v.self.g_S[v.counter]))],
                            variant=lambda v: v.index - v.counter)}


class Search(_LL):
    name = LL + 'LinkedList.search'

    def setup(self, x):
        return [self.me(x), z3.Const('key', E)], {}

    def modifies(self, c):
        return []

    def result(self, c):
        return REF

    def post(self, c):
        o, k = self.lo(c), c.o('key')
        r = c.res.t
        eq = lambda i: py_eq(o.key[o.S[i]], k)
        return [('first-match-or-none', If(r == 0, fa('i', lambda i: Implies(rng(0, i, o.size), Not(eq(i))), lambda i: o.S[i]),
                                           And(o.member(r), py_eq(o.key[r], k), fa('i', lambda i: Implies(rng(0, i, o.Q[r]), Not(eq(i))), lambda i: o.S[i]))))]

    def inv(self, v):
        o = v.self
        S, Q, cur, key = o.g_S, o.g_Q, v.curr_node.t, v.heap('key')
        p = If(cur == 0, o.size, Q[cur])
        return [('walked', And(Or(cur == 0, And(rng(0, Q[cur], o.size), S[Q[cur]] == cur)),
                               fa('i', lambda i: Implies(rng(0, i, p), Not(py_eq(key[S[i]], v.key))), lambda i: S[i])))]

    @property
    def loops(self):
        return {1: LoopSpec(inv=self.inv, variant=lambda v: v.self.size - If(v.curr_node.t == 0, v.self.size, v.self.g_Q[v.curr_node.t]))}


class Delegate(InsertAt):
    """appendleft / append"""
    where = None

    def setup(self, x):
        return [self.me(x)] + self.kw(x), {}

    def raises(self, c):
        return {}

    def post(self, c):
        o = self.lo(c)
        new, n, base = self.with_new(c, o, IntVal(0) if self.where == 0 else o.size)
        return base + n.closed(self.circular)

    @property
    def loops(self):
        return {}


class PopEnd(Extract):
    where = None

    def setup(self, x):
        return [self.me(x)], {}

    def eff(self, c, o):
        return IntVal(0) if self.where == 0 else o.size - 1

    @property
    def loops(self):
        return {}


KINDS = (('SLL', 'SinglyLinkedList', False, False), ('DLL', 'DoublyLinkedList', True, False), ('SCL', 'SinglyCircularLinkedList', False, True), ('DCL', 'DoublyCircularLinkedList', True, True))
LIST_KEYS = {}
for short, cls, dbl, circ in KINDS:
    base = short[0] == 'S' and 'SLL' or 'DLL'
    base_cls = 'SinglyLinkedList' if not dbl else 'DoublyLinkedList'
    keys = LIST_KEYS[short] = []

    def mk(nm, parent, fn, circular, uses=(), **extra):
        d = dict(name=LL + fn, cls=cls, doubly=dbl, circular=circular, uses=uses, on_class=cls if fn.startswith('LinkedList.') else None, key=nm)
        d.update(extra)
        t = type(nm, (parent,), d)
        register(t)
        keys.append(nm)
    mk(short + '_getitem', GetItem, 'LinkedList.__getitem__', circ, pre=GetItem.pre)
    mk(short + '_search', Search, 'LinkedList.search', circ)
    if not circ:
        mk(short + '_insert_at', InsertAt, cls + '.insert_at', None)
        mk(short + '_extract', Extract, cls + '.extract', None)
        mk(short + '_insert_after', InsertAfter, cls + '.insert_after', None)
        if dbl:
            mk(short + '_insert_before', InsertBefore, cls + '.insert_before', None)
    else:
        mk(short + '_insert_at', InsertAt, cls + '.insert_at', True, uses=(base + '_insert_at', short + '_getitem'), loops={})
        mk(short + '_extract', Extract, cls + '.extract', True, uses=(base + '_extract',), loops={})
        mk(short + '_insert_after', InsertAfter, cls + '.insert_after', True, uses=(base + '_insert_after',))
        if dbl:
            mk(short + '_insert_before', InsertBefore, cls + '.insert_before', True, uses=(base + '_insert_before',))
    mk(short + '_appendleft', Delegate, 'LinkedList.appendleft', circ, uses=(short + '_insert_at',), where=0)
    mk(short + '_append', Delegate, 'LinkedList.append', circ, uses=(short + '_insert_at',), where=1)
    mk(short + '_popleft', PopEnd, 'LinkedList.popleft', circ, uses=(short + '_extract',), where=0)
    mk(short + '_popright', PopEnd, 'LinkedList.popright', circ, uses=(short + '_extract',), where=1)
