"""Forward symbolic execution of Python function bodies (ast) with loops cut at invariants.

Generates named proof obligations (hypotheses, goal).  See DESIGN.md for the accepted subset and the
semantics each construct is given."""
import ast
import z3
from .values import *
from .values import _sorts
from .program import Program, BUILTINS, EXC


class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'line', 'cover', 'cut')

    def __init__(self, name, hyps, goal, line=0, cover=False, cut=0):
        self.name, self.hyps, self.goal, self.line, self.cover = name, hyps, goal, line, cover
        self.cut = cut       # hypotheses before this index describe states before the innermost loop head


class State:
    __slots__ = ('frames', 'stack', 'store', 'heap', 'nxt', 'pc', 'vers', 'trace', 'cut')

    def __init__(self):
        self.frames, self.stack, self.store, self.heap = {}, (), {}, {}
        self.nxt = z3.IntVal(1)
        self.pc = []
        self.vers = {}
        self.trace = ()
        self.cut = 0

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.stack = self.stack
        s.store = dict(self.store)
        s.heap = dict(self.heap)
        s.nxt = self.nxt
        s.pc = list(self.pc)
        s.vers = dict(self.vers)
        s.trace = self.trace
        s.cut = self.cut
        return s

    def fork(self, cond, branch=True, note=None):
        s = self.copy()
        if cond is not None and not (isinstance(cond, bool) and cond):
            s.pc.append((B(cond), branch))
        if note is not None:
            s.trace = s.trace + (note,)
        return s

    def assume(self, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        self.pc.append((f, False))

    @property
    def fid(self):
        return self.stack[-1][0]


NORMAL = ('next',)


def has_quant(t, cache={}):
    i = t.get_id()
    r = cache.get(i)
    if r is not None and r[0].eq(t):
        return r[1]
    v = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    cache[i] = (t, v)
    return v


class Engine:
    def __init__(self, prog, unit):
        self.implicit_exits = []
        self.prog = prog
        self.unit = unit
        self.obls = []
        self.muted = 0
        self.recorders = []
        self.cid = 0
        self.fidc = 0
        self.loop_ord = {}
        self.enum_of = {}            # loop ordinal -> (items, index of an item, number of items) of a set enumeration
        self.loop_nodes = []
        self.modcache = {}
        self.depth = 0
        self.expr_cache = {}
        self.npaths = 0
        self.inlined = set()
        self.used_contracts = set()
        self.feas_n = 0
        self.lemma_done = set()
        self.loop_cids = []          # cell counter at the heads of the enclosing loops
        self.nest_shared, self.nest_mut = set(), set()      # kinds of nested containers that were copied into another container / changed in place
        self.stored_old, self.mut_ids = set(), set()        # older cells stored in a container inside a loop / cells changed inside a loop

    # ------------------------------------------------------------ utilities
    def new_cell(self, st, rec):
        self.cid += 1
        st.store[self.cid] = rec
        return VCell(self.cid)

    def store_enc(self, st, v, kind):
        """value to be stored in a container: containers are copied by value, so neither copy may be changed afterwards"""
        self.note_stored(st, v)
        return self.encode(st, v, kind)

    def note_stored(self, st, v):
        if isinstance(v, VOpt):
            v = v.val
        if isinstance(v, tuple):
            for x in v:
                self.note_stored(st, x)
        elif isinstance(v, VCell) and not isinstance(st.store[v.id], ObjRec):
            st.vers[('stored', v.id)] = True
            if self.loop_cids and v.id <= self.loop_cids[-1]:
                self.stored_old.add(v.id)
        elif isinstance(v, VNest):
            self.note_kinds(v.kind)
        elif is_z3(v) and v.sort() in self.nested_sorts():
            self.note_kinds(self.nested_sorts()[v.sort()])

    def nested_sorts(self):
        return {dt(k)[0]: k for k in list(_sorts) if isinstance(k, tuple) and k[0] == 'tuple'}

    def note_kinds(self, k):
        if isinstance(k, tuple):
            if k[0] in ('list', 'dict', 'set'):
                self.nest_shared.add(k)
            for x in k[1:]:
                self.note_kinds(x)

    def check_sharing(self):
        if self.nest_shared & self.nest_mut or self.stored_old & self.mut_ids:
            raise Unsupported('a container that is stored in two places is changed in place')

    def mod(self, loc):
        for r in self.recorders:
            r.add(loc)

    def oblige(self, name, st, goal, line=0):
        if self.muted:
            return
        if isinstance(goal, bool):
            if goal:
                return
            goal = z3.BoolVal(False)
        if z3.is_and(goal) and len(name) < 200:
            for i, g in enumerate(goal.children()):
                self.oblige(name, st, g, line)
            return
        self.obls.append(Obl(name, [p[0] for p in st.pc], goal, line, cut=st.cut))

    def safe(self, name, st, goal, node):
        """implicit-exception obligation, then assumed"""
        if isinstance(goal, bool):
            if goal:
                return
            goal = z3.BoolVal(False)
        goal = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(goal):
            return
        exc = self.unit.k.implicit.get(name)
        if exc is not None:          # the contract speaks about this implicit exception: an exceptional exit
            if not self.muted:
                s2 = st.copy()
                s2.assume(z3.Not(goal))
                self.implicit_exits.append((s2, PyExc(exc, 'implicit', implicit=True)))
        else:
            self.oblige('safe:%s' % name, st, goal, getattr(node, 'lineno', 0))
        st.assume(goal)

    def feasible(self, st, extra=None, full=0):
        if extra is not None and isinstance(extra, bool):
            return extra
        s = z3.Solver()
        s.set('timeout', full or 150)
        if full:
            s.set('smt.mbqi', False)
            for a in self.unit.k.axioms:
                s.add(a() if callable(a) and not is_z3(a) else a)
        for p, _ in st.pc:
            if full or not has_quant(p):
                s.add(p)
        if extra is not None:
            s.add(extra)
        self.feas_n += 1
        return s.check() != z3.unsat

    def split(self, st, cond, note=''):
        """-> [(st_true, True)?, (st_false, False)?] with infeasible branches pruned"""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        if note in self.unit.k.prune:
            for t in (60, 400, 2000):
                for b in (False, True):
                    if not self.feasible(st, z3.Not(cond) if b else cond, t):
                        return [(st.fork(z3.Not(cond) if not b else cond, True, note + ('+' if b else '-')), b)]
        if self.feasible(st, cond):
            out.append((st.fork(cond, True, note + '+'), True))
        if self.feasible(st, z3.Not(cond)):
            out.append((st.fork(z3.Not(cond), True, note + '-'), False))
        return out

    def bind(self, results, f):
        out = []
        for st, v in results:
            if isinstance(v, PyExc):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        return out

    def evs(self, exprs, st):
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in res:
                if isinstance(vs, PyExc):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        if isinstance(v, PyExc):
                            nxt.append((s2, v))
                            continue
                        items = self.concrete_iter(s2, v)
                        if items is None:
                            raise Unsupported('starred expression of symbolic length')
                        nxt.append((s2, vs + list(items)))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v if isinstance(v, PyExc) else vs + [v]))
            res = nxt
        return res

    # ------------------------------------------------------------ kinds / encoding
    def kind(self, st, v):
        if isinstance(v, VCell):
            r = st.store[v.id]
            if isinstance(r, ArrRec):
                return ('list', r.kind)
            if isinstance(r, ConcList):
                k = 'empty'
                for x in r.items:
                    k = join_kind(k, self.kind(st, x)) if k != 'empty' else self.kind(st, x)
                return ('list', k)
            if isinstance(r, DictRec):
                return ('dict', r.kk, r.vk)
            if isinstance(r, ConcDict) and not r.d:
                return ('dict', 'empty', 'empty')
            if isinstance(r, SetRec):
                return ('set', r.kk)
            return ('cell', v.id)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.kind(st, x) for x in v)
        if isinstance(v, str):
            return ('host', v)
        return kind_of(v)

    def encode(self, st, v, kind):
        """value -> z3 term of sort_of(kind)"""
        if kind == 'int':
            if is_z3(v) and v.sort() == E:
                return ival(v)
            if isinstance(v, VOpt):
                return I(v.val)
            if isinstance(v, (bool, int)) or (is_z3(v) and v.sort() == IntS):
                return I(v)
            if is_z3(v) and v.sort() == BoolS:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        elif kind == 'bool':
            if isinstance(v, bool) or (is_z3(v) and v.sort() == BoolS):
                return B(v)
        elif kind == 'key' and isinstance(v, VOpt):
            self.safe('key-not-none', st, z3.Not(v.isn), None)
            return self.encode(st, v.val, 'key')
        elif kind == 'real':
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return z3.RealVal(v)
            if is_z3(v) and v.sort() == IntS:
                return z3.ToReal(v)
            if is_z3(v) and v.sort() == RealS:
                return v
        elif kind == 'elem':
            if v is None:
                return none0
            if is_z3(v) and v.sort() == E:
                return v
            if isinstance(v, (int,)) or (is_z3(v) and v.sort() == IntS):
                return mkint(I(v))
            if isinstance(v, VRef):
                return z3.If(v.t == 0, none0, eref(v.t))
            if isinstance(v, VOpt):
                return z3.If(v.isn, none0, self.encode(st, v.val, 'elem'))
        elif kind == 'key':
            if is_z3(v) and v.sort() == K:
                return v
            if isinstance(v, str):
                return z3.Const('key_' + ''.join(c if c.isalnum() else '_%x_' % ord(c) for c in v), K)
        elif kind == 'optint':
            if v is None:
                return OI.oi_none
            if isinstance(v, VOpt):
                return z3.If(v.isn, OI.oi_none, OI.oi_some(I(v.val)))
            if is_z3(v) and v.sort() == E:
                return z3.If(isNone(v), OI.oi_none, OI.oi_some(ival(v)))
            return OI.oi_some(self.encode(st, v, 'int'))
        elif isinstance(kind, tuple):
            if kind[0] == 'ref':
                if v is None:
                    return z3.IntVal(0)
                if isinstance(v, VRef):
                    return v.t
            elif kind[0] == 'tuple':
                S = dt(kind)
                if is_z3(v) and v.sort() == S[0]:
                    return v
                if isinstance(v, VCell) and isinstance(st.store.get(v.id), ConcList) and len(st.store[v.id].items) == len(kind) - 1:
                    st.vers[('stored', v.id)] = True       # a short list kept by value: writing it afterwards is refused
                    return S[1](*[self.encode(st, x, k) for x, k in zip(st.store[v.id].items, kind[1:])])
                if isinstance(v, tuple) and len(v) == len(kind) - 1:
                    return S[1](*[self.encode(st, x, k) for x, k in zip(v, kind[1:])])
            elif kind[0] == 'opt':
                S = dt(kind)
                if v is None:
                    return S[1]()
                if isinstance(v, VOpt):
                    return z3.If(v.isn, S[1](), S[2](self.encode(st, v.val, kind[1])))
                return S[2](self.encode(st, v, kind[1]))
            elif kind[0] == 'list':
                r = self.rec(st, v)
                r = self.as_arr(st, r, kind[1])
                if r.kind != kind[1]:
                    raise Unsupported('list kind %r stored as %r' % (r.kind, kind))
                S = dt(kind)
                return S[1](I(r.len), r.arr)
            elif kind[0] == 'dict':
                r = self.rec(st, v)
                r = self.as_dict(st, r, kind[1], kind[2])
                return dt(kind)[1](r.dom, r.map)
            elif kind[0] == 'set':
                r = self.rec(st, v)
                if isinstance(r, ConcList) and not r.items:
                    return z3.K(sort_of(kind[1]), z3.BoolVal(False))
                return r.dom
            elif kind[0] == 'seq':
                pass
        raise Unsupported('cannot encode %r as %r' % (v, kind))

    def decode(self, st, t, kind, nest=None):
        """z3 term -> value. `nest` = (root, path) gives mutable containers an identity"""
        if kind in ('int', 'bool', 'real', 'elem', 'key'):
            return t
        if kind == 'optint':
            return VOpt(OI.is_oi_none(t), OI.oi_val(t))
        if kind == 'none':
            return None
        if isinstance(kind, tuple):
            if kind[0] == 'ref':
                return VRef(t, kind[1])
            if kind[0] == 'tuple':
                S = dt(kind)
                return tuple(self.decode(st, S[2 + i](t), k,
                                         None if nest is None else (nest[0], nest[1] + [('tup', kind, i)]))
                             for i, k in enumerate(kind[1:]))
            if kind[0] == 'opt':
                S = dt(kind)
                return VOpt(S[3](t), self.decode(st, S[4](t), kind[1],
                                                  None if nest is None else (nest[0], nest[1] + [('opt', kind)])))
            if kind[0] in ('list', 'dict', 'set'):
                if nest is None:
                    return self.new_cell(st, self.rec_of_term(t, kind))
                return VNest(nest[0], nest[1], kind, st.vers.get(nest[0], 0))
        raise Unsupported('cannot decode kind %r' % (kind,))

    def rec_of_term(self, t, kind):
        if kind[0] == 'list':
            S = dt(kind)
            return ArrRec(S[2](t), S[3](t), kind[1])
        if kind[0] == 'dict':
            S = dt(kind)
            return DictRec(S[2](t), S[3](t), kind[1], kind[2])
        if kind[0] == 'set':
            return SetRec(t, kind[1])
        raise Unsupported('rec_of_term')

    def term_of_rec(self, st, r, kind):
        if kind[0] == 'list':
            r = self.as_arr(st, r, kind[1])
            return dt(kind)[1](I(r.len), r.arr)
        if kind[0] == 'dict':
            return dt(kind)[1](r.dom, r.map)
        return r.dom

    # nested paths -------------------------------------------------------
    def _path_get(self, st, root, path):
        """term stored at root/path. path elements: ('idx', term, kind) / ('tup', kind, i) / ('opt', kind)"""
        if root[0] == 'cell':
            cur = st.store[root[1]]
            kind = None
            for n, p in enumerate(path):
                if n == 0:
                    t = self._rec_sel(cur, p[1])
                    kind = cur.kind if isinstance(cur, ArrRec) else cur.vk
                else:
                    t, kind = self._term_sel(t, kind, p)
            return t, kind
        name = root[1]
        kind = self.unit.fieldkind(name)
        t = z3.Select(st.heap[name], path[0][1])
        for p in path[1:]:
            t, kind = self._term_sel(t, kind, p)
        return t, kind

    def _rec_sel(self, rec, i):
        if isinstance(rec, ArrRec):
            return z3.Select(rec.arr, i)
        return z3.Select(rec.map, i)

    def _term_sel(self, t, kind, p):
        if p[0] == 'idx':
            S = dt(kind)
            return z3.Select(S[3](t), p[1]), (kind[1] if kind[0] == 'list' else kind[2])
        if p[0] == 'tup':
            return dt(kind)[2 + p[2]](t), kind[1 + p[2]]
        if p[0] == 'opt':
            return dt(kind)[4](t), kind[1]
        raise Unsupported('path')

    def _term_upd(self, t, kind, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'idx':
            S = dt(kind)
            ek = kind[1] if kind[0] == 'list' else kind[2]
            inner = self._term_upd(z3.Select(S[3](t), p[1]), ek, path[1:], new)
            return S[1](S[2](t), z3.Store(S[3](t), p[1], inner))
        if p[0] == 'tup':
            S = dt(kind)
            args = [S[2 + i](t) for i in range(len(kind) - 1)]
            args[p[2]] = self._term_upd(args[p[2]], kind[1 + p[2]], path[1:], new)
            return S[1](*args)
        if p[0] == 'opt':
            S = dt(kind)
            return S[2](self._term_upd(S[4](t), kind[1], path[1:], new))
        raise Unsupported('path')

    def rec(self, st, v):
        if isinstance(v, VCell):
            return st.store[v.id]
        if isinstance(v, VNest):
            if st.vers.get(v.root, 0) != v.ver:
                raise Unsupported('stale nested container')
            t, kind = self._path_get(st, v.root, v.path)
            return self.rec_of_term(t, kind)
        raise Unsupported('not a container: %r' % (v,))

    def set_rec(self, st, v, r, what='arr'):
        if isinstance(v, VCell):
            if not isinstance(r, ObjRec):
                if ('stored', v.id) in st.vers:
                    raise Unsupported('a container is changed after it was stored in another one')
                if self.loop_cids and v.id <= self.loop_cids[-1]:
                    self.mut_ids.add(v.id)
            self.mod(('cell', v.id, what))
            st.store[v.id] = r
            return
        self.nest_mut.add(v.kind)
        t = self.term_of_rec(st, r, v.kind)
        if v.root[0] == 'cell':
            cur = st.store[v.root[1]]
            ek = cur.kind if isinstance(cur, ArrRec) else cur.vk
            inner = self._term_upd(self._rec_sel(cur, v.path[0][1]), ek, v.path[1:], t)
            self.mod(('cell', v.root[1], 'arr'))
            if isinstance(cur, ArrRec):
                st.store[v.root[1]] = ArrRec(cur.len, z3.Store(cur.arr, v.path[0][1], inner), cur.kind)
            else:
                st.store[v.root[1]] = DictRec(cur.dom, z3.Store(cur.map, v.path[0][1], inner), cur.kk, cur.vk)
        else:
            name = v.root[1]
            h = st.heap[name]
            k = self.unit.fieldkind(name)
            inner = self._term_upd(z3.Select(h, v.path[0][1]), k, v.path[1:], t)
            self.mod(('heap', name))
            st.heap[name] = z3.Store(h, v.path[0][1], inner)

    def as_arr(self, st, r, kind=None):
        """view a list record as ArrRec of the given element kind"""
        if isinstance(r, ArrRec):
            if kind is None or r.kind == kind:
                return r
            if r.kind == 'none':
                return ArrRec(r.len, z3.K(IntS, self.encode(st, None, kind)), kind)
            if r.kind == 'int' and kind == 'optint':
                j = z3.Int('j')
                return ArrRec(r.len, z3.Lambda([j], OI.oi_some(z3.Select(r.arr, j))), kind)
            raise Unsupported('list of %r used as list of %r' % (r.kind, kind))
        if isinstance(r, ConcList):
            if kind is None:
                k = None
                for x in r.items:
                    kx = self.kind(st, x)
                    k = kx if k is None else join_kind(k, kx)
                if k is None:
                    raise Unsupported('element kind of empty list unknown')
                kind = k
            if kind == 'none':
                return ArrRec(z3.IntVal(len(r.items)), None, 'none')
            a = fresh_const('lst', z3.ArraySort(IntS, sort_of(kind)))
            for i, x in enumerate(r.items):
                a = z3.Store(a, i, self.encode(st, x, kind))
            return ArrRec(z3.IntVal(len(r.items)), a, kind)
        raise Unsupported('as_arr %r' % (r,))

    def as_dict(self, st, r, kk, vk):
        if isinstance(r, DictRec):
            if (r.kk, r.vk) != (kk, vk):
                raise Unsupported('dict kinds')
            return r
        if isinstance(r, ConcDict):
            dom = z3.K(sort_of(kk), z3.BoolVal(False))
            mp = fresh_const('dmap', z3.ArraySort(sort_of(kk), sort_of(vk)))
            for k, v in r.d.items():
                kt = self.encode(st, k, kk)
                dom = z3.Store(dom, kt, z3.BoolVal(True))
                mp = z3.Store(mp, kt, self.encode(st, v, vk))
            return DictRec(dom, mp, kk, vk)
        raise Unsupported('as_dict')

    # ------------------------------------------------------------ fresh values
    def fresh(self, st, kind, name):
        if kind in ('int', 'bool', 'real', 'elem', 'key'):
            return fresh_const(name, sort_of(kind))
        if kind == 'none':
            return None
        if kind == 'optint':
            return self.decode(st, fresh_const(name, OI), kind)
        if isinstance(kind, tuple):
            if kind[0] == 'host':
                return kind[1]
            if kind[0] == 'tuple':
                return tuple(self.fresh(st, k, '%s_%d' % (name, i)) for i, k in enumerate(kind[1:]))
            if kind[0] == 'ref':
                t = fresh_const(name, IntS)
                st.assume(z3.And(t >= 0, t < st.nxt))
                return VRef(t, kind[1])
            if kind[0] == 'list':
                if kind[1] in ('empty', 'none'):
                    ln = fresh_const(name + '_len', IntS)
                    st.assume(ln >= 0)
                    return self.new_cell(st, ArrRec(ln, None, 'none'))
                ln = fresh_const(name + '_len', IntS)
                st.assume(ln >= 0)
                return self.new_cell(st, ArrRec(ln, fresh_const(name + '_arr', z3.ArraySort(IntS, sort_of(kind[1]))), kind[1]))
            if kind[0] == 'dict':
                return self.new_cell(st, DictRec(fresh_const(name + '_dom', z3.ArraySort(sort_of(kind[1]), BoolS)),
                                                 fresh_const(name + '_map', z3.ArraySort(sort_of(kind[1]), sort_of(kind[2]))),
                                                 kind[1], kind[2]))
            if kind[0] == 'set':
                return self.new_cell(st, SetRec(fresh_const(name + '_set', sort_of(kind)), kind[1]))
            if kind[0] == 'opt':
                return self.decode(st, fresh_const(name, sort_of(kind)), kind)
            if kind[0] == 'cell':
                return VCell(kind[1])
        if kind == 'unbound':
            return VPoison(name)
        raise Unsupported('fresh kind %r' % (kind,))

    # ------------------------------------------------------------ coercions
    def as_int(self, st, v, node=None):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, VOpt):
            self.safe('not-none', st, z3.Not(v.isn), node)
            return self.as_int(st, v.val, node)
        if is_z3(v):
            if v.sort() == IntS:
                return v
            if v.sort() == E:
                self.safe('not-none', st, z3.Not(isNone(v)), node)
                return ival(v)
            if v.sort() == BoolS:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v is None:
            self.safe('not-none', st, False, node)
            return fresh_const('junk', IntS)
        raise Unsupported('int expected: %r' % (v,))

    def truth(self, st, v, node=None):
        if v is None:
            return False
        if isinstance(v, (bool, int, str)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, VRef):
            return v.t != 0
        if isinstance(v, VOpt):
            t = self.truth(st, v.val, node)
            return z3.And(z3.Not(v.isn), B(t))
        if is_z3(v):
            if v.sort() == BoolS:
                return v
            if v.sort() == IntS:
                return v != 0
            if v.sort() == E and self.unit.int_elems:
                return z3.And(z3.Not(isNone(v)), ival(v) != 0)
        if isinstance(v, (VCell, VNest)):
            r = self.rec(st, v)
            if isinstance(r, ConcList):
                return len(r.items) > 0
            if isinstance(r, ArrRec):
                return I(r.len) > 0
            if isinstance(r, ConcDict):
                return len(r.d) > 0
            if isinstance(r, ObjRec):
                if '%seq' in r.f:        # stack or queue seen as its sequence
                    return self.truth(st, r.f['%seq'], node)
                if self.sized(r.cls):
                    raise Unsupported('truth of an object with __len__ (%s)' % r.cls)
                return True
            if isinstance(r, (DictRec, SetRec)):
                q = fresh_const('q', sort_of(r.kk))
                return z3.Exists([q], z3.Select(r.dom, q))
        if isinstance(v, VSeq):
            return v.len > 0
        raise Unsupported('truth of %r' % (v,))

    def sized(self, cls):
        c = self.prog.find_class(cls)
        return c is not None and (self.prog.class_attr(c, '__len__') is not None or self.prog.class_attr(c, '__bool__') is not None)

    # ------------------------------------------------------------ names
    def lookup(self, st, name, node=None):
        fid = st.fid
        while fid is not None:
            fr = st.frames[fid]
            if name in fr:
                v = fr[name]
                if isinstance(v, VPoison):
                    raise Unsupported('possibly unbound/unmodelled local %s' % name)
                return v
            fid = fr.get('@parent')
        func = st.stack[-1][1]
        m = self.prog.module(func.module)
        return self.module_value(st, m, name)

    def module_value(self, st, m, name):
        g = self.unit.globals.get((m.name, name))
        if g is not None:
            return g
        v = self.prog.lookup(m, name)
        if v is None:
            if name in BUILTINS:
                return VBuiltin(name)
            raise Unsupported('name %s' % name)
        if isinstance(v, tuple) and v[0] == 'expr':
            # module-level constant expression
            mm = self.prog.module(v[2])
            s2 = State()
            s2.nxt = st.nxt
            f = VFunc(None, None, mm.name, '<module>')
            s2.frames[-1] = {}
            s2.stack = ((-1, f, None),)
            if isinstance(v[1], ast.Lambda):
                return VFunc(v[1], None, mm.name, name)
            if isinstance(v[1], ast.Call) and isinstance(v[1].func, ast.Name) and v[1].func.id == 'type':
                return VBuiltin('NoneType')
            r = self.ev(v[1], s2)
            if len(r) != 1:
                raise Unsupported('module constant %s' % name)
            val = r[0][1]
            if v[3] is not None:
                val = val[v[3]]
            return val
        return v

    def set_local(self, st, name, v):
        fid = st.fid
        self.mod(('local', fid, name))
        st.frames[fid][name] = v

    # ------------------------------------------------------------ attributes
    def get_attr(self, st, o, name, node=None):
        """-> [(st, value)]"""
        if isinstance(o, VCell) and isinstance(st.store[o.id], ObjRec):
            r = st.store[o.id]
            if name in r.f:
                return [(st, r.f[name])]
            if name == '__class__':
                return [(st, self.prog.find_class(r.cls))]
            return self.class_get(st, o, r.cls, name, node)
        if isinstance(o, VRef):
            if name in st.heap or self.unit.fieldkind(name) is not None:
                self.safe('not-none', st, o.t != 0, node)
                fk = self.unit.fieldkind(name)
                if isinstance(fk, tuple) and fk[0] == 'const':
                    return [(st, fk[1])]
                self.ensure_field(st, name)
                k = self.unit.fieldkind(name)
                t = z3.Select(st.heap[name], o.t)
                return [(st, self.decode(st, t, k, (('heap', name), [('idx', o.t)])))]
            if o.cls is None:
                raise Unsupported('attribute %s of untyped ref' % name)
            return self.class_get(st, o, o.cls, name, node)
        if isinstance(o, VOpt):
            self.safe('not-none', st, z3.Not(o.isn), node)
            return self.get_attr(st, o.val, name, node)
        if is_z3(o) and o.sort() == E and self.unit.elem_class is not None:
            self.safe('not-none', st, z3.Not(isNone(o)), node)
            return self.get_attr(st, VRef(refof(o), self.unit.elem_class), name, node)
        if isinstance(o, VClass):
            a = self.prog.class_attr(o, name)
            if a is not None:
                k, n = a
                if isinstance(n, ast.FunctionDef):
                    f = VFunc(n, None, k.module, k.name + '.' + name, k)
                    if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in n.decorator_list):
                        return [(st, VBound(f, o))]
                    return [(st, f)]
                s2 = State()
                s2.frames[-1] = {}
                s2.stack = ((-1, VFunc(None, None, k.module, '<class>'), None),)
                r = self.ev(n.value, s2)
                return [(st, r[0][1])]
            if name == '__new__':
                return [(st, VBuiltin('object.__new__'))]
            raise Unsupported('class attribute %s.%s' % (o.name, name))
        if isinstance(o, VModule):
            if o.name in ('math', 'random'):
                if o.name == 'math' and name == 'inf' and self.unit.inf_hook(self, st, 'inf') is not None:
                    return [(st, self.unit.inf_hook(self, st, 'inf'))]
                return [(st, VBuiltin(o.name + '.' + name))]
            m = self.prog.module(o.name)
            if m is None:
                raise Unsupported('module %s' % o.name)
            sub = self.prog.module(o.name + '.' + name)
            if sub is not None and self.prog.lookup(m, name) is None:
                return [(st, VModule(o.name + '.' + name))]
            return [(st, self.module_value(st, m, name))]
        if isinstance(o, VOpaque):
            return [(st, VOpaque(o.name + '.' + name))]
        if isinstance(o, VBuiltin) and o.name == 'object' and name == '__new__':
            return [(st, VBuiltin('object.__new__'))]
        if isinstance(o, VBuiltin) and o.name == 'super()':
            cls, self_ = o.self_
            c = self.prog.find_class(self._cls_of(st, self_))
            a = self.prog.class_attr(c, name, after=cls.name)
            if a is None:
                return [(st, VBuiltin('object.' + name))]
            k, n = a
            f = VFunc(n, None, k.module, k.name + '.' + name, k)
            if name == '__new__':
                return [(st, f)]
            return [(st, VBound(f, self_))]
        if o is None:
            self.safe('not-none', st, False, node)
            return []
        # container / value methods
        return [(st, VBuiltin('method:' + name, o))]

    def _cls_of(self, st, v):
        if isinstance(v, VCell):
            return st.store[v.id].cls
        if isinstance(v, VRef):
            return v.cls
        if isinstance(v, VClass):
            return v.name
        raise Unsupported('class of %r' % (v,))

    def ensure_field(self, st, name):
        if name not in st.heap:
            k = self.unit.fieldkind(name)
            st.heap[name] = z3.Const('heap_' + name, z3.ArraySort(IntS, sort_of(k)))

    def class_get(self, st, o, clsname, name, node):
        c = self.prog.find_class(clsname)
        if c is None:
            raise Unsupported('class %s' % clsname)
        a = self.prog.class_attr(c, name)
        if a is None:
            if name in ('__setattr__', '__getattribute__', '__delattr__'):
                return [(st, VBuiltin('method:' + name, o))]
            raise Unsupported('attribute %s.%s' % (clsname, name))
        k, n = a
        if isinstance(n, ast.FunctionDef):
            f = VFunc(n, None, k.module, k.name + '.' + name, k)
            decs = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
            if 'property' in decs:
                return self.call(st, f, [o], {}, node)
            if 'staticmethod' in decs:
                return [(st, f)]
            if 'classmethod' in decs:
                return [(st, VBound(f, c))]
            return [(st, VBound(f, o))]
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda):
            return [(st, VBound(VFunc(n.value, None, k.module, k.name + '.' + name, k), o))]
        raise Unsupported('class attribute %s.%s' % (clsname, name))

    def set_attr(self, st, o, name, v, node=None):
        if isinstance(o, VCell) and isinstance(st.store[o.id], ObjRec):
            self.mod(('fld', o.id, name))
            st.store[o.id] = st.store[o.id].set(name, v)
            return
        if isinstance(o, VRef):
            if name == '__slots__':
                return
            self.safe('not-none', st, o.t != 0, node)
            k = self.unit.fieldkind(name)
            if k is None:
                raise Unsupported('heap field %s' % name)
            if isinstance(k, tuple) and k[0] == 'const':     # a field that holds the same value in every object
                self.safe('constant-field', st, z3.BoolVal(v == k[1]), node)
                return
            self.ensure_field(st, name)
            self.mod(('heap', name))
            if isinstance(k, tuple) and k[0] in ('list', 'dict', 'set'):
                st.vers[('heap', name)] = st.vers.get(('heap', name), 0) + 1
            st.heap[name] = z3.Store(st.heap[name], o.t, self.store_enc(st, v, k))
            return
        if isinstance(o, VOpt):
            self.safe('not-none', st, z3.Not(o.isn), node)
            return self.set_attr(st, o.val, name, v, node)
        if is_z3(o) and o.sort() == E and self.unit.elem_class is not None:
            self.safe('not-none', st, z3.Not(isNone(o)), node)
            return self.set_attr(st, VRef(refof(o), self.unit.elem_class), name, v, node)
        if o is None:
            self.safe('not-none', st, False, node)
            return
        raise Unsupported('set attribute %s on %r' % (name, o))

    # ------------------------------------------------------------ subscripts
    def norm_index(self, st, i, ln, node, what='index'):
        """python list index semantics with negative wrap"""
        i = self.as_int(st, i, node)
        if isinstance(i, int) and isinstance(ln, int):
            if not (-ln <= i < ln):
                self.safe(what, st, False, node)
                return 0
            return i + ln if i < 0 else i
        it, l = I(i), I(ln)
        self.safe(what, st, z3.And(-l <= it, it < l), node)
        if isinstance(i, int):
            return it if i >= 0 else z3.simplify(l + i)
        if not self.feasible(st, it < 0):
            return it
        return z3.If(it >= 0, it, it + l)

    def get_item(self, st, o, i, node=None):
        if isinstance(o, VOpt):
            self.safe('not-none', st, z3.Not(o.isn), node)
            o = o.val
        if isinstance(o, tuple):
            i = self.as_int(st, i, node)
            if isinstance(i, int):
                if not -len(o) <= i < len(o):
                    self.safe('index', st, False, node)
                    return []
                return [(st, o[i])]
            raise Unsupported('symbolic tuple index')
        if isinstance(o, VSeq):
            j = self.norm_index(st, i, o.len, node)
            return [(st, self.decode(st, z3.Select(o.arr, j), o.kind))]
        if isinstance(o, (VCell, VNest)):
            r = self.rec(st, o)
            if isinstance(r, ObjRec):
                return self.bind(self.get_attr(st, o, '__getitem__', node), lambda s, f: self.call(s, f, [i], {}, node))
            if isinstance(r, ConcList):
                ii = i
                if isinstance(ii, bool) or not isinstance(ii, int):
                    if is_z3(ii):
                        ii = z3.simplify(ii)
                        ii = ii.as_long() if z3.is_int_value(ii) else None
                    else:
                        ii = None
                if ii is not None:
                    if not -len(r.items) <= ii < len(r.items):
                        self.safe('index', st, False, node)
                        return []
                    return [(st, r.items[ii])]
                r = self.as_arr(st, r)
                if isinstance(o, VCell):
                    st.store[o.id] = r
            if isinstance(r, ArrRec):
                j = self.norm_index(st, i, r.len, node)
                if r.kind == 'none':
                    return [(st, None)]
                root, path = (('cell', o.id), []) if isinstance(o, VCell) else (o.root, o.path)
                return [(st, self.decode(st, z3.Select(r.arr, j), r.kind, (root, path + [('idx', I(j))])))]
            if isinstance(r, DictRec):
                k = self.encode(st, i, r.kk)
                self.safe('key', st, z3.Select(r.dom, k), node)
                root, path = (('cell', o.id), []) if isinstance(o, VCell) else (o.root, o.path)
                return [(st, self.decode(st, z3.Select(r.map, k), r.vk, (root, path + [('idx', k)])))]
            if isinstance(r, ConcDict):
                if isinstance(i, (str, int, bool)) and i in r.d:
                    return [(st, r.d[i])]
                if isinstance(i, (str, int)):
                    self.safe('key', st, False, node)
                    return []
                raise Unsupported('symbolic key into concrete dict')
        if isinstance(o, VRef):
            return self.bind(self.get_attr(st, o, '__getitem__', node), lambda s, f: self.call(s, f, [i], {}, node))
        if o is None:
            self.safe('not-none', st, False, node)
            return []
        if isinstance(o, str) and isinstance(i, int):
            return [(st, o[i])]
        raise Unsupported('subscript of %r' % (o,))

    def widen(self, st, o, r, vk):
        """convert list record so that a value of kind vk can be stored"""
        if isinstance(r, ConcList):
            hint = self.unit.listhint(self, st, o)
            if hint is not None:
                return self.as_arr(st, r, hint)
            k = None
            for x in r.items:
                kx = self.kind(st, x)
                k = kx if k is None else join_kind(k, kx)
            k = vk if k is None else join_kind(k, vk)
            if k == 'none' or isinstance(k, tuple) and k[0] == 'host':
                return r
            return self.as_arr(st, r, k)
        if r.kind == 'none':
            if vk == 'none':
                return r
            hint = self.unit.listhint(self, st, o)
            return self.as_arr(st, r, hint or join_kind('none', vk))
        if r.kind == 'int' and vk in ('none', 'optint'):
            return self.as_arr(st, r, 'optint')
        return r

    def set_item(self, st, o, i, v, node=None):
        """-> list of (st, None/PyExc)"""
        if isinstance(o, VOpt):
            self.safe('not-none', st, z3.Not(o.isn), node)
            o = o.val
        if isinstance(o, (VCell, VNest)):
            r = self.rec(st, o)
            if isinstance(r, ObjRec):
                return self.bind(self.get_attr(st, o, '__setitem__', node), lambda s, f: self.call(s, f, [i, v], {}, node))
            if isinstance(r, ConcList):
                if isinstance(i, int) and -len(r.items) <= i < len(r.items):
                    items = list(r.items)
                    items[i] = v
                    self.set_rec(st, o, ConcList(items))
                    return [(st, None)]
            if isinstance(r, (ConcList, ArrRec)):
                r = self.widen(st, o, r, self.kind(st, v))
                if isinstance(r, ConcList):
                    if all(x is None for x in r.items) and v is None:
                        self.norm_index(st, i, len(r.items), node)
                        return [(st, None)]
                    raise Unsupported('store into concrete list')
                j = self.norm_index(st, i, r.len, node)
                if r.kind == 'none':
                    return [(st, None)]
                t = self.store_enc(st, v, r.kind)
                if isinstance(r.kind, tuple) and r.kind[0] in ('list', 'dict', 'set', 'tuple', 'opt'):
                    self.bump(st, o)
                self.set_rec(st, o, ArrRec(r.len, z3.Store(r.arr, j, t), r.kind))
                return [(st, None)]
            if isinstance(r, ConcDict):
                if isinstance(i, (str, int)) and not is_z3(i) and self.unit.dicthint(self, st, o) is None:
                    d = dict(r.d)
                    d[i] = v
                    self.set_rec(st, o, ConcDict(d))
                    return [(st, None)]
                hint = self.unit.dicthint(self, st, o) or (self.kind(st, i), self.kind(st, v))
                r = self.as_dict(st, r, *hint)
            if isinstance(r, DictRec):
                k = self.encode(st, i, r.kk)
                t = self.store_enc(st, v, r.vk)
                if isinstance(r.vk, tuple) and r.vk[0] in ('list', 'dict', 'set', 'tuple', 'opt'):
                    self.bump(st, o)
                self.set_rec(st, o, DictRec(z3.Store(r.dom, k, z3.BoolVal(True)), z3.Store(r.map, k, t), r.kk, r.vk))
                return [(st, None)]
        if isinstance(o, VRef):
            return self.bind(self.get_attr(st, o, '__setitem__', node), lambda s, f: self.call(s, f, [i, v], {}, node))
        raise Unsupported('item assignment on %r' % (o,))

    def bump(self, st, o):
        root = ('cell', o.id) if isinstance(o, VCell) else o.root
        st.vers[root] = st.vers.get(root, 0) + 1

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st)

    def ev_Constant(self, e, st):
        return [(st, e.value)]

    def ev_Name(self, e, st):
        return [(st, self.lookup(st, e.id, e))]

    def ev_Tuple(self, e, st):
        return [(s, v if isinstance(v, PyExc) else tuple(v)) for s, v in self.evs(e.elts, st)]

    def ev_List(self, e, st):
        return [(s, v if isinstance(v, PyExc) else self.new_cell(s, ConcList(v))) for s, v in self.evs(e.elts, st)]

    def ev_Set(self, e, st):
        raise Unsupported('set display')

    def ev_Dict(self, e, st):
        def f(s, vs):
            n = len(e.keys)
            ks, xs = vs[:n], vs[n:]
            d = {}
            if all(isinstance(k, (str, int)) and not is_z3(k) for k in ks):
                c = self.new_cell(s, ConcDict(dict(zip(ks, xs))))
            else:
                c = self.new_cell(s, ConcDict({}))
                for k, x in zip(ks, xs):
                    self.set_item(s, c, k, x, e)
            return [(s, c)]
        return self.bind(self.evs(list(e.keys) + list(e.values), st), f)

    def ev_Lambda(self, e, st):
        return [(st, VFunc(e, st.fid, st.stack[-1][1].module, '<lambda>', st.stack[-1][1].cls))]

    def ev_JoinedStr(self, e, st):
        return [(st, VOpaque('str'))]

    def ev_IfExp(self, e, st):
        def f(s, c):
            cond = self.truth(s, c, e)
            outs = []
            for s2, b in self.split(s, cond, 'ifexp%d' % e.lineno):
                outs.extend(self.ev(e.body if b else e.orelse, s2))
            return self.merge(s, outs)
        return self.bind(self.ev(e.test, st), f)

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(s, vals, idx):
            # vals: conjuncts so far (host/z3 bool), evaluated
            def f(s2, v):
                if idx == len(e.values) - 1:
                    return [(s2, v)]
                c = self.truth(s2, v, e)
                outs = []
                for s3, b in self.split(s2, c, ''):
                    if b == isand:
                        outs.extend(go(s3, None, idx + 1))
                    else:
                        outs.append((s3, v if not is_z3(v) or v.sort() != BoolS else (not isand)))
                return self.merge(s2, outs)
            return self.bind(self.ev(e.values[idx], s), f)
        return go(st, None, 0)

    def ev_UnaryOp(self, e, st):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                t = self.truth(s, v, e)
                return [(s, (not t) if isinstance(t, bool) else z3.Not(t))]
            if isinstance(v, float):
                return [(s, -v if isinstance(e.op, ast.USub) else v)]
            if is_z3(v) and v.sort() == RealS:
                return [(s, -v if isinstance(e.op, ast.USub) else v)]
            i = self.as_int(s, v, e)
            if isinstance(e.op, ast.USub):
                return [(s, -i)]
            if isinstance(e.op, ast.UAdd):
                return [(s, i)]
            raise Unsupported('unary op')
        return self.bind(self.ev(e.operand, st), f)

    def ev_BinOp(self, e, st):
        return self.bind(self.evs([e.left, e.right], st), lambda s, v: [(s, self.binop(s, e.op, v[0], v[1], e))])

    def is_real(self, v):
        return isinstance(v, float) or (is_z3(v) and v.sort() == RealS)

    def to_real(self, st, v, node):
        if isinstance(v, float):
            return z3.RealVal(v)
        if is_z3(v) and v.sort() == RealS:
            return v
        i = self.as_int(st, v, node)
        return z3.RealVal(i) if isinstance(i, int) else z3.ToReal(i)

    def binop(self, st, op, a, b, node):
        if isinstance(op, ast.Add) and isinstance(a, (VSeq, str)) and isinstance(b, (VSeq, str)) and not (isinstance(a, str) and isinstance(b, str)):
            return self.seq_concat(st, a, b)
        if isinstance(a, str) or isinstance(a, VOpaque):
            if isinstance(op, ast.Mod):
                return VOpaque('str')
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, VOpaque) or isinstance(b, VOpaque):
                return VOpaque('str')
        hooked = self.unit.binop_hook(self, st, op, a, b, node)
        if hooked is not NotImplemented:
            return hooked
        isb = lambda v: isinstance(v, bool) or is_z3(v) and v.sort() == BoolS
        if isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd)) and isb(a) and isb(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a ^ b if isinstance(op, ast.BitXor) else a | b if isinstance(op, ast.BitOr) else a & b
            return {ast.BitXor: z3.Xor, ast.BitOr: z3.Or, ast.BitAnd: z3.And}[type(op)](B(a), B(b))
        if isinstance(op, ast.Mult) and isinstance(a, (VCell, VNest)):
            r = self.rec(st, a)
            if isinstance(r, ConcList) and len(r.items) == 1 or isinstance(r, ArrRec):
                n = self.as_int(st, b, node)
                if isinstance(r, ConcList) and isinstance(n, int):
                    return self.new_cell(st, ConcList(r.items * max(n, 0)))
                x = r.items[0] if isinstance(r, ConcList) else None
                if isinstance(r, ArrRec) and r.kind != 'none':
                    raise Unsupported('list repetition')
                base = 1 if isinstance(r, ConcList) else r.len
                n = I(n)
                ln = z3.If(n > 0, n, z3.IntVal(0)) * I(base)
                if x is None:
                    return self.new_cell(st, ArrRec(z3.simplify(ln), None, 'none'))
                k = self.kind(st, x)
                return self.new_cell(st, ArrRec(z3.simplify(ln), z3.K(IntS, self.encode(st, x, k)), k))
            if isinstance(r, ConcList):
                n = self.as_int(st, b, node)
                if isinstance(n, int):
                    return self.new_cell(st, ConcList(r.items * max(n, 0)))
        if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(op, ast.Add) and isinstance(a, (VCell, VNest)) and isinstance(b, (VCell, VNest)):
            ra, rb = self.rec(st, a), self.rec(st, b)
            if isinstance(ra, ConcList) and isinstance(rb, ConcList):
                return self.new_cell(st, ConcList(ra.items + rb.items))
        if isinstance(op, ast.Div):
            x, y = self.to_real(st, a, node), self.to_real(st, b, node)
            self.safe('zero-division', st, y != 0, node)
            return x / y
        if self.is_real(a) or self.is_real(b):
            x, y = self.to_real(st, a, node), self.to_real(st, b, node)
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            raise Unsupported('real op')
        x, y = self.as_int(st, a, node), self.as_int(st, b, node)
        conc = isinstance(x, int) and isinstance(y, int)
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            for p, q in ((x, y), (y, x)):    # (t mod 2) * q is linear
                if not conc and is_z3(p) and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_MOD and p.arg(1).eq(z3.IntVal(2)):
                    return z3.If(p == 1, I(q), z3.IntVal(0))
            return x * y
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if conc:
                if y == 0:
                    self.safe('zero-division', st, False, node)
                    return 0
                return x // y if isinstance(op, ast.FloorDiv) else x % y
            if isinstance(y, int) and y > 0:
                q = I(x) / I(y)
                return q if isinstance(op, ast.FloorDiv) else I(x) % I(y)
            self.safe('zero-division', st, I(y) != 0, node)
            if not self.feasible(st, I(y) < 0):
                q = I(x) / I(y)
                m = I(x) % I(y)
            else:
                q = z3.If(I(y) > 0, I(x) / I(y), (-I(x)) / (-I(y)))
                m = I(x) - I(y) * q
            return q if isinstance(op, ast.FloorDiv) else m
        if isinstance(op, ast.Pow):
            if conc and y >= 0:
                return x ** y
            if isinstance(x, int) and x == 2:
                self.safe('pow-nonneg', st, I(y) >= 0, node)
                return pow2(I(y))
            raise Unsupported('pow')
        if isinstance(op, ast.LShift):
            if conc:
                return x << y
            self.safe('shift-nonneg', st, I(y) >= 0, node)
            return I(x) * pow2(I(y)) if not (isinstance(x, int) and x == 1) else pow2(I(y))
        if isinstance(op, ast.BitAnd) and conc:
            return x & y
        if isinstance(op, ast.BitAnd) and isinstance(y, int) and y == 1:
            return I(x) % 2
        if isinstance(op, ast.RShift) and isinstance(y, int):
            return I(x) / (1 << y)
        raise Unsupported('binop %s' % type(op).__name__)

    def ev_Compare(self, e, st):
        def f(s, vals):
            cs = []
            for op, a, b in zip(e.ops, vals, vals[1:]):
                cs.append((op, a, b))
            res = [(s, [])]
            for op, a, b in cs:
                nxt = []
                for s2, acc in res:
                    if isinstance(acc, PyExc):
                        nxt.append((s2, acc))
                        continue
                    for s3, c in self.compare(s2, op, a, b, e):
                        nxt.append((s3, c if isinstance(c, PyExc) else acc + [c]))
                res = nxt
            out = []
            for s2, acc in res:
                if isinstance(acc, PyExc):
                    out.append((s2, acc))
                elif len(acc) == 1:
                    out.append((s2, acc[0]))
                elif all(isinstance(c, bool) for c in acc):
                    out.append((s2, all(acc)))
                else:
                    out.append((s2, z3.And(*[B(c) for c in acc])))
            return out
        return self.bind(self.evs([e.left] + e.comparators, st), f)

    def is_none(self, st, v):
        if v is None:
            return True
        if isinstance(v, VRef):
            return v.t == 0
        if isinstance(v, VOpt):
            return v.isn
        if is_z3(v) and v.sort() == E:
            return isNone(v)
        return False

    def identical(self, st, a, b, node):
        if a is None or b is None:
            return self.is_none(st, b if a is None else a)
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, bool):
                return x == y
            if is_z3(y) and y.sort() == BoolS:
                return y if x else z3.Not(y)
            if isinstance(y, VOpt):
                t = self.identical(st, x, y.val, node)
                return z3.And(z3.Not(y.isn), B(t))
            return False
        if isinstance(a, VRef) and isinstance(b, VRef):
            return a.t == b.t
        if isinstance(a, (VCell,)) and isinstance(b, (VCell,)):
            return a.id == b.id
        if isinstance(a, (VClass, VBuiltin)) and isinstance(b, (VClass, VBuiltin)):
            return type(a) is type(b) and a.name == b.name
        if isinstance(a, VBuiltin) or isinstance(b, VBuiltin) or isinstance(a, VOpaque) or isinstance(b, VOpaque):
            if isinstance(a, VOpaque) and isinstance(b, VOpaque) and a.name == b.name:
                return True
            if (isinstance(a, VBuiltin) and a.name == 'NoneType') or (isinstance(b, VBuiltin) and b.name == 'NoneType'):
                return False
            raise Unsupported('identity of opaque values')
        ka, kb = self.kind(st, a), self.kind(st, b)
        if ka == 'elem' and kb == 'elem' and not self.unit.int_elems:
            # object identity of two occurrences: reflexive, implies equal rank and equal None-ness
            r = fresh_const('is', BoolS)
            st.assume(z3.Implies(a == b, r))
            st.assume(z3.Implies(r, z3.And(rk(a) == rk(b), isNone(a) == isNone(b), py_eq(a, b))))
            return r
        if ka in ('int', 'elem', 'optint') and kb in ('int', 'elem', 'optint'):
            x, y = self.as_int(st, a, node), self.as_int(st, b, node)
            r = fresh_const('is', BoolS)
            st.assume(z3.Implies(r, I(x) == I(y)))
            st.assume(z3.Implies(z3.And(I(x) == I(y), I(x) >= -5, I(x) <= 256), r))
            return r
        if isinstance(a, (VCell, VRef)) or isinstance(b, (VCell, VRef)):
            return False
        if ka == 'key' and kb == 'key':
            self.unit.trust('equal names compared with `is` are one object')
            return a == b
        raise Unsupported('identity of %r and %r' % (a, b))

    def equal(self, st, a, b, node):
        if a is None or b is None:
            return self.is_none(st, b if a is None else a)
        if isinstance(a, (str, float)) and isinstance(b, (str, float, int)) and not is_z3(a) and not is_z3(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.equal(st, x, y, node) for x, y in zip(a, b)]
            if all(isinstance(c, bool) for c in cs):
                return all(cs)
            return z3.And(*[B(c) for c in cs])
        if isinstance(a, VRef) and isinstance(b, VRef):
            return a.t == b.t
        if isinstance(a, (VClass, VBuiltin)) and isinstance(b, (VClass, VBuiltin)):
            return type(a) is type(b) and a.name == b.name
        if isinstance(a, VCell) and isinstance(b, VCell) and isinstance(st.store[a.id], ObjRec):
            return a.id == b.id
        if isinstance(a, VOpt) and not isinstance(b, VOpt):
            return z3.And(z3.Not(a.isn), B(self.equal(st, a.val, b, node)))
        if isinstance(b, VOpt) and not isinstance(a, VOpt):
            return z3.And(z3.Not(b.isn), B(self.equal(st, a, b.val, node)))
        if isinstance(b, VOpt) and isinstance(a, VOpt):
            return z3.Or(z3.And(a.isn, b.isn), z3.And(z3.Not(a.isn), z3.Not(b.isn), B(self.equal(st, a.val, b.val, node))))
        ka, kb = self.kind(st, a), self.kind(st, b)
        if ka == 'key' or kb == 'key':
            return self.encode(st, a, 'key') == self.encode(st, b, 'key')
        if ka == 'elem' and kb == 'elem':
            if self.unit.int_elems:
                return z3.If(z3.Or(isNone(a), isNone(b)), z3.And(isNone(a), isNone(b)), ival(a) == ival(b))
            return py_eq(a, b)
        if ka == 'elem' or kb == 'elem':
            x, y = (a, b) if ka == 'elem' else (b, a)
            return z3.And(z3.Not(isNone(x)), ival(x) == I(self.as_int(st, y, node)))
        if ka == 'bool' and kb == 'bool':
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return B(a) == B(b)
        if ka == 'real' or kb == 'real':
            return self.to_real(st, a, node) == self.to_real(st, b, node)
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            x, y = self.as_int(st, a, node), self.as_int(st, b, node)
            if isinstance(x, int) and isinstance(y, int):
                return x == y
            return I(x) == I(y)
        if isinstance(a, (VSeq, str)) and isinstance(b, (VSeq, str)):
            a, b = self.as_seq(a), self.as_seq(b)
            if isinstance(b.len, int) and b.len == 0:
                return a.len == 0
            j = z3.Int(fresh_name('sj'))
            return z3.And(I(a.len) == I(b.len), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < I(a.len)), z3.Select(a.arr, j) == z3.Select(b.arr, j)),
                                                          patterns=[z3.Select(a.arr, j), z3.Select(b.arr, j)]))
        if isinstance(a, (VCell, VNest)) and isinstance(b, (VCell, VNest)):
            raise Unsupported('container equality')
        raise Unsupported('equality of %r and %r' % (a, b))

    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(st, a, b, node)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return [(st, r)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            # enum members / opaque
            if isinstance(a, VOpaque) or isinstance(b, VOpaque):
                if isinstance(a, VOpaque) and isinstance(b, VOpaque):
                    r = a.name == b.name
                else:
                    raise Unsupported('equality of opaque')
            else:
                r = self.equal(st, a, b, node)
            if isinstance(op, ast.NotEq):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return [(st, r)]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b, node)
            if isinstance(r, list):
                return r
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return [(st, r)]
        hooked = self.unit.compare_hook(self, st, op, a, b, node)
        if hooked is not NotImplemented:
            return [(st, hooked)]
        if self.is_real(a) or self.is_real(b):
            x, y = self.to_real(st, a, node), self.to_real(st, b, node)
        else:
            for v in (a, b):
                n = self.is_none(st, v)
                if n is True:
                    self.safe('not-none', st, False, node)
                    return []
            if isinstance(a, VOpt):
                self.safe('not-none', st, z3.Not(a.isn), node)
                a = a.val
            if isinstance(b, VOpt):
                self.safe('not-none', st, z3.Not(b.isn), node)
                b = b.val
            ka, kb = self.kind(st, a), self.kind(st, b)
            if ka == 'elem' and kb == 'elem' and not self.unit.int_elems:
                self.safe('not-none', st, z3.And(z3.Not(isNone(a)), z3.Not(isNone(b))), node)
                x, y = rk(a), rk(b)
            elif isinstance(a, tuple) and isinstance(b, tuple):
                return [(st, self.lex(st, op, a, b, node))]
            elif isinstance(a, (VCell, VNest)) and isinstance(b, (VCell, VNest)) and isinstance(op, ast.Lt):
                return [(st, self.list_less(st, a, b))]
            else:
                x, y = self.as_int(st, a, node), self.as_int(st, b, node)
        if isinstance(op, ast.Lt):
            r = x < y
        elif isinstance(op, ast.LtE):
            r = x <= y
        elif isinstance(op, ast.Gt):
            r = x > y
        elif isinstance(op, ast.GtE):
            r = x >= y
        else:
            raise Unsupported('compare op')
        return [(st, r)]

    def list_less(self, st, a, b):
        """a < b for lists of integers: decided at the first index where they differ"""
        ra, rb = self.rec(st, a), self.rec(st, b)
        if not all(isinstance(r, (ConcList, ArrRec)) for r in (ra, rb)):
            raise Unsupported('ordering of %s' % type(ra).__name__)
        ra, rb = (self.as_arr(st, r) if isinstance(r, ConcList) else r for r in (ra, rb))
        if ra.kind == 'none' or rb.kind == 'none':
            return z3.And(I(ra.len) == 0, I(rb.len) > 0)
        if ra.kind != 'int' or rb.kind != 'int':
            raise Unsupported('ordering of lists of %s' % (ra.kind,))
        d, k, less = fresh_const('diff', IntS), z3.Int('k'), fresh_const('less', BoolS)
        n, m = I(ra.len), I(rb.len)
        x, y = z3.Select(ra.arr, d), z3.Select(rb.arr, d)
        st.assume(z3.And(0 <= d, d <= n, d <= m, z3.Or(d == n, d == m, x != y), less == z3.If(z3.Or(d == n, d == m), n < m, x < y)))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d), z3.Select(ra.arr, k) == z3.Select(rb.arr, k)), patterns=[z3.Select(ra.arr, k), z3.Select(rb.arr, k)]))
        return less

    def lex(self, st, op, a, b, node):
        raise Unsupported('tuple ordering')

    def contains(self, st, a, b, node):
        if isinstance(b, tuple):
            cs = [self.equal(st, a, x, node) for x in b]
            if all(isinstance(c, bool) for c in cs):
                return any(cs)
            return z3.Or(*[B(c) for c in cs])
        if isinstance(b, (VCell, VNest)):
            r = self.rec(st, b)
            if isinstance(r, ConcList):
                return self.contains(st, a, r.items, node)
            if isinstance(r, DictRec):
                return z3.Select(r.dom, self.encode(st, a, r.kk))
            if isinstance(r, SetRec):
                return z3.Select(r.dom, self.encode(st, a, r.kk))
            if isinstance(r, ConcDict):
                if isinstance(a, (str, int)):
                    return a in r.d
                if not r.d:
                    return False
            if isinstance(r, ArrRec) and r.kind in ('int', 'key'):
                j = fresh_const('j', IntS)
                t = self.encode(st, a, r.kind)
                return z3.Exists([j], z3.And(j >= 0, j < I(r.len), z3.Select(r.arr, j) == t))
            if isinstance(r, ObjRec):
                return self.bind(self.get_attr(st, b, '__contains__', node), lambda s, f: self.call(s, f, [a], {}, node))
        raise Unsupported('in')

    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, v: self.get_attr(s, v, e.attr, e))

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]

            def f(s, vs):
                o, rest = vs[0], vs[1:]
                lo = rest.pop(0) if e.slice.lower is not None else None
                hi = rest.pop(0) if e.slice.upper is not None else None
                step = rest.pop(0) if e.slice.step is not None else None
                return [(s, self.slice(s, o, lo, hi, step, e))]
            return self.bind(self.evs([e.value] + parts, st), f)
        return self.bind(self.evs([e.value, e.slice], st), lambda s, v: self.get_item(s, v[0], v[1], e))

    def slice(self, st, o, lo, hi, step, node):
        if step is not None:
            raise Unsupported('slice step')
        if isinstance(o, (VCell, VNest)):
            r = self.rec(st, o)
            if lo is None and hi is None:
                return self.new_cell(st, r)
            if isinstance(r, ConcList) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                return self.new_cell(st, ConcList(r.items[lo:hi]))
            if isinstance(r, ArrRec):
                ln, arr, kind = I(r.len), r.arr, r.kind
                l, h = self.slice_bounds(st, lo, hi, ln, node)
                na = fresh_const('slice', arr.sort())
                j = z3.Int('j')
                st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < h - l), z3.Select(na, j) == z3.Select(arr, l + j)),
                                    patterns=[z3.Select(na, j)]))
                return self.new_cell(st, ArrRec(z3.If(h > l, h - l, z3.IntVal(0)), na, kind))
        if isinstance(o, VSeq):
            l, h = self.slice_bounds(st, lo, hi, o.len, node)
            na = fresh_const('slice', o.arr.sort())
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < h - l), z3.Select(na, j) == z3.Select(o.arr, l + j)),
                                patterns=[z3.Select(na, j)]))
            return VSeq(z3.If(h > l, h - l, z3.IntVal(0)), na, o.kind)
        if isinstance(o, (tuple, str)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        raise Unsupported("slice of %r" % (o,))

    def as_seq(self, a):
        if isinstance(a, VSeq):
            return a
        arr = z3.K(IntS, z3.Const('chr_none', K))
        for i, ch in enumerate(a):
            arr = z3.Store(arr, i, self.encode(None, ch, 'key'))
        return VSeq(len(a), arr, 'key')

    def seq_concat(self, st, a, b):
        a, b = self.as_seq(a), self.as_seq(b)
        na = fresh_const('concat', a.arr.sort())
        j = z3.Int('j')
        la, lb = I(a.len), I(b.len)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < la + lb), z3.Select(na, j) == z3.If(j < la, z3.Select(a.arr, j), z3.Select(b.arr, j - la))),
                            patterns=[z3.Select(na, j)]))
        return VSeq(z3.simplify(la + lb), na, a.kind)

    def slice_bounds(self, st, lo, hi, ln, node):
        def clamp(v, d):
            if v is None:
                return d
            v = I(self.as_int(st, v, node))
            v = z3.If(v < 0, v + ln, v)
            return z3.If(v < 0, z3.IntVal(0), z3.If(v > ln, ln, v))
        return z3.simplify(clamp(lo, z3.IntVal(0))), z3.simplify(clamp(hi, ln))

    # comprehension: [expr for x in iter (if cond)]
    def ev_ListComp(self, e, st):
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]

        def f(s, itv):
            conc = self.concrete_iter(s, itv)
            if conc is not None and not (g.ifs and False):
                res = [(s, [])]
                for x in conc:
                    nxt = []
                    for s2, acc in res:
                        if isinstance(acc, PyExc):
                            nxt.append((s2, acc))
                            continue
                        saved = s2.frames[s2.fid].copy()
                        self.assign(s2, g.target, x)
                        for s3, keep in self.comp_ifs(s2, g.ifs):
                            if isinstance(keep, PyExc):
                                nxt.append((s3, keep))
                            elif keep:
                                for s4, v in self.ev(e.elt, s3):
                                    nxt.append((s4, v if isinstance(v, PyExc) else acc + [v]))
                            else:
                                nxt.append((s3, acc))
                    res = nxt
                return [(s2, v if isinstance(v, PyExc) else self.new_cell(s2, ConcList(v))) for s2, v in res]
            return self.symbolic_comp(s, e, g, itv)
        return self.bind(self.ev(g.iter, st), f)

    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, st):
        """{key: value for x in iterable}: the last item with a key decides its value"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported('dict comprehension form')
        g = e.generators[0]

        def f(s, itv):
            if self.concrete_iter(s, itv) is not None:
                raise Unsupported('concrete dict comprehension')
            n, item = self.iter_of(s, itv, e)
            j = fresh_const('cj', IntS)
            s2 = s.fork(z3.And(j >= 0, j < n(s)))
            base = len(s2.pc)
            snap = (dict(s2.store), dict(s2.heap))
            self.assign(s2, g.target, item(s2, j))
            r = [(s4, k, v) for s3, k in self.ev(e.key, s2) for s4, v in self.ev(e.value, s3)]
            if len(r) != 1 or any(isinstance(x, PyExc) for x in r[0][1:]):
                raise Unsupported('dict comprehension item')
            s3, k, v = r[0]
            if not (all(s3.store.get(q) is x for q, x in snap[0].items()) and all(s3.heap.get(q) is x for q, x in snap[1].items())) or len(s3.pc) > base + 1:
                raise Unsupported('impure dict comprehension')
            kk, vk = self.kind(s3, k), self.kind(s3, v)
            kt, vt = self.encode(s3, k, kk), self.encode(s3, v, vk)
            dom, mp = fresh_const('dc_dom', z3.ArraySort(sort_of(kk), BoolS)), fresh_const('dc_map', z3.ArraySort(sort_of(kk), sort_of(vk)))
            last = fresh_const('dc_last', z3.ArraySort(sort_of(kk), IntS))
            q = fresh_const('q', sort_of(kk))
            ln, w = n(s), z3.Select(last, q)
            if not self.occurs(kt, j):
                raise Unsupported('dict comprehension with a constant key')
            at = lambda t: z3.substitute(t, (j, w))
            s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(z3.Select(dom, kt), j <= z3.Select(last, kt))), patterns=[kt]))
            s.assume(z3.ForAll([q], z3.Implies(z3.Select(dom, q), z3.And(0 <= w, w < ln, at(kt) == q, z3.Select(mp, q) == at(vt))), patterns=[z3.Select(dom, q), z3.Select(mp, q)]))
            return [(s, self.new_cell(s, DictRec(dom, mp, kk, vk)))]
        return self.bind(self.ev(g.iter, st), f)

    def comp_ifs(self, st, ifs):
        res = [(st, True)]
        for c in ifs:
            nxt = []
            for s, k in res:
                if k is not True:
                    nxt.append((s, k))
                    continue
                for s2, v in self.ev(c, s):
                    if isinstance(v, PyExc):
                        nxt.append((s2, v))
                        continue
                    for s3, b in self.split(s2, self.truth(s2, v, c), 'comp'):
                        nxt.append((s3, b))
            res = nxt
        return res

    def symbolic_comp(self, st, e, g, itv):
        n, item = self.iter_of(st, itv, e)
        pure_names = {x.id for x in ast.walk(e.elt) if isinstance(x, ast.Name)}
        tn = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if not g.ifs and not (self.unit.force_loop_comp and self.depth <= 1):
            # pure element expression evaluated at a bound index
            j = fresh_const('cj', IntS)
            s2 = st.fork(z3.And(j >= 0, j < n(st)))
            base = len(s2.pc)
            snap = (dict(s2.store), dict(s2.heap))
            self.assign(s2, g.target, item(s2, j))
            r = self.ev(e.elt, s2)
            r = self.merge(s2, r) if len(r) > 1 else r
            if len(r) == 1 and not isinstance(r[0][1], PyExc):
                s3, v = r[0]
                same = all(s3.store.get(k) is x for k, x in snap[0].items()) and \
                    all(s3.heap.get(k) is x for k, x in snap[1].items() if True)
                if same:
                    ln = n(st)
                    if v is None:
                        k = self.unit.comp_kind(e)
                        if isinstance(k, tuple) and k[0] == 'ref':
                            return [(st, self.new_cell(st, ArrRec(ln, z3.K(IntS, self.encode(st, None, k)), k)))]
                        return [(st, self.new_cell(st, ArrRec(ln, None, 'none')))]
                    k = self.kind(s3, v)
                    if isinstance(k, tuple) and ("'empty'" in repr(k) or "('list', 'none')" in repr(k)) and self.unit.comp_kind(e) is not None:
                        k = self.unit.comp_kind(e)
                    extra = [p[0] for p in s3.pc[base + 1:]] if len(s3.pc) > base else []
                    t = self.encode(s3, v, k)
                    na = fresh_const('comp', z3.ArraySort(IntS, sort_of(k)))
                    body = z3.And(*([z3.Select(na, j) == t] + extra)) if extra else (z3.Select(na, j) == t)
                    if not extra and not self.occurs(t, j):
                        na = z3.K(IntS, t)
                    else:
                        if extra:
                            raise Unsupported('impure comprehension element')
                        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), body), patterns=[z3.Select(na, j)]))
                    return [(st, self.new_cell(st, ArrRec(ln, na, k)))]
            raise Unsupported('comprehension element')
        # desugar into a loop with append on a hidden list
        self.fidc += 1
        nm = '_lc'
        self.set_local(st, nm, self.new_cell(st, ConcList([])))
        app = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [e.elt], []))
        body = [app]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        loop = getattr(e, '_loop', None)
        if loop is None:
            loop = ast.For(g.target, g.iter, body, [])
            ast.copy_location(loop, e)
            ast.fix_missing_locations(loop)
            e._loop = loop
        out = []
        for s, oc in self.exec_for_value(loop, st, itv):
            if oc[0] == 'next':
                out.append((s, s.frames[s.fid][nm]))
            elif oc[0] == 'exc':
                out.append((s, oc[1]))
        return out

    def occurs(self, t, c):
        if t.eq(c):
            return True
        return any(self.occurs(x, c) for x in t.children()) or (z3.is_quantifier(t) and self.occurs(t.body(), c))

    # ------------------------------------------------------------ merging
    def merge(self, base, outs):
        """merge outcomes of an effect-free evaluation into one (ite)"""
        if len(outs) <= 1:
            return outs
        n = len(base.pc)
        vals = [v for _, v in outs]
        if any(isinstance(v, PyExc) for v in vals):
            good = [(s, v) for s, v in outs if not isinstance(v, PyExc)]
            bad = [(s, v) for s, v in outs if isinstance(v, PyExc)]
            if len(good) > 1:
                return self.merge(base, good) + bad
            return outs
        for s, v in outs:
            if len(s.pc) < n or any(s.pc[i][0] is not base.pc[i][0] for i in range(n)):
                return outs
            if s.heap.keys() != base.heap.keys() and any(k in base.heap and s.heap[k] is not base.heap[k] for k in s.heap):
                return outs
            if any(s.heap[k] is not base.heap[k] for k in base.heap):
                return outs
            if any(s.store.get(k) is not r for k, r in base.store.items()):
                return outs
            if s.nxt is not base.nxt or s.stack != base.stack:
                return outs
            for fid in base.frames:
                if s.frames.get(fid) != base.frames[fid] and not self.same_frame(s.frames.get(fid), base.frames[fid]):
                    return outs
        # kinds
        try:
            k = None
            for s, v in outs:
                kk = self.kind(s, v)
                if isinstance(kk, tuple) and kk[0] in ('host', 'cell', 'list', 'dict', 'set'):
                    return outs if not all(self.same_val(v, w) for w in vals) else [(self.merged_state(base, outs)[0], v)]
                k = kk if k is None else join_kind(k, kk)
        except Unsupported:
            return outs
        if k == 'unbound':
            return outs
        ms, conds = self.merged_state(base, outs)
        if k == 'none':
            return [(ms, None)]
        if all(isinstance(v, bool) for v in vals):
            f = z3.Or(*[c for c, v in zip(conds, vals) if v]) if any(vals) else False
            if all(vals):
                f = True
            return [(ms, f)]
        try:
            terms = [self.encode(s, v, k) for s, v in outs]
        except Unsupported:
            return outs
        t = terms[-1]
        for c, x in zip(reversed(conds[:-1]), reversed(terms[:-1])):
            t = z3.If(c, x, t)
        return [(ms, self.decode(ms, t, k))]

    def same_val(self, a, b):
        if a is b:
            return True
        if is_z3(a) and is_z3(b):
            return a.eq(b)
        if isinstance(a, VCell) and isinstance(b, VCell):
            return a.id == b.id
        if isinstance(a, VRef) and isinstance(b, VRef):
            return a.t.eq(b.t)
        if isinstance(a, (int, str, bool, float)) and type(a) is type(b):
            return a == b
        return False

    def same_frame(self, a, b):
        if a is None or a.keys() != b.keys():
            return False
        return all(self.same_val(a[k], b[k]) for k in a)

    def merged_state(self, base, outs):
        ms = base.copy()
        n = len(base.pc)
        conds = []
        for s, v in outs:
            br = [p for p, b in s.pc[n:] if b]
            c = z3.And(*br) if len(br) > 1 else (br[0] if br else z3.BoolVal(True))
            conds.append(c)
            facts = [p for p, b in s.pc[n:] if not b]
            for p in facts:
                ms.pc.append((z3.Implies(c, p) if br else p, False))
            for k, r in s.store.items():
                if k not in ms.store:
                    ms.store[k] = r
            for k, h in s.heap.items():
                if k not in ms.heap:
                    ms.heap[k] = h
        # if some branch was pruned as infeasible the disjunction is a (sound) consequence
        ms.pc.append((z3.Or(*conds), False))
        return ms, conds

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        # super().__new__ and friends
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2 and not e.keywords:
            return self.bind(self.evs(list(e.args), st), lambda s, v: [(s, VBuiltin('super()', (v[0], v[1])))])
        if isinstance(e.func, ast.Name) and e.func.id == 'next' and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Call) \
                and isinstance(e.args[0].func, ast.Name) and e.args[0].func.id == 'iter' and len(e.args[0].args) == 1:
            # next(iter(x)) of a list is its first item
            def first_item(s, v):
                if not (isinstance(v, VCell) and isinstance(self.rec(s, v), (ArrRec, ConcList))):
                    raise Unsupported('iter of %r' % (v,))
                self.safe('iter-empty', s, I(self.rec(s, v).len if isinstance(self.rec(s, v), ArrRec) else len(self.rec(s, v).items)) > 0, e)
                return self.get_item(s, v, 0, e)
            return self.bind(self.ev(e.args[0].args[0], st), first_item)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            func = st.stack[-1][1]
            fr = st.frames[st.fid]
            first = func.node.args.args[0].arg
            return [(st, VBuiltin('super()', (func.cls, fr[first])))]

        def f(s, fv):
            def g(s2, av):
                args, kw = [], {}
                i = 0
                for a in e.args:
                    if isinstance(a, ast.Starred):
                        args.extend(self.star(s2, av[i]))
                    else:
                        args.append(av[i])
                    i += 1
                for k in e.keywords:
                    if k.arg is None:
                        r = self.rec(s2, av[i])
                        if not isinstance(r, ConcDict):
                            raise Unsupported('** of symbolic dict')
                        kw.update(r.d)
                    else:
                        kw[k.arg] = av[i]
                    i += 1
                return self.call(s2, fv, args, kw, e)
            ex = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
            return self.bind(self.evs(ex, s), g)
        return self.bind(self.ev(e.func, st), f)

    def star(self, st, v):
        if isinstance(v, tuple):
            return list(v)
        c = self.concrete_iter(st, v)
        if c is None:
            raise Unsupported('* of symbolic sequence')
        return list(c)

    def call(self, st, f, args, kw, node):
        if isinstance(f, VBound):
            return self.call(st, f.func, [f.self_] + args, kw, node)
        if isinstance(f, VSym):
            return f.fn(self, st, args, node)
        if isinstance(f, VBuiltin):
            from .builtins_ import call_builtin
            return call_builtin(self, st, f, args, kw, node)
        if isinstance(f, VClass):
            return self.construct(st, f, args, kw, node)
        if isinstance(f, VFunc):
            return self.call_func(st, f, args, kw, node)
        if isinstance(f, VOpt):
            self.safe('callable', st, z3.Not(f.isn), node)
            return self.call(st, f.val, args, kw, node)
        if isinstance(f, VOpaque):
            h = self.unit.opaque_call_hook(self, st, f, args, kw, node)
            if h is not None:
                return h
        raise Unsupported('call of %r' % (f,))

    def construct(self, st, c, args, kw, node):
        if c.name in EXC:
            return [(st, VOpaque('exc:' + c.name))]
        ct = self.unit.contract_for(self, st, c.module, c.name + '.__new__', args)
        if ct is None:
            ct = self.unit.contract_for(self, st, c.module, c.name, args)
        if ct is not None:
            return self.call_contract(st, ct, [c] + args, kw, node)
        a = self.prog.class_attr(c, '__new__')
        if a is not None:
            k, n = a
            fn = VFunc(n, None, k.module, k.name + '.__new__', k)
            res = self.call_func(st, fn, [c] + args, kw, node)
        else:
            res = [(st, self.alloc(st, c))]
        ini = self.prog.class_attr(c, '__init__')
        if ini is not None:
            k, n = ini
            fn = VFunc(n, None, k.module, k.name + '.__init__', k)
            return self.bind(res, lambda s, o: self.bind(self.call_func(s, fn, [o] + args, kw, node), lambda s2, _: [(s2, o)]))
        return res

    def alloc(self, st, c):
        if self.unit.is_heap_class(c.name):
            t = st.nxt
            st.nxt = st.nxt + 1
            self.mod(('nxt',))
            o = VRef(t, c.name)
        else:
            o = self.new_cell(st, ObjRec(c.name, {}))
        self.unit.alloc_hook(self, st, o)
        return o

    def qual(self, f):
        return f.module.replace('pydatastructs.', '', 1) + ':' + (f.qual or '?')

    def call_func(self, st, f, args, kw, node):
        ct = self.unit.contract_for(self, st, f.module, f.qual, args) if f.fid is None and isinstance(f.node, ast.FunctionDef) else None
        if ct is None and f.fid is not None and isinstance(f.node, ast.FunctionDef):
            ct = self.unit.contract_for(self, st, f.module, f.qual, args)
        if ct is not None and not (self.depth == 0):
            return self.call_contract(st, ct, args, kw, node)
        if isinstance(f.node, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            raise Unsupported('generator function %s' % f.qual)
        if len(st.stack) > 25:
            raise Unsupported('inlining depth (recursion without contract): %s' % f.qual)
        if sum(1 for fr in st.stack if fr[1].node is f.node) > 1 and isinstance(f.node, ast.FunctionDef):
            raise Unsupported('recursion without contract: %s' % f.qual)
        if self.depth > 0 and isinstance(f.node, ast.FunctionDef):
            self.inlined.add(self.qual(f))
        fr = self.bind_args(st, f, args, kw, node)
        if isinstance(fr, PyExc):
            return [(st, fr)]
        self.fidc += 1
        fid = self.fidc
        fr['@parent'] = f.fid
        base = st
        s = st.copy()
        s.frames[fid] = fr
        s.stack = st.stack + ((fid, f, getattr(node, 'lineno', 0), id(node)),)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                outs = self.ev(f.node.body, s)
            else:
                outs = []
                for s2, oc in self.exec_block(f.node.body, s):
                    if oc[0] == 'next':
                        outs.append((s2, None))
                    elif oc[0] == 'ret':
                        outs.append((s2, oc[1]))
                    elif oc[0] == 'exc':
                        outs.append((s2, oc[1]))
                    else:
                        raise Unsupported('stray break/continue')
        finally:
            self.depth -= 1
        res = []
        for s2, v in outs:
            s3 = s2.copy()
            s3.stack = st.stack
            res.append((s3, v))
        if len(res) > 1 and self.depth > 0:
            # frames created by the call do not take part in the comparison
            return self.merge(base, res)
        return res

    def bind_args(self, st, f, args, kw, node):
        a = f.node.args
        fr = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                fr[n] = args[i]
                if n in kw:
                    return PyExc('TypeError', 'multiple values')
        if len(args) > len(names):
            if a.vararg is None:
                return PyExc('TypeError', 'too many arguments for %s' % f.qual)
            rest = args[len(names):]
            fr[a.vararg.arg] = rest[0].seq if len(rest) == 1 and isinstance(rest[0], VStar) else tuple(rest)
        elif a.vararg is not None:
            fr[a.vararg.arg] = ()
        ndef = len(a.defaults)
        for i, n in enumerate(names):
            if n in fr:
                continue
            if n in kw:
                fr[n] = kw.pop(n)
            elif i >= len(names) - ndef:
                fr[n] = self.default(st, f, a.defaults[i - (len(names) - ndef)])
            else:
                return PyExc('TypeError', 'missing argument %s of %s' % (n, f.qual))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            elif d is not None:
                fr[x.arg] = self.default(st, f, d)
            else:
                return PyExc('TypeError', 'missing kwonly')
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.new_cell(st, ConcDict(kw))
        elif kw:
            return PyExc('TypeError', 'unexpected keyword %s for %s' % (list(kw), f.qual))
        return fr

    def default(self, st, f, e):
        if isinstance(e, ast.Constant):
            return e.value
        s2 = st.copy()
        self.fidc += 1
        s2.frames[self.fidc] = {'@parent': f.fid}
        s2.stack = st.stack + ((self.fidc, f, 0, 0),)
        r = self.ev(e, s2)
        if len(r) != 1:
            raise Unsupported('default argument')
        v = r[0][1]
        for k, x in r[0][0].store.items():
            st.store.setdefault(k, x)
        return v

    # contracts -----------------------------------------------------------
    def call_contract(self, st, ct, args, kw, node):
        self.used_contracts.add(ct.name)
        return ct.apply(self, st, args, kw, node)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        res = [(st, NORMAL)]
        for x in stmts:
            nxt = []
            for s, oc in res:
                if oc[0] != 'next':
                    nxt.append((s, oc))
                else:
                    nxt.extend(self.exec(x, s))
            res = nxt
            if len(res) > 600:
                raise Unsupported('too many paths')
        return res

    def exec(self, x, st):
        m = getattr(self, 'ex_' + type(x).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(x).__name__)
        return m(x, st)

    def lift(self, results, f):
        """bind for statements: f(st, v) -> [(st, outcome)]"""
        out = []
        for s, v in results:
            if isinstance(v, PyExc):
                out.append((s, ('exc', v)))
            else:
                out.extend(f(s, v))
        return out

    def ex_Pass(self, x, st):
        return [(st, NORMAL)]

    def ex_Expr(self, x, st):
        if isinstance(x.value, ast.Constant):
            return [(st, NORMAL)]
        return self.lift(self.ev(x.value, st), lambda s, v: [(s, NORMAL)])

    def ex_Import(self, x, st):
        for a in x.names:
            func = st.stack[-1][1]
            nm = a.asname or a.name.split('.')[0]
            self.set_local(st, nm, VModule(a.name if a.asname else nm))
        return [(st, NORMAL)]

    def ex_ImportFrom(self, x, st):
        func = st.stack[-1][1]
        for a in x.names:
            v = self.prog.import_value(x, a, func.module)
            self.set_local(st, a.asname or a.name, v)
        return [(st, NORMAL)]

    def ex_FunctionDef(self, x, st):
        f = st.stack[-1][1]
        self.set_local(st, x.name, VFunc(x, st.fid, f.module, (f.qual or '') + '.' + x.name, f.cls))
        return [(st, NORMAL)]

    def ex_Return(self, x, st):
        if x.value is None:
            return [(st, ('ret', None))]
        return self.lift(self.ev(x.value, st), lambda s, v: [(s, ('ret', v))])

    def ex_Raise(self, x, st):
        name = 'Exception'
        e = x.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        return [(st, ('exc', PyExc(name, 'line %d' % x.lineno)))]

    def ex_Break(self, x, st):
        return [(st, ('brk',))]

    def ex_Continue(self, x, st):
        return [(st, ('cont',))]

    def ex_Global(self, x, st):
        raise Unsupported('global')

    def ex_Nonlocal(self, x, st):
        raise Unsupported('nonlocal')

    def ex_Assert(self, x, st):
        def f(s, v):
            t = self.truth(s, v, x)
            out = []
            for s2, b in self.split(s, t, 'assert'):
                out.append((s2, NORMAL if b else ('exc', PyExc('AssertionError'))))
            return out
        return self.lift(self.ev(x.test, st), f)

    def ex_Assign(self, x, st):
        def f(s, v):
            res = [(s, NORMAL)]
            for t in x.targets:
                nxt = []
                for s2, oc in res:
                    if oc[0] == 'next':
                        nxt.extend(self.assign_st(s2, t, v))
                    else:
                        nxt.append((s2, oc))
                res = nxt
            return res
        return self.lift(self.ev(x.value, st), f)

    def ex_AnnAssign(self, x, st):
        if x.value is None:
            return [(st, NORMAL)]
        return self.lift(self.ev(x.value, st), lambda s, v: self.assign_st(s, x.target, v))

    def assign(self, st, t, v):
        r = self.assign_st(st, t, v)
        if len(r) != 1 or r[0][0] is not st:
            raise Unsupported('complex target')

    def assign_st(self, st, t, v):
        if isinstance(t, ast.Name):
            self.set_local(st, t.id, v)
            return [(st, NORMAL)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (VCell, VNest)):
                c = self.concrete_iter(st, v)
                if c is None:
                    r = self.rec(st, v)
                    if isinstance(r, ArrRec):
                        self.safe('unpack-arity', st, I(r.len) == len(t.elts), t)
                        c = [self.decode(st, z3.Select(r.arr, i), r.kind) for i in range(len(t.elts))]
                    else:
                        raise Unsupported('unpack')
                v = tuple(c)
            if isinstance(v, VOpt):
                self.safe('not-none', st, z3.Not(v.isn), t)
                v = v.val
            if not isinstance(v, tuple):
                raise Unsupported('unpack of %r' % (v,))
            if len(v) != len(t.elts):
                self.safe('unpack-arity', st, False, t)
                return []
            res = [(st, NORMAL)]
            for tt, vv in zip(t.elts, v):
                nxt = []
                for s, oc in res:
                    nxt.extend(self.assign_st(s, tt, vv) if oc[0] == 'next' else [(s, oc)])
                res = nxt
            return res
        if isinstance(t, ast.Attribute):
            def f(s, o):
                self.set_attr(s, o, t.attr, v, t)
                return [(s, NORMAL)]
            return self.lift(self.ev(t.value, st), f)
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            return self.lift(self.evs([t.value, t.slice], st),
                             lambda s, vs: self.lift(self.set_item(s, vs[0], vs[1], v, t), lambda s2, _: [(s2, NORMAL)]))
        raise Unsupported('assignment target')

    def ex_AugAssign(self, x, st):
        if isinstance(x.target, ast.Name):
            load = ast.copy_location(ast.Name(x.target.id, ast.Load()), x.target)
            return self.lift(self.evs([load, x.value], st),
                             lambda s, vs: self.assign_st(s, x.target, self.aug(s, x, vs[0], vs[1])))
        if isinstance(x.target, ast.Attribute):
            def f(s, vs):
                o = vs[0]

                def g(s2, cur):
                    self.set_attr(s2, o, x.target.attr, self.aug(s2, x, cur, vs[1]), x)
                    return [(s2, NORMAL)]
                return self.lift(self.get_attr(s, o, x.target.attr, x), g)
            return self.lift(self.evs([x.target.value, x.value], st), f)
        if isinstance(x.target, ast.Subscript):
            def f(s, vs):
                o, i, d = vs

                def g(s2, cur):
                    return self.lift(self.set_item(s2, o, i, self.aug(s2, x, cur, d), x), lambda s3, _: [(s3, NORMAL)])
                return self.lift(self.get_item(s, o, i, x), g)
            return self.lift(self.evs([x.target.value, x.target.slice, x.value], st), f)
        raise Unsupported('augmented target')

    def aug(self, st, x, a, b):
        if isinstance(a, (VCell, VNest)) and isinstance(x.op, ast.Add):
            from .builtins_ import list_extend
            list_extend(self, st, a, b, x)
            return a
        return self.binop(st, x.op, a, b, x)

    def ex_If(self, x, st):
        def f(s, v):
            out = []
            c = self.truth(s, v, x)
            for s2, b in self.split(s, c, 'L%d' % x.lineno):
                out.extend(self.exec_block(x.body if b else x.orelse, s2))
            return out
        return self.lift(self.ev(x.test, st), f)

    def ex_Delete(self, x, st):
        res = [(st, NORMAL)]
        for t in x.targets:
            if isinstance(t, ast.Subscript):
                def f(s, vs):
                    r = self.rec(s, vs[0])
                    if isinstance(r, DictRec):
                        k = self.encode(s, vs[1], r.kk)
                        self.safe('key', s, z3.Select(r.dom, k), x)
                        self.set_rec(s, vs[0], DictRec(z3.Store(r.dom, k, z3.BoolVal(False)), r.map, r.kk, r.vk))
                        return [(s, NORMAL)]
                    raise Unsupported('del')
                nxt = []
                for s, oc in res:
                    nxt.extend(self.lift(self.evs([t.value, t.slice], s), f))
                res = nxt
            else:
                raise Unsupported('del target')
        return res

    def ex_With(self, x, st):
        it = x.items[0]
        if len(x.items) != 1:
            raise Unsupported('with')

        def f(s, v):
            if not (isinstance(v, VBuiltin) and v.name == 'executor'):
                raise Unsupported('with %r' % (v,))
            if it.optional_vars is not None:
                self.assign(s, it.optional_vars, v)
            return self.exec_block(x.body, s)
        return self.lift(self.ev(it.context_expr, st), f)

    def ex_Try(self, x, st):
        raise Unsupported('try')

    # ------------------------------------------------------------ iteration
    def concrete_iter(self, st, v, limit=64):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, VRange):
            if all(isinstance(z, int) for z in (v.lo, v.hi, v.step)):
                r = list(range(v.lo, v.hi, v.step))
                if len(r) <= limit:
                    return r
            return None
        if isinstance(v, VCell):
            r = st.store[v.id]
            if isinstance(r, ConcList):
                return list(r.items)
            if isinstance(r, ConcDict):
                return list(r.d.keys())
        if isinstance(v, VIter) and isinstance(v.n, list):
            return v.n
        if isinstance(v, str):
            return list(v)
        return None

    def iter_of(self, st, v, node):
        """symbolic iterable -> (n(st) -> Int term, item(st, idx) -> value)"""
        if isinstance(v, VRange):
            lo, hi, step = I(v.lo), I(v.hi), v.step
            if isinstance(step, int) and step == 1:
                return (lambda s: z3.If(hi > lo, hi - lo, z3.IntVal(0))), (lambda s, j: lo + j)
            if isinstance(step, int) and step == -1:
                return (lambda s: z3.If(lo > hi, lo - hi, z3.IntVal(0))), (lambda s, j: lo - j)
            if isinstance(step, int) and step > 0:
                return (lambda s: z3.If(hi > lo, (hi - lo + step - 1) / step, z3.IntVal(0))), (lambda s, j: lo + j * step)
            raise Unsupported('range step')
        if isinstance(v, VIter):
            return v.n, v.item
        if isinstance(v, VSeq):
            return (lambda s: v.len), (lambda s, j: self.decode(s, z3.Select(v.arr, j), v.kind))
        if isinstance(v, (VCell, VNest)):
            r = self.rec(st, v)
            if isinstance(r, ConcList):
                r = self.as_arr(st, r)
                if isinstance(v, VCell):
                    st.store[v.id] = r
            if isinstance(r, ArrRec):
                root, path = (('cell', v.id), []) if isinstance(v, VCell) else (v.root, v.path)

                def item(s, j):
                    rr = self.rec(s, v)
                    if rr.kind == 'none':
                        return None
                    return self.decode(s, z3.Select(rr.arr, j), rr.kind, (root, path + [('idx', j)]))
                return (lambda s: I(self.rec(s, v).len)), item
            if isinstance(r, (SetRec, DictRec)):
                return self.enum_dom(st, r.dom, r.kk)
            if isinstance(r, ObjRec):
                h = self.unit.iter_hook(self, st, v, node)
                if h is not None:
                    return h
        raise Unsupported('iteration over %r' % (v,))

    def enum_dom(self, st, dom, kk):
        """arbitrary-order enumeration of a finite set"""
        n = fresh_const('enum_n', IntS)
        arr = fresh_const('enum', z3.ArraySort(IntS, sort_of(kk)))
        ix = z3.Function(fresh_name('enum_ix'), sort_of(kk), IntS)
        j = z3.Int('j')
        k = z3.Const('k', sort_of(kk))
        st.assume(n >= 0)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n),
                                            z3.And(z3.Select(dom, z3.Select(arr, j)), ix(z3.Select(arr, j)) == j)),
                            patterns=[z3.Select(arr, j)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(ix(k) >= 0, ix(k) < n, z3.Select(arr, ix(k)) == k)),
                            patterns=[z3.Select(dom, k)]))
        item = lambda s, j: self.decode(s, z3.Select(arr, j), kk)
        item.enum = (arr, ix, n)
        return (lambda s: n), item

    # ------------------------------------------------------------ loops
    def loop_key(self, node, st):
        return (tuple(x[3] for x in st.stack if len(x) > 3), id(node))

    def loop_ordinal(self, node, st):
        k = self.loop_key(node, st)
        if k not in self.loop_ord:
            self.loop_ord[k] = len(self.loop_ord) + 1
            self.loop_nodes.append(node)
        return self.loop_ord[k]

    def ex_For(self, x, st):
        return self.lift(self.ev(x.iter, st), lambda s, v: self.exec_for_value(x, s, v))

    def exec_for_value(self, x, st, itv):
        conc = self.concrete_iter(st, itv)
        if conc is not None:
            res = [(st, NORMAL)]
            done = []
            for item in conc:
                nxt = []
                for s, oc in res:
                    for s2, oc2 in self.assign_st(s, x.target, item):
                        if oc2[0] != 'next':
                            done.append((s2, oc2))
                            continue
                        for s3, o3 in self.exec_block(x.body, s2):
                            if o3[0] in ('next', 'cont'):
                                nxt.append((s3, NORMAL))
                            elif o3[0] == 'brk':
                                done.append((s3, NORMAL))
                            else:
                                done.append((s3, o3))
                res = nxt
                if len(res) > 300:
                    raise Unsupported('too many paths in unrolled loop')
            out = list(done)
            for s, oc in res:
                out.extend(self.exec_block(x.orelse, s) if x.orelse else [(s, NORMAL)])
            return out
        ordn = self.loop_ordinal(x, st)
        if isinstance(itv, VRange) and isinstance(x.target, ast.Name) and isinstance(itv.step, int) and itv.step != 0:
            return self.loop(x, st, ordn, ('range', itv))
        n, item = self.iter_of(st, itv, x)
        self.enum_of[ordn] = getattr(item, 'enum', None)
        return self.loop(x, st, ordn, ('iter', n, item))

    def ex_While(self, x, st):
        # unroll when the guard is host-decidable a few times and no spec is given
        ordn = self.loop_ordinal(x, st)
        return self.loop(x, st, ordn, ('while',))

    def loop(self, x, st, ordn, mode):
        spec = self.unit.loopspec(ordn)
        nm = 'loop%d' % ordn
        fid = st.fid
        line = x.lineno
        hidden = '@it%d' % ordn
        pre = st
        # entry: iteration variable
        st = st.copy()
        if mode[0] == 'range':
            tgt = x.target.id
            old_t = st.frames[fid].get(tgt)
            st.frames[fid][hidden] = I(mode[1].lo)
        elif mode[0] == 'iter':
            st.frames[fid][hidden] = z3.IntVal(0)
        if spec is not None and spec.ghost_init is not None:
            for k, v in spec.ghost_init(self.view(st, pre, ordn)).items():
                if k.startswith('@'):            # ghost field of an object: (object, '@field', term)
                    self.mod(('fld', v[0].id, v[1]))
                    st.store[v[0].id] = st.store[v[0].id].set(v[1], v[2])
                    continue
                st.frames[fid]['@g_' + k] = v
        pre_entry = st

        def inv(s, extra_auto=True):
            """[(name, formula)] at loop head in state s"""
            out = []
            if mode[0] == 'range':
                r = mode[1]
                i = s.frames[fid][hidden]
                lo, hi, stp = I(r.lo), I(r.hi), r.step
                if stp == 1:
                    out.append(('auto-range', z3.And(lo <= i, i <= z3.If(hi > lo, hi, lo))))
                elif stp == -1:
                    out.append(('auto-range', z3.And(i <= lo, i >= z3.If(hi < lo, hi, lo))))
                elif stp > 0:
                    out.append(('auto-range', z3.And(lo <= i, z3.Or(i == lo, i < hi + stp), (i - lo) % stp == 0)))
                else:
                    out.append(('auto-range', z3.And(i <= lo, z3.Or(i == lo, i > hi + stp), (lo - i) % (-stp) == 0)))
            elif mode[0] == 'iter':
                i = s.frames[fid][hidden]
                if not (spec is not None and spec.no_auto):
                    out.append(('auto-iter', z3.And(0 <= i, i <= mode[1](s))))
            if spec is not None and spec.inv is not None:
                for n, f in spec.inv(self.view(s, pre_entry, ordn, mode, x)):
                    if not (isinstance(f, bool) and f):
                        out.append((n, B(f)))
            return out

        def body_states(h, with_obl):
            """run guard+body from head state h. returns (exits, back_edges, others)"""
            self.loop_cids.append(self.cid)
            try:
                return body_states_(h, with_obl)
            finally:
                self.loop_cids.pop()

        def body_states_(h, with_obl):
            exits, backs, others = [], [], []
            cur_head[0] = h.copy()
            if mode[0] == 'while':
                for s, v in self.ev(x.test, h):
                    if isinstance(v, PyExc):
                        others.append((s, ('exc', v)))
                        continue
                    for s2, b in self.split(s, self.truth(s, v, x), 'W%d' % line):
                        if not b:
                            exits.append(s2)
                        else:
                            run(s2, backs, exits_brk, others)
            elif mode[0] == 'range':
                i = h.frames[fid][hidden]
                stp = mode[1].step
                g = i < I(mode[1].hi) if stp > 0 else i > I(mode[1].hi)
                for s2, b in self.split(h, g, 'F%d' % line):
                    if not b:
                        s2 = s2.copy()
                        exits.append(s2)
                    else:
                        s2 = s2.copy()
                        self.mod(('local', fid, tgt))
                        s2.frames[fid][tgt] = i
                        run(s2, backs, exits_brk, others)
            else:
                i = h.frames[fid][hidden]
                for s2, b in self.split(h, i < mode[1](h), 'F%d' % line):
                    if not b:
                        exits.append(s2)
                    else:
                        s2 = s2.copy()
                        for s3, oc in self.assign_st(s2, x.target, mode[2](s2, i)):
                            if oc[0] != 'next':
                                others.append((s3, oc))
                            else:
                                run(s3, backs, exits_brk, others)
            return exits, backs, others

        exits_brk = []
        cur_head = [None]

        def run(s, backs, brks, others):
            if spec is not None and spec.body_assume is not None:
                for lem in spec.body_assume(self.view(s, pre_entry, ordn, mode, x)):
                    self.use_lemma(s, lem, nm)
            for s2, oc in self.exec_block(x.body, s):
                if oc[0] in ('next', 'cont'):
                    s2 = s2.copy()
                    if mode[0] == 'range':
                        s2.frames[fid][hidden] = s2.frames[fid][hidden] + mode[1].step
                    elif mode[0] == 'iter':
                        s2.frames[fid][hidden] = s2.frames[fid][hidden] + 1
                    if spec is not None and spec.ghost_step is not None:
                        vw = self.view(s2, pre_entry, ordn, mode, x)
                        gs = spec.ghost_step(vw) if spec.ghost_step.__code__.co_argcount == 1 else spec.ghost_step(vw, self.view(cur_head[0], pre_entry, ordn, mode, x))
                        for k, v in gs.items():
                            if k.startswith('@'):
                                self.mod(('fld', v[0].id, v[1]))
                                s2.store[v[0].id] = s2.store[v[0].id].set(v[1], v[2])
                                continue
                            if is_z3(v) and z3.is_array(v) and z3.is_app_of(v, z3.Z3_OP_ITE):    # usable in quantifier patterns
                                gname = fresh_const('g_' + k, v.sort())
                                s2.assume(gname == v)
                                v = gname
                            s2.frames[fid]['@g_' + k] = v
                    backs.append(s2)
                elif oc[0] == 'brk':
                    if spec is not None and spec.ghost_break is not None:
                        s2 = s2.copy()
                        for k, v in spec.ghost_break(self.view(s2, pre_entry, ordn, mode, x), self.view(cur_head[0], pre_entry, ordn, mode, x)).items():
                            s2.frames[fid]['@g_' + k] = v
                    brks.append(s2)
                else:
                    others.append((s2, oc))

        # ---- modified set (fixpoint over dry runs)
        key = self.loop_key(x, st)
        mods = {m for m in self.modcache.get(key, set()) if self.relevant(st, m)}
        kinds = {}
        for m in self.assigned(x):
            mods.add(('local', fid, m))
        if mode[0] != 'while':
            mods.add(('local', fid, hidden))
        if spec is not None:
            for k in st.frames[fid]:
                if k.startswith('@g_') and (spec.ghosts is None or k[3:] in spec.ghosts):
                    mods.add(('local', fid, k))
        for _ in range(12):
            h = self.havoc(st, mods, kinds, spec, fid)
            rec = set()
            self.recorders.append(rec)
            self.muted += 1
            try:
                for n, f in inv(h):
                    h.assume(f)
                exits_brk = []
                ex, backs, oth = body_states(h, False)
            finally:
                self.muted -= 1
                self.recorders.pop()
            rec = {m for m in rec if self.relevant(st, m)}
            newk = dict(kinds)
            for b in backs:
                for m in mods | rec:
                    kb = self.loc_kind(b, m)
                    if kb is not None:
                        newk[m] = join_kind(newk[m], kb) if m in newk else kb
                    if m in newk and spec is not None and m[0] == 'local' and newk[m] == 'elem' and spec.kinds.get(m[2]) == 'int':
                        newk[m] = 'int'
            if rec <= mods and all(newk.get(m) == kinds.get(m) for m in newk):
                break
            mods |= rec
            kinds = {m: self.join_pre(st, m, k, spec) for m, k in newk.items()}
        else:
            raise Unsupported('loop effect fixpoint')
        self.modcache[key] = set(mods)
        for m in mods:
            self.mod(m) if m[0] != 'local' or not m[2].startswith('@') else None

        # ---- entry
        if spec is not None and 'int' in spec.kinds.values():
            st = st.copy()
            self.force_ints(st, fid, spec, x)
        if spec is not None and spec.init_lemmas is not None:
            st = st.copy()
            for lem in spec.init_lemmas(self.view(st, pre_entry, ordn, mode, x)):
                self.use_lemma(st, lem, nm)
        for n, f in inv(st):
            self.oblige('%s/init:%s' % (nm, n), st, f, line)
        h = self.havoc(st, mods, kinds, spec, fid)
        h.cut = len(st.pc)
        for n, f in inv(h):
            h.assume(f)
        if spec is not None and spec.assume_head is not None:
            for lem in spec.assume_head(self.view(h, pre_entry, ordn, mode, x)):
                self.use_lemma(h, lem, nm)
        head = h.copy()
        v0 = None
        if spec is not None and spec.variant is not None:
            v0 = spec.variant(self.view(h, pre_entry, ordn, mode, x))
        elif mode[0] == 'while' and not self.muted:
            self.unit.note_no_variant(self, ordn, line)
        exits_brk = []
        ex, backs, oth = body_states(h, True)
        for b in backs:
            if spec is not None:
                self.force_ints(b, fid, spec, x)
            if spec is not None and spec.end_lemmas is not None:
                for lem in spec.end_lemmas(self.view(b, pre_entry, ordn, mode, x), self.view(head, pre_entry, ordn, mode, x)):
                    self.use_lemma(b, lem, nm)
            for n, f in inv(b):
                self.oblige('%s/preserve:%s' % (nm, n), b, f, line)
            if v0 is not None:
                v1 = spec.variant(self.view(b, pre_entry, ordn, mode, x))
                v0s, v1s = (v0 if isinstance(v0, tuple) else (v0,)), (v1 if isinstance(v1, tuple) else (v1,))
                dec = z3.BoolVal(False)
                for p, q in reversed(list(zip(v0s, v1s))):
                    dec = z3.Or(I(q) < I(p), z3.And(I(q) == I(p), dec))
                # every component is bounded below at the loop head
                self.oblige('%s/variant' % nm, b, z3.And(*([I(p) >= 0 for p in v0s] + [dec])), line)
        out = []
        for s in ex:
            s = s.copy()
            s.cut = pre.cut
            if mode[0] == 'range':
                i = s.frames[fid][hidden]
                t = fresh_const(tgt, IntS)
                lo = I(mode[1].lo)
                s.assume(z3.Implies(i != lo, t == i - mode[1].step))
                if old_t is not None and (isinstance(old_t, int) or (is_z3(old_t) and old_t.sort() == IntS)):
                    s.assume(z3.Implies(i == lo, t == I(old_t)))
                s.frames[fid][tgt] = t
            self.clean(s, fid)
            out.extend(self.exec_block(x.orelse, s) if x.orelse else [(s, NORMAL)])
        for s in exits_brk:
            s = s.copy()
            s.cut = pre.cut
            self.clean(s, fid)
            out.append((s, NORMAL))
        for s, oc in oth:
            s.cut = pre.cut
            out.append((s, oc))
        return out

    def force_ints(self, s, fid, spec, node):
        """locals declared as int by the loop specification and holding an array element: their int payload"""
        for n, k in spec.kinds.items():
            v = s.frames[fid].get(n)
            if k == 'int' and is_z3(v) and v.sort() == E:
                self.safe('int-valued', s, z3.Not(isNone(v)), node)
                s.frames[fid][n] = ival(v)

    def clean(self, s, fid):
        pass

    def use_lemma(self, st, lem, nm):
        """lem: (name, formula, proof) -- proof 'check' adds an obligation first, then assumes"""
        name, f = lem[0], lem[1]
        if len(lem) > 2 and lem[2] == 'trusted':
            self.unit.trust(name)
        elif len(lem) > 2 and lem[2] == 'def':       # definition of a fresh constant
            pass
        elif len(lem) > 2 and lem[2] == 'lemma':
            self.lemma_done.add(name[1:])
        else:
            self.oblige('%s/lemma:%s' % (nm, name), st, f)
        st.assume(f)

    def assigned(self, x):
        out = set()

        class V(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)

            def visit_FunctionDef(self, n):
                out.add(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass

            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
        for b in x.body:
            V().visit(b)
        if isinstance(x, ast.For):
            V().visit(x.target)
        return out

    def relevant(self, st, m):
        if m[0] == 'local':
            return m[1] in st.frames
        if m[0] in ('cell', 'fld'):
            return m[1] in st.store
        return True

    def loc_kind(self, st, m):
        if m[0] == 'local':
            fr = st.frames.get(m[1])
            if fr is None or m[2] not in fr:
                return 'unbound'
            if m[2].startswith('@g_'):
                return 'ghost'
            return self.kind(st, fr[m[2]])
        if m[0] == 'fld':
            r = st.store.get(m[1])
            if r is None or m[2] not in r.f:
                return 'unbound'
            if m[2].startswith('@'):
                return 'ghost'
            return self.kind(st, r.f[m[2]])
        if m[0] == 'cell':
            return self.kind(st, VCell(m[1]))
        return None

    def join_pre(self, st, m, k, spec):
        kp = self.loc_kind(st, m)
        if spec is not None and m[0] == 'local' and m[2] in spec.kinds:
            return spec.kinds[m[2]]
        if kp is None:
            return k
        if isinstance(kp, tuple) and kp[0] == 'cell' and isinstance(k, tuple) and k[0] == 'cell':
            if kp[1] == k[1]:
                return kp
            return k
        try:
            return join_kind(kp, k)
        except Unsupported:
            return 'unbound'

    def havoc(self, st, mods, kinds, spec, fid):
        s = st.copy()
        if ('nxt',) in mods:
            n = fresh_const('nxt', IntS)
            s.assume(n >= s.nxt)
            s.nxt = n
        for m in sorted(mods, key=repr):
            if m[0] == 'cell':
                r = s.store[m[1]]
                if isinstance(r, ObjRec):
                    continue
                k = kinds.get(m) or self.kind(s, VCell(m[1]))
                nm = 'c%d' % m[1]
                if isinstance(r, (ConcList, ArrRec)):
                    if isinstance(r, ConcList) or k[1] != r.kind:
                        hint = self.unit.listhint(self, s, VCell(m[1]))
                        kk = hint or k[1]
                        if kk == 'empty':
                            continue
                        r = self.as_arr(s, r, kk)
                    lenmod = ('cell', m[1], 'len') in mods
                    ln = r.len
                    if lenmod:
                        ln = fresh_const(nm + '_len', IntS)
                        s.assume(ln >= 0)
                    arr = None if r.kind == 'none' else fresh_const(nm + '_arr', z3.ArraySort(IntS, sort_of(r.kind)))
                    s.store[m[1]] = ArrRec(ln, arr, r.kind)
                elif isinstance(r, (DictRec, ConcDict)):
                    hint = self.unit.dicthint(self, s, VCell(m[1]))
                    kk = hint or (k[1], k[2])
                    if kk[0] == 'empty':
                        continue
                    r = self.as_dict(s, r, *kk)
                    s.store[m[1]] = DictRec(fresh_const(nm + '_dom', r.dom.sort()), fresh_const(nm + '_map', r.map.sort()), r.kk, r.vk)
                elif isinstance(r, SetRec):
                    s.store[m[1]] = SetRec(fresh_const(nm + '_set', r.dom.sort()), r.kk)
            elif m[0] == 'heap':
                self.ensure_field(s, m[1])
                s.heap[m[1]] = fresh_const('heap_' + m[1], s.heap[m[1]].sort())
        for m in sorted(mods, key=repr):
            if m[0] == 'fld':
                r = s.store[m[1]]
                if m[2].startswith('@'):
                    s.store[m[1]] = r.set(m[2], fresh_const('gh_' + m[2][1:], r.f[m[2]].sort()))
                    continue
                k = kinds.get(m)
                if k is None:
                    k = self.loc_kind(s, m)
                s.store[m[1]] = r.set(m[2], self.fresh(s, self.uncell(s, k), m[2]))
            elif m[0] == 'local':
                fr = s.frames.get(m[1])
                if fr is None:
                    continue
                k = kinds.get(m)
                if spec is not None and m[2] in spec.kinds:
                    k = spec.kinds[m[2]]
                if k is None:
                    k = self.loc_kind(s, m)
                if m[2].startswith('@it'):
                    fr[m[2]] = fresh_const('it', IntS)
                    continue
                if m[2].startswith('@g_'):
                    v = fr[m[2]]
                    if is_z3(v):
                        fr[m[2]] = fresh_const(m[2][3:], v.sort())
                    elif isinstance(v, (int, bool)):
                        fr[m[2]] = fresh_const(m[2][3:], BoolS if isinstance(v, bool) else IntS)
                    continue
                if k == 'unbound':
                    fr[m[2]] = VPoison(m[2])
                elif isinstance(k, tuple) and k[0] in ('host',):
                    fr[m[2]] = k[1]
                elif isinstance(k, tuple) and k[0] == 'cell':
                    fr[m[2]] = VCell(k[1]) if k[1] in s.store else VPoison(m[2])
                else:
                    fr[m[2]] = self.fresh(s, self.uncell(s, k), m[2])
        return s

    def uncell(self, st, k):
        return k

    # ------------------------------------------------------------ views for specs
    def view(self, st, entry=None, ordn=None, mode=None, node=None):
        from .spec import View
        return View(self, st, entry, ordn, mode, node)
