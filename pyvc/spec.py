"""Contracts, loop specifications, spec-side views, verification of one contract."""
import ast
import z3
from .values import *
from .engine import Engine, State, Obl, has_quant
from .program import Program


class SpecError(Exception):
    pass


def wrap(eng, st, v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z3(v) or isinstance(v, (str, float)) or v is None and False:
        return v
    if isinstance(v, VPoison):
        raise SpecError('unbound %s' % v.name)
    return P(eng, st, v)


class P:
    """spec-side view of a value in a state"""
    def __init__(self, eng, st, v):
        self.__dict__['eng'], self.__dict__['st'], self.__dict__['v'] = eng, st, v

    def __getattr__(self, n):
        eng, st, v = self.eng, self.st, self.v
        if n == 'isnone':
            return B(eng.is_none(st, v))
        if n == 't':
            if v is None:
                return z3.IntVal(0)
            return v.t
        if n == 'val' and isinstance(v, VOpt):
            return wrap(eng, st, v.val)
        if n in ('len', 'arr', 'kind') and isinstance(v, (VCell, VNest)):
            r = eng.rec(st, v)
            if isinstance(r, ConcList):
                if n == 'len':
                    return z3.IntVal(len(r.items))
                h = eng.unit.listhint(eng, st, v)
                r = eng.as_arr(st, r, h)
            if isinstance(r, ArrRec):
                if n == 'arr' and r.kind == 'none':
                    return z3.K(IntS, none0)
                return I(r.len) if n == 'len' else getattr(r, n)
        if n in ('dom', 'map') and isinstance(v, (VCell, VNest)):
            r = eng.rec(st, v)
            if isinstance(r, ConcDict):
                h = eng.unit.dicthint(eng, st, v)
                if h is None:
                    raise SpecError('dict kind unknown')
                r = eng.as_dict(st, r, *h)
            return getattr(r, n)
        if n == 'cls':
            return eng._cls_of(st, v)
        if isinstance(v, VCell):
            r = st.store[v.id]
            if isinstance(r, ObjRec) and n.startswith('g_') and '@' + n[2:] in r.f:
                return r.f['@' + n[2:]]
            if isinstance(r, ObjRec) and n in r.f:
                return wrap(eng, st, r.f[n])
        if isinstance(v, VRef):
            eng.ensure_field(st, n) if eng.unit.fieldkind(n) is not None else None
            if n in st.heap:
                k = eng.unit.fieldkind(n)
                return wrap(eng, st, eng.decode(st, z3.Select(st.heap[n], v.t), k, (('heap', n), [('idx', v.t)])))
        raise SpecError('no attribute %s on %r' % (n, v))

    def at(self, i):
        """raw element term at index i"""
        eng, st, v = self.eng, self.st, self.v
        if isinstance(v, tuple):
            return wrap(eng, st, v[i])
        if isinstance(v, VSeq):
            return z3.Select(v.arr, I(i))
        r = eng.rec(st, v)
        if isinstance(r, ConcList):
            if isinstance(i, int):
                return wrap(eng, st, r.items[i])
            h = eng.unit.listhint(eng, st, v)
            r = eng.as_arr(st, r, h)
        if isinstance(r, DictRec):
            return z3.Select(r.map, i)
        if r.kind == 'none':
            return none0
        return z3.Select(r.arr, I(i))

    def __getitem__(self, i):
        return self.at(i)


class View:
    """view of the locals of the function under verification (innermost frame first)"""
    def __init__(self, eng, st, entry=None, ordn=None, mode=None, node=None):
        d = self.__dict__
        d['eng'], d['st'], d['_entry'], d['ordn'], d['mode'], d['node'] = eng, st, entry, ordn, mode, node

    def __getattr__(self, n):
        return wrap(self.eng, self.st, self.raw(n))

    def raw(self, n):
        st = self.st
        n = self.eng.unit.rename.get(n, n)
        if self.mode is not None and self.mode[0] == 'range' and self.node is not None and self.node.target.id == n:
            return st.frames[st.fid]['@it%d' % self.ordn]
        seen = []
        for x in reversed(st.stack):
            fid = x[0]
            while fid is not None:
                fr = st.frames[fid]
                if n in fr and fid not in seen:
                    return fr[n]
                seen.append(fid)
                fid = fr.get('@parent')
        raise SpecError('spec name %s not found' % n)

    def local(self, n):
        """a local whose name clashes with an attribute of the view"""
        return wrap(self.eng, self.st, self.raw(n))

    def has(self, n):
        try:
            self.raw(n)
            return True
        except SpecError:
            return False

    @property
    def it(self):
        return self.st.frames[self.st.fid]['@it%d' % self.ordn]

    def iter(self, ordn):
        """iteration counter of an enclosing loop"""
        for x in reversed(self.st.stack):
            fid = x[0]
            while fid is not None:
                if '@it%d' % ordn in self.st.frames[fid]:
                    return self.st.frames[fid]['@it%d' % ordn]
                fid = self.st.frames[fid].get('@parent')
        raise SpecError('no loop %d' % ordn)

    def enum(self, ordn=None):
        """(items, index of an item, number of items) of the set enumerated by a loop"""
        return self.eng.enum_of[ordn or self.ordn]

    @property
    def entry(self):
        return View(self.eng, self._entry, None, None, None, None)

    @property
    def old(self):
        return View(self.eng, self.eng.unit.entry_state)

    def g(self, n):
        for x in reversed(self.st.stack):
            fid = x[0]
            while fid is not None:
                if '@g_' + n in self.st.frames[fid]:
                    return self.st.frames[fid]['@g_' + n]
                fid = self.st.frames[fid].get('@parent')
        raise SpecError('ghost %s' % n)

    def P(self, v):
        return P(self.eng, self.st, v)

    def define(self, name, val, index=None):
        """ghost constant introduced by definition, usable in ghost_init and ghost_step"""
        k, f = ghost_def(name, val, index)
        self.st.assume(f)
        return k

    def heap(self, f):
        self.eng.ensure_field(self.st, f)
        return self.st.heap[f]

    @property
    def nxt(self):
        return self.st.nxt

    @property
    def c(self):
        """unit-level context (symbols created by setup)"""
        return self.eng.unit.cx


class LoopSpec:
    def __init__(self, inv=None, variant=None, kinds=None, ghost_init=None, ghost_step=None, ghosts=None,
                 end_lemmas=None, body_assume=None, assume_head=None, no_auto=False, init_lemmas=None, ghost_break=None):
        self.ghost_break = ghost_break
        self.init_lemmas = init_lemmas
        self.inv, self.variant, self.kinds = inv, variant, kinds or {}
        self.ghost_init, self.ghost_step, self.ghosts = ghost_init, ghost_step, ghosts
        self.end_lemmas, self.body_assume, self.no_auto = end_lemmas, body_assume, no_auto
        self.assume_head = assume_head


def ghost_def(name, val, index=None):
    if callable(val) and not is_z3(val):
        q = fresh_const('gi', index if index is not None else IntS)
        body = val(q)
        k = fresh_const('g_' + name, z3.ArraySort(q.sort(), body.sort()))
        return k, z3.ForAll([q], z3.Select(k, q) == body, patterns=[z3.Select(k, q)])
    k = fresh_const('g_' + name, val.sort())
    return k, k == val


class CallView:
    """pre/post view of a call: c.o(name)/c.n(name) parameter views in old/new state; c.res result"""
    def __init__(self, eng, params, old, new=None, res=None):
        self.eng, self.params, self.old, self.new, self.res_v = eng, params, old, new, res
        self.gdefs = {}
        self.calling = False    # the postcondition is assumed after a call (not proved)
        self.gfields = []       # ghost fields of objects after the call: (object, name, term)

    def choose(self, name, sort, fact):
        """fresh constant g with fact(g) assumed; fact must be satisfiable for some g in every state (conservative)"""
        if name not in self.gdefs:
            k = fresh_const('ch_' + name, sort)
            self.gdefs[name] = (k, fact(k))
        return self.gdefs[name][0]

    def set_ghost(self, obj, name, term):
        self.gfields.append((obj, name, term))

    def ghost(self, name, val, index=None):
        """named ghost term, introduced by definition: a fresh constant equal to `val`, or (val callable) the array
        whose value at every index of sort `index` is val(index)"""
        if name not in self.gdefs:
            self.gdefs[name] = ghost_def(name, val, index)
        return self.gdefs[name][0]

    def o(self, n):
        return wrap(self.eng, self.old, self.params[n])

    def n(self, n):
        return wrap(self.eng, self.new, self.params[n])

    def local(self, n):
        """a local of the verified function at its exit (None when this path never assigned it)"""
        for fr in self.new.frames.values():
            if n in fr:
                return wrap(self.eng, self.new, fr[n])
        return None

    def raw(self, n):
        return self.params[n]

    @property
    def res(self):
        return wrap(self.eng, self.new, self.res_v)

    def P(self, v, st=None):
        return wrap(self.eng, st or self.new, v)

    def oheap(self, f):
        self.eng.ensure_field(self.old, f)
        return self.old.heap[f]

    def nheap(self, f):
        self.eng.ensure_field(self.new, f)
        return self.new.heap[f]

    @property
    def cx(self):
        return self.eng.unit.cx


class Setup:
    """symbolic argument construction"""
    def __init__(self, eng, st, variant):
        self.eng, self.st, self.variant = eng, st, variant
        self.sym = {}

    def __getitem__(self, n):
        return self.sym[n]

    def __setitem__(self, n, v):
        self.sym[n] = v

    def int(self, n):
        return z3.Int(n)

    def list(self, n, kind, ln=None):
        if ln is None:
            ln = z3.Int(n + '_len')
            self.st.assume(ln >= 0)
        return self.eng.new_cell(self.st, ArrRec(ln, z3.Const(n, z3.ArraySort(IntS, sort_of(kind))), kind))

    def dict(self, n, kk, vk):
        return self.eng.new_cell(self.st, DictRec(z3.Const(n + '_dom', z3.ArraySort(sort_of(kk), BoolS)), z3.Const(n, z3.ArraySort(sort_of(kk), sort_of(vk))), kk, vk))

    def obj(self, cls, **f):
        return self.eng.new_cell(self.st, ObjRec(cls, f))

    def ref(self, n, cls):
        t = z3.Int(n)
        self.st.assume(z3.And(t >= 0, t < self.st.nxt))
        return VRef(t, cls)

    def assume(self, f):
        self.st.assume(f)

    def define(self, name, val, index=None):
        """ghost constant introduced by definition (see CallView.ghost)"""
        k, f = ghost_def(name, val, index)
        self.st.assume(f)
        return k

    def P(self, v):
        return wrap(self.eng, self.st, v)


class Contract:
    name = None                 # 'pkg.mod:qual'
    loops = {}
    variants = ('',)
    fields = {}
    heap_classes = ()
    int_elems = False
    elem_class = None           # elements of arrays are references to objects of this class
    axioms = ()
    uses = ()                   # contracts used at call sites
    globals = {}
    verify_self = True
    lemmas = ()                 # lemmas assumed as (quantified) axioms
    assumes = ()                # textual assumptions
    force_loop_comp = False
    list_hints = {}
    implicit = {}               # implicit exceptions the contract speaks about: {'index': 'IndexError'}
    rec_group = None            # name shared by mutually recursive functions
    decreases = None            # c -> int term that decreases at every recursive call
    on_class = None             # only applies when the receiver has this class

    # -- interface
    def setup(self, x):
        raise NotImplementedError

    def pre(self, c):
        return []

    def post(self, c):
        return []

    prune = ()          # branches (notes) for which infeasible paths are pruned with the whole path condition
    may_raise = ()      # exceptions that may be raised in states the contract does not characterise

    def raises(self, c):
        return {}

    def modifies(self, c):
        return []

    def modifies_exc(self, c):
        """what may have changed when an exception of the contract is raised (by default nothing)"""
        return []

    def result(self, c):
        """result kind, or a callable building the result"""
        return 'none'

    def ghosts_post(self, c):
        """[(object, '@field', term)]: ghost fields of objects after a normal return (set before post is read)"""
        return []

    def lemmas_post(self, c):
        return []

    def lemmas_use(self, c):
        return []

    # hooks (default: none)
    def binop_hook(self, eng, st, op, a, b, node):
        return NotImplemented

    def compare_hook(self, eng, st, op, a, b, node):
        return NotImplemented

    def __getattr__(self, n):
        if n.endswith('_hook') or n in ('listhint', 'dicthint', 'sethint', 'comp_kind'):
            return lambda *a: None
        raise AttributeError(n)

    # -- use at a call site
    def apply(self, eng, st, args, kw, node):
        f = eng.prog.func(self.name)
        params = eng.bind_args(st, f, args, kw, node)
        if isinstance(params, PyExc):
            return [(st, params)]
        old = st.copy()
        c = CallView(eng, params, old, st)
        short = self.name.split(':')[1]
        for n, g in self.pre(c):
            eng.oblige('pre:%s:%s' % (short, n), st, B(g), getattr(node, 'lineno', 0))
            st.assume(B(g))
        if self is eng.unit.k or self.rec_group is not None and self.rec_group == eng.unit.k.rec_group:
            if self.decreases is None:
                eng.unit.trust('termination of the recursion of %s is not proved' % short)
            else:
                a, b = self.decreases(c), eng.unit.k.decreases(eng.unit.c0)
                eng.oblige('recursion-variant:%s' % short, st, z3.And(a >= 0, a < b), getattr(node, 'lineno', 0))
        out = []
        rz = dict(self.raises(c))
        for exc in self.may_raise:
            rz[exc] = fresh_const('raises', BoolS)
        cur = st
        for exc, cond in rz.items():
            nxt = None
            for s, b in eng.split(cur, cond, short + '!'):
                if b:
                    s = s.copy()
                    s0 = s.copy()
                    e = CallView(eng, params, s0, s)
                    for m in self.modifies_exc(e):
                        self.havoc1(eng, s, m)
                    if hasattr(self, 'post_exc'):
                        e = CallView(eng, params, s0, s)
                        e.calling = True
                        for n, g in self.post_exc(e, exc):
                            s.assume(B(g))
                    out.append((s, PyExc(exc, 'from %s' % short)))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        st = cur if cur is not st else st
        old = st.copy()
        c = CallView(eng, params, old, st)
        for m in self.modifies(c):
            self.havoc1(eng, st, m)
        rk_ = self.result(c)
        res = rk_(eng, st) if callable(rk_) else eng.fresh(st, rk_, 'r_' + short.replace('.', '_'))
        c = CallView(eng, params, old, st, res)
        c.calling = True
        for o, n, t in self.ghosts_post(c):
            st.store[o.id] = st.store[o.id].set(n, t)
            eng.mod(('fld', o.id, n))
        posts = self.post(c)
        for f in c.gdefs.values():
            st.assume(f[1])
        for o, n, t in c.gfields:
            st.store[o.id] = st.store[o.id].set(n, t)
            eng.mod(('fld', o.id, n))
        for n, g in posts:
            st.assume(B(g))
        for lem in self.lemmas_use(c):
            eng.use_lemma(st, lem, 'call:' + short)
        out.append((st, res))
        return out

    def havoc1(self, eng, st, m):
        if m[0] == 'list':       # ('list', value, 'arr'|'both')
            o = m[1]
            r = eng.rec(st, o)
            if isinstance(r, ConcList):
                r = eng.as_arr(st, r, m[3] if len(m) > 3 else eng.unit.listhint(eng, st, o))
            ln = r.len
            if m[2] == 'both':
                ln = fresh_const('hlen', IntS)
                st.assume(ln >= 0)
                eng.mod(('cell', o.id, 'len')) if isinstance(o, VCell) else None
            if r.kind == 'none' and len(m) > 3:
                r = eng.as_arr(st, r, m[3])
            arr = None if r.kind == 'none' else fresh_const('harr', r.arr.sort())
            eng.set_rec(st, o, ArrRec(ln, arr, r.kind))
        elif m[0] == 'dict':
            o = m[1]
            r = eng.rec(st, o)
            if isinstance(r, SetRec):
                eng.set_rec(st, o, SetRec(fresh_const('hset', r.dom.sort()), r.kk))
                return
            if isinstance(r, ConcDict):
                h = eng.unit.dicthint(eng, st, o)
                if h is None:
                    raise SpecError('dict kind unknown')
                r = eng.as_dict(st, r, *h)
            eng.set_rec(st, o, DictRec(fresh_const('hdom', r.dom.sort()), fresh_const('hmap', r.map.sort()), r.kk, r.vk))
        elif m[0] == 'fld':      # ('fld', obj, name, kind)
            eng.mod(('fld', m[1].id, m[2]))
            r = st.store[m[1].id]
            if m[2].startswith('@'):
                st.store[m[1].id] = r.set(m[2], fresh_const('gh_' + m[2][1:], r.f[m[2]].sort()))
                return
            k = m[3] if len(m) > 3 else eng.kind(st, r.f[m[2]])
            st.store[m[1].id] = r.set(m[2], eng.fresh(st, k, m[2]))
        elif m[0] == 'heap':
            eng.ensure_field(st, m[1])
            eng.mod(('heap', m[1]))
            st.heap[m[1]] = fresh_const('heap_' + m[1], st.heap[m[1]].sort())
        elif m[0] == 'nxt':
            n = fresh_const('nxt', IntS)
            st.assume(n >= st.nxt)
            st.nxt = n
            eng.mod(('nxt',))
        else:
            raise SpecError('modifies %r' % (m,))


class Unit:
    """one contract under verification for one variant"""
    def __init__(self, contract, variant, registry):
        self.k = contract
        self.variant = variant
        self.registry = registry
        self.globals = dict(contract.globals)
        self.int_elems = contract.int_elems
        self.elem_class = contract.elem_class
        self.trusted = set()
        self.novariant = set()
        self.cx = None
        self.entry_state = None
        self.force_loop_comp = contract.force_loop_comp
        self.rename = {}
        self.uses = {}
        for u in contract.uses:
            ct = registry[u] if isinstance(u, str) else u
            self.uses.setdefault(ct.name, []).append(ct)

    def trust(self, s):
        self.trusted.add(s)

    def fieldkind(self, n):
        return self.k.fields.get(n)

    def is_heap_class(self, n):
        return n in self.k.heap_classes

    def loopspec(self, n):
        sp = self.k.loops
        if callable(sp):
            sp = sp(self)
        return sp.get(n)

    def note_no_variant(self, eng, ordn, line):
        self.novariant.add(ordn)

    def contract_for(self, eng, st, module, qual, args):
        key = module.replace('pydatastructs.', '', 1) + ':' + (qual or '')
        cts = self.uses.get(key)
        if cts:
            for ct in cts:
                if ct.on_class is not None:
                    v = args[0] if args else None
                    try:
                        cl = self._cls(eng, st, v)
                    except Exception:
                        cl = None
                    if cl != ct.on_class:
                        continue
                return ct
        return None

    def _cls(self, eng, st, v):
        if isinstance(v, VCell):
            return st.store[v.id].cls
        return v.cls

    def __getattr__(self, n):
        if n.endswith('_hook') or n in ('listhint', 'dicthint', 'sethint', 'comp_kind'):
            return getattr(self.k, n)
        raise AttributeError(n)


BASE_AXIOMS = None


def base_axioms():
    n = z3.Int('n')
    x = z3.Const('x', E)
    return [isNone(none0), tag(none0) == -1,
            z3.ForAll([n], z3.And(z3.Not(isNone(mkint(n))), ival(mkint(n)) == n), patterns=[mkint(n)]),
            z3.ForAll([n], z3.Implies(n > 0, z3.And(z3.Not(isNone(eref(n))), refof(eref(n)) == n)), patterns=[eref(n)]),
            z3.ForAll([x], z3.Implies(isNone(x), refof(x) == 0), patterns=[refof(x)]),
            pow2(z3.IntVal(0)) == 1,
            z3.ForAll([n], z3.Implies(n >= 0, z3.And(pow2(n) >= 1, pow2(n) > n)), patterns=[pow2(n)]),
            z3.ForAll([n], z3.Implies(n >= 0, pow2(n + 1) == 2 * pow2(n)), patterns=[pow2(n + 1)]),
            z3.ForAll([n], z3.Implies(n >= 1, pow2(n) == 2 * pow2(n - 1)), patterns=[pow2(n)]),
            ]


class Result:
    def __init__(self, contract, variant):
        self.contract, self.variant = contract, variant
        self.obls = []
        self.error = None
        self.trusted = set()
        self.inlined = set()
        self.used = set()
        self.novariant = set()
        self.axioms = []
        self.loops = 0
        self.lemmas = set()


def generate(contract, variant, registry, prog):
    """run the engine on the real source; -> Result with obligations"""
    reset_names()
    res = Result(contract, variant)
    unit = Unit(contract, variant, registry)
    eng = Engine(prog, unit)
    try:
        f = prog.func(contract.name)
        st = State()
        st.frames[0] = {}
        st.stack = ((0, f, 0, 0),)
        if contract.heap_classes or contract.fields:
            st.nxt = z3.Int('nxt0')
            st.assume(st.nxt >= 1)
        x = Setup(eng, st, variant)
        unit.cx = x
        args, kw = contract.setup(x)
        params = eng.bind_args(st, f, list(args), dict(kw), None)
        if isinstance(params, PyExc):
            res.obls.append(Obl('signature', [], z3.BoolVal(False)))
            res.error = None
            raise Unsupported('signature of %s does not accept the specified call: %s' % (contract.name, params.msg))
        c0 = CallView(eng, params, st, st)
        unit.c0 = c0
        for n, g in contract.pre(c0):
            st.assume(B(g))
        c0.old = c0.new = st.copy()
        old = st.copy()
        # entry view for specs: frame with parameters
        es = st.copy()
        es.frames[0] = dict(params)
        unit.entry_state = es
        entry_ids = set(old.store)
        eng.obls.append(Obl('cover:entry', [p[0] for p in st.pc], z3.BoolVal(False), cover=True))
        outs = eng.call_func(st, f, list(args), dict(kw), None)
        normal = 0
        covers = []
        for s, v in list(outs) + eng.implicit_exits:
            c = CallView(eng, params, old, s, v)
            if isinstance(v, PyExc):
                rz = contract.raises(CallView(eng, params, old, old))
                if v.name in rz:
                    eng.oblige('raises:%s' % v.name, s, B(rz[v.name]))
                    if hasattr(contract, 'post_exc'):
                        for n, g in contract.post_exc(c, v.name):
                            eng.oblige('post-exc:%s' % n, s, B(g))
                    frame_check(eng, contract, c, s, old, entry_ids, contract.modifies_exc(c))
                elif v.name not in contract.may_raise:
                    eng.oblige('no-exception:%s' % v.name, s, z3.BoolVal(False))
                continue
            normal += 1
            covers.append([p[0] for p in s.pc])
            for o, n, t in contract.ghosts_post(c):
                s.store[o.id] = s.store[o.id].set(n, t)
            posts = contract.post(c)
            for f in c.gdefs.values():
                s.assume(f[1])
            for lem in contract.lemmas_post(c):
                eng.use_lemma(s, lem, 'post')
            for exc, cond in contract.raises(CallView(eng, params, old, old)).items():
                eng.oblige('must-raise:%s' % exc, s, z3.Not(B(cond)))
            for n, g in posts:
                eng.oblige('post:%s' % n, s, B(g))
            frame_check(eng, contract, c, s, old, entry_ids)
        # at least one normal exit must be reachable (not all provably dead)
        if covers:
            eng.obls.append(Obl('cover:exit', [z3.Or(*[z3.And(*h) if h else z3.BoolVal(True) for h in [
                [q for q in h if not has_quant(q)] for h in covers]])], z3.BoolVal(False), cover=True))
        else:
            if not contract.raises(c0):
                eng.obls.append(Obl('no-normal-exit', [], z3.BoolVal(False)))
        eng.check_sharing()
        res.obls = eng.obls
    except Unsupported as e:
        res.error = 'unsupported: %s' % e
        res.obls = eng.obls
    except SpecError as e:
        res.error = 'spec: %s' % e
        res.obls = eng.obls
    res.trusted = unit.trusted
    res.inlined = eng.inlined
    res.used = eng.used_contracts
    res.novariant = unit.novariant
    res.lemmas = set(eng.lemma_done) | set(l.name for l in contract.lemmas)
    res.loops = len(eng.loop_ord)
    res.axioms = base_axioms() + [a() if callable(a) and not is_z3(a) else a for a in contract.axioms]
    for l in contract.lemmas:
        res.axioms.append(l.stmt)
    return res


def frame_check(eng, contract, c, s, old, entry_ids, mods=None):
    mods = contract.modifies(c) if mods is None else mods
    allowed = set()
    for m in mods:
        if m[0] in ('list', 'dict'):
            v = m[1]
            if isinstance(v, VCell):
                allowed.add(('cell', v.id, m[2] if m[0] == 'list' else 'both'))
            else:
                allowed.add(v.root)
        elif m[0] == 'fld':
            allowed.add(('fld', m[1].id, m[2]))
        elif m[0] == 'heap':
            allowed.add(('heap', m[1]))
        elif m[0] == 'nxt':
            allowed.add(('nxt',))
    for cid in sorted(entry_ids):
        a, b = old.store[cid], s.store.get(cid)
        if a is b:
            continue
        if isinstance(a, ObjRec):
            for n, v in b.f.items():
                if n in a.f and eng.same_val(a.f[n], v):
                    continue
                if ('fld', cid, n) in allowed or n.startswith('@'):
                    continue
                try:
                    if n in a.f:
                        eng.oblige('frame:%s' % n, s, B(eng.equal(s, a.f[n], v, None)))
                        continue
                except Unsupported:
                    pass
                eng.oblige('frame:%s' % n, s, z3.BoolVal(False))
            continue
        if ('cell', cid, 'both') in allowed or ('cell', cid) in allowed:
            continue
        if isinstance(a, (ArrRec,)) and isinstance(b, ArrRec):
            if not I(a.len).eq(I(b.len)):
                eng.oblige('frame:len', s, I(a.len) == I(b.len))
            if ('cell', cid, 'arr') in allowed or a.arr is None or (b.arr is not None and a.arr.eq(b.arr)):
                continue
            j = z3.Int('fj')
            eng.oblige('frame:list', s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < I(a.len)), z3.Select(a.arr, j) == z3.Select(b.arr, j))))
            continue
        if isinstance(a, ConcList) and isinstance(b, ConcList) and len(a.items) == len(b.items) and all(map(eng.same_val, a.items, b.items)):
            continue
        if isinstance(a, ConcDict):
            continue   # kwargs
        if isinstance(a, DictRec) and isinstance(b, DictRec):
            if a.dom.eq(b.dom) and a.map.eq(b.map):
                continue
            eng.oblige('frame:dict', s, z3.And(a.dom == b.dom, a.map == b.map))
            continue
        if isinstance(a, SetRec) and isinstance(b, SetRec):
            eng.oblige('frame:set', s, a.dom == b.dom)
            continue
        eng.oblige('frame:cell', s, z3.BoolVal(False))
    for h, t in s.heap.items():
        if h in old.heap and old.heap[h].eq(t):
            continue
        if ('heap', h) in allowed:
            continue
        base = old.heap.get(h)
        if base is None:
            base = z3.Const('heap_' + h, t.sort())
            if base.eq(t):
                continue
        r = z3.Int('fr')
        eng.oblige('frame:heap:%s' % h, s, z3.ForAll([r], z3.Implies(z3.And(r > 0, r < old.nxt), z3.Select(base, r) == z3.Select(t, r))))
