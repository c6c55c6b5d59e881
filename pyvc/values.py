"""Symbolic values, kinds and sorts used by the verification-condition generator."""
import z3

IntS, BoolS, RealS = z3.IntSort(), z3.BoolSort(), z3.RealSort()
E = z3.DeclareSort('E')          # opaque Python element (may be None)
K = z3.DeclareSort('K')          # opaque hashable key, Python == is term equality

isNone = z3.Function('isNone', E, BoolS)
tag = z3.Function('tag', E, IntS)          # ghost identity of an element occurrence
rk = z3.Function('rk', E, IntS)            # comparison rank (total preorder on the finitely many values)
ival = z3.Function('ival', E, IntS)        # int payload of an int element
mkint = z3.Function('mkint', IntS, E)
eref = z3.Function('eref', IntS, E)          # element that is a reference to a heap object
refof = z3.Function('refof', E, IntS)
py_eq = z3.Function('py_eq', E, E, BoolS)
tyok = z3.Function('tyok', E, BoolS)       # isinstance(e, dtype)
conv = z3.Function('conv', E, E)           # dtype(e)
none0 = z3.Const('none0', E)
pow2 = z3.Function('pow2', IntS, IntS)

_oi = z3.Datatype('OI')
_oi.declare('oi_none')
_oi.declare('oi_some', ('oi_val', IntS))
OI = _oi.create()


class Unsupported(Exception):
    pass


class PyExc:
    """value standing for a raised Python exception"""
    def __init__(self, name, msg='', implicit=False):
        self.name, self.msg, self.implicit = name, msg, implicit

    def __repr__(self):
        return 'PyExc(%s)' % self.name


class VCell:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, VCell) and o.id == self.id

    def __hash__(self):
        return hash(('VCell', self.id))

    def __repr__(self):
        return 'VCell(%d)' % self.id


class VNest:
    """mutable container living inside another one: root cell/heap field + path"""
    __slots__ = ('root', 'path', 'kind', 'ver')

    def __init__(self, root, path, kind, ver):
        self.root, self.path, self.kind, self.ver = root, path, kind, ver


class VStar:
    """a symbolic sequence of positional arguments (only for a function under verification)"""
    def __init__(self, seq):
        self.seq = seq


class VRef:
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls):
        self.t, self.cls = t, cls

    def __repr__(self):
        return 'VRef(%s:%s)' % (self.t, self.cls)


class VOpt:
    __slots__ = ('isn', 'val')

    def __init__(self, isn, val):
        self.isn, self.val = isn, val


class VFunc:
    def __init__(self, node, fid, module, qual=None, cls=None):
        self.node, self.fid, self.module, self.qual, self.cls = node, fid, module, qual, cls

    def __repr__(self):
        return 'VFunc(%s)' % self.qual


class VBound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class VBuiltin:
    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return 'VBuiltin(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, VBuiltin) and o.name == self.name and self.self_ is None and o.self_ is None

    def __hash__(self):
        return hash(self.name)


class VClass:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node

    def __repr__(self):
        return 'VClass(%s)' % self.name


class VModule:
    def __init__(self, name):
        self.name = name


class VSym:
    """symbolic function parameter: fn(engine, st, args)->value"""
    def __init__(self, fn, name='fn'):
        self.fn, self.name = fn, name


class VRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class VSeq:
    """immutable symbolic sequence (e.g. a string): len, arr, kind"""
    def __init__(self, ln, arr, kind):
        self.len, self.arr, self.kind = ln, arr, kind


class VIter:
    """generic finite iteration: n(st), item(st, idx)"""
    def __init__(self, n, item):
        self.n, self.item = n, item


class VOpaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'VOpaque(%s)' % self.name


class VPoison:
    def __init__(self, name):
        self.name = name


class VFuture:
    def __init__(self, val):
        self.val = val


# ------------------------------------------------------------------ records
class Rec:
    __slots__ = ()


class ObjRec(Rec):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return ObjRec(self.cls, d)


class ArrRec(Rec):
    """list: len, arr (z3 array Int->S), kind of elements ('none' = all None, arr is None)"""
    __slots__ = ('len', 'arr', 'kind')

    def __init__(self, ln, arr, kind):
        self.len, self.arr, self.kind = ln, arr, kind


class ConcList(Rec):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class ConcDict(Rec):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)


class DictRec(Rec):
    """dom: K->Bool, map: K->V"""
    __slots__ = ('dom', 'map', 'kk', 'vk')

    def __init__(self, dom, mp, kk, vk):
        self.dom, self.map, self.kk, self.vk = dom, mp, kk, vk


class SetRec(Rec):
    __slots__ = ('dom', 'kk')

    def __init__(self, dom, kk):
        self.dom, self.kk = dom, kk


# ------------------------------------------------------------------ kinds
_sorts = {}


def sort_of(kind):
    if kind == 'int':
        return IntS
    if kind == 'bool':
        return BoolS
    if kind == 'real':
        return RealS
    if kind == 'elem':
        return E
    if kind == 'key':
        return K
    if kind == 'optint':
        return OI
    if isinstance(kind, tuple):
        if kind in _sorts:
            return _sorts[kind][0]
        if kind[0] == 'ref':
            return IntS
        if kind[0] == 'list':
            s = sort_of(kind[1])
            nm = mangle(kind)
            d = z3.Datatype(nm)
            d.declare('mk_' + nm, ('len_' + nm, IntS), ('arr_' + nm, z3.ArraySort(IntS, s)))
            S = d.create()
            _sorts[kind] = (S, S.constructor(0), S.accessor(0, 0), S.accessor(0, 1))
            return S
        if kind[0] == 'dict':
            ks, vs = sort_of(kind[1]), sort_of(kind[2])
            nm = mangle(kind)
            d = z3.Datatype(nm)
            d.declare('mk_' + nm, ('dom_' + nm, z3.ArraySort(ks, BoolS)), ('map_' + nm, z3.ArraySort(ks, vs)))
            S = d.create()
            _sorts[kind] = (S, S.constructor(0), S.accessor(0, 0), S.accessor(0, 1))
            return S
        if kind[0] == 'set':
            return z3.ArraySort(sort_of(kind[1]), BoolS)
        if kind[0] == 'tuple':
            nm = mangle(kind)
            d = z3.Datatype(nm)
            d.declare('mk_' + nm, *[('p%d_%s' % (i, nm), sort_of(k)) for i, k in enumerate(kind[1:])])
            S = d.create()
            _sorts[kind] = (S, S.constructor(0)) + tuple(S.accessor(0, i) for i in range(len(kind) - 1))
            return S
        if kind[0] == 'opt':
            nm = mangle(kind)
            d = z3.Datatype(nm)
            d.declare('none_' + nm)
            d.declare('some_' + nm, ('val_' + nm, sort_of(kind[1])))
            S = d.create()
            _sorts[kind] = (S, S.constructor(0), S.constructor(1), S.recognizer(0), S.accessor(1, 0))
            return S
    raise Unsupported('no sort for kind %r' % (kind,))


def mangle(kind):
    if isinstance(kind, str):
        return kind
    return '_'.join(mangle(k) for k in kind) + '_e'


def dt(kind):
    sort_of(kind)
    return _sorts[kind]


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def I(v):
    """host/z3 int -> z3 Int term"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def B(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def kind_of(v):
    """kind of an immutable/immediate value (cells handled by the engine)"""
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'real'
    if isinstance(v, tuple):
        return ('tuple',) + tuple(kind_of(x) for x in v)
    if isinstance(v, VRef):
        return ('ref', v.cls)
    if isinstance(v, VOpt):
        k = kind_of(v.val)
        return 'optint' if k == 'int' else ('opt', k)
    if isinstance(v, VNest):
        return v.kind
    if isinstance(v, VPoison):
        return 'unbound'
    if is_z3(v):
        s = v.sort()
        if s == IntS:
            return 'int'
        if s == BoolS:
            return 'bool'
        if s == RealS:
            return 'real'
        if s == E:
            return 'elem'
        if s == K:
            return 'key'
    return ('host', v)


def join_kind(a, b):
    if a == b:
        return a
    if a == 'unbound' or b == 'unbound':
        return 'unbound'
    for x, y in ((a, b), (b, a)):
        if x == 'none':
            if y == 'int':
                return 'optint'
            if y in ('elem', 'optint', 'none'):
                return y
            if isinstance(y, tuple) and y[0] in ('ref', 'opt'):
                return y
            if isinstance(y, tuple) and y[0] in ('tuple', 'list'):
                return ('opt', y)
            if y == 'key' or y == 'bool' or y == 'real':
                return ('opt', y)
        if x == 'int' and y == 'optint':
            return 'optint'
        if x == 'int' and y == 'real':
            return 'real'
        if x == 'int' and y == 'elem':
            return 'elem'
        if isinstance(y, tuple) and y[0] == 'opt' and y[1] == x:
            return y
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'ref':
            if x[1] is None:
                return y
            if y[1] is None:
                return x
            return ('ref', None)
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'tuple' and len(x) == len(y):
            return ('tuple',) + tuple(join_kind(p, q) for p, q in zip(x[1:], y[1:]))
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'dict' and x[1:] == ('empty', 'empty'):
            return y
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'list':
            if x[1] in ('none', 'empty'):
                return y if x[1] == 'empty' else ('list', join_kind('none', y[1]))
            if y[1] in ('none', 'empty'):
                return join_kind(b, a) if x == b else x
            return ('list', join_kind(x[1], y[1]))
    if a in ('empty',):
        return b
    if b in ('empty',):
        return a
    raise Unsupported('cannot join kinds %r and %r' % (a, b))


_ctr = [0]


def fresh_name(base):
    _ctr[0] += 1
    return '%s!%d' % (base, _ctr[0])


def reset_names():
    _ctr[0] = 0


def fresh_const(base, sort):
    return z3.Const(fresh_name(base), sort)


def _ground_ites(t, bound, out):
    """maximal case distinctions without bound variables; False: one with a bound variable"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in bound:
                return False
            todo += x.children()
        out.append(t)
        return True
    return all(_ground_ites(c, bound, out) for c in t.children())


def forall(vs, body, patterns=()):
    """ForAll whose patterns may contain case distinctions: these are named (equivalently: exists k. k == case and ...)"""
    vs = list(vs) if isinstance(vs, (list, tuple)) else [vs]
    pats = list(patterns)
    if not pats:
        return z3.ForAll(vs, body)
    try:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])
    except z3.Z3Exception:
        pass
    bound = {v.get_id() for v in vs}
    keep, ites = [], []
    for p in pats:
        ts = p if isinstance(p, tuple) else (p,)
        if any(isinstance(t, z3.PatternRef) for t in ts):
            keep.append(ts)
            continue
        o = []
        if all(_ground_ites(t, bound, o) for t in ts):
            keep.append(ts)
            ites += [x for x in o if not any(x.eq(y) for y in ites)]
    ks = [(x, fresh_const('case', x.sort())) for x in ites]
    f = z3.substitute(body, *ks) if ks else body
    ps = []
    for ts in keep:
        try:
            ts = [t if isinstance(t, z3.PatternRef) or not ks else z3.substitute(t, *ks) for t in ts]
            p = ts[0] if len(ts) == 1 else z3.MultiPattern(*ts)
            z3.ForAll(vs, f, patterns=[p])
            ps.append(p)
        except z3.Z3Exception:
            continue
    q = z3.ForAll(vs, f, patterns=ps) if ps else z3.ForAll(vs, f)
    return z3.Exists([k for _, k in ks], z3.And(*([k == x for x, k in ks] + [q]))) if ks else q
