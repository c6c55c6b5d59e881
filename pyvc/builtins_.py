"""Semantics given to Python builtins and to methods of builtin containers."""
import ast
import z3
from .values import *


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, a, b)


def call_builtin(eng, st, f, args, kw, node):
    n = f.name
    if n.startswith('method:'):
        return call_method(eng, st, n[7:], f.self_, args, kw, node)
    fn = globals().get('b_' + n.replace('.', '_'))
    if fn is None:
        raise Unsupported('builtin %s' % n)
    r = fn(eng, st, f, args, kw, node)
    if isinstance(r, list):
        return r
    return [(st, r)]


def b_len(eng, st, f, args, kw, node):
    v = args[0]
    if isinstance(v, VOpt):
        eng.safe('not-none', st, z3.Not(v.isn), node)
        v = v.val
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, VSeq):
        return v.len
    if isinstance(v, (VCell, VNest)):
        r = eng.rec(st, v)
        if isinstance(r, ConcList):
            return len(r.items)
        if isinstance(r, ArrRec):
            return r.len
        if isinstance(r, ConcDict):
            return len(r.d)
        if isinstance(r, (SetRec, DictRec)):     # number of elements: zero exactly when there is none
            n = fresh_const('card', IntS)
            k = fresh_const('k', r.dom.sort().domain())
            w = fresh_const('member', r.dom.sort().domain())
            st.assume(n >= 0)
            st.assume(z3.Implies(n == 0, z3.ForAll([k], z3.Not(z3.Select(r.dom, k)), patterns=[z3.Select(r.dom, k)])))
            st.assume(z3.Implies(n > 0, z3.Select(r.dom, w)))
            return n
        if isinstance(r, ObjRec):
            return eng.bind(eng.get_attr(st, v, '__len__', node), lambda s, g: eng.call(s, g, [], {}, node))
        h = eng.unit.len_hook(eng, st, v, node)
        if h is not None:
            return h
    if isinstance(v, VRef):
        return eng.bind(eng.get_attr(st, v, '__len__', node), lambda s, g: eng.call(s, g, [], {}, node))
    raise Unsupported('len of %r' % (v,))


def b_range(eng, st, f, args, kw, node):
    a = [eng.as_int(st, x, node) for x in args]
    a = [x.as_long() if is_z3(x) and z3.is_int_value(x) else x for x in a]
    if len(a) == 1:
        return VRange(0, a[0], 1)
    if len(a) == 2:
        return VRange(a[0], a[1], 1)
    if not isinstance(a[2], int):
        s = z3.simplify(a[2])
        if z3.is_int_value(s):
            a[2] = s.as_long()
    return VRange(*a)


def b_int(eng, st, f, args, kw, node):
    v = args[0]
    if isinstance(v, (int,)):
        return int(v)
    if isinstance(v, float):
        return int(v)
    if isinstance(v, VOpaque):
        return eng.unit.int_hook(eng, st, v, node)
    if is_z3(v) and v.sort() == RealS:
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if is_z3(v) and v.sort() in (IntS, BoolS, E) or isinstance(v, VOpt):
        return eng.as_int(st, v, node)
    if isinstance(v, tuple) and v and v[0] == '@log2':
        return log2floor(eng, st, v[1], node)
    if isinstance(v, tuple) and v and v[0] == '@sqrt':
        r = fresh_const('isqrt', IntS)
        x = I(v[1])
        st.assume(z3.And(r >= 0, r * r <= x, x < (r + 1) * (r + 1), r <= x, z3.Implies(x >= 1, r >= 1)))
        return r
    if isinstance(v, tuple) and v and v[0] == '@opaque_num':
        return fresh_const('num', IntS)
    raise Unsupported('int(%r)' % (v,))


def b_float(eng, st, f, args, kw, node):
    v = args[0]
    if isinstance(v, (int, float)):
        return float(v)
    if v == 'inf' or v == '-inf':
        return eng.unit.inf_hook(eng, st, v)
    return eng.to_real(st, v, node)


def b_str(eng, st, f, args, kw, node):
    h = eng.unit.str_hook(eng, st, args[0], node)
    if h is not None:
        return h
    if isinstance(args[0], str):
        return args[0]
    if isinstance(args[0], int) and not isinstance(args[0], bool):
        return str(args[0])
    if is_z3(args[0]) and args[0].sort() == K:
        return args[0]
    return VOpaque('str')


def b_bool(eng, st, f, args, kw, node):
    return eng.truth(st, args[0], node)


def b_id(eng, st, f, args, kw, node):
    raise Unsupported('id')


def b_list(eng, st, f, args, kw, node):
    if not args:
        return eng.new_cell(st, ConcList([]))
    v = args[0]
    c = eng.concrete_iter(st, v)
    if c is not None:
        return eng.new_cell(st, ConcList(c))
    if isinstance(v, (VCell, VNest)):
        r = eng.rec(st, v)
        if isinstance(r, ArrRec):
            return eng.new_cell(st, r)
    nn, item = eng.iter_of(st, v, node)
    j = fresh_const('lj', IntS)
    x = item(st, j)
    k = eng.kind(st, x)
    na = fresh_const('list', z3.ArraySort(IntS, sort_of(k)))
    ln = nn(st)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.Select(na, j) == eng.encode(st, x, k)), patterns=[z3.Select(na, j)]))
    return eng.new_cell(st, ArrRec(ln, na, k))


def b_tuple(eng, st, f, args, kw, node):
    if not args:
        return ()
    c = eng.concrete_iter(st, args[0])
    if c is not None:
        return tuple(c)
    return b_list(eng, st, f, args, kw, node)


def b_dict(eng, st, f, args, kw, node):
    if args:
        raise Unsupported('dict(x)')
    return eng.new_cell(st, ConcDict(kw))


def b_set(eng, st, f, args, kw, node):
    if not args:
        h = eng.unit.sethint(eng, st, node)
        return eng.new_cell(st, SetRec(z3.K(sort_of(h or 'key'), z3.BoolVal(False)), h or 'key'))
    r = eng.rec(st, args[0]) if isinstance(args[0], (VCell, VNest)) else None
    if isinstance(r, ArrRec) and (r.kind in ('key', 'int') or isinstance(r.kind, tuple) and r.kind[0] == 'ref'):
        s = sort_of(r.kind)
        dom, pos = fresh_const('set', z3.ArraySort(s, BoolS)), fresh_const('pos', z3.ArraySort(s, IntS))
        x, j, ln = z3.Const('x', s), z3.Int('j'), I(r.len)
        st.assume(z3.ForAll([x], z3.Implies(dom[x], z3.And(0 <= pos[x], pos[x] < ln, r.arr[pos[x]] == x)), patterns=[dom[x]]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), dom[r.arr[j]]), patterns=[r.arr[j]]))
        return eng.new_cell(st, SetRec(dom, r.kind))
    raise Unsupported('set(x)')


def b_deque(eng, st, f, args, kw, node):
    return b_list(eng, st, f, args, kw, node)


def _minmax(eng, st, args, node, lt):
    if len(args) == 1:
        c = eng.concrete_iter(st, args[0])
        if c is None:
            raise Unsupported('min/max of symbolic iterable')
        args = c
    h = eng.unit.minmax_hook(eng, st, args, node, lt)
    if h is not None:
        return h
    r = args[0]
    for x in args[1:]:
        if eng.is_real(r) or eng.is_real(x):
            a, b = eng.to_real(st, r, node), eng.to_real(st, x, node)
        else:
            a, b = eng.as_int(st, r, node), eng.as_int(st, x, node)
        if isinstance(a, int) and isinstance(b, int):
            r = (b if b < a else a) if lt else (b if b > a else a)
        else:
            r = z3.If(b < a, I(b) if not eng.is_real(b) else b, I(a) if not eng.is_real(a) else a) if lt else \
                z3.If(b > a, I(b) if not eng.is_real(b) else b, I(a) if not eng.is_real(a) else a)
    return r


def b_min(eng, st, f, args, kw, node):
    return _minmax(eng, st, args, node, True)


def b_max(eng, st, f, args, kw, node):
    return _minmax(eng, st, args, node, False)


def b_abs(eng, st, f, args, kw, node):
    v = eng.as_int(st, args[0], node)
    return abs(v) if isinstance(v, int) else z3.If(v >= 0, v, -v)


def isinst(eng, st, v, t, node):
    if isinstance(t, tuple):
        rs = [isinst(eng, st, v, x, node) for x in t]
        if any(r is True for r in rs):
            return True
        zs = [B(r) for r in rs if r is not False]
        return z3.Or(*zs) if zs else False
    h = eng.unit.isinstance_hook(eng, st, v, t, node)
    if h is not None:
        return h
    if isinstance(v, VOpt) and isinstance(v.val, (VCell, VNest)) and isinstance(t, VBuiltin):
        r = isinst(eng, st, v.val, t, node)
        return False if r is False else z3.And(z3.Not(v.isn), B(r))
    if isinstance(t, VOpaque) and (t.name.startswith('cpp:') or t.name.startswith('ext:')):
        return False
    if isinstance(t, VClass):
        if isinstance(v, VCell) and isinstance(st.store[v.id], ObjRec):
            c = eng.prog.find_class(st.store[v.id].cls)
            return eng.prog.subclass(c, t.name)
        if isinstance(v, VRef):
            c = eng.prog.find_class(v.cls)
            return z3.And(v.t != 0, z3.BoolVal(eng.prog.subclass(c, t.name)))
        if v is None or isinstance(v, (int, str, tuple, VCell, VNest)):
            return False
        raise Unsupported('isinstance of %r' % (v,))
    if isinstance(t, VBuiltin):
        if isinstance(v, VPoison):
            raise Unsupported('poison')
        k = None
        if t.name in ('list', 'dict', 'set'):
            if isinstance(v, (VCell, VNest)):
                r = eng.rec(st, v)
                return isinstance(r, {'list': (ArrRec, ConcList), 'dict': (DictRec, ConcDict), 'set': (SetRec,)}[t.name])
            if v is None or isinstance(v, (int, str, tuple, VRef, bool)) or (is_z3(v) and v.sort() in (IntS, BoolS, K)):
                return False
        if t.name == 'tuple':
            if isinstance(v, tuple):
                return True
            if isinstance(v, (VCell, VNest, int, str, VRef)) or v is None or is_z3(v) and v.sort() in (IntS, BoolS):
                return False
        if t.name == 'int':
            if isinstance(v, (int,)) or (is_z3(v) and v.sort() in (IntS, BoolS)):
                return True
            if v is None or isinstance(v, (VCell, VNest, str, tuple, VRef, float)):
                return False
            if isinstance(v, VOpt) and kind_of(v) == 'optint':
                return z3.Not(v.isn)
            if is_z3(v) and v.sort() == E and eng.unit.int_elems:
                return z3.Not(isNone(v))
        if t.name == 'str':
            if isinstance(v, str) or isinstance(v, VSeq):
                return True
            if v is None or isinstance(v, (int, tuple, VCell)):
                return False
    if isinstance(t, VOpaque) and t.name in ('dtype', 'type') and is_z3(v) and v.sort() == E:
        return tyok(v)
    if isinstance(t, VOpaque) and t.name == 'dtype' and isinstance(v, VRef):
        return True
    raise Unsupported('isinstance(%r, %r)' % (v, t))


def b_isinstance(eng, st, f, args, kw, node):
    return isinst(eng, st, args[0], args[1], node)


def b_type(eng, st, f, args, kw, node):
    v = args[0]
    h = eng.unit.type_hook(eng, st, v, node)
    if h is not None:
        return h
    if isinstance(v, VCell):
        r = st.store[v.id]
        if isinstance(r, ObjRec):
            return eng.prog.find_class(r.cls)
        if isinstance(r, (ArrRec, ConcList)):
            return VBuiltin('list')
        if isinstance(r, (DictRec, ConcDict)):
            return VBuiltin('dict')
    if isinstance(v, tuple):
        return VBuiltin('tuple')
    if v is None:
        return VBuiltin('NoneType')
    if isinstance(v, VRef):
        return eng.prog.find_class(v.cls)
    return VOpaque('type')


def b_enumerate(eng, st, f, args, kw, node):
    c = eng.concrete_iter(st, args[0])
    if c is not None:
        return tuple((i, x) for i, x in enumerate(c))
    n, item = eng.iter_of(st, args[0], node)
    return VIter(n, lambda s, j: (j, item(s, j)))


def b_zip(eng, st, f, args, kw, node):
    cs = [eng.concrete_iter(st, a) for a in args]
    if all(c is not None for c in cs):
        return tuple(zip(*cs))
    its = [eng.iter_of(st, a, node) for a in args]

    def n(s):
        r = its[0][0](s)
        for x in its[1:]:
            y = x[0](s)
            r = z3.If(y < r, y, r)
        return r
    return VIter(n, lambda s, j: tuple(x[1](s, j) for x in its))


def b_reversed(eng, st, f, args, kw, node):
    v = args[0]
    c = eng.concrete_iter(st, v)
    if c is not None:
        return tuple(reversed(c))
    if isinstance(v, VRange) and isinstance(v.step, int) and v.step == 1:
        return VRange(I(v.hi) - 1, I(v.lo) - 1, -1)
    n, item = eng.iter_of(st, v, node)
    return VIter(n, lambda s, j: item(s, n(s) - 1 - j))


def _quantify(eng, st, v, node, isall):
    c = eng.concrete_iter(st, v)
    if c is not None:
        ts = [eng.truth(st, x, node) for x in c]
        if all(isinstance(t, bool) for t in ts):
            return all(ts) if isall else any(ts)
        return (z3.And if isall else z3.Or)(*[B(t) for t in ts])
    r = eng.rec(st, v)
    if isinstance(r, ArrRec) and r.kind == 'bool':
        j = fresh_const('qj', IntS)
        rng = z3.And(0 <= j, j < I(r.len))
        if isall:
            return z3.ForAll([j], z3.Implies(rng, z3.Select(r.arr, j)))
        return z3.Exists([j], z3.And(rng, z3.Select(r.arr, j)))
    raise Unsupported('any/all')


def b_any(eng, st, f, args, kw, node):
    return _quantify(eng, st, args[0], node, False)


def b_all(eng, st, f, args, kw, node):
    return _quantify(eng, st, args[0], node, True)


def b_hasattr(eng, st, f, args, kw, node):
    h = eng.unit.hasattr_hook(eng, st, args[0], args[1], node)
    if h is not None:
        return h
    if isinstance(args[0], VModule) and isinstance(args[1], str):
        m = eng.prog.module(args[0].name)
        return args[1] in m.defs
    raise Unsupported('hasattr')


def b_getattr(eng, st, f, args, kw, node):
    h = eng.unit.getattr_hook(eng, st, args, node)
    if h is not None:
        return h
    if isinstance(args[1], str):
        return eng.get_attr(st, args[0], args[1], node)
    raise Unsupported('getattr')


def b_setattr(eng, st, f, args, kw, node):
    if isinstance(args[1], str):
        eng.set_attr(st, args[0], args[1], args[2], node)
        return None
    h = eng.unit.setattr_hook(eng, st, args, node)
    if h is not None:
        return h
    raise Unsupported('setattr')


def b_delattr(eng, st, f, args, kw, node):
    h = eng.unit.delattr_hook(eng, st, args, node)
    if h is None:
        raise Unsupported('delattr')
    return h


def b_object___new__(eng, st, f, args, kw, node):
    return eng.alloc(st, args[0])


def b_ThreadPoolExecutor(eng, st, f, args, kw, node):
    return VBuiltin('executor')


def b_deepcopy(eng, st, f, args, kw, node):
    h = eng.unit.copy_hook(eng, st, args[0], node)
    if h is not None:
        return h
    return args[0]


b_dc = b_deepcopy


def b_print(eng, st, f, args, kw, node):
    return None


def b_ord(eng, st, f, args, kw, node):
    h = eng.unit.ord_hook(eng, st, args[0], node)
    if h is not None:
        return h
    if is_z3(args[0]) and args[0].sort() == K:
        return z3.Function('ord', K, IntS)(args[0])
    raise Unsupported('ord')


def b_math_log(eng, st, f, args, kw, node):
    if len(args) == 2 and isinstance(args[1], int) and args[1] == 2:
        return ('@log2', eng.as_int(st, args[0], node))
    return eng.unit.log_hook(eng, st, args, node)


def b_math_log2(eng, st, f, args, kw, node):
    return ('@log2', eng.as_int(st, args[0], node))


def b_math_sqrt(eng, st, f, args, kw, node):
    x = eng.as_int(st, args[0], node)
    eng.safe('sqrt-domain', st, x >= 0, node)
    return ('@sqrt', x)


def b_math_floor(eng, st, f, args, kw, node):
    v = args[0]
    if isinstance(v, tuple) and v and v[0] == '@log2':
        return log2floor(eng, st, v[1], node)
    if is_z3(v) and v.sort() == RealS:
        return z3.ToInt(v)
    return eng.as_int(st, v, node)


def log2floor(eng, st, x, node):
    """assumed: floor(math.log(x, 2)) / int(math.log2(x)) is exact on the sizes used (see DESIGN)"""
    eng.safe('log-domain', st, x > 0, node)
    eng.unit.trust('floor(log2(n)) computed in floating point equals the exact integer logarithm')
    k = fresh_const('lg', IntS)
    st.assume(z3.And(k >= 0, pow2(k) <= I(x), I(x) < pow2(k + 1)))
    return k


def b_math_gcd(eng, st, f, args, kw, node):
    raise Unsupported('gcd')


def b_sorted(eng, st, f, args, kw, node):
    raise Unsupported('sorted')


def b_random_getrandbits(eng, st, f, args, kw, node):
    if not isinstance(args[0], int):
        raise Unsupported('getrandbits')
    r = fresh_const('random_bits', IntS)
    st.assume(z3.And(0 <= r, r < 2 ** args[0]))
    return r


def b_sum(eng, st, f, args, kw, node):
    raise Unsupported('sum')


# ------------------------------------------------------------------ methods
def list_append(eng, st, o, v, node):
    if isinstance(v, VOpt) and not eng.feasible(st, v.isn):
        v = v.val
    r = eng.rec(st, o)
    if isinstance(r, ConcList):
        if eng.unit.listhint(eng, st, o) is None or not is_symbolic_ctx(eng):
            eng.set_rec(st, o, ConcList(r.items + (v,)), 'len')
            eng.mod(('cell', o.id, 'arr'))
            return
    r = eng.widen(st, o, r, eng.kind(st, v))
    if r.kind == 'none':
        eng.set_rec(st, o, ArrRec(I(r.len) + 1, None, 'none'), 'len')
        return
    eng.set_rec(st, o, ArrRec(z3.simplify(I(r.len) + 1), z3.Store(r.arr, I(r.len), eng.store_enc(st, v, r.kind)), r.kind), 'len')
    eng.mod(('cell', o.id, 'arr')) if isinstance(o, VCell) else None


def is_symbolic_ctx(eng):
    return True


def has_ite(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                return True
            todo += x.children()
    return False


def list_extend(eng, st, o, other, node):
    if isinstance(other, VOpt):
        eng.safe('not-none', st, z3.Not(other.isn), node)
        other = other.val
    c = eng.concrete_iter(st, other)
    if c is not None:
        for x in c:
            list_append(eng, st, o, x, node)
        return
    r = eng.rec(st, o)
    r2 = eng.rec(st, other) if isinstance(other, (VCell, VNest)) else None
    if isinstance(r2, ArrRec):
        if r2.kind == 'none':
            raise Unsupported('extend none')
        eng.note_kinds(r2.kind)
        r = eng.as_arr(st, r, r2.kind) if isinstance(r, ConcList) else eng.widen(st, o, r, r2.kind)
        na = fresh_const('ext', r.arr.sort())
        j = z3.Int('j')
        l1, l2 = I(r.len), I(r2.len)
        if not z3.is_const(r2.arr) and has_ite(r2.arr):
            src = fresh_const('src', r2.arr.sort())
            st.assume(src == r2.arr)
            r2 = ArrRec(r2.len, src, r2.kind)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l1), z3.Select(na, j) == z3.Select(r.arr, j)), patterns=[z3.Select(na, j)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(l1 <= j, j < l1 + l2), z3.Select(na, j) == z3.Select(r2.arr, j - l1)),
                            patterns=[z3.Select(na, j)]))
        # same fact triggered from the source list
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l2), z3.Select(na, l1 + j) == z3.Select(r2.arr, j)),
                            patterns=[z3.Select(r2.arr, j)]))
        eng.set_rec(st, o, ArrRec(z3.simplify(l1 + l2), na, r.kind), 'len')
        if isinstance(o, VCell):
            eng.mod(('cell', o.id, 'arr'))
        return
    raise Unsupported('extend')


def call_method(eng, st, name, o, args, kw, node):
    if isinstance(o, VBuiltin) and o.name == 'executor':
        if name == 'submit':
            eng.unit.trust('ThreadPoolExecutor.submit(f, *args).result() runs f(*args) to completion before continuing')
            return eng.bind(eng.call(st, args[0], args[1:], kw, node), lambda s, v: [(s, VFuture(v))])
    if isinstance(o, VFuture) and name == 'result':
        return [(st, o.val)]
    if isinstance(o, VOpt):
        eng.safe('not-none', st, z3.Not(o.isn), node)
        o = o.val
    if name == '__setattr__' and isinstance(args[0], str):
        eng.set_attr(st, o, args[0], args[1], node)
        return [(st, None)]
    hk = eng.unit.method_hook(eng, st, name, o, args, kw, node)
    if hk is not None:
        return hk
    if isinstance(o, (str, VOpaque)):
        if name in ('format', 'join'):
            return [(st, VOpaque('str'))]
        return [(st, VOpaque('str'))] if isinstance(o, VOpaque) else _bad(name, o)
    if isinstance(o, (VCell, VNest)):
        r = eng.rec(st, o)
        if isinstance(r, (ConcList, ArrRec)):
            return list_method(eng, st, name, o, r, args, kw, node)
        if isinstance(r, (ConcDict, DictRec)):
            return dict_method(eng, st, name, o, r, args, kw, node)
        if isinstance(r, SetRec):
            return set_method(eng, st, name, o, r, args, kw, node)
    if isinstance(o, VClass) and name == '__new__':
        return [(st, eng.alloc(st, args[0]))]
    return _bad(name, o)


def _bad(name, o):
    raise Unsupported('method %s of %r' % (name, o))


def list_method(eng, st, name, o, r, args, kw, node):
    if name == 'append':
        list_append(eng, st, o, args[0], node)
        return [(st, None)]
    if name == '__getitem__':
        return eng.get_item(st, o, args[0], node)
    if name == '__setitem__':
        return eng.set_item(st, o, args[0], args[1], node)
    if name == '__len__':
        return [(st, len(r.items) if isinstance(r, ConcList) else r.len)]
    if name == 'extend':
        list_extend(eng, st, o, args[0], node)
        return [(st, None)]
    if name == 'copy':
        return [(st, eng.new_cell(st, r))]
    if name == 'reverse':
        if isinstance(r, ConcList):
            eng.set_rec(st, o, ConcList(list(reversed(r.items))), 'arr')
        else:
            ln, na, j = I(r.len), fresh_const('rev', r.arr.sort()), z3.Int('j')
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.Select(na, j) == z3.Select(r.arr, ln - 1 - j)), patterns=[z3.Select(na, j)]))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.Select(na, ln - 1 - j) == z3.Select(r.arr, j)), patterns=[z3.Select(r.arr, j)]))
            eng.set_rec(st, o, ArrRec(r.len, na, r.kind), 'arr')
        return [(st, None)]
    if name in ('pop', 'popleft'):
        idx = args[0] if args else (0 if name == 'popleft' else -1)
        if isinstance(r, ConcList):
            if isinstance(idx, int):
                if not -len(r.items) <= idx < len(r.items):
                    eng.safe('index', st, False, node)
                    return []
                items = list(r.items)
                v = items.pop(idx)
                eng.set_rec(st, o, ConcList(items), 'len')
                if isinstance(o, VCell):
                    eng.mod(('cell', o.id, 'arr'))
                return [(st, v)]
            r = eng.as_arr(st, r)
        ln = I(r.len)
        if isinstance(idx, int) and idx == -1:
            eng.safe('pop-empty', st, ln > 0, node)
            v = eng.decode(st, z3.Select(r.arr, ln - 1), r.kind)
            eng.set_rec(st, o, ArrRec(z3.simplify(ln - 1), r.arr, r.kind), 'len')
            if isinstance(o, VCell):
                eng.mod(('cell', o.id, 'arr'))
            return [(st, v)]
        if isinstance(idx, int) and idx == 0:
            eng.safe('pop-empty', st, ln > 0, node)
            v = eng.decode(st, z3.Select(r.arr, 0), r.kind)
            na = fresh_const('popl', r.arr.sort())
            try:
                z3.ForAll([z3.Int('j')], z3.Select(r.arr, z3.Int('j')) == z3.Select(r.arr, z3.Int('j')), patterns=[z3.Select(r.arr, z3.Int('j'))])
            except z3.Z3Exception:      # not usable in a pattern
                nm = fresh_const('list', r.arr.sort())
                st.assume(nm == r.arr)
                r = ArrRec(r.len, nm, r.kind)
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln - 1), z3.Select(na, j) == z3.Select(r.arr, j + 1)),
                                patterns=[z3.Select(na, j)]))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < ln), z3.Select(na, j - 1) == z3.Select(r.arr, j)),
                                patterns=[z3.Select(r.arr, j)]))
            eng.set_rec(st, o, ArrRec(z3.simplify(ln - 1), na, r.kind), 'len')
            if isinstance(o, VCell):
                eng.mod(('cell', o.id, 'arr'))
            return [(st, v)]
    if name == 'insert' and isinstance(args[0], int) and args[0] == 0 and isinstance(r, ArrRec):
        ln = I(r.len)
        na = fresh_const('ins', r.arr.sort())
        j = z3.Int('j')
        st.assume(z3.Select(na, 0) == eng.encode(st, args[1], r.kind))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= ln), z3.Select(na, j) == z3.Select(r.arr, j - 1)), patterns=[z3.Select(na, j)]))
        eng.set_rec(st, o, ArrRec(z3.simplify(ln + 1), na, r.kind), 'len')
        if isinstance(o, VCell):
            eng.mod(('cell', o.id, 'arr'))
        return [(st, None)]
    if name == 'remove' and isinstance(r, ArrRec):      # first occurrence; ValueError if there is none
        ln, x = I(r.len), eng.encode(st, args[0], r.kind)
        if r.kind == 'elem':
            raise Unsupported('list.remove: equality of elements')
        j, p, na = z3.Int('j'), fresh_const('rem', IntS), fresh_const('remd', r.arr.sort())
        eng.safe('value-in-list', st, z3.Exists([j], z3.And(0 <= j, j < ln, z3.Select(r.arr, j) == x)), node)
        st.assume(z3.And(0 <= p, p < ln, z3.Select(r.arr, p) == x))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.Select(r.arr, j) != x), patterns=[z3.Select(r.arr, j)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln - 1), z3.Select(na, j) == z3.Select(r.arr, z3.If(j < p, j, j + 1))), patterns=[z3.Select(na, j)]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln, j != p), z3.Select(na, z3.If(j < p, j, j - 1)) == z3.Select(r.arr, j)), patterns=[z3.Select(r.arr, j)]))
        eng.set_rec(st, o, ArrRec(z3.simplify(ln - 1), na, r.kind), 'len')
        if isinstance(o, VCell):
            eng.mod(('cell', o.id, 'arr'))
        return [(st, None)]
    if name == 'clear':
        eng.set_rec(st, o, ArrRec(z3.IntVal(0), r.arr, r.kind) if isinstance(r, ArrRec) else ConcList([]), 'len')
        return [(st, None)]
    raise Unsupported('list.%s' % name)


def dict_method(eng, st, name, o, r, args, kw, node):
    if isinstance(r, ConcDict):
        hint = eng.unit.dicthint(eng, st, o)
        if hint is not None:
            r = eng.as_dict(st, r, *hint)
            if isinstance(o, VCell):
                st.store[o.id] = r
        else:
            if name == 'get':
                if isinstance(args[0], (str, int)):
                    if args[0] in r.d:
                        return [(st, r.d[args[0]])]
                    return [(st, args[1] if len(args) > 1 else None)]
                if not r.d:
                    return [(st, args[1] if len(args) > 1 else None)]
            if name == 'pop':
                if isinstance(args[0], (str, int)):
                    d = dict(r.d)
                    if args[0] in d:
                        v = d.pop(args[0])
                        eng.set_rec(st, o, ConcDict(d))
                        return [(st, v)]
                    if len(args) > 1:
                        return [(st, args[1])]
                    eng.safe('key', st, False, node)
                    return []
            if name == 'keys':
                return [(st, tuple(r.d.keys()))]
            if name == 'values':
                return [(st, tuple(r.d.values()))]
            if name == 'items':
                return [(st, tuple(r.d.items()))]
            raise Unsupported('dict.%s' % name)
    root, path = (('cell', o.id), []) if isinstance(o, VCell) else (o.root, o.path)
    if name == 'get':
        k = eng.encode(st, args[0], r.kk)
        present = z3.Select(r.dom, k)
        d = args[1] if len(args) > 1 else None
        immut = not (isinstance(r.vk, tuple) and r.vk[0] in ('list', 'dict', 'set', 'tuple'))
        if immut:
            t = eng.decode(st, z3.Select(r.map, k), r.vk)
            try:
                kj = join_kind(r.vk, eng.kind(st, d))
                if kj == r.vk:
                    return [(st, eng.decode(st, z3.If(present, z3.Select(r.map, k), eng.encode(st, d, r.vk)), r.vk))]
                if d is None:
                    return [(st, VOpt(z3.Not(present), t))]
            except Unsupported:
                pass
        out = []
        for s, b in eng.split(st, present, 'get'):
            if b:
                out.append((s, eng.decode(s, z3.Select(r.map, k), r.vk, (root, path + [('idx', k)]))))
            else:
                out.append((s, d))
        return out
    if name == 'pop':
        k = eng.encode(st, args[0], r.kk)
        if len(args) == 1:
            eng.safe('key', st, z3.Select(r.dom, k), node)
        v = eng.decode(st, z3.Select(r.map, k), r.vk)
        if len(args) > 1:
            if args[1] is not None or isinstance(r.vk, tuple) and r.vk[0] in ('list', 'dict', 'set', 'tuple'):
                raise Unsupported('dict.pop default')
            v = VOpt(z3.Not(z3.Select(r.dom, k)), v)
        eng.set_rec(st, o, DictRec(z3.Store(r.dom, k, z3.BoolVal(False)), r.map, r.kk, r.vk))
        return [(st, v)]
    if name in ('keys', 'values', 'items'):
        n, item = eng.enum_dom(st, r.dom, r.kk)
        if name == 'keys':
            return [(st, VIter(n, item))]

        def val(s, j):
            rr = eng.rec(s, o)
            k = eng.encode(s, item(s, j), rr.kk)
            return eng.decode(s, z3.Select(rr.map, k), rr.vk, (root, path + [('idx', k)]))
        val.enum = item.enum
        if name == 'values':
            return [(st, VIter(n, val))]
        pair = lambda s, j: (item(s, j), val(s, j))
        pair.enum = item.enum
        return [(st, VIter(n, pair))]
    if name == '__contains__':
        return [(st, z3.Select(r.dom, eng.encode(st, args[0], r.kk)))]
    if name == 'copy':
        return [(st, eng.new_cell(st, r))]
    raise Unsupported('dict.%s' % name)


def set_method(eng, st, name, o, r, args, kw, node):
    if name == 'add':
        eng.set_rec(st, o, SetRec(z3.Store(r.dom, eng.encode(st, args[0], r.kk), z3.BoolVal(True)), r.kk))
        return [(st, None)]
    if name in ('discard', 'remove'):
        k = eng.encode(st, args[0], r.kk)
        if name == 'remove':
            eng.safe('key', st, z3.Select(r.dom, k), node)
        eng.set_rec(st, o, SetRec(z3.Store(r.dom, k, z3.BoolVal(False)), r.kk))
        return [(st, None)]
    raise Unsupported('set.%s' % name)
