"""Consistent renaming of local variables to the names that the specifications use (alpha-equivalence: the code is unchanged
up to names).  names.json lists the locals of every function when the specifications were written; a local that has
disappeared is identified with a new one that is first bound the same way, or at the same place in the order."""
import ast
import hashlib
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'names.json')
DEFS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
BASE = None


def base():
    global BASE
    if BASE is None:
        BASE = json.load(open(PATH)) if os.path.exists(PATH) else {}
    return BASE


def functions(tree):
    """(qualified name, node) of the functions of a module, nested ones included"""
    def go(body, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + n.name, n
                yield from go(n.body, pre + n.name + '.<locals>.')
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, pre + n.name + '.')
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from go(getattr(n, f, []), pre)
    yield from go(tree.body, '')


def own(node):
    """the nodes of a function without those of nested definitions, in order"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            out.append(c)
            if not isinstance(c, DEFS):
                go(c)
    for s in node.body:
        out.append(s)
        if not isinstance(s, DEFS):
            go(s)
    return out


class Mask(ast.NodeTransformer):
    def visit_Name(self, n):
        return ast.Name(id='_', ctx=ast.Load())


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]


def locals_of(node):
    """[(name, how it is bound first)]"""
    ns = own(node)
    skip = set(params(node))
    for n in ns:
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip |= set(n.names)
    out = {}
    for s in ns:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            val = s.iter if isinstance(s, ast.For) else s.value
            for t in ts:
                for i, x in enumerate(y for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)):
                    if x.id not in skip and x.id not in out:
                        v = val.elts[i] if isinstance(t, ast.Tuple) and isinstance(val, ast.Tuple) and i < len(val.elts) else val
                        d = '' if v is None else ast.dump(Mask().visit(ast.parse(ast.unparse(v), mode='eval')))
                        out[x.id] = hashlib.sha1((type(s).__name__ + str(i if v is val else '') + d).encode()).hexdigest()[:10]
    return list(out.items())


def table(tree):
    t = {q: locals_of(n) for q, n in functions(tree)}
    return {q: v for q, v in t.items() if v}


def pairing(b, c):
    bn, cn = {x for x, _ in b}, {x for x, _ in c}
    gone, new = [x for x in b if x[0] not in cn], [x for x in c if x[0] not in bn]
    ren = {}
    for n, sig in list(new):
        m = [x for x in gone if x[1] == sig]
        if len(m) == 1 and len([x for x in new if x[1] == sig]) == 1:
            ren[n] = m[0][0]
            gone.remove(m[0])
            new = [x for x in new if x[0] != n]
    if len(gone) == len(new):
        ren.update({n[0]: g[0] for n, g in zip(new, gone)})
    return ren


class Rename(ast.NodeTransformer):
    def __init__(self, ren):
        self.ren = ren

    def visit_Name(self, n):
        if n.id in self.ren:
            n.id = self.ren[n.id]
        return n

    def visit_Nonlocal(self, n):
        n.names = [self.ren.get(x, x) for x in n.names]
        return n


def canonical(modname, tree):
    """rename in place; -> [(function, {current: canonical})]"""
    done = []
    t = base().get(modname)
    if not t:
        return done
    for q, n in functions(tree):
        if q not in t:
            continue
        ren = pairing([tuple(x) for x in t[q]], locals_of(n))
        used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {a for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in params(x)} | \
            {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef))} | {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        inner = [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda))]
        bound = {y for x in inner for y in (params(x) + ([z for z, _ in locals_of(x)] if isinstance(x, ast.FunctionDef) else []))}
        ren = {c: b for c, b in ren.items() if b not in used and c not in bound}
        if ren:
            for s in n.body:
                Rename(ren).visit(s)
            done.append((q, ren))
    return done


if __name__ == '__main__':
    import sys
    repo = os.environ.get('VERIF_REPO', '/repo')
    out = {}
    for d, _, fs in os.walk(os.path.join(repo, 'pydatastructs')):
        for f in sorted(fs):
            if f.endswith('.py') and '/tests' not in d:
                p = os.path.join(d, f)
                m = os.path.relpath(p, repo)[:-3].replace('/', '.').replace('.__init__', '')
                x = table(ast.parse(open(p).read()))
                if x:
                    out[m] = x
    json.dump(out, open(PATH, 'w'), indent=0, sort_keys=True)
