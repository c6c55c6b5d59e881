"""Loads the current Python sources of the code under verification."""
import ast
import os
from .names import canonical
from .values import VClass, VFunc, VModule, VOpaque, VBuiltin, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')

BUILTINS = set('''len range int float str bool list tuple dict set min max abs isinstance type enumerate zip
 reversed sorted any all sum hasattr getattr setattr delattr print super object iter next map filter id hash
 ValueError IndexError KeyError TypeError NotImplementedError AttributeError StopIteration Exception
 ord chr NotImplemented RuntimeError ZeroDivisionError round pow isinstance'''.split())

EXC = set('ValueError IndexError KeyError TypeError NotImplementedError AttributeError StopIteration Exception RuntimeError ZeroDivisionError'.split())


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.renamed = canonical(name, self.tree)
        self.defs = {}
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = n
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = (n, i)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    nm = a.asname or a.name.split('.')[0]
                    self.defs[nm] = (n, a)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.clsix = None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.repo, *name.split('.'))
        path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(path):
            self.mods[name] = None
            return None
        m = Module(name, path)
        self.mods[name] = m
        return m

    def resolve_from(self, node, modname):
        base = node.module or ''
        if node.level:
            parts = modname.split('.')
            m = self.module(modname)
            is_pkg = m is not None and m.path.endswith('__init__.py')
            parts = parts if is_pkg and node.level == 1 else parts[:len(parts) - node.level + (1 if is_pkg else 0)]
            base = '.'.join(parts + ([base] if base else []))
        return base

    def import_value(self, node, alias, modname):
        if isinstance(node, ast.Import):
            if alias.asname:
                return VModule(alias.name)
            return VModule(alias.name.split('.')[0])
        base = self.resolve_from(node, modname)
        if not base.startswith('pydatastructs'):
            return self.external(base, alias.name)
        if '_backend' in base:
            return VOpaque('cpp:' + alias.name)
        sub = self.module(base + '.' + alias.name)
        m = self.module(base)
        if m is not None:
            v = self.lookup(m, alias.name)
            if v is not None:
                return v
        if sub is not None:
            return VModule(base + '.' + alias.name)
        raise Unsupported('import %s from %s' % (alias.name, base))

    def external(self, mod, name):
        if mod == 'copy' and name == 'deepcopy':
            return VBuiltin('deepcopy')
        if mod == 'math':
            return VBuiltin('math.' + name)
        if mod == 'collections' and name == 'deque':
            return VBuiltin('deque')
        if mod == 'concurrent.futures':
            return VBuiltin(name)
        if mod == 'copy':
            return VBuiltin(name)
        return VOpaque('ext:%s.%s' % (mod, name))

    def lookup(self, m, name):
        """value of a module-level name, or None; ('expr', node, module) for assigned expressions"""
        d = m.defs.get(name)
        if d is None:
            # star imports / re-exports: search submodules listed by 'from . import x' + __all__.extend
            for n in m.tree.body:
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    mm = self.module(self.resolve_from(n, m.name))
                    if mm is not None:
                        v = self.lookup(mm, name)
                        if v is not None:
                            return v
            return None
        if isinstance(d, ast.FunctionDef):
            return VFunc(d, None, m.name, d.name)
        if isinstance(d, ast.ClassDef):
            return VClass(d.name, m.name, d)
        if isinstance(d, ast.Assign):
            return ('expr', d.value, m.name, None)
        if isinstance(d, tuple) and isinstance(d[0], ast.Assign):
            return ('expr', d[0].value, m.name, d[1])
        if isinstance(d, tuple):
            return self.import_value(d[0], d[1], m.name)
        return None

    # ---------------------------------------------------------------- classes
    def find_class(self, name):
        if self.clsix is None:
            self.clsix = {}
            for root, _, files in os.walk(os.path.join(self.repo, 'pydatastructs')):
                if 'tests' in root or '_backend' in root:
                    continue
                for f in files:
                    if f.endswith('.py') and f != '_extensions.py':
                        rel = os.path.relpath(os.path.join(root, f), self.repo)[:-3].replace(os.sep, '.')
                        if rel.endswith('.__init__'):
                            continue
                        m = self.module(rel)
                        for k, d in m.defs.items():
                            if isinstance(d, ast.ClassDef):
                                self.clsix.setdefault(k, VClass(k, rel, d))
        return self.clsix.get(name)

    def bases(self, c):
        out = []
        m = self.module(c.module)
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                if b.id == 'object':
                    continue
                v = self.lookup(m, b.id)
                if isinstance(v, VClass):
                    out.append(v)
        return out

    def mro(self, c):
        """C3 linearisation"""
        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand.name in [x.name for x in t[1:]] for t in seqs):
                        break
                else:
                    raise Unsupported('mro')
                res.append(cand)
                seqs = [[x for x in s if x.name != cand.name] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        bs = self.bases(c)
        return [c] + merge([self.mro(b) for b in bs] + [bs])

    def class_attr(self, c, name, after=None):
        """(owner class, node) of attribute `name` along the MRO (optionally after class `after`)"""
        skip = after is not None
        for k in self.mro(c):
            if skip:
                if k.name == after:
                    skip = False
                continue
            for n in k.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return k, n
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return k, n
        return None

    def subclass(self, c, name):
        return any(k.name == name for k in self.mro(c))

    def func(self, qual):
        """qual 'pkg.mod:Class.method' or 'pkg.mod:f' -> VFunc"""
        mod, q = qual.split(':')
        m = self.module('pydatastructs.' + mod)
        if m is None:
            raise Unsupported('module %s not found' % mod)
        parts = q.split('.')
        if len(parts) == 1:
            d = m.defs.get(q)
            if not isinstance(d, ast.FunctionDef):
                raise Unsupported('function %s not found' % qual)
            return VFunc(d, None, m.name, q)
        d = m.defs.get(parts[0])
        if not isinstance(d, ast.ClassDef):
            raise Unsupported('class %s not found' % qual)
        for n in d.body:
            if isinstance(n, ast.FunctionDef) and n.name == parts[1]:
                return VFunc(n, None, m.name, q, VClass(parts[0], m.name, d))
        # inherited: follow the MRO
        r = self.class_attr(VClass(parts[0], m.name, d), parts[1])
        if r and isinstance(r[1], ast.FunctionDef):
            return VFunc(r[1], None, r[0].module, r[0].name + '.' + parts[1], r[0])
        raise Unsupported('method %s not found' % qual)
