"""Resolved view of the Python program under /repo.

Parses every module of the package (never imports it), records imports,
module-level bindings, classes with their bases, functions and methods, and
answers name / method-resolution queries.  All rules work on this model, not on
text.
"""
import ast
import builtins
import os
import hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'Cheetah'
SKIP_DIRS = {'Tests', '__pycache__'}


class AnalysisBroken(Exception):
    """An anchor the rule needs is gone, or the source cannot be read."""


class Func(object):
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        q = self.name
        if outer is not None:
            q = outer.qual.split(':', 1)[1] + '.' + q
        elif cls is not None:
            q = cls.name + '.' + q
        self.qual = module.name + ':' + q
        self.decorators = [ast.unparse(d) for d in
                           getattr(node, 'decorator_list', [])]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators

    def loc(self, node=None):
        n = node if node is not None else self.node
        return '%s:%s' % (self.module.path, getattr(n, 'lineno', 0))

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + ':' + node.name
        self.methods = {}
        self.attrs = {}      # name -> value node (class-level assignment)
        self._scan(node.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(st, self.module, cls=self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for name, val in _flat_targets(t, st.value):
                        self.attrs[name] = val
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.If):
                truth = self.module.static_truth(st.test)
                if truth is not False:
                    self._scan(st.body)
                if truth is not True:
                    self._scan(st.orelse)
            elif isinstance(st, (ast.Try,)):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
        # name aliases  x = method
        for k, v in list(self.attrs.items()):
            if isinstance(v, ast.Name) and v.id in self.methods:
                self.methods.setdefault(k, self.methods[v.id])

    def __repr__(self):
        return '<Class %s>' % self.qual


def _flat_targets(t, value):
    if isinstance(t, ast.Name):
        yield t.id, value
    elif isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(value, (ast.Tuple, ast.List)) and \
                len(value.elts) == len(t.elts):
            for a, b in zip(t.elts, value.elts):
                for x in _flat_targets(a, b):
                    yield x
        else:
            for a in t.elts:
                for x in _flat_targets(a, None):
                    yield x


class Module(object):
    def __init__(self, prog, name, path, src):
        self.prog = prog
        self.name = name
        self.path = os.path.relpath(path, REPO)
        self.src = src
        self.tree = ast.parse(src, filename=path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.imports = {}     # local name -> dotted target
        self.star_imports = []
        self.classes = {}
        self.funcs = {}
        self.assigns = {}     # name -> [value nodes]
        self.aug = {}         # name -> [AugAssign]
        self._scan(self.tree.body)

    def static_truth(self, test):
        """Truth of a module-level test fixed by the supported interpreter."""
        if isinstance(test, ast.Name) and test.id == 'PY2':
            return False
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r = self.static_truth(test.operand)
            return None if r is None else (not r)
        if isinstance(test, ast.Compare) and 'sys.version_info' in \
                ast.unparse(test):
            try:
                import sys
                return bool(eval(compile(ast.Expression(test), '', 'eval'),
                                 {'sys': sys, '__builtins__': {}}))
            except Exception:
                return None
        return None

    def _abs(self, module, level):
        if not level:
            return module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([module] if module else []))

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = \
                            a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(st.module, st.level)
                for a in st.names:
                    if a.name == '*':
                        self.star_imports.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n, v in _flat_targets(t, st.value):
                        self.assigns.setdefault(n, []).append(v)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    self.aug.setdefault(st.target.id, []).append(st)
            elif isinstance(st, ast.If):
                truth = self.static_truth(st.test)
                if truth is not False:
                    self._scan(st.body)
                if truth is not True:
                    self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                # the fallback binds last in source order but first in
                # preference: scan handlers before the body
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                self._scan(st.body)


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken('package directory %s missing' % root)
        self.digest = hashlib.sha256()
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                self.digest.update(src.encode())
                try:
                    self.modules[rel] = Module(self, rel, p, src)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (p, e))

    # -- lookups ---------------------------------------------------------
    def mod(self, short):
        m = self.modules.get(PKG + '.' + short) or self.modules.get(short)
        if m is None:
            raise AnalysisBroken('module %s not found' % short)
        return m

    def cls(self, modshort, name):
        r = self.resolve(self.mod(modshort), name)
        if r and r[0] == 'cls':
            return r[1]
        raise AnalysisBroken('class %s.%s not found' % (modshort, name))

    def func(self, modshort, name):
        if '.' in name:
            c, m = name.split('.')
            f = self.find_method(self.cls(modshort, c), m)
            if f:
                return f
        else:
            r = self.resolve(self.mod(modshort), name)
            if r and r[0] == 'fn':
                return r[1]
        raise AnalysisBroken('function %s.%s not found' % (modshort, name))

    def resolve_dotted(self, dotted, depth=0):
        """dotted absolute name -> ('mod',m)|('cls',c)|('fn',f)|('glob',m,n)|
        ('ext',dotted)"""
        if depth > 8:
            return ('ext', dotted)
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                rest = parts[i:]
                m = self.modules[mn]
                if not rest:
                    return ('mod', m)
                r = self.resolve(m, rest[0], depth + 1)
                if r is None:
                    return ('ext', dotted)
                for name in rest[1:]:
                    if r[0] == 'cls':
                        f = self.find_method(r[1], name)
                        if f is None:
                            return ('ext', dotted)
                        r = ('fn', f)
                    elif r[0] == 'mod':
                        r = self.resolve(r[1], name, depth + 1)
                        if r is None:
                            return ('ext', dotted)
                    else:
                        return ('ext', dotted)
                return r
        return ('ext', dotted)

    def resolve(self, module, name, depth=0):
        if depth > 8:
            return None
        if name in module.classes:
            return ('cls', module.classes[name])
        if name in module.funcs:
            return ('fn', module.funcs[name])
        if name in module.assigns:
            vals = module.assigns[name]
            if len(vals) == 1 and isinstance(vals[0], ast.Name) \
                    and vals[0].id != name:
                c = module.classes.get(vals[0].id)
                if c is not None and c.node.lineno > vals[0].lineno and \
                        hasattr(builtins, vals[0].id):
                    return ('ext', 'builtins.' + vals[0].id)
                r = self.resolve(module, vals[0].id, depth + 1)
                if r:
                    return r
            return ('glob', module, name)
        if name in module.imports:
            return self.resolve_dotted(module.imports[name], depth + 1)
        for s in module.star_imports:
            if s in self.modules:
                r = self.resolve(self.modules[s], name, depth + 1)
                if r:
                    return r
        sub = module.name + '.' + name
        if module.is_pkg and sub in self.modules:
            return ('mod', self.modules[sub])
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            if r and r[0] == 'cls':
                out.append(r[1])
        return out

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(module, node.value)
            if r is None:
                return None
            if r[0] == 'mod':
                return self.resolve(r[1], node.attr)
            if r[0] == 'ext':
                return self.resolve_dotted(r[1] + '.' + node.attr)
            if r[0] == 'cls':
                f = self.find_method(r[1], node.attr)
                return ('fn', f) if f else None
        return None

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            for c in self.mro(b):
                if c not in out:
                    out.append(c)
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if cls in self.mro(c):
                    out.append(c)
        return out

    def all_funcs(self):
        """Every function, method and nested function, with its owner."""
        for m in self.modules.values():
            for f in funcs_of(m):
                yield f

    def literal(self, module, name, default=AnalysisBroken):
        """Literal value of a module-level binding (no execution)."""
        vals = module.assigns.get(name)
        if vals and len(vals) == 1 and vals[0] is not None:
            try:
                return lit(vals[0], module, self)
            except ValueError:
                pass
        if default is AnalysisBroken:
            raise AnalysisBroken('no literal %s in %s' % (name, module.name))
        return default


def funcs_of(m):
    def rec(node, cls, outer):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = None
                if cls is not None and outer is None:
                    f = cls.methods.get(ch.name)
                    if f is not None and f.node is not ch:
                        f = None
                if f is None and cls is None and outer is None:
                    f = m.funcs.get(ch.name)
                    if f is not None and f.node is not ch:
                        f = None
                if f is None:
                    f = Func(ch, m, cls=cls if outer is None else None,
                             outer=outer)
                yield f
                for x in rec(ch, None, f):
                    yield x
            elif isinstance(ch, ast.ClassDef):
                c = m.classes.get(ch.name)
                if c is None or c.node is not ch:
                    c = Class(ch, m)
                for x in rec(ch, c, None):
                    yield x
            else:
                for x in rec(ch, cls, outer):
                    yield x
    return rec(m.tree, None, None)


def lit(node, module=None, prog=None, depth=0):
    """Evaluate a literal expression built from constants, containers, +, *
    and references to other literal module constants."""
    if depth > 20:
        raise ValueError
    r = lambda n: lit(n, module, prog, depth + 1)    # noqa: E731
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.Tuple):
        return tuple(r(e) for e in node.elts)
    if isinstance(node, ast.List):
        return [r(e) for e in node.elts]
    if isinstance(node, ast.Set):
        return {r(e) for e in node.elts}
    if isinstance(node, ast.Dict):
        return {r(k): r(v) for k, v in zip(node.keys, node.values)}
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return -r(node.operand)
    if isinstance(node, ast.BinOp):
        a, b = r(node.left), r(node.right)
        if isinstance(node.op, ast.Add):
            return a + b
        if isinstance(node.op, ast.Mult):
            return a * b
        if isinstance(node.op, ast.Mod):
            return a % b
        if isinstance(node.op, ast.Sub):
            return a - b
    if isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Attribute) and not node.keywords and \
                f.attr in ('split', 'strip', 'join', 'lower', 'upper',
                           'replace'):
            base = r(f.value)
            return getattr(base, f.attr)(*[r(a) for a in node.args])
        if isinstance(f, ast.Name) and f.id in (
                'tuple', 'list', 'set', 'frozenset', 'dict', 'sorted') \
                and len(node.args) <= 1:
            a = [r(x) for x in node.args]
            kw = {k.arg: r(k.value) for k in node.keywords}
            return {'tuple': tuple, 'list': list, 'set': set, 'dict': dict,
                    'frozenset': frozenset, 'sorted': sorted}[f.id](*a, **kw)
    if isinstance(node, ast.Name) and module is not None and prog is not None:
        res = prog.resolve(module, node.id)
        if res and res[0] == 'glob':
            vals = res[1].assigns.get(res[2])
            if vals and len(vals) == 1 and vals[0] is not None:
                return lit(vals[0], res[1], prog, depth + 1)
    raise ValueError('not a literal: %s' % ast.dump(node)[:80])
