"""C20: the generated module is complete.

Whole modules are obtained by abstract interpretation of the module, class and
method compilers for every construct and setting; the resulting Python text
(with holes for what is not fixed) is analysed with a definite-assignment
dataflow and against what the runtime classes provide.
"""
import ast
import builtins
import re

from ..absint import (Interp, K, NONE, callee_name, contains, is_const,
                      show, walk)
from ..emit import whole_module, default_settings
from ..model import AnalysisBroken
from ..par import parallel
from ..parse import ParserModel

HOLE = re.compile(r'H\d+_')
LC = '(1, 2)'
NOCACHE = "{'REFRESH_CACHE': None, 'STATIC_CACHE': None, 'interval': None}"
PLACE = ("self.addPlaceholder('VFFSL(SL,\"u_e\",True)', filterArgs=%s, rawPlaceholder='$e', "
         "cacheTokenParts=%s, lineCol=(1, 2), silentMode=%s)")
ONE = PLACE % ("''", NOCACHE, 'False')
TEXT = "self.addStrConst('abc')"


def settings(style, lv):
    return ("class X: pass\nx = X()\nx.LVALUE = %r\nx.OP = '='\n"
            "x.RVALUE = 'u_v'\nself.addSet('%s = u_v', x, %s)"
            % (lv, lv, style))


def region(start, end, inner=ONE):
    return '\n'.join([start, TEXT, inner, end])


def block(start, inner=ONE):
    return '\n'.join([start, TEXT, inner, 'self.commitStrConst()',
                      'self.dedent()'])


def method(name='u_m', args='[]', inner=ONE, close='closeDef'):
    return '\n'.join(["self.startMethodDef(%r, %s, '## c')" % (name, args),
                      TEXT, inner, 'self.%s()' % close])


REGIONS = {
    'cache': ("self.startCacheRegion({'type': 2}, (1, 2))",
              "self.endCacheRegion()"),
    'cache, all arguments': (
        "self.startCacheRegion({'type': 2, 'id': 'u_id', 'test': 'u_t', "
        "'varyBy': 'u_vary', 'interval': 5.0}, (1, 2))",
        "self.endCacheRegion()"),
    'call': ("self.startCallRegion('u_f', 'u_a', (1, 2))",
             "self.endCallRegion()"),
    'call with args': (
        "self.startCallRegion('u_f', '', (1, 2))\n"
        "self.setCallArg('a', (1, 2))\n" + TEXT +
        "\nself.setCallArg('b', (1, 2))", "self.endCallRegion()"),
    'call with arguments and args': (
        "self.startCallRegion('u_f', 'u_a=1', (1, 2))\n"
        "self.setCallArg('a', (1, 2))", "self.endCallRegion()"),
    'capture': ("self.startCaptureRegion('cap', (1, 2))",
                "self.endCaptureRegion()"),
    'filter by name': ("self.setFilter('WebSafe', False)",
                       "self.closeFilterBlock()"),
    'filter none': ("self.setFilter('None', False)",
                    "self.closeFilterBlock()"),
    'filter class': ("self.setFilter('u_Filter', True)",
                     "self.closeFilterBlock()"),
}


def constructs():
    out = {
        'text': TEXT,
        'nothing': 'pass',
        'raw': "self.addRawText('abc')",
        'placeholder': ONE,
        'placeholder, arguments': PLACE % ("', u_k=1'", NOCACHE, 'False'),
        'silent placeholder': PLACE % ("''", NOCACHE, 'True'),
        'static placeholder': PLACE % (
            "''", "{'REFRESH_CACHE': None, 'STATIC_CACHE': '*', "
            "'interval': None}", 'False'),
        'refreshing placeholder': PLACE % (
            "''", "{'REFRESH_CACHE': '*5m*', 'STATIC_CACHE': None, "
            "'interval': '5m'}", 'False'),
        'echo': "self.addEcho('u_e', '$e')",
        'silent': "self.addSilent('u_e')",
        'set': settings('0', 'u_x'),
        'set global': settings('SET_GLOBAL', 'u_x.y'),
        'set module': settings('SET_MODULE', 'u_x'),
        'include file': "self.addInclude('u_f', 'file', False)",
        'include raw source': "self.addInclude('u_f', 'str', True)",
        'while': block("self.addWhile('while u_c', (1, 2))",
                       "self.addBreak('break')\nself.addContinue('continue')"),
        'for': block("self.addFor('for u_i in u_l', (1, 2))"),
        'repeat': block("self.addRepeat('u_n', (1, 2))",
                        block("self.addRepeat('u_n', (1, 2))")),
        'if': block("self.addIf('if u_c', (1, 2))", ONE +
                    "\nself.addElif('elif u_d', True, (1, 2))\n" + TEXT +
                    "\nself.addElse('else', True, (1, 2))\n" + ONE),
        'unless': block("self.addUnless('u_c', (1, 2))"),
        'if then else': "self.addTernaryExpr('if u_c', 'u_a', 'u_b', (1, 2))",
        'closure': block("self.addClosure('u_f', [('u_a', None), "
                         "('u_b', '1')], '## c')"),
        'try': block("self.addTry('try', (1, 2))", ONE +
                     "\nself.addExcept('except u_E', True, (1, 2))\n" + TEXT +
                     "\nself.addFinally('finally', True, (1, 2))\n" + ONE),
        'return': "self.addReturn('return u_e')",
        'yield value': "self.addYield('yield u_e')",
        'yield': TEXT + "\nself.addYield('yield')\n" + ONE,
        'pass': "self.addPass('pass')",
        'del': "self.addDel('del u_x')",
        'assert': "self.addAssert('assert u_x')",
        'raise': "self.addRaise('raise u_x')",
        'stop': TEXT + "\nself.addStop()\n" + TEXT,
        'psp': "self.addPSP('u_f()')",
        'psp value': "self.addPSP('=u_e')",
        'name mapper off after a placeholder': ONE +
        "\nself.setSetting('useNameMapper', False)",
        'name mapper on after text': "self.setSetting('useNameMapper', False)"
        "\n" + TEXT + "\nself.setSetting('useNameMapper', True)\n" + ONE,
        'filters off after a placeholder': ONE +
        "\nself.setSetting('useFilters', False)\n" + ONE,
        'errorCatcher': "self.setErrorCatcher('Echo')\n" + ONE,
        'transform': "self.setTransform('u_t', False)\n" + ONE,
        'transform class': "self.setTransform('u_t', True)\n" + ONE,
        'def': method() + '\n' + ONE,
        'def with arguments': method(
            args="[('u_a', None), ('u_b', '1'), ('*u_c', None), "
            "('**u_d', None)]"),
        'def with trans': method(args="[('trans', None)]"),
        'class method': "self.addDecorator('@classmethod')\n" + method(),
        'static method': "self.addDecorator('@staticmethod')\n" + method(),
        'decorated': "self.addDecorator('@u_dec')\n" + method(),
        'def in def': method(inner=method('u_n')),
        'block': method(close='closeBlock'),
        'block in block': method(inner=method('u_n', close='closeBlock'),
                                 close='closeBlock'),
        'generator def': method(inner="self.addYield('yield')"),
        'def with return': method(inner="self.addReturn('return u_x')"),
        'super': method(inner="self.addSuper([('u_a', None)])"),
        'attr': "self.addAttribute('u_x', ' 1')",
        'extends': "self.setBaseClass('u_Base')\n" + method(),
        'extends from package': "self.setBaseClass('u_pkg.u_Base')",
        'extends imported': "self.addImportStatement('import u_pkg')\n"
                            "self.setBaseClass('u_pkg.u_Base')",
        'extends class imported': "self.addImportStatement("
                                  "'from u_pkg import u_Base')\n"
                                  "self.setBaseClass('u_Base')",
        'extends two': "self.setBaseClass('u_A, u_B')",
        'extends object': "self.setBaseClass('object')",
        'implements': "self.setMainMethodName('u_meth')\n"
                      "self.setMainMethodArgs([('u_a', None)])",
        'import': "self.addImportStatement('import u_mod')",
        'comment': "self.addComment('hello')",
        'shbang': "self.setShBang('#!/bin/x')",
        'encoding': "self.setModuleEncoding('utf-8')",
    }
    for k, (a, b) in REGIONS.items():
        out[k] = region(a, b)
    for k, args in SHAPES.items():
        out['def(%s)' % k] = method(args=args)
        out['static method(%s)' % k] = \
            "self.addDecorator('@staticmethod')\n" + method(args=args)
        out['class method(%s)' % k] = \
            "self.addDecorator('@classmethod')\n" + method(args=args)
        out['block(%s)' % k] = method(args=args, close='closeBlock')
        out['implements(%s)' % k] = \
            "self.setMainMethodName('u_meth')\n" \
            "self.setMainMethodArgs(%s)\n%s" % (args, ONE)
        out['closure(%s)' % k] = block(
            "self.addClosure('u_f', %s, '## c')" % args)
    return out


SHAPES = {
    'u_a': "[('u_a', None)]",
    'u_a=1': "[('u_a', '1')]",
    '*u_c': "[('*u_c', None)]",
    '**u_d': "[('**u_d', None)]",
    '*u_c, **u_d': "[('*u_c', None), ('**u_d', None)]",
    'u_a, *u_c': "[('u_a', None), ('*u_c', None)]",
    'u_a=1, **u_d': "[('u_a', '1'), ('**u_d', None)]",
    'searchList': "[('searchList', None)]",
    'SL': "[('SL', None)]",
    'trans=None, **u_d': "[('trans', 'None'), ('**u_d', None)]",
}


def nestings():
    out = {}
    for k, (a, b) in REGIONS.items():
        for k2, (a2, b2) in REGIONS.items():
            out['%s in %s' % (k2, k)] = region(a, b, region(a2, b2))
        out['%s in if' % k] = block("self.addIf('if u_c', (1, 2))",
                                    region(a, b))
        out['%s in for' % k] = block("self.addFor('for u_i in u_l', (1, 2))",
                                     region(a, b))
        out['%s in def' % k] = method(inner=region(a, b))
        out['%s twice' % k] = region(a, b) + '\n' + region(a, b)
    return out


# ---------------------------------------------------------------- scopes

class Unbound(Exception):
    pass


class Scope(object):
    """Definite assignment of one function body; a state is a pair of the
    names bound and the conditions known (so that tests of the same flag are
    correlated); None stands for an unreachable point."""

    def __init__(self, node, outer, report):
        self.node = node
        self.outer = outer          # names visible from outside
        self.report = report
        a = node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.params.add(x.arg)
        self.locals = set(self.params)
        self.globals = set()
        self.collect(node.body)
        self.locals -= self.globals
        self.loops = []
        self.handlers = []
        self.uses = 0

    def collect(self, stmts):
        for s in stmts:
            for n in self.walk(s):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    self.locals.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.locals.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        self.locals.add((al.asname or al.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.locals.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    self.globals |= set(n.names)

    @staticmethod
    def walk(n):
        todo = [n]
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)) and x is not n:
                continue
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(x))

    def run(self):
        self.flow(self.node.body, {(frozenset(self.params), frozenset())})

    # -- expressions
    def use(self, e, states):
        todo = [(e, frozenset())]
        while todo:
            n, inner = todo.pop()
            if n is None:
                continue
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id not in inner:
                    self.name(n, states)
                continue
            if isinstance(n, ast.Lambda):
                a = n.args
                mine = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs
                        + [x for x in (a.vararg, a.kwarg) if x]}
                todo.append((n.body, inner | mine))
                todo += [(x, inner) for x in a.defaults + a.kw_defaults]
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                              ast.DictComp)):
                mine = set()
                for g in n.generators:
                    mine |= {x.id for x in ast.walk(g.target)
                             if isinstance(x, ast.Name)}
                inner = inner | mine
            todo += [(x, inner) for x in ast.iter_child_nodes(n)]

    def name(self, n, states):
        self.uses += 1
        nm = n.id
        if nm in self.locals:
            for b, c in states:
                if nm not in b and not nm.startswith('u_'):
                    self.report(n, nm, 'is not bound on every path to its '
                                'use')
                    break
        elif not self.outer(nm):
            self.report(n, nm, 'is bound nowhere')

    @staticmethod
    def bind(states, names):
        out = set()
        for b, c in states:
            out.add((b | frozenset(names), frozenset(
                x for x in c if not (x[2] & set(names)))))
        return out

    @staticmethod
    def unbind(states, names):
        return {(b - frozenset(names), frozenset(
            x for x in c if not (x[2] & set(names)))) for b, c in states}

    @staticmethod
    def attrs(states, attrs):
        """Assignments to attributes end what was known about them."""
        attrs = set(attrs)
        return {(b, frozenset(x for x in c if not (x[2] & attrs)))
                for b, c in states}

    @staticmethod
    def targets(t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)
                and isinstance(n.ctx, (ast.Store, ast.Del))]

    def assume(self, states, test, val):
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        v = val != neg
        if isinstance(test, ast.Constant):
            return states if bool(test.value) == v else set()
        if not isinstance(test, (ast.Name, ast.Attribute)):
            return states
        key = ast.dump(test)
        deps = frozenset(
            [n.id for n in ast.walk(test) if isinstance(n, ast.Name)]
            + ['.' + n.attr for n in ast.walk(test)
               if isinstance(n, ast.Attribute)])
        out = set()
        for b, c in states:
            old = [x for x in c if x[0] == key]
            if old:
                if old[0][1] == v:
                    out.add((b, c))
                continue
            out.add((b, c | {(key, v, deps)}))
        return out

    def known(self, states, target, value):
        """flag = True"""
        if isinstance(target, ast.Name) and isinstance(
                value, ast.Constant) and isinstance(value.value, bool):
            t = ast.Name(id=target.id, ctx=ast.Load())
            return self.assume(states, t, value.value)
        return states

    # -- statements
    def flow(self, stmts, states):
        for s in stmts:
            if not states:
                return states
            if self.handlers:
                self.handlers[-1] |= states
            states = self.stmt(s, states)
            if self.handlers:
                self.handlers[-1] |= states
        return states

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            self.use(s.value, st)
            return st
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.use(t, st)
            for t in s.targets:
                st = self.bind(st, self.targets(t))
                st = self.attrs(st, ['.' + n.attr for n in ast.walk(t)
                                     if isinstance(n, ast.Attribute)
                                     and isinstance(n.ctx, ast.Store)])
                st = self.known(st, t, s.value)
            return st
        if isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                self.name(ast.copy_location(ast.Name(
                    id=s.target.id, ctx=ast.Load()), s.target), st)
            return self.bind(st, self.targets(s.target))
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.name(ast.copy_location(ast.Name(
                        id=t.id, ctx=ast.Load()), t), st)
                else:
                    self.use(t, st)
                st = self.unbind(st, self.targets(t))
            return st
        if isinstance(s, ast.If):
            self.use(s.test, st)
            return self.flow(s.body, self.assume(st, s.test, True)) | \
                self.flow(s.orelse, self.assume(st, s.test, False))
        if isinstance(s, (ast.For, ast.While)):
            test = s.iter if isinstance(s, ast.For) else s.test
            seen = set()
            new = set(st)
            brk = set()
            while new - seen:
                seen |= new
                self.use(test, seen)
                body = seen
                if isinstance(s, ast.For):
                    body = self.bind(seen, self.targets(s.target))
                self.loops.append((set(), set()))
                end = self.flow(s.body, body)
                b, c = self.loops.pop()
                brk |= b
                new = end | c
            return self.flow(s.orelse, seen) | brk
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0].update(st)
            return set()
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1].update(st)
            return set()
        if isinstance(s, ast.Return):
            self.use(s.value, st)
            return set()
        if isinstance(s, ast.Raise):
            self.use(s.exc, st)
            self.use(s.cause, st)
            return set()
        if isinstance(s, ast.Try):
            self.handlers.append(set())
            end = self.flow(s.body, st)
            exc = self.handlers.pop() | st
            end = self.flow(s.orelse, end)
            after = set(exc)
            for h in s.handlers:
                self.use(h.type, exc)
                b = self.bind(exc, [h.name]) if h.name else exc
                r = self.flow(h.body, b)
                after |= r
                end = end | (self.unbind(r, [h.name]) if h.name else r)
            if s.finalbody:
                self.flow(s.finalbody, after | end)
                end = self.flow(s.finalbody, end)
            return end
        if isinstance(s, ast.With):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.bind(st, self.targets(i.optional_vars))
            return self.flow(s.body, st)
        if isinstance(s, ast.FunctionDef):
            for d in s.decorator_list + s.args.defaults + [
                    x for x in s.args.kw_defaults if x is not None]:
                self.use(d, st)
            st = self.bind(st, [s.name])
            inner = Scope(s, lambda nm: nm in self.locals or self.outer(nm),
                          self.report)
            inner.run()
            self.uses += inner.uses
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind(st, [(a.asname or a.name).split('.')[0]
                                  for a in s.names])
        if isinstance(s, ast.Assert):
            self.use(s.test, st)
            self.use(s.msg, st)
            return self.assume(st, s.test, True)
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return st
        if isinstance(s, ast.ClassDef):
            return self.bind(st, [s.name])
        if isinstance(s, ast.AnnAssign):
            self.use(s.value, st)
            return self.bind(st, self.targets(s.target))
        raise AnalysisBroken('generated statement not understood: %s'
                             % type(s).__name__)


# ---------------------------------------------------------------- modules

def exported(prog, modname):
    """Names a `from M import *` of a library module binds."""
    m = prog.mod(modname)
    out = set(m.assigns) | set(m.funcs) | set(m.classes)
    for n in m.tree.body:
        for x in ast.walk(n):
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in x.names}
    allv = m.assigns.get('__all__')
    if allv:
        try:
            return set(ast.literal_eval(allv[0]))
        except ValueError:
            pass
    return {x for x in out if not x.startswith('_')}


def has_name(prog, modname, nm):
    m = prog.mod(modname)
    if nm in m.assigns or nm in m.funcs or nm in m.classes:
        return True
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            if nm in {(a.asname or a.name).split('.')[0] for a in x.names}:
                return True
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and \
                x.id == nm:
            return True
    return False


BUILTIN = set(dir(builtins)) | {'__name__', '__file__', '__doc__', '__builtins__',
                                '__spec__', '__package__'}


class ModuleText(object):
    """Checks one generated module."""

    def __init__(self, prog, text, holes):
        self.prog = prog
        self.text = text
        self.holes = holes
        self.problems = []
        self.uses = 0
        self.self_attrs = {}
        self.module_attrs = {}
        self.cls = None
        try:
            self.tree = ast.parse(text)
        except SyntaxError as e:
            line = text.split('\n')[(e.lineno or 1) - 1]
            self.problems.append(('parses', '%s: %s' % (e.msg, line.strip())))
            self.tree = None
            return
        self.package = None
        self.bound = set()
        self.ever = set()
        self.top(self.tree.body)

    def bad(self, rule, what):
        if (rule, what) not in self.problems:
            self.problems.append((rule, what))

    def lib(self, mod):
        """'H0_.Version' -> library module name."""
        head, _, tail = (mod or '').partition('.')
        if head in self.holes or head == 'Cheetah':
            return tail
        return None

    def binds(self, s):
        out = set()
        if isinstance(s, ast.Import):
            for a in s.names:
                out.add(a.asname or a.name.split('.')[0])
                l = self.lib(a.name)
                if l:
                    try:
                        self.prog.mod(l)
                    except (AnalysisBroken, KeyError):
                        self.bad('names', 'import of %s, which does not exist'
                                 % l)
                        continue
                    self.module_attrs[a.asname or a.name] = l
        elif isinstance(s, ast.ImportFrom):
            l = self.lib(s.module)
            for a in s.names:
                if a.name == '*':
                    if l:
                        out |= exported(self.prog, l)
                    continue
                out.add(a.asname or a.name)
                if l:
                    try:
                        ok = has_name(self.prog, l, a.name)
                    except (AnalysisBroken, KeyError):
                        ok = False
                    if not ok:
                        self.bad('names', '%s is imported from %s, which does '
                                 'not have it' % (a.name, l))
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                out |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)
                        and isinstance(n.ctx, ast.Store)}
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
        return out

    def top(self, body):
        for s in body:
            if isinstance(s, ast.Try):
                self.top(s.body)
                for h in s.handlers:
                    self.expr(h.type)
                    self.top(h.body)
                self.top(s.orelse + s.finalbody)
            elif isinstance(s, ast.If):
                self.expr(s.test)
                self.top(s.body)
                self.top(s.orelse)
            elif isinstance(s, ast.ClassDef):
                for b in s.bases + s.decorator_list:
                    self.expr(b)
                self.cls = s
                self.bound.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self.bound |= self.binds(s)
            elif isinstance(s, ast.Assign):
                self.expr(s.value)
                self.bound |= self.binds(s)
            elif isinstance(s, ast.Raise):
                self.expr(s.exc)
            elif isinstance(s, ast.Expr):
                self.expr(s.value)
            elif isinstance(s, ast.Pass):
                pass
            else:
                raise AnalysisBroken('generated module statement not '
                                     'understood: %s' % type(s).__name__)
        if body is self.tree.body and self.cls is not None:
            self.klass(self.cls)

    def is_global(self, nm):
        return nm in self.bound or nm in BUILTIN or nm.startswith('u_') or \
            nm in self.holes or (nm[:1] in 'HR' and nm[-1:] == '_')

    def expr(self, e):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.uses += 1
                if not self.is_global(n.id):
                    self.bad('names', '%s is used at module level before it '
                             'is bound' % n.id)

    def report(self, n, nm, why):
        line = self.text.split('\n')[n.lineno - 1].strip()
        self.bad('names', '%s %s: %s' % (nm, why, line))

    def klass(self, c):
        self.names = {}
        local = set()
        for s in c.body:
            if isinstance(s, ast.FunctionDef):
                for d in s.decorator_list + s.args.defaults:
                    self.class_expr(d, local)
                sc = Scope(s, self.is_global, self.report)
                sc.run()
                self.uses += sc.uses
                self.names.setdefault(s.name, []).append(s)
                local.add(s.name)
                first = (s.args.posonlyargs + s.args.args)[:1]
                static = any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                             for d in s.decorator_list)
                if first and not static:
                    self.attributes(s, first[0].arg)
            elif isinstance(s, ast.Assign):
                self.class_expr(s.value, local)
                for nm in self.binds(s):
                    self.names.setdefault(nm, []).append(s)
                    local.add(nm)
            elif isinstance(s, (ast.Expr, ast.Pass)):
                pass
            else:
                raise AnalysisBroken('generated class statement not '
                                     'understood: %s' % type(s).__name__)
        for n in ast.walk(c):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id in self.module_attrs \
                    and not n.attr.startswith('u_'):
                if not has_name(self.prog, self.module_attrs[n.value.id],
                                n.attr):
                    self.bad('names', '%s.%s does not exist' % (n.value.id,
                                                                n.attr))

    def class_expr(self, e, local):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.uses += 1
                if n.id not in local and not self.is_global(n.id):
                    self.bad('names', '%s is used in the class body before it '
                             'is bound' % n.id)

    def attributes(self, f, me):
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                    and n.value.id == me and not n.attr.startswith('u_'):
                d = self.self_attrs.setdefault(n.attr, set())
                d.add('load' if isinstance(n.ctx, ast.Load) else 'store')


# ---------------------------------------------------------------- plumbing

class Plumbing(object):
    """What an instance has, by its kind of base class."""

    def __init__(self, prog):
        self.prog = prog
        t = prog.cls('Template', 'Template')
        self.template = t
        self.full = set()
        for c in prog.mro(t):
            self.full |= set(c.methods) | set(c.attrs)
            for m in c.methods.values():
                if m.name in ('__init__', '_initCheetahInstance'):
                    self.full |= self.assigned(m)
        lists = {}
        for nm in ('Methods', 'ClassMethods', 'ClassAttributes'):
            k, node = prog.find_attr(t, '_CHEETAH_requiredCheetah' + nm)
            try:
                lists[nm] = list(ast.literal_eval(node))
            except (ValueError, TypeError):
                raise AnalysisBroken('list of required members not understood')
        self.methods = lists['Methods'] + lists['ClassMethods']
        self.added = set(self.methods) | {
            '_CHEETAH_' + a for a in lists['ClassAttributes']}
        init = prog.find_method(t, '_initCheetahInstance')
        if '_initCheetahInstance' in self.added:
            self.added |= self.assigned(init)
        self.added |= set(dir(object)) | {'__class__', '__dict__'}
        self.lists = lists

    def assigned(self, f):
        me = f.node.args.args[0].arg
        out = set()
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            me = g.node.args.args[0].arg if g.node.args.args else None
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    h = self.prog.find_method(self.template, n.attr)
                    if h is not None and isinstance(n.ctx, ast.Load):
                        todo.append(h)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'setattr' and \
                        len(n.args) == 3 and isinstance(
                            n.args[0], ast.Name) and n.args[0].id == me and \
                        isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
        return out



def c20(ctx):
    ctx.rule('parses', 'the generated module is valid Python', 60)
    ctx.rule('names', 'every name that generated code uses is bound on every '
             'path to its use: a local, a module global bound before, a '
             'builtin or a name the template supplied', 60)
    ctx.rule('attributes', 'every attribute of self that generated code uses '
             'exists, whatever class the template extends', 60)
    ctx.rule('structure', 'the class has a constructor that initialises base '
             'and template, each declared method once, and names its main '
             'method', 60)
    ctx.rule('plumbing', 'a class that does not derive from Template is given '
             'every required method and attribute, and those methods use '
             'nothing else', 20)
    prog = ctx.prog
    d = default_settings(prog)
    pl = Plumbing(prog)
    plumbing(ctx, prog, pl)
    cs = constructs()
    ns = nestings() if ctx.thorough else {
        k: v for i, (k, v) in enumerate(sorted(nestings().items()))
        if ' in def' in k or ' twice' in k or i % 4 == 0}
    jobs = [(k, body, d, None, None, k in cs)
            for k, body in sorted(cs.items()) + sorted(ns.items())]
    for v in (False, True):
        jobs.append(('source file, monitorSrcFile=%s' % v, TEXT,
                     dict(d, monitorSrcFile=v), 'f.tmpl', None, False))
    jobs.append(('base class argument', TEXT, d, None, 'u_Base', False))

    def work(job):
        """All results for one construct, with every setting it reads."""
        k, body, fixed, file, base, flip = job
        probs, used = one(prog, pl, k, body, fixed, file, base)
        out = [(k, probs)]
        for nm in sorted(used) if flip else ():
            v = d.get(nm)
            if isinstance(v, bool):
                f = dict(d)
                f[nm] = not v
                k2 = '%s, %s=%s' % (k, nm, not v)
                out.append((k2, one(prog, pl, k2, body, f)[0]))
        return out
    for res in parallel(work, jobs):
        for name, probs in res:
            ctx.unit('generated module', name)
            for rule in ('parses', 'names', 'attributes', 'structure'):
                bad = [w for r, w in probs if r == rule]
                if rule == 'attributes' and bad:
                    for w in bad:
                        ctx.ob(rule, '%s: %s' % (name, w.split()[0]), LOC,
                               False, w)
                    continue
                ctx.ob(rule, name, LOC, not bad, '; '.join(bad[:3]))


LOC = 'Cheetah/Compiler.py'


def one(prog, pl, name, body, fixed, file=None, base=None):
    used = set()
    if not fixed.get('useNameMapper', True):
        body = body.replace('VFFSL(SL,"u_e",True)', 'u_e')

    def hook(it, fn, args, kw, st, n):
        if args and is_const(args[0]) and fn[0] in ('bound', 'attr', 'fn') \
                and callee_name(('call', fn, (), (), None)) == 'get':
            used.add(args[0][2])
        return None
    it, out = whole_module(prog, body, fixed=fixed, file=file, base=base,
                           hook=hook, spy=used)
    probs = {}
    if not out:
        raise AnalysisBroken('no module generated for %s' % name)
    for text, holes, st in out:
        if text is None:
            probs.setdefault(('parses', 'generating it fails with %s' % show(
                st.val)[:160]), None)
            continue
        m = ModuleText(prog, text, holes)
        if m.tree is None and HOLE.search(m.problems[0][1]):
            continue            # not determined by the interpretation
        for p in m.problems:
            probs.setdefault(p, None)
        if m.tree is None:
            continue
        for p in attributes(m, pl) + structure(m, name, body):
            probs.setdefault(p, None)
    return list(probs), used


def attributes(m, pl):
    out = []
    if m.cls is None:
        return [('structure', 'no class is generated')]
    stored = {a for a, how in m.self_attrs.items() if 'store' in how}
    init = m.names.get('__init__')
    set_in_init = set()
    if init:
        set_in_init = {n.attr for n in ast.walk(init[0])
                       if isinstance(n, ast.Attribute) and isinstance(
                           n.ctx, ast.Store)}
    is_template = any(isinstance(b, ast.Name) and b.id == 'Template'
                      for b in m.cls.bases)
    have = set(m.names) | set_in_init | (
        pl.full if is_template else pl.added)
    for a, how in sorted(m.self_attrs.items()):
        if 'load' not in how or a in have:
            continue
        out.append(('attributes', 'self.%s is used but %s' % (
            a, 'the class does not have it' if is_template else
            'a class that does not derive from Template does not have it')))
    # what a template base has, another base must have too
    for a, how in sorted(m.self_attrs.items()):
        if 'load' in how and is_template and a in have and \
                a not in pl.added and a not in m.names and \
                a not in set_in_init:
            out.append(('attributes', 'self.%s is used but classes that do '
                        'not derive from Template are not given it' % a))
    return out


def declared(body):
    """Methods that the driver declares, with how often."""
    import re
    out = {}
    for m in re.finditer(r"startMethodDef\('([^']*)'", body):
        out[m.group(1)] = out.get(m.group(1), 0) + 1
    return out


def structure(m, name, body):
    out = []
    for nm in declared(body):
        k = m.names.get(nm, [])
        if len(k) != 1:
            out.append(('structure', '%s is defined %d times' % (nm, len(k))))
    for nm, k in m.names.items():
        if len(k) > 1:
            out.append(('structure', '%s is defined %d times' % (nm, len(k))))
    init = m.names.get('__init__')
    if not init or not isinstance(init[0], ast.FunctionDef):
        out.append(('structure', 'there is no constructor'))
    else:
        f = init[0]
        calls = [n for n in ast.walk(f) if isinstance(n, ast.Call)
                 and isinstance(n.func, ast.Attribute)]
        base = [c for c in calls if c.func.attr == '__init__']
        if not any([isinstance(a, ast.Starred) for a in c.args] == [True]
                   and [k.arg for k in c.keywords] == [None] for c in base):
            out.append(('structure', 'the constructor of the base class is '
                        'not called with the arguments given'))
        mine = [c for c in calls if c.func.attr == '_initCheetahInstance']
        if len(mine) != 1:
            out.append(('structure', 'the instance is not initialised'))
        else:
            guards = [n for n in ast.walk(f) if isinstance(n, ast.If)
                      and any(x is mine[0] for x in ast.walk(n))]
            for g in guards:
                if 'instanceInitialized' not in ast.dump(g.test):
                    out.append(('structure', 'the instance is initialised '
                                'only if %s' % ast.unparse(g.test)))
    main = [k for k in m.names if k.startswith('_mainCheetahMethod_for_')]
    if main != ['_mainCheetahMethod_for_K']:
        out.append(('structure', 'the main method is not recorded'))
    else:
        v = m.names[main[0]][0].value
        if not isinstance(v, ast.Constant) or not isinstance(
                v.value, str) or v.value not in m.names or not isinstance(
                    m.names[v.value][0], ast.FunctionDef):
            out.append(('structure', 'the main method %s is not a method of '
                        'the class' % ast.unparse(v)))
    return out


def plumbing(ctx, prog, pl):
    t = pl.template
    for nm in pl.methods:
        f = prog.find_method(t, nm)
        loc = '%s:%d' % (t.module.path, t.node.lineno)
        if f is None:
            ctx.ob('plumbing', nm, loc, False,
                   '%s is required but does not exist' % nm)
            continue
        me = f.node.args.args[0].arg
        guarded = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ('hasattr', 'getattr') and len(
                        n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                guarded.add(n.args[1].value)
        bad = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id == me and isinstance(
                        n.ctx, ast.Load) and n.attr not in pl.added and \
                    n.attr not in guarded and n.attr not in WEB:
                bad.add(n.attr)
        ctx.ob('plumbing', nm, '%s:%d' % (f.module.path, f.node.lineno),
               not bad, '%s uses self.%s, which a class that does not derive '
               'from Template is not given' % (nm, ', self.'.join(sorted(bad))))
    f = prog.find_method(t, '_addCheetahPlumbingCodeToClass')
    if f is None:
        raise AnalysisBroken('_addCheetahPlumbingCodeToClass missing')
    loc = '%s:%d' % (f.module.path, f.node.lineno)
    klass = ('cls', t.qual)
    target = ('var', 'concrete')
    a = [x.arg for x in f.node.args.args]
    n = max(len(v) for v in pl.lists.values())
    for i in range(0, n, 2):
        some = {k: v[i:i + 2] for k, v in pl.lists.items()}
        for have in (False, True):
            given(ctx, prog, f, klass, target, a, some, have, loc)


def given(ctx, prog, f, klass, target, a, lists, have, loc):
    """The plumbing code for some of the required names, on a class that has
    none or all of them."""
    heap = {(klass, '_CHEETAH_requiredCheetah' + k):
            ('tup', tuple(K(x) for x in v)) for k, v in lists.items()}

    def hook(it, fn, args, kw, st, n):
        if fn == ('bi', 'hasattr') and args and args[0] == target:
            return [(st, K(have))]
        return None
    it = Interp(prog, hook=hook, loop_max=4, depth=2, max_states=20000)
    states = it.run(f, args={a[0]: klass, a[1]: target}, init={'heap': heap})
    ok, why = True, ''
    want = set(lists['Methods']) | set(lists['ClassMethods']) | {
        '_CHEETAH_' + x for x in lists['ClassAttributes']}
    if not states:
        raise AnalysisBroken('no path through the plumbing code')
    for s in states:
        got = {}
        for e in s.events:
            if e.kind == 'setattr' and e.term[1] == target:
                got[e.term[2]] = e.x
        if not have:
            miss = sorted(want - set(got))
            if miss:
                ok, why = False, 'a class without it is not given %s' \
                    % ', '.join(miss[:4])
            for nm in sorted(want & set(got)):
                if not mentions(got[nm], nm):
                    ok, why = False, '%s is given as %s' % (
                        nm, show(got[nm])[:80])
        else:
            over = sorted(want & set(got))
            if over:
                ok, why = False, 'a class that has %s (its own or a base ' \
                    'class\'s) loses it' % ', '.join(over[:4])
    ctx.ob('plumbing', '%s %s' % ('class with' if have else 'class without',
                                  ', '.join(sorted(want))), loc, ok, why)


WEB = {'request'}       # documented: web applications only


def mentions(t, nm):
    return contains(t, lambda x: (x[0] in ('attr',) and x[2] == nm) or (
        x[0] == 'const' and x[2] == nm) or (
            x[0] in ('fn', 'bound') and str(x[-1] if x[0] == 'bound' else
                                            x[1]).split('.')[-1] == nm))



# ---------------------------------------------------------------- definitions

def mark(n):
    return "self.addChunk('M_%s()')" % n


def lines(*a):
    return '\n'.join(a)


def mdef(name, args='[]', body=(), close='closeDef'):
    return lines("self.startMethodDef(%r, %s, '## c')" % (name, args),
                 *(list(body) + ['self.%s()' % close]))


def marks(stmts):
    """Markers and other statements of a body, in order."""
    out = []
    for s in stmts:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Name) and \
                s.value.func.id.startswith('M_'):
            out.append(s.value.func.id[2:])
        else:
            out.append(ast.unparse(s))
    return out


def between(m, where, first, last):
    """Statements from marker `first` to marker `last` in a method."""
    k = m.names.get(where)
    if not k or not isinstance(k[0], ast.FunctionDef):
        return None
    seq = marks(k[0].body)
    if first not in seq or last not in seq:
        return None
    return seq[seq.index(first):seq.index(last) + 1]


def home(m, marker):
    """The methods (or class or module) that contain a marker."""
    out = []
    for n in m.tree.body:
        if isinstance(n, ast.ClassDef):
            for x in n.body:
                if any(isinstance(y, ast.Name) and y.id == 'M_' + marker
                       for y in ast.walk(x)):
                    out.append(getattr(x, 'name', 'class'))
        elif any(isinstance(y, ast.Name) and y.id == 'M_' + marker
                 for y in ast.walk(n)):
            out.append('module')
    return out


def arguments(f):
    """Declared arguments as text, without self/cls and the ones added."""
    a = f.args
    out = []
    pos = a.posonlyargs + a.args
    dfl = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    for x, d in zip(pos, dfl):
        if x.arg in ('self', 'cls', 'trans'):
            continue
        out.append(x.arg + ('' if d is None else '=' + ast.unparse(d)))
    if a.vararg:
        out.append('*' + a.vararg.arg)
    if a.kwarg and a.kwarg.arg != 'KWS':
        out.append('**' + a.kwarg.arg)
    return out


def module_binds(m, nm, before_class=True):
    """Statements at module level that bind a name (before the class)."""
    out = []
    for s in m.tree.body:
        if before_class and isinstance(s, ast.ClassDef):
            break
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if (a.asname or a.name).split('.')[0] == nm or \
                        (a.asname or a.name) == nm:
                    out.append(ast.unparse(s))
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name) and t.id == nm:
                    out.append(ast.unparse(s))
    return out


class Defs(object):
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.d = default_settings(prog)

    def run(self, name, body, check, **fixed):
        f = dict(self.d)
        f.update(fixed)
        it, out = whole_module(self.prog, body, fixed=f)
        if not out:
            raise AnalysisBroken('no module generated for %s' % name)
        self.ctx.unit('generated module', name)
        res = {}
        for text, holes, st in out:
            if text is None:
                res.setdefault(('defs', 'generating it fails with %s'
                                % show(st.val)[:120]), 0)
                continue
            m = ModuleText(self.prog, text, holes)
            if m.tree is None and HOLE.search(m.problems[0][1]):
                continue        # not determined by the interpretation
            if m.tree is None or m.cls is None:
                res.setdefault(('defs', 'invalid: %s' % m.problems[:1]), 0)
                continue
            for r in check(m):
                res.setdefault(r, 0)
        return list(res)

    def ob(self, rule, name, body, check, **fixed):
        bad = self.run(name, body, check, **fixed)
        self.ctx.ob(rule, name, LOC, not bad,
                    '; '.join(sorted({b if isinstance(b, str) else b[1]
                                      for b in bad}))[:300])


def eq(what, got, want):
    return [] if got == want else ['%s is %s instead of %s' % (what, got,
                                                               want)]


ARGLISTS = [
    ([], []),
    ([('u_a', None)], ['u_a']),
    ([('u_a', None), ('u_b', '1')], ['u_a', 'u_b=1']),
    ([('u_a', "u_x['k']"), ('u_b', None)], None),
    ([('u_a', None), ('*u_c', None)], ['u_a', '*u_c']),
    ([('u_a', '2'), ('*u_c', None), ('**u_d', None)],
     ['u_a=2', '*u_c', '**u_d']),
    ([('**u_d', None)], ['**u_d']),
]


def c17(ctx):
    ctx.rule('methods', 'a #def or #block defines one method with its name, '
             'arguments, decorators and body, and nothing of it stays where '
             'it was written', 20)
    ctx.rule('blocks', 'a #block is output once, where it was written; a #def '
             'is not', 8)
    ctx.rule('scope', '#attr belongs to the class, #set module and imports to '
             'the module, #set global to the instance, in order and once', 8)
    ctx.rule('inheritance', 'the class has the base class that was asked for, '
             'imported if necessary; the main method has the name asked for; '
             '#super calls the same method of the base class', 10)
    ctx.rule('directives', 'the directive hands the compiler the name, '
             'arguments, scope and expression that were read', 11)
    prog = ctx.prog
    D = Defs(ctx, prog)
    kinds = {'def': 'closeDef', 'block': 'closeBlock'}
    for kind, close in sorted(kinds.items()):
        call = ['self.u_m(trans=trans)'] if kind == 'block' else []
        for args, want in ARGLISTS:
            if want is None:
                continue

            def check(m, want=want):
                k = m.names.get('u_m', [])
                if len(k) != 1 or not isinstance(k[0], ast.FunctionDef):
                    return ['u_m is defined %d times' % len(k)]
                return eq('the argument list', arguments(k[0]), want) + \
                    eq('the place of the body', home(m, 'in'), ['u_m'])
            D.ob('methods', '#%s u_m(%s)' % (kind, ', '.join(want)),
                 mdef('u_m', repr(args), [mark('in')], close), check)
        for ws in (True, False):
            tag = '' if ws else ', after text'
            pre = [] if ws else ["self.addStrConst('abc')"]

            def check(m):
                out = eq('the code around it', between(
                    m, 'respond', 'before', 'after'),
                    ['before'] + call + ['after'])
                return out + eq('the place of the body', home(m, 'in'),
                                ['u_m'])
            D.ob('blocks', '#%s in the main method%s' % (kind, tag),
                 lines(mark('before'), mdef('u_m', '[]', [mark('in')] + pre,
                                            close), mark('after')), check)
        for k2, c2 in sorted(kinds.items()):
            call2 = ['self.u_n(trans=trans)'] if k2 == 'block' else []

            def check(m):
                return eq('the code around the inner one', between(
                    m, 'u_m', 'b1', 'a1'), ['b1'] + call2 + ['a1']) + \
                    eq('the code around the outer one', between(
                        m, 'respond', 'b0', 'a0'), ['b0'] + call + ['a0']) + \
                    eq('the place of the inner body', home(m, 'in'), ['u_n'])
            D.ob('blocks', '#%s in a #%s' % (k2, kind), lines(
                mark('b0'), mdef('u_m', '[]', [
                    mark('b1'), mdef('u_n', '[]', [mark('in')], c2),
                    mark('a1')], close), mark('a0')), check)

        def check(m):
            out = []
            for nm in ('u_m', 'u_n'):
                k = m.names.get(nm, [])
                if len(k) != 1:
                    return ['%s is defined %d times' % (nm, len(k))]
                want = ['u_d1', 'u_d2'] if nm == 'u_m' else []
                out += eq('decorators of %s' % nm, [
                    ast.unparse(d) for d in k[0].decorator_list], want)
            return out
        D.ob('methods', 'decorators of a #%s' % kind, lines(
            "self.addDecorator('@u_d1')", "self.addDecorator('@u_d2')",
            mdef('u_m', '[]', [mark('in')], close),
            mdef('u_n', '[]', [mark('in2')], close)), check)

        def check(m):
            k = m.names.get('u_m', [])
            if len(k) != 1:
                return ['u_m is defined %d times' % len(k)]
            return eq('decorators of u_m', [
                ast.unparse(d) for d in k[0].decorator_list], ['u_d1']) + \
                eq('decorators of the inner method', [
                    ast.unparse(d)
                    for d in m.names['u_n'][0].decorator_list], ['u_d2'])
        D.ob('methods', 'decorators of nested #%s' % kind, lines(
            "self.addDecorator('@u_d1')",
            mdef('u_m', '[]', [mark('in'), "self.addDecorator('@u_d2')",
                               mdef('u_n', '[]', [mark('in2')])], close)),
            check)

        def check(m):
            order = [k for k in m.names if k in ('u_m', 'u_n')]
            return eq('the place of the first', home(m, 'one'), ['u_m']) + \
                eq('the place of the second', home(m, 'two'), ['u_n']) + \
                eq('the rest', between(m, 'respond', 'b', 'a'),
                   ['b'] + call + ['c'] + [x.replace('u_m', 'u_n')
                                           for x in call] + ['a'])
        D.ob('methods', 'two #%ss' % kind, lines(
            mark('b'), mdef('u_m', '[]', [mark('one')], close), mark('c'),
            mdef('u_n', '[]', [mark('two')], close), mark('a')), check)

        def check(m):
            k = m.names.get('u_m', [])
            return eq('definitions of u_m', len(k), 1) if len(k) != 1 else \
                eq('the body', home(m, 'two'), ['u_m'])
        # a later definition of the same name replaces the earlier one
        D.ob('methods', '#%s of the same name again' % kind, lines(
            mdef('u_m', '[]', [mark('one')], close),
            mdef('u_m', '[]', [mark('two')], close)), last_wins)
    scope(D)
    inheritance(D)
    directives(ctx)


# directive -> compiler calls, each with the readers its arguments come from
# (None: not looked at)
HANDS = {
    'attr': [('addAttribute', ['getIdentifier', 'getExpression'])],
    'extends': [('setBaseClass', ['getExpression|getCommaSeparatedSymbols'])],
    'implements': [('setMainMethodName', ['getIdentifier']),
                   ('setMainMethodArgs', ['getDefArgList?'])],
    'super': [('addSuper', ['getDefArgList?'])],
    'def': [('startMethodDef|addClosure',
             ['getIdentifier', 'getDefArgList?', None])],
    'block': [('startMethodDef', ['getIdentifier', 'getDefArgList?', None])],
    'closure': [('addClosure', ['getIdentifier', 'getDefArgList?', None])],
    'set': [('addSet', [None, None, None])],
    'import': [('addImportStatement', ['getExpression'])],
    'from': [('addImportStatement', ['getExpression'])],
    '@': [('addDecorator', ['getExpression'])],
}
EXPR_READERS = {'getIdentifier', 'getExpression', 'getDefArgList',
                'getCommaSeparatedSymbols', 'getAssignmentOperator'}


def made_of(t, st, seen=None):
    """Names of the readers whose results a value is made of, in order."""
    out = []
    seen = set() if seen is None else seen
    if isinstance(t, tuple) and t and t not in seen:
        if t[0] == 'call' and callee_name(t[1]) in EXPR_READERS:
            return [callee_name(t[1])]
        if t[0] in ('obj', 'new'):
            seen.add(t)
            for x in st.heap.get((t, 'items'), ()) or ():
                out += made_of(x, st, seen)
            return out
        for x in t:
            out += made_of(x, st, seen)
    return out


def directives(ctx):
    pm = ParserModel(ctx.prog)
    jobs = [(d, pm) for d in sorted(HANDS)]
    for res in parallel(lambda j: hands(ctx.prog, j[1], j[0]), jobs):
        for r in res:
            ctx.ob('directives', *r)
        ctx.unit('directive', res[0][0])


def hands(prog, pm, d):
    loc = 'Cheetah/Parser.py'
    names = set()
    for c, a in HANDS[d]:
        names |= set(c.split('|'))
    it, sts = pm.run('eatDirective', dname=d, inline_compiler=False,
                     loop_max=0, max_states=40000,
                     keep=lambda e: e.kind == 'delidx' or e.kind == 'call' and
                     callee_name(e.term[1]) in names | CLOSERS | {
                         'getDirectiveStartToken'})
    bad, n = {}, 0
    for s in sts:
        calls = [callee_name(e.term[1]) for e in s.events
                 if e.kind == 'call']
        if s.status == 'raise' or 'getDirectiveStartToken' not in calls:
            continue
        for e in s.events:
            if e.kind == 'delidx' and made_of(e.term, s) == [
                    'getDefArgList'] and e.term[2] != K(0):
                bad.setdefault('%s is dropped from the argument list'
                               % show(e.term), 0)
        if d in ('def', 'block', 'closure'):
            for b in pairing(d, calls):
                bad.setdefault(b, 0)
        n += 1
        for c, want in HANDS[d]:
            es = [e for e in s.events if e.kind == 'call' and
                  callee_name(e.term[1]) in c.split('|')]
            if len(es) != 1:
                bad.setdefault('%s is called %d times' % (c, len(es)), 0)
                continue
            args = list(es[0].term[2]) + [v for k, v in es[0].term[3]]
            for w, a in zip(want, args):
                if w is None:
                    continue
                got = set(made_of(a, s))
                if w.endswith('?'):
                    for x in walk(a):
                        if x[0] == 'idx' and isinstance(x[2], tuple) and \
                                x[2] and x[2][0] == 'slice' and \
                                not slice_from(x[2]):
                            bad.setdefault('%s gets %s' % (
                                c, show(x)[:80]), 0)
                    paren = [v for k, v in s.conds.items()
                             if paren_test(k)]
                    if w[:-1] in got and got - {w[:-1]}:
                        bad.setdefault('%s gets %s' % (c, sorted(got)), 0)
                    elif True in paren and w[:-1] not in got:
                        bad.setdefault('%s does not get the argument list'
                                       % c, 0)
                elif not got & set(w.split('|')) or got - set(w.split('|')):
                    bad.setdefault('%s gets %s instead of %s' % (
                        c, sorted(got) or show(a)[:60], w), 0)
            if d == 'set':
                for b in set_call(prog, s, args):
                    bad.setdefault(b, 0)
    if not n:
        raise AnalysisBroken('no path through #%s' % d)
    out = [('#%s' % d, loc, not bad, '; '.join(sorted(bad))[:300])]
    takes = [(c, i) for c, want in HANDS[d] for i, w in enumerate(want)
             if w == 'getDefArgList?']
    for c, i in takes:
        for given in SELFLISTS:
            out.append(drops_self(pm, d, c, i, given))
    return out


# argument lists as read from the source, and what the compiler is to get:
# the instance is given by Cheetah, a leading self is left out
SELFLISTS = ((), ('self',), ('u_a',), ('self', 'u_a'), ('u_a', 'self'),
            ('self', 'u_a', 'u_b'))


def drops_self(pm, d, c, i, given):
    want = given[1:] if given[:1] == ('self',) else given

    def hook(it, fn, args, kw, st, n):
        if callee_name(fn) == 'getDefArgList' and not args:
            o = ('obj', 'list', 'given')
            st.heap[(o, 'items')] = tuple(
                ('tup', (K(a), NONE)) for a in given)
            return [(st, o)]
        return None
    it, sts = pm.run('eatDirective', dname=d, inline_compiler=False,
                     loop_max=0, max_states=40000, hook=hook, exact=True,
                     keep=lambda e: e.kind == 'call' and
                     callee_name(e.term[1]) in set(c.split('|')) | {
                         'getDirectiveStartToken', 'getDefArgList'})
    bad, n = set(), 0
    for s in sts:
        calls = [callee_name(e.term[1]) for e in s.events
                 if e.kind == 'call']
        if s.status == 'raise' or not any(
                x in c.split('|') for x in calls) or True not in [
                v for k, v in s.conds.items() if paren_test(k)]:
            continue
        n += 1
        for e in s.events:
            if e.kind == 'call' and callee_name(e.term[1]) in c.split('|'):
                args = list(e.term[2]) + [v for k, v in e.term[3]]
                got = arg_names(args[i], s) if i < len(args) else None
                if got is None or tuple(got) != want:
                    bad.add('%s gets %s' % (c, got if got is not None
                                            else show(args[i])[:60]
                                            if i < len(args) else 'nothing'))
    if not n:
        raise AnalysisBroken('no path through #%s with arguments' % d)
    return ('#%s f(%s)' % (d, ', '.join(given)), 'Cheetah/Parser.py',
            not bad, '; '.join(sorted(bad))[:300])


def arg_names(t, st):
    items = t[1] if t[0] == 'tup' else st.heap.get((t, 'items'))
    if items is None:
        return None
    out = []
    for x in items:
        if x[0] == 'obj':
            x = ('tup', st.heap.get((x, 'items')))
        if x[0] != 'tup' or not x[1] or x[1][0][0] != 'const':
            return None
        out.append(x[1][0][2])
    return out


CLOSERS = {'closeDef', 'closeBlock', 'dedent'}


def slice_from(sl):
    """A slice that drops nothing or just the first element."""
    return sl[1] in (NONE, K(0), K(1)) and all(x == NONE for x in sl[2:])


def pairing(d, calls):
    """A definition on one line ends there in the way that fits its start."""
    out = []
    opened = 'closure' if 'addClosure' in calls else d
    ends = [c for c in calls if c in CLOSERS]
    want = {'def': ['closeDef'], 'block': ['closeBlock'],
            'closure': ['dedent']}[opened]
    if ends and ends != want:
        out.append('a %s is closed with %s' % (opened, ends))
    return out


WORDS = {'local': 'SET_LOCAL', 'global': 'SET_GLOBAL', 'module': 'SET_MODULE'}


def has(t, sub):
    return contains(t, lambda x: x == sub)


def set_call(prog, s, args):
    """#set: the components are what was read, the scope is the one named."""
    out = []
    comp = args[1]
    for a, want in (('LVALUE', ['getExpression']),
                    ('OP', ['getAssignmentOperator']),
                    ('RVALUE', ['getExpression'])):
        v = s.heap.get((comp, a))
        if v is not None and made_of(v, s) != want:
            out.append('%s is %s' % (a, show(v)[:60]))
    lv, rv = s.heap.get((comp, 'LVALUE')), s.heap.get((comp, 'RVALUE'))
    if lv is not None and rv is not None:
        if has(lv, rv) or has(rv, lv):
            out.append('the two sides are the same expression')
        elif not (has(args[0], lv) or has(args[0], rv)) and \
                not made_of(args[0], s):
            out.append('the statement is not what was read')
    words = []
    for k, v in s.conds.items():
        for w in WORDS:
            if not v or not has(k, K(w)):
                continue
            if k[0] == 'call' and callee_name(k[1]) == 'startswith':
                out.append('a variable whose name starts with %r is taken '
                           'for the word' % w)
            words.append(w)
    if len(words) > 1 or not is_const(args[2]):
        return out
    try:
        want = prog.literal(prog.mod('Parser'),
                            WORDS[words[0] if words else 'local'])
    except ValueError:
        return out
    if args[2][2] != want:
        out.append('#set %s sets the scope %s instead of %s' % (
            ''.join(words), args[2][2], want))
    return out


def paren_test(k):
    return "'('" in show(k) and '==' in show(k) and 'peek' in show(k)


def last_wins(m):
    k = m.names.get('u_m', [])
    if not k:
        return ['u_m is not defined']
    last = k[-1]
    if not any(isinstance(y, ast.Name) and y.id == 'M_two'
               for y in ast.walk(last)):
        return ['the later definition is not the one in force']
    return []


def scope(D):
    def attr(m):
        k = m.names.get('u_x', [])
        if len(k) != 1:
            return ['u_x is set %d times in the class' % len(k)]
        return eq('the attribute', ast.unparse(k[0]), 'u_x = 1') + \
            eq('the method', between(m, 'respond', 'b', 'a'), ['b', 'a'])
    D.ob('scope', '#attr', lines(
        mark('b'), "self.addAttribute('u_x', ' 1')", mark('a')), attr)
    D.ob('scope', '#attr in a #def', mdef('u_m', '[]', [
        mark('b'), "self.addAttribute('u_x', ' 1')", mark('a')]),
        lambda m: eq('the class attribute', [ast.unparse(x) for x in
                                             m.names.get('u_x', [])],
                     ['u_x = 1']) + eq(
                         'the method', between(m, 'u_m', 'b', 'a'),
                         ['b', 'a']))

    def attrs(m):
        seq = [k for k in m.names if k in ('u_x', 'u_y')]
        return eq('order of attributes', seq, ['u_x', 'u_y'])
    D.ob('scope', 'two #attr', lines(
        "self.addAttribute('u_x', ' 1')", "self.addAttribute('u_y', ' u_x')"),
        attrs)
    for before in (True, False):
        D.ob('scope', 'methods %s attributes' % (
            'before' if before else 'after'), lines(
                "self.addAttribute('u_x', ' 1')",
                mdef('u_m', '[]', [mark('in')])),
            lambda m: eq('the attribute', len(m.names.get('u_x', [])), 1)
            + eq('the method', len(m.names.get('u_m', [])), 1),
            outputMethodsBeforeAttributes=before)
    D.ob('scope', '#set module', lines(mark('b'), settings(
        'SET_MODULE', 'u_x'), mark('a')), lambda m: eq(
            'the module', module_binds(m, 'u_x'), ['u_x = u_v']) + eq(
                'the method', between(m, 'respond', 'b', 'a'), ['b', 'a']))
    D.ob('scope', '#set module twice', lines(
        settings('SET_MODULE', 'u_x'), settings('SET_MODULE', 'u_y')),
        lambda m: eq('the module', [
            ast.unparse(s) for s in m.tree.body if isinstance(s, ast.Assign)
            and ast.unparse(s).startswith('u_')],
            ['u_x = u_v', 'u_y = u_v']))
    for lv, want in (('u_x', "self._CHEETAH__globalSetVars['u_x'] = u_v"),
                     ('u_x.y', "self._CHEETAH__globalSetVars['u_x'].y = u_v"),
                     ('u_x[1]',
                      "self._CHEETAH__globalSetVars['u_x'][1] = u_v"),
                     ('u_x.y[1]',
                      "self._CHEETAH__globalSetVars['u_x'].y[1] = u_v"),
                     ('u_x[1].y',
                      "self._CHEETAH__globalSetVars['u_x'][1].y = u_v"),
                     ('u_x[a.b]',
                      "self._CHEETAH__globalSetVars['u_x'][a.b] = u_v"),
                     ('u[1].y',
                      "self._CHEETAH__globalSetVars['u'][1].y = u_v"),
                     ('u[1]',
                      "self._CHEETAH__globalSetVars['u'][1] = u_v"),
                     ('u.y[1]',
                      "self._CHEETAH__globalSetVars['u'].y[1] = u_v"),
                     ('u.y',
                      "self._CHEETAH__globalSetVars['u'].y = u_v")):
        D.ob('scope', '#set global %s' % lv, lines(
            mark('b'), settings('SET_GLOBAL', lv), mark('a')),
            lambda m, want=want: eq('the method', between(
                m, 'respond', 'b', 'a'), ['b', want, 'a']))
        D.ob('scope', '#set %s' % lv, lines(
            mark('b'), settings('0', lv), mark('a')),
            lambda m, lv=lv: eq('the method', between(
                m, 'respond', 'b', 'a'), ['b', lv + ' = u_v', 'a']))
    for imp, nm in (('import u_mod', 'u_mod'),
                    ('from u_pkg import u_mod', 'u_mod'),
                    ('import u_pkg as u_p', 'u_p'),
                    ('from u_pkg import u_a, u_b', 'u_a'),
                    ('from u_pkg import u_a as u_c', 'u_c')):
        D.ob('scope', '#%s' % imp, lines(
            "self.addImportStatement(%r)" % imp, mark('b')),
            lambda m, imp=imp, nm=nm: eq('the module', module_binds(m, nm),
                                         [imp]))
        D.ob('scope', '#%s after text' % imp, lines(
            mark('b'), "self.addImportStatement(%r)" % imp, mark('a')),
            lambda m, imp=imp, nm=nm: eq('the module', module_binds(m, nm),
                                         [imp]) + eq(
                'the method', between(m, 'respond', 'b', 'a'), ['b', 'a']))
        D.ob('scope', '#%s after text, not at module level' % imp, lines(
            mark('b'), "self.addImportStatement(%r)" % imp, mark('a')),
            lambda m, imp=imp, nm=nm: eq('the module', module_binds(m, nm),
                                         []) + eq(
                'the method', between(m, 'respond', 'b', 'a'),
                ['b', imp, 'a']), useLegacyImportMode=False)


BASES = [
    # imports, class asked for, base expression, implied import
    ([], 'u_Base', 'u_Base', 'from u_Base import u_Base'),
    ([], 'u_pkg.u_Base', 'u_Base', 'from u_pkg.u_Base import u_Base'),
    ([], 'u_p.u_q.u_Base', 'u_Base', 'from u_p.u_q.u_Base import u_Base'),
    ([], 'u_p.u_Base.u_Base', 'u_Base', 'from u_p.u_Base import u_Base'),
    (['from u_pkg import u_Base'], 'u_Base', 'u_Base', None),
    (['from u_pkg import u_X as u_Base'], 'u_Base', 'u_Base', None),
    (['import u_p'], 'u_p.u_q.u_Base', 'u_p.u_q.u_Base', None),
    ([], 'object', 'object', None),
    ([], 'Template', 'Template', None),
]


def bases(m):
    return [ast.unparse(b) for b in m.cls.bases]


def inheritance(D):
    for imps, asked, want, implied in BASES:
        def check(m):
            out = eq('the base class', bases(m), [want])
            root = want.split('.')[0]
            if implied:
                out += eq('the import of it', module_binds(m, root),
                          [implied])
            elif imps:
                out += eq('the import of it', module_binds(m, root), imps)
            return out
        D.ob('inheritance', '#extends %s%s' % (
            asked, ' with ' + imps[0] if imps else ''), lines(*(
                ["self.addImportStatement(%r)" % i for i in imps]
                + ["self.setBaseClass(%r)" % asked, mark('in')])), check)
    D.ob('inheritance', 'no #extends', mark('in'),
         lambda m: eq('the base class', bases(m), ['Template']))
    D.ob('inheritance', '#extends u_Base without automatic import',
         "self.setBaseClass('u_Base')", lambda m: eq(
             'the base class', bases(m), ['u_Base']) + eq(
                 'the import of it', module_binds(m, 'u_Base'), []),
         autoImportForExtendsDirective=False)
    pairs = [x for x in BASES if x[1] not in ('object', 'Template')]
    for i, one in enumerate(pairs):
        for two in pairs:
            two = eval(repr(two).replace('u_', 'w_'))
            imps = one[0] + two[0]

            def check(m):
                out = eq('the base classes', bases(m), [one[2], two[2]])
                for imp, _, want, implied in (one, two):
                    if imp or implied:
                        out += eq('the import of %s' % want, module_binds(
                            m, want.split('.')[0]), imp or [implied])
                return out
            for sep in (', ',) if i else (', ', ','):
                D.ob('inheritance', '#extends %s%s%s%s' % (
                    one[1], sep, two[1], ' with ' + '; '.join(imps)
                    if imps else ''), lines(*(
                        ["self.addImportStatement(%r)" % i for i in imps]
                        + ["self.setBaseClass(%r)" % (one[1] + sep + two[1]),
                           mark('in')])), check)

    def main(want, args=()):
        def check(m):
            v = m.names.get('_mainCheetahMethod_for_K')
            out = eq('the main method', v and ast.unparse(v[-1].value),
                     repr(want))
            out += eq('the place of the body', home(m, 'in'), [want])
            if not out:
                out += eq('its arguments', arguments(m.names[want][0]),
                          list(args))
            return out
        return check
    D.ob('inheritance', 'main method', mark('in'), main('respond'))
    D.ob('inheritance', 'main method by setting', mark('in'), main('u_main'),
         mainMethodName='u_main')
    D.ob('inheritance', 'main method of a subclass', lines(
        "self.setBaseClass('u_Base')", mark('in')), main('writeBody'))
    D.ob('inheritance', 'main method of a subclass, #extends after text',
         lines(mark('in'), "self.setBaseClass('u_Base')"), main('writeBody'))
    D.ob('inheritance', 'main method of a subclass by setting', lines(
        "self.setBaseClass('u_Base')", mark('in')), main('u_sub'),
        mainMethodNameForSubclasses='u_sub')
    D.ob('inheritance', '#implements', lines(
        "self.setMainMethodName('u_meth')", mark('in')), main('u_meth'))
    D.ob('inheritance', '#implements with arguments', lines(
        "self.setMainMethodName('u_meth')",
        "self.setMainMethodArgs([('u_a', None), ('u_b', '1')])", mark('in')),
        main('u_meth', ('u_a', 'u_b=1')))
    D.ob('inheritance', '#extends and #implements', lines(
        "self.setBaseClass('u_Base')", "self.setMainMethodName('respond')",
        mark('in')), main('respond'))
    D.ob('inheritance', '#implements after a #def', lines(
        mdef('u_m', '[]', [mark('x')]),
        "self.setMainMethodName('u_meth')", mark('in')), main('u_meth'))

    for args, want in (([], ''), ([('u_a', None), ('u_b', '1')],
                                  'u_a, u_b=1')):
        call = 'super(K, self).u_m(%s)' % want

        def check(m):
            k = m.names.get('u_m', [])
            if len(k) != 1:
                return ['u_m is defined %d times' % len(k)]
            calls = [ast.unparse(n) for n in ast.walk(k[0])
                     if isinstance(n, ast.Call) and 'super(' in
                     ast.unparse(n.func) and isinstance(
                         n.func, ast.Attribute)]
            return eq('calls of the base class', calls, [call])
        D.ob('inheritance', '#super(%s)' % want, mdef('u_m', '[]', [
            mark('b'), 'self.addSuper(%r)' % (args,), mark('a')]), check)
        D.ob('inheritance', '#super(%s) after an inner method' % want,
             mdef('u_m', '[]', [
                 mdef('u_n', '[]', [mark('x')]),
                 'self.addSuper(%r)' % (args,), mark('a')]), check)


CHECKS = {
    'C17': (c17, 'definitions and inheritance'),
    'C20': (c20, 'completeness of generated modules'),
}
