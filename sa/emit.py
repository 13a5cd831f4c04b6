"""What the template compiler emits, as abstract Python.

The compiler's emit methods are abstractly interpreted; the resulting sequence
of code chunks (literal text with holes for template-supplied parts) is laid
out with its indentation and parsed again, so the generated program itself can
be analysed path by path.
"""
import ast
import re

from .model import Func, Module, AnalysisBroken
from .absint import (Interp, K, is_const, show, walk, callee_name, NONE)

PRIMS = {'addChunk', 'indent', 'dedent', 'appendToPrevChunk', 'commitStrConst',
         'addStrConst', 'setting', 'handleWSBeforeDirective'}


class Emitter(object):
    def __init__(self, prog):
        self.prog = prog
        self.meth = prog.cls('Compiler', 'AutoMethodCompiler')
        self.plain = prog.cls('Compiler', 'MethodCompiler')
        self.klass = prog.cls('Compiler', 'ClassCompiler')
        self.module = prog.cls('Compiler', 'ModuleCompiler')

    def interp(self, **kw):
        e = self

        class I2(Interp):
            def getattr(self, b, name, st):
                r = Interp.getattr(self, b, name, st)
                if r[0] == 'attr' and r[1] == b:
                    c = self.cls_of(b)
                    chain = []
                    if c is not None and e.module in self.prog.mro(c):
                        chain = [e.auto_class(), e.meth]
                    elif c is not None and e.klass in self.prog.mro(c):
                        chain = [e.meth]
                    for d in chain:
                        f = self.prog.find_method(d, name)
                        if f is not None:
                            self.funcs[f.qual] = f
                            if f.is_static:
                                return ('fn', f.qual, ())
                            return ('bound', ('self', d.qual), f.qual)
                return r

            def cls_of(self, t):
                if t[0] == 'attr' and t[2] == '_classCompiler':
                    return e.auto_class()
                if t[0] == 'attr' and t[2] == '_moduleCompiler':
                    return e.module
                if t[0] == 'call' and callee_name(t) == \
                        '_spawnMethodCompiler':
                    k = dict(t[3]).get('klass')
                    return self.cls_of(k) if k and k[0] == 'cls' else e.meth
                if t[0] == 'call' and callee_name(t) == \
                        '_getActiveMethodCompiler':
                    return e.meth
                return Interp.cls_of(self, t)
        kw.setdefault('opaque', PRIMS | {'_spawnMethodCompiler',
                                         '_swallowMethodCompiler'})
        kw.setdefault('depth', 8)
        return I2(self.prog, **kw)

    def auto_class(self):
        return self.prog.cls('Compiler', 'AutoClassCompiler')

    def drive(self, body, params=(), cls=None, setup=True, **kw):
        """Interpret a driver body (source text) as a method of the method
        compiler; returns (interp, final states)."""
        cls = cls or self.meth
        src = 'def _drv(self%s):\n' % ''.join(', ' + p for p in params)
        lines = ['self._setupState()'] if setup else []
        lines += body.strip('\n').split('\n')
        src += '\n'.join('    ' + x for x in lines) + '\n'
        node = ast.parse(src).body[0]
        f = Func(node, cls.module, cls=cls)
        it = self.interp(**kw)
        states = it.run(f, selfcls=cls)
        return it, states


def stream(state, recv=None):
    """Emission items of a path for one receiver (default: the method
    compiler itself)."""
    out = []
    for ev in state.events:
        if ev.kind != 'call':
            continue
        nm = ev.name
        if nm not in PRIMS or nm in ('setting',):
            continue
        if recv is not None and ev.recv != recv:
            continue
        if recv is None and not (ev.recv and ev.recv[0] == 'self'):
            continue
        out.append((nm, ev.args[0] if ev.args else dict(ev.term[3]).get(
            'chunk'), ev))
    return out


class Rendered(object):
    def __init__(self):
        self.lines = []
        self.holes = {}
        self.src = None
        self.tree = None
        self.err = None
        self.final = 0
        self.low = 0
        self.locs = {}       # line number -> loc of the emitting call


def render(items, conds=None, base_open=0):
    """Lay out emission items as Python text."""
    r = Rendered()
    conds = conds or {}
    names = {}

    def hole(t, prev='', nxt=''):
        if conds.get(t) is False:
            return ''
        if t not in names:
            tag = 'R' if (t[0] == 'call' and t[1] == ('bi', 'repr')) else 'H'
            names[t] = '%s%d_' % (tag, len(names))
            r.holes[names[t]] = t
        return names[t]

    def text(t):
        if t is None:
            return ''
        if t[0] == 'cat':
            return ''.join(text(p) for p in t[1])
        if is_const(t):
            return str(t[2])
        s = hole(t)
        return s

    level = 0
    seq = []
    low = 0
    for nm, t, ev in items:
        if nm == 'addChunk':
            s = text(t)
            if t is not None and t[0] != 'const' and s.endswith('_') and \
                    conds.get(('cmp', '==', ('idx', _last(t), K(-1)),
                               K(':'))) is True:
                s += ':'
            seq.append([level, s, ev])
        elif nm == 'appendToPrevChunk':
            if seq:
                seq[-1][1] += text(t)
        elif nm == 'indent':
            level += 1
        elif nm == 'dedent':
            level -= 1
            low = min(low, level)
    r.final = level
    r.low = low
    lines = []
    off = -low
    for k in range(off):
        lines.append('    ' * k + 'if PRE%d_:' % k)
    prev_level = 0
    out = list(lines)
    for i, (lv, s, ev) in enumerate(seq):
        ind = '    ' * (lv + off)
        # a bare hole opening a block
        m = re.match(r'^(H\d+_):', s)
        if m:
            s = 'if ' + s
        nxt = next((x[0] for x in seq[i + 1:]
                    if x[1].strip() and not x[1].strip().startswith('#')),
                   None)
        if re.match(r'^H\d+_\s*(#.*)?$', s.strip()) and nxt is not None and \
                nxt > lv:
            s = 'if ' + s.strip().split()[0] + ':'
        for j, ln in enumerate(s.split('\n')):
            out.append((ind if j == 0 else '') + ln)
            r.locs[len(out)] = ev.loc
    # close open blocks
    body_level = level + off
    last = next((x for x in reversed(out)
                 if x.strip() and not x.strip().startswith('#')), '')
    if last.rstrip().split('#')[0].rstrip().endswith(':'):
        ind = len(last) - len(last.lstrip())
        out.append(' ' * (ind + 4) + 'pass')
    elif not last:
        out.append('    ' * body_level + 'pass')
    r.src = '\n'.join(out) + '\n'
    try:
        r.tree = ast.parse(r.src)
    except SyntaxError as e:
        r.err = '%s in generated text:\n%s' % (e, r.src)
    return r


def _last(t):
    if t[0] == 'cat':
        return t[1][-1]
    return t


def gen_interp(prog, rendered, env=None, extra_params=('self', 'trans'),
               **kw):
    """Interpret the generated text as the body of a method."""
    src = 'class G:\n    def m(self):\n' + '\n'.join(
        '        ' + ln for ln in rendered.src.split('\n')) + '\n        pass\n'
    try:
        mod = Module(prog, 'gen', '/gen.py', src)
    except SyntaxError as e:
        raise AnalysisBroken('generated text does not parse: %s' % e)
    mod.path = 'generated'
    f = mod.classes['G'].methods['m']
    it = Interp(prog, **kw)
    e = {'trans': ('var', 'trans'), 'write': ('var', 'write'),
         '_filter': ('var', '_filter'), '_dummyTrans': ('var', '_dummyTrans')}
    if env:
        e.update(env)
    states = it.run(f, args=e)
    return it, states


LAYOUT = {'indentationStep': '    ', 'initialMethIndentLevel': 2}
SETTING = ('var', 'setting')


def setting_hook(fixed=None, other=None, spy=None):
    """Settings as free variables, apart from the layout ones and `fixed`."""
    known = dict(LAYOUT)
    known.update(fixed or {})

    def hook(it, fn, args, kw, st, n):
        if (fn[0] in ('bound', 'attr', 'fn')) and args and \
                is_const(args[0]) and callee_name(
                    ('call', fn, (), (), None)) == 'setting':
            if spy is not None:
                spy.add(args[0][2])
            if args[0][2] in known:
                return [(st, K(known[args[0][2]]))]
            return [(st, ('call', SETTING, (args[0],), (), None))]
        return other(it, fn, args, kw, st, n) if other else None
    return hook


def setting_name(t):
    if t[0] == 'call' and t[1] == SETTING:
        return t[2][0][2]
    return None


def whole_method(em, body, name='m', args=(), decorators=(), fixed=None,
                 params=(), hook=None, **kw):
    """The complete text of a generated method whose body is emitted by the
    driver lines `body`, on every path: [(text with holes, holes, state)]."""
    lines = ['self._methodName = %r' % name,
             'self._decorators = %r' % list(decorators),
             "self._initialMethodComment = ''"]
    for a, d in args:
        lines.append('self.addMethArg(%r, %r)' % (a, d))
    lines += body.strip('\n').split('\n')
    lines += ['self.cleanupState()', 'return self.wrapCode()']
    kw.setdefault('depth', 10)
    it, states = em.drive('\n'.join(lines), params=params, opaque=set(),
                          hook=setting_hook(fixed, hook), **kw)
    out = []
    for s in states:
        if s.status != 'return':
            out.append((None, None, s))
            continue
        holes = {}
        names = {}
        parts = []
        for t in (s.val[1] if s.val[0] == 'cat' else (s.val,)):
            if is_const(t):
                parts.append(str(t[2]))
            else:
                if t not in names:
                    tag = 'R' if t[0] == 'call' and t[1] == ('bi', 'repr') \
                        else 'H'
                    names[t] = '%s%d_' % (tag, len(names))
                    holes[names[t]] = t
                parts.append(names[t])
        out.append((''.join(parts), holes, s))
    return it, out


def method_of(prog, text):
    """The generated method text as an analysable function."""
    src = 'class G:\n' + text + '\n'
    try:
        mod = Module(prog, 'gen', '/gen.py', src)
    except SyntaxError as e:
        return None, '%s: %s' % (e, src)
    mod.path = 'generated'
    ms = [m for k, m in mod.classes['G'].methods.items()]
    return ms[0], None


def default_settings(prog):
    """The declared settings with a literal scalar default."""
    m = prog.mod('Compiler')
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(
                st.targets[0], ast.Name) and \
                st.targets[0].id == '_DEFAULT_COMPILER_SETTINGS' and \
                isinstance(st.value, (ast.List, ast.Tuple)):
            out = {}
            for el in st.value.elts:
                if not isinstance(el, ast.Tuple) or len(el.elts) < 2 or \
                        not isinstance(el.elts[0], ast.Constant):
                    continue
                v = el.elts[1]
                if isinstance(v, ast.Constant):
                    out[el.elts[0].value] = v.value
            out.update(LAYOUT)
            return out
    v = prog.literal(m, 'DEFAULT_COMPILER_SETTINGS')
    if isinstance(v, dict):
        out = {k: x for k, x in v.items()
               if isinstance(x, (str, int, bool, type(None)))}
        out.update(LAYOUT)
        return out
    raise AnalysisBroken('table of default settings not understood')


class ModuleInterp(Interp):
    """Interprets the module, class and method compilers as the three layers
    of objects they are (attribute access falls through to the active one)."""
    ACTIVE = {'ModuleCompiler': '_activeClassesList',
              'ClassCompiler': '_activeMethodsList'}

    def active(self, b, st):
        c = self.cls_of(b)
        if c is None:
            return None
        for k in self.prog.mro(c):
            if k.name in self.ACTIVE:
                lst = Interp.getattr(self, b, self.ACTIVE[k.name], st)
                items = st.heap.get((lst, 'items'))
                if items:
                    return items[-1]
        return None

    def getattr(self, b, name, st):
        r = Interp.getattr(self, b, name, st)
        if r == ('attr', b, name):
            c = self.cls_of(b)
            if c is not None:
                k, node = self.prog.find_attr(c, name)
                if k is not None and node is not None:
                    v = self.class_value(k, node)
                    if v is not None:
                        return v
                a = self.active(b, st)
                if a is not None:
                    return self.getattr(a, name, st)
        return r

    def builtin_call(self, fn, args, kw, st, n):
        if fn == ('bi', 'getattr') and len(args) == 3 and \
                args[0][0] == 'new' and is_const(args[1]):
            r = self.getattr(args[0], args[1][2], st)
            return [(st, args[2] if r[0] == 'attr' else r)]
        if fn[0] == 'ext' and fn[1] == 're.sub' and not kw and all(
                is_const(a) for a in args):
            return [(st, K(re.sub(*[a[2] for a in args])))]
        return Interp.builtin_call(self, fn, args, kw, st, n)

    def class_value(self, k, node):
        node = getattr(node, 'value', node)
        if isinstance(node, ast.Name):
            r = self.prog.resolve(k.module, node.id)
            if r is not None:
                return self.fromres(r)
        if isinstance(node, ast.Constant):
            return K(node.value)
        return None


def whole_module(prog, body, fixed=None, file=None, base=None, hook=None,
                 name='K', spy=None, **kw):
    """The complete text of a generated module for a template whose parsing
    is the driver lines `body` (methods of the module compiler), on every
    path: [(text or None, holes, state)]."""
    cls = prog.cls('Compiler', 'ModuleCompiler')
    layers = {prog.cls('Compiler', n) for n in
              ('ModuleCompiler', 'ClassCompiler', 'AutoClassCompiler',
               'MethodCompiler', 'AutoMethodCompiler')}
    lines = ['self._filePath = %r' % file,
             'self._fileMtime = %r' % (file and 1.5),
             'self._mainClassName = %r' % name,
             'self._moduleName = %r' % name,
             'self._baseclassName = %r' % base,
             'self._mainMethodNameArg = None',
             'self._setupCompilerState()',
             'cc = self._spawnClassCompiler(self._mainClassName)',
             'if self._baseclassName:',
             '    cc.setBaseClass(self._baseclassName)',
             'self._addActiveClassCompiler(cc)']
    lines += body.strip('\n').split('\n')
    lines += ['self._swallowClassCompiler(self._popActiveClassCompiler())',
              'return self.wrapModuleDef()']
    src = 'def _drv(self):\n' + '\n'.join('    ' + x for x in lines) + '\n'
    f = Func(ast.parse(src).body[0], cls.module, cls=cls)
    kw.setdefault('depth', 14)
    it = ModuleInterp(prog, hook=setting_hook(fixed, settings_dict(
        fixed, hook), spy), exact=True,
                      construct=lambda c: c in layers, opaque=set(), **kw)
    out = []
    for s in it.run(f, selfcls=cls):
        if s.status != 'return':
            out.append((None, None, s))
            continue
        out.append(as_text(s.val) + (s,))
    return it, out


def settings_dict(fixed, other=None):
    """settings() seen as a dictionary."""
    d = ('var', 'settings')

    def hook(it, fn, args, kw, st, n):
        if fn[0] == 'bound' and callee_name(
                ('call', fn, (), (), None)) == 'settings' and not args:
            return [(st, d)]
        if fn == ('attr', d, 'get') and args and is_const(args[0]) and \
                args[0][2] in (fixed or {}):
            return [(st, K(fixed[args[0][2]]))]
        return other(it, fn, args, kw, st, n) if other else None
    return hook


def as_text(val):
    """A string term as text with named holes."""
    holes, names, parts = {}, {}, []
    for t in (val[1] if val[0] == 'cat' else (val,)):
        if is_const(t):
            parts.append(str(t[2]))
            continue
        if t not in names:
            tag = 'R' if t[0] == 'call' and t[1] == ('bi', 'repr') else 'H'
            names[t] = '%s%d_' % (tag, len(names))
            holes[names[t]] = t
        parts.append(names[t])
    return ''.join(parts), holes
