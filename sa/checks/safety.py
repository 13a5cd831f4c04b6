"""C16 isolation of instances, C28 settings, C30 compile-time evaluation."""
import ast

from ..absint import (K, NONE, Interp, show, callee_name, is_const, walk)
from ..model import AnalysisBroken
from ..parse import ParserModel
from ..vocab import known
from . import settings

MUT = {'append', 'extend', 'insert', 'pop', 'update', 'setdefault', 'clear',
       'remove', 'add', 'discard', 'sort', 'reverse', 'popitem',
       '__setitem__', '__delitem__'}
# not part of the library: test suites, a profiler, stand-alone tools
SKIP = ('.Tests', '.tests', '.statprof', '.Tools.MondoReport',
        '.Tools.SiteHierarchy', '.FileUtils')


def library(prog):
    for name, m in sorted(prog.modules.items()):
        if not any(x in name for x in SKIP):
            yield m


def is_mutable(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)) or (
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
        n.func.id in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict',
                      'deque', 'bytearray'))


def module_mutables(m):
    out = {}
    for st in m.tree.body:
        ts = []
        if isinstance(st, ast.Assign):
            ts, v = st.targets, st.value
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            ts, v = [st.target], st.value
        for t in ts:
            if isinstance(t, ast.Name) and is_mutable(v):
                out[t.id] = st.lineno
    return out


def class_mutables(prog):
    """{class qual: {attr: lineno}} including inherited ones."""
    own = {}
    for m in library(prog):
        for c in m.classes.values():
            d = {}
            for st in c.node.body:
                if isinstance(st, ast.Assign) and is_mutable(st.value):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            d[t.id] = '%s:%d' % (m.path, st.lineno)
            own[c.qual] = d
    out = {}
    for m in library(prog):
        for c in m.classes.values():
            d = {}
            for k in reversed(prog.mro(c)):
                d.update(own.get(k.qual, {}))
            out[c.qual] = d
    return out


class Mutations(object):
    """Every in-place change of a container in the library, with the term of
    the container."""

    def __init__(self, prog):
        self.prog = prog
        self.sites = []         # (func, base term, loc, how, state)
        self.stores = []        # (func, attr, value term, loc)
        self.passed = []        # (func, callee name, position/kw, term, loc)
        self.funcs = []
        self.broken = []
        for m in library(prog):
            for f in self.all_functions(m):
                self.scan(f)

    def all_functions(self, m):
        for f in self.prog.all_funcs():
            if f.module is m:
                yield f

    def scan(self, f):
        def keep(e):
            return e.kind in ('setidx', 'delidx', 'setattr', 'call')

        def hook(it, fn, args, kw, st, n):
            # conversions give a new object
            return None
        init = {}
        a = f.node.args
        args = {}
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[::-1], a.defaults[::-1])) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
        self.defaults = {}
        for x, d in pairs:
            if is_mutable(d):
                o = ('default', f.qual, x.arg)
                args[x.arg] = o
                init.setdefault('conds', {})[o] = bool(
                    getattr(d, 'elts', None) or getattr(d, 'keys', None))
        it = Interp(self.prog, depth=2, opaque=known, keep=keep,
                    loop_max=1)
        try:
            states = it.run(f, args=args or None, init=init or None)
        except (AnalysisBroken, RecursionError) as e:
            self.broken.append((f, str(e)))
            self.scan_ast(f)
            return
        self.funcs.append(f)
        seen = set()
        for s in states:
            for e in s.events:
                key = (e.kind, e.term, e.loc)
                if key in seen:
                    continue
                seen.add(key)
                if e.kind in ('setidx', 'delidx'):
                    self.sites.append((f, e.term[1], e.loc, 'item', e))
                elif e.kind == 'setattr':
                    self.stores.append((f, e.term[2], e.x, e.loc, e))
                elif e.kind == 'call':
                    if e.name in MUT and e.recv is not None:
                        self.sites.append((f, e.recv, e.loc, e.name, e))
                    for i, x in enumerate(e.args):
                        self.passed.append((f, e.name, i, x, e.loc))
                    for k, x in e.term[3]:
                        self.passed.append((f, e.name, k, x, e.loc))

    def scan_ast(self, f):
        """A function with too many paths: every change of a name counts,
        whatever the path."""
        local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)
                 and isinstance(n.ctx, ast.Store)}
        self.funcs.append(f)
        for n in ast.walk(f.node):
            b = how = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in MUT:
                b, how = n.func.value, n.func.attr
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                b, how = n.value, 'item'
            if b is None:
                continue
            t = None
            if isinstance(b, ast.Name) and b.id not in local:
                if b.id in module_mutables(f.module):
                    t = ('glob', f.module.name, b.id)
                elif b.id in [x.arg for x in f.node.args.args]:
                    t = ('var', b.id)
            elif isinstance(b, ast.Attribute) and isinstance(
                    b.value, ast.Name) and b.value.id == 'self' and f.cls:
                t = ('attr', ('self', f.cls.qual), b.attr)
            if t is not None:
                self.sites.append((f, t, '%s:%d' % (f.module.path, n.lineno),
                                   how, None))


_mut = {}


def mutations(prog):
    if id(prog) not in _mut:
        _mut.clear()
        _mut[id(prog)] = Mutations(prog)
    return _mut[id(prog)]


def root(t):
    """The object a container expression stands for (through and/or)."""
    if t[0] in ('or', 'and'):
        for x in t[1]:
            for y in root(x):
                yield y
    elif t[0] in ('ite', 'ifexp'):
        for x in t[2:]:
            for y in root(x):
                yield y
    else:
        yield t


def mutated_params(prog, mu):
    """{function name: {param name: position}} for functions that change the
    container they are given."""
    out = {}
    for f, base, loc, how, e in mu.sites:
        for b in root(base):
            if b[0] == 'var':
                names = [a.arg for a in f.node.args.args +
                         f.node.args.kwonlyargs]
                if b[1] in names:
                    out.setdefault(f.name, {})[b[1]] = names.index(b[1]) - (
                        1 if f.cls is not None and not f.is_static else 0)
    return out


# ---------------------------------------------------------------- C16

# module-level containers that are process-wide on purpose
SHARED_OK = {
    ('Cheetah.ImportHooks', '_cacheDir'): 'configuration of the import hook',
    ('Cheetah.ImportManager', '_globalOwnerTypes'):
        'configuration of the import hook, see C26',
}


def c16(ctx):
    ctx.rule('module-state', 'no container of a module is changed while '
             'templates are compiled or rendered, other than memo tables '
             'whose entries depend on their key alone', 1)
    ctx.rule('class-state', 'no container of a class is changed through an '
             'instance', 20)
    ctx.rule('default-argument', 'no default argument is changed, kept or '
             'returned', 1)
    ctx.rule('aliases', 'an attribute that is changed in place never refers '
             'to a container of a module, of a class or to a default '
             'argument', 20)
    ctx.rule('fresh-instance-state', 'everything a template instance changes '
             'in place is created anew for every instance', 4)
    prog = ctx.prog
    mu = mutations(prog)
    cm = class_mutables(prog)
    mm = {m.name: module_mutables(m) for m in library(prog)}
    for f in mu.funcs:
        ctx.unit('functions scanned', f.qual)
    changed_attrs = {}
    for f, base, loc, how, e in mu.sites:
        for b in root(base):
            if b[0] == 'glob' and b[2] in mm.get(b[1], ()):
                ok, why = memo(prog, f, b, how, e)
                ctx.ob('module-state', '%s.%s in %s' % (b[1], b[2], f.name),
                       loc, ok, 'the module-level container %s is changed '
                       '(%s)%s' % (b[2], how, why))
            elif b[0] == 'attr':
                changed_attrs.setdefault(b[2], []).append((f, b, loc))
                if b[1][0] == 'self' and f.cls is not None:
                    d = cm.get(f.cls.qual, {})
                    own = b[2] in d and not assigned_in_init(prog, f.cls,
                                                             b[2])
                    ctx.ob('class-state', '%s.%s' % (f.cls.name, b[2]), loc,
                           not own, '%s changes %s, which all instances '
                           'share (%s)' % (f.qual, b[2], d.get(b[2])))
            elif b[0] == 'default':
                ctx.ob('default-argument', '%s %s' % (f.qual, b[2]), loc,
                       False, 'the default value of %s is changed' % b[2])
    for f, name, i, t, loc in mu.passed:
        for b in root(t):
            if b[0] == 'default' and name in ('append', 'extend'):
                ctx.ob('default-argument', '%s %s' % (f.qual, b[2]), loc,
                       False, 'the default value of %s is kept' % b[2])
    params = mutated_params(prog, mu)
    for f, name, i, t, loc in mu.passed:
        for p, j in params.get(name, {}).items():
            if i != j and i != p:
                continue
            for b in root(t):
                bad = None
                if b[0] == 'glob' and b[2] in mm.get(b[1], ()) and \
                        (b[1], b[2]) not in SHARED_OK:
                    bad = 'the module-level container %s' % b[2]
                elif b[0] == 'default':
                    bad = 'a default argument'
                elif b[0] == 'attr' and f.cls is not None and b[1][0] in (
                        'self', 'cls') and b[2] in cm.get(
                            f.cls.qual, {}) and not assigned_in_init(
                                prog, f.cls, b[2]):
                    bad = 'the class attribute %s' % b[2]
                ctx.ob('aliases', '%s -> %s' % (f.name, name), loc,
                       bad is None, '%s gives %s to %s, which changes it' % (
                           f.qual, bad, name))
    for m in library(prog):
        for f in mu.all_functions(m):
            for d in f.node.args.defaults + [
                    x for x in f.node.args.kw_defaults if x is not None]:
                if is_mutable(d):
                    ctx.ob('default-argument', f.qual, '%s:%d' % (
                        m.path, f.node.lineno), True)
    if not any(True for m in library(prog) for f in mu.all_functions(m)
               for d in f.node.args.defaults if is_mutable(d)):
        ctx.ob('default-argument', 'none in the library', '', True)
    for f, attr, val, loc, e in mu.stores:
        if attr not in changed_attrs:
            continue
        for b in root(val):
            bad = None
            if b[0] == 'glob' and b[2] in mm.get(b[1], ()):
                bad = 'the module-level container %s' % b[2]
            elif b[0] == 'default':
                bad = 'a default argument'
            elif b[0] == 'attr' and f.cls is not None and b[1][0] in (
                    'self', 'cls') and b[2] in cm.get(f.cls.qual, {}) and \
                    not assigned_in_init(prog, f.cls, b[2]):
                bad = 'the class attribute %s' % b[2]
            where = changed_attrs[attr][0]
            ctx.ob('aliases', attr, loc, bad is None,
                   '%s is set to %s and changed in place in %s (%s)' % (
                       attr, bad, where[0].qual, where[2]))
    fresh(ctx, prog, changed_attrs)


def assigned_in_init(prog, cls, attr):
    for k in prog.mro(cls):
        for name in ('__init__', '_setupState', '_setupCompilerState'):
            f = k.methods.get(name)
            if f is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == attr and \
                        isinstance(n.ctx, ast.Store) and isinstance(
                            n.value, ast.Name) and n.value.id == 'self':
                    return True
    return False


def memo(prog, f, b, how, e):
    """cache[key] = value where value depends on nothing but the key."""
    if (b[1], b[2]) in SHARED_OK:
        return True, ''
    if how in ('sort', 'reverse') and f.module.name.endswith(
            '.CheetahWrapper'):
        return True, ' (only the order changes, in the command line tool)'
    names = {'_moduleNamesInUse'}
    if b[2] in names:
        return True, ' (see C05)'
    if e is not None and e.kind == 'setidx':
        keyv = {x for x in walk(e.term[2]) if x[0] in ('var', 'self', 'attr')}
        valv = {x for x in walk(e.x) if x[0] in ('var', 'self')} \
            if e.x else set()
        if valv <= keyv:
            return True, ''
        return False, ': the entry depends on %s, the key only on %s' % (
            sorted(show(x) for x in valv), sorted(show(x) for x in keyv))
    return False, ''


def fresh(ctx, prog, changed_attrs):
    c = prog.cls('Template', 'Template')
    f = prog.find_method(c, '_initCheetahInstance')
    me = ('self', c.qual)

    def hook(it, fn, a, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        if nm == 'getattr' and len(a) == 3 and is_const(a[1]) and \
                a[1][2] == '_CHEETAH__instanceInitialized':
            return [(st, K(False))]
        return None
    a = {x.arg: NONE for x in f.node.args.args[1:]}
    a.update({'filter': K('F'), 'filtersLib': ('var', 'L')})
    want = {x for x in changed_attrs if x.startswith('_CHEETAH__')}
    # and everything the generated code changes
    want |= {'_CHEETAH__globalSetVars'}
    n = 0
    for s in Interp(prog, depth=2, hook=hook).run(f, selfcls=c, args=a):
        if s.status == 'raise':
            continue
        n += 1
        for w in sorted(want):
            v = s.heap.get((me, w))
            if v is None:
                ctx.ob('fresh-instance-state', w, f.module.path, False,
                       '%s is changed in place but not initialised for '
                       'every instance' % w)
                continue
            ctx.ob('fresh-instance-state', w, f.module.path,
                   v[0] == 'obj' or v == NONE or v[0] == 'call',
                   '%s of a new instance is %s' % (w, show(v)))
        ind = s.heap.get((me, '_CHEETAH__indenter'))
        if ind is not None:
            ctx.ob('fresh-instance-state', '_CHEETAH__indenter',
                   f.module.path, ind[0] in ('obj', 'call', 'new'),
                   'the indenter of a new instance is %s' % show(ind))
    if not n:
        raise AnalysisBroken('no path through _initCheetahInstance')


# ---------------------------------------------------------------- C28

def c28(ctx):
    ctx.rule('declared', 'every setting the compiler asks for without a '
             'default is declared', 30)
    ctx.rule('defaults-copied', 'the declared defaults are copied deeply '
             'into every compiler and parser', 1)
    ctx.rule('caller-settings', 'a value taken from the settings, or a '
             'settings dictionary given by the caller, is never changed in '
             'place', 20)
    ctx.rule('override', 'settings given to the compiler replace the '
             'declared defaults, and are in place before the source is read',
             1)
    ctx.rule('merge', 'merging settings keeps what is not overridden and '
             'takes every overriding value', 3)
    ctx.rule('config-text', 'a setting written in #compiler-settings has the '
             'value its text stands for, and leaves the others', 20)
    ctx.rule('asked', 'a setting is what was set, even if that is false; the '
             'default is for settings that are not there', 2)
    prog = ctx.prog
    mu = mutations(prog)
    declared(ctx, prog)
    defaults(ctx, prog)
    borrowed(ctx, prog, mu)
    override(ctx, prog)
    merge(ctx, prog)
    settings.text(ctx, prog)
    settings.use(ctx, prog)


def default_names(prog):
    m = prog.mod('Compiler')
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) \
                and st.targets[0].id == '_DEFAULT_COMPILER_SETTINGS':
            names = []
            for el in st.value.elts:
                names.append(el.elts[0].value)
            return names
    v = prog.literal(m, 'DEFAULT_COMPILER_SETTINGS')
    if v:
        return list(v)
    raise AnalysisBroken('compiler settings table not found')


def declared(ctx, prog):
    names = set(default_names(prog))
    dup = [x for x in default_names(prog)]
    for m in library(prog):
        if m.name.split('.')[-1] not in ('Compiler', 'Parser', 'I18n',
                                         'Template', 'SourceReader'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ('setting',) and n.args and \
                    isinstance(n.args[0], ast.Constant):
                has = len(n.args) > 1 or any(k.arg == 'default'
                                             for k in n.keywords)
                ctx.ob('declared', n.args[0].value, '%s:%d' % (
                    m.path, n.lineno), has or n.args[0].value in names,
                    'the setting %r is asked for but not declared'
                    % n.args[0].value)
    for x in set(dup):
        ctx.ob('declared', 'once: ' + x, prog.mod('Compiler').path,
               dup.count(x) == 1, 'the setting %r is declared twice' % x)


def defaults(ctx, prog):
    n = 0
    for m in library(prog):
        for c in m.classes.values():
            f = c.methods.get('_initializeSettings')
            if f is None:
                continue
            for s in Interp(prog, depth=2, opaque={'updateSettings'},
                            keep=lambda e: e.kind in (
                                'call', 'setattr')).run(f, selfcls=c):
                for e in s.events:
                    vals = []
                    if e.kind == 'call' and e.name in ('updateSettings',
                                                       'update'):
                        vals = list(e.args) + [v for k, v in e.term[3]]
                    elif e.kind == 'setattr':
                        vals = [e.x]
                    for v in vals:
                        g = [x for x in walk(v) if x[0] == 'glob'
                             and 'DEFAULT' in x[2].upper()]
                        if not g:
                            continue
                        n += 1
                        deep = any(x[0] == 'call' and callee_name(x) ==
                                   'deepcopy' and any(
                                       y in g for y in walk(x))
                                   for x in walk(v))
                        ctx.ob('defaults-copied', c.name, e.loc, deep,
                               'the defaults are used as %s: changes reach '
                               'all later compilations' % show(v))
    c = prog.cls('Compiler', 'ModuleCompiler')
    f = prog.find_method(c, '_initializeSettings')
    if f is None or not n:
        ctx.ob('defaults-copied', 'ModuleCompiler', prog.mod(
            'Compiler').path, False, 'the defaults are not installed by '
            '_initializeSettings')


SETTING_READERS = {'setting', 'settings', 'deepcopySettings'}


def from_settings(t):
    """A value owned by whoever configured the compiler."""
    if t[0] == 'call' and callee_name(t) == 'setting':
        return True
    if t[0] == 'call' and callee_name(t) == 'get' and t[1][0] == 'attr' and \
            t[1][1][0] == 'call' and callee_name(t[1][1]) == 'settings':
        return True
    if t[0] == 'idx' and t[1][0] == 'call' and \
            callee_name(t[1]) == 'settings':
        return True
    return False


CALLER = {'compilerSettings', 'moduleGlobals', 'searchList', 'namespaces'}


def borrowed(ctx, prog, mu):
    params = mutated_params(prog, mu)
    for f, base, loc, how, e in mu.sites:
        if f.module.name.split('.')[-1] not in ('Parser', 'Compiler',
                                                'Template', 'I18n'):
            continue
        for b in root(base):
            own = not from_settings(b)
            if b[0] == 'var' and b[1] in CALLER and \
                    f.name in ('compile', '__init__', 'subclass',
                               '_initCheetahInstance', '_compile'):
                own = False
            if b[0] == 'attr' and b[2] in ('compilerSettings',
                                           'templateInitArgs') and \
                    b[1][0] == 'var':
                own = False
            ctx.ob('caller-settings', '%s %s' % (f.name, how), loc, own,
                   '%s changes %s, which belongs to the caller' % (
                       f.qual, show(b)))
    for f, name, i, t, loc in mu.passed:
        if name not in params or f.module.name.split('.')[-1] not in (
                'Parser', 'Compiler', 'Template', 'I18n'):
            continue
        for p, j in params[name].items():
            if i != j and i != p:
                continue
            for b in root(t):
                own = not from_settings(b)
                if b[0] == 'var' and b[1] in CALLER and f.name in (
                        'compile', '__init__', 'subclass', '_compile'):
                    own = False
                if b[0] == 'attr' and b[2] in ('compilerSettings',
                                               'templateInitArgs') and \
                        b[1][0] == 'var':
                    own = False
                ctx.ob('caller-settings', '%s -> %s' % (f.name, name), loc,
                       own, '%s gives %s, which belongs to the caller, to '
                       '%s, which changes it' % (f.qual, show(b), name))


def override(ctx, prog):
    c = prog.cls('Compiler', 'ModuleCompiler')
    f = prog.find_method(c, '__init__')
    st = ('var', 'settings')
    me = ('self', c.qual)
    n = 0

    def hook(it, fn, a, kw, s, nd):
        nm = callee_name(('call', fn, (), (), None))
        if nm in ('search', 'match', 'startswith', 'find', 'hasattr'):
            return [(s, K(-1) if nm == 'find' else NONE
                     if nm in ('search', 'match') else K(False))]
        if nm == 'isinstance' and is_const(a[0]):
            return [(s, K(isinstance(a[0][2], str)))]
        return None
    states = []
    for extra in ({'source': K('text'), 'file': NONE},
                  {'source': NONE, 'file': K('a.tmpl')}):
        args = {p.arg: NONE for p in f.node.args.args[1:]}
        args.update(extra)
        args['settings'] = st
        args['moduleName'] = K('m')
        it = Interp(prog, depth=2, opaque=known, hook=hook,
                    keep=lambda e: e.kind == 'call', loop_max=1)
        states += it.run(f, selfcls=c, args=args, init={'conds': {st: True}})
    for s in states:
        if s.status == 'raise':
            continue
        given = s.conds.get(st)
        none = s.conds.get(('cmp', 'is', st, NONE))
        if given is False or none is True:
            continue
        n += 1
        names = []
        for e in s.events:
            if e.name == '__init__':
                names.append('init')
            elif e.name in ('updateSettings',) and e.args[:1] == (st,):
                names.append('update')
            elif callee_name(e.term) == 'parserClass' or \
                    e.term[1][0] == 'attr' and \
                    e.term[1][2] == 'parserClass':
                names.append('parser')
        ok = names[:3] == ['init', 'update', 'parser'] or (
            'update' in names and 'parser' in names and
            names.index('update') < names.index('parser') and
            (names.index('init') if 'init' in names else -1) <
            names.index('update'))
        ctx.ob('override', 'ModuleCompiler', f.module.path, ok,
               'the order is %s' % names)
    if not n:
        raise AnalysisBroken('no path through ModuleCompiler.__init__')


def merge(ctx, prog):
    """mergeNestedDictionaries({a: x, n: {p: y}}, {a: u, n: {q: v}})."""
    f = prog.func('SettingsManager', 'mergeNestedDictionaries')
    if f is None:
        raise AnalysisBroken('mergeNestedDictionaries missing')
    d1, d2 = ('obj', 'dict', 'd1'), ('obj', 'dict', 'd2')
    x, u = ('var', '@x'), ('var', '@u')
    a, b = K('a'), K('b')
    for label, i1, i2, want in (
            ('override', ((a, x),), ((a, u),), {a: u}),
            ('keep', ((a, x),), ((b, u),), {a: x, b: u}),
            ('keep, nothing new', ((a, x),), (), {a: x})):
        it = Interp(prog, depth=2, loop_max=3)
        pn = [p.arg for p in f.node.args.args]
        args = {pn[0]: d1, pn[1]: d2}
        for p in pn[2:]:
            args[p] = K(False)
        for s in it.run(f, args=args, init={
                'heap': {(d1, 'items'): i1, (d2, 'items'): i2},
                'conds': {}}):
            if s.status != 'return':
                ctx.ob('merge', label, f.module.path, False, 'fails with %s'
                       % show(s.val))
                continue
            # nested merging of x and u is judged by the recursive call
            got = s.heap.get((d1, 'items'))
            d = dict(got) if got is not None else None
            nest = d is not None and d.get(a) is not None and \
                d[a][0] == 'call' and callee_name(d[a]) == \
                'mergeNestedDictionaries' and u in d[a][2] + tuple(
                    v for k, v in d[a][3])
            if nest:
                d = dict(d)
                d[a] = want[a]
            isd = [k for k, v in s.conds.items() if v and k[0] == 'call' and
                   callee_name(k) == 'isinstance']
            if label == 'override' and len(isd) == 2 and not nest and \
                    d is not None and d.get(a) == x:
                continue    # merged in place by the (inlined) recursion
            ctx.ob('merge', label, f.module.path, d == want and s.val == d1,
                   'the result is %s' % (
                       got and {show(k): show(v) for k, v in got}))


# ---------------------------------------------------------------- C30

EVALS = {'eval', 'exec', '__import__', 'execfile', 'import_module', 'system',
         'popen', 'compile'}
# directives that exist to run code while compiling
PERMITTED = {'compiler', 'compiler-settings', 'defmacro'}
MODS = ('Parser', 'Compiler', 'SourceReader', 'SettingsManager', 'I18n',
        'Indenter', 'Misc', 'Unspecified', 'compat', 'NameMapper', 'Macros')


def c30(ctx):
    ctx.rule('reachable', 'no evaluation of text is reachable while Python '
             'code is generated, other than from the directives that exist '
             'for it', 40)
    ctx.rule('literal', 'what is evaluated elsewhere is a string literal '
             'that was just read', 0)
    prog = ctx.prog
    pm = ParserModel(prog)
    uni = [f for f in prog.all_funcs()
           if f.module.name.split('.')[-1] in MODS and
           not any(x in f.module.name for x in SKIP)]
    byname = {}
    for f in uni:
        byname.setdefault(f.name, []).append(f)
    classes = {c.name: c for m in library(prog) for c in m.classes.values()
               if m.name.split('.')[-1] in MODS}
    stop = set()
    for d in PERMITTED:
        h = pm.table.get(d)
        if h:
            stop.add(h)
    stop.add('eatMacroCall')
    edges = {}
    sinks = {}
    for f in uni:
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else \
                    n.func.attr if isinstance(n.func, ast.Attribute) else None
                ext = isinstance(n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and n.func.value.id in (
                        're', 'os', 'sys', 'copyModule', 'copy')
                if nm in EVALS and not (nm == 'compile' and not isinstance(
                        n.func, ast.Name)) and not (
                        ext and n.func.value.id in ('re', 'copy')):
                    sinks.setdefault(f.qual, []).append(n)
                if nm in classes:
                    g = prog.find_method(classes[nm], '__init__')
                    if g is not None:
                        out.add(g.qual)
                if not ext and nm in byname:
                    out.update(g.qual for g in byname[nm])
            elif isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Load) and n.attr in byname:
                out.update(g.qual for g in byname[n.attr])
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in byname:
                out.update(g.qual for g in byname[n.id] if g.cls is None)
        edges[f.qual] = out
    byq = {f.qual: f for f in uni}
    roots = []
    mc = prog.cls('Compiler', 'ModuleCompiler')
    for name in ('__init__', 'compile', 'getModuleCode', 'getModuleEncoding',
                 'setShBang'):
        g = prog.find_method(mc, name)
        if g is None:
            raise AnalysisBroken('ModuleCompiler.%s missing' % name)
        roots.append(g.qual)
    for d, h in pm.table.items():
        if h and h not in stop:
            roots += [g.qual for g in byname.get(h, [])]
    for d, h in pm.endtable.items():
        if h:
            roots += [g.qual for g in byname.get(h, [])]
    roots += [f.qual for f in uni if f.name in ('parse', 'eatPSP',
                                                'eatDirective')]
    prev = {r: None for r in roots}
    work = list(roots)
    while work:
        q = work.pop()
        for r in edges.get(q, ()):
            if r in prev or byq[r].name in stop:
                continue
            prev[r] = q
            work.append(r)
    for q in sorted(prev):
        f = byq[q]
        ctx.unit('functions reachable while generating code', q)
        for n in sinks.get(q, ()):
            ok, why = literal_sink(prog, f, n)
            path = [q]
            while prev[path[-1]]:
                path.append(prev[path[-1]])
            loc = '%s:%d' % (f.module.path, n.lineno)
            if ok:
                ctx.ob('literal', f.name, loc, True)
            ctx.ob('reachable', q, loc, ok,
                   '%s is reached while code is generated (%s): %s' % (
                       ast.unparse(n)[:80], ' <- '.join(
                           x.split(':')[-1] for x in path[:6]), why))
        if q not in sinks:
            ctx.ob('reachable', q, f.module.path, True)


def literal_sink(prog, f, n):
    """eval(token) where the token starts with a quote."""
    cls = f.cls
    it = Interp(prog, depth=2, opaque=known, loop_max=1,
                keep=lambda e: e.kind == 'call')
    try:
        states = it.run(f, selfcls=cls)
    except AnalysisBroken as e:
        return False, str(e)
    hits = 0
    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
    for s in states:
        for e in s.events:
            if e.name != nm or not e.loc.endswith(':%d' % n.lineno):
                continue
            hits += 1
            a = e.args[0] if e.args else NONE
            core = a
            while core[0] == 'call' and core[1][0] == 'attr' and \
                    core[1][2] in ('upper', 'strip', 'lower'):
                core = core[1][1]
            tok = core[0] == 'call' and callee_name(core) == 'getPyToken'
            quote = any(v and k[0] == 'cmp' and k[1] == 'in' and
                        is_const(k[3]) and set(k[3][2]) <= set('\'"') and
                        any(x[0] == 'call' and callee_name(x) == 'peek'
                            for x in walk(k[2]))
                        for k, v in e.conds.items())
            if not (tok and quote):
                return False, 'the evaluated text is %s' % show(a)
    if not hits:
        return False, 'the evaluation is not understood'
    return True, ''


CHECKS = {
    'C16': (c16, 'isolation of template instances'),
    'C28': (c28, 'compiler settings'),
    'C30': (c30, 'evaluation while code is generated'),
}
