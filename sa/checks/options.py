"""C22: options given to compile() and to the constructor take effect."""
import ast

from ..absint import (K, NONE, Interp, callee_name, contains, is_const, show,
                      walk)
from ..model import AnalysisBroken, Class
from .caching import plain
from .template import (KIND, OPAQUE, PAT, CompileInterp, hit_terms, is_cache,
                       params)

QUIET = {'isinstance', 'hash', 'hashDict', 'sub', 'time', 'globals',
         'getmtime', 'hasattr', 'exists', 'TypeError', 'len', 'tuple', 'repr',
         'bool', 'acquire', 'release'}
# the attribute (or method) of the class that an option defaults to
DEFAULTS = {
    'baseclass': '_CHEETAH_defaultBaseclassForTemplates',
    'className': '_CHEETAH_defaultClassNameForTemplates',
    'mainMethodName': '_CHEETAH_defaultMainMethodNameForTemplates',
    'moduleGlobals': '_CHEETAH_defaultModuleGlobalsForTemplates',
    'cacheCompilationResults': '_CHEETAH_cacheCompilationResults',
    'useCache': '_CHEETAH_useCompilationCache',
    'keepRefToGeneratedCode': '_CHEETAH_keepRefToGeneratedCode',
    'cacheModuleFilesForTracebacks': '_CHEETAH_cacheModuleFilesForTracebacks',
    'cacheDirForModuleFiles': '_CHEETAH_cacheDirForModuleFiles',
    'preprocessors': '_CHEETAH_preprocessors',
    'compilerSettings': '_getCompilerSettings',
    'compilerClass': '_getCompilerClass',
}
G = ('obj', 'dict', '@globals')
EMPTY = ('obj', 'dict', '@empty')
GLOBALS = ((K('ga'), ('var', 'va')), (K('gb'), ('var', 'vb')))
TYPED = ('source', 'file', 'moduleName', 'className', 'mainMethodName',
         'baseclass', 'compilerSettings', 'cacheCompilationResults',
         'useCache', 'keepRefToGeneratedCode',
         'cacheModuleFilesForTracebacks', 'cacheDirForModuleFiles')


def unspecified(prog):
    for m in prog.modules.values():
        if m.name.endswith('Unspecified'):
            return ('glob', m.name, 'Unspecified')
    return ('glob', 'Cheetah.Unspecified', 'Unspecified')


def subclass_of(prog, c):
    """A class derived from `c`, so that the class compile() is called on and
    Template itself can be told apart."""
    name = '_Derived' + c.name
    if name not in c.module.classes:
        c.module.classes[name] = Class(ast.parse(
            'class %s(%s): pass' % (name, c.name)).body[0], c.module)
    return c.module.classes[name]


class Options(CompileInterp):
    unspec = None

    def cmp(self, op, a, b, st):
        # no value but the marker itself is the marker for 'not given'
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                self.unspec in (a, b):
            return K((a == b) == isinstance(op, (ast.Is, ast.Eq)))
        return CompileInterp.cmp(self, op, a, b, st)


def c22(ctx):
    ctx.rule('given', 'an option given to compile() is what the compiler, '
             'the module or the class is made with', 8)
    ctx.rule('default', 'an option that is not given is that of the class '
             'compile() is called on', 8)
    ctx.rule('typed', 'an option of the wrong type is a TypeError, before '
             'anything is compiled', 8)
    ctx.rule('result', 'the class returned is the named one of the module '
             'made from this code, or the code itself if asked for', 2)
    ctx.rule('preprocess', 'preprocessors are applied one after the other, '
             'the first to what was given, and the result of the last is '
             'compiled', 3)
    ctx.rule('tokens', 'a preprocessor given by its tokens or settings '
             'renders the source with exactly these', 0)
    ctx.rule('constructor', 'Template() compiles the source or file it is '
             'given with the settings it is given', 2)
    ctx.rule('filter', 'the filter given to the constructor is the initial '
             'and current one', 2)
    ctx.rule('subclass', 'subclass() compiles with the class as base', 1)
    prog = ctx.prog
    c = prog.cls('Template', 'Template')
    if c is None or prog.find_method(c, 'compile') is None:
        raise AnalysisBroken('Template.compile missing')
    sub = subclass_of(prog, c)
    try:
        run_compile(ctx, prog, sub)
        wrong_types(ctx, prog, sub)
        preprocess(ctx, prog, sub)
        tokens(ctx, prog, sub)
        constructor(ctx, prog, c)
        filters(ctx, prog, c)
        subclass(ctx, prog, sub)
    finally:
        del c.module.classes[sub.name]


def run(ctx, prog, sub, over, kinds=None, truth=None):
    f = prog.find_method(sub, 'compile')
    names = params(f)
    U = unspecified(prog)
    kinds = dict(KIND, **(kinds or {}))
    args = {n: ('var', n) for n in names}
    args.update(file=NONE, moduleGlobals=G, preprocessors=NONE,
                commandlineopts=NONE)
    args.update({k: (U if v == 'U' else v) for k, v in over.items()})
    args = {k: v for k, v in args.items() if k in names}
    conds = {}
    for n in names:
        conds[('cmp', 'is', ('var', n), NONE)] = False
    for n in ('moduleName', 'className', 'mainMethodName', 'source', 'file',
              'baseclass', 'compilerSettings'):
        conds[('var', n)] = True
    conds.update(truth or {})

    def hook(it, fn, a, kw, st, n):
        if fn == ('bi', 'isinstance') and len(a) == 2:
            ts = {x[-1] for x in walk(a[1]) if isinstance(x[-1], str)}
            if a[0] == NONE:
                return [(st, K('NoneType' in ts))]
            if a[0][0] == 'var' and a[0][1] in kinds:
                k = kinds[a[0][1]]
                return [(st, K(k is not None and bool(ts & set(PAT[k]))))]
            if a[0][0] == 'attr' and a[0][1] == ('cls', sub.qual) or \
                    a[0][0] == 'call' and callee_name(a[0]) in \
                    DEFAULTS.values():
                nm = a[0][2] if a[0][0] == 'attr' else callee_name(a[0])
                opt = [o for o, d in DEFAULTS.items() if d == nm]
                if opt and opt[0] in kinds:
                    return [(st, K(bool(ts & set(PAT[kinds[opt[0]]]))))]
        return None
    it = Options(prog, keep=lambda e: e.kind != 'call' or
                 e.name not in QUIET, depth=6, max_states=60000, hook=hook,
                 exact=True, loop_max=3,
                 opaque=lambda fn: fn.name in OPAQUE or
                 fn.module.name.split('.')[-1] != 'Template')
    it.unspec = U
    ends = it.run(f, selfcls=sub, args=args, init={
        'conds': conds, 'heap': {(G, 'items'): GLOBALS,
                                 (EMPTY, 'items'): ()}})
    for q in it.n_inlined | {f.qual}:
        ctx.unit('functions analysed', q)
    return f, ends


def expected(sub, over):
    want = {n: ('var', n) for n in KIND}
    want.update(compilerClass=('var', 'compilerClass'), file=NONE)
    me = want['me'] = ('cls', sub.qual)
    for o, v in over.items():
        if v == 'U':
            want[o] = ('attr', me, DEFAULTS[o])
        elif o in want:
            want[o] = v
    return want


def comes_from(t, want, avoid=()):
    """The term is made from the wanted value and from no other option."""
    if t is None:
        return False
    if not contains(t, lambda x: x == want):
        return False
    return not any(contains(t, lambda x, a=a: x == a) for a in avoid
                   if a != want)


def compiler_params(prog):
    c = prog.cls('Compiler', 'ModuleCompiler')
    f = c and prog.find_method(c, '__init__')
    if f is None:
        raise AnalysisBroken('ModuleCompiler.__init__ missing')
    return [a.arg for a in f.node.args.args][1:]


def run_compile(ctx, prog, sub):
    cases = [('all given', {}, {}), ('base class by name', {},
                                     {'baseclass': 'str'}),
             ('from a file', {'file': ('var', 'file'), 'source': NONE}, {}),
             ('no moduleName', {'moduleName': NONE}, {})]
    for o in DEFAULTS:
        cases.append(('no ' + o, {o: 'U'}, {}))
    fromfile = {'file': ('var', 'file'), 'source': NONE}
    for o in DEFAULTS:
        cases.append(('no %s, from a file' % o, dict(fromfile, **{o: 'U'}),
                      {}))
    cases += [('preprocessors', {'preprocessors': ('var', 'preprocessors')},
               {}),
              ('preprocessors, from a file', dict(fromfile, preprocessors=(
                  'var', 'preprocessors')), {}),
              ('empty moduleGlobals', {'moduleGlobals': EMPTY}, {}),
              ('empty compilerSettings', {'compilerSettings': EMPTY}, {}),
              ('baseclass=None', {'baseclass': NONE}, {}),
              ('mainMethodName=None', {'mainMethodName': NONE}, {})]
    pos = compiler_params(prog)
    me = ('cls', sub.qual)
    for case, over, kinds in cases:
        f, ends = run(ctx, prog, sub, over, kinds)
        loc = f.loc()
        want = expected(sub, over)
        if over.get('moduleName') == NONE:
            want['moduleName'] = ('attr', me,
                                  '_CHEETAH_defaultModuleNameForTemplates')
        rule = 'default' if case.startswith('no ') else 'given'
        other = [('var', n) for n in KIND] + [
            ('attr', me, d) for d in DEFAULTS.values()]
        ok_paths = 0
        for s in ends:
            if s.status == 'raise':
                continue
            made = [e for e in s.events if e.kind == 'call' and
                    comp_call(e.term, want['compilerClass'])]
            if not made:
                anycomp = [e for e in s.events if e.kind == 'call' and
                           e.name in ('getModuleCode',)]
                hit = s.val is not None and bool(hit_terms(s))
                use = decided(s.conds, want['useCache'])
                ctx.ob(rule, case + ': compilerClass', loc,
                       hit and not anycomp,
                       'the code is not compiled with the compiler class '
                       'that was asked for')
                ctx.ob(rule, case + ': useCache', loc, not hit or
                       use is True, 'a cached class is returned though '
                       'useCache %s' % ('is false' if use is False else
                                        'was not looked at'))
                continue
            ok_paths += 1
            e = made[0]
            kw = dict(zip(pos, e.term[2]))
            kw.update(dict(e.term[3]))
            judge(ctx, rule, case, loc, s, e, kw, want, other,
                  pre_term(over, me))
        ctx.ob(rule, case + ': compiles', loc, ok_paths > 0,
               'no path compiles anything')


def decided(conds, t):
    """Truth of a value on a path, however it was asked."""
    if t in conds:
        return conds[t]
    for k, v in conds.items():
        if k[0] == 'cmp' and k[1] in ('==', 'is') and t in k[2:]:
            x = k[3] if k[2] == t else k[2]
            if is_const(x):
                return bool(x[2]) == v
    return None


def comp_call(t, want):
    """A call of the compiler class that is asked for."""
    if t[0] != 'call':
        return False
    fn = t[1]
    if fn == want:
        return True
    if want[0] == 'attr' and fn[0] == 'call' and callee_name(fn) == want[2]:
        return fn[1][0] in ('attr', 'bound') and want[1] in (fn[1][1],)
    return False


def pre_term(over, me):
    v = over.get('preprocessors', NONE)
    return ('attr', me, DEFAULTS['preprocessors']) if v == 'U' else v


def preprocessed(t, i, w, pre):
    """element i of the result of the preprocessors for w"""
    return t is not None and t[0] == 'idx' and t[2] == K(i) and \
        t[1][0] == 'call' and callee_name(t[1]) == '_preprocessSource' and \
        all(contains(t[1][2] + tuple(v for k, v in t[1][3]),
                     lambda x, y=y: x == y) for y in (w, pre))


def judge(ctx, rule, case, loc, s, e, kw, want, other, pre):
    settings_call = want['compilerSettings']

    def same(t, w):
        if w[0] == 'attr' and w[2] == '_getCompilerSettings':
            return contains(t, lambda x: x[0] == 'call' and
                            callee_name(x) == w[2] and contains(
                                x[1], lambda y: y == w[1]))
        return comes_from(t, w, other)
    for opt, par in (('moduleName', 'moduleName'),
                     ('className', 'mainClassName'),
                     ('mainMethodName', 'mainMethodName')):
        t = kw.get(par)
        w = want[opt]
        if opt == 'className' and s.conds.get(w) is False:
            w = want['moduleName']      # no name given: that of the module
        ctx.ob(rule, '%s: %s' % (case, opt), loc, t is not None and (
            same(t, w) or opt == 'className' and comes_from(t, w, [
                x for x in other if x != want['moduleName']])),
               'the compiler is given %s=%s' % (
                   par, show(t) if t is not None else None))
    t = kw.get('settings')
    falsy = decided(s.conds, want['compilerSettings']) is False
    if settings_call[0] == 'attr':
        falsy = any(k[0] == 'call' and callee_name(k) == settings_call[2]
                    and v is False for k, v in s.conds.items())
    empty = settings_call == EMPTY and t is not None and s.heap.get(
        (t, 'items')) == ()
    ctx.ob(rule, case + ': compilerSettings', loc, t is not None and (
        same(t, settings_call) or falsy or empty),
        'the compiler is given settings=%s' % (
            show(t) if t is not None else None))
    for opt in ('source', 'file'):
        w = want[opt]
        t = kw.get(opt)
        if pre == NONE:
            ok = t == w or w == NONE and t is None
        else:
            on = decided(s.conds, pre)
            ok = on is False and t == w or on is True and preprocessed(
                t, ('source', 'file').index(opt), w, pre)
        ctx.ob(rule, '%s: %s' % (case, opt), loc, ok,
               'the compiler is given %s=%s' % (opt, show(t) if t else None))
    # base class
    t = kw.get('baseclassName')
    w = want['baseclass']
    truth = s.conds.get(w) if w != NONE else False
    if w == NONE:
        ctx.ob(rule, case + ': baseclass', loc, t in (None, NONE),
               'the compiler is given baseclassName=%s' % (t and show(t)))
    execs = [i for i, x in enumerate(s.events) if x.kind == 'call' and
             x.name in ('exec', 'exec_')]
    before = s.events[:execs[0]] if execs else s.events
    if truth is not False:
        named = t is not None and contains(t, lambda x: x == w)
        ctx.ob(rule, case + ': baseclass', loc, named,
               'the compiler is given baseclassName=%s' % (
                   show(t) if t is not None else None))
        if named and t != w and execs:
            put = any(x.kind == 'call' and x.name == 'setattr' and
                      len(x.args) == 3 and plain(x.args[1]) == plain(t) and
                      contains(x.args[2], lambda y: y == w)
                      for x in before) or any(
                x.kind in ('setidx', 'setattr', 'call') and contains(
                    plain(x.term), lambda y: y == plain(t)) and
                x.name not in (None, ) and contains(
                    x.term, lambda y: y[0] == 'attr' and
                    y[2] == '__dict__') for x in before)
            ctx.ob(rule, case + ': base class in the module', loc, put,
                   'the module is run without the base class under the name '
                   'its code uses')
    if not execs:
        return
    # globals
    g = want['moduleGlobals']
    if g == ('var', 'moduleGlobals'):
        g = G
    if g == G:
        seen = {}
        for x in before:
            if x.kind == 'call' and x.name == 'setattr' and \
                    len(x.args) == 3:
                seen[x.args[1]] = x.args[2]
            if x.kind == 'call' and x.name == 'update' and contains(
                    x.term, lambda y: y == G):
                seen.update(GLOBALS)
            if x.kind == 'setattr' and x.term[0] == 'attr':
                seen[K(x.term[2])] = x.x
            if x.kind == 'setidx' and x.term[0] == 'idx' and \
                    x.x is not None:
                seen[x.term[2]] = x.x
        ok = all(seen.get(k) == v for k, v in GLOBALS)
    elif g == EMPTY:
        d = ('attr', want['me'], DEFAULTS['moduleGlobals'])
        ok = not any(contains(x.term, lambda y: y == d) for x in before
                     if x.kind in ('call', 'loop'))
    else:
        ok = decided(s.conds, g) is False or any(
            contains(x.term, lambda y: y == g) for x in before if
            x.kind == 'call' and x.name in ('setattr', 'update')) or any(
            x.kind == 'loop' and contains(x.term, lambda y: y == g)
            for x in before)
    ctx.ob(rule, case + ': moduleGlobals', loc, ok,
           'the module is run without the globals that were asked for')
    keep = decided(s.conds, want['keepRefToGeneratedCode'])
    if keep is True:
        ctx.ob(rule, case + ': keepRefToGeneratedCode', loc, any(
            x.kind == 'setattr' and x.term[2] ==
            '_CHEETAH_generatedModuleCode' for x in s.events),
            'the generated code is not kept')
    store = [x for x in s.events if x.kind == 'setidx' and is_cache(
        x.term[1])]
    if store:
        ctx.ob(rule, case + ': cacheCompilationResults', loc, decided(
            s.conds, want['cacheCompilationResults']) is True,
            'the class is cached although cacheCompilationResults is not '
            'true')
    opens = [x for x in s.events if x.kind == 'call' and x.name == 'open'
             and len(x.args) > 1]
    if opens:
        ctx.ob(rule, case + ': cacheModuleFilesForTracebacks', loc, decided(
            s.conds, want['cacheModuleFilesForTracebacks']) is True,
            'a file is written although it was not asked for')
        d = want['cacheDirForModuleFiles']
        ctx.ob(rule, case + ': cacheDirForModuleFiles', loc, contains(
            opens[0].term, lambda y: y == d),
            'the module is written to %s' % show(opens[0].args[0]))
    # what is returned
    code = [x for x in s.events if x.kind == 'call' and x.name in (
        'exec', 'exec_')][-1]
    ctx.ob('result', case + ': code', loc, contains(
        code.term, lambda y: y[0] == 'call' and callee_name(y) in (
            'getModuleCode', '__str__') and contains(y[1], lambda z:
                                                     z == e.term)),
        'the module is not made from the code of this compilation')
    v = s.val
    mod = code.args[1] if len(code.args) > 1 else None
    home = None
    if mod is not None and mod[0] == 'attr':
        home = mod[1]
    elif mod is not None and mod[0] == 'call' and mod[2]:
        home = mod[2][0]
    name = kw.get('mainClassName')
    ok = v is not None and home is not None and contains(
        plain(v), lambda y: y == plain(home)) and contains(
            plain(v), lambda y: y == plain(name))
    ctx.ob('result', case + ': class', loc, ok,
           'compile() returns %s' % show(v)[:200])


def wrong_types(ctx, prog, sub):
    for o in TYPED:
        over = {o: ('var', o)}
        if o == 'file':
            over['source'] = NONE
        f, ends = run(ctx, prog, sub, over, {o: None})
        for s in ends:
            early = not any(e.kind == 'call' and (
                e.name == 'getModuleCode' or comp_call(
                    e.term, ('var', 'compilerClass')))
                for e in s.events)
            ctx.ob('typed', o, f.loc(), s.status == 'raise' and early and
                   s.val is not None and 'TypeError' in show(s.val),
                   'a %s of the wrong type is %s' % (
                       o, 'accepted' if s.status != 'raise' else
                       'reported as %s' % show(s.val)[:80] if early else
                       'only reported after compiling'))


# ---------------------------------------------------------- preprocessors

class Objects(Interp):
    """Fresh objects of local classes are known completely."""

    def local_class(self, fn, st):
        for func in list(self.funcs.values()):
            for x in ast.walk(func.node):
                if isinstance(x, ast.ClassDef) and x.name == fn[1] and (
                        x.lineno == fn[2][0]):
                    return x
        return None


def knows(o):
    return o[0] == 'new' or o[0] == 'call' and o[1][0] == 'lcls'


def object_hook(roots, extra=None):
    def hook(it, fn, a, kw, st, n):
        if extra is not None:
            r = extra(it, fn, a, kw, st, n)
            if r is not None:
                return r
        if fn[0] == 'lcls' and not a and not kw:
            node = None
            for func in roots + list(it.funcs.values()):
                for x in ast.walk(func.node):
                    if isinstance(x, ast.ClassDef) and x.name == fn[1]:
                        node = x
            o = ('new', 'local:' + fn[1], it.uid(st, n))
            if node is not None:
                for x in node.body:
                    if isinstance(x, ast.Assign) and isinstance(
                            x.value, ast.Constant):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                st.heap[(o, t.id)] = K(x.value.value)
            return [(st, o)]
        if fn[0] == 'bi' and fn[1] in ('hasattr', 'getattr') and \
                len(a) >= 2 and is_const(a[1]) and a[0][0] == 'new' and \
                a[0][1].startswith('local:'):
            v = st.heap.get((a[0], a[1][2]))
            if fn[1] == 'hasattr':
                return [(st, K(v is not None))]
            if v is not None:
                return [(st, v)]
            if len(a) > 2:
                return [(st, a[2])]
        return None
    return hook


def preprocess(ctx, prog, sub):
    f = prog.find_method(sub, '_preprocessSource')
    if f is None:
        raise AnalysisBroken('_preprocessSource missing')
    names = [a.arg for a in f.node.args.args][1:]
    ps = [('var', 'p%d' % i) for i in range(3)]
    lst = ('obj', 'list', '@list')
    for case, arg, seq in (
            ('a list', lst, ps), ('a tuple', ('tup', tuple(ps)), ps),
            ('one', ps[0], ps[:1])):
        for call in (False, True):
            def extra(it, fn, a, kw, st, n):
                if fn == ('bi', 'hasattr') and a and a[0] in ps:
                    return [(st, K(not call))]
                if fn == ('bi', 'callable') and a and a[0] in ps:
                    return [(st, K(call))]
                if fn == ('bi', 'isinstance') and a:
                    ts = {x[-1] for x in walk(a[1])
                          if isinstance(x[-1], str)}
                    if a[0] in ps:
                        return [(st, K(False))]
                    if a[0] == lst:
                        return [(st, K('list' in ts))]
                    if a[0][0] == 'tup':
                        return [(st, K('tuple' in ts))]
                p = None
                if fn[0] == 'attr' and fn[2] == 'preprocess':
                    p = fn[1]
                elif fn in ps:
                    p = fn
                if p is not None and p in ps:
                    b = list(a) + [v for k, v in kw]
                    it.emit(st, 'pre', ('tup', (p,) + tuple(b)), n)
                    i = ps.index(p)
                    return [(st, ('tup', (('var', 's%d' % i),
                                          ('var', 'f%d' % i))))]
                return None
            it = Interp(prog, depth=6, loop_max=4, exact=True,
                        hook=object_hook([f], extra),
                        keep=lambda e: e.kind == 'pre')
            if call:
                # the local wrapper class around a callable is followed by
                # hand: its method must hand both arguments on
                wrapper(ctx, prog, sub)
                continue
            ends = it.run(f, selfcls=sub, args=dict(zip(names, (
                ('var', 'source'), ('var', 'file'), arg))), init={
                    'heap': {(lst, 'items'): tuple(ps)}})
            for s in ends:
                want, src = [], (('var', 'source'), ('var', 'file'))
                for p in seq:
                    want.append(('tup', (p,) + src))
                    i = ps.index(p)
                    src = (('var', 's%d' % i), ('var', 'f%d' % i))
                got = [e.term for e in s.events]
                ctx.ob('preprocess', case, f.loc(), s.status == 'return' and
                       got == want and s.val == ('tup', src),
                       'they are applied as %s and give %s' % (
                           [show(x) for x in got], show(s.val)))
    # compile() uses the result
    f, ends = run(ctx, prog, sub, {'preprocessors': ('var', 'preprocessors')},
                  truth={('var', 'preprocessors'): True})
    pos = compiler_params(prog)
    for s in ends:
        if s.status == 'raise':
            continue
        for e in s.events:
            if e.kind == 'call' and comp_call(e.term,
                                              ('var', 'compilerClass')):
                kw = dict(zip(pos, e.term[2]))
                kw.update(dict(e.term[3]))

                def part(t, i):
                    return t is not None and t[0] == 'idx' and \
                        t[2] == K(i) and t[1][0] == 'call' and \
                        callee_name(t[1]) == '_preprocessSource' and [
                            x for x in t[1][2]] + [
                            v for k, v in t[1][3]] == [
                            ('var', 'source'), NONE,
                            ('var', 'preprocessors')]
                ctx.ob('preprocess', 'compile() with preprocessors',
                       f.loc(), part(kw.get('source'), 0) and
                       part(kw.get('file'), 1),
                       'the compiler is given source=%s, file=%s' % (
                           show(kw.get('source'))[:90],
                           show(kw.get('file'))[:90]))
                break


def wrapper(ctx, prog, sub):
    """A callable is used as preprocessor: some local class or function has
    a method `preprocess` that returns arg(source, file)."""
    f = prog.find_method(sub, '_normalizePreprocessorArg')
    if f is None:
        return
    arg = [a.arg for a in f.node.args.args][1]
    for x in ast.walk(f.node):
        if isinstance(x, ast.FunctionDef) and x.name == 'preprocess':
            ps = [a.arg for a in x.args.args][1:]
            rets = [r.value for r in ast.walk(x) if isinstance(r, ast.Return)]
            calls = [r for r in rets if isinstance(r, ast.Call) and
                     isinstance(r.func, ast.Name) and r.func.id == arg]
            if len(rets) == 1 and calls and not calls[0].keywords:
                ctx.ob('preprocess', 'a callable', f.loc(x), [
                    a.id for a in calls[0].args
                    if isinstance(a, ast.Name)] == ps,
                    'it is called as %s' % ast.unparse(calls[0]))


TOKENS = {'cheetahVarStartToken': '@', 'directiveStartToken': '%',
          'directiveEndToken': '%', 'commentStartToken': '%%',
          'multiLineCommentStartToken': '%*',
          'multiLineCommentEndToken': '*%', 'EOLSlurpToken': '%'}


def tokens(ctx, prog, sub):
    f = prog.find_method(sub, '_preprocessSource')
    comp = prog.find_method(sub, 'compile')
    cname = comp.node.args.args[0].arg
    allnames = [cname] + params(comp)
    names = [a.arg for a in f.node.args.args][1:]
    tp = prog.cls('Template', 'TemplatePreprocessor')
    if tp is None:
        raise AnalysisBroken('TemplatePreprocessor missing')
    me = ('cls', sub.qual)
    D, CS, SL = [('obj', k, '@' + n) for k, n in (
        ('dict', 'd'), ('dict', 'cs'), ('list', 'sl'))]
    L1 = ('obj', 'list', '@one')
    own = ((K('directiveStartToken'), K('!')), (K('x'), ('var', 'xv')))
    full = ((K('tokens'), K('@ %')), (K('searchList'), ('var', 'ns')),
            (K('compilerSettings'), CS),
            (K('outputTransformer'), ('var', 'tr')),
            (K('mainMethodName'), ('var', 'mm')))
    kinds = {'const': 'str', 'tup': 'tuple', 'new': 'object'}
    OBJ = ('new', 'local:settings', 0)
    for case, arg, tok, searchlist, trans, more in (
            ("'@ %'", K('@ %'), TOKENS, [], None, {}),
            ("('@', '%')", ('tup', (K('@'), K('%'))), TOKENS, [], None, {}),
            ('a dictionary', D, dict(TOKENS, directiveStartToken='!',
                                     x=('var', 'xv')), [('var', 'ns')],
             ('var', 'tr'), {'mainMethodName': ('var', 'mm')}),
            ('an object without tokens', OBJ, dict(
                directiveStartToken='!', x=('var', 'xv')), [('var', 'ns')],
             ('var', 'tr'), {})):
        def extra(it, fn, a, kw, st, n):
            if fn == ('bi', 'hasattr') and a and a[0] == arg and (
                    arg != OBJ or a[1] == K('preprocess')):
                return [(st, K(False))]
            if fn == ('bi', 'callable') and a and a[0] == arg:
                return [(st, K(False))]
            if fn == ('bi', 'isinstance') and a:
                ts = {x[-1] for x in walk(a[1]) if isinstance(x[-1], str)}
                k = a[0][1] if a[0][0] == 'obj' else kinds.get(a[0][0])
                if a[0] == ('var', 'ns'):
                    return [(st, K(False))]
                if k is not None and isinstance(k, str):
                    return [(st, K(k in ts))]
            if callee_name(('call', fn, (), (), None)) in (
                    'getargs', 'getfullargspec', 'getargspec'):
                return [(st, ('tup', (('tup', tuple(
                    K(x) for x in allnames)), NONE, NONE)))]
            if fn[0] == 'attr' and fn[2] == '_CHEETAH_' \
                    'defaultPreprocessorClass':
                return it.call(('cls', tp.qual), a, kw, st, n)
            if fn[0] == 'attr' and fn[2] == 'compile' and \
                    fn[1][0] == 'lcls':
                it.emit(st, 'mid', ('call', fn, tuple(a), tuple(kw), None),
                        n, dict(st.heap))
                return [(st, ('var', 'MidClass'))]
            if fn == ('var', 'MidClass'):
                it.emit(st, 'inst', ('call', fn, tuple(a), tuple(kw), None),
                        n, dict(st.heap))
                return [(st, ('var', 'mid'))]
            return None
        it = Interp(prog, depth=8, loop_max=30, exact=True,
                    hook=object_hook([f, prog.find_method(
                        sub, '_normalizePreprocessorArg') or f], extra),
                    construct=lambda c: c is tp, max_states=20000,
                    keep=lambda e: e.kind in ('mid', 'inst'))
        ends = it.run(f, selfcls=sub, args=dict(zip(names, (
            ('var', 'source'), NONE, L1))), init={
                'heap': {(L1, 'items'): (arg,), (D, 'items'): full,
                         (CS, 'items'): own, (OBJ, 'compilerSettings'): CS,
                         (OBJ, 'searchList'): ('var', 'ns'),
                         (OBJ, 'outputTransformer'): ('var', 'tr')},
                'conds': {('var', 'source'): True}})
        for q in it.n_inlined:
            ctx.unit('functions analysed', q)
        for s in ends:
            mids = [e for e in s.events if e.kind == 'mid']
            insts = [e for e in s.events if e.kind == 'inst']
            if not mids:
                ctx.ob('tokens', case, f.loc(), False,
                       'the source is not rendered: %s %s' % (
                           s.status, show(s.val)[:120] if s.val else ''))
                continue
            e = mids[0]
            kw = dict(e.term[3])
            kw.update(zip(('source', 'file'), e.term[2]))
            if '**' in kw or any(k == '**' for i in insts
                                 for k, v in i.term[3]):
                continue            # options collected in an unknown way
            ctx.ob('tokens', case + ': source', f.loc(),
                   kw.get('source') == ('var', 'source') and len(mids) == 1,
                   'the source rendered is %s' % show(kw.get('source')))
            cs = kw.get('compilerSettings')
            got = {k[2]: (v[2] if is_const(v) else v) for k, v in
                   (e.x.get((cs, 'items')) or ()) if is_const(k)} \
                if cs is not None else None
            ctx.ob('tokens', case + ': settings', f.loc(), got == tok,
                   'it is rendered with the settings %s' % {
                       k: (show(v) if isinstance(v, tuple) else v)
                       for k, v in (got or {}).items()
                       if tok.get(k) != v} if got else 'no settings')
            ctx.ob('tokens', case + ': given settings', f.loc(),
                   cs != CS and s.heap.get((CS, 'items')) == own,
                   'the settings that were given are changed')
            for k, v in more.items():
                ctx.ob('tokens', case + ': ' + k, f.loc(), kw.get(k) == v,
                       'the option %s is lost' % k)
            sl = dict(insts[0].term[3]).get('searchList') if insts else None
            items = it_items(sl, insts[0].x) if insts else None
            ctx.ob('tokens', case + ': searchList', f.loc(),
                   items == searchlist, 'it is rendered with the search '
                   'list %s' % [show(x) for x in items or ()])
            out = s.val[1][0] if s.val is not None and \
                s.val[0] == 'tup' else None
            fn = out[1] if out is not None and out[0] == 'call' else None
            ctx.ob('tokens', case + ': output', f.loc(), fn is not None and
                   out[2] == (('var', 'mid'),) and (
                       fn == trans if trans else fn in (
                           ('bi', 'str'), ('bi', 'unicode')) or
                       'unicode' in show(fn)) and s.val[1][1] == NONE,
                   'the preprocessed source is %s' % show(s.val))


def it_items(t, heap):
    if t is None:
        return None
    if t[0] == 'tup':
        return list(t[1])
    if t[0] == 'obj':
        v = heap.get((t, 'items'))
        return None if v is None else list(v)
    return None


# ---------------------------------------------------------- constructor

def constructor(ctx, prog, c):
    f = prog.find_method(c, '__init__')
    names = [a.arg for a in f.node.args.args][1:]
    U = unspecified(prog)
    me = ('self', c.qual)
    for case, over in (
            ('source', {'source': ('var', 'source'), 'file': NONE}),
            ('file', {'source': NONE, 'file': ('var', 'file')}),
            ('source, no settings', {'source': ('var', 'source'),
                                     'file': NONE, 'compilerSettings': U}),
            ('nothing', {'source': NONE, 'file': NONE})):
        def hook(it, fn, a, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            if fn == ('bi', 'isinstance') and len(a) == 2 and \
                    a[0][0] == 'var':
                k = {'source': 'str', 'file': 'str', 'filter': 'str',
                     'filtersLib': 'ModuleType', 'errorCatcher': 'str',
                     'compilerSettings': 'dict'}.get(a[0][1])
                if k is not None:
                    ts = {x[-1].split('.')[-1] for x in walk(a[1])
                          if isinstance(x[-1], str)}
                    return [(st, K(bool(ts & set(PAT.get(k, (k,))))))]
            if nm == 'compile' and fn[0] in ('attr', 'bound') and \
                    fn[1] == me:
                it.emit(st, 'comp', ('call', fn, tuple(a), tuple(kw),
                                     None), n)
                return [(st, ('var', 'TClass'))]
            return None
        args = {n: ('var', n) for n in names}
        args.update(over)
        conds = {('var', n): True for n in ('source', 'file')}
        for n in names:
            conds[('cmp', 'is', ('var', n), NONE)] = False
        conds[('var', 'searchList')] = False
        it = Options(prog, depth=6, max_states=20000, hook=hook,
                     keep=lambda e: e.kind == 'comp' or
                     e.kind == 'call' and e.name == '_initCheetahInstance',
                     opaque=lambda fn: fn.name in (
                         '_getCompilerSettings', '_initCheetahInstance',
                         'serverSidePath', 'convertVersionStringToTuple') or
                     fn.module.name.split('.')[-1] != 'Template')
        it.unspec = U
        seen = 0
        for s in it.run(f, selfcls=c, args=args, init={'conds': conds}):
            if s.status == 'raise':
                continue
            init = [e for e in s.events if e.kind == 'call']
            kw = dict(init[0].term[3]) if init else {}
            g = prog.find_method(c, '_initCheetahInstance')
            if init and g is not None:
                kw.update(zip([a.arg for a in g.node.args.args][1:],
                              init[0].term[2]))
            for o in ('searchList', 'namespaces', 'filter', 'filtersLib',
                      'errorCatcher', '_globalSetVars',
                      '_preBuiltSearchList', 'compilerSettings'):
                if o in names:
                    ctx.ob('constructor', '%s: %s' % (case, o), f.loc(),
                           kw.get(o) == args[o], 'the instance is set up '
                           'with %s=%s' % (o, show(kw[o]) if o in kw
                                           else None))
            comp = [e.term for e in s.events if e.kind == 'comp']
            ctx.ob('constructor', case + ': compiled once', f.loc(),
                   len(comp) == (case != 'nothing'),
                   '%d compilations' % len(comp))
            if not comp:
                continue
            seen += 1
            t = comp[0]
            pos = params(prog.find_method(c, 'compile'))
            kw = dict(zip(pos, t[2]))
            kw.update(dict(t[3]))
            for o in ('source', 'file'):
                got = kw.get(o, NONE)
                w = over[o]
                ctx.ob('constructor', '%s: %s compiled' % (case, o),
                       f.loc(), got == w and w[-1] != 'file' or
                       w != NONE and o == 'file' and got[0] == 'call' and
                       callee_name(got) == 'serverSidePath' and
                       got[2] == (w,),
                       'compile() is given %s=%s' % (o, show(got)))
            got = kw.get('compilerSettings')
            if over.get('compilerSettings') == U:
                ok = got is None or got == U or contains(
                    got, lambda x: x[0] == 'call' and callee_name(x) ==
                    '_getCompilerSettings') or any(
                    k[0] == 'call' and callee_name(k) ==
                    '_getCompilerSettings' and v is False
                    for k, v in s.conds.items())
            else:
                ok = got is not None and contains(
                    got, lambda x: x == ('var', 'compilerSettings'))
            ctx.ob('constructor', case + ': settings compiled', f.loc(), ok,
                   'compile() is given compilerSettings=%s' % (
                       show(got) if got is not None else None))
            cls = s.heap.get((me, '__class__'))
            ctx.ob('constructor', case + ': class', f.loc(),
                   cls == ('var', 'TClass'), 'the instance does not become '
                   'one of the compiled class')
        ctx.ob('constructor', case + ': possible', f.loc(),
               seen > 0 or case == 'nothing', 'nothing is compiled')


def filters(ctx, prog, c):
    f = prog.find_method(c, '_initCheetahInstance')
    if f is None:
        raise AnalysisBroken('_initCheetahInstance missing')
    names = [a.arg for a in f.node.args.args][1:]
    me = ('self', c.qual)
    for case, kind in (('a name', 'str'), ('a class', 'class')):
        def hook(it, fn, a, kw, st, n):
            if fn == ('bi', 'isinstance') and len(a) == 2 and \
                    a[0] == ('var', 'filter'):
                ts = {x[-1] for x in walk(a[1]) if isinstance(x[-1], str)}
                return [(st, K(bool(ts & set(PAT[kind]))))]
            if fn == ('bi', 'getattr') and len(a) >= 2 and \
                    a[1] == K('_CHEETAH__instanceInitialized'):
                return [(st, K(False))]
            return None
        args = {n: NONE for n in names}
        args['filter'] = ('var', 'filter')
        args['filtersLib'] = ('var', 'filtersLib')
        it = Interp(prog, depth=5, hook=hook, keep=lambda e: False,
                    opaque=lambda fn: fn.name != '_initCheetahInstance'
                    and fn.module.name.split('.')[-1] != 'Template')
        for s in it.run(f, selfcls=c, args=args):
            if s.status == 'raise':
                continue
            cur = s.heap.get((me, '_CHEETAH__currentFilter'))
            ini = s.heap.get((me, '_CHEETAH__initialFilter'))
            lib = s.heap.get((me, '_CHEETAH__filtersLib'))
            fl, nm = ('var', 'filter'), ('var', 'filtersLib')

            def right(t):
                if t is None or t[0] != 'attr' or t[2] != 'filter':
                    return False
                t = t[1]
                if t[0] != 'call' or t[2] != (me,):
                    return False
                k = t[1]
                if kind == 'class':
                    return k == fl
                return k[0] in ('call', 'getattr') and contains(
                    k, lambda x: x == fl) and contains(
                        k, lambda x: x == nm)
            ctx.ob('filter', case + ': current', f.loc(), right(cur),
                   'the current filter is %s' % show(cur)[:120])
            ctx.ob('filter', case + ': initial', f.loc(), cur == ini,
                   'the initial filter is %s' % show(ini)[:120])
            ctx.ob('filter', case + ': library', f.loc(), lib == nm,
                   'the filter library is %s' % show(lib))


def subclass(ctx, prog, sub):
    f = prog.find_method(sub, 'subclass')
    if f is None:
        return
    KW = ('obj', 'dict', '@kw')
    a = f.node.args

    def hook(it, fn, args, kw, st, n):
        if callee_name(('call', fn, (), (), None)) == 'compile':
            it.emit(st, 'comp', ('call', fn, tuple(args), tuple(kw), None),
                    n, dict(st.heap))
            return [(st, ('var', 'TClass'))]
        return None
    over = {}
    if a.kwarg:
        over[a.kwarg.arg] = KW
    it = Interp(prog, depth=4, hook=hook, exact=True,
                keep=lambda e: e.kind == 'comp')
    ends = []
    for more in ((), ((K('baseclass'), ('var', 'another')),)):
        ends += it.run(f, selfcls=sub, args=over, init={'heap': {
            (KW, 'items'): ((K('source'), ('var', 'src')),) + more}})
    for s in ends:
        if s.status == 'raise':
            continue
        comp = [e for e in s.events]
        kw = {}
        if comp:
            kw = dict(comp[0].term[3])
            star = kw.pop('**', None)
            if star is not None and star[0] == 'obj':
                kw.update({k[2]: v for k, v in comp[0].x.get(
                    (star, 'items'), ())})
        ctx.ob('subclass', 'subclass()', f.loc(), len(comp) == 1 and
               kw.get('baseclass') == ('cls', sub.qual) and
               kw.get('source') == ('var', 'src') and
               s.val == ('var', 'TClass'),
               'it compiles with %s' % {k: show(v) for k, v in kw.items()})


CHECKS = {'C22': (c22, 'options take effect')}
