"""C21: error catchers."""
import ast

from ..absint import Interp, K, NONE, callee_name, is_const, show, walk
from ..emit import default_settings, whole_module
from ..model import AnalysisBroken
from ..parse import ParserModel
from .choice import complaints, selection
from .module import HOLE, NOCACHE, ModuleText

COMP = 'Cheetah/Compiler.py'


def place(expr, raw, lc=(1, 2), args='', silent=False):
    return ("self.addPlaceholder(%r, filterArgs=%r, rawPlaceholder=%r, "
            "cacheTokenParts=%s, lineCol=%r, silentMode=%r)"
            % (expr, args, raw, NOCACHE, lc, silent))


ON = "self.setErrorCatcher('Echo')"
ON2 = "self.setErrorCatcher('ListErrors')"
OFF = 'self.turnErrorCatcherOff()'
A = ('u_a(1)', '$a(1)', (3, 4))
B = ('u_b.c', '$b.c', (5, 6))
A2 = ('u_other', '$a(1)', (7, 8))
Q = ('u_q("x\'y")', '$q("x\'y")', (9, 1))

CASES = {
    'one placeholder': [ON, A],
    'two placeholders': [ON, A, B],
    'the same placeholder twice': [ON, A, A],
    'the same text compiled differently': [ON, A, A2, A],
    'quotes': [ON, Q, A],
    'off again': [A, ON, B, OFF, Q],
    'on, off and on': [ON, A, OFF, B, ON, B],
    'another catcher': [ON2, A],
    'one catcher after the other': [ON, A, OFF, ON2, B],
    'in a method': ["self.startMethodDef('u_m', [], '## c')", ON, A,
                    'self.closeDef()', B],
    'in two methods': ["self.startMethodDef('u_m', [], '## c')", ON, A,
                       'self.closeDef()', ON, A],
}

KINDS = {
    '': (),
    'silent ': ('', True),
    'with filter arguments ': (', u_k=1',),
    'silent with filter arguments ': (', u_k=1', True),
}
PLACES = {
    'in the text': ('self.addStrConst("t")', 'self.addStrConst("t")'),
    'in a capture region': ("self.startCaptureRegion('u_c', (1, 2))",
                            "self.endCaptureRegion()"),
    'in a call region': ("self.startCallRegion('u_f', 'u_x', (1, 2))",
                         "self.endCallRegion()"),
    'in an #arg': ("self.startCallRegion('u_f', 'u_x', (1, 2))\n"
                   "self.setCallArg('u_g', (1, 2))",
                   "self.endCallRegion()"),
    'in a filter region': ("self.setFilter('WebSafe', False)",
                           "self.closeFilterBlock()"),
    'in a cache region': ("self.startCacheRegion({'type': 2}, (1, 2))",
                          "self.endCacheRegion()"),
    'in a conditional': ("self.addIf('if u_i')", 'self.dedent()'),
    'in a loop': ("self.addFor('for u_i in u_j')", 'self.dedent()'),
}
for _k, _kv in KINDS.items():
    for _p, (_a, _b) in PLACES.items():
        CASES['%s%s' % (_k, _p)] = [ON, A + _kv, _a, B + _kv, _b, A, OFF,
                                    _a, B + _kv, _b]


def body_of(seq):
    return '\n'.join(place(*x) if isinstance(x, tuple) else x for x in seq)


def expected(seq):
    """[(expr, raw, lc, guarded)] in order per method, inner methods first."""
    stack, done, on = [[]], [], [False]
    for x in seq:
        if isinstance(x, tuple):
            stack[-1].append(x[:3] + (on[-1],))
        elif x in (ON, ON2):
            on[-1] = True
        elif x == OFF:
            on[-1] = False
        elif 'startMethodDef' in x:
            stack.append([])
            on.append(False)
        elif 'closeDef' in x:
            done.append(('u_m', stack.pop()))
            on.pop()
    return dict(done + [('respond', stack[0])])


def norm(t):
    return ast.unparse(ast.parse(t, mode='eval'))


def guard(m, call, warn_args):
    """(expression, raw text, position) a guard method stands for, or a
    complaint."""
    if not (isinstance(call, ast.Call) and isinstance(call.func,
                                                      ast.Attribute)):
        return None
    nm = call.func.attr
    ds = [n for n in m.cls.body if isinstance(n, ast.FunctionDef)
          and n.name == nm]
    if len(ds) != 1:
        return '%s is defined %d times' % (nm, len(ds))
    d = ds[0]
    if not (len(call.keywords) == 1 and not call.args and ast.unparse(
            call.keywords[0].value) == 'locals()'
            or len(call.args) == 1 and not call.keywords and
            ast.unparse(call.args[0]) == 'locals()'):
        return '%s is not given the local names' % nm
    params = [a.arg for a in d.args.args][1:]
    if len(params) != 1 or call.keywords and \
            call.keywords[0].arg != params[0]:
        return '%s takes %s' % (nm, params)
    trys = [n for n in d.body if isinstance(n, ast.Try)]
    if len(trys) != 1:
        return '%s has no try statement' % nm
    t = trys[0]
    evals = [n for n in ast.walk(d) if isinstance(n, ast.Call)
             and isinstance(n.func, ast.Name) and n.func.id == 'eval']
    if len(evals) != 1 or not any(n is evals[0] for s in t.body
                                  for n in ast.walk(s)):
        return '%s does not evaluate the expression once' % nm
    e = evals[0]
    rest = [ast.unparse(x) for x in e.args[1:]]
    if rest != ['globals()', params[0]] or not isinstance(
            e.args[0], ast.Constant):
        return '%s evaluates with %s' % (nm, rest)
    if not (isinstance(t.body[-1], ast.Return) and t.body[-1].value is e):
        return '%s does not return the value' % nm
    if len(t.handlers) != 1 or t.finalbody or t.orelse:
        return '%s has %d handlers' % (nm, len(t.handlers))
    h = t.handlers[0]
    if h.type is None or ast.unparse(h.type) != \
            'self._CHEETAH__errorCatcher.exceptions()':
        return '%s catches %s' % (nm, h.type and ast.unparse(h.type))
    last = h.body[-1]
    if not (isinstance(last, ast.Return) and isinstance(
            last.value, ast.Call) and ast.unparse(last.value.func) ==
            'self._CHEETAH__errorCatcher.warn'):
        return '%s does not return what the catcher says' % nm
    kw = {k.arg: k.value for k in last.value.keywords}
    for n, a in zip(warn_args, last.value.args):
        kw.setdefault(n, a)
    if set(kw) != set(warn_args):
        return 'the catcher is given %s' % sorted(kw)
    exc, code, raw, lc = [kw[a] for a in warn_args]
    if not isinstance(exc, ast.Name) or exc.id != h.name:
        return 'the catcher is not given the exception'
    try:
        code, raw, lc = [ast.literal_eval(x) for x in (code, raw, lc)]
    except ValueError:
        return 'the catcher is given %s' % ast.unparse(last.value)[:80]
    if norm(code) != norm(e.args[0].value):
        return 'the catcher is given the code %r for %r' % (
            code, e.args[0].value)
    return norm(code), raw, tuple(lc)


def values(m, fn):
    """Expressions a method outputs, in order."""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id == '_v':
            out.append((n.lineno, n.value))
    return [v for k, v in sorted(out, key=lambda x: x[0])
            if 'u_f' not in ast.unparse(v)]


def c21(ctx):
    ctx.rule('guarded', 'a guarded placeholder evaluates the same expression '
             'with the same names, once; the exceptions its catcher declares, '
             'and no others, are handed to the catcher with the text and '
             'code of that placeholder', 9)
    ctx.rule('region', 'placeholders outside the reach of the directive are '
             'not guarded', 9)
    ctx.rule('select', 'the catcher named is used: the one the instance '
             'already has or a new one', 4)
    ctx.rule('catchers', 'what the built-in catchers do', 5)
    ctx.rule('directive', 'the directive names the catcher, its end turns it '
             'off', 2)
    prog = ctx.prog
    base = prog.cls('ErrorCatchers', 'ErrorCatcher')
    w = prog.find_method(base, 'warn')
    if w is None:
        raise AnalysisBroken('ErrorCatcher.warn missing')
    wargs = [a.arg for a in w.node.args.args][1:]
    if len(wargs) != 4:
        raise AnalysisBroken('ErrorCatcher.warn takes %s' % wargs)
    d = default_settings(prog)
    for name in sorted(CASES):
        seq = CASES[name]
        it, out = whole_module(prog, body_of(seq), fixed=dict(d))
        if not out:
            raise AnalysisBroken('no module generated for %s' % name)
        want = expected(seq)
        bad, region, sel = {}, {}, {}
        for text, holes, st in out:
            if text is None:
                bad['generating it fails with %s' % show(st.val)[:100]] = 0
                continue
            m = ModuleText(prog, text, holes)
            if m.tree is None and HOLE.search(m.problems[0][1]):
                continue
            if m.tree is None or m.cls is None:
                bad['invalid: %s' % m.problems[:1]] = 0
                continue
            for meth, exp in want.items():
                fn = [n for n in m.cls.body if isinstance(
                    n, ast.FunctionDef) and n.name == meth]
                vs = values(m, fn[-1]) if fn else []
                if len(vs) != len(exp):
                    bad['%d of %d placeholders of %s are output' % (
                        len(vs), len(exp), meth)] = 0
                    continue
                for v, (expr, raw, lc, on) in zip(vs, exp):
                    u = ast.unparse(v)
                    if not on:
                        if u != norm(expr):
                            region['%s is compiled to %s' % (raw, u)] = 0
                        continue
                    if u == norm(expr):
                        region['%s is not guarded' % raw] = 0
                        continue
                    if HOLE.search(u):
                        continue
                    g = guard(m, v, wargs)
                    if g is None:
                        bad['%s is compiled to %s' % (raw, u)] = 0
                    elif isinstance(g, str):
                        bad[g] = 0
                    elif g[:2] != (norm(expr), raw):
                        bad['%s: %r is evaluated as %r' % (
                            raw, g[1], g[0])] = 0
                    elif g[2] not in [x[2] for x in seq if isinstance(
                            x, tuple) and x[:2] == (expr, raw)]:
                        bad['%s is reported at %s' % (raw, g[2])] = 0
                if any(x[3] for x in exp):
                    for b in selected(fn[-1], [
                            x.split("'")[1] for x in seq
                            if x in (ON, ON2)][0]):
                        sel[b] = 0
        ctx.unit('generated module', name)
        ctx.ob('guarded', name, COMP, not bad, '; '.join(sorted(bad))[:300])
        ctx.ob('region', name, COMP, not region,
               '; '.join(sorted(region))[:300])
        ctx.ob('select', name, COMP, not sel, '; '.join(sorted(sel))[:300])
    builtin(ctx, prog, wargs)
    instance(ctx, prog)
    directive(ctx, prog)


def selected(fn, name):
    """Paths from the start of a method to its first placeholder after the
    directive: the current catcher must be the one named, the one the
    instance has or a new one that it keeps."""
    cur = 'self._CHEETAH__errorCatcher'
    ends, rest = selection(
        fn.body, 'self._CHEETAH__errorCatchers', name,
        'ErrorCatchers.%s(self)' % name, (cur,),
        lambda s, st: isinstance(s.targets[0], ast.Name) and
        s.targets[0].id == '_v' and st.get(cur) is not None)
    return complaints(ends or rest, cur, 'catcher')


def builtin(ctx, prog, wargs):
    path = 'Cheetah/ErrorCatchers.py'
    raw = ('var', '@raw')
    args = {a: ('var', '@' + a) for a in wargs}
    args[wargs[2]] = raw
    mod = prog.mod('ErrorCatchers')
    base = prog.cls('ErrorCatchers', 'ErrorCatcher')
    seen = 0
    for nm in sorted(mod.classes):
        c = prog.cls('ErrorCatchers', nm)
        if base not in prog.mro(c):
            continue
        f = prog.find_method(c, 'warn')
        params = [a.arg for a in f.node.args.args][1:]
        it = Interp(prog, depth=3)
        bad = []
        if params != wargs:
            bad.append('takes %s' % params)
            ctx.ob('catchers', nm, path, False, bad[0])
            continue
        for s in it.run(f, selfcls=c, args=args):
            seen += 1
            apps = [e for e in s.events if e.kind == 'call' and
                    callee_name(e.term[1]) == 'append' and
                    e.term[1][0] == 'attr' and
                    e.term[1][1][0] == 'attr' and
                    e.term[1][1][2] == '_errors']
            if nm == 'KeyError':
                if s.status != 'raise' or not (
                        s.val[0] == 'call' and
                        s.val[1] == ('bi', 'KeyError')):
                    bad.append('ends with %s' % show(s.val)[:80])
            elif s.status == 'raise':
                bad.append('raises %s' % show(s.val)[:80])
            elif nm == 'BigEcho':
                if not any(x == raw for x in walk(s.val)):
                    bad.append('returns %s' % show(s.val)[:80])
            elif s.val != raw:
                bad.append('returns %s' % show(s.val)[:80])
            if nm == 'ListErrors' and len(apps) != 1:
                bad.append('records %d errors' % len(apps))
        ctx.ob('catchers', nm, path, not bad, '; '.join(sorted(set(bad))))
        f = prog.find_method(c, 'exceptions')
        for s in Interp(prog, depth=2).run(f, selfcls=c):
            v = s.val
            ok = s.status == 'return' and 'NotFound' in show(v) or \
                s.status == 'return' and v[0] == 'attr'
            c2, node = prog.find_attr(c, '_exceptionsToCatch')
            if v[0] == 'attr' and v[2] == '_exceptionsToCatch':
                ok = node is not None and ast.unparse(node) in (
                    '(NotFound,)', 'NotFound', '[NotFound]')
                ok = ok and not isinstance(node, ast.List)
            ctx.ob('catchers', '%s.exceptions' % nm, path, ok,
                   'catches %s' % (node is not None and ast.unparse(node)))
    if seen < 4:
        raise AnalysisBroken('%d paths through the built-in catchers' % seen)
    c = prog.cls('ErrorCatchers', 'ListErrors')
    f = prog.find_method(c, '__init__')
    for s in Interp(prog, depth=3).run(f, selfcls=c) if f else ():
        v = s.heap.get((('self', c.qual), '_errors'))
        ctx.ob('catchers', 'ListErrors: own list', path,
               v is not None and v[0] == 'obj' and v[1] == 'list' and
               s.heap.get((v, 'items')) == (),
               'a new ListErrors records in %s' % (v and show(v)))
    f = prog.find_method(c, 'listErrors')
    if f is not None:
        for s in Interp(prog, depth=2).run(f, selfcls=c):
            ctx.ob('catchers', 'ListErrors.listErrors', path,
                   s.status == 'return' and show(s.val).endswith('_errors'),
                   'returns %s' % show(s.val)[:80])
    alias = prog.mod('ErrorCatchers')
    node = [n for n in alias.tree.body if isinstance(n, ast.Assign)
            and isinstance(n.targets[0], ast.Name)
            and n.targets[0].id == 'Echo']
    ok = bool(node) and ast.unparse(node[-1].value) == 'ErrorCatcher' or \
        'Echo' in mod.classes
    ctx.ob('catchers', 'Echo', path, ok, 'no catcher named Echo')


def instance(ctx, prog):
    """What the constructor makes of its errorCatcher argument."""
    c = prog.cls('Template', 'Template')
    f = prog.find_method(c, '_initCheetahInstance')
    path = f.module.path
    me = ('self', c.qual)
    arg = ('var', '@catcher')
    for label, kind, val in (('none', None, NONE), ('name', 'str',
                                                    K('ListErrors')),
                             ('class', 'type', arg)):
        def hook(it, fn, a, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            if nm == 'isinstance' and a and a[0] == val:
                return [(st, K((kind == 'type') if show(a[1]) == 'type'
                               else kind == 'str'))]
            if nm == 'getattr' and len(a) == 3 and is_const(a[1]) and \
                    a[1][2] == '_CHEETAH__instanceInitialized':
                return [(st, K(False))]
            return None
        it = Interp(prog, depth=2, hook=hook, keep=lambda e: False,
                    opaque=lambda fn: fn.name != '_initCheetahInstance')
        names = [a.arg for a in f.node.args.args][1:]
        if 'errorCatcher' not in names:
            raise AnalysisBroken('no errorCatcher argument')
        bad, n = {}, 0
        for s in it.run(f, selfcls=c, args={'errorCatcher': val},
                        init={'conds': {arg: True}}):
            if s.status == 'raise':
                continue
            cur = s.heap.get((me, '_CHEETAH__errorCatcher'))
            tab = s.heap.get((me, '_CHEETAH__errorCatchers'))
            n += 1
            if tab is None or tab[0] != 'obj' or tab[1] != 'dict':
                bad['the table of catchers is not made for the instance'] = 0
                continue
            if kind is None:
                if cur != NONE:
                    bad['the catcher is %s' % show(cur or NONE)] = 0
                continue
            ok = cur is not None and cur[0] in ('call', 'new')
            if ok and cur[0] == 'call':
                t = show(cur[1])
                ok = cur[2] == (me,) and (
                    cur[1] == arg if kind == 'type' else
                    'ListErrors' in t)
            if not ok:
                bad['the catcher is %s' % show(cur or NONE)[:80]] = 0
            items = s.heap.get((tab, 'items'))
            if items is None:
                continue
            if kind == 'str' and (K('ListErrors'), cur) not in items:
                bad['the catcher is kept as %s' % (
                    ', '.join(show(k) for k, v in items) or 'nothing')] = 0
            if kind == 'type' and not any(v == cur for k, v in items):
                bad['the catcher is not kept'] = 0
        if not n:
            raise AnalysisBroken('no path through the constructor')
        ctx.ob('select', 'errorCatcher argument: %s' % label, path, not bad,
               '; '.join(sorted(bad)))


def directive(ctx, prog):
    pm = ParserModel(prog)
    path = 'Cheetah/Parser.py'
    it, sts = pm.run('eatDirective', dname='errorCatcher',
                     inline_compiler=False, loop_max=0,
                     keep=lambda e: e.kind == 'call' and callee_name(
                         e.term[1]) in ('setErrorCatcher',
                                        'getDirectiveStartToken'))
    bad, n = {}, 0
    for s in sts:
        calls = [callee_name(e.term[1]) for e in s.events]
        if s.status == 'raise' or 'getDirectiveStartToken' not in calls:
            continue
        n += 1
        es = [e for e in s.events
              if callee_name(e.term[1]) == 'setErrorCatcher']
        if len(es) != 1:
            bad['setErrorCatcher is called %d times' % len(es)] = 0
        elif 'getIdentifier' not in show(es[0].term[2][0]):
            bad['the name is %s' % show(es[0].term[2][0])[:80]] = 0
    if not n:
        raise AnalysisBroken('no path through #errorCatcher')
    ctx.ob('directive', '#errorCatcher', path, not bad,
           '; '.join(sorted(bad)))
    it, sts = pm.run('eatEndDirective', inline_compiler=False, loop_max=2,
                     max_states=40000,
                     keep=lambda e: e.kind == 'call' and callee_name(
                         e.term[1]) == 'turnErrorCatcherOff')
    n, bad = 0, {}
    for s in sts:
        if s.status == 'raise':
            continue
        is_end = [v for k, v in s.conds.items()
                  if any(x == K('errorCatcher') for x in walk(k))]
        if s.events:
            n += 1
            if is_end and True not in is_end:
                bad['the end of another block turns the catcher off'] = 0
    ctx.ob('directive', '#end errorCatcher', path, n and not bad,
           '; '.join(sorted(bad)) or 'nothing turns the catcher off')


CHECKS = {'C21': (c21, 'error catchers')}
