"""C06: every dynamic value goes through the output filter, once."""
import ast

from ..absint import K, NONE, show, callee_name, is_const, walk
from ..emit import (Emitter, stream, render, gen_interp, default_settings,
                    whole_module)
from ..model import AnalysisBroken
from .catchers import place
from .choice import complaints, selection
from .module import ModuleText

SELF = ('self', 'gen:G')
NOCACHE = "{'REFRESH_CACHE': None, 'STATIC_CACHE': None, 'interval': None}"
STATIC = "{'REFRESH_CACHE': None, 'STATIC_CACHE': '*', 'interval': None}"
REFRESH = "{'REFRESH_CACHE': '*5*', 'STATIC_CACHE': None, 'interval': iv}"

# name, driver, parameters, the values that must reach the output
ENTRIES = []
for _s in ('False', 'True'):
    for _f in ('None', "', fk=' + fa"):
        ENTRIES.append((
            'placeholder (silent=%s, filter args=%s)' % (_s, _f != 'None'),
            "self.addPlaceholder(expr, %s, raw, %s, lc, %s)" % (
                _f, NOCACHE, _s), ['expr', 'raw', 'lc', 'fa'], ['expr']))
ENTRIES += [
    ('static cached placeholder',
     "self.addPlaceholder(expr, None, raw, %s, lc, False)" % STATIC,
     ['expr', 'raw', 'lc'], ['expr']),
    ('refresh cached placeholder',
     "self.addPlaceholder(expr, None, raw, %s, lc, False)" % REFRESH,
     ['expr', 'raw', 'lc', 'iv'], ['expr']),
    ('placeholder under an error catcher',
     "self.turnErrorCatcherOn()\n"
     "self.addPlaceholder(expr, None, raw, %s, lc, False)" % NOCACHE,
     ['expr', 'raw', 'lc'], ['#catcher']),
    ('echo', 'self.addEcho(expr)', ['expr'], ['expr']),
    ('echo with source text', 'self.addEcho(expr, raw)', ['expr', 'raw'],
     ['expr']),
    ('ternary if',
     'self.addTernaryExpr(cond, texpr, fexpr, lc)',
     ['cond', 'texpr', 'fexpr', 'lc'], ['texpr', 'fexpr']),
    ('super', "self._classCompiler.addSuper([])", [], ['#super']),
    ('call region',
     "self.startCallRegion(fn, args, lc)\nself.endCallRegion()",
     ['fn', 'args', 'lc'], ['#fn']),
    ('call region with #arg',
     "self.startCallRegion(fn, args, lc)\nself.setCallArg(an, lc)\n"
     "self.endCallRegion()",
     ['fn', 'args', 'lc', 'an'], ['#fn']),
    ('PSP expression', "self.addPSP(psp)", ['psp'], ['#psp']),
]


def setting_val(conds, key):
    """True/False/None of a compiler setting on a path."""
    for t, v in conds.items():
        if t[0] == 'call' and callee_name(t) in ('setting', 'get') and \
                t[2] and t[2][0] == K(key):
            return v
    return None


def is_writer(fn):
    return fn == ('var', 'write') or (
        fn[0] == 'attr' and fn[2] == 'write') or fn == ('free', 'write')


def classify(t):
    """(kind, inner value) of something written."""
    if is_const(t):
        return 'text', None
    if t[0] == 'free' and t[1].startswith('R'):
        return 'text', None
    if t[0] == 'cat' and all(classify(p)[0] == 'text' for p in t[1]):
        return 'text', None
    if t[0] == 'call':
        fn = t[1]
        if fn in (('var', '_filter'), ('free', '_filter')) or (
                fn[0] == 'attr' and fn[2] == '_CHEETAH__currentFilter'):
            return 'filtered', t[2][0] if t[2] else None
        if fn in (('bi', 'str'), ('free', 'unicode'), ('bi', 'unicode')) or \
                (fn[0] == 'free' and fn[1] in ('str', 'unicode')):
            return 'str', t[2][0] if t[2] else None
        nm = callee_name(t)
        if nm in ('getvalue', 'renderOutput'):
            return 'collected', None
        if dict(t[3]).get('trans') == ('var', 'trans') and any(
                x == SELF for x in walk(fn)):
            return 'rendered', None
    return 'dynamic', t


def want_value(v, holes):
    """Predicate over terms: is this the value the template asked for?"""
    inv = {t: n for n, t in holes.items()}
    if v == '#catcher':
        return lambda t: t[0] == 'call' and dict(t[3]).get(
            'localsDict') is not None
    if v == '#super':
        return lambda t: t[0] == 'call' and any(
            x == ('bi', 'super') or x == ('free', 'super')
            for x in walk(t[1]))
    if v == '#psp':
        ns = [n for n, t in holes.items()
              if any(x == ('var', 'psp') for x in walk(t))]
        return (lambda t: t[0] == 'free' and t[1] in ns) if ns else None
    name = {'#fn': 'fn'}.get(v, v)
    nm = inv.get(('var', name))
    if nm is None:
        return None
    if v == '#fn':
        return lambda t: t[0] == 'call' and t[1] == ('free', nm)
    return lambda t: t == ('free', nm)


def c06(ctx):
    ctx.rule('only-filtered-written',
             'on every path of the generated code the only things written '
             'are literal text, collected text, and values passed through '
             'the active filter (str() when filters are off)', 30)
    ctx.rule('value-reaches-output',
             'a requested value is written exactly once on every path where '
             'it is not None', 20)
    ctx.rule('none-suppressed',
             'with alwaysFilterNone a value that is None is neither filtered '
             'nor written', 10)
    ctx.rule('none-passed',
             'without alwaysFilterNone the value is written unconditionally',
             5)
    ctx.rule('filters-off',
             'with useFilters off the generated code never refers to a '
             'filter', 10)
    ctx.rule('filters-on', 'with useFilters on values go through the filter',
             10)
    ctx.rule('evaluated-once',
             'the expression is evaluated exactly once', 10)
    ctx.rule('filter-args', 'filter arguments of a placeholder reach the '
             'filter', 2)
    ctx.rule('no-other-writer',
             'no other emitting method writes a value past the filter', 20)
    ctx.rule('filter-bound',
             'the filter name used in the body is bound by the method '
             'prologue whenever filters are on', 2)
    ctx.rule('active', 'in the reach of #filter the filter it names is the '
             'active one, in the method and for the methods it calls: the '
             'one the instance has or a new one', 6)
    active(ctx)
    em = Emitter(ctx.prog)
    for name, body, params, vals in ENTRIES:
        entry(ctx, em, name, body, params, vals)
    others(ctx, em)
    prologue(ctx, em)


FILTERS = {
    # arguments of setFilter, name in the table, what a new one is
    'a filter by name': ("'WebSafe', False", 'WebSafe',
                         "getattr(self._CHEETAH__filtersLib, 'WebSafe')"
                         "(self).filter"),
    'another filter by name': ("'MaxLen', False", 'MaxLen',
                               "getattr(self._CHEETAH__filtersLib, 'MaxLen')"
                               "(self).filter"),
    'a filter class': ("'u_Filter', True", None, '=u_Filter(self).filter'),
    'None': ("'None', False", None, '=self._CHEETAH__initialFilter'),
}
AROUND = {
    '': ('%s', '%s'),
    ' in a method': ("self.startMethodDef('u_m', [], '## c')\n%s",
                     "%s\nself.closeDef()"),
    ' in a filter region': ("self.setFilter('u_Outer', True)\n%s",
                            "%s\nself.closeFilterBlock()"),
    ' in a capture region': ("self.startCaptureRegion('u_c', (1, 2))\n%s",
                             "%s\nself.endCaptureRegion()"),
}


def active(ctx):
    prog = ctx.prog
    d = default_settings(prog)
    curs = ('_filter', 'self._CHEETAH__currentFilter')
    for k, (args, nm, new) in sorted(FILTERS.items()):
        for a, (pre, post) in sorted(AROUND.items()):
            body = (pre + "\n%s\n" + post) % (
                'self.setFilter(%s)' % args, place('u_in', '$in'),
                'self.closeFilterBlock()')
            it, out = whole_module(prog, body, fixed=dict(d))
            bad = {}
            for text, holes, st in out:
                m = ModuleText(prog, text, holes) if text is not None \
                    else None
                if m is None or m.tree is None or m.cls is None:
                    continue        # C20 decides this
                fns = [f for f in m.cls.body if isinstance(
                    f, ast.FunctionDef) and any(
                        isinstance(x, ast.Name) and x.id == 'u_in'
                        for x in ast.walk(f))]
                if len(fns) != 1:
                    continue
                ends, rest = selection(
                    fns[0].body, 'self._CHEETAH__filters', nm,
                    new if nm else None, curs,
                    lambda s, st: any(isinstance(x, ast.Name) and
                                      x.id == 'u_in'
                                      for x in ast.walk(s.value)))
                for c in curs if ends else ():
                    if nm:
                        for b in complaints(ends, c, 'filter'):
                            bad['%s: %s' % (c, b)] = 0
                        continue
                    for e in ends:
                        if e.get(c) != new:
                            bad['%s is %s' % (c, e.get(c))] = 0
            ctx.ob('active', k + a, 'Cheetah/Compiler.py', not bad,
                   '; '.join(sorted(bad))[:300])


def entry(ctx, em, name, body, params, vals):
    it, states = em.drive(body, params)
    for q in it.n_inlined:
        ctx.unit('compiler functions', q)
    live = [s for s in states if s.status == 'return']
    if not live:
        raise AnalysisBroken('no path through %s' % name)
    seen = set()
    for s in live:
        uf = setting_val(s.conds, 'useFilters')
        fn_ = setting_val(s.conds, 'alwaysFilterNone')
        if vals == ['#psp'] and not psp_value_path(s):
            continue
        r = render(stream(s), s.conds)
        key = (r.src, uf, fn_)
        if key in seen:
            continue
        seen.add(key)
        where = 'Cheetah/Compiler.py (code generated for %s)' % name
        if r.err:
            ctx.ob('only-filtered-written', name, where, False, r.err)
            continue
        ctx.unit('emission paths', '%s #%d' % (name, len(seen)))
        if vals == ['#psp']:
            nones = ['n/a']     # the filter itself sees None here
        else:
            nones = [True, False] if fn_ is None else [fn_]
        # code that does not depend on a setting has to be right for both
        for u in ([True, False] if uf is None else [uf]):
            for x in nones:
                judge(ctx, name, where, s, r, vals, u, x)


def psp_value_path(s):
    """The path on which the PSP text is '=expression'."""
    eq = any(v is True and t[0] == 'cmp' and t[1] == '=='
             and K('=') in t[2:] for t, v in s.conds.items())
    sw = any(v is True and t[0] == 'call' and callee_name(t) == 'startswith'
             for t, v in s.conds.items())
    empty = any(v is False and t[0] not in ('cmp', 'call')
                and any(x == ('var', 'psp') for x in walk(t))
                for t, v in s.conds.items())
    return (eq or sw) and not empty


def judge(ctx, name, where, s, r, vals, uf, fnone):
    names_used = [x.id for x in ast.walk(r.tree) if isinstance(x, ast.Name)]
    if uf is False:
        ctx.ob('filters-off', name, where, '_filter' not in names_used,
               'useFilters is off but the code refers to _filter:\n' + r.src)
    it, states = gen_interp(
        ctx.prog, r, keep=lambda e: e.kind == 'call',
        pure={'response', 'getRefreshTime', 'isNew', 'hasExpired'},
        exc=True, exc_calls=lambda t: callee_name(t) == 'renderOutput',
        max_states=4000)
    preds = []
    for v in vals:
        p = want_value(v, r.holes)
        if p is None:
            ctx.ob('value-reaches-output', name, where, False,
                   'the requested expression does not appear in the '
                   'generated code:\n' + r.src)
            return
        preds.append((v, p))
    inv = {t: n for n, t in r.holes.items()}
    for v in vals:
        nm = inv.get(('var', {'#fn': 'fn'}.get(v, v)))
        if nm:
            ctx.ob('evaluated-once', '%s: %s' % (name, v), where,
                   names_used.count(nm) == 1,
                   'expression evaluated %d times:\n%s' % (
                       names_used.count(nm), r.src))
    wrote_any = {v: False for v in vals}
    for g in states:
        if g.status == 'raise':
            continue
        cached = any(e.kind == 'call' and is_writer(e.term[1]) and e.args
                     and classify(e.args[0])[0] == 'collected'
                     and callee_name(e.args[0]) == 'renderOutput'
                     for e in g.events)
        recached = any(e.kind == 'call' and e.name == 'setData'
                       for e in g.events)
        got = {v: 0 for v in vals}
        for e in g.events:
            if e.kind != 'call' or not is_writer(e.term[1]):
                continue
            if not e.args:
                continue
            kind, inner = classify(e.args[0])
            good = kind in ('text', 'collected', 'rendered') or (
                kind == 'filtered' and uf is not False) or (
                kind == 'str' and uf is False)
            ctx.ob('only-filtered-written', name, where, good,
                   'writes %s (%s, useFilters=%s):\n%s' % (
                       show(e.args[0]), kind, uf, r.src))
            if kind in ('filtered', 'str', 'dynamic') and inner is not None:
                if uf is True:
                    ctx.ob('filters-on', name, where, kind == 'filtered',
                           'value written without the filter:\n' + r.src)
                for v, p in preds:
                    if p(inner):
                        got[v] += 1
                        wrote_any[v] = True
                        isnone = e.conds.get(('cmp', 'is', inner, NONE))
                        if fnone is True:
                            ctx.ob('none-suppressed', name, where,
                                   isnone is False,
                                   'value written without excluding None:\n'
                                   + r.src)
                        elif fnone is False:
                            ctx.ob('none-passed', name, where,
                                   isnone is None,
                                   'value written only when not None:\n'
                                   + r.src)
                if kind == 'filtered' and 'filter args=True' in name:
                    fa = ('free', inv.get(('var', 'fa')))
                    ctx.ob('filter-args', name, where,
                           any(x == fa for a in e.args[0][3]
                               for x in walk(a[1])) or any(
                               x == fa for a in e.args[0][2][1:]
                               for x in walk(a)),
                           'filter arguments dropped:\n' + r.src)
        if cached and not recached:
            continue
        for v, p in preds:
            # alternatives (ternary): one of the values per path
            if len(vals) > 1:
                continue
            # None path or swallowed NotFound may skip the write
            none = any(k[0] == 'cmp' and k[1] == 'is' and k[3] == NONE
                       and p(k[2]) and val is True
                       for k, val in g.conds.items())
            if none:
                ctx.ob('none-suppressed', name, where, got[v] == 0,
                       'a None value is written:\n' + r.src)
            elif not any(k.kind == 'handler' for k in g.events):
                ctx.ob('value-reaches-output', '%s: %s' % (name, v), where,
                       got[v] == 1,
                       'written %d times on a path where it is not None:\n%s'
                       % (got[v], r.src))
        if len(vals) > 1:
            nn = any(k[0] == 'cmp' and k[1] == 'is' and k[3] == NONE
                     and val is True for k, val in g.conds.items())
            ctx.ob('value-reaches-output', name, where,
                   sum(got.values()) == (0 if nn else 1),
                   '%s written on one path:\n%s' % (got, r.src))
    for v in vals:
        ctx.ob('value-reaches-output', '%s: %s (some path)' % (name, v),
               where, wrote_any[v],
               'the value never reaches the output:\n' + r.src)


def others(ctx, em):
    """Every other emitting method, with symbolic arguments."""
    done = {'addPlaceholder', 'addEcho', 'addTernaryExpr', 'addSuper',
            'addFilteredChunk', 'addWriteChunk', 'addChunk', 'addPSP',
            'appendToPrevChunk', 'commitStrConst', 'addStrConst',
            'indent', 'dedent', 'startCallRegion', 'endCallRegion',
            'setCallArg', '_endCallArg', 'endCaptureRegion',
            'endCacheRegion', 'closeFilterBlock', 'addErrorCatcherCall'}
    for cls in (em.meth, em.auto_class()):
        names = set()
        for c in ctx.prog.mro(cls):
            for m, f in c.methods.items():
                if not m.startswith(('add', 'set', 'start', 'close',
                                     '_add')):
                    continue
                if m in done or m in names or f.is_static:
                    continue
                names.add(m)
        for m in sorted(names):
            f = ctx.prog.find_method(cls, m)
            args = f.node.args
            ps = [a.arg for a in args.args[1:]]
            it, states = em.drive(
                'self.%s(%s)' % (m, ', '.join(ps)), ps, cls=cls,
                setup=cls is em.meth)
            seen = set()
            for s in states:
                if s.status != 'return':
                    continue
                r = render(stream(s), s.conds)
                if r.src in seen:
                    continue
                seen.add(r.src)
                if r.tree is None:
                    continue        # needs context of its own (else, ...)
                bad = []
                for n in ast.walk(r.tree):
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id == 'write' and \
                            n.args:
                        a = n.args[0]
                        txt = ast.unparse(a)
                        okw = isinstance(a, ast.Constant) or (
                            isinstance(a, ast.Call)
                            and isinstance(a.func, ast.Name)
                            and a.func.id in ('_filter', 'str')) or (
                            isinstance(a, ast.Name)
                            and a.id.startswith('R')) or (
                            isinstance(a, ast.Name)
                            and a.id in ('_output', '_cacheData')) or (
                            isinstance(a, ast.Call)
                            and any(k.arg == 'trans' for k in a.keywords))
                        if not okw:
                            bad.append(txt)
                ctx.ob('no-other-writer', m,
                       'Cheetah/Compiler.py (code emitted by %s)' % m,
                       not bad, 'writes %s unfiltered:\n%s' % (bad, r.src))


def prologue(ctx, em):
    it, states = em.drive('self._kwargsName = kn\nself._addAutoSetupCode()',
                          ['kn'])
    where = 'Cheetah/Compiler.py (method prologue)'
    for s in states:
        if s.status != 'return':
            continue
        uf = setting_val(s.conds, 'useFilters')
        if uf is False:
            continue
        r = render(stream(s), s.conds)
        if r.tree is None:
            ctx.ob('filter-bound', 'method prologue', where, False, r.err)
            continue
        bound_self = any(isinstance(n, ast.Attribute) and n.attr
                         == '_CHEETAH__searchList' for n in ast.walk(r.tree)) \
            or any(isinstance(n, ast.Attribute) and n.attr == 'transaction'
                   for n in ast.walk(r.tree))
        git, gst = gen_interp(ctx.prog, r, env={'_filter': ('unbound',)},
                              max_states=500)
        for g in gst:
            if g.status == 'raise':
                continue
            v = g.env.get('_filter')
            if bound_self:
                ok = v == ('attr', SELF, '_CHEETAH__currentFilter')
            else:
                ok = v is not None and v != ('unbound',)
            ctx.ob('filter-bound', 'method prologue (%s)' % (
                'instance method' if bound_self else 'class/static method'),
                where, ok, 'the prologue binds the filter to %s:\n%s' % (
                    show(v) if v else None, r.src))


CHECKS = {'C06': (c06, 'dynamic values are filtered')}
