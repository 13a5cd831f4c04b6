"""C01 memory and reference safety of the C accelerator, C02 how names are
looked up, C03 which failures count as a missing name."""
import os

from ..absint import (K, NONE, Interp, callee_name, is_const, show,
                      walk)
from ..cfront import CInterp, CProgram, Intervals, NULL, name, strip, t_of
from ..model import AnalysisBroken

_c = {}


def cprog(ctx):
    path = os.path.join(ctx.prog.repo, 'Cheetah/c/_namemapper.c')
    if path not in _c:
        if not os.path.exists(path):
            raise AnalysisBroken('_namemapper.c missing')
        _c.clear()
        _c[path] = CProgram(path)
    return _c[path]


def configs(pyname):
    """(chunk counts, also with optional arguments left out)"""
    if pyname in ('valueForName', 'valueForKey'):
        return [((0, 1, 2), True)]
    return [((0, 1), True), ((2,), False)]


def paths(p, pyname, f, small=False):
    for chunks, opt in configs(pyname):
        lm = 2 if chunks != (2,) else 1
        if chunks == (2,) and pyname == 'valueFromFrameOrSearchList':
            continue
        it = CInterp(p, chunks=chunks, optional=opt, loop_max=max(
            lm, max(chunks)), max_paths=200000)
        yield it, it.run(f)


REL = 'Cheetah/c/_namemapper.c'


def c01(ctx):
    ctx.rule('references', 'every reference a lookup acquires is released '
             'or returned exactly once, on every path', 100)
    ctx.rule('pointers', 'no NULL, released or uninitialised pointer is '
             'used', 100)
    ctx.rule('memory', 'memory allocated for a lookup is freed exactly once '
             'and not used afterwards', 100)
    ctx.rule('exceptions', 'NULL is returned with an exception set, a value '
             'without one, and no code runs while one is pending', 100)
    ctx.rule('bounds', 'no table or copy of a name is used outside '
             'its size', 2)
    ctx.rule('arguments', 'arguments are parsed into variables of the '
             'expected number and type', 5)
    p = cprog(ctx)
    ms = p.methods()
    if not ms:
        raise AnalysisBroken('no method table')
    bad = {'null': 'pointers', 'uninitialised': 'pointers',
           'use-after-release': 'references', 'release': 'references',
           'free': 'memory', 'use-after-free': 'memory',
           'error-pending': 'exceptions', 'error-lost': 'exceptions',
           'bounds': 'bounds', 'arguments': 'arguments'}
    for pyname, f in sorted(ms.items()):
        npaths = 0
        seen = set()
        for it, outs in paths(p, pyname, f):
            for (rule, line, msg), cnt in sorted(it.problems.items()):
                if (rule, line, msg) in seen:
                    continue
                seen.add((rule, line, msg))
                ctx.ob(bad[rule], pyname, '%s:%d' % (REL, line), False,
                       '%s (%d paths)' % (msg, cnt))
            ok = {'references': 0, 'memory': 0, 'exceptions': 0,
                  'pointers': 0}
            for s, v, node in outs:
                npaths += 1
                loc = '%s:%d' % (REL, (node or {}).get('_line') or 0)
                own = dict(s.own)
                if v is not None and v[0] == 'o':
                    if own.get(v[1], 0) <= 0:
                        once(ctx, seen, 'references', pyname, loc,
                             'a borrowed or released reference (%s) is '
                             'returned' % name(v))
                    else:
                        own[v[1]] -= 1
                elif v is not None and v[0] == 'uninit':
                    once(ctx, seen, 'pointers', pyname, loc, 'an unset '
                         'variable is returned')
                objs = objects(s)
                for o, c in own.items():
                    if c > 0:
                        once(ctx, seen, 'references', pyname, loc,
                             'a reference to %s is never released'
                             % objs.get(o, o))
                for m, x in s.mem.items():
                    if x == 'live':
                        once(ctx, seen, 'memory', pyname, loc,
                             'allocated memory is not freed')
                if v == NULL and s.err is None:
                    once(ctx, seen, 'exceptions', pyname, loc,
                         'NULL is returned without an exception')
                elif v is not None and v[0] == 'o' and s.err is not None:
                    once(ctx, seen, 'exceptions', pyname, loc,
                         'a value is returned with an exception pending')
                for k in ok:
                    ok[k] += 1
            for k in ok:
                for i in range(min(ok[k], 40)):
                    ctx.ob(k, pyname, REL, True)
        ctx.ob('arguments', pyname, REL, True)
        ctx.unit('exported functions', pyname)
        for i in range(npaths):
            ctx.unit('paths through the C code', '%s %d' % (pyname, i))
    bounds(ctx, p)


def once(ctx, seen, rule, what, loc, msg):
    if (rule, loc, msg) not in seen:
        seen.add((rule, loc, msg))
        ctx.ob(rule, what, loc, False, msg)


def objects(s):
    out = {}
    for v in list(s.vars.values()) + [x for e in s.events for x in e[1]]:
        if isinstance(v, tuple) and v and v[0] == 'o':
            out[v[1]] = name(v)
    return out


def bounds(ctx, p):
    """Indices into arrays of known size; an array parameter has the size of
    the smallest array that is passed for it."""
    sizes = {}
    for fn, f in p.funcs.items():
        for d in p.find(f, 'VarDecl'):
            q = d['type']['qualType']
            if '[' in q and q.split('[')[1].split(']')[0].isdigit():
                sizes[d['id']] = int(q.split('[')[1].split(']')[0])
    changed = True
    while changed:
        changed = False
        for fn, f in p.funcs.items():
            for c in p.find(f, 'CallExpr'):
                g = strip(c['inner'][0]).get('referencedDecl', {}).get('name')
                if g not in p.funcs:
                    continue
                for prm, a in zip(p.params(p.funcs[g]), c['inner'][1:]):
                    a = strip(a)
                    if a['kind'] == 'DeclRefExpr' and \
                            a['referencedDecl']['id'] in sizes:
                        n = sizes[a['referencedDecl']['id']]
                        if sizes.get(prm['id'], 1 << 30) > n:
                            sizes[prm['id']] = n
                            changed = True
    ret = {}
    for fn, f in sorted(p.funcs.items()):
        iv = Intervals(p, fn)
        ctx.unit('C functions', fn)
        for node, arr, (lo, hi) in iv.sites:
            a = strip(arr)
            if a['kind'] != 'DeclRefExpr':
                continue
            n = sizes.get(a['referencedDecl']['id'])
            if n is None:
                continue
            if hi == float('inf') and not written(p, f, node):
                # a read, limited by the number of parts that were set; the
                # path analysis reports reads of parts that are not set
                continue
            ctx.ob('bounds', '%s[%s]' % (a['referencedDecl']['name'], fn),
                   '%s:%d' % (REL, node['_line']), 0 <= lo and hi < n,
                   'index between %s and %s, the array has %d elements' % (
                       lo, hi, n))


def written(p, f, node):
    for b in p.find(f, 'BinaryOperator'):
        if b['opcode'] == '=' and strip(b['inner'][0]) is node:
            return True
    return False


# ---------------------------------------------------------------- C02, C03

class Undecided(Exception):
    pass


class Oracle(object):
    """What a lookup must do, given what the code found out on a path."""

    def __init__(self, s):
        self.s = s

    def ans(self, *t):
        a = self.s.ans.get(t)
        if a is None:
            return None
        if a[0] == 'is':
            return a[1]
        return 1 if 0 in a[1] else None     # 'not 0'

    def ask(self, f, *t):
        return self.ans('ask', f, *t)

    def item(self, o, k):
        m = self.ask('PyMapping_Check', o)
        if m == 0:
            return 0
        return self.ask('PyMapping_HasKeyString', o, k)

    def need(self, v, what):
        if v is None:
            raise Undecided(what)
        return v

    def present(self, o, k):
        if self.need(self.item(o, k), 'whether %s has the key %s' % (
                T(o), T(k))):
            return True
        return bool(self.need(self.ask('PyObject_HasAttrString', o, k),
                              'whether %s has the attribute %s' % (T(o),
                                                                   T(k))))

    def inst(self, o):
        h = [self.ask('PyObject_HasAttrString', o, x) for x in (
            '"__class__"', '"mro"', '"__func__"', '"__code__"',
            '"__self__"', '"__init__"')]
        ty = self.ask('PyType_Check', o)
        fn = None
        for t, a in self.s.ans.items():
            if t[0] in ('strncmp', 'strcmp') and a == ('is', 0) and \
                    '"function"' in t and about(t[1]) == o:
                fn = 1
        cl, mro, func, code, self_, init = h
        if cl == 0:
            return False
        if ty or mro:
            return True
        if ty is None or mro is None:
            raise Undecided('whether %s is a class' % T(o))
        if func or code or self_ or fn:
            return False
        if func is None or code is None or self_ is None:
            raise Undecided('whether %s is a function or method' % T(o))
        return bool(self.need(init, 'whether %s is an instance' % T(o)))

    def execute(self):
        if self.ans('omitted', 'executeCallables'):
            return False
        return self.ans('param', 'executeCallables')

    def failed(self, t):
        return ('failed', t) in self.s.ans

    def resolve(self, o, n):
        """('value', term) / ('raise', origin) / ('missing', key)"""
        cur = o
        for i in range(n):
            k = ('chunk', i)
            if self.failed(('signal',)) and not self.touched(cur, k):
                return ('raise', ('signal',))
            if self.need(self.item(cur, k), 'whether %s has the key %s' % (
                    T(cur), T(k))):
                nxt = ('PyMapping_GetItemString', cur, k)
                if self.failed(nxt):
                    return ('raise', nxt)
            else:
                nxt = ('PyObject_GetAttrString', cur, k)
                if self.failed(nxt):
                    a = self.s.ans.get(('kind', nxt))
                    if a is None:
                        raise Undecided('whether the attribute is missing or '
                                        'failed')
                    if a == ('is', 'AttributeError'):
                        return ('missing', k)
                    if a[0] == 'not' and 'AttributeError' not in a[1]:
                        raise Undecided('whether the attribute is missing or '
                                        'failed')
                    return ('raise', nxt)
            ex = self.execute()
            call = False
            if ex is None or ex:
                c = self.ask('PyCallable_Check', nxt)
                if ex is None:
                    if c is None:
                        raise Undecided('whether callables are to be called')
                    ex = c == 0
                    if not c:
                        ex = False
                    else:
                        raise Undecided('whether callables are to be called')
                else:
                    call = bool(self.need(c, 'whether %s can be called'
                                          % T(nxt))) and not self.inst(nxt)
            if call:
                t = ('PyObject_CallObject', nxt, 0)
                alt = ('PyObject_CallNoArgs', nxt)
                if self.failed(alt) or any(e[0] == 'PyObject_CallNoArgs'
                                           for e in self.s.events):
                    t = alt
                if self.failed(t):
                    return ('raise', t)
                nxt = t
            cur = nxt
        return ('value', cur)

    def touched(self, cur, k):
        return self.item(cur, k) is not None

    def search(self, spaces):
        """spaces: 'locals', 'list', 'globals', 'builtins'"""
        n = self.ans('chunks')
        k = ('chunk', 0)
        for sp in spaces:
            if sp != 'list':
                o = ('PyEval_Get' + sp.capitalize(),)
                if self.present(o, k):
                    return self.resolve(o, n)
                continue
            it = ('PyObject_GetIter', ('param', 'searchList'))
            if self.failed(it):
                return ('raise', None)
            i = 0
            while True:
                i += 1
                a = self.ans('next', i)
                if a is None and i > 1 and self.failed(('signal',)):
                    return ('raise', ('signal',))
                if a is None:
                    raise Undecided('the next namespace')
                if a == 'end':
                    break
                o = ('item', it, i)
                if a == 'fail':
                    return ('raise', o)
                if self.present(o, k):
                    return self.resolve(o, n)
        return ('missing', k)


def T(t):
    if isinstance(t, tuple) and t:
        return '%s(%s)' % (str(t[0]).replace('PyObject_', '').replace(
            'PyMapping_', ''), ', '.join(T(x) for x in t[1:]))
    return str(t)


def about(t):
    """The object whose type name a term stands for."""
    while isinstance(t, tuple) and t and t[0] in ('member', 'u'):
        t = t[1]
    return t[2] if isinstance(t, tuple) and t and t[0] == 'o' else None


SPACES = {'valueFromFrame': ('locals', 'globals', 'builtins'),
          'valueFromFrameOrSearchList': ('locals', 'list', 'globals',
                                         'builtins'),
          'valueFromSearchList': ('list',)}


def outcome(s, v):
    if v is not None and v[0] == 'o':
        return ('value', v[2])
    if s.err is None:
        return ('nothing',)
    kind, exc, origin = s.err
    if kind == 'NotFound' and origin and origin[0] == 'set':
        m = origin[2]
        key = None
        if isinstance(m, tuple) and m[0] == 'PyUnicode_FromFormat':
            key = m[2] if len(m) > 2 else None
        elif m == 0:
            key = 'any'
        return ('missing', key)
    return ('raise', origin, kind)


def lookup_paths(ctx):
    p = cprog(ctx)
    ms = p.methods()
    for pyname in ('valueForKey', 'valueForName', 'valueFromSearchList',
                   'valueFromFrame', 'valueFromFrameOrSearchList'):
        if pyname not in ms:
            yield pyname, None, None, None, 'is not exported'
            continue
        for it, outs in paths(p, pyname, ms[pyname]):
            for s, v, node in outs:
                yield pyname, s, v, node, None


def judge(pyname, s, v):
    """(expected, got) where expected may be None: anything is fine."""
    return judge_with(pyname, s, outcome(s, v))


def judge_with(pyname, s, got):
    o = Oracle(s)
    if o.failed(('arguments',)) or o.failed(('nomem',)) or \
            got[:2] == ('raise', ('signal',)):
        return ('raise', None), got
    if pyname == 'valueForKey':
        obj, k = ('param', 'argument0'), ('param', 'argument1')
        if o.need(o.item(obj, k), 'whether the object has the key'):
            t = ('PyMapping_GetItemString', obj, k)
        elif o.need(o.ask('PyObject_HasAttrString', obj, k),
                    'whether the object has the attribute'):
            t = ('PyObject_GetAttrString', obj, k)
        else:
            return ('missing', k), got
        return (('raise', t) if o.failed(t) else ('value', t)), got
    n = o.ans('chunks')
    if n is None:
        raise Undecided('the parts of the name')
    if n == -1:
        return ('raise', ('split',)), got
    if n == 0:
        return ('raise', None, 'ValueError'), got
    if pyname == 'valueForName':
        return o.resolve(('param', 'obj'), n), got
    return o.search(SPACES[pyname]), got


def matches(want, got):
    if want[0] != got[0]:
        return False
    if want[0] == 'value':
        return want[1] == got[1]
    if want[0] == 'missing':
        return got[1] in ('any', want[1])
    if len(want) > 2:
        return want[2] == got[2]
    return want[1] is None or want[1] == got[1]


def c02(ctx):
    ctx.rule('resolution', 'a lookup returns the item or attribute of the '
             'first namespace that has the first part of the name, followed '
             'through all parts, with callables other than classes and '
             'instances called when asked to', 100)
    ctx.rule('parts', 'a dotted name is cut at every period', 5)
    per = {}
    for pyname, s, v, node, err in lookup_paths(ctx):
        if err:
            ctx.ob('resolution', pyname, REL, False, err)
            continue
        loc = '%s:%d' % (REL, (node or {}).get('_line') or 0)
        d = per.setdefault(pyname, {'n': 0, 'bad': {}})
        d['n'] += 1
        try:
            want, got = judge(pyname, s, v)
        except Undecided as e:
            d['bad'].setdefault('the code goes on without knowing %s' % e,
                                loc)
            continue
        if want[0] == 'raise' or got[0] == 'raise' and want[0] != 'value':
            continue        # C03
        if not matches(want, got):
            d['bad'].setdefault('the result is %s, it must be %s' % (
                T(got), T(want)), loc)
    for pyname, d in per.items():
        for i in range(min(60, d['n'])):
            ctx.ob('resolution', pyname, REL, True)
        for i in range(d['n']):
            ctx.unit('paths through the C code', '%s %d' % (pyname, i))
        for msg, loc in sorted(d['bad'].items())[:20]:
            ctx.ob('resolution', pyname, loc, False, msg)
    parts(ctx)
    py_judge(ctx, ('resolution',))
    caller_frame(ctx)


def frame_of(t):
    """(depth, steps) for the frame `steps` above a function inlined at
    `depth`, None for anything else"""
    if t[0] == 'frame':
        return t[1], t[2]
    if t[0] == 'attr' and t[2] == 'f_back':
        r = frame_of(t[1])
        return r and (r[0], r[1] + 1)
    if t[0] == 'attr' and t[2] == 'frame' or \
            t[0] == 'idx' and t[2] == K(0):
        x = t[1]
        if x[0] == 'idx' and x[1][0] == 'framelist' and is_const(x[2]):
            return x[1][1], x[2][2]
    return None


def caller_frame(ctx):
    """Without a frame, the Python versions look in that of their caller."""
    ctx.rule('frame', 'the local and global names are those of the caller of '
             'the lookup', 2)
    for pyname in ('valueFromFrame', 'valueFromFrameOrSearchList'):
        f = ctx.prog.func('NameMapper', pyname)
        if f is None:
            raise AnalysisBroken('NameMapper.%s missing' % pyname)

        def hook(it, fn, a, kw, st, n):
            nm = callee_name(fn)
            d = st.fr.depth
            if nm == 'stack' and 'inspect' in show(fn):
                return [(st, ('framelist', d))]
            if nm == '_getframe':
                return [(st, ('frame', d, a[0][2] if a and is_const(a[0])
                              else 0))]
            if nm == 'currentframe':
                return [(st, ('frame', d, 0))]
            if nm == 'pformat':
                return [(st, ('var', '@text'))]
            return None
        it = Paths(ctx.prog, depth=8, loop_max=3, max_states=60000,
                   hook=hook, keep=lambda e: False, generators=True)
        names = {x.arg for x in f.node.args.args}
        args = {k: v for k, v in (
            ('name', K('ka')), ('frame', NONE), ('executeCallables',
                                                 K(False)),
            ('searchList', NONE)) if k in names}
        seen, bad = 0, set()
        fl = [('idx', ('framelist', d), K(k)) for d in range(4)
              for k in range(4)]
        true = [('idx', x, K(0)) for x in fl] + \
            [('attr', x, 'frame') for x in fl] + \
            [('frame', d, k) for d in range(4) for k in range(4)]
        for s in it.run(f, args=args, init={'conds': {
                t: True for t in true}}):
            for t in list(s.conds) + [s.val]:
                for x in walk(t) if t is not None else ():
                    if x[0] == 'attr' and x[2] in ('f_locals', 'f_globals'):
                        seen += 1
                        r = frame_of(x[1])
                        if r is None or r[1] != r[0] + 1:
                            bad.add('it looks in %s' % show(x))
        if not seen:
            raise AnalysisBroken('%s uses no frame' % pyname)
        ctx.ob('frame', pyname, '%s:%d' % (f.module.path, f.node.lineno),
               not bad, '; '.join(sorted(bad))[:300])


def parts(ctx):
    """All names of up to three characters, as classes of characters."""
    p = cprog(ctx)
    for fn, f in p.funcs.items():
        if not p.is_splitter(f):
            continue
        args = {}
        ps = p.params(f)
        mem = ('ptr', ('s', 'name'), 0)
        strs = [q for q in ps if q['type']['qualType'].replace(' ', '') in (
            'char*', 'constchar*')]
        arrs = [q for q in ps if q['type']['qualType'].replace(
            ' ', '') == 'char**']
        # the text that is cut is the one that is written to
        for q in strs:
            args[q['name']] = ('ptr', ('s', q['name']), 0)
        a = ('arr', 1, 15)
        args[arrs[0]['name']] = a
        it = CInterp(p, splitter=False, loop_max=3)
        for s, v, node in it.run(fn, args):
            pos = {}
            base = None
            for t, x in s.ans.items():
                if t[0] == 'deref':
                    base = base or t[1]
                    if t[1] == base:
                        pos[t[2]] = x
            if s.err is not None:
                continue
            n = 0
            while n in pos and pos[n] != ('is', 0):
                n += 1
            if n not in pos:
                continue
            want = []
            start = 0
            for i in range(n):
                if pos[i] == ('is', 46):
                    want.append(('ptr', base, start))
                    start = i + 1
            if start < n:
                want.append(('ptr', base, start))
            got = [s.arr[a].get(i) for i in range(len(s.arr.get(a, {})))]
            ends = all(s.cells.get((base, i)) == ('i', 0)
                       for i in range(n) if pos[i] == ('is', 46))
            text = ''.join('.' if pos[i] == ('is', 46) else 'x'
                           for i in range(n))
            ctx.ob('parts', '%s(%r)' % (fn, text), '%s:%d' % (
                REL, f.get('_line') or 0),
                got == want and v == ('i', len(want)) and ends,
                'parts of %r start at %s, count %s, %s' % (
                    text, [g and g[2] for g in got], t_of(v),
                    'cut' if ends else 'not cut at the periods'))
        return
    ctx.ob('parts', 'splitter', REL, False, 'no function cuts the name')


def c03(ctx):
    ctx.rule('missing', 'a lookup fails with NotFound exactly when no '
             'namespace has the name or an attribute on the way is missing',
             50)
    ctx.rule('propagate', 'an exception raised by an object, its attributes, '
             'items or calls is passed on unchanged', 50)
    ctx.rule('silent', 'the code of a silent placeholder ($!x) catches '
             'NotFound and nothing else; the code of any other placeholder '
             'catches nothing', 8)
    per = {}
    for pyname, s, v, node, err in lookup_paths(ctx):
        if err:
            ctx.ob('missing', pyname, REL, False, err)
            continue
        loc = '%s:%d' % (REL, (node or {}).get('_line') or 0)
        d = per.setdefault(pyname, {'missing': 0, 'propagate': 0, 'bad': {}})
        try:
            want, got = judge(pyname, s, v)
        except Undecided:
            continue        # C02
        if want[0] == 'value':
            if got[0] != 'value':
                d['bad'].setdefault(('missing', 'the result is %s instead of '
                                     '%s' % (T(got), T(want))), loc)
            continue
        r = 'missing' if want[0] == 'missing' else 'propagate'
        d[r] += 1
        if not matches(want, got):
            d['bad'].setdefault((r, 'the result is %s, it must be %s' % (
                T(got), T(want))), loc)
    for pyname, d in per.items():
        for r in ('missing', 'propagate'):
            for i in range(min(40, d[r])):
                ctx.ob(r, pyname, REL, True)
            for i in range(d[r]):
                ctx.unit('failing paths through the C code', '%s %s %d' % (
                    pyname, r, i))
        for (r, msg), loc in sorted(d['bad'].items())[:20]:
            ctx.ob(r, pyname, loc, False, msg)
    py_judge(ctx, ('missing', 'propagate'))
    helpers(ctx)
    placeholders(ctx)


CATCH = ("self.turnErrorCatcherOn()\nself.addPlaceholder(expr, None, raw, "
         "{'REFRESH_CACHE': None, 'STATIC_CACHE': None, 'interval': None}, "
         "lc, True)")


def placeholders(ctx):
    """What the code generated for a placeholder catches."""
    import ast
    from ..emit import Emitter, stream, render
    from .values import ENTRIES
    em = Emitter(ctx.prog)
    silent = ('silent placeholder under an error catcher', CATCH,
              ['expr', 'raw', 'lc'], [])
    for name, body, params, vals in ENTRIES + [silent]:
        if 'addPlaceholder' not in body or ' cached ' in name:
            continue            # C18
        quiet = body.rstrip(')').endswith('True')
        it, states = em.drive(body, params)
        done = set()
        for s in states:
            if s.status != 'return':
                continue
            r = render(stream(s), s.conds)
            src = r.src
            if r.err or src in done:
                continue        # C06 and C20 decide this
            done.add(src)
            tries = [n for n in ast.walk(ast.parse(src))
                     if isinstance(n, ast.Try)]
            hs = [h for t in tries for h in t.handlers]
            types = sorted({ast.unparse(h.type).rpartition('.')[2].strip('(,)')
                            if h.type else 'anything' for h in hs})
            ctx.ob('silent', name, 'Cheetah/Compiler.py (generated code)',
                   types == (['NotFound'] if quiet else []),
                   'its code catches %s: %s' % (
                       ', '.join(types) or 'nothing', src.strip()[:200]))
            ctx.ob('silent', name + ', what is done then',
                   'Cheetah/Compiler.py (generated code)',
                   all(isinstance(x, ast.Pass) for h in hs for x in h.body)
                   and not any(t.finalbody or t.orelse for t in tries),
                   'it does more than to leave the placeholder out: ' +
                   src.strip()[:200])


OTHERS = tuple(('bi', x) for x in (
    'ZeroDivisionError', 'KeyError', 'IndexError', 'AttributeError',
    'NameError', 'TypeError', 'ValueError', 'StopIteration',
    'KeyboardInterrupt'))


def has_name(ctx):
    prog = ctx.prog
    m = prog.mod('NameMapper')
    f = m.funcs.get('hasName') if m else None
    if f is None:
        return
    nf = ('cls', 'Cheetah.NameMapper:NotFound')

    def hook(it, fn, a, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        if nm == 'hasKey':
            t = ('var', '@has')
            return [(st, t)]
        if nm not in ('valueForName', '_valueForName'):
            return None
        out = [(st, ('var', '@found'))]
        for exc in (nf,) + OTHERS:
            s = st.copy()
            s.conds[('lookup', exc)] = True
            s.status = 'raise'
            s.val = ('call', exc, (), (), None)
            out.append((s, ('const', 'NoneType', None)))
        return out
    for s in Paths(prog, hook=hook, depth=3).run(f):
        other = next((x[1] for x in OTHERS if s.conds.get(('lookup', x))),
                     None)
        miss = s.conds.get(('lookup', nf)) or s.conds.get(
            ('var', '@has')) is False
        want = ('raise', other) if other else ('value', K(not miss))
        got = ('raise', callee_name(s.val) if s.val[0] == 'call' else
               str(s.val)) if s.status == 'raise' else ('value', s.val)
        ctx.ob('helpers', 'hasName %s' % (want,), '%s:%d' % (
            f.module.path, f.node.lineno), got == want,
            'the result is %s, it must be %s' % (got, want))


def helpers(ctx):
    """Template.getVar, varExists and hasVar."""
    ctx.rule('helpers', 'getVar and varExists look in the search list of the '
             'template and take only NotFound for a missing name', 8)
    has_name(ctx)
    prog = ctx.prog
    c = prog.cls('Template', 'Template')
    nf = ('cls', 'Cheetah.NameMapper:NotFound')
    for name_ in ('getVar', 'varExists', 'hasVar'):
        f = prog.find_method(c, name_)
        if f is None:
            a = prog.find_attr(c, name_)
            ctx.ob('helpers', name_, 'Cheetah/Template.py', a is not None,
                   '%s is missing' % name_)
            continue
        looked = []

        def hook(it, fn, a, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            if nm not in ('valueFromSearchList', 'VFSL'):
                return None
            looked.append(tuple(a) + tuple(v for k, v in kw))
            out = [(st, ('var', '@found'))]
            for exc in (nf,) + OTHERS:
                s = st.copy()
                s.conds[('lookup', exc)] = True
                s.status = 'raise'
                s.val = ('call', exc, (), (), None)
                out.append((s, ('const', 'NoneType', None)))
            return out
        for dflt in (False, True):
            args = {}
            names = [x.arg for x in f.node.args.args]
            if 'default' in names:
                d = prog.func('Unspecified', 'x') if False else None
                it0 = Paths(prog, hook=hook, depth=3)
                args['default'] = ('var', '@default') if dflt else \
                    it0.globname('Unspecified', _st(it0, f))
            elif dflt:
                continue
            init = {'conds': {}}
            if dflt:
                u = Paths(prog).globname('Unspecified', _st(None, f))
                init['conds'][('cmp', 'is', ('var', '@default'), u)] = False
            for s in Paths(prog, hook=hook, depth=3).run(
                    f, selfcls=c, args=args, init=init):
                miss = s.conds.get(('lookup', nf))
                other = next((x[1] for x in OTHERS
                              if s.conds.get(('lookup', x))), None)
                if name_ == 'getVar':
                    want = ('raise', other) if other else \
                        ('raise', 'NotFound') if miss and not dflt else \
                        ('value', ('var', '@default')) if miss else \
                        ('value', ('var', '@found'))
                else:
                    want = ('raise', other) if other else \
                        ('value', K(not miss))
                if s.status == 'raise':
                    got = ('raise', callee_name(s.val)
                           if s.val[0] == 'call' else str(s.val))
                else:
                    got = ('value', s.val)
                ctx.ob('helpers', '%s %s' % (name_, want), '%s:%d' % (
                    f.module.path, f.node.lineno), got == want,
                    'the result is %s, it must be %s' % (got, want))
        for a in looked[:1]:
            ctx.ob('helpers', name_ + ' where', '%s:%d' % (
                f.module.path, f.node.lineno), bool(a) and 'searchList' in
                repr(a[0]) or 'earchList' in repr(a[:1]),
                'the name is looked up in %s' % (a[:1],))
        if not looked:
            ctx.ob('helpers', name_ + ' where', '%s:%d' % (
                f.module.path, f.node.lineno), False, 'the search list is '
                'not used')


def _st(it, f):
    from ..absint import Frame, State
    st = State()
    st.fr = Frame(f, None, 0, (), (f.qual,))
    return st


# ------------------------------------------- the version written in Python

class PyState(object):
    """A path through the Python version in the vocabulary of the oracle."""

    def __init__(self, s, keys):
        self.ans = {}
        self.events = []
        self.keys = keys
        n = 0
        for t, v in s.conds.items():
            q = self.question(t)
            if q is not None:
                self.ans[('ask',) + q] = ('is', 1 if v else 0)
            elif t == ('var', 'executeCallables'):
                self.ans[('param', 'executeCallables')] = ('is', int(v))
            elif t[0] == 'failed':
                o = self.term(t[1])
                self.ans[('failed', o)] = ('is', None)
                self.ans[('kind', o)] = ('is', 'AttributeError') \
                    if t[2] == 'AttributeError' else (
                        'not', frozenset({'AttributeError'}))
        self.ans[('chunks',)] = ('is', len(keys))
        for i in (1, 2):
            self.ans[('next', i)] = ('is', 'item')
        self.ans[('next', 3)] = ('is', 'end')

    def question(self, t):
        if t[0] == 'call':
            n = callee_name(t)
            if n == 'isinstance' and len(t[2]) == 2:
                c = t[2][1]
                if c == ('bi', 'type'):
                    return ('PyType_Check', self.term(t[2][0]))
                if 'Mapping' in str(c[-1]) or 'Mapping' in str(c):
                    return ('PyMapping_Check', self.term(t[2][0]))
            if n == 'hasattr':
                return ('PyObject_HasAttrString', self.term(t[2][0]),
                        self.key(t[2][1]))
            if n == 'callable':
                return ('PyCallable_Check', self.term(t[2][0]))
        if t[0] == 'cmp' and t[1] == 'in':
            return ('PyMapping_HasKeyString', self.term(t[3]),
                    self.key(t[2]))
        return None

    def key(self, t):
        if is_const(t):
            if t[2] in self.keys:
                return ('chunk', self.keys.index(t[2]))
            return '"%s"' % t[2]
        if t == ('var', 'key'):
            return ('param', 'argument1')
        return t

    def term(self, t):
        if t[0] == 'idx':
            return ('PyMapping_GetItemString', self.term(t[1]),
                    self.key(t[2]))
        if t[0] == 'ga':
            return ('PyObject_GetAttrString', self.term(t[1]),
                    self.key(t[2]))
        if t[0] == 'called':
            return ('PyObject_CallObject', self.term(t[1]), 0)
        if t[0] == 'attr' and t[1] == ('var', 'frame'):
            return {'f_locals': ('PyEval_GetLocals',),
                    'f_globals': ('PyEval_GetGlobals',)}.get(t[2], t)
        if '__builtins__' in t:
            return ('PyEval_GetBuiltins',)
        it = ('PyObject_GetIter', ('param', 'searchList'))
        if t == ('var', '@1'):
            return ('item', it, 1)
        if t == ('var', '@2'):
            return ('item', it, 2)
        if t == ('var', 'obj'):
            return ('param', self.obj)
        return t

    obj = 'obj'


class Paths(Interp):
    """Keeps paths apart that differ only in what was found out."""

    def merge(self, states):
        return states


def py_paths(prog, pyname, keys):
    f = prog.func('NameMapper', pyname)
    if f is None:
        raise AnalysisBroken('NameMapper.%s missing' % pyname)

    def hook(it, fn, a, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        if nm == 'getattr' and len(a) == 2:
            out = [(st, ('ga', a[0], a[1]))]
            t = out[0][1]
            for kind, exc in (
                    ('AttributeError', ('call', ('bi', 'AttributeError'), (t,),
                                        (), None)),
                    ('other', ('call', ('bi', 'ZeroDivisionError'), (t,), (),
                               None))):
                s = st.copy()
                s.conds[('failed', t, kind)] = True
                s.status, s.val = 'raise', exc
                out.append((s, ('const', 'NoneType', None)))
            return out
        if fn[0] in ('idx', 'ga', 'called') and not a:
            t = ('called', fn)
            s = st.copy()
            s.conds[('failed', t, 'other')] = True
            s.status = 'raise'
            s.val = ('call', ('bi', 'ZeroDivisionError'), (t,), (), None)
            return [(st, t), (s, ('const', 'NoneType', None))]
        if nm == 'pformat':
            return [(st, ('var', '@text'))]
        return None
    args = {'name': K('.'.join(keys)), 'frame': ('var', 'frame')}
    heap = {}
    sl = ('obj', 'list', '@searchList')
    heap[(sl, 'items')] = (('var', '@1'), ('var', '@2'))
    args['searchList'] = sl
    if pyname in ('valueForKey', 'hasKey'):
        args['key'] = ('var', 'key')
    names = {x.arg for x in f.node.args.args}
    it = Paths(prog, depth=8, loop_max=3, max_states=60000, hook=hook,
                keep=lambda e: e.kind == 'raise', generators=True)
    return f, it.run(f, args={k: v for k, v in args.items() if k in names},
                     init={'heap': heap, 'conds': {
                         ('var', 'frame'): True, ('glob', 'Cheetah.NameMapper',
                         '_ALLOW_WRAPPING_OF_NOTFOUND_EXCEPTIONS'): True}})


def py_outcome(s, ps):
    if s.status != 'raise':
        return ('value', ps.term(s.val))
    v = s.val
    if v[0] == 'call' and callee_name(v) == 'NotFound':
        for x in walk(v):
            if is_const(x) and x[2] in ps.keys:
                return ('missing', ps.key(x))
        for x in walk(v):
            if x == ('var', 'key'):
                return ('missing', ('param', 'argument1'))
            if x[0] == 'cat':
                for y in x[1:]:
                    for k in ps.keys:
                        if is_const(y) and isinstance(y[2], str) and \
                                "'%s'" % k in y[2]:
                            return ('missing', ps.key(K(k)))
        for x in walk(v):
            if is_const(x) and isinstance(x[2], str):
                for k in ps.keys:
                    if "'%s'" % k in x[2]:
                        return ('missing', ps.key(K(k)))
        return ('missing', None)
    if v[0] == 'call' and callee_name(v) in (
            'ZeroDivisionError', 'AttributeError') and v[2]:
        return ('raise', ps.term(v[2][0]), None)
    return ('raise', v, None)


def python_lookups(ctx):
    for pyname in ('valueForKey', 'valueForName', 'valueFromSearchList',
                   'valueFromFrame', 'valueFromFrameOrSearchList'):
        for keys in (['ka'], ['ka', 'kb']):
            if pyname == 'valueForKey' and len(keys) > 1:
                continue
            f, states = py_paths(ctx.prog, pyname, keys)
            for s in states:
                ps = PyState(s, keys)
                if pyname == 'valueForKey':
                    ps.keys = []
                    ps = PyStateKey(s, [])
                yield pyname, f, s, ps, py_outcome(s, ps)


class PyStateKey(PyState):
    obj = 'argument0'


def py_judge(ctx, rules):
    per = {}
    for pyname, f, s, ps, got in python_lookups(ctx):
        loc = '%s:%d' % (f.module.path, f.node.lineno)
        d = per.setdefault(pyname, {'n': 0, 'bad': {}})
        d['n'] += 1
        try:
            want, _ = judge_with(pyname, ps, got)
        except Undecided as e:
            d['bad'].setdefault(('resolution', 'the code goes on without '
                                 'knowing %s' % e), loc)
            continue
        r = 'resolution'
        if want[0] == 'raise':
            r = 'propagate'
        elif want[0] == 'missing':
            r = 'missing'
        elif got[0] != 'value':
            r = 'missing'
        if not matches(want, got):
            d['bad'].setdefault((r, 'the result is %s, it must be %s' % (
                T(got), T(want))), loc)
    for pyname, d in sorted(per.items()):
        for r in rules:
            for i in range(min(20, d['n'])):
                ctx.ob(r, 'Python ' + pyname, 'Cheetah/NameMapper.py', True)
        for i in range(d['n']):
            ctx.unit('paths through the Python code', '%s %d' % (pyname, i))
        for (r, msg), loc in sorted(d['bad'].items())[:20]:
            if r in rules:
                ctx.ob(r, 'Python ' + pyname, loc, False, msg)


CHECKS = {
    'C01': (c01, 'memory safety of the C accelerator'),
    'C02': (c02, 'name lookup'),
    'C03': (c03, 'failures of name lookup'),
}
