"""C04, C05, C10: Template.compile and #include."""
import ast

from ..absint import (K, NONE, Interp, show, callee_name, is_const, walk)
from ..model import AnalysisBroken

KIND = dict(source='str', file='str', moduleName='str', className='str',
            mainMethodName='str', baseclass='class', compilerSettings='dict',
            moduleGlobals='dict', cacheCompilationResults='bool',
            useCache='bool', keepRefToGeneratedCode='bool',
            cacheModuleFilesForTracebacks='bool',
            cacheDirForModuleFiles='str', returnAClass='bool')
PAT = {'str': ('string_type', 'str', 'unicode', 'basestring'),
       'class': ('type', 'class_types'), 'dict': ('dict',),
       'bool': ('bool', 'int')}
OPAQUE = {'hashDict', 'hashList', '_preprocessSource',
          'convertTmplPathToModuleName', 'genParserErrorFromPythonException',
          'updateLinecache', '_getCompilerSettings', '_getCompilerClass',
          '_genUniqueModuleName'}
QUIET = {'isinstance', 'hash', 'hashDict', 'str', 'sub', 'time', 'globals',
         'convertTmplPathToModuleName', 'getmtime', 'hasattr', 'join',
         'exists', 'TypeError', 'items', 'len', 'tuple', 'repr', 'getattr',
         'bool'}
CACHE = '_CHEETAH_compileCache'
# options that decide whether or how the cache is used, or what is kept
# beside the class, but not what the class is
NOT_INPUT = {
    'returnAClass': 'the cache only answers requests for a class',
    'useCache': 'asks for the lookup', 'cacheCompilationResults':
    'asks for the store', 'keepRefToGeneratedCode':
    'only keeps the generated code',
    'cacheModuleFilesForTracebacks': 'only writes a file for tracebacks',
    'commandlineopts': 'used by the command line, which never asks for a '
                       'class',
}
_memo = {}


def params(f):
    return [a.arg for a in f.node.args.args][1:] + [
        a.arg for a in f.node.args.kwonlyargs]


class CompileInterp(Interp):
    def assume(self, st, t, val=True):
        # an entry of the compile cache is an object, never false
        if t[0] == 'idx' and is_cache(t[1]):
            return [st] if val else []
        if t[0] == 'call' and callee_name(t) == 'get' and \
                t[1][0] == 'attr' and is_cache(t[1][1]):
            # nor is what .get() finds there
            return Interp.assume(self, st, ('cmp', 'is', t, NONE), not val)
        return Interp.assume(self, st, t, val)


def compile_runs(ctx, exc=False, calls=None):
    key = ('runs', exc, calls)
    if key in _memo:
        return _memo[key]
    prog = ctx.prog
    c = prog.cls('Template', 'Template')
    f = prog.find_method(c, 'compile')
    if f is None:
        raise AnalysisBroken('Template.compile missing')
    names = params(f)
    unspec = None
    for n in names:
        pass
    U = [('glob', m.name, 'Unspecified') for m in prog.modules.values()
         if m.name.endswith('Unspecified')] or [
             ('glob', 'Cheetah.Unspecified', 'Unspecified')]

    def keep(e):
        if e.kind == 'call':
            return e.name not in QUIET
        return e.kind in ('setattr', 'setidx', 'delidx', 'enter', 'exit')

    def opaque(fn):
        return fn.name in OPAQUE or (
            fn.module.name.split('.')[-1] not in ('Template',))
    scen = {
        'source': ({'file': NONE}, {'preprocessors': False, 'source': True}),
        'file': ({'source': NONE}, {'preprocessors': False, 'file': True}),
        'preprocessed': ({'file': NONE}, {'preprocessors': True,
                                          'source': True}),
    }
    out = []
    for label, (args, truth) in scen.items():
        for bc in ('class', 'str'):
            kinds = dict(KIND, baseclass=bc)

            def hook(it, fn, a, kw, st, n, kinds=kinds):
                if fn == ('bi', 'isinstance') and len(a) == 2 and \
                        a[0][0] == 'var' and a[0][1] in kinds:
                    ts = {x[-1] for x in walk(a[1])
                          if isinstance(x[-1], str)}
                    return [(st, K(bool(ts & set(PAT[kinds[a[0][1]]]))))]
                return None
            conds = {}
            for n in names:
                for u in U:
                    conds[('cmp', 'is', ('var', n), u)] = False
            for n in ('moduleName', 'className', 'baseclass',
                      'mainMethodName'):
                conds[('var', n)] = True
            for n, v in truth.items():
                conds[('var', n)] = v
            it = CompileInterp(prog, keep=keep, depth=5, max_states=60000,
                        hook=hook, opaque=opaque, exc=exc,
                        exc_calls=(lambda t: callee_name(t) in calls)
                        if calls else (lambda t: callee_name(t) not in (
                            'acquire', 'release', 'add', 'discard',
                            'remove', 'ModuleType', 'setattr', 'getattr'))
                        if exc else None)
            states = it.run(f, selfcls=c, args=args, init={'conds': conds})
            out.append(('%s, base %s' % (label, bc), states))
            _memo.setdefault('inlined', set()).update(it.n_inlined)
    _memo['inlined'].add(f.qual)
    _memo[key] = (f, names, out)
    return _memo[key]


def is_cache(t):
    return t[0] == 'attr' and t[2] == CACHE


def lookups(s):
    """Keys the cache is asked for on a path, with the answer."""
    out = []
    for k, v in s.conds.items():
        if k[0] == 'cmp' and k[1] == 'in' and is_cache(k[3]):
            out.append((k[2], v))
    # cache.get(key) is a lookup too
    for k, v in list(s.conds.items()):
        for x in walk(k):
            if x[0] == 'call' and callee_name(x) == 'get' and \
                    x[1][0] == 'attr' and is_cache(x[1][1]):
                hit = v if k == x else (
                    not v if k[0] == 'cmp' and k[1] == 'is' else None)
                if hit is not None:
                    out.append((x[2][0], hit))
    return out


def hit_terms(s):
    """Terms standing for the cached item on this path."""
    ks = [k for k, v in lookups(s) if v]
    out = set()
    for t in list(walk(s.val or ())):
        if t[0] == 'idx' and is_cache(t[1]):
            out.add(t)
        if t[0] == 'call' and callee_name(t) == 'get' and \
                t[1][0] == 'attr' and is_cache(t[1][1]):
            out.add(t)
    return out


def ambiguous(k, s):
    """A key made by running parts of variable length together."""
    for t in walk(k):
        if t[0] == 'cat':
            prev = False
            for p in t[1]:
                var = not is_const(p)
                if var and prev:
                    return t
                prev = var or (is_const(p) and p[2] == '' and prev)
        if t[0] == 'joined' and t[1] == K(''):
            return t
    return None


def expand(t, s, depth=0):
    """t together with the contents of lists/tuples it refers to."""
    out = list(walk(t))
    if depth < 4:
        for x in list(out):
            if x[0] == 'obj':
                for (b, *rest), v in s.heap.items():
                    if b == x and isinstance(v, tuple):
                        out += expand(v, s, depth + 1)
    return out


def c04(ctx):
    ctx.rule('key-covers',
             'everything that decides what class is made is part of the key '
             'it is cached under', 20)
    ctx.rule('key-unambiguous',
             'different inputs cannot run together into the same key', 3)
    ctx.rule('hit-is-stored-result',
             'what a cache hit returns is exactly what was returned when the '
             'entry was stored', 3)
    ctx.rule('same-key', 'an entry is stored under the key it is looked up '
             'with', 3)
    ctx.rule('only-when-asked',
             'results are looked up and stored only when asked to', 6)
    ctx.rule('mtime', 'with modification time checking on, the time is part '
             'of the key', 1)
    ctx.rule('hash-dict', 'the digest of a settings dictionary covers every '
             'name and value, independent of order', 3)
    f, names, runs = compile_runs(ctx)
    for q in _memo['inlined']:
        ctx.unit('functions analysed', q)
    path = f.module.path
    stored_attrs = None
    for label, states in runs:
        ctx.unit('scenarios', '%s (%d paths)' % (label, len(states)))
        # what the class depends on
        need, given = set(), set()
        for s in states:
            for e in s.events:
                if e.kind == 'call' and (
                        e.term[1] == ('var', 'compilerClass') or e.name in (
                            'setattr', 'exec', 'compilerClass')):
                    for a in [e.term[1]] + list(e.args) + [
                            v for k, v in e.term[3]]:
                        given.add(a)
                        for x in walk(a):
                            if x[0] == 'var' and x[1] in names:
                                need.add(x[1])
                elif e.kind == 'setattr' and e.x is not None:
                    tgt = show(e.term)
                    if '_CHEETAH_' in tgt or 'cacheItem' in tgt:
                        continue
                    given.add(e.x)
                    for x in walk(e.x):
                        if x[0] == 'var' and x[1] in names:
                            need.add(x[1])
        need -= set(NOT_INPUT)
        if not need:
            raise AnalysisBroken('no inputs of the compiler found')
        seen = set()
        hits = []
        for s in states:
            for k, v in lookups(s):
                check_key(ctx, label, s, k, need, path, seen, given)
                if v:
                    hits.append((s, k))
                    ctx.ob('only-when-asked', 'lookup (%s)' % label, path,
                           s.conds.get(('var', 'useCache')) is True,
                           'the cache is consulted although useCache is off')
            for e in s.events:
                if e.kind == 'setidx' and is_cache(e.term[1]):
                    key = e.term[2]
                    check_key(ctx, label, s, key, need, path, seen,
                              given)
                    ctx.ob('only-when-asked', 'store (%s)' % label, e.loc,
                           s.conds.get(('var', 'cacheCompilationResults'))
                           is True or truthy_at(
                               e, ('var', 'cacheCompilationResults')),
                           'a result is cached although caching is off')
                    looked = [k for k, v in lookups(s)]
                    ctx.ob('same-key', 'store (%s)' % label, e.loc,
                           not looked or key in looked,
                           'stored under %s, looked up as %s' % (
                               show(key)[:200], [show(k)[:200]
                                                 for k in looked]))
                    # what the entry says about the class
                    item = e.x
                    attrs = {k2[1]: v for k2, v in s.heap.items()
                             if k2[0] == item and len(k2) == 2}
                    for ev in s.events:
                        if ev.kind == 'setattr' and ev.term[1] == item:
                            attrs[ev.term[2]] = ev.x
                    if s.status == 'return':
                        stored_attrs = attrs
                        good = {a for a, v in attrs.items()
                                if v == s.val}
                        _memo.setdefault('good', []).append(good)
                        ctx.ob('hit-is-stored-result',
                               'stored entry (%s)' % label, e.loc,
                               bool(good), 'the entry does not hold the '
                               'returned value %s' % show(s.val))
        good = None
        for g in _memo.get('good', []):
            good = g if good is None else good & g
        for s, k in hits:
            if s.status != 'return':
                continue
            v = s.val
            ok = v is not None and v[0] == 'attr' and v[2] in (
                good or ()) and v[1] in hit_terms(s)
            # a path on which the hit is not used compiles afresh
            fresh = not hit_terms(s) and any(
                e.kind == 'call' and e.term[1] == ('var', 'compilerClass')
                for e in s.events)
            ctx.ob('hit-is-stored-result', 'hit (%s)' % label, path,
                   ok or fresh, 'a hit returns %s' % (
                       show(v)[:300] if v else None))
            if ok:
                key = v[1][2] if v[1][0] == 'idx' else v[1][2][0]
                ctx.ob('same-key', 'hit (%s)' % label, path, key == k,
                       'the entry returned is not the one looked up')
        # values that cannot be hashed
        _, _, runs2 = compile_runs(ctx, True, ('hashDict', 'hashList',
                                               'hash'))
        for s in dict(runs2)[label]:
            for k, v in lookups(s):
                check_key(ctx, label + ', not hashable', s, k, need, path,
                          seen, given)
    mtime(ctx, runs, path)
    hash_dict(ctx)


def truthy_at(e, t):
    return e.conds.get(t) is True


DISTINCT = {'hash', 'hashDict', 'hashList', 'tuple', 'frozenset', 'sorted',
            'repr', 'list', 'id', 'items'}


def whole(k, s):
    """The sub-terms of a key two values of which give different keys"""
    out, todo = set(), [k]
    while todo:
        t = todo.pop()
        if t in out:
            continue
        out.add(t)
        if t[0] == 'tup':
            todo.extend(t[1])
        elif t[0] == 'obj':
            for i in s.heap.get((t, 'items')) or ():
                todo.extend(i if t[1] == 'dict' and len(i) == 2 else (i,))
        elif t[0] == 'call' and callee_name(t) in DISTINCT:
            # sorted(d) has only the keys of a dictionary
            todo.extend(x for x in t[2] if x[0] != 'var' or callee_name(
                t) in ('hash', 'hashDict', 'hashList', 'repr', 'id'))
            if t[1][0] == 'attr':
                todo.append(t[1][1])
        elif t[0] in ('cat', 'lcat', 'joined', 'or', 'and'):
            for x in t[1:]:
                if isinstance(x, tuple):
                    todo.extend([x] if x and isinstance(x[0], str) else [
                        y for y in x if isinstance(y, tuple)])
    return out


def uncovered(t, have, need, s):
    if t in have or not isinstance(t, tuple) or s.conds.get(t) is False:
        return set()
    if t[:1] == ('var',):
        return {t[1]} & need
    out = set()
    for x in t:
        if isinstance(x, tuple):
            out |= uncovered(x, have, need, s)
    return out


def check_key(ctx, label, s, k, need, path, seen, given):
    terms = expand(k, s)
    have = {x[1] for x in terms if x[0] == 'var'}
    falsy = {n for n in need if s.conds.get(('var', n)) is False}
    sig = (label, k, tuple(sorted(falsy)))
    if sig in seen:
        return
    seen.add(sig)
    if is_const(k) or k == NONE:
        return
    w = whole(k, s)
    part = set()
    for g in given:
        part |= uncovered(g, w, need, s)
    for n in sorted(need):
        ctx.ob('key-covers', '%s (%s)' % (n, label), path,
               n in falsy or n in have and n not in part,
               'the class depends on %s, which is not part of the key or only '
               'in part: %s' % (
                   n, show(k)[:300]))
    am = None
    for x in terms:
        am = am or (ambiguous(x, s) if x[0] in ('cat', 'joined') else None)
    ctx.ob('key-unambiguous', label, path, am is None,
           'parts of variable length run together: %s' % (
               show(am)[:300] if am else ''))


def mtime(ctx, runs, path):
    n = 0
    for label, states in runs:
        if not label.startswith('file'):
            continue
        for s in states:
            on = [v for k, v in s.conds.items()
                  if '__checkFileMtime' in show(k)]
            if not on or not on[0]:
                continue
            for k, v in lookups(s):
                n += 1
                ctx.ob('mtime', label, path, any(
                    x[0] == 'call' and callee_name(x) in ('getmtime', 'stat')
                    or x[0] == 'attr' and x[2] in ('st_mtime', 'st_mtime_ns')
                    for x in whole(k, s)),
                    'the modification time is not part of the key')
    if not n:
        ctx.ob('mtime', 'file', path, False,
               'modification times are never part of a key')


DIGEST = {'hash', 'hashDict', 'hashList', 'tuple', 'frozenset', 'sorted',
          'str', 'repr', 'items', 'list', 'set', 'isinstance', 'get',
          'keys', 'values', 'join', 'callable', 'hasattr', 'type'}


def hash_dict(ctx):
    """The digest of {k1: v1, k2: v2} (any keys and values) mentions all four
    on every path, through nothing but digests of them."""
    prog = ctx.prog
    part = [('var', '@' + x) for x in ('k1', 'v1', 'k2', 'v2')]

    def hook(it, fn, args, kw, st, n):
        nm = fn[-1] if isinstance(fn[-1], str) else ''
        if nm in ('sorted', 'frozenset', 'list', 'tuple') and args and \
                fn[0] == 'bi':
            k = it.known_items(args[0], st)
            if k is not None:
                if nm != 'tuple' and nm != 'list':
                    it.emit(st, 'call', ('call', fn, tuple(args), ()), n)
                return [(st, ('tup', tuple(k)))]
        return None
    f = prog.func('Template', 'hashDict')
    if f is None:
        raise AnalysisBroken('hashDict missing')
    g = prog.func('Template', 'hashList')
    for fn, kind in ((f, 'dict'), (g, 'list')):
        if fn is None:
            continue
        o = ('obj', kind, 'input')
        items = ((part[0], part[1]), (part[2], part[3])) \
            if kind == 'dict' else (part[1], part[3])
        need = part if kind == 'dict' else [part[1], part[3]]
        it = Interp(prog, keep=lambda e: e.kind == 'call', loop_max=3,
                    depth=3, opaque={'hashList', 'hashDict'}, hook=hook)
        n = 0
        for s in it.run(fn, args={fn.node.args.args[0].arg: o},
                        init={'heap': {(o, 'items'): items}}):
            if s.status != 'return':
                continue
            n += 1
            if kind == 'dict':
                srt = any(e.kind == 'call' and e.name in (
                    'sort', 'sorted', 'frozenset') for e in s.events) or \
                    any(x[0] == 'call' and callee_name(x) in (
                        'sorted', 'frozenset') for x in expand(s.val, s))
                ctx.ob('hash-dict', 'order independent', fn.module.path, srt,
                       'the digest depends on the order of the dictionary: %s'
                       % show(s.val))
            terms = expand(s.val, s)
            lost = [show(x) for x in need if x not in terms]
            ctx.ob('hash-dict', '%s: every name and value' % fn.qual,
                   fn.module.path, not lost,
                   'the digest leaves out %s when %s: %s' % (
                       ', '.join(lost), ' and '.join(
                           '%s%s' % ('' if v else 'not ', show(k))
                           for k, v in s.conds.items())[:200],
                       show(s.val)[:200]))
            weak = [show(x) for x in terms if x[0] == 'call' and
                    any(y in part for y in walk(x)) and
                    callee_name(x) not in DIGEST] + \
                   [show(x) for x in terms if x[0] in ('cmp', 'not', 'bool')
                    and any(y in part for y in walk(x))]
            ctx.ob('hash-dict', '%s: whole values' % fn.qual,
                   fn.module.path, not weak,
                   'only %s of a value goes into the digest' % weak[:2])
            lossy = [show(x)[:60] for x in terms if x[0] == 'call' and
                     callee_name(x) in ('hash', 'str') and x[1][0] == 'bi'
                     and any(y in part for y in walk(x))]
            ctx.ob('hash-dict', '%s: no hash of a value' % fn.qual,
                   fn.module.path, not lossy, 'different values can have '
                   'the same %s, as -1 and -2 do' % lossy[:1])
            typed = [y for x in terms if x[0] == 'call' and callee_name(
                x) in ('type', 'repr') and x[2] for y in walk(x[2][0])] + \
                [x[1] for x in terms if x[0] == 'attr' and
                 x[2] == '__class__']
            free = [show(v) for v in (part[1], part[3]) if v not in typed]
            ctx.ob('hash-dict', '%s: values of other types' % fn.qual,
                   fn.module.path, not free, 'the type of %s is not part '
                   'of the digest: 1 and True are equal' % free[:1])
        if not n:
            raise AnalysisBroken('no path through ' + fn.qual)


# ---------------------------------------------------------------- C05

FOREIGN = {'exec', 'eval', 'compile', '__import__', 'import_module', 'open',
           'getModuleCode', 'sleep'}


def lockname(t):
    return t[0] == 'attr' and 'ock' in t[2]


def c05(ctx):
    ctx.rule('lock-released',
             'the compile lock is released exactly once on every way out, '
             'including errors', 6)
    ctx.rule('name-under-lock',
             'a module name is chosen and claimed in one step under the '
             'lock', 3)
    ctx.rule('unclaimed-name',
             'the chosen name is one that no loaded module and no compilation '
             'in progress has', 1)
    ctx.rule('no-foreign-code-under-lock',
             'no template code, import or file access runs while the lock is '
             'held', 3)
    ctx.rule('claim-released',
             'a claim on a name ends on every way out', 3)
    ctx.rule('registered',
             'a finished module is registered under the name chosen for it',
             3)
    ctx.rule('shared-lock', 'all compilations share one lock', 1)
    f, names, runs = compile_runs(ctx, exc='all')
    for q in _memo['inlined']:
        ctx.unit('functions analysed', q)
    path = f.module.path
    claims = set()
    for label, states in runs:
        ctx.unit('scenarios', '%s (%d paths)' % (label, len(states)))
        for s in states:
            held = 0
            chosen = None
            claimed = False
            bad = None
            claims_open = []
            n_acq = 0
            registered = False
            early = ran_early = False
            for e in s.events:
                if (e.kind == 'call' and e.name == 'acquire' and e.recv and
                        lockname(e.recv)) or (
                        e.kind == 'enter' and lockname(e.term)):
                    held += 1
                    n_acq += 1
                    if held > 1:
                        bad = 'the lock is taken twice'
                    chosen = None
                    claimed = False
                elif (e.kind == 'call' and e.name == 'release' and e.recv
                      and lockname(e.recv)) or (
                        e.kind == 'exit' and lockname(e.term)):
                    held -= 1
                    if held < 0:
                        bad = 'the lock is released without being held'
                    if chosen is not None and s.status == 'return':
                        ctx.ob('name-under-lock', 'claimed (%s)' % label,
                               e.loc, claimed,
                               'the lock is released before the name is '
                               'claimed')
                elif e.kind == 'call' and e.name == '_genUniqueModuleName':
                    chosen = e.term
                    ctx.ob('name-under-lock', 'chosen (%s)' % label, e.loc,
                           held == 1, 'a module name is chosen without the '
                           'lock')
                elif e.kind == 'setidx' and show(e.term[1]) == 'sys.modules':
                    ctx.ob('registered', label, e.loc,
                           chosen_in(e.term[2]),
                           'registered as %s' % show(e.term[2]))
                    registered = early = True
                    if held:
                        claimed = True
                        claims.add('sys.modules')
                    ctx.ob('registered', 'name still claimed (%s)' % label,
                           e.loc, bool(held or claims_open),
                           'the module is registered when its name is no '
                           'longer claimed: another compilation can have '
                           'chosen the same name')
                elif e.kind == 'delidx' and show(e.term[1]) == \
                        'sys.modules' or e.kind == 'call' and \
                        e.name == 'pop' and e.recv and \
                        show(e.recv) == 'sys.modules':
                    early = False
                elif e.kind == 'call' and e.name == 'exec':
                    ran_early = early
                elif e.kind == 'call' and e.name == 'open' and e.args:
                    ctx.ob('registered', 'module file (%s)' % label, e.loc,
                           chosen_in(e.args[0]), 'the code is written to '
                           '%s, where other compilations write too'
                           % show(e.args[0]))
                elif e.kind == 'call' and e.name == 'add' and e.args and \
                        chosen_in(e.args[0]):
                    if held:
                        claimed = True
                    claims.add(show(e.recv))
                    claims_open.append((show(e.recv), e.args[0]))
                elif e.kind == 'call' and e.name in ('discard', 'remove') \
                        and e.args and (show(e.recv), e.args[0]) in \
                        claims_open:
                    claims_open.remove((show(e.recv), e.args[0]))
                if held and e.kind == 'call':
                    ctx.ob('no-foreign-code-under-lock', e.name or
                           show(e.term[1])[:40], e.loc,
                           e.name not in FOREIGN and
                           e.term[1] != ('var', 'compilerClass'),
                           '%s is called while the compile lock is held: a '
                           'template that compiles another one while it is '
                           'loaded deadlocks' % show(e.term)[:120])
            if n_acq:
                how = 'return' if s.status == 'return' else 'error'
                ctx.ob('lock-released', '%s (%s)' % (how, label), path,
                       held == 0 and bad is None,
                       bad or 'the lock is still held after an exit by %s'
                       % how)
                ctx.ob('claim-released', '%s (%s)' % (how, label), path,
                       not claims_open, 'a claim on a module name is not '
                       'ended after an exit by %s' % how)
            if s.status == 'raise' and ran_early:
                ctx.ob('claim-released', 'registered (%s)' % label, path,
                       not early, 'the module stays registered although '
                       'running it failed')
            built = s.status == 'return' and any(
                e.kind == 'call' and e.name == '_genUniqueModuleName'
                for e in s.events)
            if built:
                ctx.ob('registered', 'every class returned (%s)' % label,
                       path, registered, 'the module of a returned class is '
                       'not registered')
    unique(ctx, claims)
    shared = ctx.prog.find_attr(ctx.prog.cls('Template', 'Template'),
                                '_CHEETAH_compileLock')
    rebinds = []
    for fn in ctx.prog.all_funcs():
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and n.attr == '_CHEETAH_compileLock':
                rebinds.append('%s:%d' % (fn.module.path, n.lineno))
    ctx.ob('shared-lock', '_CHEETAH_compileLock', path,
           shared[1] is not None and isinstance(shared[1], ast.Call)
           and not rebinds,
           'the lock is not one object shared by all templates %s' % rebinds)


def chosen_in(t):
    return any(x[0] == 'call' and callee_name(x) == '_genUniqueModuleName'
               for x in walk(t))


def unique(ctx, claims):
    prog = ctx.prog
    f = prog.func('Template', '_genUniqueModuleName')
    if f is None:
        raise AnalysisBroken('_genUniqueModuleName missing')
    it = Interp(prog, keep=lambda e: e.kind == 'call', loop_max=2, depth=3,
                opaque={'randrange', 'time'})
    n = 0
    for s in it.run(f):
        if s.status != 'return':
            continue
        n += 1
        absent = {show(k[3]) for k, v in s.conds.items()
                  if k[0] == 'cmp' and k[1] == 'in' and v is False
                  and k[2] == s.val}
        want = {'sys.modules'} | claims
        ctx.ob('unclaimed-name', 'returned name', f.module.path,
               want <= absent,
               'the name %s is returned without being looked for in %s' % (
                   show(s.val), sorted(want - absent)))
    if not n:
        raise AnalysisBroken('no path through _genUniqueModuleName')


CHECKS = {
    'C04': (c04, 'compile cache'),
    'C05': (c05, 'module names and the compile lock'),
}
