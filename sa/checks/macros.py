"""C29: macros and directives of the caller.

eatMacroCall, eatDefMacro and _initDirectives (with everything they call) are
interpreted for every way a macro can be given (function, method, object;
with or without its own argument readers), called (one line, block) and for
what arguments it takes.  Reading the source is a sequence of abstract points,
so that what reaches the macro, what is parsed in its place and where parsing
goes on are known exactly."""
import itertools

from ..absint import K, NONE, is_const, callee_name, show, walk
from ..model import AnalysisBroken
from ..parse import ParserModel

POS = (('$',), 'pos')
LOG = (('$',), 'log')
MACRO = ('var', '@macro')
ARGS, BODY, LINE, EOL, OUT = (('var', '@' + x) for x in (
    'args', 'body', 'line', 'eol', 'output'))
SRC, BREAK = ('var', '@source'), ('var', '@break')
START, NAME, GOTARGS, END = 3, 10, 20, 40
SETTINGS = ('var', '@settings')
ACCEPTS = ('parser', 'macros', 'compilerSettings', 'isShortForm',
           'EOLCharsInShortForm', 'startPos', 'endPos')


def at(st):
    return st.heap[POS][2]


def log(st, *what):
    st.heap[LOG] = st.heap.get(LOG, ()) + (what,)


def items_of(t, st):
    if t[0] == 'obj' and t[1] == 'dict':
        return st.heap.get((t, 'items'))
    return None


def reading(pm, short, name='m1', gives=None):
    me = pm.self_t
    bp, src = (me, '_breakPoint'), (me, '_src')

    def hook(it, fn, args, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        k = dict(kw or ())
        own = fn[0] == 'bound' or fn[0] == 'attr' and fn[1] == me
        if not own:
            return None
        if nm == 'pos':
            return [(st, K(at(st)))]
        if nm == 'setPos' and args:
            st.heap[POS] = args[0]
            return [(st, NONE)]
        if nm == 'breakPoint':
            return [(st, st.heap.get(bp, BREAK))]
        if nm == 'setBreakPoint' and args:
            st.heap[bp] = args[0]
            return [(st, NONE)]
        if nm == 'getIdentifier':
            st.heap[POS] = K(NAME)
            return [(st, K(name))]
        if nm in ('getDirectiveStartToken', 'advance', 'getWhiteSpace',
                  'getCheetahVarStartToken', 'getc'):
            st.heap[POS] = K(at(st) + (1 if at(st) not in (
                START + 5, NAME + 5, GOTARGS + 5, END) else 0))
            return [(st, K(' '))]
        if nm == 'getExpression':
            st.heap[POS] = K(GOTARGS)
            t = k.get('pyTokensToBreakAt')
            log(st, 'args', k.get('useNameMapper'), t and tuple(
                it.known_items(t, st) or ()))
            return [(st, ARGS)]
        if nm == 'getDefArgList':
            st.heap[POS] = K(GOTARGS)
            log(st, 'args', k.get('useNameMapper'), None)
            o = ('obj', 'list', '@arglist')
            st.heap[(o, 'items')] = tuple(
                ('tup', (K(a), K(b))) for a, b in gives)
            return [(st, o)]
        if nm == '_applyExpressionFilters' and args:
            return [(st, args[0])]
        if nm == 'matchColonForSingleLineShortFormDirective':
            return [(st, K(short))]
        if nm == 'peek':
            return [(st, K('(' if gives is not None and at(st) < GOTARGS
                           else 'x'))]
        if nm == 'matchCheetahVarStart':
            return [(st, NONE)]
        if nm == 'readToEOL':
            g = args[0] if args else k.get('gobble', K(True))
            if not is_const(g):
                return None
            if g[2]:
                was, st.heap[POS] = at(st), K(END)
                return [(st, EOL if was == END - 1 else
                         ('var', '@line and its end'))]
            st.heap[POS] = K(END - 1)
            return [(st, LINE)]
        if nm == '_eatRestOfDirectiveTag':
            log(st, 'tag')
            return [(st, NONE)]
        if nm == '_eatToThisEndDirective':
            st.heap[POS] = K(END)
            log(st, 'body', args[0] if args else k.get('directiveName'))
            return [(st, BODY)]
        if nm == 'parse':
            log(st, 'parse', st.heap.get(src), st.heap.get(POS),
                st.heap.get(bp, BREAK), k.get('assertEmptyStack', K(True)))
            st.heap[POS] = K(77)
            return [(st, NONE)]
        if nm == 'settings':
            return [(st, SETTINGS)]
        if nm in ('isLineClearToStartToken',):
            return [(st, K(True))]
        if nm == 'findEOL':
            return [(st, K(END - 1))]
        return None
    return hook


KINDS = {
    'a function': (False, False),
    'a method': (True, True),
    'an object': (False, True),
}


def call(ctx, pm):
    f = pm.prog.find_method(pm.hi, 'eatMacroCall')
    if f is None:
        raise AnalysisBroken('eatMacroCall missing')
    loc = f.loc()
    me = pm.self_t
    table = ('obj', 'dict', '@macros')
    jobs = []
    for kind, short, take in itertools.product(
            KINDS, (False, True),
            [(), ACCEPTS] + [(a,) for a in ACCEPTS]):
        jobs.append((kind, short, take, ()))
    for has in (('parseArgs',), ('convertArgStrToDict',),
                ('parseArgs', 'convertArgStrToDict')):
        for short in (False, True):
            jobs.append(('an object', short, ACCEPTS, has))
    jobs.append(('an object', False, ACCEPTS, ('parse',)))
    for kind, short, take, has in jobs:
        base = reading(pm, short)

        def hook(it, fn, args, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            if fn == MACRO:
                got = []
                for k, v in kw:
                    if k == '**':
                        got += list(items_of(v, st) or (('?', v),))
                    else:
                        got.append((K(k), v))
                log(st, 'macro', tuple(args), tuple(got))
                return [(st, OUT)]
            if fn[0] == 'attr' and fn[1] == MACRO and nm in (
                    'parse', 'parseArgs', 'convertArgStrToDict'):
                log(st, nm, tuple(args), tuple(sorted(kw)))
                if nm == 'convertArgStrToDict':
                    return [(st, made(st))]
                return [(st, ('var', '@own' + nm))]
            if fn == ('bi', 'hasattr') and len(args) == 2:
                a = args[1][2] if is_const(args[1]) else None
                if args[0] == MACRO:
                    return [(st, K(a in has or a == '__call__' or
                                   a == '__func__' and KINDS[kind][0] or
                                   a == '__code__' and kind ==
                                   'a function'))]
                if args[0] == ('attr', MACRO, '__call__'):
                    return [(st, K(a == '__func__' and KINDS[kind][1]))]
            if fn == ('bi', 'isinstance') and args and args[0] == MACRO:
                t = show(args[1])
                if 'MethodType' in t:
                    return [(st, K(KINDS[kind][0]))]
                if 'FunctionType' in t:
                    return [(st, K(kind == 'a function'))]
                return [(st, K(False))]
            if nm in ('ismethod', 'isfunction') and args == (MACRO,):
                return [(st, K(KINDS[kind][0] if nm == 'ismethod' else
                               kind == 'a function'))]
            if nm == 'getargs' and args:
                log(st, 'code', args[0])
                return [(st, ('tup', (('tup', tuple(
                    K(x) for x in ('self', 'src', 'a') + take)),
                    NONE, NONE)))]
            if nm == 'eval':
                log(st, 'eval', args[0])
                return [(st, made(st))]
            return base(it, fn, args, kw, st, n)

        def made(st):
            o = ('obj', 'dict', '@kwargs')
            st.heap[(o, 'items')] = ((K('a'), ('var', '@a')),)
            return o
        it, sts = pm.run(
            'eatMacroCall', inline_compiler=False, hook=hook, exact=True,
            heap={POS: K(START), (me, '_src'): SRC,
                  (me, '_macros'): table,
                  (table, 'items'): ((K('m0'), ('var', '@other')),
                                     (K('m1'), MACRO))},
            keep=lambda e: e.kind == 'call')
        ctx.unit('macro calls', '%s, %s, takes %s, %s (%d paths)' % (
            kind, 'one line' if short else 'block', list(take), list(has),
            len(sts)))
        label = '%s%s, %s, %s' % (
            kind, ' with ' + ' and '.join(has) if has else '',
            'on one line' if short else 'as a block',
            'all' if take == ACCEPTS else take[0] if take else 'no extras')
        if not sts:
            raise AnalysisBroken('no path through eatMacroCall: ' + label)
        for s in sts:
            g = s.heap.get(LOG, ())
            one = {}
            for e in g:
                one.setdefault(e[0], []).append(e[1:])
            if 'parse' in has:
                want = ('parser', me), ('startPos', K(START))
                own = [e for e in g if e[0] == 'parse' and len(e) == 3]
                ctx.ob('own-parser', label, loc, s.status == 'return' and
                       own == [('parse', (), tuple(sorted(want)))] and
                       'macro' not in one,
                       'a macro with its own parser: %s' % (g,))
                continue
            ok = s.status == 'return' and len(one.get('macro', ())) == 1
            ctx.ob('called-once', label, loc, ok, 'the macro is called %d '
                   'times, the directive ends with %s' % (
                       len(one.get('macro', ())), s.status))
            if not ok:
                continue
            want = {'a': ('var', '@a'), 'src': LINE if short else BODY}
            have = {'parser': me, 'macros': table,
                    'compilerSettings': SETTINGS,
                    'isShortForm': K(short), 'startPos': K(START),
                    'endPos': K(END)}
            if short:
                have['EOLCharsInShortForm'] = EOL
            want.update((x, have[x]) for x in take if x in have)
            pos, kws = one['macro'][0]
            got = {x[2] if is_const(x) else x: v for x, v in kws}
            bad = ['%s is %s instead of %s' % (
                x, show(got[x]) if x in got else 'not given',
                show(want[x]) if x in want else 'not given')
                for x in sorted(set(got) | set(want), key=str)
                if got.get(x) != want.get(x)]
            ctx.ob('arguments', label, loc, not bad and not pos,
                   '; '.join(bad) or 'positional arguments')
            if 'convertArgStrToDict' not in has:
                ev = one.get('eval', [])
                a = ('var', '@ownparseArgs') if 'parseArgs' in has else ARGS
                ctx.ob('argument-text', label, loc, len(ev) == 1 and (
                    'locals' in repr(ev[0]) or a in set(walk(ev[0][0]))),
                    'the arguments evaluated are %s' % (
                        [show(x[0]) for x in ev],))
            else:
                cv = one.get('convertArgStrToDict', [])
                a = ('var', '@ownparseArgs') if 'parseArgs' in has else ARGS
                ctx.ob('argument-text', label, loc, len(cv) == 1 and
                       a in set(walk(cv[0][0])),
                       'the arguments converted are %s' % (cv,))
            if not short:
                ctx.ob('body', label, loc, one.get('body') == [(K('m1'),)]
                       and len(one.get('tag', ())) == 1,
                       'the body is read up to the end of %s' % (
                           one.get('body'),))
            ps = one.get('parse', [])
            ctx.ob('result-parsed', label, loc, [
                x[:2] + (show(x[2]),) + x[3:] for x in ps] == [
                    (OUT, K(0), 'len(@output)', K(False))],
                'parsed in place of the macro call: %s' % (
                    [tuple(show(y) if y else None for y in x)
                     for x in ps],))
            left = (s.heap.get((me, '_src')), s.heap.get(POS),
                    s.heap.get((me, '_breakPoint'), BREAK))
            ctx.ob('goes-on', label, loc, left == (SRC, K(END), BREAK),
                   'parsing goes on in %s at %s up to %s' % tuple(
                       show(x) for x in left))


GIVEN = [
    [],
    [('a', None)],
    [('a', None), ('b', '1')],
    [('self', None), ('a', "'x'")],
    [('self', None)],
]
CUSTOM = ('var', '@template class')


def flat(t):
    """The pieces of a text, constants joined."""
    if t[0] in ('fmt', 'join', 'cat', 'str'):
        out = []
        for x in t[1:]:
            for y in (x if x and isinstance(x[0], tuple) else (x,)):
                out += flat(y)
    elif t[0] == 'bin' and t[1] == '+':
        out = flat(t[2]) + flat(t[3])
    else:
        out = [t[2] if is_const(t) else t]
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return r


def define(ctx, pm):
    f = pm.prog.find_method(pm.hi, 'eatDefMacro')
    if f is None:
        raise AnalysisBroken('eatDefMacro missing')
    loc = f.loc()
    me = pm.self_t
    table, dirs = ('obj', 'dict', '@macros'), ('obj', 'dict', '@directives')
    cs, sl = ('obj', 'dict', '@wanted settings'), ('obj', 'list', '@wanted')
    MADE, INST = ('var', '@compiled'), ('var', '@instance')
    for gives, short, given in itertools.product(
            GIVEN, (False, True), (False, True)):
        base = reading(pm, short, gives=gives)

        def hook(it, fn, args, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            k = dict(kw or ())
            if nm == 'setting' and args and is_const(args[0]):
                a = args[0][2]
                v = {'templateAPIClassForDefMacro': CUSTOM,
                     'compilerSettingsForDefMacro': cs,
                     'searchListForDefMacro': sl}.get(a)
                if v is not None and given:
                    return [(st, v)]
                return [(st, k.get('default') or args[1])] if v else None
            if nm == '_updateSettingsWithPreprocessTokens':
                names = ('compilerSettings', 'placeholderToken',
                         'directiveToken')
                a = dict(zip(names, args))
                a.update(k)
                o = a.get('compilerSettings', NONE)
                if items_of(o, st) is not None:
                    st.heap[(o, 'items')] = st.heap[(o, 'items')] + (
                        (K('@tokens'), ('tup', (
                            a.get('placeholderToken', NONE),
                            a.get('directiveToken', NONE)))),)
                log(st, 'tokens', o)
                return [(st, NONE)]
            if nm == 'compile':
                o = k.get('compilerSettings', NONE)
                log(st, 'compile', fn[1] if fn[0] == 'attr' else fn,
                    k.get('source', args[0] if args else NONE), o,
                    items_of(o, st), tuple(sorted(set(k) - {
                        'source', 'compilerSettings'})))
                return [(st, MADE)]
            if fn == MADE:
                o = k.get('searchList', NONE)
                x = it.known_items(o, st) if o != NONE else None
                x = x and tuple(dict(items_of(y, st)) if items_of(y, st)
                                is not None else y for y in x)
                log(st, 'instance', x, tuple(args), o)
                return [(st, INST)]
            return base(it, fn, args, kw, st, n)
        it, sts = pm.run(
            'eatDefMacro', inline_compiler=False, hook=hook, exact=True,
            loop_max=14,
            heap={POS: K(START), (me, '_src'): SRC,
                  (me, '_macros'): table, (table, 'items'): (),
                  (me, '_directiveNamesAndParsers'): dirs,
                  (dirs, 'items'): ((K('if'), ('var', '@if')),),
                  (cs, 'items'): ((K('x'), ('var', '@x')),),
                  (sl, 'items'): (('var', '@s'),)},
            keep=lambda e: e.kind == 'call')
        label = '#defmacro m1(%s), %s, %s' % (
            ', '.join(a for a, b in gives), 'on one line' if short
            else 'as a block', 'settings given' if given else 'defaults')
        ctx.unit('macro definitions', '%s (%d paths)' % (label, len(sts)))
        sts = [s for s in sts]
        if not sts:
            raise AnalysisBroken('no path through eatDefMacro')
        for s in sts:
            one = {}
            for e in s.heap.get(LOG, ()):
                one.setdefault(e[0], []).append(e[1:])
            c = one.get('compile', [])
            ok = s.status == 'return' and len(c) == 1 and \
                len(one.get('instance', ())) == 1
            ctx.ob('defined-once', label, loc, ok,
                   'the body is compiled %d times, the directive ends with '
                   '%s' % (len(c), s.status))
            if not ok:
                continue
            cls, src, o, items, more = c[0]
            names = [('src', None)] + [
                g for g in gives if g[0] != 'self'] + [
                    (x, 'None') for x in ACCEPTS]
            want = ['%def callMacro(' + ','.join(
                '%s=%s' % g if g[1] else g[0] for g in names) + ')\n',
                LINE if short else BODY, '%end def']
            ctx.ob('macro-source', label, loc, flat(src) == want,
                   'the template compiled is %s' % flat(src))
            ctx.ob('macro-class', label, loc, (cls == CUSTOM) == given,
                   'the macro is compiled by %s' % show(cls))
            it_ = {x[2] if is_const(x) else x: v for x, v in items or ()}
            tok = it_.pop('@tokens', None)
            ctx.ob('macro-settings', label, loc,
                   tok == ('tup', (K('@'), K('%'))) and it_ == (
                       {'x': ('var', '@x')} if given else {}) and o != cs,
                   'the macro is compiled with %s and tokens %s' % (
                       {a: show(b) for a, b in it_.items()}, tok))
            sls, pos, o = one['instance'][0]
            last = sls[-1] if sls else None
            last = {x[2]: v for x, v in last.items()} if isinstance(
                last, dict) else last
            ctx.ob('macro-search-list', label, loc, last == {
                'macros': table, 'parser': me, 'compilerSettings': SETTINGS}
                and sls[:-1] == ((('var', '@s'),) if given else ())
                and o != sl,
                'the search list of the macro is %s' % (sls,))
            t = dict(s.heap.get((table, 'items')))
            ctx.ob('macro-registered', label, loc, t == {
                K('m1'): ('attr', INST, 'callMacro')},
                'the macros are %s' % {show(a): show(b)
                                       for a, b in t.items()})
            d = dict(s.heap.get((dirs, 'items')))
            d.pop(K('if'), None)
            ctx.ob('macro-registered', label + ' (directive)', loc,
                   len(d) == 1 and list(d)[0] == K('m1') and
                   'eatMacroCall' in show(list(d.values())[0]),
                   'the directives added are %s' % {
                       show(a): show(b) for a, b in d.items()})
            ctx.ob('goes-on', label, loc, s.heap.get(POS) == K(END),
                   'parsing goes on at %s' % show(s.heap.get(POS)))


FUNC, KLASS = ('fn', '@function', ()), ('cls', '@class')
MAXS = 400
INIT = ('fn', '@instance', ())


def tables(ctx, pm):
    f = pm.prog.find_method(pm.hi, '_initDirectives')
    if f is None:
        raise AnalysisBroken('_initDirectives missing')
    loc = f.loc()
    me = pm.self_t
    mine = {
        'directiveNamesAndParsers': {
            'zap': FUNC, 'zed': KLASS, 'if': K(False), 'for': K(0),
            'zero': NONE, 'set': K('eatIf')},
        'endDirectiveNamesAndHandlers': {
            'zap': FUNC, 'zed': KLASS, 'while': K(False), 'def': K('pos'),
            'if': FUNC},
        'macroDirectives': {'mac': FUNC, 'mag': KLASS},
        'closeableDirectives': ('zap', 'zed'),
    }
    for given in (False, True):
        objs = {}
        heap = {POS: K(START), (me, '_macros'): ('obj', 'dict', '@macros'),
                (('obj', 'dict', '@macros'), 'items'): ()}
        for a, v in mine.items():
            kind = 'dict' if isinstance(v, dict) else 'list'
            o = objs[a] = ('obj', kind, '@given ' + a)
            heap[(o, 'items')] = () if not given else tuple(
                (K(x), y) for x, y in v.items()) if kind == 'dict' \
                else tuple(K(x) for x in v)
        first = {o: heap[(o, 'items')] for o in objs.values()}

        def hook(it, fn, args, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            k = dict(kw or ())
            if nm == 'setting' and args and is_const(args[0]) and \
                    args[0][2] in objs:
                if not given:
                    d = k.get('default', args[1] if len(args) > 1 else None)
                    return [(st, d)] if d else None
                return [(st, objs[args[0][2]])]
            src = fn[1] if nm == 'copy' and fn[0] == 'attr' else \
                args[0] if nm == 'dict' and len(args) == 1 else None
            if src is not None and src[0] != 'obj':
                t = {'directiveNamesAndParsers': pm.table,
                     'endDirectiveNamesAndHandlers': pm.endtable}.get(
                         show(src).split('.')[-1])
                if t is not None:
                    o = ('obj', 'dict', '@copy %d' % len(st.heap))
                    st.heap[(o, 'items')] = tuple(
                        (K(x), K(y)) for x, y in t.items())
                    return [(st, o)]
            if fn == KLASS:
                return [(st, INIT)]
            if fn == ('bi', 'isinstance') and len(args) == 2:
                t = show(args[1])
                x = args[0]
                if x in (FUNC, KLASS) or is_const(x):
                    if 'type' in t:
                        return [(st, K(x == KLASS))]
                    if 'str' in t or 'unicode' in t:
                        return [(st, K(is_const(x) and
                                       isinstance(x[2], str)))]
                elif 'type' in t and 'I18n' in show(x):
                    return [(st, K(True))]
            if fn == ('bi', 'callable') and args:
                return [(st, K(args[0] in (FUNC, KLASS)))]
            if 'I18n' in show(fn):
                return [(st, ('fn', '@i18n', ()))]
            if nm == 'getattr' and len(args) == 2 and args[0] == me and \
                    is_const(args[1]):
                return [(st, ('@own', args[1][2]))]
            return None
        it, sts = pm.run('_initDirectives', inline_compiler=False, hook=hook,
                         exact=True, loop_max=80, max_states=MAXS, heap=heap,
                         keep=lambda e: e.kind == 'call')
        label = 'settings given' if given else 'defaults'
        ctx.unit('tables', '%s (%d paths)' % (label, len(sts)))
        if not sts:
            raise AnalysisBroken('no path through _initDirectives')
        for s in sts:
            def tab(attr):
                o = s.heap.get((me, attr))
                x = o and s.heap.get((o, 'items'))
                if x is None:
                    return None
                if o[1] == 'dict':
                    return {a[2] if is_const(a) else a: b for a, b in x}
                return [a[2] if is_const(a) else a for a in x]

            def want(builtin, setting, macros=()):
                m = {a: K(b) for a, b in builtin.items()}
                if given:
                    m.update(mine[setting])
                out = {}
                for a, v in m.items():
                    if is_const(v) and v[2] in (False, 0) and \
                            v[2] is not None:
                        continue
                    out[a] = INIT if v == KLASS else \
                        ('@own', v[2]) if is_const(v) and v[2] else v
                for a in macros:
                    out[a] = 'eatMacroCall'
                return out

            mac = ['i18n'] + (['mac', 'mag'] if given else [])
            for attr, w in (
                    ('_directiveNamesAndParsers', want(
                        pm.table, 'directiveNamesAndParsers', mac)),
                    ('_endDirectiveNamesAndHandlers', want(
                        pm.endtable, 'endDirectiveNamesAndHandlers')),
                    ('_macros', dict(
                        {'i18n': ('fn', '@i18n', ())},
                        **({'mac': FUNC, 'mag': INIT} if given else {})))):
                t = tab(attr) or {}
                for a in sorted(set(w) | set(t), key=str):
                    x, y = t.get(a), w.get(a)
                    if y == 'eatMacroCall':
                        ok = x is not None and y in show(x)
                    else:
                        ok = x == y
                    ctx.ob('tables', '%s[%s], %s' % (attr, a, label), loc,
                           s.status != 'raise' and ok, '%s instead of %s' % (
                               'not there' if x is None else show(x),
                               'nothing' if y is None else y))
            cl = tab('_closeableDirectives') or []
            need = set(pm.closeable) | (
                set(mine['closeableDirectives']) if given else set())
            ctx.ob('tables', 'directives that can be closed, ' + label, loc,
                   need == set(cl), 'they are %s' % cl)
            for o, v in first.items():
                ctx.ob('tables', 'unchanged: %s, %s' % (o[2], label), loc,
                       s.heap.get((o, 'items')) == v, 'it becomes %s' % (
                           s.heap.get((o, 'items')),))


def c29(ctx):
    ctx.rule('called-once', 'a macro call calls its macro exactly once')
    ctx.rule('own-parser', 'a macro with a parse method reads its call itself')
    ctx.rule('arguments', 'the macro gets the text of its body, the keyword '
             'arguments written, and of the others exactly those it takes')
    ctx.rule('argument-text', 'the arguments are those of the call')
    ctx.rule('body', 'a block goes up to the #end of this macro')
    ctx.rule('result-parsed', 'what the macro returns is parsed, whole and '
             'once, within the blocks that are open')
    ctx.rule('goes-on', 'parsing goes on after the call, in the same source')
    pm = ParserModel(ctx.prog)
    call(ctx, pm)
    ctx.rule('defined-once', 'a #defmacro makes one macro')
    ctx.rule('macro-source', 'the macro is the text of its body, as a method '
             'with its arguments')
    ctx.rule('macro-class', 'it is compiled by the class asked for')
    ctx.rule('macro-settings', 'it is compiled with the settings asked for, '
             'which are not changed')
    ctx.rule('macro-search-list', 'it sees the search list asked for, the '
             'macros, the parser and the settings')
    ctx.rule('macro-registered', 'it can be called by its name')
    define(ctx, pm)
    ctx.rule('tables', 'directives, end directives and macros given as '
             'settings add to, replace or (False) remove the built-in ones')
    tables(ctx, pm)


CHECKS = {'C29': (c29, 'macros and custom directives')}
