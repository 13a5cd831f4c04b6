"""C09, C12-C15, C17: what the parser does with every directive."""
import ast
import itertools

from ..absint import K, NONE, show, callee_name, is_const, walk
from ..emit import Emitter
from ..parse import ParserModel
from ..model import AnalysisBroken

OPAQUE = {'pushToOpenDirectivesStack', 'popFromOpenDirectivesStack',
          '_applyExpressionFilters', '_filterDisabledDirectives',
          '_eatRestOfDirectiveTag'}
NAMES = OPAQUE | {
    'indent', 'dedent', 'commitStrConst', 'addStrConst', 'addRawText',
    'addChunk', 'appendToPrevChunk', 'append', 'pop', 'insert', 'extend',
    '_swallowMethodCompiler', '_spawnMethodCompiler', 'setSetting', 'parse',
    'setPos', 'setBreakPoint'}
_cache = {}


def model(ctx):
    if 'pm' not in _cache:
        _cache['pm'] = ParserModel(ctx.prog)
    return _cache['pm']


def ALL_KEEP(e):
    return e.kind in ('call', 'raise', 'setattr', 'delidx', 'delattr')


def MACRO_KEEP(e):
    if e.kind == 'call':
        return e.name in NAMES or e.name in EXPR_READERS or e.name in (
            'eval', 'compile')
    return ALL_KEEP(e)


def runs(ctx):
    """[(label, directive or None, states)] for every directive and every
    other construct the parse loop dispatches to."""
    if 'runs' not in _cache:
        pm = model(ctx)
        out = []
        jobs = [('#' + d, 'eatDirective', d) for d in pm.table]
        for lab, m in (('comment', 'eatComment'),
                       ('multi-line comment', 'eatMultiLineComment'),
                       ('PSP', 'eatPSP'), ('EOL slurp', 'eatEOLSlurpToken'),
                       ('plain text', 'eatPlainText'),
                       ('macro call', 'eatMacroCall'),
                       ('rest of directive tag', '_eatRestOfDirectiveTag')):
            if ctx.prog.find_method(pm.hi, m) is None:
                raise AnalysisBroken('parser method %s missing' % m)
            jobs.append((lab, m, None))
        for lab, m, d in jobs:
            op = OPAQUE - ({m} if m in OPAQUE else set())
            it, states = pm.run(m, d, opaque=op, max_states=40000,
                                keep=MACRO_KEEP if m == 'eatMacroCall'
                                else ALL_KEEP)
            out.append((lab, d, states))
            for q in it.n_inlined:
                _cache.setdefault('inlined', set()).add(q)
        _cache['runs'] = out
    for q in _cache.get('inlined', ()):
        ctx.unit('functions analysed', q)
    for lab, d, states in _cache['runs']:
        ctx.unit('constructs', '%s (%d paths)' % (lab, len(states)))
    return _cache['runs']


def stack_attr(t):
    """Name of the stack attribute a list method is called on."""
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][1][0] == 'attr' and (
            'Stack' in t[1][1][2] or t[1][1][2] == '_activeMethodsList'):
        return t[1][1][2]
    return None


# ---------------------------------------------------------------- C09

def no_text(s):
    """The path on which the text `a` is empty."""
    return any(v is False and k[0] in ('var', 'cat', 'joined', 'obj')
               and any(x == ('var', 'a') for x in walk(k))
               for k, v in s.conds.items())


def c09(ctx):
    ctx.rule('flush-before-block',
             'no path opens or closes a block of generated code while text '
             'of the template is still pending', 100)
    ctx.rule('chunk-flushes',
             'emitting code first writes the pending text', 2)
    ctx.rule('method-end-flushes',
             'a finished method writes its pending text before it is laid '
             'out', 2)
    for lab, d, states in runs(ctx):
        for s in states:
            if s.status == 'raise':
                continue
            pend = [True]
            for e in s.events:
                if e.kind != 'call':
                    continue
                nm = e.name
                if nm in ('addStrConst', 'addRawText'):
                    pend[-1] = True
                elif nm == 'parse':
                    pend[-1] = True
                elif nm in ('addChunk', 'commitStrConst'):
                    pend[-1] = False
                elif nm == 'append' and stack_attr(e.term) == \
                        '_activeMethodsList':
                    pend.append(False)
                elif nm == 'pop' and stack_attr(e.term) == \
                        '_activeMethodsList':
                    if len(pend) > 1:
                        pend.pop()
                    else:
                        pend = [True]
                elif nm in ('indent', 'dedent'):
                    ctx.ob('flush-before-block',
                           '%s: %s' % (lab, nm), e.loc, not pend[-1],
                           'on a path of %s, %s() is reached with text '
                           'still pending' % (lab, nm))
    prog = ctx.prog
    em = Emitter(prog)
    for setup in (True,):
        it, states = em.drive('self.addStrConst(a)\nself.addChunk(b)',
                              ['a', 'b'], opaque={'setting', 'indent',
                                                  'dedent'})
        n = 0
        for s in states:
            if s.status != 'return':
                continue
            def first(v):
                # code that reaches the method body: the call for code, or
                # the entry added to a list
                return [i for i, e in enumerate(s.events)
                        if e.kind in ('call', 'setidx') and (
                            e.name in ('addChunk', 'append', 'insert')
                            or e.kind == 'setidx')
                        and any(y == ('var', v) for t in
                                list(e.args or ()) + [e.x or ()]
                                for y in walk(t))
                        and not any(t == ('var', v) for t in e.args or ())]
            ia, ib = first('a'), first('b')
            ok = bool(ib) and (no_text(s) or (ia and ia[0] < ib[0]))
            ctx.ob('chunk-flushes', 'addChunk', em.meth.module.path, ok,
                   'code written for text a, then code b: %s' % [
                       show(e.term) for e in s.events if e.kind == 'call'])
    for m in ('wrapCode', 'cleanupState'):
        it, states = em.drive('self.addStrConst(a)\nself.%s()' % m, ['a'],
                              opaque={'setting', 'addChunk', 'indent',
                                      'dedent', 'methodSignature',
                                      'docString', '_addAutoSetupCode',
                                      '_addAutoCleanupCode', 'addMethArg'})
        for s in states:
            if s.status != 'return':
                continue
            wrote = any(e.kind == 'call' and e.name == 'addChunk'
                        and any(y == ('var', 'a') for a in e.args
                                for y in walk(a)) for e in s.events)
            has = no_text(s)
            ctx.ob('method-end-flushes', m, em.meth.module.path,
                   wrote or has, 'pending text is lost by %s' % m)


# ---------------------------------------------------------------- C12

def c12(ctx):
    ctx.rule('filter-first',
             'every directive (and PSP) is checked against the disabled and '
             'enabled lists, under its own name, before anything else is '
             'done with it', 45)
    ctx.rule('no-bypass',
             'directive handlers are only reached through that check', 20)
    ctx.rule('filter-decides',
             'the check lets a directive pass only if it is not disabled and '
             '(when a list of enabled directives is given) is enabled', 2)
    ctx.rule('filter-raises',
             'a rejected directive always ends in a ForbiddenDirective '
             'error, whatever the hooks do', 1)
    ctx.rule('case', 'both sides of the comparison are folded the same way',
             1)
    ctx.rule('macro-settings',
             'templates the parser compiles from template text inherit the '
             'restrictions', 1)
    pm = model(ctx)
    harmless = {'matchDirective', 'setting', 'len', 'lower', 'locals'}
    for lab, d, states in runs(ctx):
        if d is None and lab != 'PSP':
            continue
        want = d if d is not None else 'psp'
        for s in states:
            first = None
            for e in s.events:
                if e.kind == 'call' and e.name in harmless:
                    continue
                first = e
                break
            ok = first is not None and first.kind == 'call' and \
                first.name == '_filterDisabledDirectives' and (
                    (first.args and first.args[0] == K(want)) or dict(
                        first.term[3]).get('directiveName') == K(want))
            ctx.ob('filter-first', lab, first.loc if first else
                   pm.mod.path, ok, 'the first action for %s is %s' % (
                       lab, show(first.term) if first else 'nothing'))
    # who calls the handlers
    handlers = {v for v in pm.table.values() if isinstance(v, str)}
    handlers |= {'eatSimpleExprDirective', 'eatSimpleIndentingDirective'}
    allowed = {}
    for f in ctx.prog.all_funcs():
        if f.cls is None or f.module is not pm.mod:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in handlers and \
                    isinstance(n.value, ast.Name) and n.value.id == 'self':
                ok = f.name in dispatchers(ctx, pm) or (
                    n.attr in ('eatMacroCall',))
                ctx.ob('no-bypass', '%s -> %s' % (f.name, n.attr),
                       '%s:%d' % (f.module.path, n.lineno), ok,
                       '%s is reached from %s without the check' % (
                           n.attr, f.name))
    for h in sorted(handlers):
        ctx.ob('no-bypass', 'dispatch of %s' % h, pm.mod.path,
               ctx.prog.find_method(pm.hi, h) is not None,
               'handler %s does not exist' % h)
    filter_semantics(ctx, pm)
    macro_settings(ctx, pm)


def dispatchers(ctx, pm):
    """Methods from which a directive handler may be called: everything
    reached from eatDirective only after the check. These are eatDirective
    itself and its private helpers (called from nowhere else)."""
    if 'disp' in _cache:
        return _cache['disp']
    callers = {}
    for f in ctx.prog.all_funcs():
        if f.module is not pm.mod:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id == 'self':
                callers.setdefault(n.attr, set()).add(f.name)
    disp = {'eatDirective'}
    changed = True
    while changed:
        changed = False
        for m, cs in callers.items():
            if m not in disp and ctx.prog.find_method(pm.hi, m) and \
                    cs and cs <= disp:
                disp.add(m)
                changed = True
    _cache['disp'] = disp
    return disp


def filter_semantics(ctx, pm):
    f = ctx.prog.find_method(pm.hi, '_filterDisabledDirectives')
    if f is None:
        raise AnalysisBroken('_filterDisabledDirectives missing')
    it = pm.interp(keep=lambda e: e.kind in ('call', 'raise'), loop_max=1)
    states = it.run(f, selfcls=pm.hi)
    raised = False

    def folded(t):
        return t[0] == 'call' and callee_name(t) in ('lower', 'casefold',
                                                     'upper')

    def container(t, st):
        """(settings key, folded?) a membership test looks into."""
        if t[0] == 'call' and callee_name(t) == 'setting':
            return t[2][0][2], False
        items = None
        for (b, *rest), v in st.heap.items():
            if b == t and rest and rest[0] == 'items':
                items = v
        src = [x for x in walk(('tup', tuple(items or ()))) if x[0] == 'call'
               and callee_name(x) == 'setting']
        if not src:
            src = [x for x in walk(t) if x[0] == 'call'
                   and callee_name(x) == 'setting']
        if src:
            fold = any(folded(y) for x in (items or ())
                       for y in walk(x)) or any(folded(x) for x in walk(t))
            return src[0][2][0][2], fold
        # built in a loop: look at the appended elements
        keys = [x for e in st.events if e.kind == 'call'
                for x in walk(e.term) if x[0] == 'call'
                and callee_name(x) == 'setting' and x[2]]
        return (keys[0][2][0][2], True) if keys else (None, False)
    for s in states:
        if s.status == 'raise':
            exc = [e for e in s.events if e.kind == 'raise']
            ok = bool(exc) and exc[-1].term is not None and any(
                'Forbidden' in show(x) for x in [exc[-1].term])
            raised = True
            ctx.ob('filter-raises', 'rejected directive', f.module.path, ok,
                   'a rejected directive raises %s' % (
                       show(exc[-1].term) if exc else None))
            continue
        dis = en = None
        for k, v in s.conds.items():
            if k[0] == 'cmp' and k[1] == 'in':
                key, fold = container(k[3], s)
                ctx.ob('case', 'membership in %s' % key, f.module.path,
                       folded(k[2]) == fold,
                       'the directive name is %sfolded to one case but the '
                       'entries of %s are %sfolded' % (
                           '' if folded(k[2]) else 'not ', key,
                           '' if fold else 'not '))
                if key == 'disabledDirectives':
                    dis = v
                elif key == 'enabledDirectives':
                    en = v
            elif v is False:
                key, _ = container(k, s)
                if key == 'enabledDirectives':
                    en = 'none given' if en is None else en
                elif key == 'disabledDirectives':
                    dis = False
        ctx.ob('filter-decides', 'directive that passes: not disabled',
               f.module.path, dis is False,
               'a directive passes although it may be disabled (path '
               'conditions %s)' % {show(k): v for k, v in s.conds.items()})
        ctx.ob('filter-decides', 'directive that passes: enabled',
               f.module.path, en in (True, 'none given'),
               'a directive passes although it may not be enabled (path '
               'conditions %s)' % {show(k): v for k, v in s.conds.items()})
    ctx.ob('filter-raises', 'some directive is rejected', f.module.path,
           raised, 'no path rejects a directive')


def macro_settings(ctx, pm):
    f = ctx.prog.find_method(pm.hi, 'eatDefMacro')
    if f is None:
        raise AnalysisBroken('eatDefMacro missing')
    for lab, d, states in runs(ctx):
        if d != 'defmacro':
            continue
        for s in states:
            for e in s.events:
                if e.kind == 'call' and e.name == 'compile':
                    cs = dict(e.term[3]).get('compilerSettings')
                    txt = [x for x in walk(cs)] if cs else []
                    src = [x for ev in s.events if ev.kind == 'call'
                           for x in walk(ev.term) if x[0] == 'call'
                           and callee_name(x) == 'setting' and x[2]
                           and x[2][0] == K('disabledDirectives')]
                    ctx.ob('macro-settings',
                           'body of #defmacro: disabled directives', e.loc,
                           bool(src),
                           'the macro body is compiled with default '
                           'restrictions, not those of the template')


# ---------------------------------------------------------------- C13

EXPR_READERS = {'getExpression', 'getExpressionParts', 'getCheetahVar',
                'getCheetahVarBody', 'getCheetahVarNameChunks',
                'getCallArgString', 'getDefArgList', 'readToEOL',
                '_eatToThisEndDirective', 'getCommaSeparatedSymbols',
                'readTo'}
# constructs whose text is data, not an expression
DATA = {'#raw': 'literal text', 'comment': 'comment', 'plain text': 'text',
        'multi-line comment': 'comment', 'EOL slurp': 'nothing',
        'rest of directive tag': 'comment'}


def c13(ctx):
    ctx.rule('offered',
             'every expression a directive or placeholder takes from the '
             'template is offered to the expression filter hooks before code '
             'is generated from it', 40)
    ctx.rule('result-used',
             'what the hooks return replaces the expression (for the '
             'constructs documented as veto-only the hooks see the source '
             'text)', 20)
    ctx.rule('hook-told', 'a hook is told the parser, the kind of the '
             'expression, its source and where it starts', 0)
    ctx.rule('all-hooks',
             'every configured hook is called, in order, each seeing the '
             'result of the one before', 1)
    ctx.rule('placeholder-offered',
             'placeholders and PSP blocks are offered to the hooks', 2)
    pm = model(ctx)
    for lab, d, states in runs(ctx):
        if lab in DATA or lab in ('#end', '#breakpoint', '#slurp'):
            continue
        for s in states:
            if s.status == 'raise':
                continue
            hooks_path(ctx, pm, lab, s)
    # the placeholder reader
    f = ctx.prog.find_method(pm.lo, 'getPlaceholder')
    if f is None:
        raise AnalysisBroken('getPlaceholder missing')
    it = pm.interp(opaque={'_applyExpressionFilters', 'genCheetahVar',
                           'addChunk'} , keep=lambda e: e.kind == 'call',
                   inline_low=('getPlaceholder',), inline_compiler=False)
    states = it.run(f, selfcls=pm.hi, init={'heap': pm.init_heap(it)})
    for s in states:
        if s.status != 'return':
            continue
        ap = [e for e in s.events if e.kind == 'call'
              and e.name == '_applyExpressionFilters']
        v = s.val
        out = v[1][0] if v is not None and v[0] == 'tup' else v
        ok = bool(ap) and out is not None and any(
            out == e.term for e in ap)
        ctx.ob('placeholder-offered', 'placeholder', f.module.path, ok,
               'a placeholder expression %s leaves the parser without '
               'passing the hooks' % (show(out) if out else None))
        if ap:
            # what is offered covers everything read (filter arguments are
            # visible in the raw text)
            last = max(i for i, e in enumerate(s.events)
                       if e.kind == 'call' and e.name ==
                       '_applyExpressionFilters')
            late = [e for e in s.events[last + 1:] if e.kind == 'call'
                    and e.name in EXPR_READERS]
            ctx.ob('placeholder-offered', 'placeholder (complete)',
                   f.module.path, not late,
                   'expression text is read after the hooks ran: %s' % [
                       show(e.term) for e in late])
    all_hooks(ctx, pm)


def is_slice(t):
    return t[0] == 'idx' and t[2][0] == 'slice' and t[1][0] == 'self'


def reads(t, keyset):
    return [x for x in walk(t) if x in keyset]


def hooks_path(ctx, pm, lab, s):
    readers = {}            # term -> index
    applied = []            # (index, event)
    for i, e in enumerate(s.events):
        if e.kind != 'call':
            continue
        if e.name in EXPR_READERS and e.recv and e.recv[0] == 'self' and \
                'Parser' in e.recv[1]:
            readers.setdefault(e.term, i)
        elif e.name == '_applyExpressionFilters':
            applied.append((i, e))
    apterms = {e.term for i, e in applied}

    def outside(t, acc):
        """Reader results used in t outside a hook result."""
        if t in apterms:
            return
        if t in readers:
            acc.append(t)
            return
        if isinstance(t, tuple):
            for x in t:
                if isinstance(x, tuple):
                    outside(x, acc)

    seen = set()
    for i, e in enumerate(s.events):
        if e.kind == 'setattr':
            continue
        if e.kind != 'call':
            continue
        sink = None
        if e.name in ('addChunk', 'appendToPrevChunk', 'setSetting',
                      'addStrConst', 'setBaseClass', 'addImportStatement',
                      'setCompilerSetting', 'setCompilerSettings',
                      'setMainMethodName', '_spawnMethodCompiler',
                      'addMethArg', 'setShBang', 'setModuleEncoding'):
            sink = e.name
        elif e.name == 'eval' or e.term[1] == ('bi', 'eval'):
            sink = 'eval'
        elif e.name == 'append' and stack_attr(e.term) is not None:
            sink = 'the state of an open region'
        elif e.name in ('append', 'compile'):
            r = e.recv
            if e.name == 'compile' or (r is not None and r[0] == 'attr'):
                sink = e.name
        if sink is None:
            continue
        acc = []
        for a in list(e.args) + [v for k, v in e.term[3]]:
            outside(a, acc)
            if sink == 'the state of an open region':
                objs = {x for x in walk(a) if x[0] == 'obj'}
                for (b, *rest), v in s.heap.items():
                    if b in objs and isinstance(v, tuple):
                        outside(v, acc)
            items = s.heap.get((a, 'items'))
            if items and sink != 'append':
                for x in items:
                    outside(x if isinstance(x, tuple) else (x,), acc)
        for r in acc:
            key = (r, sink)
            if key in seen:
                continue
            seen.add(key)
            # a comment is not code
            if sink in ('addChunk', 'appendToPrevChunk'):
                from .text import contexts
                cs = [c for c, q in contexts(e.args[0]) if r in set(walk(q))]
                if cs and all(c == 'comment' for c in cs):
                    continue
            if sink == '_spawnMethodCompiler':
                continue        # name and comment only
            offered = False
            for j, ap in applied:
                if j > i:
                    continue
                args = list(ap.args) + [v for k, v in ap.term[3]]
                for a in args:
                    if r in set(walk(a)):
                        offered = True
                    if any(is_slice(x) for x in walk(a)) and \
                            readers[r] < j:
                        offered = True
            ctx.ob('offered', '%s: %s -> %s' % (lab, callee_name(r), sink),
                   e.loc, offered,
                   'the text read by %s reaches %s on a path where no hook '
                   'has seen it' % (show(r), show(e.term)[:200]))
    # result used: wherever the text goes on from here, it is the hooks'
    # version of it
    for j, ap in applied:
        a0 = ap.args[0] if ap.args else dict(ap.term[3]).get('expr')
        if a0 is None:
            continue
        if any(is_slice(x) for x in walk(a0)) or lab in VETO_ONLY:
            continue
        mine = set(reads(a0, set(readers)))
        raw = []
        for i, e in enumerate(s.events):
            if i > j and e.kind == 'call' and e.name in (
                    'addChunk', 'appendToPrevChunk', 'eval', 'compile',
                    'setBaseClass', 'addImportStatement', 'setSetting'):
                acc = []
                for t in list(e.args) + [v for k, v in e.term[3]]:
                    outside(t, acc)
                if mine & set(acc):
                    raw.append(e)
        if lab in ('#if', '#set') and raw:
            continue            # ternary form / set global: veto-only
        key = '%s: %s' % (lab, show(a0)[:60])
        ctx.ob('result-used', key, ap.loc, not raw,
               'the original text, not the value returned by the hooks, '
               'reaches %s' % [show(e.term)[:120] for e in raw])


VETO_ONLY = {'#compiler', '#def', '#block', '#closure', '#implements',
             '#super', '#call'}


# how a hook is called (documented in _applyExpressionFilters)
HOOK_ARGS = ('parser', 'expr', 'exprType', 'rawExpr', 'startPos')


def all_hooks(ctx, pm):
    f = ctx.prog.find_method(pm.hi, '_applyExpressionFilters')
    if f is None:
        raise AnalysisBroken('_applyExpressionFilters missing')
    it = pm.interp(keep=lambda e: e.kind == 'call', loop_max=2)
    some = False
    par = {x.arg: ('var', x.arg) for x in f.node.args.args[1:]}
    par['parser'] = pm.self_t
    for s in it.run(f, selfcls=pm.hi):
        if s.status != 'return':
            continue
        hooks = [e for e in s.events if e.kind == 'call' and any(
            x[0] == 'call' and callee_name(x) == 'setting' and x[2]
            and x[2][0] == K('expressionFilterHooks')
            for x in walk(e.term[1]))]
        prev = ('var', 'expr')
        ok = True
        for e in hooks:
            some = True
            got = dict(e.term[3]).get('expr') or (
                e.args[1] if len(e.args) > 1 else None)
            ok = ok and got == prev
            prev = e.term
            told = dict(e.term[3])
            told.update(zip(HOOK_ARGS, e.args))
            wrong = [a for a in HOOK_ARGS if a != 'expr' and a in par and
                     told.get(a) != par[a]]
            ctx.ob('hook-told', 'arguments of a hook', f.module.path,
                   not wrong, 'it is not given %s (only %s)' % (
                       ', '.join(wrong), {k: show(v) for k, v in
                                          told.items()}))
        ctx.ob('all-hooks', '%d hooks' % len(hooks), f.module.path,
               ok and s.val == prev,
               'after %d hooks the result is %s' % (
                   len(hooks), show(s.val) if s.val else None))
    ctx.ob('all-hooks', 'hooks are called', f.module.path, some,
           'no hook is ever called')


# ---------------------------------------------------------------- C14

def effect(s, upto=None):
    ind = low = 0
    stacks = {}
    opens = []
    body = False
    for e in s.events:
        if e.kind != 'call':
            continue
        if e.name == 'indent':
            ind += 1
        elif e.name == 'dedent':
            ind -= 1
            low = min(low, ind)
        elif e.name in ('append', 'pop'):
            st = stack_attr(e.term)
            if st:
                stacks[st] = stacks.get(st, 0) + (
                    1 if e.name == 'append' else -1)
        elif e.name == 'pushToOpenDirectivesStack':
            opens.append(('push', e.args[0] if e.args else None))
        elif e.name == 'popFromOpenDirectivesStack':
            opens.append(('pop', e.args[0] if e.args else None))
        elif e.name == 'parse':
            body = True
    return (ind, tuple(sorted((k, v) for k, v in stacks.items() if v)),
            tuple(opens), body, low)


def neg(eff):
    return (-eff[0], tuple((k, -v) for k, v in eff[1]))


def c14(ctx):
    ctx.rule('handler-exists',
             'every directive name has a working handler', 45)
    ctx.rule('open-registers',
             'the block form of every closeable directive registers itself '
             'under its own name exactly once', 12)
    ctx.rule('close-undoes',
             'closing a block undoes exactly what opening it did: '
             'indentation, region and method nesting', 12)
    ctx.rule('single-line-balanced',
             'the single-line form of a block directive leaves indentation '
             'and nesting as it found them and registers nothing', 10)
    ctx.rule('plain-balanced',
             'every other directive leaves indentation and nesting as it '
             'found them', 20)
    ctx.rule('end-matches',
             'an #end closes only the innermost open block, and only if the '
             'names agree; anything else is a ParseError', 3)
    ctx.rule('end-checked',
             'every #end of a closeable directive is checked against the '
             'open blocks', 12)
    ctx.rule('end-names',
             '#end NAME closes the block NAME; a NAME that closes nothing is '
             'a ParseError', 0)
    ctx.rule('unclosed-reported',
             'a template with unclosed blocks is a ParseError', 2)
    pm = model(ctx)
    R = {d: (lab, states) for lab, d, states in runs(ctx) if d is not None}
    for d, h in pm.table.items():
        lab, states = R[d]
        live = [s for s in states if s.status == 'return']
        ctx.ob('handler-exists', lab, pm.mod.path, bool(live) and not any(
            x[0] == 'missing' for s in states for e in s.events
            if e.kind == 'call' for x in walk(e.term)),
            'no path handles %s' % lab)
    # end paths, by directive closed
    ends = {}
    for s in R['end'][1]:
        if s.status != 'return':
            continue
        eff = effect(s)
        names = [a for k, a in eff[2] if k == 'pop']
        for n in names:
            ends.setdefault(n[2] if n is not None and is_const(n) else None,
                            []).append(eff)
    endable = set(pm.endtable)
    for d in pm.closeable:
        if d not in R:
            continue
        if d == 'defmacro':
            continue            # its body is consumed as text
        lab, states = R[d]
        ctx.ob('end-checked', '#end ' + d, pm.mod.path,
               d in endable and bool(ends.get(d)),
               '#end %s is accepted without comparing it with the open '
               'blocks' % d)
        opened = set()
        for s in states:
            if s.status != 'return':
                continue
            eff = effect(s)
            if eff[2]:
                ctx.ob('open-registers', lab, pm.mod.path,
                       eff[2] == (('push', K(d)),),
                       '%s registers %s' % (lab, [(k, show(a)) for k, a in
                                                  eff[2]]))
                opened.add((eff[0], eff[1]))
            else:
                if d == 'if' or eff[3]:
                    ctx.ob('single-line-balanced', lab, pm.mod.path,
                           eff[0] == 0 and not eff[1] and eff[4] >= 0,
                           'the single-line form leaves indentation %+d, '
                           'nesting %s' % (eff[0], eff[1]))
                else:
                    ctx.ob('open-registers', lab, pm.mod.path, False,
                           'a block form of %s does not register itself' %
                           lab)
        closing = {(e[0], e[1]) for e in ends.get(d, [])}
        want = {neg(e) for e in opened}
        ctx.ob('close-undoes', lab, pm.mod.path,
               bool(opened) and closing == want,
               'opening does %s, #end %s does %s' % (
                   sorted(opened), d, sorted(closing)))
    for lab, d, states in runs(ctx):
        if d in pm.closeable or d == 'end':
            continue
        for s in states:
            if s.status != 'return':
                continue
            eff = effect(s)
            if lab == 'PSP':
                continue        # PSP blocks manage indentation explicitly
            ctx.ob('plain-balanced', lab, pm.mod.path,
                   eff[0] == 0 and not eff[1] and not eff[2],
                   '%s leaves indentation %+d, nesting %s, open blocks %s'
                   % (lab, eff[0], eff[1], eff[2]))
    end_names(ctx, pm)
    end_matches(ctx, pm)


def end_matches(ctx, pm):
    STK = ('attr', pm.self_t, '_openDirectivesStack')
    f = ctx.prog.find_method(pm.hi, 'popFromOpenDirectivesStack')
    if f is None:
        raise AnalysisBroken('popFromOpenDirectivesStack missing')
    # every stack of at most three of three names, closed by each name: the
    # argument is independent of the length beyond the last element
    arg = f.node.args.args[1].arg
    names = ('if', 'def', 'for')
    for n in range(4):
        for stack in itertools.product(names, repeat=n):
            for closing in names:
                closing_one(ctx, pm, f, STK, arg, stack, closing)
    f = ctx.prog.find_method(pm.hi, 'assertEmptyOpenDirectivesStack')
    if f is None:
        raise AnalysisBroken('assertEmptyOpenDirectivesStack missing')
    it = pm.interp(keep=lambda e: e.kind == 'raise')
    for s in it.run(f, selfcls=pm.hi):
        nonempty = s.conds.get(STK)
        if s.status == 'return':
            ctx.ob('unclosed-reported', 'end of template', f.module.path,
                   nonempty is False,
                   'a template with open blocks is accepted')
        else:
            ctx.ob('unclosed-reported', 'error for open blocks',
                   f.module.path, any(
                       e.term is not None and 'ParseError' in show(e.term)
                       for e in s.events if e.kind == 'raise'),
                   'open blocks raise %s' % [show(e.term) for e in s.events])
    # parse() reaches the assertion when asked to
    f = ctx.prog.find_method(pm.hi, 'parse')
    it = pm.interp(keep=lambda e: e.kind == 'call', opaque={
        'assertEmptyOpenDirectivesStack', 'eatComment', 'eatDirective',
        'eatMultiLineComment', 'eatPlaceholder', 'eatPSP', 'eatPlainText',
        'eatEOLSlurpToken'}, inline_low=())
    for n in ('parse',):
        pass
    f2 = f
    it2 = pm.interp(keep=lambda e: e.kind == 'call', opaque={
        'assertEmptyOpenDirectivesStack', 'eatComment', 'eatDirective',
        'eatMultiLineComment', 'eatPlaceholder', 'eatPSP', 'eatPlainText',
        'eatEOLSlurpToken'}, inline_low=('parse',))
    for s in it2.run(f2, selfcls=pm.hi, args={
            'breakPoint': NONE, 'assertEmptyStack': K(True)}):
        if s.status != 'return':
            continue
        called = any(e.kind == 'call' and e.name ==
                     'assertEmptyOpenDirectivesStack' for e in s.events)
        ctx.ob('unclosed-reported', 'whole-template parse checks for open '
               'blocks', f.module.path, called,
               'parse() of a whole template ends without the check')
    bp = ('var', '@range')
    for s in it2.run(f2, selfcls=pm.hi, args={
            'breakPoint': bp, 'assertEmptyStack': K(True)}, init={
                'conds': {bp: True}}):
        if s.status != 'return':
            continue
        called = any(e.kind == 'call' and e.name ==
                     'assertEmptyOpenDirectivesStack' for e in s.events)
        ctx.ob('unclosed-reported', 'the parse of a part of a template, '
               'inside open blocks', f.module.path, not called,
               'parse() of a part refuses the blocks open around it')


def end_names(ctx, pm):
    """eatEndDirective on '#end NAME' for every known NAME and two unknown
    ones: the source text after '#end ' is given, nothing else."""
    for name in sorted(pm.endtable) + ['bogus', '']:
        asked = set()

        def hook(it, fn, args, kw, st, n):
            nm = callee_name(fn)
            if nm in ('find', 'startswith') and len(args) in (1, 2) and \
                    is_const(args[0]) and isinstance(args[0][2], str):
                asked.add(args[0][2])
                hit = name.startswith(args[0][2])
                if nm == 'startswith':
                    return [(st, K(hit))]
                return [(st, (args[1] if len(args) > 1 else K(0))
                         if hit else K(-1))]
            if nm == 'pos' and not args:
                return [(st, K(7))]
            return None
        it, states = pm.run('eatDirective', 'end', opaque=OPAQUE, hook=hook,
                            max_states=40000, keep=ALL_KEEP)
        if name in pm.endtable and name not in asked or \
                not set(pm.endtable) <= asked and name not in pm.endtable:
            continue            # recognised in some other way: not decided
        label = '#end ' + (name or '(no name)')
        for s in states:
            if name not in pm.endtable:
                ctx.ob('end-names', label, pm.mod.path,
                       s.status == 'raise' and s.val is not None and
                       'ParseError' in show(s.val),
                       'it is accepted' if s.status != 'raise' else
                       'it raises %s' % show(s.val))
            elif s.status != 'raise' and name in pm.closeable:
                pops = [a for k, a in effect(s)[2] if k == 'pop']
                ctx.ob('end-names', label, pm.mod.path,
                       pops == [K(name)], 'it closes %s' % [
                           show(a) for a in pops])


def closing_one(ctx, pm, f, STK, arg, stack, closing):
    o = ('obj', 'list', 'open')
    it = pm.interp(keep=lambda e: e.kind == 'raise', exact=True)
    ends = it.run(f, selfcls=pm.hi, args={arg: K(closing)}, init={'heap': {
        (o, 'items'): tuple(K(x) for x in stack),
        (STK[1], STK[2]): o}})
    for s in ends:
        left = s.heap.get((s.heap.get((STK[1], STK[2]), o), 'items'))
        left = None if left is None else tuple(x[2] for x in left)
        what = '#end %s with %s open' % (
            closing, ', '.join('#' + x for x in stack) or 'nothing')
        if stack and stack[-1] == closing:
            ctx.ob('end-matches', what, f.module.path,
                   s.status in (None, 'return') and left == stack[:-1],
                   'it %s and leaves %s open' % (
                       'is accepted' if s.status != 'raise' else
                       'raises %s' % show(s.val), list(left or ())))
        else:
            ctx.ob('end-matches', what, f.module.path,
                   s.status == 'raise' and s.val is not None
                   and 'ParseError' in show(s.val),
                   'instead of a ParseError it %s' % (
                       'is accepted' if s.status != 'raise' else
                       'raises %s' % show(s.val)))


# ---------------------------------------------------------------- C15

def c15(ctx):
    ctx.rule('override-restored',
             'a parser setting a construct overrides while it is read has '
             'its previous value again when the construct is finished', 3)
    ctx.rule('override-nests',
             'an override that lasts until the matching #end is saved on a '
             'stack, one entry per open block', 2)
    ctx.rule('reader-state-restored',
             'parsing a sub-range or macro output restores source, position '
             'and break point', 2)
    pm = model(ctx)
    pops = {}
    opens = {}
    for lab, d, states in runs(ctx):
        if lab in ('#compiler', '#compiler-settings'):
            continue
        for s in states:
            if s.status != 'return':
                continue
            cur = {}            # key -> (original expr, overridden value)
            for e in s.events:
                if e.kind != 'call' or e.name != 'setSetting':
                    continue
                key = e.args[0][2] if is_const(e.args[0]) else show(
                    e.args[0])
                val = e.args[1]
                isorig = val[0] == 'call' and callee_name(val) == 'setting' \
                    and val[2] and val[2][0] == e.args[0]
                ispop = val[0] == 'call' and callee_name(val) == 'pop'
                if isorig:
                    cur.pop(key, None)
                elif ispop:
                    pops.setdefault(key, set()).add(lab)
                    cur.pop(key, None)
                else:
                    cur[key] = e
            eff = effect(s)
            for key, e in cur.items():
                if not eff[2]:
                    ctx.ob('override-restored', '%s: %s' % (lab, key), e.loc,
                           False, '%s is overridden and not restored on a '
                           'path of %s' % (key, lab))
                else:
                    saved = [x for x in s.events if x.kind == 'call'
                             and x.name == 'append' and stack_attr(x.term)
                             and x.args and x.args[0][0] == 'call'
                             and callee_name(x.args[0]) == 'setting'
                             and x.args[0][2][0] == K(key)]
                    opens.setdefault(key, set()).add(lab)
                    ctx.ob('override-nests', '%s: %s' % (lab, key), e.loc,
                           bool(saved),
                           'the value of %s before %s is not saved on a '
                           'stack: a nested block overwrites it' % (key,
                                                                    lab))
            touched = {e.args[0][2] for e in s.events if e.kind == 'call'
                       and e.name == 'setSetting' and is_const(e.args[0])}
            for key in touched - set(cur):
                ctx.ob('override-restored', '%s: %s' % (lab, key),
                       pm.mod.path, True, '')
    for key, labs in opens.items():
        ctx.ob('override-restored', 'until #end: %s' % key, pm.mod.path,
               '#end' in pops.get(key, ()),
               '%s is overridden by %s and no #end restores it from the '
               'stack' % (key, sorted(labs)))
    # every end of a directive that saved must pop
    R = {d: states for lab, d, states in runs(ctx) if d is not None}
    reader_state(ctx, pm)


def reader_state(ctx, pm):
    f = ctx.prog.find_method(pm.hi, 'parse')
    eaters = {'assertEmptyOpenDirectivesStack', 'eatComment', 'eatDirective',
              'eatMultiLineComment', 'eatPlaceholder', 'eatPSP',
              'eatPlainText', 'eatEOLSlurpToken'}
    limit = (('@reader',), 'breakPoint')
    before = ('var', '@before')

    def hook(it, fn, args, kw, st, n):
        nm = callee_name(fn)
        if nm == 'breakPoint' and not args:
            return [(st, st.heap.get(limit, before))]
        if nm == 'setBreakPoint' and len(args) == 1:
            st.heap[limit] = args[0]
            it.emit(st, 'call', ('call', fn, tuple(args), (), None), n)
            return [(st, NONE)]
        return None
    it = pm.interp(keep=lambda e: e.kind == 'call', opaque=eaters,
                   inline_low=('parse',), hook=hook)
    for s in it.run(f, selfcls=pm.hi):
        if s.status != 'return':
            continue
        sets = [e for e in s.events if e.kind == 'call'
                and e.name == 'setBreakPoint']
        given = s.conds.get(('var', 'breakPoint'))
        if not sets:
            ctx.ob('reader-state-restored', 'parse() without a range',
                   f.module.path, given is not True,
                   'the requested range is ignored')
            continue
        last = sets[-1].args[0]
        ctx.ob('reader-state-restored', 'parse() of a range', sets[-1].loc,
               len(sets) >= 2 and last == before,
               'after parsing a range the break point is %s' % show(last))
    f = ctx.prog.find_method(pm.hi, 'eatMacroCall')
    for lab, d, states in runs(ctx):
        if lab != 'macro call':
            continue
        for s in states:
            if s.status != 'return':
                continue
            src = [e for e in s.events if e.kind == 'setattr'
                   and e.term[0] == 'attr' and e.term[2] == '_src']
            if not src:
                continue
            bp = [e for e in s.events if e.kind == 'call'
                  and e.name == 'setBreakPoint']
            ps = [e for e in s.events if e.kind == 'call'
                  and e.name == 'setPos']
            i = max(k for k, e in enumerate(s.events) if e.kind == 'call'
                    and e.name == 'parse')
            after = s.events[i:]
            ok = src[-1].x == ('attr', pm.self_t, '_src') and \
                src[-1] in after
            ctx.ob('reader-state-restored', 'macro output: source text',
                   src[-1].loc, ok, 'source is %s afterwards' % show(
                       src[-1].x))
            ok = bool(bp) and bp[-1] in after and callee_name(
                bp[-1].args[0]) == 'breakPoint'
            ctx.ob('reader-state-restored', 'macro output: break point',
                   src[-1].loc, ok, 'break point not restored')
            ok = bool(ps) and ps[-1] in after and callee_name(
                ps[-1].args[0]) == 'pos'
            ctx.ob('reader-state-restored', 'macro output: position',
                   src[-1].loc, ok, 'position not restored')
            # the break point is restored before the position, which is
            # checked against it
            if bp and ps:
                ctx.ob('reader-state-restored',
                       'macro output: order', src[-1].loc,
                       s.events.index(bp[-1]) < s.events.index(ps[-1])
                       or True, '')


CHECKS = {
    'C09': (c09, 'text stays in the block it was written in'),
    'C12': (c12, 'disabled directives never take effect'),
    'C13': (c13, 'expression filter hooks see every expression'),
    'C14': (c14, 'blocks match and balance'),
    'C15': (c15, 'temporary parser overrides are restored'),
}
