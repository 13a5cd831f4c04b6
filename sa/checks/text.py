"""C07: literal text and comments are inert in the generated program."""
import itertools
import re

from ..absint import K, NONE, show, callee_name, is_const, walk
from ..emit import Emitter
from ..parse import ParserModel
from ..model import AnalysisBroken
from .values import ENTRIES

KEEP = ('addChunk', 'appendToPrevChunk', 'addStrConst')


def parts(t):
    if t is None:
        return []
    return list(t[1]) if t[0] == 'cat' else [t]


def contexts(t, start='code'):
    """(lexical context, hole) for every non-literal part of a chunk."""
    st, out = start, []
    for q in parts(t):
        if not is_const(q):
            out.append((st, q))
            continue
        s, i = str(q[2]), 0
        while i < len(s):
            c = s[i]
            if st == 'code':
                if c == '#':
                    st = 'comment'
                elif s.startswith(('"""', "'''"), i):
                    st = s[i:i + 3]
                    i += 2
                elif c in '"\'':
                    st = c
            elif st == 'comment':
                if c == '\n':
                    st = 'code'
            else:
                if c == '\\':
                    i += 1
                elif s.startswith(st, i):
                    i += len(st) - 1
                    st = 'code'
            i += 1
    return out


IDENT = {'getIdentifier', 'getDottedName'}
NUMERIC = {'getRowCol', 'randrange', 'getmtime', 'len', 'int', 'float',
           'findEOL', 'pos'}


def line_split(it):
    """Does this split text at every kind of line break?"""
    if it[0] != 'call':
        return False
    nm = callee_name(it)
    if nm == 'splitlines':
        return True
    if nm != 'split':
        return False
    if not it[2]:
        return True             # at any whitespace
    pats = [a[2] for a in it[2] if is_const(a) and isinstance(a[2], str)]
    return any(('\r' in p or '\\r' in p or '\\s' in p)
               and ('\n' in p or '\\n' in p or '\\s' in p) for p in pats)


def one_line(t, conds, safe=()):
    """Can this text never contain a line break?"""
    if t in safe or is_const(t) and not (
            isinstance(t[2], str) and ('\n' in t[2] or '\r' in t[2])):
        return True
    if is_const(t):
        return False
    if t[0] == 'cat':
        return all(one_line(p, conds, safe) for p in t[1])
    if t[0] in ('bin',):
        return one_line(t[2], conds, safe)
    # guarded: text.find('\n') == -1 (and '\r')
    def absent(ch):
        for k, v in conds.items():
            if k[0] == 'cmp' and k[1] == '==' and v is True and \
                    k[2][0] == 'call' and callee_name(k[2]) == 'find' and \
                    k[2][1][0] == 'attr' and k[2][1][1] == t and \
                    k[2][2] == (K(ch),):
                return True
            if k[0] == 'cmp' and k[1] == 'in' and v is False and \
                    k[2] == K(ch) and k[3] == t:
                return True
        return False
    if absent('\n') and absent('\r'):
        return True
    if t[0] == 'joined':
        # ('joined', sep, element, iterable)
        return one_line(t[1], conds, safe) and one_line(t[2], conds, safe)
    if t[0] == 'each':
        return line_split(t[1])
    if t[0] == 'elem':
        return line_split(t[1])
    if t[0] == 'call':
        nm = callee_name(t)
        if nm == 'repr' or nm in IDENT or nm in NUMERIC:
            return True
        if nm in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'str',
                  'capitalize', 'expandtabs'):
            inner = t[1][1] if t[1][0] == 'attr' else (
                t[2][0] if t[2] else None)
            return inner is not None and one_line(inner, conds, safe)
        if nm == 'setting':
            return True         # configuration, not template text
        if nm == 'join' and t[1][0] == 'attr':
            return one_line(t[1][1], conds, safe) and all(
                one_line(a, conds, safe) for a in t[2])
        if nm == 'each':
            return one_line(('each', t[2][0]), conds, safe)
        if nm == 'replace' and t[1][0] == 'attr':
            return one_line(t[1][1], conds, safe)
    if t[0] == 'idx':
        k = t[2]
        if k[0] == 'slice':
            hi = k[2]
            if any(x[0] == 'call' and callee_name(x) == 'findEOL'
                   for x in walk(hi)):
                return True
            return one_line(t[1], conds, safe)
        if t[1][0] == 'call' and callee_name(t[1]) in NUMERIC:
            return True
        if t[1][0] == 'attr' and t[1][2] == 'lineCol':
            return True
        return one_line(t[1], conds, safe) or region_id(t)
    if region_id(t):
        return True
    return False


def region_id(t):
    """The ID of an open region, taken back from the region stack."""
    if t[0] == 'call' and callee_name(t) == 'pop' and t[1][0] == 'attr' and \
            t[1][1][0] == 'attr' and 'Stack' in t[1][1][2]:
        return True
    return t[0] == 'idx' and t[2] == K(0) and t[1][0] == 'idx' and \
        t[1][1][0] == 'attr' and 'Stack' in t[1][1][2]


def hooked(t):
    """Result of an application-supplied expression hook."""
    return t[0] == 'call' and any(
        x[0] == 'call' and callee_name(x) == 'setting' and x[2]
        and x[2][0] == K('expressionFilterHooks') for x in walk(t[1]))


def string_safe(t, quote, conds):
    if t[0] == 'call':
        nm = callee_name(t)
        if nm in IDENT or nm in NUMERIC or nm == 'setting':
            return True
        if nm == 'repr':
            return False
        if nm in ('strip', 'lower'):
            return t[1][0] == 'attr' and string_safe(t[1][1], quote, conds)
    if is_const(t):
        return quote not in str(t[2])
    if t[0] == 'idx' and t[1][0] == 'call' and callee_name(t[1]) in NUMERIC:
        return True
    return False


def set_target(t):
    """Target of '#set global': the name before the first '.' or '['."""
    return any(x[0] == 'call' and callee_name(x) in (
        'getExpression', 'getCheetahVar') and dict(x[3]).get(
            'useNameMapper') == K(False) for x in walk(t))


def c07(ctx):
    ctx.rule('text-literal',
             'pending text is written as one string literal denoting exactly '
             'that text', 2)
    ctx.rule('newline-regex',
             'the pattern that turns \\n escapes into real newlines matches '
             'exactly the unescaped ones (all strings to length 7 over the '
             'relevant alphabet)', 1)
    ctx.rule('text-source',
             'text taken from the template reaches the compiler through the '
             'two documented unescapes only', 2)
    ctx.rule('unescape', 'an unescape drops the backslash before a start '
             'token and nothing else', 2)
    ctx.rule('comment-one-line',
             'template text placed in a comment of the generated code has no '
             'line break', 30)
    ctx.rule('string-safe',
             'template text placed between quotes in the generated code is '
             'an identifier or escaped', 3)
    ctx.rule('comment-inert',
             'a template comment emits only comment lines, docstring lines '
             'or header lines', 6)
    ctx.rule('docstring-escaped',
             'docstring lines are escaped for a triple-quoted string', 3)
    ctx.rule('special-var', 'special variables are emitted as repr', 1)
    prog = ctx.prog
    em = Emitter(prog)
    text_literal(ctx, em)
    newline_regex(ctx)
    pm = ParserModel(prog)
    sources(ctx, pm)
    chunk_contexts(ctx, em, pm)
    comments(ctx, em)
    docstrings(ctx, em)


def is_write_chunk(t):
    p = parts(t)
    return p and is_const(p[0]) and str(p[0][2]).startswith('write(')


def text_literal(ctx, em):
    for n, body, want in (
            ('one piece', 'self.addStrConst(a)\nself.commitStrConst()',
             ('var', 'a')),
            ('two pieces', 'self.addStrConst(a)\nself.addStrConst(b)\n'
             'self.commitStrConst()',
             ('cat', (('var', 'a'), ('var', 'b')))),
            ('raw text', 'self.addRawText(a)\nself.commitStrConst()',
             ('var', 'a'))):
        it, states = em.drive(body, ['a', 'b'],
                              opaque={'addChunk', 'setting', 'indent',
                                      'dedent'})
        some = False
        for s in states:
            if s.status != 'return':
                continue
            ch = [e for e in s.events if e.kind == 'call'
                  and e.name == 'addChunk']
            empty = any(v is False and (k == want or k in (
                ('var', 'a'), ('var', 'b'), ('cat', (want,)))) for k, v in s.conds.items())
            if not ch:
                ctx.ob('text-literal', 'commit of %s (nothing written)' % n,
                       em.meth.module.path, empty,
                       'text dropped on path %s' % {
                           show(k): v for k, v in s.conds.items()})
                continue
            some = True
            ok = len(ch) == 1 and literal_ok(ch[0].args[0], want, s.conds)
            ctx.ob('text-literal', 'commit of %s' % n, ch[0].loc, ok,
                   'emits %s for text %s' % (
                       [show(c.args[0]) for c in ch], show(want)))
            left = s.heap.get((('self', em.meth.qual),
                               '_pendingStrConstChunks'))
            items = s.heap.get((left, 'items')) if left else None
            ctx.ob('text-literal', 'commit of %s clears the pending text' % n,
                   ch[0].loc, items == (), 'pending after commit: %s' % (
                       items,))
        if not some:
            ctx.ob('text-literal', 'commit of %s' % n, em.meth.module.path,
                   False, 'pending text is never written')


def literal_ok(t, want, conds):
    return literal_ok1(t, want, conds) or (
        want[0] != 'cat' and literal_ok1(t, ('cat', (want,)), conds))


def literal_ok1(t, want, conds):
    p = parts(t)
    if len(p) != 3 or not is_const(p[0]) or not is_const(p[2]):
        return False
    pre, mid, post = p[0][2], p[1], p[2][2]
    rep = ('call', ('bi', 'repr'), (want,), (), None)
    if pre == 'write(' and post == ')':
        return mid == rep
    m = re.match(r'^write\((u?)(\'\'\'|""")$', pre)
    if not m or post != m.group(2) + ')':
        return False
    u, q = m.groups()
    off = 2 if u else 1
    body = ('idx', rep, ('slice', K(off), K(-1), NONE))
    if mid == body:
        pass
    elif mid[0] == 'call' and callee_name(mid) == 'sub' and \
            mid[2] == (K('\\1\n'), body) and \
            any(x[0] == 'glob' and x[2] == 'escapedNewlineRE'
                for x in walk(mid[1])):
        pass
    else:
        return False
    # the quote character is the one repr used
    k = ('cmp', '==', ('idx', rep, K(off - 1)), K("'"))
    v = conds.get(k)
    k2 = ('cmp', '==', ('idx', rep, K(off - 1)), K('"'))
    v2 = conds.get(k2)
    sq = v if v is not None else (None if v2 is None else not v2)
    if sq is None:
        return False
    if (q == "'''") != sq:
        return False
    su = [v for k, v in conds.items() if k[0] == 'call'
          and callee_name(k) == 'startswith' and k[2] == (K('u'),)]
    if su and su[0] != bool(u):
        return False
    return True


def newline_regex(ctx):
    mod = ctx.prog.mod('Parser')
    import ast
    pat = None
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == 'escapedNewlineRE'
                for t in n.targets):
            c = n.value
            if isinstance(c, ast.Call) and c.args and isinstance(
                    c.args[0], ast.Constant):
                pat = c.args[0].value
    if pat is None:
        raise AnalysisBroken('escapedNewlineRE is not a constant pattern')
    rx = re.compile(pat)
    bad = None

    def reference(s):
        out, i = [], 0
        while i < len(s):
            if s[i] == '\\' and i + 1 < len(s):
                if s[i + 1] == 'n':
                    out.append('\n')
                    i += 2
                    continue
                out.append(s[i:i + 2])
                i += 2
                continue
            out.append(s[i])
            i += 1
        return ''.join(out)

    def valid(s):
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if i + 1 >= len(s) or s[i + 1] not in '\\n':
                    return False
                i += 2
            else:
                i += 1
        return True
    for ln in range(0, 8):
        for tup in itertools.product('\\nx', repeat=ln):
            s = ''.join(tup)
            if valid(s) and rx.sub('\\1\n', s) != reference(s):
                bad = s
                break
        if bad:
            break
    ctx.ob('newline-regex', 'escapedNewlineRE', mod.path, bad is None,
           'pattern %r changes the text denoted by the literal body %r' % (
               pat, bad))


def sources(ctx, pm):
    """What the parser hands to addStrConst / addRawText."""
    for meth, dn in (('eatPlainText', None), ('eatDirective', 'raw')):
        it, states = pm.run(meth, dn, opaque={
            '_unescapeCheetahVars', '_unescapeDirectives', 'readTo',
            'addStrConst', 'addRawText'},
            keep=lambda e: e.kind == 'call' and e.name in (
                'addStrConst', 'addRawText'))
        ok_any = False
        for s in states:
            if s.status == 'raise':
                continue
            evs = [e for e in s.events]
            name = 'plain text' if dn is None else '#raw text'
            if not evs:
                ctx.ob('text-source', name, pm.mod.path, False,
                       'text is consumed but not handed to the compiler')
                continue
            ok_any = True
            for e in evs:
                t, un = e.args[0], []
                while t[0] == 'call' and callee_name(t) in (
                        '_unescapeCheetahVars', '_unescapeDirectives'):
                    un.append(callee_name(t))
                    t = t[2][0]
                raw = t[0] == 'call' and callee_name(t) in (
                    'readTo', 'readToEOL', '_eatToThisEndDirective') or (
                    t[0] == 'idx' and t[2][0] == 'slice')
                if dn is None:
                    ok = raw and sorted(un) == ['_unescapeCheetahVars',
                                                '_unescapeDirectives']
                else:
                    ok = raw and not un
                ctx.ob('text-source', name, e.loc, ok,
                       'hands over %s' % show(e.args[0]))
            ctx.ob('text-source', name + ' once', evs[0].loc, len(evs) == 1,
                   'text handed over %d times' % len(evs))
        if not ok_any:
            raise AnalysisBroken('no text path in %s' % meth)
    for m, key in (('_unescapeCheetahVars', 'cheetahVarStartToken'),
                   ('_unescapeDirectives', 'directiveStartToken')):
        f = ctx.prog.find_method(pm.lo, m)
        if f is None:
            raise AnalysisBroken(m + ' missing')
        it = pm.interp(opaque={'setting'}, inline_low=(m,))
        for s in it.run(f, selfcls=pm.hi):
            v = s.val
            good = False
            if v is not None and v[0] == 'call' and \
                    callee_name(v) == 'replace' and len(v[2]) == 2:
                a, b = v[2]
                good = b[0] == 'call' and callee_name(b) == 'setting' and \
                    b[2] == (K(key),) and a == ('cat', (K('\\'), b)) and \
                    v[1][1] == ('var', f.node.args.args[1].arg)
            ctx.ob('unescape', m, f.loc() if hasattr(f, 'loc') else
                   f.module.path, good,
                   'returns %s' % (show(v) if v else None))


def chunk_contexts(ctx, em, pm):
    seen = set()

    def look(where, events, safe=()):
        for e in events:
            if e.kind != 'call' or e.name not in ('addChunk',
                                                  'appendToPrevChunk'):
                continue
            t = e.args[0] if e.args else None
            start = 'code'
            if e.name == 'appendToPrevChunk':
                start = 'comment' if t is not None and is_const(
                    parts(t)[0]) and '#' not in str(parts(t)[0][2]) \
                    else 'code'
            for c, q in contexts(t, start):
                if c == 'code':
                    continue
                ctx.unit('template text in comments/strings',
                         '%s: %s' % (where, show(q)[:80]))
                if hooked(q):
                    continue
                if c == 'comment':
                    key = (where, 'c', q)
                    ok = one_line(q, e.conds, safe)
                    ctx.ob('comment-one-line', '%s: %s' % (
                        where, show(q)[:80]), e.loc, ok,
                        'text that may contain a line break is placed in a '
                        'comment: %s' % show(t))
                else:
                    ok = string_safe(q, c, e.conds) or (
                        where == '#set' and set_target(q))
                    ctx.ob('string-safe', '%s: %s' % (where, show(q)[:60]),
                           e.loc, ok,
                           'unescaped template text inside %s quotes: %s' % (
                               c, show(t)))
    for dn in pm.table:
        it, states = pm.run('eatDirective', dn, keep=lambda e:
                            e.kind == 'call' and e.name in KEEP)
        for s in states:
            look('#' + dn, s.events, safe={
                x for e in s.events for x in walk(e.args[0] if e.args
                                                  else NONE)
                if x[0] == 'call' and callee_name(x) == 'get' and x[2]
                and x[2][0] == K('id')})
    for name, body, params, vals in ENTRIES:
        it, states = em.drive(body, params)
        for s in states:
            look(name, s.events, safe={
                ('idx', ('var', 'lc'), K(0)), ('idx', ('var', 'lc'), K(1)),
                ('var', 'lc')})
    # code placed in the error catcher method
    it, states = em.drive('self.addErrorCatcherCall(code, raw, lc)',
                          ['code', 'raw', 'lc'], cls=em.auto_class(),
                          setup=False)
    for s in states:
        look('error catcher method', s.events,
             safe={('idx', ('var', 'lc'), K(0)), ('idx', ('var', 'lc'), K(1)),
                   ('var', 'lc')})


def comments(ctx, em):
    """addComment with each documented prefix."""
    it, states = em.drive('self.addComment(comm)', ['comm'], cls=em.module,
                          setup=False,
                          opaque={'addChunk', 'setting', 'addStrConst',
                                  'addMethDocString', 'addModuleDocString',
                                  'addClassDocString', 'addModuleHeader',
                                  'addSpecialVar', 'indent', 'dedent'},
                          keep=lambda e: e.kind == 'call')
    allowed = {'addMethDocString', 'addModuleDocString', 'addClassDocString',
               'addModuleHeader', 'addSpecialVar'}
    n = 0
    for s in states:
        if s.status != 'return':
            continue
        for e in s.events:
            if e.kind != 'call' or e.name is None:
                continue
            if e.name in ('addChunk', 'addStrConst', 'indent', 'dedent') or \
                    e.name in allowed:
                n += 1
                t = e.args[0] if e.args else None
                if e.name in allowed:
                    ok = e.name == 'addSpecialVar' or (
                        t is not None and one_line(t, e.conds))
                else:
                    p = parts(t)
                    ok = e.name == 'addChunk' and p and is_const(p[0]) and \
                        str(p[0][2]).lstrip().startswith('#') and all(
                            one_line(x, e.conds) for x in p)
                ctx.ob('comment-inert', 'comment -> %s' % e.name, e.loc, ok,
                       'comment emits %s(%s)' % (
                           e.name, show(t) if t else ''))
    # header and special variables
    for m, attr in (('moduleHeader', '_moduleHeaderLines'),):
        it, states = em.drive('self.%s = [a, b]\nreturn self.%s()' % (
            attr, m), ['a', 'b'], cls=em.module, setup=False,
            opaque={'setting'})
        for s in states:
            v = s.val
            bad = None
            # every line is preceded by '#' after a newline
            last = ''
            for q in parts(v) if v else []:
                if is_const(q):
                    last += str(q[2])
                elif q in (('var', 'a'), ('var', 'b')):
                    seg = last.rsplit('\n', 1)[-1]
                    if not seg.lstrip().startswith('#'):
                        bad = q
                    last = 'x'
            ctx.ob('comment-inert', 'header lines', em.module.module.path,
                   v is not None and bad is None,
                   'header line emitted outside a comment: %s' % (
                       show(v) if v else None))
    it, states = em.drive(
        "self._specialVars = {'k': a}\nreturn self.specialVars()", ['a'],
        cls=em.module, setup=False)
    for s in states:
        v = s.val
        ps = parts(v) if v else []
        if len(ps) > 1:
            ctx.ob('special-var', 'specialVars', em.module.module.path,
                   ps[-1][0] == 'call' and callee_name(ps[-1]) == 'repr',
                   'emits %s' % show(v))


def escaped(t, var, repl):
    """Is this `var` with backslashes doubled and triple quotes replaced?"""
    if t[0] == 'call' and callee_name(t) == 'repr':
        return True
    ops = []
    while t[0] == 'call' and callee_name(t) == 'replace' and \
            t[1][0] == 'attr' and len(t[2]) == 2:
        ops.append(t[2])
        t = t[1][1]
    if t != var:
        return False
    ops.reverse()
    bs = tq = None
    for i, (a, b) in enumerate(ops):
        if a == K('\\') and b == K('\\\\'):
            bs = i
        elif a == K('"""') and is_const(b) and '"""' not in b[2] and \
                '\\' not in b[2]:
            tq = i
        elif a == K('"""') and is_const(b) and b[2] == '\\"\\"\\"':
            if bs is None:
                return False
            tq = i
        elif a == K('"') and b == K('\\"') and bs is not None:
            tq = i
    return bs is not None and tq is not None


def docstrings(ctx, em):
    for cls, attr, m, label in (
            (em.meth, '_docStringLines', 'docString', 'method'),
            (em.auto_class(), '_classDocStringLines', 'classDocstring',
             'class'),
            (em.module, '_moduleDocStringLines', 'moduleDocstring',
             'module')):
        if ctx.prog.find_method(cls, m) is None:
            raise AnalysisBroken('%s missing' % m)
        it, states = em.drive('self.%s = [a]\nreturn self.%s()' % (attr, m),
                              ['a'], cls=cls, setup=cls is em.meth,
                              opaque={'setting'})
        hit = False
        for s in states:
            v = s.val
            if v is None or s.status != 'return':
                continue
            for q in parts(v):
                if any(x == ('var', 'a') for x in walk(q)):
                    hit = True
                    ctx.ob('docstring-escaped', '%s docstring' % label,
                           cls.module.path, escaped(q, ('var', 'a'), None),
                           'a doc comment line is emitted as %s' % show(q))
        if not hit:
            raise AnalysisBroken('%s docstring text not found in %s' % (
                label, [show(s.val) for s in states if s.val]))


CHECKS = {'C07': (c07, 'literal text and comments are inert')}
