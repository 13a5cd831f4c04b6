"""C25: flow-control and assignment directives become the Python statements
they stand for.

The handler of a directive and the compiler methods it calls are interpreted
over a directive text (a table of texts chosen to tell precedence, literals
and operators apart); the readers of the parser are modelled by a position in
that text.  The syntax tree of the code that is generated is compared with
that of the statement the directive stands for.
"""
import ast
import re

from ..absint import K, NONE, callee_name, is_const, show
from ..drive import drive
from ..emit import Emitter, default_settings, stream
from ..model import AnalysisBroken
from ..parse import ParserModel
from .settings import patterns

POS = (('$',), 'at')
OPS = ['//=', '**=', '>>=', '<<=', '+=', '-=', '*=', '/=', '%=', '&=', '|=',
       '^=', '=']


def find(text, pos, what):
    """The first of the strings `what` outside brackets and literals, whose
    match is not part of a comparison."""
    depth, quote = 0, None
    i = pos
    while i < len(text):
        c = text[i]
        if quote:
            if c == quote:
                quote = None
        elif c in '\'"':
            quote = c
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif depth == 0:
            for w in what:
                if text.startswith(w, i) and not (w == '=' and (
                        text[i:i + 2] == '==' or text[i - 1] in '=!<>')):
                    return i
        i += 1
    return None


def parts_of(text):
    """Words, blanks and the rest, as the expression reader returns them."""
    out = []
    i = 0
    while i < len(text):
        m = re.compile(r'[ \t]+|[A-Za-z_]\w*').match(text, i)
        if m:
            out.append(m.group())
            i = m.end()
            continue
        c = text[i]
        if c in '\'"':
            j = text.index(c, i + 1) + 1
        elif c in '([{':
            d, j = 0, i
            while True:
                d += (text[j] in '([{') - (text[j] in ')]}')
                j += 1
                if not d:
                    break
        else:
            j = i + 1
        out.append(text[i:j])
        i = j
    return out


def reader(pm, text, short, fixed):
    """The parser's readers over a directive text (with its start token) that
    ends the source; `short`: followed by a colon and a body on its line."""
    end = len(text)
    pats = patterns(pm.prog.mod('Compiler'))

    def at(st):
        return st.heap.get(POS, K(0))[2]

    def go(st, n):
        st.heap[POS] = K(n)

    def read(st, brk):
        p = at(st)
        what = []
        colon = brk is not None and K(':') in brk
        if brk is not None and not colon:
            what = OPS
        e = find(text, p, what) if what else None
        e = end if e is None else e
        go(st, e)
        return text[p:e]

    def items(t, st):
        if t is None or t == NONE:
            return None
        if t[0] == 'tup':
            return t[1]
        return st.heap.get((t, 'items'), ())

    def hook(it, fn, a, kw, st, n):
        if fn[0] == 'attr' and fn[1][0] == 'var' and \
                fn[1][1].startswith('@ident:') and fn[2] == 'group':
            return [(st, K(fn[1][1][7:]))]
        if fn[0] == 'ext' and fn[1].startswith('re.') and len(a) > 1:
            r = it.builtin_call(fn, a, kw, st, n)
            if r is not None:
                return r
        nm = callee_name(('call', fn, (), (), None))
        k = dict(kw)
        if nm == 'setting' and a and is_const(a[0]):
            if a[0][2] in fixed:
                return [(st, K(fixed[a[0][2]]))]
            return [(st, ('tup', ()))]      # hooks and other lists: none
        if nm == 'sub' and all(is_const(x) for x in a) and not kw:
            v = [x[2] for x in a]
            if fn[0] == 'attr' and len(v) == 2:
                r = pats.get(show(fn[1]).split('.')[-1])
                v = r and [r.pattern] + v
            if v and len(v) == 3:
                return [(st, K(re.sub(*v)))]
        if fn == ('bi', 'getattr') and len(a) == 3 and is_const(a[1]) and \
                a[0][0] == 'self':
            return [(st, st.heap.get((a[0], a[1][2]), a[2]))]
        if nm in ('pushToOpenDirectivesStack', 'popFromOpenDirectivesStack',
                  '_eatRestOfDirectiveTag', 'setSetting',
                  '_filterDisabledDirectives'):
            return [(st, NONE)]
        if nm == '_applyExpressionFilters' and a:
            return [(st, a[0])]
        if nm == 'isLineClearToStartToken':
            return [(st, K(False))]
        if nm == 'findEOL':
            return [(st, K(end))]
        if nm == 'getRowCol':
            return [(st, ('tup', (K(7), K(8))))]
        if nm == 'pos' and not a:
            return [(st, K(at(st)))]
        if nm == 'getDirectiveStartToken':
            go(st, at(st) + 1)
            return [(st, K('#'))]
        if nm == 'advance':
            v = a[0] if a else k.get('offset', K(1))
            if is_const(v):
                go(st, at(st) + v[2])
                return [(st, NONE)]
        if nm == 'getWhiteSpace':
            p = at(st)
            q = p
            while q < end and text[q] in ' \t':
                q += 1
            go(st, q)
            return [(st, K(text[p:q]))]
        if nm == 'getc':
            p = at(st)
            go(st, p + 1)
            return [(st, K(text[p:p + 1]))]
        if nm == 'peek':
            p = at(st) + (a[0][2] if a and is_const(a[0]) else 0)
            return [(st, K((text + ':')[p:p + 1] if short else
                           (text + '\n')[p:p + 1]))]
        if nm == 'getExpression':
            b = items(k.get('pyTokensToBreakAt'), st)
            return [(st, K(read(st, b)))]
        if nm == 'getExpressionParts':
            b = items(k.get('pyTokensToBreakAt'), st)
            v = read(st, b)
            o = ('obj', 'list', '@parts%d' % at(st))
            st.heap[(o, 'items')] = tuple(K(x) for x in parts_of(v))
            return [(st, o)]
        if nm == 'getAssignmentOperator':
            p = at(st)
            for w in OPS:
                if text.startswith(w, p):
                    go(st, p + len(w))
                    return [(st, K(w))]
        if nm in ('matchIdentifier', 'getIdentifier'):
            m = re.compile(r'[A-Za-z_]\w*').match(text, at(st))
            if nm == 'getIdentifier':
                go(st, m.end() if m else at(st))
                return [(st, K(m.group() if m else ''))]
            if m is None:
                return [(st, NONE)]
            t = ('var', '@ident:' + m.group())
            st.conds[t] = True
            st.conds[('cmp', 'is', t, NONE)] = False
            return [(st, t)]
        if nm == 'matchColonForSingleLineShortFormDirective':
            return [(st, K(bool(short and at(st) == end)))]
        if nm == 'parse':
            it.emit(st, 'call', ('call', ('attr', ('self', 'body'),
                                          'addChunk'),
                                 (K('BODY_'),), (), None), n)
            return [(st, NONE)]
        if nm == 'addModuleGlobal' and a:
            for x in (K('MODULE_'), a[0]):
                it.emit(st, 'call', ('call', ('attr', ('self', 'module'),
                                              'addChunk'), (x,), (), None),
                        n)
            return [(st, NONE)]
        return None
    return hook


def lay_out(s, short, goes_on=False):
    """The generated text of a path, with a marker for the body of a block
    that is left open."""
    level, low, seq = 0, 0, []
    opened = False
    for nm, t, ev in stream(s):
        if nm in ('addChunk', 'indent', 'dedent'):
            opened = nm == 'indent'
        if nm == 'addChunk':
            seq.append([level, join(t)])
        elif nm == 'appendToPrevChunk' and seq:
            seq[-1][1] += join(t)
        elif nm == 'indent':
            level += 1
        elif nm == 'dedent':
            level -= 1
            low = min(low, level)
    if opened:
        seq.append([level, 'BODY_'])
    if low < 0 or goes_on:
        low = min(low, -1) if not short else low
        seq[:0] = [[low, 'if PRE_:'], [low + 1, 'BEFORE_']]
    return '\n'.join('    ' * (lv - low) + t for lv, t in seq) + '\n', level


def join(t):
    if t is None:
        return ''
    if t[0] == 'cat':
        return ''.join(join(p) for p in t[1])
    if is_const(t):
        return str(t[2])
    return '<%s>' % show(t)


def same(src, want):
    try:
        a = ast.dump(Norm().visit(ast.parse(src)))
    except SyntaxError as e:
        return '%s, which is no Python (%s)' % (src.strip(), e.msg)
    w = ast.dump(Norm().visit(ast.parse(want)))
    return None if a == w else src.strip()


class Norm(ast.NodeTransformer):
    """Loop counters and values held for the filter have no fixed name."""

    def __init__(self):
        self.names = {}

    def visit_Name(self, n):
        if n.id.startswith('__i') or n.id == '_v':
            n = ast.Name(self.names.setdefault(
                n.id, 'v%d_' % len(self.names)), n.ctx)
        return n

    def visit_Constant(self, n):
        n.kind = None
        return n


CONT = ('else', 'elif', 'except', 'finally')
COND = ['a or b', 'a if b else c', 'not a', 'x == "else if"',
        "x in ('then', 'else')", 'a and (b or c)', 'lambda_x', 'elif_x',
        'f(a, b=c)[1].d', 'x=="else  if"', 'x<y', 'anelse and iffy']
VALUES = ['a', 'a or b', "'x = y'", 'f(a=1)', 'a == b', '[1, 2]']


def table():
    """(directive, text, short form or not, statement it stands for)"""
    out = []
    for c in COND:
        for short in (False, True):
            out += [
                ('if', 'if ' + c, short, 'if %s:\n    BODY_' % c),
                ('unless', 'unless ' + c, short,
                 'if not (%s):\n    BODY_' % c),
                ('while', 'while ' + c, short, 'while %s:\n    BODY_' % c),
                ('for', 'for v, w in f(%s)' % c, short,
                 'for v, w in f(%s):\n    BODY_' % c),
                ('repeat', 'repeat f(%s)' % c, short,
                 'for __i0 in range(f(%s)):\n    BODY_' % c)]
        # the earlier branch of a block left open
        for d, t in (('elif', 'elif ' + c), ('else', 'else if ' + c),
                     ('else', 'else  if ' + c), ('else', 'else\tif ' + c)):
            out += [(d, t, x, 'if PRE_:\n    BEFORE_\nelif %s:\n    BODY_'
                     % c) for x in (False, True)]
        out += [('return', 'return ' + c, False, 'return ' + c),
                ('assert', 'assert ' + c, False, 'assert ' + c),
                ('raise', 'raise E(%s)' % c, False, 'raise E(%s)' % c),
                ('silent', 'silent f(%s)' % c, False, 'f(%s)' % c)]
    out += [
        ('else', 'else', False, 'if PRE_:\n    BEFORE_\nelse:\n    BODY_'),
        ('else', 'else', True, 'if PRE_:\n    BEFORE_\nelse:\n    BODY_'),
        ('finally', 'finally', True, 'finally:\n    BODY_'),
        ('except', 'except E', True, 'except E:\n    BODY_'),
        ('try', 'try', False, 'try:\n    BODY_\nfinally:\n    pass'),
        ('except', 'except', False, 'except:\n    BODY_'),
        ('except', 'except E', False, 'except E:\n    BODY_'),
        ('except', 'except (E, F) as e', False,
         'except (E, F) as e:\n    BODY_'),
        ('finally', 'finally', False, 'finally:\n    BODY_'),
        ('break', 'break', False, 'break'),
        ('continue', 'continue', False, 'continue'),
        ('pass', 'pass', False, 'pass'),
        ('del', 'del a, b[1]', False, 'del a, b[1]'),
        ('yield', 'yield f(a)', False, 'yield f(a)'),
        ('repeat', 'repeat 3', False, 'for __i0 in range(3):\n    BODY_'),
    ]
    for op in OPS:
        for v in VALUES:
            for lv, lg in (('n', '["n"]'), ('n.m', '["n"].m'),
                           ("n['k.l']", '["n"][\'k.l\']'),
                           ('n.m[1].k', '["n"].m[1].k'),
                           ('n[1].k', '["n"][1].k')):
                st = '%s %s %s' % (lv, op, v)
                out += [('set', 'set ' + st, False, st),
                        ('set', 'set local ' + st, False, st),
                        ('set', 'set global ' + st, False,
                         'self._CHEETAH__globalSetVars%s %s %s' % (
                             lg, op, v))]
            st = 'n %s %s' % (op, v)
            out.append(('set', 'set module ' + st, False, 'MODULE_\n' + st))
    for c in ('a', 'a or b', 'f(x, "else")'):
        for t, f in (('b', 'c'), ("'x'", "'y'"), ('f(1)', '[2]'),
                     ('a or b', 'c and d'), ('""', 'q')):
            out.append(('if', 'if %s then %s else %s' % (c, t, f), False,
                        (c, t, f)))
    return out


def c25(ctx):
    ctx.rule('statement', 'a flow-control or assignment directive generates '
             'the Python statement it stands for, over the expression as it '
             'was written, with its body in it', 300)
    ctx.rule('choice', '#if c then a else b outputs a if c holds and b '
             'otherwise', 10)
    ctx.rule('call', '#call calls its function once, with the text of its '
             'body or of every #arg and the arguments given, and outputs the '
             'result; #capture assigns the text of its body', 10)
    prog = ctx.prog
    calls(ctx, prog)
    pm = ParserModel(prog)
    fixed = default_settings(prog)
    seen = {}
    for d, text, short, want in table():
        if d not in pm.table:
            ctx.ob('statement', '#' + d, pm.mod.path, False,
                   'there is no directive #%s' % d)
            continue
        it, states = pm.run(
            'eatDirective', d, opaque={'_eatRestOfDirectiveTag'},
            max_states=4000, depth=14, exact=True, loop_max=40,
            keep=lambda e: e.kind == 'call', heap={
                (('self', pm.em.meth.qual), '_isGenerator'): K(False),
                (('self', pm.em.meth.qual), '_hasReturnStatement'):
                K(False)},
            hook=reader(pm, '#' + text, short, fixed))
        for q in it.n_inlined:
            ctx.unit('functions analysed', q)
        label = '#' + text + (' : body' if short else '')
        loc = pm.mod.path
        if not states:
            raise AnalysisBroken('no path reads %s' % label)
        seen[d] = seen.get(d, 0) + 1
        for s in states:
            if s.status == 'raise':
                ctx.ob('statement', label, loc, False, 'it is refused: %s'
                       % show(s.val)[:100])
                continue
            src, level = lay_out(s, short, d in CONT)
            if isinstance(want, tuple):
                ctx.ob('choice', label, loc, *chooses(src, want))
                continue
            if d in CONT[2:]:
                src = src.replace('if PRE_:', 'try:', 1)
                w = 'try:\n    BEFORE_\n' + want
            else:
                w = want
            if d == 'try':
                src += 'finally:\n    pass\n'
            bad = same(src, w)
            ctx.ob('statement', label, loc, bad is None,
                   'it generates %s' % bad)
            ctx.ob('statement', label + ': block', loc,
                   level == (0 if short or 'BODY_' not in w or
                             d in CONT
                             else 1),
                   'it leaves the indentation at %d' % level)
    ctx.unit('directives', ', '.join('%s (%d texts)' % x
                                     for x in sorted(seen.items())))


# ------------------------------------------------- #call, #arg, #capture

TEXT = 'self.addChunk("write(%r)")'
CALLS = [
    ('one text', ['start f', 'text T1', 'end'],
     [('f', ('T1',), {}), ('out', 'R1')]),
    ('no text', ['start f', 'end'], [('f', ('',), {}), ('out', 'R1')]),
    ('text in pieces', ['start f', 'text T1', 'text T2', 'end'],
     [('f', ('T1T2',), {}), ('out', 'R1')]),
    ('arguments given', ['start f k=1, j=n', 'text T1', 'end'],
     [('f', ('T1',), {'k': 1, 'j': 'n'}), ('out', 'R1')]),
    ('one #arg', ['start f', 'arg x', 'text T1', 'end'],
     [('f', (), {'x': 'T1'}), ('out', 'R1')]),
    ('three #args', ['start f', 'arg x', 'text T1', 'arg y', 'arg z',
                     'text T3', 'text T4', 'end'],
     [('f', (), {'x': 'T1', 'y': '', 'z': 'T3T4'}), ('out', 'R1')]),
    ('#args and arguments', ['start f k=1', 'arg x', 'text T1', 'arg y',
                             'text T2', 'end'],
     [('f', (), {'k': 1, 'x': 'T1', 'y': 'T2'}), ('out', 'R1')]),
    ('text around', ['text A', 'start f', 'text T1', 'end', 'text B'],
     [('out', 'A'), ('f', ('T1',), {}), ('out', 'R1'), ('out', 'B')]),
    ('nested', ['start f', 'text A', 'start g', 'text T1', 'end', 'text B',
                'end'],
     [('g', ('T1',), {}), ('f', ('AR1B',), {}), ('out', 'R2')]),
    ('nested in #args', ['start f', 'arg x', 'text A', 'start g', 'arg y',
                         'text T1', 'end', 'arg z', 'text B', 'end'],
     [('g', (), {'y': 'T1'}), ('f', (), {'x': 'AR1', 'z': 'B'}),
      ('out', 'R2')]),
    ('capture', ['text A', 'capture v', 'text T1', 'text T2', 'endcapture',
                 'text B', 'show v'],
     [('out', 'A'), ('out', 'B'), ('show', ('T1T2',), {})]),
    ('empty capture', ['capture v', 'endcapture', 'show v'],
     [('show', ('',), {})]),
    ('capture in #call', ['start f', 'text A', 'capture v', 'text T1',
                          'endcapture', 'text B', 'end', 'show v'],
     [('f', ('AB',), {}), ('out', 'R1'), ('show', ('T1',), {})]),
    ('#call in capture', ['capture v', 'text A', 'start f', 'text T1', 'end',
                          'endcapture', 'show v'],
     [('f', ('T1',), {}), ('show', ('AR1',), {})]),
]


def driver_of(steps):
    out = []
    for x in steps:
        w = x.split(None, 2)
        if w[0] == 'start':
            out.append('self.startCallRegion(%r, %r, (1, 2))' % (
                w[1], w[2] if len(w) > 2 else ''))
        elif w[0] == 'arg':
            out.append('self.setCallArg(%r, (1, 2))' % w[1])
        elif w[0] == 'text':
            out.append('self.addChunk(%r)' % ('write(%r)' % w[1]))
        elif w[0] == 'end':
            out.append('self.endCallRegion()')
        elif w[0] == 'capture':
            out.append('self.startCaptureRegion(%r, (1, 2))' % w[1])
        elif w[0] == 'endcapture':
            out.append('self.endCaptureRegion()')
        elif w[0] == 'show':
            out.append('self.addChunk(%r)' % ('show(%s)' % w[1]))
    return '\n'.join(out)


def calls(ctx, prog):
    em = Emitter(prog)
    fixed = default_settings(prog)
    path = prog.mod('Compiler').path
    for label, steps, want in CALLS:
        n = [100]

        def hook(it, fn, a, kw, st, node):
            nm = callee_name(('call', fn, (), (), None))
            if nm == 'setting' and a and is_const(a[0]):
                return [(st, K(fixed[a[0][2]]) if a[0][2] in fixed
                         else ('tup', ()))]
            if nm in ('randrange', 'randint'):
                n[0] += 1
                return [(st, K(n[0]))]
            return None
        it, res = em.drive(driver_of(steps), hook=hook, exact=True,
                           keep=lambda e: e.kind == 'call')
        if not res:
            raise AnalysisBroken('no path generates a #call')
        for s in res:
            if s.status == 'raise':
                ctx.ob('call', label, path, False, 'it is refused: %s'
                       % show(s.val)[:100])
                continue
            src, level = lay_out(s, False)
            try:
                ast.parse(src)
            except SyntaxError as e:
                ctx.ob('call', label, path, False, 'the code is no Python '
                       '(%s):\n%s' % (e.msg, src))
                continue
            for got in effects(prog, src):
                ctx.ob('call', label, path, got == want,
                       'it does %s instead of %s' % (got, want))


def effects(prog, src):
    """What the generated code does, in order: calls of f and g, and what is
    written to the output."""
    def hook(it, fn, a, kw, st, n):
        nm = fn[-1] if isinstance(fn[-1], str) else ''
        nm = nm.rpartition('.')[2]
        if nm == 'DummyTransaction' or 'DummyTransaction' in show(fn):
            k = (('$',), 'made')
            c = st.heap.get(k, K(0))[2] + 1
            st.heap[k] = K(c)
            t = ('var', '@t%d' % c)
            st.heap[(t, '@text')] = K('')
            return [(st, t)]
        if fn[0] == 'attr' and fn[2] == 'response':
            return [(st, ('@response', fn[1]))]
        if fn == ('var', 'write'):
            fn = ('attr', ('@response', ('var', 'trans')), 'write')
        if fn[0] == 'attr' and fn[1][0] == '@response':
            t = fn[1][1]
            if fn[2] == 'getvalue':
                return [(st, st.heap.get((t, '@text'), K('?')))]
            if fn[2] == 'write' and len(a) == 1:
                if (t, '@text') in st.heap:
                    st.heap[(t, '@text')] = K(
                        st.heap[(t, '@text')][2] + value(a[0]))
                else:
                    it.emit(st, 'did', ('call', ('var', 'out'), tuple(a),
                                        (), None), n)
                return [(st, NONE)]
        if fn in (('var', 'f'), ('var', 'g'), ('var', 'show')):
            it.emit(st, 'did', ('call', fn, tuple(a), tuple(kw), None), n)
            k = (('$',), 'results')
            c = st.heap.get(k, K(0))[2] + (fn != ('var', 'show'))
            st.heap[k] = K(c)
            return [(st, K('R%d' % c))]
        if nm == '_filter' and a:
            return [(st, a[0])]
        return None

    def value(t):
        return str(t[2]) if is_const(t) else '<%s>' % show(t)

    def plain(t):
        return t[2] if is_const(t) else t[1] if t[0] == 'var' else show(t)
    it, ends = drive(prog, 'Compiler', src, (
        'self', 'trans', 'write', '_filter', 'f', 'g', 'show', 'n'),
        exact=True, hook=hook, keep=lambda e: e.kind == 'did',
        args={x: ('var', x) for x in (
            'self', 'trans', 'write', '_filter', 'f', 'g', 'show', 'n')})
    out = []
    for s in ends:
        if s.status == 'raise':
            out.append('raise %s' % show(s.val)[:80])
            continue
        row = []
        for e in s.events:
            t = e.term
            if t[1][1] == 'out':
                row.append(('out', value(t[2][0])))
            else:
                row.append((t[1][1], tuple(plain(x) for x in t[2]),
                            {k: plain(v) for k, v in t[3]}))
        out.append(row)
    return out or ['nothing']


def chooses(src, want):
    c, t, f = want
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        return False, 'it generates %s (%s)' % (src.strip(), e.msg)
    n = tree.body[0] if len(tree.body) == 1 else None
    ok = isinstance(n, ast.If) and ast.dump(n.test) == ast.dump(
        ast.parse(c, mode='eval').body)
    for body, v in ((n.body, t), (n.orelse, f)) if ok else ():
        d = ast.dump(ast.parse(v, mode='eval').body)
        ok = ok and sum(isinstance(x, ast.expr) and ast.dump(x) == d
                        for b in body for x in ast.walk(b)) >= 1 and any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
            x.func.id == 'write' for b in body for x in ast.walk(b))
    return bool(ok), 'it generates %s' % src.strip()


CHECKS = {'C25': (c25, 'flow-control directives')}
