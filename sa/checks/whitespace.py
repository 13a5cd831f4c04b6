"""C23: what a directive or comment takes away of the lines it stands on.

The parser is interpreted over abstract layouts.  A layout fixes what stands
before a tag on its line (only blanks, or something else) and what follows it
(the end of the line or of the source, the closing token, a comment); the
readers of the scanner answer from the layout, and positions are abstract
points of it.  What is compared is the point where parsing goes on and whether
the blanks before the tag have been taken away when the tag has been read.
"""
import ast

from ..absint import K, NONE, callee_name, is_const, show
from ..drive import Follow
from ..model import AnalysisBroken
from ..par import parallel
from ..parse import ParserModel, READERS

START, TAG = 0, 50
POS = (('$',), 'pos')
CHARS = ('\ue0ff', '(')         # characters that end no line
BLANKS = (('$',), 'blanks')
LATE = (('$',), 'emitted')


class Layout(object):
    """Points: START, TAG (anywhere in the tag up to its end), then what
    follows it up to `eol`, the first end of a line; `nl` is after it."""

    def __init__(self, name, clear, follows, single=False):
        self.name, self.clear, self.follows = name, clear, follows
        self.single = single
        if follows == 'eol':
            self.eol = TAG
        elif follows == 'eof':
            self.eol = TAG
        elif follows == 'token+eol':
            self.eol = TAG + 1
        else:
            self.eol = 100
        self.end = self.eol if follows == 'eof' else 1000
        self.nl = self.eol if follows == 'eof' else self.eol + 1


LAYOUTS = [Layout(('blanks, ' if c else 'text, ') + 'tag, ' + f, c, f)
           for c in (True, False)
           for f in ('eol', 'eof', 'token', 'token+eol', 'comment', 'text')]


def expected(lay):
    """(point where parsing goes on, blanks taken away)"""
    f = lay.follows
    if f == 'eof':
        return lay.end, lay.clear
    if f in ('token', 'token+eol'):
        return TAG + 1, False
    if f == 'text':
        return TAG, False
    if f == 'eol':
        return (lay.nl, True) if lay.clear else (lay.eol, False)
    if f == 'comment':
        return (lay.nl, True) if lay.clear else (lay.eol, False)


def reader(lay, emitting=(), next_def=False, char=CHARS[0]):
    """The scanner over a layout, as a hook of the interpreter."""
    def get(st):
        return st.heap.get(POS, K(START))[2]

    def put(st, p):
        st.heap[POS] = K(p)

    def num(a, d=None):
        if a is None or a == NONE:
            return d
        if is_const(a) and isinstance(a[2], int):
            return a[2]
        return None

    def hook(it, fn, args, kw, st, n):
        nm = callee_name(fn)
        kw = dict(kw or ())
        p = get(st)
        if nm == 'handleWSBeforeDirective':
            if LATE not in st.heap:
                st.heap[BLANKS] = K(True)
            return None
        if nm in emitting and is_compiler(fn):
            st.heap[LATE] = K(nm)
        if nm == 'parse' and fn[0] == 'bound':
            to = num(args[0] if args else kw.get('breakPoint'))
            if to is not None:
                put(st, to)
            return None
        if nm == 'pos' and not args:
            return [(st, K(p))]
        if nm == 'setPos' and len(args) == 1 and num(args[0]) is not None:
            put(st, num(args[0]))
            return [(st, NONE)]
        if nm in ('advance', 'rev', 'getc', 'getWhiteSpace') or (
                nm in READERS and nm not in ('readToEOL', 'readTo')) or \
                nm == 'getDirectiveStartToken':
            if p < TAG:
                put(st, TAG)
            return None
        if nm in ('isLineClearToStartToken', 'isLineClearToPos'):
            q = num(args[0] if args else kw.get('pos'), p)
            return [(st, K(bool(lay.clear and q == START)))]
        if nm == 'findEOL':
            g = args[1] if len(args) > 1 else kw.get('gobble', K(False))
            if not is_const(g):
                return None
            return [(st, K(lay.nl if g[2] else lay.eol))]
        if nm == 'readToEOL':
            g = args[1] if len(args) > 1 else kw.get('gobble', K(True))
            if not is_const(g) or p > lay.eol:
                return None
            put(st, lay.nl if g[2] else lay.eol)
            return [(st, ('var', '@line'))]
        if nm == 'readTo':
            to = num(args[0] if args else kw.get('to'))
            if to is not None:
                put(st, to)
            return [(st, ('var', '@text'))]
        if nm == 'atEnd':
            return [(st, K(p >= lay.end))]
        if nm == 'peek' and not args:
            if p == lay.eol and lay.eol < lay.end:
                return [(st, K('\n'))]
            return [(st, K(char))]
        if nm == 'matchDirectiveEndToken':
            return [(st, K(p == TAG and lay.follows.startswith('token')))]
        if nm == 'getDirectiveEndToken':
            put(st, TAG + 1)
            return [(st, ('var', '@token'))]
        if nm == 'matchCommentStartToken':
            return [(st, K(p == TAG and lay.follows == 'comment'))]
        if nm == 'getCommentStartToken':
            put(st, TAG + 2)
            return [(st, ('var', '@token'))]
        if nm == 'matchDirective' and (('$',), 'dname') not in st.heap:
            comment = p == TAG and lay.follows == 'comment'
            return [(st, K('def' if next_def and not comment else False))]
        if nm == 'eatDirective':
            return [(st, NONE)]
        if nm == 'matchColonForSingleLineShortFormDirective':
            return [(st, K(lay.single))]
        return None
    return hook


def is_compiler(fn):
    """A method of the compiler the parser works for."""
    return '_compiler' in repr(fn) or 'Cheetah.Compiler:' in repr(fn)


def emitting_methods(prog):
    """Names of the methods of the compilers that put code after the pending
    literal text (and so fix that text), directly or through others."""
    mod = prog.mod('Compiler')
    uses = {}
    for c in mod.classes.values():
        for m in c.methods.values():
            uses.setdefault(m.name, set()).update(
                x.attr for x in ast.walk(m.node)
                if isinstance(x, ast.Attribute))
    out = {n for n, u in uses.items() if n == 'commitStrConst'}
    if not out:
        raise AnalysisBroken('no method fixes the pending literal text')
    while True:
        more = {n for n, u in uses.items() if u & out} - out
        if not more:
            return out
        out |= more


def outcomes(pm, d, lay, emitting):
    """(point where parsing goes on, blanks taken away) of every path that
    reads the tag"""
    sts = []
    for c in CHARS:
        sts += pm.run('eatDirective', dname=d, inline_compiler=False,
                      loop_max=0, max_states=40000,
                      hook=reader(lay, emitting, d == '@', c),
                      keep=lambda e: e.kind == 'call')[1]
    out = set()
    for s in sts:
        if s.status == 'raise':
            continue
        seq = tuple(callee_name(e.term[1]) for e in s.events)
        if d != 'slurp' and 'getDirectiveStartToken' not in seq:
            continue
        out.add((s.heap.get(POS, K(START))[2], BLANKS in s.heap))
    if lay.single:              # not the forms that have no short form
        out = {r for r in out if r[0] > TAG} or out
    return out


def point(lay, p):
    names = {TAG: 'the end of the tag', lay.eol: 'the end of the line',
             lay.nl: 'the next line', START: 'the start of the tag'}
    if lay.follows.startswith('token'):
        names[TAG + 1] = 'the text after the closing token'
    return names.get(p, 'point %s' % p)


def told(lay, r):
    return 'parsing goes on at %s and the blanks before the tag are %s' % (
        point(lay, r[0]), 'taken away' if r[1] else 'kept')


def compare(what, lay, got, want, loc):
    bad = sorted(told(lay, r) for r in got - {want})
    if not got:
        raise AnalysisBroken('no path through %s on %s' % (what, lay.name))
    return ('%s: %s' % (what, lay.name), loc, not bad, '%s, instead of: %s' % (
        '; '.join(bad), told(lay, want)))


# the rest of the line belongs to these, with the end of the line
WHOLE_LINE = ('slurp', 'shBang', 'encoding')
# the short form: where its body ends, and whether the tag and its body are
# removed as a line of their own
SHORT_TO_NL = ('if', 'unless', 'for', 'while', 'repeat', 'try', 'else',
               'elif', 'except', 'finally', 'cache', 'defmacro')
SHORT_TO_EOL = ('call', 'filter', 'capture', 'raw')
SHORT_LINE = ('def', 'block', 'closure')


def directive(pm, d, emitting):
    out = []
    loc = 'Cheetah/Parser.py'
    em = emitting - {'setBaseClass'} if d == 'extends' else emitting
    for lay in LAYOUTS:
        got = outcomes(pm, d, lay, em)
        want = expected(lay)
        if d in WHOLE_LINE:
            got = {(p, b if d == 'slurp' else lay.clear) for p, b in got}
            want = (lay.nl, lay.clear)
        out.append(('tags',) + compare('#' + d, lay, got, want, loc))
    short = d in SHORT_TO_NL + SHORT_TO_EOL + SHORT_LINE
    for clear in (True, False) if short else ():
        lay = Layout('short form after ' + ('blanks' if clear else 'text'),
                     clear, 'text', True)
        # the code of a definition is that of another method
        got = outcomes(pm, d, lay, em if d not in SHORT_LINE else ())
        want = (lay.nl, False) if d in SHORT_TO_NL else (lay.eol, False)
        if d in SHORT_LINE:
            want = (lay.nl, True) if clear else (lay.eol, False)
        out.append(('short',) + compare('#' + d, lay, got, want, loc))
    return out


# ------------------------------------------------------------- comments ----
def comment(ctx, pm, emitting):
    f = pm.prog.find_method(pm.hi, 'eatComment')
    if f is None:
        raise AnalysisBroken('eatComment missing')
    for clear in (True, False):
        lay = Layout('## comment after ' + ('blanks' if clear else 'text'),
                     clear, 'text')
        base = reader(lay, emitting)

        def hook(it, fn, args, kw, st, n, base=base):
            if callee_name(fn) == 'getCommentStartToken':
                st.heap[POS] = K(TAG)
                return [(st, ('var', '@token'))]
            return base(it, fn, args, kw, st, n)
        it, sts = pm.run('eatComment', inline_compiler=False, hook=hook,
                         loop_max=0, keep=lambda e: e.kind == 'call')
        got = {(s.heap.get(POS, K(START))[2], BLANKS in s.heap)
               for s in sts if s.status != 'raise'}
        ctx.ob('comments', *compare(
            '##', lay, got, (lay.nl, True) if clear else (lay.eol, False),
            f.module.path))


# the parts of a multi-line comment after its first token: the whole comment
# is what stands before the last part
NESTINGS = (('*#',), ('x', '*#'), ('x', 'x', '*#'), ('#*', '*#', '*#'),
            ('#*', 'x', '*#', '*#'), ('x', '#*', '*#', 'x', '*#'),
            ('#*', '*#', '#*', '*#', '*#'),
            ('#*', '#*', '*#', '*#', '*#'), ('x', '#*', 'x', '*#', 'x', '*#'))


def multiline(ctx, pm, emitting):
    f = pm.prog.find_method(pm.hi, 'eatMultiLineComment')
    if f is None:
        raise AnalysisBroken('eatMultiLineComment missing')
    for parts in NESTINGS:
        ends = len(parts)       # the points of the comment are 1 .. ends + 1
        for clear in (True, False):
            for follows in ('eol', 'text'):
                for gobble in (True, False):
                    label = '%s#*%s then %s%s' % (
                        'blanks, ' if clear else 'text, ', ''.join(parts),
                        follows, '' if gobble else ', kept apart')
                    lay = Layout(label, clear, follows)
                    got, read = ml_run(pm, parts, lay, gobble, emitting)
                    pos = ends + 1
                    want = (pos, False)
                    if gobble and follows == 'eol':
                        want = (lay.nl, True) if clear else (lay.eol, False)
                    bad = sorted(told(lay, r) if r[0] != pos else
                                 'parsing goes on after it and blanks are '
                                 + ('removed' if r[1] else 'kept')
                                 for r in got - {want})
                    ctx.ob('comments', label, f.module.path,
                           bool(got) and not bad, '; '.join(bad)[:300] or
                           'its end is not found')
                    ctx.ob('comments', label + ' (text)', f.module.path,
                           read == {(1, ends)}, 'the comment is read as the '
                           'parts %s' % sorted(read))


def ml_run(pm, parts, lay, gobble, emitting):
    base = reader(lay, emitting)
    reads = set()

    def at(st):
        p = st.heap.get(POS, K(START))[2]
        return parts[p - 1] if 1 <= p <= len(parts) else ''

    def hook(it, fn, args, kw, st, n):
        nm = callee_name(fn)
        p = st.heap.get(POS, K(START))[2]
        if nm == 'getMultiLineCommentStartToken':
            st.heap[POS] = K(1 if p == START else p + 1)
            return [(st, ('var', '@token'))]
        if nm == 'getMultiLineCommentEndToken' or \
                nm in ('advance', 'getc') and p <= len(parts):
            st.heap[POS] = K(p + 1)
            return [(st, ('var', '@token'))]
        if nm == 'matchMultiLineCommentStartToken':
            return [(st, K(at(st) == '#*'))]
        if nm == 'matchMultiLineCommentEndToken':
            return [(st, K(at(st) == '*#'))]
        if nm == 'setting' and args and args[0] == K(
                'gobbleWhitespaceAroundMultiLineComments'):
            return [(st, K(gobble))]
        if nm in ('strip', 'isspace', 'rstrip', 'lstrip') and not args and \
                'self' in repr(fn)[:400]:
            blank = lay.follows == 'eol'
            return [(st, K(blank if nm == 'isspace' else
                           '' if blank else 'x'))]
        if nm == 'readTo':
            k = dict(kw or ())
            to = args[0] if args else k.get('to')
            start = args[1] if len(args) > 1 else k.get('start', K(p))
            if is_const(to) and is_const(start):
                reads.add((start[2], to[2]))
        if nm == 'atEnd':
            return [(st, K(False))]
        return base(it, fn, args, kw, st, n)
    it, sts = pm.run('eatMultiLineComment', inline_compiler=False, hook=hook,
                     loop_max=12, depth=9, keep=lambda e: e.kind == 'call')
    got = {(s.heap.get(POS, K(START))[2], BLANKS in s.heap)
           for s in sts if s.status != 'raise'}
    return got, reads


# -------------------------------------------- bodies that are not parsed ----
BODY, LINE, MARK = 10, 20, 30


def body(ctx, pm):
    """_eatToThisEndDirective: the text up to the #end of that directive"""
    f = pm.prog.find_method(pm.hi, '_eatToThisEndDirective')
    if f is None:
        raise AnalysisBroken('_eatToThisEndDirective missing')
    for lay in LAYOUTS:
        if lay.follows == 'comment':
            continue
        for n, other in ((0, False), (1, False), (2, False), (3, True)):
            got, text = body_run(pm, f, lay, n, other)
            want = expected(lay)[0]
            label = '%d characters, %s' % (n, lay.name.replace('tag', '#end'))
            if other:
                label = 'the #end of another directive, then ' + label
            bad = sorted('parsing goes on at %s instead of %s' % (
                point(lay, p), point(lay, want)) for p in got if p != want)
            ctx.ob('bodies', label, f.module.path, bool(got) and not bad,
                   '; '.join(bad))
            first = BODY if n else MARK
            if lay.clear and not n:
                first = LINE
            end = LINE if lay.clear else MARK
            ctx.ob('bodies', label + ' (text)', f.module.path,
                   text == {(first, end)}, 'the body is the text %s instead '
                   'of %s' % (sorted(text, key=repr), (first, end)))


def body_run(pm, f, lay, n, other=False):
    """other: the body starts with the #end of another directive"""
    base = reader(lay)
    start = BODY if n else (LINE if lay.clear else MARK)
    texts = set()

    def hook(it, fn, args, kw, st, node):
        nm = callee_name(fn)
        p = st.heap.get(POS, K(START))[2]
        k = dict(kw or ())
        if nm == 'handleWSBeforeDirective':
            # the pending text is that before the whole directive
            st.heap[POS] = K(-1)
            return [(st, NONE)]
        if nm == 'setting':
            return [(st, K('#'))]
        if nm == 'startswith':
            return [(st, K(p >= MARK))]
        if nm == 'peek' and not args and p <= MARK:
            return [(st, K('#') if p == MARK or other and p == BODY
                     else K('x'))]
        if nm == 'matchDirective':
            return [(st, K('end') if p == MARK or other and p == BODY
                     else K(False))]
        if other and p < LINE and (
                nm in ('getDirectiveStartToken', 'getWhiteSpace') or
                nm == 'advance' and args):
            if p == BODY:
                st.heap[POS] = K(BODY + 1)
            return [(st, NONE)]
        if nm == 'findBOL':
            return [(st, K(LINE))]
        if nm in ('isLineClearToStartToken', 'isLineClearToPos'):
            q = args[0] if args else k.get('pos', K(p))
            return [(st, K(bool(lay.clear and q == K(MARK))))]
        if nm == 'advance' and p < MARK:
            q = p + 1
            if q >= BODY + n and q < LINE:
                q = LINE if lay.clear else MARK
            elif q > LINE:
                q = MARK
            st.heap[POS] = K(q)
            return [(st, NONE)]
        if nm in ('getDirectiveStartToken', 'advance', 'getWhiteSpace') and \
                p >= MARK:
            if p < TAG:
                st.heap[POS] = K(TAG)
            return [(st, NONE)]
        if nm == 'atEnd' and p < TAG:
            return [(st, K(False))]
        if nm == 'readTo':
            to = args[0] if args else k.get('to')
            s0 = args[1] if len(args) > 1 else k.get('start', K(p))
            st.heap[POS] = to
            return [(st, ('text', s0, to))]
        return base(it, fn, args, kw, st, node)
    it, sts = pm.run('_eatToThisEndDirective', inline_compiler=False,
                     hook=hook, loop_max=8, args={
                         [a.arg for a in f.node.args.args][1]: K('u_d')},
                     heap={POS: K(start)},
                     keep=lambda e: e.kind == 'call')
    got = set()
    for s in sts:
        if s.status == 'raise':
            continue
        got.add(s.heap.get(POS, K(START))[2])
        v = s.val
        texts.add((v[1][2], v[2][2]) if v and v[0] == 'text' and
                  is_const(v[1]) and is_const(v[2]) else show(v))
    return got, texts


# ----------------------------------------------------------- plain text ----
MATCHERS = {
    'matchCommentStartToken': 'eatComment',
    'matchMultiLineCommentStartToken': 'eatMultiLineComment',
    'matchVariablePlaceholderStart': 'eatPlaceholder',
    'matchExpressionPlaceholderStart': 'eatPlaceholder',
    'matchDirective': 'eatDirective',
    'matchPSPStartToken': 'eatPSP',
    'matchEOLSlurpToken': 'eatEOLSlurpToken',
}
TOKENS = ('commentStartToken', 'multiLineCommentStartToken',
          'cheetahVarStartToken', 'directiveStartToken', 'PSPStartToken',
          'EOLSlurpToken')


CUTTERS = ('strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines',
           'partition', 'rpartition', 'expandtabs', 'lower', 'upper')


def plain(ctx, pm):
    """eatPlainText: the text up to the next token or the end, and only it"""
    f = pm.prog.find_method(pm.hi, 'eatPlainText')
    if f is None:
        raise AnalysisBroken('eatPlainText missing')
    for n in (1, 2, 3):
        for token in (True, False):
            def hook(it, fn, args, kw, st, node):
                nm = callee_name(fn)
                p = st.heap.get(POS)[2]
                k = dict(kw or ())
                if nm == 'pos':
                    return [(st, K(p))]
                if nm in ('advance', 'getc'):
                    st.heap[POS] = K(p + 1)
                    return [(st, NONE)]
                if nm == 'atEnd':
                    return [(st, K(not token and p >= n))]
                if nm == 'matchTopLevelToken':
                    return [(st, K(True) if token and p >= n else NONE)]
                if nm == 'readTo':
                    to = args[0] if args else k.get('to')
                    s0 = args[1] if len(args) > 1 else k.get('start', K(p))
                    st.heap[POS] = to
                    return [(st, ('text', s0, to))]
                return None
            it, sts = pm.run('eatPlainText', inline_compiler=False,
                             hook=hook, loop_max=6, heap={POS: K(0)},
                             keep=lambda e: e.kind == 'call')
            label = '%d characters before %s' % (
                n, 'a token' if token else 'the end')
            if not sts:
                raise AnalysisBroken('no path through eatPlainText')
            for s in sts:
                adds = [e.term for e in s.events if callee_name(
                    e.term[1]) in ('addStrConst', 'addRawText')]
                text = [x for a in adds for x in walk(a)
                        if isinstance(x, tuple) and x and x[0] == 'text']
                if any(x[0] == 'idx' or x[0] == 'attr' and x[2] in CUTTERS
                       for a in adds for x in walk(a)
                       if isinstance(x, tuple) and len(x) > 2):
                    text = None
                ctx.ob('plain', label, f.module.path, s.status != 'raise' and
                       len(adds) == 1 and text == [('text', K(0), K(n))] and
                       s.heap.get(POS) == K(n),
                       'the text output is %s, and parsing goes on at '
                       'character %s' % ([show(a)[:80] for a in adds],
                                         show(s.heap.get(POS))))


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in walk(x):
                yield y


def tokens(ctx, pm):
    """Whatever ends a literal text is then parsed as what it starts."""
    prog = pm.prog
    f = prog.find_method(pm.hi, 'parse')
    g = prog.find_method(pm.hi, 'matchTopLevelToken')
    if f is None or g is None:
        raise AnalysisBroken('parse or matchTopLevelToken missing')
    chars, matchers = configured(pm)
    eaters = set(MATCHERS.values()) | {'eatPlainText'}
    for m in sorted(MATCHERS) + [None]:
        def hook(it, fn, args, kw, st, node):
            nm = callee_name(fn)
            if nm in MATCHERS:
                return [(st, K(nm == m))]
            if nm == 'atEnd':
                return [(st, K((('$',), 'fed') in st.heap))]
            if nm in eaters:
                st.heap[(('$',), 'fed')] = K(True)
                st.heap[(('$',), 'eater')] = K(nm)
                return [(st, NONE)]
            if nm == 'peek':
                return [(st, K('\x01' if m is None else chars[:1]))]
            return None
        it, sts = pm.run('parse', inline_compiler=False, hook=hook,
                         loop_max=3, keep=lambda e: False)
        want = MATCHERS.get(m, 'eatPlainText')
        got = {s.heap.get((('$',), 'eater'), NONE)[2] for s in sts
               if s.status != 'raise'}
        ctx.ob('tokens', '%s in parse()' % (m or 'no token'),
               f.module.path, got == {want},
               'it is parsed by %s instead of %s' % (
                   ', '.join(sorted(map(str, got))), want))
        if m is None:
            continue
        ctx.ob('tokens', '%s ends a text' % m, g.module.path, m in matchers,
               'a literal text goes on over it')
    for t in TOKENS:
        c = FIRST[t]
        ctx.ob('tokens', '%s is looked for' % t, g.module.path, c in chars,
               'matchTopLevelToken does not look at characters that start it')


FIRST = {t: chr(0xe000 + i) for i, t in enumerate(TOKENS)}


def configured(pm):
    """What configureParser sets for matchTopLevelToken: the characters it
    looks at, the matchers it asks"""
    f = pm.prog.find_method(pm.lo, 'configureParser')
    if f is None:
        raise AnalysisBroken('configureParser missing')

    def hook(it, fn, args, kw, st, node):
        nm = callee_name(fn)
        if nm == 'setting' and args and is_const(args[0]) and \
                args[0][2] in FIRST:
            return [(st, K(FIRST[args[0][2]] + 'rest'))]
        return None
    g = pm.prog.find_method(pm.hi, 'matchTopLevelToken')
    used = [x.attr for x in ast.walk(g.node) if isinstance(x, ast.Attribute)]
    it = pm.interp(hook=hook, keep=lambda e: False)
    chars, matchers = None, None
    for s in it.run(f, selfcls=pm.lo):
        if s.status == 'raise':
            continue
        for (o, a), v in s.heap.items():
            if a not in used:
                continue
            if is_const(v) and isinstance(v[2], str):
                c = set(v[2])
                chars = c if chars is None else chars & c
            items = v[1] if v[0] == 'tup' else s.heap.get((v, 'items'))
            if items:
                ms = {callee_name(x) for x in items}
                matchers = ms if matchers is None else matchers & ms
    if chars is None or matchers is None:
        raise AnalysisBroken('what ends a literal text was not found')
    return ''.join(sorted(chars)), matchers


# --------------------------------------------- the blanks taken away ----
BEFORE = (((), ()), (('',), ('',)), (('  ',), ('',)), (('a\n  ',), ('a\n',)),
          (('a\n',), ('a\n',)), (('a\r\n \t',), ('a\r\n',)),
          (('a\r ',), ('a\r',)), (('\n\n ',), ('\n\n',)),
          (('x ', 'a\n '), ('x ', 'a\n')), (('x\n', ' '), ('x\n', '')),
          (('a\n \r ',), ('a\n \r',)), (('a\r \n ',), ('a\r \n',)))


def blanks(ctx, pm):
    prog = pm.prog
    c = prog.mod('Compiler').classes.get('MethodCompiler')
    f = c and prog.find_method(c, 'handleWSBeforeDirective')
    if f is None:
        raise AnalysisBroken('handleWSBeforeDirective missing')
    self_t = ('self', c.qual)
    for given, want in BEFORE:
        o = ('obj', 'list', '@pending')
        key = (self_t, '_pendingStrConstChunks')
        it = Follow(prog, exact=True)
        sts = it.run(f, selfcls=c, init={'heap': {
            (o, 'items'): tuple(K(x) for x in given), key: o}})
        for s in sts:
            v = s.heap.get(key, o)
            items = s.heap.get((v, 'items'))
            got = None if items is None else ''.join(
                x[2] if is_const(x) else '?' for x in items)
            ctx.ob('blanks', 'after %r' % (''.join(given),), f.module.path,
                   s.status != 'raise' and got == ''.join(want),
                   'the text before becomes %r instead of %r' % (
                       got, ''.join(want)))


def c23(ctx):
    ctx.rule('tags', 'a directive on a line of its own takes the line away, '
             'with the blanks before it and its end; any other takes away '
             'its tag only', 400)
    ctx.rule('short', 'the body of a short form is the rest of its line', 30)
    ctx.rule('comments', 'a comment takes away itself, its whole line if it '
             'is alone there, and ends at its own end token', 60)
    ctx.rule('bodies', 'a body that is not parsed ends where its #end line '
             'begins, or at #end after other text; text before the directive '
             'is left alone', 30)
    ctx.rule('plain', 'literal text is output up to the next token', 6)
    ctx.rule('tokens', 'all that ends a literal text is parsed as what it '
             'starts, and the other way round', 20)
    ctx.rule('blanks', 'the blanks taken away are those after the last line '
             'end', 12)
    pm = ParserModel(ctx.prog)
    em = emitting_methods(ctx.prog)
    jobs = [d for d in sorted(pm.table) if d != 'breakpoint']
    for d, res in zip(jobs, parallel(lambda d: directive(pm, d, em), jobs)):
        for r in res:
            ctx.ob(*r)
        ctx.unit('directive', d)
    comment(ctx, pm, em)
    multiline(ctx, pm, em)
    body(ctx, pm)
    plain(ctx, pm)
    tokens(ctx, pm)
    blanks(ctx, pm)


CHECKS = {'C23': (c23, 'lines taken away by directives and comments')}
