"""C26: expressions and argument lists are carried over as written.

The readers getExpression, getCallArgString and getDefArgList (with everything
they call) are interpreted over texts made from a grammar of forms; the
primitives of the source reader (position, next character, token, identifier)
have their documented meaning.  What they return is compared, as a Python
syntax tree, with the text itself in which every placeholder stands for its
translation."""
import ast
import re

from ..absint import K, NONE, is_const, callee_name, show
from ..drive import drive, Follow
from ..model import AnalysisBroken

POS = (('@reader',), 'pos')
NM = (('@settings',), 'useNameMapper')
OPS = sorted(['==', '!=', '<=', '>=', '**', '//', '<<', '>>', '+=', '-=',
              '*=', '/=', '|=', '&=', ':='], key=len, reverse=True)
TOKEN = re.compile(
    r"'''.*?'''|\"\"\".*?\"\"\"|'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\""
    r"|\d+(?:\.\d*)?|[A-Za-z_]\w*|" + '|'.join(
        re.escape(x) for x in OPS) + r'|.', re.S)
IDENT = re.compile(r'[A-Za-z_]\w*')


def hook_of(text, stop='#'):
    end = len(text)

    def at(st):
        return st.heap.get(POS, K(0))[2]

    def go(st, n):
        st.heap[POS] = K(n)

    def var(st, plain):
        m = re.compile(r'\$([A-Za-z_]\w*)').match(text, at(st))
        go(st, m.end())
        return m.group(1) if plain or st.heap.get(NM) == K(False) else \
            'V_' + m.group(1)

    def hook(it, fn, a, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        k = dict(kw)
        recv = fn[1] if fn[0] == 'attr' else None
        if fn[0] == 'bound':
            recv = fn[1]
        if fn[0] == 'attr' and recv[0] == '@match':
            s = recv[1]
            v = {'end': recv[2] + len(s), 'start': recv[2],
                 'group': s}.get(fn[2])
            return None if v is None else [(st, K(v))]
        if fn == ('bi', 'len') and a and a[0][0] == 'self':
            return [(st, K(end))]
        if fn == ('bi', 'eval') and a and is_const(a[0]):
            return [(st, K(ast.literal_eval(a[0][2])))]
        if nm in ('zip_longest', 'izip_longest', 'zip') and len(a) == 2 and \
                not kw:
            v = [it.known_items(x, st) for x in a]
            if None in v:
                return None
            n_ = max(len(x) for x in v)
            if nm == 'zip':
                n_ = min(len(x) for x in v)
            return [(st, ('tup', tuple(('tup', tuple(
                x[i] if i < len(x) else NONE for x in v))
                for i in range(n_))))]
        if fn[0] == 'attr' and fn[2] == 'match' and a and is_const(a[0]):
            r = re.compile(r'(?:\r\n|\r|\n)') if 'EOL' in show(recv) or \
                '\\n' in show(recv) else IDENT
            m = r.match(a[0][2], *[x[2] for x in a[1:]])
            return [(st, found(st, m))]
        if recv is None or recv[0] != 'self':
            return None
        if nm == 'setting' and a and is_const(a[0]):
            if a[0][2] == 'useNameMapper':
                return [(st, st.heap.get(NM, K(True)))]
            return None
        if nm == 'setSetting' and len(a) == 2 and a[0] == K('useNameMapper'):
            st.heap[NM] = a[1]
            return [(st, NONE)]
        if nm == 'pos' and not a:
            return [(st, K(at(st)))]
        if nm == 'src' and not a:
            return [(st, K(text))]
        if nm == 'setPos' and a and is_const(a[0]):
            go(st, a[0][2])
            return [(st, NONE)]
        if nm in ('advance', 'rev'):
            v = a[0] if a else k.get('offset', K(1))
            if is_const(v):
                go(st, at(st) + (v[2] if nm == 'advance' else -v[2]))
                return [(st, NONE)]
        if nm == 'atEnd':
            return [(st, K(at(st) >= end))]
        if nm == 'startswith' and a:
            if not is_const(a[0]):
                return [(st, K(text.startswith('$', at(st))))]
            return [(st, K(text.startswith(a[0][2], at(st))))]
        if nm == 'findEOL':
            e = text.find('\n', at(st))
            return [(st, K(end if e < 0 else e))]
        if nm == 'getRowCol':
            return [(st, ('tup', (K(1), K(at(st) + 1))))]
        if nm == 'getc':
            p = at(st)
            go(st, p + 1)
            return [(st, K(text[p:p + 1]))]
        if nm == 'peek':
            p = at(st) + (a[0][2] if a and is_const(a[0]) else 0)
            return [(st, K(text[p:p + 1]))] if p < end else \
                [(raised(st), NONE)]
        if nm == 'getWhiteSpace':
            p = q = at(st)
            while q < end and text[q] in ' \t\f':
                q += 1
            go(st, q)
            return [(st, K(text[p:q]))]
        if nm == 'matchDirectiveEndToken':
            return [(st, K(text.startswith(stop, at(st))))]
        if nm == 'matchCheetahVarInExpressionStartToken':
            return [(st, K(bool(re.compile(r'\$[A-Za-z_]').match(
                text, at(st)))))]
        if nm == 'matchCheetahVarStart':
            return [(st, K(bool(re.compile(r'\$[A-Za-z_]').match(
                text, at(st)))))]
        if nm == 'matchExpressionPlaceholderStart':
            return [(st, K(False))]
        if nm in ('getCheetahVar', 'getPlaceholder'):
            p = k.get('plain', a[0] if a and nm == 'getCheetahVar'
                      else K(False))
            return [(st, K(var(st, p == K(True))))]
        if nm == 'getPyToken':
            m = TOKEN.match(text, at(st))
            go(st, m.end())
            return [(st, K(m.group()))]
        if nm in ('matchIdentifier', 'getIdentifier'):
            m = IDENT.match(text, at(st))
            if nm == 'getIdentifier':
                go(st, m.end() if m else at(st))
                return [(st, K(m.group() if m else ''))]
            return [(st, found(st, m))]
        return None
    return hook


def found(st, m):
    if m is None:
        return NONE
    t = ('@match', m.group(), m.start())
    st.conds[t] = True
    st.conds[('cmp', 'is', t, NONE)] = False
    return t


def raised(st):
    st.status = 'raise'
    st.val = ('exc', ('var', 'IndexError'))
    return st


class Tables(Follow):
    """Follow, with the entries of constant tables of the module."""

    def e_Subscript(self, n, st):
        return [(s, self.entry(t)) for s, t in Follow.e_Subscript(
            self, n, st)]

    def may_inline(self, f, st):
        # the readers call each other, as deep as the text is nested
        return st.fr.depth < self.maxdepth and not self.is_generator(f)

    def entry(self, t):
        if t[0] == 'idx' and t[1][0] == 'glob' and is_const(t[2]):
            v = self.table(t[1][2])
            if isinstance(v, dict) and t[2][2] in v:
                return K(v[t[2][2]])
        return t

    def table(self, name):
        for x in self.prog.mod('Parser').tree.body:
            if isinstance(x, ast.Assign) and any(
                    isinstance(y, ast.Name) and y.id == name
                    for y in x.targets):
                try:
                    return ast.literal_eval(x.value)
                except ValueError:
                    return None


NAMES = ['a', '$n', '1', "'s'", "'#x $y'", 'f(1)', 'f($n, k=2)', 'x.y[0]',
         "c'p$n'", "c''", "c'p\\nq'", '(a, $n)', '[1, $n]', "{'k': $n}",
         'lambda x=1: x', '[x for x in $n]', '[(x, y) for x, y in $n if x]',
         '-a', 'not $n', "f(a)(b)[c]", "f('(', ')')", '(1)', '$n == 1']
BINARY = ['+', '==', '<=', 'or', 'in', 'if $c else', '**', 'not in', 'is']


def texts():
    out = list(NAMES)
    for x in ('a', '$n', "f($n)", "'('", "c'$n'"):
        for o in BINARY:
            for y in ('b', '$m', "[$m, 'x']"):
                out.append('%s %s %s' % (x, o, y))
    out += ['(a\nor $n)', '[1,\n 2]', '(a\n if $n\n else b)', 'f(a,\n  $n)',
            'f($n\nor 2)', "{'a': [1, (2, $n)], 'b': {}}", '((a))',
            'a \\\n + b', 'f(*a, **$n)', 'f(k = $n, j=$m)', 'f($n == 1)',
            'f($k=1)', 'f($k = $n)', 'f(x for x in $n)', 'f([x for x in $n])',
            '[f(x) for x in [y for y in $n]]', 'f(g(h($n)))', 'f()', '()',
            '[]', '{}', "f(c'a$n', c'')", "{c'a': c'$n'}", 'a[1:$n]',
            "f(']')", "['(', $n]", 'f(a)[$n]', '{x: y for x, y in $n}',
            'f(not $n)', 'f(a if $n else b)', 'f(lambda x: x)',
            "c'''a$n'''", "c' $n'", "c'$n $m '", '[1 for $x in $n]',
            '[1 for $x, $y in $n if $z]']
    return out


BREAKS = [('a', ':'), ('$n', ':'), ("{'k': $n}", ':'), ('a[1:$n]', ':'),
          ('f(lambda x: x)', ':'), ("':'", ':'), ('(a in b)', 'in'),
          ('x', 'in'), ("f(x in y)", 'in'), ("'in'", 'in'),
          ('[x for x in y]', 'in'), ('within', 'in'), ('a[f(k=1)]', '='),
          ('a.b', '='), ("x['=']", '='), ("a['k' == b]", '=')]
ARGS = ['', 'a', '$a', 'a, b', '$a, $b', 'a=1', '$a=1', 'a, b=2', 'a=1, b=2',
        '*a', '**k', 'a, *b', '*a, **k', 'a, b=2, *c, **k',
        'a=[1, 2]', "a={'x': 1, 'y': 2}", 'a=(1, 2), b=3',
        "a='x,y', b=')'", 'a=1==2', 'a=1 == 2, b=3', 'a=1<=2', 'a=x!=y, b=1',
        'a=x if y else z', 'a=f(1, k=2), b=3', 'a=$x', 'a=$x, b=[$y]',
        'a=not x', 'a=x.y[0]', 'a = 1 , b = 2 ', 'a=1,\n b=2', "a=''",
        'a=-1', 'a=None, b=None', "a=c'p', b=c''", 'a=f(x)(y), b=(1)',
        "a='=', b='='", 'a=f(k=1)', 'a=x or y, b=x and y', "a='x' 'y'",
        'a=[x for x in y], b=2']


def translate(text, nm=True):
    """The text with every placeholder and c'…' string translated; inside the
    targets of for … in and before = of a keyword a placeholder is a name."""
    def cstr(m):
        body = m.group(1) or m.group(2) or ''
        if not body:
            return "''"
        parts = []
        for p in re.split(r'(\$[A-Za-z_]\w*)', body):
            if p.startswith('$'):
                parts.append('str(%s%s)' % ('V_' if nm else '', p[1:]))
            elif p:
                parts.append(repr(p))
        return "''.join([%s])" % ','.join(parts)
    out = re.sub(r"\bc(?:'''(.*?)'''|'((?:\\.|[^'\\])*)')", cstr, text)
    res, i = '', 0
    while i < len(out):
        m = TOKEN.match(out, i)
        t = m.group()
        i = m.end()
        v = re.compile(r'[A-Za-z_]\w*').match(out, i)
        if t == '$' and v:
            i = v.end()
            plain = not nm or re.compile(r'\s*=(?!=)').match(out, i) or \
                re.search(r'\bfor [^()]*$', res) and \
                not re.search(r'\bin\b', res.rpartition('for ')[2])
            res += ('' if plain else 'V_') + v.group()
        else:
            res += t
    return res


def dump(src):
    return ast.dump(ast.parse('(%s)' % src, mode='eval'))


def c26(ctx):
    prog = ctx.prog
    ctx.rule('expression', 'an expression is read to its end and carried '
             'over as written, placeholders translated', 150)
    ctx.rule('call', 'the arguments of a call are read to the closing '
             'bracket and carried over as written', 100)
    ctx.rule('def', 'the arguments of a definition are its names in order, '
             'each with the default written for it', 30)
    ctx.rule('unclosed', 'a bracket that is not closed, or closed by another '
             'one, is reported as an error in the template', 12)
    cls = prog.cls('Parser', '_LowLevelParser')
    path = cls.module.path

    def read(text, call, stop='#'):
        it, ends = drive(prog, 'Parser', 'return ' + call, cls=cls, init={
            'heap': {(('self', cls.qual), 'cheetahVarStartToken'): K('$')}},
                         exact=True, hook=hook_of(text, stop), loop_max=60,
                         depth=14, construct=lambda c: c.name == 'ArgList',
                         keep=lambda e: False, interp=Tables)
        for q in it.n_inlined:
            ctx.unit('parser functions', q)
        if not ends:
            raise AnalysisBroken('no path reads %r' % text)
        for s in ends:
            # the marker of an argument that was not given is no value
            if not any(v and t[0] == 'cmp' and t[1] == 'is' and any(
                    is_const(x) for x in t[2:]) and not all(
                        is_const(x) for x in t[2:]) and
                       any(x[0] == 'glob' or 'Unspecified' in show(x)
                           for x in t[2:]) for t, v in s.conds.items()):
                yield s

    def judge(rule, text, rest, s, want, end=None):
        end = text if end is None else end
        if s.status == 'raise':
            ctx.ob(rule, repr(text), path, False, 'it is refused: %s' %
                   show(s.val)[:100])
            return
        if not is_const(s.val) or not isinstance(s.val[2], str):
            ctx.ob(rule, repr(text), path, False, 'what is read is not '
                   'determined by the text: %s' % show(s.val)[:150])
            return
        got, p = s.val[2], s.heap.get(POS, K(0))[2]
        try:
            ok = dump(got) == dump(want)
        except SyntaxError as e:
            ok = False
        ctx.ob(rule, repr(text), path, ok, 'it is read as %s instead of %s'
               % (got, want))
        ctx.ob(rule, repr(text) + ', its end', path, p == len(end) - rest,
               'reading ends %d characters from the end' % (len(end) - p))
        ctx.ob(rule, repr(text) + ', settings', path,
               s.heap.get(NM, K(True)) == K(True),
               'useNameMapper is left changed')

    for t in texts():
        want = translate(t)
        for tail, n in (('', 0), ('\nx', 2), ('# x', 3)):
            for s in read(t + tail, 'self.getExpression()'):
                judge('expression', t + tail, n, s, want)
        call = '(%s, z)' % t
        for s in read(call + ' x', 'self.getCallArgString()') \
                if '$k' not in t else ():
            judge('call', call + ' x', 2, s, translate(call))
        for s in read('(%s) x' % t, 'self.getExpression(enclosed=True)'):
            judge('expression', '(%s) x' % t, 2, s, '(%s)' % want)
            for s in read('(%s).b' % t, 'self.getExpression(enclosed=True)'):
                judge('expression', '(%s).b' % t, 2, s, '(%s)' % want)
    for t, brk in BREAKS:
        for u, n in ((t + tail, len(tail)) for tail in (
                brk + ' z', brk, ' ' + brk + ' z', ' %s [%s]' % (brk, brk))):
            if brk.isalpha() and u[len(t)] != ' ':
                continue
            for s in read(u, 'self.getExpression(pyTokensToBreakAt=[%r])'
                          % brk):
                judge('expression', '%s up to %r' % (u, brk), n - (
                    u[len(t)] == ' '), s, translate(t), end=u)
    for t in ('a % b', '[a % $n]', 'f(a % b)', "'%'"):
        u = '(%s)' % t
        for s in read(u + '% x', 'self.getExpression()', '%'):
            judge('expression', u + '% x, with % as the end token', 3, s,
                  translate(u), end=u + '% x')
    for t in ARGS:
        want = arguments(t)
        for tail in (': z', '\nz', '# z') if t and '\n' not in t else ():
            for s in read(' %s%s' % (t, tail), 'self.getDefArgList()'):
                got = listed(s)
                ctx.ob('def', t + tail, path, got == want,
                       'it is read as %s instead of %s' % (got, want))
                ctx.ob('def', t + tail + ', its end', path,
                       s.status == 'raise' or s.heap.get(POS) == K(
                           len(t) + 1), 'reading ends elsewhere')
        for s in read('(%s) x' % t, 'self.getDefArgList()'):
            got = listed(s)
            ctx.ob('def', '(%s)' % t, path, got == want,
                   'it is read as %s instead of %s' % (got, want))
            ctx.ob('def', '(%s), settings' % t, path, s.status == 'raise' or
                   s.heap.get(NM, K(True)) == K(True),
                   'useNameMapper is left changed')
    for t in ('(a', '[a', '{a', '(a]', '[a)', '{a)', '(a, [b)', '([a)',
              "f(a", 'f(a]', 'f([a)', 'f(g(a)'):
        for s in read(t, 'self.getExpression()'):
            refused(ctx, t, path, s)
        if t.startswith('(') or t.startswith('f('):
            u = t.lstrip('f')
            for s in read(u, 'self.getCallArgString()'):
                refused(ctx, u + ' (call)', path, s)


def refused(ctx, t, path, s):
    v = show(s.val) if s.status == 'raise' else ''
    ctx.ob('unclosed', repr(t), path, s.status == 'raise' and
           'ParseError' in v, 'it is read as %s' % show(s.val)[:80])


def arguments(t):
    """[(name, default)] of an argument list, by Python's own parser."""
    src = translate(t.replace('$', ''), False)
    f = ast.parse('def f(%s): pass' % src).body[0].args
    out = []
    n = len(f.args) - len(f.defaults)
    for i, x in enumerate(f.args):
        d = f.defaults[i - n] if i >= n else None
        out.append((x.arg, d and ast.dump(d)))
    if f.vararg:
        out.append(('*' + f.vararg.arg, None))
    for x, d in zip(f.kwonlyargs, f.kw_defaults):
        out.append((x.arg, d and ast.dump(d)))
    if f.kwarg:
        out.append(('**' + f.kwarg.arg, None))
    return out


def listed(s):
    if s.status == 'raise':
        return 'refused: %s' % show(s.val)[:100]
    v = s.val
    items = v[1] if v[0] == 'tup' else s.heap.get((v, 'items'))
    if items is None:
        return show(v)[:200]
    out = []
    for x in items:
        p = x[1] if x[0] == 'tup' else s.heap.get((x, 'items'), ())
        if len(p) != 2 or not all(is_const(y) for y in p):
            return show(v)[:200]
        d = p[1][2]
        try:
            out.append((p[0][2], d and ast.dump(ast.parse(
                d, mode='eval').body)))
        except SyntaxError:
            out.append((p[0][2], d))
    return out


CHECKS = {'C26': (c26, 'expressions and argument lists')}
