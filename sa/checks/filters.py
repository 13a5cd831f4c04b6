"""C27: what the supplied filters make of a value.

Every filter method is interpreted over forms of values: an unknown value
that is None, text, or neither (all paths), and known texts made from the
characters the filter treats specially."""
import ast
import html
import itertools
import re

from ..absint import K, NONE, is_const, callee_name, show
from ..drive import drive, Follow
from ..model import AnalysisBroken

BLANKS = ' \t\n\r\x0b\x0c\x1c\x85\xa0\u2028'
BASE = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
MORE = {' ': '&nbsp;', '"': '&quot;'}


def websafe(t, also=''):
    d = {k: MORE.get(k, '&#%d;' % ord(k)) for k in also}
    d.update(BASE)
    return ''.join(d.get(c, c) for c in t)


def strip(t):
    return '\n'.join(x.strip() for x in t.split('\n'))


def squeeze(t):
    return ' '.join(t.split())


def texts(chars, words=('a',), n=3):
    out = ['']
    for k in range(1, n + 1):
        for c in itertools.product(tuple(chars) + tuple(words), repeat=k):
            out.append(''.join(c))
    return out


CASES = [('Filter', t, {}, t) for t in
         ('', 'a', ' a\n', '&<>', '\u1234', '\x00')]
CASES += [(c, t, {}, t) for c in ('RawOrEncodedUnicode', 'EncodeUnicode')
          for t in ('', ' a&\n', '\u1234')]
CASES += [('MaxLen', t, k, t[:k['maxlen']] if 'maxlen' in k else t)
          for t in ('', 'a', 'abc', ' ab ', 'abcdef')
          for k in [{}] + [{'maxlen': i} for i in range(8)]]
CASES += [('WebSafe', t, {}, websafe(t))
          for t in texts('&<>"', ('a', ' ', ';'), 3)]
CASES += [('WebSafe', t, {'also': a}, websafe(t, a))
          for t in ('&', '<>', '" a', '&amp;', 'a"b;c#', "it's", 'x &lt; y')
          for a in ('', '"', ' ', '" ', "'", '&', ';', '&#;', '<', 'a',
                    'amp;', '">')]
CASES += [('Strip', t, {}, strip(t)) for t in texts('\n ', ('a', '\t'), 4)]
CASES += [('Strip', 'a%sb%s\n%sc' % (b, b, b), {},
           strip('a%sb%s\n%sc' % (b, b, b))) for b in BLANKS]
CASES += [('StripSqueeze', t, {}, squeeze(t))
          for t in texts('\n ', ('a', 'b\t'), 4)]
CASES += [('StripSqueeze', '%sa%s%sb%s' % (b, b, b, b), {}, 'a b')
          for b in BLANKS]


def hook(it, fn, a, kw, st, n):
    nm = callee_name(('call', fn, (), (), None))
    if fn in (('bi', 'unicode'), ('bi', 'str'), ('bi', 'ord'), ('bi', 'chr')) \
            or nm in ('unicode', 'text_type'):
        if len(a) == 1 and is_const(a[0]) and not kw:
            f = {'ord': ord, 'chr': chr}.get(nm, str)
            return [(st, K(f(a[0][2])))]
        if len(a) == 1 and not kw and nm in ('unicode', 'str', 'text_type'):
            return [(st, ('call', ('bi', 'str'), (a[0],), (), None))]
    if fn == ('bi', 'isinstance') and len(a) == 2 and is_const(a[0]) and \
            re.search('unicode|str|text', show(a[1])):
        return [(st, K(isinstance(a[0][2], str)))]
    if fn[0] == 'attr' and fn[2] == 'translate' and is_const(fn[1]) and \
            len(a) == 1 and a[0][0] == 'obj':
        d = st.heap.get((a[0], 'items'))
        if d is not None and all(is_const(y) for x in d for y in x):
            return [(st, K(fn[1][2].translate({
                x[2]: y[2] for x, y in d})))]
    if fn == ('bi', 'len') and len(a) == 1 and is_const(a[0]) and \
            isinstance(a[0][2], str):
        return [(st, K(len(a[0][2])))]
    if fn[0] == 'ext' and not kw and all(is_const(x) for x in a):
        v = [x[2] for x in a]
        if fn[1] == 're.sub':
            return [(st, K(re.sub(*v)))]
        if fn[1] == 're.split':
            return [(st, ('tup', tuple(K(x) for x in re.split(*v))))]
    if fn[0] == 'ext' and fn[1] in ('html.escape', 'cgi.escape') and a and \
            is_const(a[0]):
        q = dict(kw).get('quote', a[1] if len(a) > 1 else K(
            fn[1] == 'html.escape'))
        if is_const(q):
            return [(st, K(html.escape(a[0][2], bool(q[2]))))]
    return None


class Text(Follow):
    def e_Name(self, n, st):
        return [(s, self.table(t, s)) for s, t in Follow.e_Name(self, n, st)]

    def table(self, t, st):
        """A constant table of the module, as a dictionary."""
        if t[0] != 'glob':
            return t
        for x in self.prog.mod('Filters').tree.body:
            if isinstance(x, ast.Assign) and any(
                    isinstance(y, ast.Name) and y.id == t[2]
                    for y in x.targets):
                try:
                    v = ast.literal_eval(x.value)
                except ValueError:
                    return t
                if isinstance(v, dict):
                    o = ('obj', 'dict', '@' + t[2])
                    st.heap.setdefault((o, 'items'), tuple(
                        (K(a), K(b)) for a, b in v.items()))
                    return o
                if isinstance(v, (list, tuple)):
                    return ('tup', tuple(
                        ('tup', tuple(map(K, a))) if isinstance(
                            a, (list, tuple)) else K(a) for a in v))
        return t

    def known_items(self, t, st):
        if is_const(t) and isinstance(t[2], str):
            return [K(c) for c in t[2]]
        return Follow.known_items(self, t, st)


def c27(ctx):
    prog = ctx.prog
    ctx.rule('text', 'a supplied filter turns a text into what it promises',
             400)
    ctx.rule('value', 'None becomes an empty text, a text stays as it is, '
             'and any other value becomes its text', 12)
    mod = prog.mod('Filters')
    for name, text, kw, want in CASES:
        call = 'return %s().filter(v%s)' % (name, ''.join(
            ', %s=%r' % x for x in sorted(kw.items())))
        n = 0
        for s in run(ctx, prog, call, K(text)):
            n += 1
            ctx.ob('text', '%s of %r %s' % (name, text, kw or ''), mod.path,
                   s.status == 'return' and s.val == K(want),
                   'it gives %s instead of %r' % (show(s.val)[:150], want))
        if not n:
            raise AnalysisBroken('no path through ' + name)
    v = ('var', '@v')
    for name in ('Filter', 'MaxLen', 'WebSafe', 'Strip', 'StripSqueeze',
                 'EncodeUnicode', 'RawOrEncodedUnicode'):
        for s in run(ctx, prog, 'return %s().filter(v)' % name, NONE):
            ctx.ob('value', name + ' of None', mod.path,
                   s.status == 'return' and s.val == K(''),
                   'None becomes %s' % show(s.val)[:100])
        for u in (0, 1, 1.5, False, ()):
            for s in run(ctx, prog, 'return %s().filter(v)' % name, K(u)):
                ctx.ob('value', '%s of %r' % (name, u), mod.path,
                       s.status == 'return' and s.val == K(str(u)),
                       '%r becomes %s' % (u, show(s.val)[:100]))
    for s in run(ctx, prog, 'return Filter().filter(v)', v):
        if s.status == 'raise':
            continue        # what the value raises
        none = any(t == ('cmp', 'is', v, NONE) and y
                   for t, y in s.conds.items())
        text = any(t[0] == 'call' and t[1] == ('bi', 'isinstance') and y
                   for t, y in s.conds.items())
        ok = s.val == K('') if none else s.val == v if text else \
            s.val in (v, ('call', ('bi', 'str'), (v,), (), None)) and \
            s.val != v
        ctx.ob('value', 'Filter of any value', mod.path, ok,
               'the value becomes %s' % show(s.val)[:100])


def run(ctx, prog, body, v):
    it, ends = drive(prog, 'Filters', body, ('v',), args={'v': v},
                     exact=True, hook=hook, loop_max=30, interp=Text,
                     construct=lambda c: c.module.name.endswith('Filters'),
                     keep=lambda e: False)
    for q in it.n_inlined:
        ctx.unit('filter methods', q)
    return ends


CHECKS = {'C27': (c27, 'supplied filters')}
