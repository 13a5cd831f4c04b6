"""C31 translation of placeholders, C20 names used by generated code."""
import ast
import itertools

from ..absint import (K, NONE, Interp, callee_name, is_const, show)
from ..emit import Emitter, setting_hook
from ..model import AnalysisBroken
from ..vocab import known


# ---------------------------------------------------------------- C31

def c31(ctx):
    ctx.rule('translation', 'a variable is translated to a lookup of its '
             'first dotted name followed by lookups in the result, with the '
             'call or index of each part applied to it, and calls callables '
             'only where the template does not and the setting allows it',
             100)
    ctx.rule('parts', 'a variable is cut into dotted names and the calls '
             'and indices that follow them; the last name before a call is '
             'a part of its own and is not called automatically', 50)
    ctx.rule('plain', 'without NameMapper a variable is the Python '
             'expression as written', 10)
    ctx.rule('names', 'the lookup functions of the generated module are '
             'those of NameMapper', 3)
    prog = ctx.prog
    translation(ctx, prog)
    parts(ctx, prog)
    names(ctx, prog)


NAMES = ('va', 'va.vb', 'va.vb.vc')
RESTS = ('', '(1)', '[2]')


def chunk_lists():
    """Lists as the parser makes them, up to three parts."""
    one = [(n, r[:1] != '(', r) for n in NAMES for r in RESTS]
    for a in one:
        yield [a]
    for a in one:
        for b in one[::2]:
            yield [a, b]
    for a, b, c in itertools.product(one[::4], one[1::4], one[2::4]):
        yield [a, b, c]


def expected(chunks, ac, sl, frames):
    name, use, rest = chunks[0]
    flag = repr(bool(ac and use))
    if not sl:
        if '.' in name:
            a, b = name.split('.', 1)
            code = 'VFN(%s,"%s",%s)%s' % (a, b, flag, rest)
        else:
            code = name + rest
    elif frames:
        code = 'VFFSL(SL,"%s",%s)%s' % (name, flag, rest)
    else:
        code = 'VFSL([locals()]+SL+[globals(), builtin],"%s",%s)%s' % (
            name, flag, rest)
    for name, use, rest in chunks[1:]:
        code = 'VFN(%s,"%s",%s)%s' % (code, name, repr(bool(ac and use)),
                                      rest)
    return code


def plain(chunks):
    return '.'.join(n + r for n, u, r in chunks)


def run_var(prog, c, f, chunks, fixed, isplain):
    lst = ('obj', 'list', '@chunks')
    items = tuple(('tup', tuple(K(x) for x in ch)) for ch in chunks)
    it = Interp(prog, depth=6, loop_max=6, hook=setting_hook(fixed),
                keep=lambda e: e.kind == 'call')
    p = [a.arg for a in f.node.args.args][1:]
    args = {p[0]: lst}
    if len(p) > 1:
        args[p[1]] = K(isplain)
    return it.run(f, selfcls=c, args=args,
                  init={'heap': {(lst, 'items'): items}})


def same(text, want):
    try:
        return ast.dump(ast.parse(text.strip(), mode='eval')) == ast.dump(
            ast.parse(want, mode='eval'))
    except SyntaxError:
        return False


def translation(ctx, prog):
    c = prog.cls('Compiler', 'ModuleCompiler')
    f = prog.find_method(c, 'genCheetahVar')
    if f is None:
        raise AnalysisBroken('genCheetahVar missing')
    loc = '%s:%d' % (f.module.path, f.node.lineno)
    bad = {}
    for ac, sl, fr in itertools.product((True, False), repeat=3):
        fixed = {'useNameMapper': True, 'useAutocalling': ac,
                 'useSearchList': sl, 'useStackFrames': fr,
                 'gettextTokens': ()}
        for chunks in chunk_lists():
            want = expected(chunks, ac, sl, fr)
            for s in run_var(prog, c, f, chunks, fixed, False):
                ok = s.status == 'return' and is_const(s.val) and \
                    same(s.val[2], want)
                ctx.unit('variables translated', '%s %s%s%s' % (
                    plain(chunks), ac, sl, fr))
                if ok:
                    ctx.ob('translation', plain(chunks), loc, True)
                else:
                    bad.setdefault(('translation', ac, sl, fr), (
                        plain(chunks), s, want))
    for isplain, nm in ((True, True), (False, False), (True, False)):
        fixed = {'useNameMapper': nm, 'gettextTokens': ()}
        for chunks in chunk_lists():
            want = plain(chunks)
            for s in run_var(prog, c, f, chunks, fixed, isplain):
                ok = s.status == 'return' and is_const(s.val) and \
                    same(s.val[2], want)
                if ok:
                    ctx.ob('plain', want, loc, True)
                else:
                    bad.setdefault(('plain', isplain, nm), (want, s, want))
    for k, (what, s, want) in sorted(bad.items(), key=repr):
        ctx.ob(k[0], what, loc, False, '$%s becomes %s instead of %s '
               '(settings %s)' % (what, show(s.val) if s.val else s.status,
                                  want, k[1:]))
    # marking a variable for gettext must not disturb it
    fixed = {'useNameMapper': True, 'useAutocalling': True,
             'useSearchList': True, 'useStackFrames': True,
             'gettextTokens': ('va',)}
    for chunks in list(chunk_lists())[:30]:
        want = expected(chunks, True, True, True)
        for s in run_var(prog, c, f, chunks, fixed, False):
            ctx.ob('translation', 'gettext ' + plain(chunks), loc,
                   s.status == 'return' and is_const(s.val) and
                   same(s.val[2], want), '$%s marked for gettext becomes %s'
                   % (plain(chunks), show(s.val) if s.val else s.status))


# -- how the parser cuts a variable

def scripts():
    """Sequences of dotted names and what follows them."""
    segs = [(n, r) for n in NAMES for r in ('', '(', '[')]
    ends = ('', ' ', '. ', '.')
    for k in (1, 2):
        for seq in itertools.product(segs, repeat=k):
            # names that directly follow each other are one name
            if any(r == '' for n, r in seq[:-1]):
                continue
            for e in ends:
                yield seq, e
    for seq in itertools.product(segs[1:3], segs[4:6], segs[7:9]):
        yield seq, ''


def want_chunks(seq):
    out = []
    for n, r in seq:
        rest = {'': '', '(': '(1)', '[': '[2]'}[r]
        if r and '.' in n:
            a, b = n.rsplit('.', 1)
            out.append((a, True, ''))
            n = b
        out.append((n, r != '(', rest))
    return out


POS = (('obj', 'script', 'x'), 'pos')


def parts(ctx, prog):
    c = prog.cls('Parser', 'Parser')
    f = prog.find_method(c, 'getCheetahVarNameChunks')
    if f is None:
        raise AnalysisBroken('getCheetahVarNameChunks missing')
    loc = '%s:%d' % (f.module.path, f.node.lineno)
    bad = {}
    for seq, end in scripts():
        # the text as cells: one per character, names and arguments are read
        # in one go
        text = ''
        starts = {}
        for i, (n, r) in enumerate(seq):
            if i:
                text += '.'
            starts[len(text)] = ('name', n)
            text += n
            if r:
                rest = '(1)' if r == '(' else '[2]'
                starts[len(text)] = ('rest', rest)
                text += rest
        text += end

        def hook(it, fn, a, kw, st, nd):
            nm = callee_name(('call', fn, (), (), None))
            p = st.heap.get(POS, 0)
            if nm == 'pos' and not a:
                return [(st, K(p))]
            if nm == 'len' and len(a) == 1 and a[0][0] == 'self':
                return [(st, K(len(text)))]
            if nm == 'atEnd':
                return [(st, K(p >= len(text)))]
            if nm == 'peek':
                off = a[0][2] if a and is_const(a[0]) else 0
                if p + off >= len(text):
                    return [(st, NONE)]
                return [(st, K(text[p + off]))]
            if nm in ('advance', 'getc'):
                ch = text[p] if p < len(text) else ''
                st.heap[POS] = p + (a[0][2] if a and is_const(a[0]) else 1)
                return [(st, K(ch))]
            if nm == 'getDottedName':
                k = starts.get(p)
                if not k or k[0] != 'name':
                    st.status = 'raise'
                    st.val = ('call', ('bi', 'ValueError'), (K(p),), (),
                              None)
                    return [(st, NONE)]
                st.heap[POS] = p + len(k[1])
                return [(st, K(k[1]))]
            if nm in ('getCallArgString', 'getExpression'):
                k = starts.get(p)
                if not k or k[0] != 'rest' or (
                        nm == 'getCallArgString') != (k[1][0] == '('):
                    st.status = 'raise'
                    st.val = ('call', ('bi', 'ValueError'), (K(p),), (),
                              None)
                    return [(st, NONE)]
                st.heap[POS] = p + len(k[1])
                return [(st, K(k[1]))]
            return None
        it = Interp(prog, depth=3, loop_max=12, hook=hook,
                    opaque=lambda g: known(g))
        want = want_chunks(seq)
        ctx.unit('shapes of variables', text)
        for s in it.run(f, selfcls=c):
            got = None
            if s.status == 'return' and s.val[0] == 'obj':
                items = s.heap.get((s.val, 'items')) or ()
                got = [tuple(x[2] if is_const(x) else show(x)
                             for x in t[1]) if t[0] == 'tup' else show(t)
                       for t in items]
            ended = s.heap.get(POS, 0)
            ok = got == want and ended == len(text) - len(end)
            if ok:
                ctx.ob('parts', '$' + text, loc, True)
            else:
                bad.setdefault(text, (got if got is not None else
                                      show(s.val) if s.val else s.status,
                                      want))
    for text, (got, want) in sorted(bad.items(), key=lambda x: len(x[0])
                                    )[:8]:
        ctx.ob('parts', '$' + text, loc, False, '$%s is cut into %s instead '
               'of %s' % (text, got, want))


def prelude(prog):
    """Import statements and constants of the generated module."""
    c = prog.cls('Compiler', 'ModuleCompiler')
    f = prog.find_method(c, '_setupCompilerState')
    if f is None:
        raise AnalysisBroken('_setupCompilerState missing')
    me = ('self', c.qual)
    out = []
    for s in Interp(prog, depth=4, loop_max=2).run(f, selfcls=c):
        if s.status == 'raise':
            continue
        lines = []
        for attr in ('_importStatements', '_moduleConstants'):
            v = s.heap.get((me, attr))
            items = s.heap.get((v, 'items')) if v else None
            if items is None:
                raise AnalysisBroken('%s not understood' % attr)
            for t in items:
                if is_const(t):
                    lines.append(t[2])
                elif t[0] == 'cat':
                    lines.append(''.join(
                        x[2] if is_const(x) else 'Cheetah' for x in t[1]))
                else:
                    raise AnalysisBroken('%s not understood' % attr)
        out.append('\n'.join(lines))
    if not out:
        raise AnalysisBroken('no path through _setupCompilerState')
    return out


def names(ctx, prog):
    want = {'VFFSL': 'valueFromFrameOrSearchList',
            'VFSL': 'valueFromSearchList', 'VFN': 'valueForName'}
    for text in prelude(prog):
        try:
            tree = ast.parse(text)
        except SyntaxError as e:
            ctx.ob('names', 'prelude', 'Cheetah/Compiler.py', False,
                   'the module prelude is not valid: %s' % e)
            continue
        env = {}
        for n in tree.body:
            if isinstance(n, ast.ImportFrom) and n.module:
                for a in n.names:
                    env[a.asname or a.name] = (n.module, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    env[a.asname or a.name.split('.')[0]] = (a.name, None)
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                for t in n.targets:
                    env[t.id] = env.get(n.value.id)
        for k, v in sorted(want.items()):
            got = env.get(k)
            ctx.ob('names', k, 'Cheetah/Compiler.py', bool(got) and
                   got[1] == v and got[0].endswith('NameMapper'),
                   '%s is %s in generated modules' % (k, got))


CHECKS = {
    'C31': (c31, 'translation of placeholders'),
}
