"""C28, continued: what is read from #compiler-settings, and how settings are
merged and asked for."""
import ast
import re
import tokenize

from ..absint import K, NONE, callee_name, show
from ..drive import drive
from ..model import AnalysisBroken

TOP = ('obj', 'dict', '@settings')
OLD = (K('keep'), K('kept')), (K('a'), K('old'))


def fold(n):
    """A pattern built from literals and tokenize.Number."""
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.Name) and n.id == 'Number':
        return tokenize.Number
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = fold(n.left), fold(n.right)
        return None if a is None or b is None else a + b
    return None


def patterns(mod):
    out = {}
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and \
                ast.unparse(st.value.func) in ('re.compile', 'compile') and \
                len(st.value.args) == 1:
            p = fold(st.value.args[0])
            for t in st.targets:
                if isinstance(t, ast.Name) and p is not None:
                    out[t.id] = re.compile(p)
    return out


def is_dict(t):
    return t[0] == 'obj' and t[1] == 'dict'


def hook_for(pats, values, seen):
    """`values`: what the configuration parser has read, {section: {option:
    text}}."""
    P = ('var', '@parser')

    def hook(it, fn, a, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        if nm == '_ConfigParserClass':
            seen.append(('new', tuple(a), tuple(kw)))
            return [(st, P)]
        if fn[0] == 'attr' and fn[1] == P:
            seen.append((fn[2], tuple(a), tuple(kw)))
            if fn[2] == 'sections':
                return [(st, ('tup', tuple(K(x) for x in values)))]
            if fn[2] == 'options' and a:
                return [(st, ('tup', tuple(
                    K(x) for x in values.get(a[0][2], ()))))]
            if fn[2] == 'get' and len(a) > 1:
                return [(st, K(values[a[0][2]][a[1][2]]))]
            if fn[2] == 'items' and a and a[0][0] == 'const':
                return [(st, ('tup', tuple(
                    ('tup', (K(x), K(y)))
                    for x, y in values.get(a[0][2], {}).items())))]
            return [(st, NONE)]
        if nm in ('match', 'fullmatch') and fn[0] == 'attr' and a and \
                a[0][0] == 'const':
            r = pats.get(fn[1][-1].split('.')[-1] if isinstance(
                fn[1][-1], str) else '')
            if r is not None:
                m = getattr(r, nm)(a[0][2])
                if m is None:
                    return [(st, NONE)]
                t = ('var', '@match:%d' % m.end())
                st.conds[t] = True
                st.conds[('cmp', 'is', t, NONE)] = False
                return [(st, t)]
        if fn[0] == 'attr' and fn[1][0] == 'var' and \
                fn[1][1].startswith('@match:') and fn[2] == 'end':
            return [(st, K(int(fn[1][1][7:])))]
        if nm == 'mergeNestedDictionaries' and len(a) == 2 and \
                is_dict(a[0]) and is_dict(a[1]) and a[0] != TOP:
            # by induction on the depth
            items = dict(st.heap.get((a[0], 'items')) or ())
            items.update(st.heap.get((a[1], 'items')) or ())
            st.heap[(a[0], 'items')] = tuple(items.items())
            return [(st, a[0])]
        if nm == 'eval' and a:
            return [(st, ('@value', a[0][2].strip() if a[0][0] == 'const'
                          else a[0]))]
        if fn == ('bi', 'isinstance') and len(a) == 2 and \
                show(a[1]).split('.')[-1] == 'dict':
            return [(st, K(is_dict(a[0])))]
        return None
    return hook


def plain(t, heap):
    if is_dict(t):
        return {k[2] if k[0] == 'const' else k: plain(v, heap)
                for k, v in heap.get((t, 'items')) or ()}
    return t


def text(ctx, prog):
    c = prog.cls('SettingsManager', 'SettingsManager')
    f = c and prog.find_method(c, 'updateSettingsFromConfigStr')
    if f is None:
        raise AnalysisBroken('updateSettingsFromConfigStr missing')
    loc = f.loc()
    me = ('self', c.qual)
    d = TOP
    pats = patterns(c.module)
    num = [('5', True), ('0', True), ('-1', True), ('1.5', True),
           ('0x10', True), ('1e3', True), ('10px', False), ('1.2.3', False),
           ('5 apples', False)]
    cases = [('True', K(True)), ('true', K(True)), ('False', K(False)),
             ('FALSE', K(False)), ('None', NONE), ('none', NONE),
             ('', K('')), ('x', K('x')), ('Mixed Case', K('Mixed Case')),
             ('%', K('%')), ('#', K('#')), ('truely', K('truely')),
             ('"quoted"', K('"quoted"')), ('-', K('-')), ('+', K('+')),
             ('python: [1, 2]', ('@value', '[1, 2]')),
             ('Python:x', ('@value', 'x')), ('pythonic', K('pythonic'))]
    cases += [(v, ('@value', v) if n else K(v)) for v, n in num]
    raw = None
    for val, want in cases:
        seen = []
        it, ends = drive(
            prog, None, 'self.updateSettingsFromConfigStr(txt)', ('txt',),
            cls=c, exact=True, depth=10, loop_max=8, hook=hook_for(
                pats, {'globals': {'a': val}}, seen),
            init={'heap': {(me, '_settings'): d, (d, 'items'): OLD}},
            args={'txt': K('a = ' + val)})
        if not ends:
            raise AnalysisBroken('no path reads %r' % val)
        for s in ends:
            got = plain(d, s.heap)
            ctx.ob('config-text', repr(val), loc, s.status == 'return' and
                   got == {'keep': K('kept'), 'a': want} and
                   s.heap.get((me, '_settings')) == d,
                   'the setting "a = %s" %s' % (val, 'fails with %s' % show(
                       s.val) if s.status != 'return' else 'gives %s' % {
                           k: v if isinstance(v, dict) else show(v)
                           for k, v in got.items()}))
        read = [a for m, a, k in seen if m in ('read_file', 'readfp',
                                               'read_string')]
        ctx.ob('config-text', 'all of the text is read', loc,
               len(read) == 1 and 'a = ' + val in show(read[0][0]).replace(
                   "\\\\", "\\") or len(read) == 1 and
               val in show(read[0][0]), 'the parser reads %s' % [
                   show(x[0]) for x in read])
        r = [dict(k).get('raw') == K(True) or a[2:3] == (K(True),)
             for m, a, k in seen if m in ('get', 'items')] + [
            dict(k).get('interpolation') == NONE
            for m, a, k in seen if m == 'new']
        raw = any(r)
    pc = prog.find_attr(c, '_ConfigParserClass')
    k = pc and pc[1] is not None and prog.cls('SettingsManager',
                                              ast.unparse(pc[1]))
    base = k and ' '.join(ast.unparse(b) for b in k.node.bases) or ''
    ctx.ob('config-text', 'no interpolation', loc, bool(
        raw or 'RawConfigParser' in base), "a '%' in a value is taken for an "
        "interpolation")
    g = k and prog.find_method(k, 'optionxform')
    ok = False
    if g is not None:
        from ..absint import Interp
        p = [a.arg for a in g.node.args.args][1:]
        ok = all(s.status == 'return' and s.val == ('var', 'opt') for s in
                 Interp(prog, depth=2).run(g, selfcls=k,
                                           args={p[0]: ('var', 'opt')}))
    ctx.ob('config-text', 'names keep their case', loc, bool(ok),
           'the names of settings are changed when they are read')
    # sections
    seen = []
    it, ends = drive(
        prog, None, 'self.updateSettingsFromConfigStr(txt)', ('txt',),
        cls=c, exact=True, depth=10, loop_max=8, hook=hook_for(
            pats, {'globals': {'a': 'x'}, 'sec': {'p': 'y'}}, seen),
        init={'heap': {(me, '_settings'): d, (d, 'items'): OLD}},
        args={'txt': K('...')})
    for s in ends:
        got = plain(d, s.heap)
        ctx.ob('config-text', 'sections', loc, s.status == 'return' and
               got == {'keep': K('kept'), 'a': K('x'),
                       'sec': {'p': K('y')}},
               'two sections give %s' % {k: str(v)[:40]
                                         for k, v in got.items()})


NEST = """
old = {'a': 'x', 'n': {'p': 'y', 'q': 'z'}, 'm': {'k': 'l'}}
new = {'b': 'u', 'n': {'q': 'v'}, 'm': 'plain', 'f': False, 'o': None}
self.updateSettings(old)
self.updateSettings(new, merge=%s)
return self.settings()
"""
GET = """
self.setSetting('f', False)
self.setSetting('o', None)
self.setSetting('t', 'x')
return (self.setting('f'), self.setting('f', True), self.setting('o', 'd'),
        self.setting('t', 'd'), self.setting('gone', 'd'),
        self.setting('gone', None), self.hasSetting('f'),
        self.hasSetting('gone'))
"""
MISSING = """
return self.setting('gone')
"""


def use(ctx, prog):
    c = prog.cls('SettingsManager', 'SettingsManager')
    me = ('self', c.qual)
    d = TOP
    f = prog.find_method(c, 'updateSettings')
    g = prog.find_method(c, 'setting')
    if f is None or g is None:
        raise AnalysisBroken('SettingsManager.setting missing')

    def run(src):
        return drive(prog, None, src, (), cls=c, exact=True, depth=10,
                     loop_max=8, hook=hook_for({}, {}, []),
                     init={'heap': {(me, '_settings'): d,
                                    (d, 'items'): ()}})[1]
    for merge in (True, False):
        n = {'q': K('v')}
        if merge:
            n = {'p': K('y'), 'q': K('v')}
        want = {'a': K('x'), 'b': K('u'), 'n': n, 'm': K('plain'),
                'f': K(False), 'o': NONE}
        for s in run(NEST % merge):
            got = plain(s.val, s.heap) if s.status == 'return' else None
            ctx.ob('merge', 'nested, merge=%s' % merge, f.loc(), got == want,
                   'the settings are %s' % (str(got)[:200]))
    want = (K(False), K(False), NONE, K('x'), K('d'), NONE, K(True),
            K(False))
    for s in run(GET):
        ctx.ob('asked', 'values', g.loc(), s.status == 'return' and
               s.val == ('tup', want), 'asking for settings gives %s'
               % show(s.val))
    for s in run(MISSING):
        ctx.ob('asked', 'a missing setting', g.loc(), s.status == 'raise' or
               s.val[0] == 'idx', 'a setting that does not exist is %s'
               % show(s.val))
