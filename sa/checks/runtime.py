"""C10 #include context, C11 transactions of generated methods."""
import ast

from ..absint import (K, NONE, Interp, show, callee_name, is_const, walk)
from ..emit import Emitter, whole_method, method_of, setting_name, SETTING
from ..model import AnalysisBroken

EMPTY = K('')


# ---------------------------------------------------------------- C11

ARGS = [[], [('x', '1')], [('trans', 'None')], [('trans', None)],
        [('**kw', None)], [('*rest', None)], [('*rest', None), ('**kw', None)],
        [('trans', 'None'), ('**kw', None)],
        [('trans', 'None'), ('*rest', None)], [('searchList', 'None')],
        [('SL', 'None')]]
DECOS = [(), ('@classmethod',), ('@staticmethod',)]


def free(t, name):
    return t[0] in ('free', 'glob') and t[-1] == name


def is_dummy(t):
    return t[0] == 'call' and free(t[1], 'DummyTransaction')


def response_of(t, attr):
    """T for T.response().<attr> (attr bound method, not called)."""
    if t[0] == 'attr' and t[2] == attr and t[1][0] == 'call' and \
            t[1][1][0] == 'attr' and t[1][1][2] == 'response':
        return t[1][1][1]
    return None


def value_of(t):
    """T for T.response().getvalue()."""
    if t[0] == 'call' and not t[2]:
        return response_of(t[1], 'getvalue')
    return None


def strip_or(t):
    """x or "" -> x"""
    if t[0] == 'or' and len(t[1]) == 2 and t[1][1] == EMPTY:
        return t[1][0]
    return t


def truth(conds, t):
    for k, v in conds.items():
        if k == t:
            return v
        if k[0] == 'not' and k[1] == t:
            return not v
    return None


class GenInterp(Interp):
    """A fresh DummyTransaction is an object, never false."""
    def assume(self, st, t, val=True):
        if is_dummy(t):
            return [st] if val else []
        return Interp.assume(self, st, t, val)


def judge_method(ctx, label, f, loc, streaming, autoassign):
    a = f.node.args
    names = [x.arg for x in a.args + a.kwonlyargs]
    n = 0
    for s in GenInterp(ctx.prog, depth=1).run(f):
        n += 1
        body = [e for e in s.events if e.kind == 'call' and
                free(e.term[1], 'BODY_')]
        if s.status != 'return':
            ctx.ob('delivered', label, loc, False,
                   'the method ends with %s' % show(s.val))
            continue
        if len(body) != 1:
            ctx.ob('delivered', label, loc, False,
                   'the body is run %d times' % len(body))
            continue
        trans, write, dummy = body[0].args
        conds = s.conds
        given = None
        if 'trans' in names:
            given = ('var', 'trans')
        elif a.kwarg:
            for k in list(conds) + [trans]:
                for x in walk(k):
                    if x[0] == 'call' and callee_name(x) == 'get' and x[2] \
                            and x[2][0] == K('trans') and \
                            x[1][1] == ('var', '**' + a.kwarg.arg):
                        given = x
        ctx.ob('write-target', label, loc,
               response_of(write, 'write') == trans,
               'write is bound to %s, the transaction is %s' % (
                   show(write), show(trans)))
        has = truth(conds, given) if given is not None else False
        if trans == given and has is None:
            has = True
        inst = ('attr', ('self', 'gen:G'), 'transaction')
        inst = next((x for k in list(conds) + [trans] for x in walk(k)
                     if x[0] == 'attr' and x[2] == 'transaction'
                     and x[1][0] == 'self'), inst)
        buffering = next((v for k, v in conds.items()
                          if k[0] == 'attr' and k[2].endswith('isBuffering')),
                         None)
        if streaming:
            ctx.ob('accepts-transaction', label, loc, given is not None,
                   'the method has no way to be given a transaction')
        if given is not None and has:
            ctx.ob('given-transaction', label, loc, trans == given,
                   'a transaction is given, but output goes to %s'
                   % show(trans))
            ctx.ob('given-transaction', label + ' result', loc,
                   s.val == EMPTY,
                   'output is written to the given transaction and also '
                   'returned: %s' % show(s.val))
        elif is_dummy(trans):
            ctx.ob('own-transaction', label, loc,
                   value_of(strip_or(s.val)) == trans,
                   'output is collected in a transaction of its own, but %s '
                   'is returned' % show(s.val))
            sets = [e for e in s.events if e.kind == 'setattr'
                    and e.term[2] == 'transaction']
            ctx.ob('own-transaction', label + ' private', loc,
                   not sets or autoassign,
                   'a transaction made for one call is kept in the instance: '
                   'the output of later calls goes there')
        elif trans == inst:
            ctx.ob('instance-transaction', label, loc,
                   buffering is False and truth(conds, inst) is not False,
                   'the transaction of the instance is used %s' % (
                       'although it may be missing' if buffering is False
                       else 'inside a buffered region'))
            ctx.ob('instance-transaction', label + ' result', loc,
                   s.val == EMPTY, 'output is written to the transaction '
                   'of the instance and also returned: %s' % show(s.val))
        else:
            ctx.ob('own-transaction', label, loc, False,
                   'output goes to %s, which nobody reads (given: %s, '
                   'returned: %s)' % (show(trans), show(given or NONE),
                                      show(s.val)))
    if not n:
        raise AnalysisBroken('no path through the generated method')


def c11(ctx):
    ctx.rule('accepts-transaction', 'a method can be given a transaction '
             'unless its own arguments leave no room for it', 8)
    ctx.rule('write-target', 'output is written to the response of the '
             'method\'s transaction', 20)
    ctx.rule('given-transaction', 'a method that is given a transaction '
             'writes to it and returns an empty string', 8)
    ctx.rule('own-transaction', 'a method without a transaction collects its '
             'output in a fresh one and returns exactly that text', 20)
    ctx.rule('instance-transaction', 'the transaction of the instance is '
             'used only outside buffered regions', 4)
    ctx.rule('delivered', 'every way through the generated code runs the '
             'body once and ends with a result', 0)
    ctx.rule('compiles', 'the generated method is valid Python', 20)
    ctx.rule('stop', '#stop ends a method as its regular end does', 2)
    ctx.rule('yield', '#yield delivers what was written since the last one '
             'and goes on with a fresh transaction', 2)
    ctx.rule('transaction-object', 'the transaction made for a call keeps '
             'one response and the response keeps every piece of text in '
             'order', 4)
    em = Emitter(ctx.prog)
    loc = ctx.prog.mod('Compiler').path
    body = "self.addChunk('BODY_(trans, write, _dummyTrans)')"
    for deco in DECOS:
        for args in ARGS:
            for name in ('m', 'respond'):
                sig = '%s%s(%s)' % (''.join(deco) + ' ' if deco else '', name,
                                    ', '.join(x[0] for x in args))
                it, res = whole_method(em, body, name, args, deco)
                seen = set()
                for text, holes, s in res:
                    if text is None:
                        ctx.ob('compiles', sig, loc, False,
                               'the compiler fails: %s' % show(s.val))
                        continue
                    if text in seen:
                        continue
                    seen.add(text)
                    sets = {setting_name(k): v for k, v in s.conds.items()
                            if setting_name(k)}
                    f, err = method_of(ctx.prog, text)
                    ctx.ob('compiles', sig, loc, f is not None, err or '')
                    if f is None:
                        continue
                    an = [x[0] for x in args]
                    streaming = not deco and (
                        'trans' in an or '**kw' in an and sets.get(
                            'useKWsDictArgForPassingTrans') is not False
                        and name != 'respond' or not any(
                            x.startswith('*') for x in an))
                    judge_method(ctx, sig, f, loc, streaming,
                                 sets.get('autoAssignDummyTransactionToSelf')
                                 is True)
                ctx.unit('generated methods', '%s: %d variants' % (
                    sig, len(seen)))
    ends(ctx, em, loc)
    regions_of_end(ctx, em, loc)
    objects(ctx)


def ends(ctx, em, loc):
    """#stop and #yield inside the body."""
    it, res = whole_method(
        em, "self.addChunk('if H_:')\nself.indent()\nself.addStop()\n"
        "self.dedent()\nself.addChunk('BODY_(trans, write, _dummyTrans)')",
        fixed={'useFilters': False, 'useNameMapper': False,
               'autoAssignDummyTransactionToSelf': False})
    for text, holes, s in res:
        if text is None:
            ctx.ob('stop', '#stop', loc, False, 'the compiler fails: %s'
                   % show(s.val))
            continue
        f, err = method_of(ctx.prog, text)
        if f is None:
            ctx.ob('stop', '#stop', loc, False, err)
            continue
        byc = {}
        for q in GenInterp(ctx.prog, depth=1).run(f):
            stopped = any(free(k, 'H_') and v for k, v in q.conds.items())
            key = frozenset((k, v) for k, v in q.conds.items()
                            if not free(k, 'H_'))
            byc.setdefault(key, {}).setdefault(stopped, []).append(q)
        for key, d in byc.items():
            vals = {k: {norm(x.val) for x in v} for k, v in d.items()}
            ctx.ob('stop', '#stop', loc, True in vals and
                   vals.get(True) == vals.get(False),
                   'stopped: %s, regular end: %s' % tuple(
                       sorted(show(x) for x in vals.get(b, ()))
                       for b in (True, False)))
    for gen in ('yield', 'yield x'):
        it, res = whole_method(
            em, "self.addChunk('write(A_)')\nself.addYield(%r)\n"
            "self.addChunk('BODY_(trans, write, _dummyTrans)')" % gen,
            fixed={'useFilters': False, 'useNameMapper': False,
                   'autoAssignDummyTransactionToSelf': False})
        for text, holes, s in res:
            if text is None:
                ctx.ob('yield', '#' + gen, loc, False,
                       'the compiler fails: %s' % show(s.val))
                continue
            f, err = method_of(ctx.prog, text)
            if f is None:
                ctx.ob('yield', '#' + gen, loc, False, err)
                continue
            for q in GenInterp(ctx.prog, depth=1).run(f):
                ys = [e for e in q.events if e.kind == 'yield']
                body = [e for e in q.events if e.kind == 'call' and
                        free(e.term[1], 'BODY_')]
                first = [e for e in q.events if e.kind == 'call' and
                         e.args and free(e.args[0], 'A_')]
                if q.status == 'raise':
                    continue
                if gen != 'yield':
                    ctx.ob('yield', '#' + gen, loc, len(ys) == 1 and
                           len(body) == 1,
                           'the value is yielded %d times' % len(ys))
                    continue
                ok = len(ys) == 1 and len(first) == 1 and len(body) == 1
                why = 'a bare #yield yields %d times' % len(ys)
                if ok:
                    t0 = response_of(first[0].term[1], 'write')
                    tr, wr, du = body[0].args
                    ok = value_of(ys[0].term) == t0 and is_dummy(tr) and \
                        tr != t0 and response_of(wr, 'write') == tr
                    why = 'yields %s, goes on with %s / %s' % (
                        show(ys[0].term), show(tr), show(wr))
                ctx.ob('yield', '#' + gen, loc, ok, why)


def norm(t):
    t = strip_or(t)
    v = value_of(t)
    if v is not None and is_dummy(v):
        return ('text of its own transaction',)
    return t


def regions_of_end(ctx, em, loc):
    """#transform replaces the transaction."""
    it, res = whole_method(
        em, "self.setTransform('F_', True)\n"
        "self.addChunk('BODY_(trans, write, _dummyTrans)')",
        fixed={'useFilters': False, 'useNameMapper': False,
               'autoAssignDummyTransactionToSelf': False})
    for text, holes, s in res:
        f, err = method_of(ctx.prog, text) if text else (None, show(s.val))
        if f is None:
            ctx.ob('own-transaction', '#transform', loc, False, err)
            continue
        for q in GenInterp(ctx.prog, depth=1).run(f):
            body = [e for e in q.events if e.kind == 'call' and
                    free(e.term[1], 'BODY_')]
            if q.status != 'return' or not body:
                continue
            tr = body[0].args[0]
            ret = value_of(strip_or(q.val))
            later = [e for e in q.events if e.kind == 'call' and
                     e.name == 'write' and value_of(e.args[0]) == tr]
            ctx.ob('own-transaction', '#transform: transformed text '
                   'delivered', loc, ret == tr or bool(later),
                   'text written after #transform goes to %s, which is '
                   'neither returned (%s) nor written to the transaction '
                   'the method was given' % (show(tr), show(q.val)))


def objects(ctx):
    prog = ctx.prog
    m = prog.mod('DummyTransaction')
    tr = m.classes.get('DummyTransaction')
    resp = m.classes.get('DummyResponse')
    if tr is None or resp is None:
        raise AnalysisBroken('DummyTransaction classes missing')
    attr = '_response'
    f = prog.find_method(tr, 'response')
    me = ('self', tr.qual)
    for set_ in (False, True):
        it = Interp(prog, depth=3)
        old = ('var', '@old') if set_ else NONE
        for s in it.run(f, selfcls=tr, init={
                'heap': {(me, attr): old},
                'conds': {('var', '@old'): True,
                          ('cmp', 'is', ('var', '@old'), NONE): False}}):
            now = s.heap.get((me, attr))
            if set_:
                ok = s.val == old and now == old
            else:
                ok = s.status == 'return' and s.val == now and now != NONE
            ctx.ob('transaction-object', 'DummyTransaction.response', m.path,
                   ok, 'response() returns %s and keeps %s (had %s)' % (
                       show(s.val), show(now or NONE), show(old)))
    me = ('self', resp.qual)
    init = prog.find_method(resp, '__init__')
    lists = []
    for s in Interp(prog, depth=2).run(init, selfcls=resp):
        lists += [(k[1], v) for k, v in s.heap.items() if k[0] == me
                  and v[0] == 'obj' and v[1] == 'list']
    ctx.ob('transaction-object', 'DummyResponse: fresh list', m.path,
           bool(lists), 'a response does not start with a list of its own')
    if not lists:
        return
    name = lists[0][0]
    o = ('obj', 'list', 'chunks')
    a, b = ('var', '@a'), ('var', '@b')
    w = prog.find_method(resp, 'write')
    for s in Interp(prog, depth=3).run(
            w, selfcls=resp, args={w.node.args.args[1].arg: b},
            init={'heap': {(me, name): o, (o, 'items'): (a,)}}):
        now = s.heap.get((me, name))
        items = s.heap.get((now, 'items')) if now else None
        ctx.ob('transaction-object', 'DummyResponse.write', m.path,
               items == (a, b), 'after writing b to [a] the response has %s'
               % (items and [show(x) for x in items]))
    g = prog.find_method(resp, 'getvalue')
    for s in Interp(prog, depth=3).run(
            g, selfcls=resp, args={
                x.arg: NONE for x in g.node.args.args[1:]},
            init={'heap': {(me, name): o, (o, 'items'): (a, b)}}):
        if s.status != 'return':
            continue
        v = s.val
        ok = v == ('cat', (a, b)) or (
            v[0] == 'call' and callee_name(v) == 'join' and
            v[1][1] == EMPTY and len(v[2]) == 1)
        ctx.ob('transaction-object', 'DummyResponse.getvalue', m.path, ok,
               'the text of [a, b] is %s' % show(v))


# ---------------------------------------------------------------- C10

INC_OPAQUE = {'searchList', 'serverSidePath', 'getFileContents', 'compile',
              '_getTemplateAPIClassForIncludeDirectiveCompilation'}
API = '_getTemplateAPIClassForIncludeDirectiveCompilation'


def c10(ctx):
    ctx.rule('include-output', 'an include writes once, to the transaction '
             'it was given', 4)
    ctx.rule('include-key', 'includes of different text, kind or rawness '
             'never share what was prepared for one of them', 4)
    ctx.rule('include-source', 'the text or file named by the directive is '
             'what is compiled, or for a raw include written unchanged and '
             'never compiled', 4)
    ctx.rule('include-context', 'an included template gets the search list '
             'and the global variables of the including one', 2)
    ctx.rule('include-filter', 'an included template starts with the filter '
             'the including one started with', 2)
    ctx.rule('include-class', 'an included template is compiled by the '
             'template class of the including one', 1)
    ctx.rule('include-call', 'the generated call passes source, transaction, '
             'kind and rawness of the directive', 4)
    ctx.rule('search-list', 'the search list has global variables, the '
             'template, then the given namespaces in order (those first if '
             'so configured); a nested template has the outer list, then '
             'itself', 6)
    ctx.rule('search-list-own', 'every instance has a search list of its own '
             'and leaves the given one alone', 6)
    ctx.rule('init-forwards', 'the constructor hands search list, filter and '
             'include context on unchanged', 4)
    prog = ctx.prog
    c = prog.cls('Template', 'Template')
    include(ctx, prog, c)
    include_call(ctx, prog)
    search_list(ctx, prog, c)
    forwards(ctx, prog, c)


def include(ctx, prog, c):
    f = prog.find_method(c, '_handleCheetahInclude')
    if f is None:
        raise AnalysisBroken('_handleCheetahInclude missing')
    path = f.module.path
    me = ('self', c.qual)
    pn = [a.arg for a in f.node.args.args][1:]
    src, trans = ('var', pn[0]), ('var', 'trans')
    keys = {}
    for raw in (False, True):
        for frm in ('file', 'str'):
            label = '%s%s' % ('raw ' if raw else '', frm)
            it = Interp(prog, depth=4, opaque=INC_OPAQUE)
            for s in it.run(f, selfcls=c, args={'raw': K(raw),
                                                'includeFrom': K(frm)}):
                ctx.unit('include paths', '%s %s' % (label, len(s.events)))
                if s.status == 'raise':
                    continue
                include_path(ctx, label, raw, frm, s, me, src, trans, path,
                             keys)
    for a in keys:
        for b in keys:
            if a < b:
                both = keys[a] & keys[b]
                ctx.ob('include-key', '%s / %s' % (a, b), path, not both,
                       'both use the entry %s' % [show(x) for x in both])
    for a, ks in keys.items():
        for k in ks:
            ctx.ob('include-key', a + ' source', path,
                   any(x == src for x in injective(k)),
                   'the entry %s does not tell sources apart' % show(k))
    g = prog.find_method(c, API)
    if g is None:
        raise AnalysisBroken(API + ' missing')
    for s in Interp(prog, depth=2).run(g, selfcls=c):
        if s.status != 'return':
            continue
        sub = next((v for k, v in s.conds.items() if k[0] == 'call' and
                    callee_name(k) == 'issubclass' or k[0] == 'call' and
                    callee_name(k) == 'isinstance'), None)
        own = s.val[0] == 'attr' and s.val[2] == '__class__' or \
            s.val[0] == 'call' and callee_name(s.val) == 'type'
        ctx.ob('include-class', 'a Template subclass' if sub else 'other',
               g.module.path, own if sub is not False else True,
               'included templates are compiled by %s' % show(s.val))


def injective(t):
    """Subterms on which t depends one to one."""
    yield t
    if t[0] == 'tup':
        for x in t[1]:
            for y in injective(x):
                yield y


def include_path(ctx, label, raw, frm, s, me, src, trans, path, keys):
    writes, responds, compiles, made = [], [], [], []
    filt = {}
    includes = ('attr', me, '_CHEETAH__cheetahIncludes')
    stores = {}
    for e in s.events:
        if e.kind == 'call' and e.name == 'write' or \
                e.kind == 'call' and e.name == 'writeln':
            writes.append(e)
        elif e.kind == 'call' and e.name in ('respond',):
            responds.append((e, dict(filt)))
        elif e.kind == 'call' and e.name == 'compile':
            compiles.append(e)
        elif e.kind == 'call' and e.term[1][0] == 'call' and \
                callee_name(e.term[1]) == 'compile':
            made.append(e)
        elif e.kind == 'setattr':
            filt[(e.term[1], e.term[2])] = e.x
        elif e.kind == 'setidx':
            stores[e.term[2]] = e.x
            keys.setdefault(label, set()).add(e.term[2])
    for e in s.events:
        for x in walk(e.term):
            if x[0] == 'idx' and x[1] == includes:
                keys.setdefault(label, set()).add(x[2])
    for k in s.conds:
        if k[0] == 'cmp' and k[1] == 'in' and k[3] == includes:
            keys.setdefault(label, set()).add(k[2])
    hit = any(k[0] == 'cmp' and k[1] == 'in' and k[3] == includes and v
              for k, v in s.conds.items())
    if raw:
        ok = len(writes) == 1 and not responds and \
            response_of(writes[0].term[1], 'write') == trans
        ctx.ob('include-output', label, path, ok,
               'a raw include writes %s and responds %d times' % (
                   [show(e.term) for e in writes], len(responds)))
        ctx.ob('include-source', label + ': not compiled', path,
               not compiles, 'the text of a raw include is compiled')
        if ok:
            v = writes[0].args[0]
            if v[0] == 'idx' and v[1] == includes:
                v = stores.get(v[2], v)
            want = v == src if frm == 'str' else (
                v[0] == 'call' and callee_name(v) == 'getFileContents' and
                file_of(v[2][0], src, s))
            if v[0] == 'idx':
                want = hit
            ctx.ob('include-source', label, path, want,
                   'a raw include of %s writes %s' % (show(src), show(v)))
        return
    ok = len(responds) == 1 and not writes and (
        responds[0][0].args[:1] == (trans,) or
        dict(responds[0][0].term[3]).get('trans') == trans)
    ctx.ob('include-output', label, path, ok,
           'an include responds with %s and writes %d times' % (
               [show(e.term)[-60:] for e, _ in responds], len(writes)))
    if hit:
        ctx.ob('include-source', label + ': prepared before', path,
               not compiles, 'an include prepared before is compiled again')
        return
    ctx.ob('include-source', label + ': compiled once', path,
           len(compiles) == 1 and len(made) == 1,
           'a template is compiled %d times and made %d times' % (
               len(compiles), len(made)))
    if len(compiles) != 1 or len(made) != 1:
        return
    e = compiles[0]
    kw = dict(e.term[3])
    for i, a in enumerate(e.args):
        kw.setdefault(('source', 'file')[i] if i < 2 else str(i), a)
    kw = {k: v for k, v in kw.items() if v != NONE}
    if frm == 'str':
        good = kw.get('source') == src and 'file' not in kw
    else:
        good = 'source' not in kw and file_of(kw.get('file', NONE), src, s)
    ctx.ob('include-source', label, path, good,
           'an include of %s %s compiles %s' % (frm, show(src), {
               k: show(v) for k, v in kw.items()}))
    api = e.term[1][1]
    ctx.ob('include-class', label, path, api[0] == 'call' and
           callee_name(api) == API, 'an include is compiled by %s'
           % show(api)[:80])
    new = made[0].term
    kw = dict(new[3])
    sl = kw.get('_preBuiltSearchList', NONE)
    ctx.ob('include-context', label + ' search list', path,
           sl == ('attr', me, '_CHEETAH__searchList') or
           sl[0] == 'call' and callee_name(sl) == 'searchList' and
           sl[1][-1] is not None and show(sl) == 'self.searchList()',
           'the included template gets the search list %s' % show(sl))
    gv = kw.get('_globalSetVars', NONE)
    ctx.ob('include-context', label + ' global variables', path,
           gv == ('attr', me, '_CHEETAH__globalSetVars'),
           'the included template gets the global variables %s' % show(gv))
    if ok:
        r, fl = responds[0]
        recv = r.recv
        obj = stores.get(recv[2]) if recv[0] == 'idx' else recv
        ctx.ob('include-source', label + ': responds', path, obj == new,
               'the template that responds is %s' % show(recv)[:80])
        for a in ('_CHEETAH__initialFilter', '_CHEETAH__currentFilter'):
            v = fl.get((new, a)) or fl.get((recv, a)) or NONE
            ctx.ob('include-filter', '%s %s' % (label, a), path,
                   v == ('attr', me, '_CHEETAH__initialFilter'),
                   'the included template responds with %s = %s' % (
                       a, show(v)))
    ctx.ob('include-key', label + ' stored', path,
           new in stores.values(), 'the prepared template is not kept')


def file_of(t, src, s):
    """The file for a source: what serverSidePath makes of its name, or the
    file object itself."""
    if t == src:
        return any(k[0] == 'call' and callee_name(k) == 'isinstance' and
                   k[2][:1] == (src,) and v is False
                   for k, v in s.conds.items())
    if t[0] != 'call' or t[2] != (src,):
        return False
    return callee_name(t) == 'serverSidePath' or \
        callee_name(t) == 'normpath' and any(
            k[0] == 'call' and callee_name(k) == 'hasattr' and
            K('serverSidePath') in k[2] and v is False
            for k, v in s.conds.items())


def include_call(ctx, prog):
    em = Emitter(prog)
    path = prog.mod('Compiler').path
    for frm in ('file', 'str'):
        for raw in (False, True):
            it, res = em.drive('self.addInclude(expr, %r, %r)' % (frm, raw),
                               params=('expr',))
            from ..emit import stream, render
            for s in res:
                r = render(stream(s))
                label = '%s%s' % ('raw ' if raw else '', frm)
                if r.tree is None:
                    ctx.ob('include-call', label, path, False, r.err)
                    continue
                calls = [n for n in ast.walk(r.tree)
                         if isinstance(n, ast.Call)]
                ok = len(calls) == 1
                why = '%d calls' % len(calls)
                if ok:
                    n = calls[0]
                    kw = {k.arg: k.value for k in n.keywords}
                    f = prog.find_method(prog.cls('Template', 'Template'),
                                         '_handleCheetahInclude')
                    pos = [a.arg for a in f.node.args.args][1:]
                    for i, a in enumerate(n.args):
                        kw[pos[i]] = a
                    d = {p: v for p, v in zip(
                        reversed(pos), reversed(f.node.args.defaults))}

                    def lit(name):
                        v = kw.get(name, d.get(name))
                        return v.value if isinstance(v, ast.Constant) \
                            else None
                    hole = kw.get(pos[0])
                    hole = isinstance(hole, ast.Name) and r.holes.get(hole.id)
                    ok = hole == ('var', 'expr') and \
                        isinstance(kw.get('trans'), ast.Name) and \
                        kw['trans'].id == 'trans' and \
                        lit('includeFrom') == frm and \
                        bool(lit('raw')) is raw and \
                        ast.unparse(n.func) == 'self._handleCheetahInclude'
                    why = ast.unparse(n)
                ctx.ob('include-call', label, path, ok,
                       'a %s include generates %s' % (label, why))
    # the directive itself
    pm = prog.cls('Parser', '_HighLevelParser')
    f = prog.find_method(pm, 'eatInclude')
    if f is None:
        raise AnalysisBroken('eatInclude missing')
    known = {m for k in prog.mro(pm) for m in k.methods
             if m != 'eatInclude' and (k is not pm or m in (
                 '_applyExpressionFilters', '_eatRestOfDirectiveTag',
                 'isLineClearToStartToken'))}

    it = Interp(prog, depth=2, keep=lambda e: e.kind == 'call',
                opaque=lambda fn: fn.name in known)
    seen = {}
    src_ = ('var', '?')
    for s in it.run(f, selfcls=pm):
        if s.status == 'raise':
            continue
        adds = [e for e in s.events if e.name == 'addInclude']
        lits = {}
        for k, v in s.conds.items():
            if k[0] == 'call' and callee_name(k) in ('startswith',) and \
                    k[2] and is_const(k[2][0]):
                lits[k[2][0][2]] = v
                if k[2][0][2] in ('raw', 'source'):
                    ctx.ob('include-call', '#include of a name that starts '
                           'with ' + k[2][0][2], f.module.path, False,
                           'part of the name is taken for the word')
            if k[0] == 'cmp' and k[1] == '==':
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    if is_const(b) and isinstance(b[2], str):
                        lits[b[2]] = v
        raw = lits.get('raw') is True
        frm = 'str' if lits.get('source') is True else 'file'
        if len(adds) != 1:
            ctx.ob('include-call', '#include', f.module.path, False,
                   'the directive generates %d calls' % len(adds))
            continue
        e = adds[0]
        kw = dict(e.term[3])
        for i, a in enumerate(e.args):
            kw.setdefault(('sourceExpr', 'includeFrom', 'isRaw')[i], a)
        ok = (kw.get('includeFrom') == K('file')) is (frm == 'file') and \
            is_const(kw.get('includeFrom', src_)) and \
            kw.get('isRaw') == K(raw)
        seen[(raw, frm)] = True
        ctx.ob('include-call', '#include%s%s' % (
            ' raw' if raw else '', ' source=' if frm == 'str' else ''),
            f.module.path, ok, 'compiled as %s, %s' % (
                show(kw.get('includeFrom', NONE)),
                show(kw.get('isRaw', NONE))))
    ctx.ob('include-call', '#include forms', f.module.path, len(seen) == 4,
           'forms of the directive found: %s' % sorted(seen))


def search_list(ctx, prog, c):
    f = prog.find_method(c, '_initCheetahInstance')
    if f is None:
        raise AnalysisBroken('_initCheetahInstance missing')
    path = f.module.path
    me = ('self', c.qual)
    n1, n2, g = ('var', '@n1'), ('var', '@n2'), ('var', '@globals')
    lst = ('obj', 'list', 'given')
    single = ('var', '@single')

    def scenario(label, args, want, conds=None, given=None, prio=False):
        settings = ('var', '@settings')

        def hook(it, fn, a, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            if nm == 'getattr' and len(a) == 3 and is_const(a[1]) and \
                    a[1][2] == '_CHEETAH__instanceInitialized':
                return [(st, K(False))]
            if nm == 'isinstance' and a:
                if a[0] == lst:
                    return [(st, K(True))]
                if a[0] == single:
                    return [(st, K(False))]
                if a[0] == settings:
                    return [(st, K(True))]
            if fn[0] == 'attr' and fn[1] == settings and fn[2] == 'get':
                return [(st, K(prio))]
            return None
        a = {x.arg: NONE for x in f.node.args.args[1:]}
        a.update({'filter': K('F'), 'filtersLib': ('var', 'L'),
                  'compilerSettings': settings})
        a.update(args)
        heap = {}
        if given:
            heap[(given, 'items')] = (n1, n2)
        cc = {('cmp', 'is', x, NONE): False
              for x in (g, single, settings)}
        it = Interp(prog, depth=3, hook=hook)
        n = 0
        for s in it.run(f, selfcls=c, args=a,
                        init={'heap': heap, 'conds': cc}):
            if s.status == 'raise':
                continue
            n += 1
            sl = s.heap.get((me, '_CHEETAH__searchList'), NONE)
            gv = s.heap.get((me, '_CHEETAH__globalSetVars'), NONE)
            items = s.heap.get((sl, 'items'))
            w = tuple(gv if x == 'G' else me if x == 'self' else x
                      for x in want)
            ctx.ob('search-list', label, path, items == w,
                   'the search list is %s' % (
                       items and [show(x) for x in items] or show(sl)))
            if '_globalSetVars' in args:
                ctx.ob('search-list', label + ': shared globals', path,
                       gv == g, 'the global variables are %s' % show(gv))
            else:
                ctx.ob('search-list-own', label + ': own globals', path,
                       gv[0] == 'obj' and s.heap.get((gv, 'items')) == (),
                       'the global variables are %s' % show(gv))
            if given:
                ctx.ob('search-list-own', label, path, sl != given and
                       s.heap.get((given, 'items')) == (n1, n2),
                       'the given list is %s' % (
                           'used itself' if sl == given else 'changed'))
        if not n:
            raise AnalysisBroken('no path through _initCheetahInstance')
    scenario('no namespaces', {}, ('G', 'self'))
    scenario('searchList', {'searchList': lst}, ('G', 'self', n1, n2),
             given=lst)
    scenario('namespaces', {'namespaces': lst}, ('G', 'self', n1, n2),
             given=lst)
    scenario('prioritizeSearchListOverSelf', {'searchList': lst},
             (n1, n2, 'G', 'self'), given=lst, prio=True)
    scenario('one namespace', {'searchList': single}, ('G', 'self', single))
    scenario('one namespace, as namespaces', {'namespaces': single},
             ('G', 'self', single))
    scenario('one namespace first', {'searchList': single},
             (single, 'G', 'self'), prio=True)
    scenario('include', {'_preBuiltSearchList': lst, '_globalSetVars': g},
             (n1, n2, 'self'), given=lst)


def forwards(ctx, prog, c):
    """Every way through the constructor that gets to the initialisation of
    the instance hands its arguments on."""
    f = prog.find_method(c, '__init__')
    target = prog.find_method(c, '_initCheetahInstance')
    pos = [a.arg for a in target.node.args.args][1:]
    mine = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs][1:]

    def hook(it, fn, args, kw, st, n):
        # the arguments have the types the constructor asks for
        if fn in (('bi', 'isinstance'), ('bi', 'issubclass')):
            return [(st, K(True))]
        return None
    it = Interp(prog, depth=1, keep=lambda e: e.kind == 'call' and
                e.name == '_initCheetahInstance', loop_max=1,
                opaque={'convertVersionStringToTuple',
                        '_initCheetahInstance', '_compile'}, hook=hook)
    n = 0
    for s in it.run(f, selfcls=c):
        if s.status == 'raise':
            continue
        evs = [e for e in s.events]
        ctx.ob('init-forwards', 'initialised once', f.module.path,
               len(evs) == 1, 'the instance is initialised %d times'
               % len(evs))
        if len(evs) != 1:
            continue
        n += 1
        kw = dict(evs[0].term[3])
        for i, a in enumerate(evs[0].args):
            kw[pos[i]] = a
        for p in pos:
            if p in mine:
                ctx.ob('init-forwards', p, f.module.path,
                       kw.get(p) == ('var', p),
                       'the argument %s arrives as %s' % (
                           p, show(kw.get(p, NONE))))
    if not n:
        raise AnalysisBroken('no path through Template.__init__')


CHECKS = {
    'C10': (c10, '#include and the search list'),
    'C11': (c11, 'transactions of generated methods'),
}
