"""C18 cached regions deliver fresh data, C19 cache stores keep their
contract."""
import itertools

from ..absint import (K, NONE, Interp, callee_name, contains, is_const, show,
                      walk)
from ..emit import Emitter, whole_method, method_of
from ..drive import drive
from ..model import AnalysisBroken


class Paths(Interp):
    """Keeps paths apart that differ only in what was found out."""

    def merge(self, states):
        return states


def loc_of(f):
    return '%s:%d' % (f.module.path, f.node.lineno)


def get(prog, mod, cls, name=None):
    c = prog.cls(mod, cls)
    if c is None:
        raise AnalysisBroken('%s.%s missing' % (mod, cls))
    if name is None:
        return c
    f = prog.find_method(c, name)
    if f is None:
        raise AnalysisBroken('%s.%s missing' % (cls, name))
    return f


# ---------------------------------------------------------------- C19

KEY = K('k')
OTHER = (K('o'), ('tup', (('var', 'otherval'), ('var', 'othertime'))))
OLD = (KEY, ('tup', (('var', 'oldval'), ('var', 'oldtime'))))
NEWV, NEWT = ('var', 'val'), ('var', 'time')


def c19(ctx):
    ctx.rule('memory', 'in whatever state the store is, each operation does '
             'what the protocol says and leaves other keys alone', 10)
    ctx.rule('memory-expiry', 'a value is returned only while it has not '
             'expired, and unchanged', 2)
    ctx.rule('memcached', 'each operation is exactly one operation of the '
             'client with the same key, value and time, and reports its '
             'failure as the protocol says', 8)
    ctx.rule('attributes', 'stores use only attributes they have', 10)
    prog = ctx.prog
    memory(ctx, prog)
    memcached(ctx, prog)
    attributes(ctx, prog)


def outcome(s):
    if s.status == 'raise':
        v = s.val
        if v[0] == 'exc':
            return ('raise', 'any')
        return ('raise', callee_name(v) if v[0] == 'call' else show(v))
    return ('return', s.val)


def new_value(items):
    """The value and time stored for the key in the final state."""
    for k, v in items or ():
        if k == KEY:
            return v
    return None


def find_container(c, prog):
    """The attribute the store keeps its data in, from its constructor."""
    f = prog.find_method(c, '__init__')
    me = ('self', c.qual)
    if f is None:
        raise AnalysisBroken('the store has no constructor')
    out = set()
    for s in Paths(prog, depth=3).run(f, selfcls=c):
        for k, v in s.heap.items():
            if len(k) == 2 and k[0] == me and v[0] == 'obj' and \
                    v[1] == 'dict':
                out.add(k[1])
    if len(out) != 1:
        raise AnalysisBroken('the data of the store is not in one '
                             'dictionary')
    return out.pop()


def params(f, *vals):
    names = [a.arg for a in f.node.args.args][1:]
    return dict(zip(names, vals))


def record(prog, c, attr, me):
    """How the store records a value: run set on an empty store."""
    f = prog.find_method(c, 'set')
    d = ('obj', 'dict', '@data')
    for s in Paths(prog, depth=4, exact=True).run(
            f, selfcls=c, args=params(f, KEY, NEWV, NEWT),
            init={'heap': {(me, attr): d, (d, 'items'): ()}}):
        return new_value(s.heap.get((d, 'items')))


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def memory(ctx, prog):
    c = get(prog, 'CacheStore', 'MemoryCacheStore')
    me = ('self', c.qual)
    attr = find_container(c, prog)
    rec = record(prog, c, attr, me)
    loc0 = '%s:%d' % (c.module.path, c.node.lineno)
    if rec is None or not contains(rec, lambda x: x == NEWV):
        ctx.ob('memory', 'set', loc0, False, 'set does not record the value')
        return
    if not contains(rec, lambda x: x == NEWT):
        ctx.ob('memory', 'set', loc0, False, 'set does not record the time')
        return
    oldrec = subst(rec, {NEWV: ('var', 'oldval'), NEWT: ('var', 'oldtime')})
    othrec = subst(rec, {NEWV: ('var', 'otherval'),
                         NEWT: ('var', 'othertime')})
    d = ('obj', 'dict', '@data')
    for op in ('set', 'add', 'replace', 'get', 'delete', 'clear'):
        f = get(prog, 'CacheStore', 'MemoryCacheStore', op)
        for has in (False, True):
            items = ((K('o'), othrec),)
            if has:
                items += ((KEY, oldrec),)
            args = params(f, KEY, NEWV, NEWT) if op != 'clear' else {}
            for s in Paths(prog, depth=4, exact=True).run(
                    f, selfcls=c, args=args,
                    init={'heap': {(me, attr): d, (d, 'items'): items}}):
                got = outcome(s)
                cur = s.heap.get((me, attr))
                after = s.heap.get((cur, 'items')) if cur else None
                if after is None:
                    ctx.ob('memory', '%s unknown' % op, loc_of(f), False,
                           'what %s leaves in the store is not known' % op)
                    continue
                val = new_value(after)
                oth = dict(after).get(K('o'))
                expired = any(
                    v and t[0] == 'cmp' and t[1] == '<' and t[2] == (
                        'var', 'oldtime') for t, v in s.conds.items())
                fresh = any(
                    not v and (t == ('var', 'oldtime') or (
                        t[0] == 'cmp' and t[1] == '<' and t[2] == (
                            'var', 'oldtime')) or (
                        t[0] == 'cmp' and t[1] in ('==', 'is') and False))
                    for t, v in s.conds.items())
                label = '%s of a %s key' % (op, 'present' if has else
                                            'missing')
                if op == 'clear':
                    ctx.ob('memory', label, loc_of(f), got[0] == 'return'
                           and not after, 'clear leaves %s' % (after,))
                    continue
                ok = oth == othrec
                why = 'another key was changed'
                if op == 'set' or (op == 'add' and not has) or (
                        op == 'replace' and has):
                    want = 'stores the value'
                    k = got[0] == 'return' and val == rec
                    if op == 'replace' and expired:
                        k = k or got == ('raise', 'Error')
                elif op in ('add', 'replace'):
                    want = 'raises Error and stores nothing'
                    k = got == ('raise', 'Error') and val == (
                        oldrec if has else None)
                    if op == 'add' and expired:
                        k = True
                elif op == 'delete':
                    want = 'removes the value' if has else 'raises KeyError'
                    k = (got[0] == 'return' and val is None) if has else (
                        got == ('raise', 'KeyError') and val is None)
                    if expired:
                        k = k or got == ('raise', 'KeyError')
                else:
                    if not has:
                        want = 'raises KeyError'
                        k = got == ('raise', 'KeyError') and val is None
                    elif expired:
                        want = 'raises KeyError'
                        k = got == ('raise', 'KeyError')
                        label += ', expired'
                    elif fresh:
                        want = 'returns the stored value and keeps it'
                        k = got == ('return', ('var', 'oldval')) and \
                            val == oldrec
                        label += ', fresh'
                    else:
                        want = 'returns or drops it according to its time'
                        k = False
                    ctx.ob('memory-expiry', label, loc_of(f), k and ok,
                           '%s: %s must be that it %s, it is %s (stored: '
                           '%s)' % (label, op, want, show_out(got),
                                    show(val) if val else 'nothing'))
                    # the time compared with is now
                    for t, v in s.conds.items():
                        if t[0] == 'cmp' and t[1] == '<' and \
                                ('var', 'oldtime') in t[2:]:
                            other = t[3] if t[2] == ('var', 'oldtime') \
                                else t[2]
                            ctx.ob('memory-expiry', 'time compared with',
                                   loc_of(f), callee_name(other) == 'time'
                                   and t[2] == ('var', 'oldtime'),
                                   'expiry is decided by %s' % show(t))
                    continue
                ctx.ob('memory', label, loc_of(f), k and ok, why if k else
                       '%s must be that it %s, but it ends with %s and the '
                       'store holds %s' % (label, want, show_out(got),
                                           show(val) if val else 'nothing'))
                ctx.unit('operations', label)


def show_out(o):
    return o[1] if o[0] == 'raise' else 'the value %s' % show(o[1])


def memcached(ctx, prog):
    c = prog.cls('CacheStore', 'MemcachedCacheStore')
    if c is None:
        return
    for op in ('set', 'add', 'replace', 'get', 'delete', 'clear'):
        f = prog.find_method(c, op)
        if f is None:
            ctx.ob('memcached', op, c.module.path, False, 'missing')
            continue
        calls = []

        def hook(it, fn, a, kw, st, n):
            if fn[0] == 'attr' and contains(
                    fn[1], lambda x: x[0] == 'attr' and 'client' in
                    str(x[2]).lower()):
                calls.append((fn[2], tuple(a), tuple(kw)))
                it.emit(st, 'op', ('call', fn, tuple(a), tuple(kw), None), n)
                return [(st, ('var', '@res'))]
            return None
        for s in Paths(prog, depth=4, hook=hook,
                       keep=lambda e: e.kind == 'op').run(
                f, selfcls=c, args=params(f, KEY, NEWV, NEWT)):
            ops = [e.term for e in s.events]
            got = outcome(s)
            want = {'clear': 'flush_all'}.get(op, op)
            ok = len(ops) == 1 and ops[0][1][2] == want
            if ok and op in ('set', 'add', 'replace'):
                vals = list(ops[0][2]) + [v for k, v in ops[0][3]]
                ok = vals == [KEY, NEWV, NEWT]
            elif ok and op in ('get', 'delete'):
                ok = ops[0][2][:1] == (KEY,)
            ctx.ob('memcached', '%s operation' % op, loc_of(f), ok,
                   '%s does %s' % (op, [show(x) for x in ops]))
            res = None
            for t, v in s.conds.items():
                if t == ('var', '@res'):
                    res = v
            t = s.conds.get(('cmp', 'is', ('var', '@res'), NONE))
            if t is not None:
                res = not t
            elif op == 'get' and res is False:
                res = True      # an empty text is a value like another
            if op in ('set', 'clear'):
                k = got[0] == 'return'
            elif res is None:
                k = False
            elif res:
                k = got[0] == 'return' and (op != 'get' or
                                            got[1] == ('var', '@res'))
            else:
                k = got == ('raise', 'KeyError' if op in (
                    'get', 'delete') else 'Error')
            ctx.ob('memcached', '%s result (%s)' % (op, res), loc_of(f), k,
                   '%s ends with %s when the client answers %s' % (
                       op, show_out(got), {True: 'with success',
                                           False: 'with failure'}.get(
                           res, 'anything')))


def attributes(ctx, prog):
    import ast
    for c in prog.mod('CacheStore').classes.values():
        have = set()
        for k in prog.mro(c):
            for st in k.node.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    have.add(st.name)
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store) and isinstance(
                                n.value, ast.Name) and n.value.id == 'self':
                        have.add(n.attr)
                    if isinstance(st, ast.Assign) and isinstance(
                            n, ast.Name) and isinstance(n.ctx, ast.Store):
                        have.add(n.id)
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == 'self' and \
                        isinstance(n.ctx, ast.Load) and \
                        not n.attr.startswith('__'):
                    ctx.ob('attributes', '%s.%s' % (c.name, n.attr),
                           '%s:%d' % (c.module.path, n.lineno),
                           n.attr in have, '%s has no attribute %s' % (
                               c.name, n.attr))


# ---------------------------------------------------------------- C18

ITEM, REGION = ('var', '@item'), ('var', '@region')


def c18(ctx):
    ctx.rule('served', 'a region outputs stored data only for an item that '
             'has been filled, has not expired and whose test does not ask '
             'for a refresh', 8)
    ctx.rule('refilled', 'otherwise its body is executed once, the text it '
             'produced is output once and stored, with the expiry time the '
             'interval asks for', 16)
    ctx.rule('used', 'the body is not executed when fresh data is there', 8)
    ctx.rule('keys', 'the region and the item are those the template names',
             8)
    ctx.rule('item', 'an item stores, expires, returns and clears its own '
             'data only', 8)
    ctx.rule('lookup', 'the same region and item is found again for the '
             'same identifiers, another one for others', 6)
    ctx.rule('refresh', 'refreshCache clears what it is asked to, whether or '
             'not it holds data', 5)
    ctx.rule('interval', 'a refresh interval is read in the unit it is '
             'written in', 12)
    ctx.rule('store', 'the data of a region is kept in the store of its '
             'template, under keys of that template, region and item', 6)
    ctx.rule('token', 'the cache token of a placeholder ($*, $*30m*) asks '
             'for the caching it spells', 3)
    ctx.rule('arguments', 'the arguments of #cache reach the region as they '
             'are written, a timer as its interval', 10)
    prog = ctx.prog
    generated(ctx, prog)
    items(ctx, prog)
    lookup(ctx, prog)
    refresh(ctx, prog)
    interval(ctx, prog)
    in_store(ctx, prog)
    no_clash(ctx, prog)
    token(ctx, prog)
    arguments(ctx, prog)


def info(interval_, test, vary, cid):
    d = {'type': 2}
    if interval_:
        d['interval'] = 90.0
    if test:
        d['test'] = 'TEST_()'
    if vary:
        d['varyBy'] = 'VARY_()'
    if cid:
        d['id'] = 'cid'
    return d


def generated(ctx, prog):
    em = Emitter(prog)
    tcls = get(prog, 'Template', 'Template')
    icls = get(prog, 'CacheRegion', 'CacheItem')
    rcls = get(prog, 'CacheRegion', 'CacheRegion')
    gen = prog.find_method(em.meth, 'startCacheRegion')
    if gen is None:
        raise AnalysisBroken('startCacheRegion missing')
    loc = loc_of(gen)
    fixed = {'autoAssignDummyTransactionToSelf': False}

    def idhook(it, fn, a, kw, st, n):
        if callee_name(('call', fn, (), (), None)) == 'nextCacheID':
            return [(st, K('_77'))]
        return None
    for combo in itertools.product((False, True), repeat=4):
        label = ', '.join(x for x, y in zip(
            ('timer', 'test', 'varyBy', 'id'), combo) if y) or 'plain'
        d = info(*combo)
        body = 'self.startCacheRegion(%r, (3, 7))\n' \
               "self.addChunk('write(BODY_())')\nself.endCacheRegion()" % d
        it, texts = whole_method(em, body, fixed=fixed, hook=idhook)
        seen = set()
        for text, holes, st in texts:
            if text is None or text in seen:
                continue
            seen.add(text)
            f, err = method_of(prog, text)
            if f is None:
                ctx.ob('refilled', label, loc, False,
                       'the generated code does not parse: %s' % err[:200])
                continue
            judge_region(ctx, prog, f, label, combo, loc, tcls, icls, rcls)
        if not seen:
            ctx.ob('refilled', label, loc, False, 'no code is generated')


def judge_region(ctx, prog, f, label, combo, loc, tcls, icls, rcls):
    has_int, has_test, has_vary, has_id = combo
    asked = {'region': set(), 'item': set()}

    def receiver(t):
        return icls if t == ITEM else rcls if t == REGION else None

    def hook(it, fn, a, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        if nm == 'getCacheRegion':
            asked['region'].add(a[0] if a else dict(kw).get('regionID'))
            return [(st, REGION)]
        if nm == 'getCacheItem':
            asked['item'].add(a[0] if a else dict(kw).get('cacheItemID'))
            return [(st, ITEM)]
        if fn[0] == 'free' and fn[1] == 'BODY_':
            it.emit(st, 'body', NONE, n)
            return [(st, ('var', '@bodytext'))]
        if fn[0] == 'free' and fn[1] in ('TEST_', 'VARY_'):
            return [(st, ('var', '@' + fn[1]))]
        if fn[0] == 'attr' and fn[1] == ('attr', ITEM, '_cacheStore') or (
                fn[0] == 'attr' and contains(
                    fn[1], lambda x: x == ITEM) and nm in (
                        'get', 'set', 'delete')):
            it.emit(st, 'store', ('call', fn, tuple(a), tuple(kw), None), n)
            if nm == 'get':
                out = [(st, ('var', '@data'))]
                for exc in ('KeyError', 'ZeroDivisionError'):
                    s = st.copy()
                    s.conds[('store', exc)] = True
                    s.status = 'raise'
                    s.val = ('call', ('bi', exc), (), (), None)
                    out.append((s, NONE))
                return out
            return [(st, NONE)]
        if not a and (fn == ('free', 'currentTime') or
                      nm in ('time', 'currentTime')):
            return [(st, ('var', '@now'))]
        if nm == 'write' and len(a) == 1:
            it.emit(st, 'write', ('call', fn, tuple(a), (), None), n)
            return [(st, NONE)]
        return None
    it = Paths(prog, hook=hook, receiver=receiver, depth=5,
               pure={'response', 'getvalue'}, max_states=20000,
               keep=lambda e: e.kind in ('write', 'body', 'store'))
    for s in it.run(f, selfcls=tcls, args={'trans': ('var', 'trans')}):
        body = [e for e in s.events if e.kind == 'body']
        writes = [e for e in s.events if e.kind == 'write']
        sets = [e for e in s.events if e.kind == 'store' and
                e.term[1][2] == 'set']
        gets = [e for e in s.events if e.kind == 'store' and
                e.term[1][2] == 'get']
        c = body[0].conds if body else s.conds
        ctx.unit('paths through cached regions', '%s %d' % (
            label, len(ctx.units.get('paths through cached regions', ()))))

        def fact(attr):
            t = ('attr', ITEM, attr)
            for k, v in c.items():
                if k == t:
                    return v
                if k[0] == 'cmp' and k[1] == 'is' and k[2] == t and \
                        k[3] == NONE:
                    return not v
            return None
        filled = fact('_refreshTime')
        timed = fact('_expiryTime')
        past = next((v for k, v in c.items() if k[0] == 'cmp' and
                     k[1] == '<' and k[2] == ('attr', ITEM, '_expiryTime')
                     and k[3] == ('var', '@now')), None)
        notpast = past is False or timed is False
        test = c.get(('var', '@TEST_'))
        failed = c.get(('store', 'KeyError'))
        other = c.get(('store', 'ZeroDivisionError'))
        new = next((v for k, v in c.items() if k == (
            'attr', REGION, '_isNew')), None)
        if s.status == 'raise':
            ctx.ob('used', '%s: errors of the store' % label, loc,
                   bool(other) and callee_name(s.val) == 'ZeroDivisionError',
                   'the region ends with %s' % show(s.val))
            continue
        if other:
            ctx.ob('used', '%s: errors of the store' % label, loc, False,
                   'an error of the cache store is swallowed')
            continue
        datawrites = [e for e in writes if e.term[2][0] not in (
            ('var', '@bodytext'),)]
        stored = [e for e in writes if contains(
            e.term[2][0], lambda x: x == ('var', '@data'))]
        if not body:
            ok = filled is True and notpast and (
                not has_test or test is False) and gets and not failed
            why = 'not filled' if filled is not True else 'expired' \
                if not notpast else 'asked to be refreshed' \
                if has_test and test is not False else 'missing'
            ctx.ob('served', label, loc, ok, 'the body is skipped although '
                   'the item may be %s' % why)
            ctx.ob('served', label + ': once', loc, len(stored) == 1 and
                   len(writes) == 1 or (len(writes) == 1 and c.get(
                       ('var', '@data')) is False),
                   'stored data is written %d times' % len(stored))
            ctx.ob('served', label + ': kept', loc, not sets,
                   'data is stored again although the body was not '
                   'executed')
            continue
        reason = filled is False or past is True or test is True or \
            failed or new is True
        ctx.ob('used', label, loc, reason, 'the body is executed although '
               'nothing says that the stored data is stale')
        ctx.ob('refilled', label + ': body once', loc, len(body) == 1 and
               not stored, 'the body is executed %d times, stored data '
               'output %d times' % (len(body), len(stored)))
        # where the body writes, and what is stored and output
        coll = [e for e in writes if e.term[2][0] == ('var', '@bodytext')]
        ok = len(coll) == 1
        text = None
        if ok:
            w = coll[0].term[1]
            # write is <collector>.response().write
            text = w[1] if w[0] == 'attr' else None
        val = ('call', ('attr', text, 'getvalue'), (), (), None) \
            if text else None
        ok = val is not None and len(sets) == 1 and \
            (sets[0].term[2] + tuple(v for k, v in sets[0].term[3]))[
                1:2] == (val,)
        ctx.ob('refilled', label + ': stored', loc, ok, 'what is stored is '
               'not (once) the text the body wrote: %s' % [
                   show(e.term) for e in sets])
        outs = [e for e in datawrites if e.term[2][0] == val]
        ctx.ob('refilled', label + ': output', loc, len(outs) == 1 and
               len(datawrites) == 1, 'the text of the body is output %d '
               'times' % len(outs))
        if sets:
            a = sets[0].term[2] + tuple(v for k, v in sets[0].term[3])
            exp = a[2] if len(a) > 2 else K(0)
            cur = ('attr', ITEM, '_expiryTime')
            if has_int:
                ok = contains(exp, lambda x: x == ('var', '@now')) and \
                    contains(exp, lambda x: is_const(x) and x[2] == 90.0)
            else:
                ok = exp == cur or (is_const(exp) and not exp[2])
            ctx.ob('refilled', label + ': expiry', loc, ok,
                   'the data is stored with the expiry time %s' % show(exp))
            ctx.ob('refilled', label + ': expiry of the item', loc,
                   s.heap.get((ITEM, '_expiryTime'), cur) == (
                       exp if has_int else cur), 'the item and the store '
                   'have different expiry times')
            ctx.ob('refilled', label + ': filled', loc,
                   (ITEM, '_refreshTime') in s.heap and
                   s.heap[(ITEM, '_refreshTime')] not in (NONE, K(0)),
                   'the item is not marked as filled')
            if gets:
                ctx.ob('keys', label + ': data key', loc,
                       a[0] == gets[0].term[2][0], 'data is stored under %s '
                       'and read under %s' % (show(a[0]), show(
                           gets[0].term[2][0])))
    want_r = K('cid') if has_id else K('_77')
    want_i = ('var', '@VARY_') if has_vary else want_r
    ctx.ob('keys', label + ': region', loc, asked['region'] == {want_r},
           'the region is looked up as %s' % [show(x) for x in
                                              asked['region']])
    ctx.ob('keys', label + ': item', loc, asked['item'] == {want_i},
           'the item is looked up as %s' % [show(x) for x in asked['item']])


def items(ctx, prog):
    c = get(prog, 'CacheRegion', 'CacheItem')
    me = ('self', c.qual)
    sid = ('var', '@id')
    store = ('var', '@store')
    f0 = get(prog, 'CacheRegion', 'CacheItem', '__init__')
    init = None
    for s in Paths(prog, depth=3).run(f0, selfcls=c,
                                      args=params(f0, sid, store)):
        init = dict(s.heap)
        ctx.ob('item', 'a new item', loc_of(f0),
               s.status == 'return' and
               init.get((me, '_refreshTime')) == NONE and
               not cval0(init.get((me, '_expiryTime'))),
               'a new item is taken for filled or timed')

    def calls(s):
        return [e.term for e in s.events if e.kind == 'store']

    def run(name, extra=None, fail=False, *vals):
        f = get(prog, 'CacheRegion', 'CacheItem', name)

        def hook(it, fn, a, kw, st, n):
            nm = callee_name(('call', fn, (), (), None))
            if fn[0] == 'attr' and fn[1] == store:
                it.emit(st, 'store', ('call', fn, tuple(a), tuple(kw),
                                      None), n)
                out = [(st, ('var', '@data'))]
                if fail:
                    s = st.copy()
                    s.conds[('store', 'KeyError')] = True
                    s.status = 'raise'
                    s.val = ('call', ('bi', 'KeyError'), (), (), None)
                    out.append((s, NONE))
                return out
            if nm == 'time' and not a:
                return [(st, ('var', '@now'))]
            return None
        heap = dict(init)
        heap.update({(me, k): v for k, v in (extra or {}).items()})
        return f, Paths(prog, depth=4, hook=hook,
                        keep=lambda e: e.kind == 'store').run(
            f, selfcls=c, args=params(f, *vals), init={'heap': heap})
    e = ('var', '@expiry')
    f, ss = run('hasExpired', {'_expiryTime': e})
    for s in ss:
        v = s.val
        t = ('cmp', '<', e, ('var', '@now'))
        ok = v in (('and', (e, t)), t, ('call', ('bi', 'bool'), (
            ('and', (e, t)),), (), None)) or (
            is_const(v) and (not v[2]) == (
                s.conds.get(e) is False or s.conds.get(t) is False)) or (
            v == t and s.conds.get(e) is True) or (
            v == e and s.conds.get(e) is False)
        ctx.ob('item', 'expired', loc_of(f), ok,
               'an item is expired if %s' % show(v))
    f, ss = run('hasExpired', {})
    for s in ss:
        ctx.ob('item', 'never expires', loc_of(f), s.status == 'return' and
               is_const(s.val) and not s.val[2],
               'an item without expiry time has expired: %s' % show(s.val))
    f, ss = run('setExpiryTime', {}, False, e)
    for s in ss:
        ctx.ob('item', 'setExpiryTime', loc_of(f),
               s.heap.get((me, '_expiryTime')) == e and not calls(s),
               'setExpiryTime sets %s' % show(s.heap.get(
                   (me, '_expiryTime'))))
    f, ss = run('setData', {'_expiryTime': e}, False, ('var', '@new'))
    for s in ss:
        cs = calls(s)
        a = cs[0][2] + tuple(v for k, v in cs[0][3]) if cs else ()
        ctx.ob('item', 'setData', loc_of(f), len(cs) == 1 and
               cs[0][1][2] == 'set' and a == (sid, ('var', '@new'), e) and
               s.heap.get((me, '_refreshTime')) == ('var', '@now'),
               'setData does %s' % [show(x) for x in cs])
    for nm in ('getData', 'renderOutput'):
        f, ss = run(nm, {'_refreshTime': ('var', '@then')}, True)
        for s in ss:
            cs = calls(s)
            if s.conds.get(('var', '@then')) is False:
                continue
            if s.conds.get(('store', 'KeyError')):
                ctx.ob('item', nm + ': gone', loc_of(f),
                       s.status == 'raise' and callee_name(s.val) ==
                       'KeyError', 'missing data is not reported')
                continue
            ctx.ob('item', nm, loc_of(f), s.status == 'return' and
                   len(cs) == 1 and cs[0][1][2] == 'get' and
                   cs[0][2] == (sid,) and s.val in (
                       ('var', '@data'),
                       ('or', (('var', '@data'), K('')))) or (
                       s.val == K('') and s.conds.get(
                           ('var', '@data')) is False),
                   '%s returns %s' % (nm, show(s.val)))
    f, ss = run('clear', {'_refreshTime': ('var', '@then')}, True)
    for s in ss:
        cs = calls(s)
        ctx.ob('item', 'clear', loc_of(f), s.status == 'return' and
               [x[1][2] for x in cs] == ['delete'] and
               cs[0][2] == (sid,) and s.heap.get(
                   (me, '_refreshTime')) == NONE,
               'clear %s, and does %s' % (
                   'fails when the store has no data of the item'
                   if s.status == 'raise' else 'leaves the item filled',
                   [show(x) for x in cs]))


def cval0(t):
    return t[2] if t is not None and is_const(t) else True


def lookup(ctx, prog):
    c = get(prog, 'CacheRegion', 'CacheRegion')
    me = ('self', c.qual)
    f = get(prog, 'CacheRegion', 'CacheRegion', 'getCacheItem')
    d = ('obj', 'dict', '@items')
    ident = ('var', '@ident')
    hit = set()
    for s in Paths(prog, depth=4, exc='all', exc_calls=lambda t: callee_name(
            t) == 'encode').run(f, selfcls=c, args=params(f, ident), init={
                'heap': {(me, '_cacheItems'): d}}):
        if s.status == 'raise':
            # an encoding that covers all of Unicode does not fail
            t = s.val[1] if s.val[0] == 'exc' else s.val
            a = [x[2] for x in t[2] if is_const(x)] if t[0] == 'call' else []
            ctx.ob('lookup', 'any identifier', loc_of(f), a[:1] in (
                ['utf-8'], ['utf8'], ['UTF-8']) and a[1:] != ['strict'] and
                len(a) > 1 or a[:1] in (['unicode_escape'],
                                        ['raw_unicode_escape']),
                'an identifier is encoded as %s, which fails for some' % a)
            continue
        v = s.val
        new = [k for k in s.heap if len(k) == 3 and k[0] == d]
        if v[0] == 'idx' and v[1] == d:
            key = v[2]
            inn = s.conds.get(('cmp', 'in', key, d))
            ctx.ob('lookup', 'known item', loc_of(f), inn is True or bool(
                new), 'an item is taken without knowing that it exists')
        elif new and s.heap[new[0]] == v:
            key = new[0][2]
            inn = s.conds.get(('cmp', 'in', key, d))
            kn = [k for k, val in s.conds.items() if k[0] == 'cmp' and
                  k[1] in ('is', 'in') or k[0] == 'call']
            ctx.ob('lookup', 'new item', loc_of(f), inn is False or any(
                contains(k, lambda x: x == key) for k in kn),
                'an existing item is replaced by a new one')
            isnew = get(prog, 'CacheRegion', 'CacheRegion', 'isNew')
            for s2 in Paths(prog, depth=3).run(isnew, selfcls=c, init={
                    'heap': dict(s.heap)}):
                ctx.ob('lookup', 'region in use', loc_of(f),
                       s2.status == 'return' and is_const(s2.val) and
                       not s2.val[2], 'a region that has an item is still '
                       'taken for new, its data is never used')
            args = dict(v[3]) if v[0] == 'call' else {}
            vals = list(v[2]) + list(args.values()) if v[0] == 'call' else []
            ctx.ob('lookup', 'new item: key', loc_of(f), key in vals,
                   'a new item is created with %s' % [show(x) for x in
                                                      vals])
            ctx.ob('lookup', 'new item: store', loc_of(f), any(
                'rappedCacheDataStore' in str(x) for x in vals) or any(
                x[0] == 'attr' and x[1] == me for x in vals),
                'a new item does not use the store of its region')
        else:
            key = next((x[2][0] for x in walk(v) if x[0] == 'call' and
                        callee_name(x) in ('get', 'setdefault') and x[2]),
                       None)
            ctx.ob('lookup', 'result', loc_of(f), key is not None,
                   'getCacheItem returns %s' % show(v))
            if key is None:
                continue
        hit.add(key)
    ctx.ob('lookup', 'one key', loc_of(f), len(hit) == 1 and all(
        contains(k, lambda x: x == ident) for k in hit) and not any(
        contains(k, lambda x: x[0] == 'attr' and x[1] == me) for k in hit),
        'items are found and stored under %s' % [show(x) for x in hit])
    ctx.ob('lookup', 'different keys', loc_of(f), all(
        injective(k, ident) for k in hit), 'different identifiers may get '
        'the same item: %s' % [show(x) for x in hit])
    # regions of a template
    t = get(prog, 'Template', 'Template')
    g = get(prog, 'Template', 'Template', 'getCacheRegion')
    tme = ('self', t.qual)
    r = ('obj', 'dict', '@regions')
    for has in (False, True):
        for create in (False, True):
            heap = {(tme, '_CHEETAH__cacheRegions'): r,
                    (r, 'items'): ((K('o'), ('var', '@other')),) + (
                        ((K('k'), ('var', '@mine')),) if has else ())}

            def hook(it, fn, a, kw, st, n):
                if callee_name(('call', fn, (), (), None)) == \
                        '_createCacheRegion':
                    return [(st, ('new', a[0] if a else None))]
                return None
            names = [x.arg for x in g.node.args.args][1:]
            args = {names[0]: K('k')}
            if 'create' in names:
                args['create'] = K(create)
            for s in Paths(prog, depth=4, hook=hook, exact=True).run(
                    g, selfcls=t, args=args, init={'heap': heap,
                        'conds': {('var', '@mine'): True}}):
                after = dict(s.heap.get((r, 'items')) or ())
                want = ('var', '@mine') if has else (
                    ('new', K('k')) if create else NONE)
                ctx.ob('lookup', 'region (%s, %s)' % (
                    'present' if has else 'missing',
                    'create' if create else 'no create'), loc_of(g),
                    s.status == 'return' and s.val == want and
                    after.get(K('k'), NONE) == want and
                    after.get(K('o')) == ('var', '@other'),
                    'getCacheRegion returns %s and keeps %s' % (
                        show(s.val), {show(a): show(b) for a, b in
                                      after.items()}))


LOSSY = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'hash', 'len',
         'title', 'split', 'swapcase', 'casefold', 'capitalize', 'replace'}


def injective(k, ident):
    """A digest (of the text) of the identifier, nothing lost before."""
    for x in walk(k):
        if x[0] == 'call' and contains(x, lambda y: y == ident):
            if callee_name(x) in LOSSY:
                return False
            if callee_name(x) == 'encode':
                a = [y[2] for y in x[2] if is_const(y)]
                if any(y in ('ignore', 'replace') for y in a):
                    return False
        if x[0] == 'idx' and contains(x[1], lambda y: y == ident):
            return False
    return True


def refresh(ctx, prog):
    c = get(prog, 'CacheRegion', 'CacheRegion')
    me = ('self', c.qual)
    f = get(prog, 'CacheRegion', 'CacheRegion', 'clear')
    d = ('obj', 'dict', '@items')
    its = tuple((K('k%d' % i), ('var', '@i%d' % i)) for i in range(3))

    def hook(it, fn, a, kw, st, n):
        if fn[0] == 'attr' and fn[1][0] == 'var' and fn[2] == 'clear':
            it.emit(st, 'clear', fn[1], n)
            return [(st, NONE)]
        return None
    for s in Paths(prog, depth=3, hook=hook, exact=True, loop_max=5,
                   keep=lambda e: e.kind == 'clear').run(
            f, selfcls=c, init={'heap': {(me, '_cacheItems'): d,
                                         (d, 'items'): its}}):
        got = sorted(e.term[1] for e in s.events)
        cur = s.heap.get((me, '_cacheItems'))
        ctx.ob('refresh', 'region', loc_of(f), s.status == 'return' and
               got == ['@i0', '@i1', '@i2'], 'clearing a region of three '
               'items clears %s' % got)
        ctx.ob('refresh', 'region emptied', loc_of(f),
               s.heap.get((cur, 'items')) in ((), its) if cur else False,
               'some items stay in the region')
    t = get(prog, 'Template', 'Template')
    g = get(prog, 'Template', 'Template', 'refreshCache')
    tme = ('self', t.qual)
    r = ('obj', 'dict', '@regions')
    regs = tuple((K('r%d' % i), ('var', '@r%d' % i)) for i in range(3))

    def hook2(it, fn, a, kw, st, n):
        nm = callee_name(('call', fn, (), (), None))
        if fn[0] == 'attr' and fn[2] == 'clear' and fn[1][0] in (
                'var', 'item'):
            it.emit(st, 'clear', fn[1], n)
            return [(st, NONE)]
        if nm == 'getCacheItem':
            return [(st, ('item', fn[1], a[0]))]
        return None
    names = [x.arg for x in g.node.args.args][1:]
    for rid, iid, want in (
            (None, None, ['@r0', '@r1', '@r2']),
            ('r1', None, ['@r1']),
            ('zz', None, []), ('zz', 'x', []),
            ('r1', 'x', [('item', ('var', '@r1'), K('x'))])):
        conds = {('var', '@r%d' % i): True for i in range(3)}
        conds[('item', ('var', '@r1'), K('x'))] = True
        for s in Paths(prog, depth=4, hook=hook2, exact=True, loop_max=5,
                       keep=lambda e: e.kind == 'clear').run(
                g, selfcls=t, args=dict(zip(names, (K(rid), K(iid)))),
                init={'heap': {(tme, '_CHEETAH__cacheRegions'): r,
                               (r, 'items'): regs}, 'conds': conds}):
            got = [e.term[1] if e.term[0] == 'var' else e.term
                   for e in s.events]
            ctx.ob('refresh', 'refreshCache(%s, %s)' % (rid, iid), loc_of(g),
                   s.status == 'return' and sorted(got, key=str) == want,
                   'refreshCache(%s, %s) clears %s' % (rid, iid, got))


USE = """
ra = self.getCacheRegion('ra')
rb = self.getCacheRegion('rb')
ia = ra.getCacheItem('i')
ib = rb.getCacheItem('i')
ia.setExpiryTime(da)
ib.setExpiryTime(db)
ia.setData(da)
ib.setData(db)
va = ia.getData()
vb = ib.getData()
ia.clear()
ib.clear()
return (va, vb)
"""


def plain(t):
    """A term without the numbers that tell calls apart."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'call':
        return ('call', plain(t[1]), plain(t[2]), plain(t[3]), None)
    return tuple(plain(x) for x in t)


def own_key(t, me, prefix):
    """A key that holds the prefix given, or else the identity of the
    instance."""
    if prefix != NONE:
        return contains(t, lambda x: x == prefix)
    return contains(t, lambda x: x[0] == 'call' and
                    callee_name(x) == 'id' and
                    x[2] == (me,))


def in_store(ctx, prog):
    """Two regions of one template, filled, read and cleared: what reaches
    the store."""
    t = get(prog, 'Template', 'Template')
    me = ('self', t.qual)
    mods = [prog.mod('CacheRegion'), prog.mod('CacheStore')]
    region = get(prog, 'CacheRegion', 'CacheRegion')
    item = get(prog, 'CacheRegion', 'CacheItem')
    r = ('obj', 'dict', '@regions')
    loc = loc_of(get(prog, 'Template', 'Template', 'getCacheRegion'))
    for case, inst, cls, want in (
            ('given to the instance', '@inst', '@cls', '@inst'),
            ('of the class', None, '@cls', '@cls'),
            ('of the store class', None, None, '@made')):
        for prefix in (('var', 'pre'), NONE):
            def hook(it, fn, a, kw, st, n):
                if fn[0] == 'attr' and fn[1][0] == 'var' and \
                        fn[1][1].startswith('@'):
                    it.emit(st, 'store', ('call', fn, tuple(a), tuple(kw),
                                          None), n)
                    return [(st, ('data', fn[1], a[0] if a else None))]
                if fn[0] == 'attr' and fn[2] == '_cacheItemClass':
                    return it.call(('cls', item.qual), a, kw, st, n)
                if fn == ('var', 'StoreClass'):
                    it.emit(st, 'made', fn, n)
                    return [(st, ('var', '@made'))]
                if callee_name(('call', fn, (), (), None)) == 'time' and \
                        not a:
                    return [(st, ('var', 'now'))]
                return None
            heap = {(me, '_CHEETAH__cacheRegions'): r, (r, 'items'): (),
                    (me, '_CHEETAH_cacheRegionClass'): ('cls', region.qual),
                    (me, '_CHEETAH_cacheStoreIdPrefix'): prefix,
                    (me, '_CHEETAH_cacheStoreClass'): ('var', 'StoreClass'),
                    (me, '_CHEETAH__cacheStore'):
                        ('var', inst) if inst else NONE,
                    (me, '_CHEETAH_cacheStore'):
                        ('var', cls) if cls else NONE}
            conds = {('var', 'now'): True, ('var', 'pre'): True,
                     ('cmp', 'is', ('var', 'pre'), NONE): False}
            for v in ('@inst', '@cls', '@made'):
                conds[('var', v)] = True
                conds[('cmp', 'is', ('var', v), NONE)] = False
            it, ends = drive(prog, None, USE, ('da', 'db'), cls=t,
                             exact=True, hook=hook, construct=lambda c:
                             c.module in mods, init={
                                 'heap': heap, 'conds': conds},
                             keep=lambda e: e.kind in ('store', 'made'))
            lab = 'store %s, %s' % (case, 'prefix given' if prefix != NONE
                                    else 'no prefix')
            done = False
            for s in ends:
                ops = [e.term for e in s.events if e.kind == 'store']
                if s.status != 'return' or not ops:
                    # a path that takes an item of a new region for known
                    continue
                done = True
                bad = {x[1][1][1] for x in ops} - {want}
                ctx.ob('store', lab, loc, not bad,
                       'the data is kept in %s' % sorted(bad))
                made = [e for e in s.events if e.kind == 'made']
                keys = [x[2][0] for x in ops if x[2]]
                ctx.ob('store', lab + ': told apart', loc, all(
                    own_key(x, me, prefix) for x in keys),
                    'the data of this template is kept under %s' % [
                        show(x) for x in keys
                        if not own_key(x, me, prefix)][:2])
                ctx.ob('store', lab + ': one store', loc,
                       len(made) == (want == '@made'),
                       '%d stores are created' % len(made))
                by = {}
                for x in ops:
                    by.setdefault(plain(x[2][0]) if x[2] else None,
                                  []).append(
                        (x[1][2],) + tuple(x[2][1:]) + tuple(
                            v for k, v in x[3]))
                ctx.ob('store', lab + ': keys', loc, sorted(
                    by.values(), key=str) == [
                        [('set', ('var', d), ('var', d)), ('get',),
                         ('delete',)]
                        for d in ('da', 'db')],
                    'two regions use the store as %s' % {
                        show(k): [y[0] for y in v]
                        for k, v in by.items()})
                ctx.ob('store', lab + ': values', loc,
                       s.val[0] == 'tup' and [
                           x[2] for x in s.val[1] if x[0] == 'data'] == [
                           x[2][0] for x in ops if x[1][2] == 'set'],
                       'reading gives %s' % show(s.val))
                if prefix == NONE:
                    own = all(contains(k, lambda x: x == me) for k in by)
                else:
                    own = all(contains(k, lambda x: x == prefix)
                              for k in by)
                ctx.ob('store', lab + ': own keys', loc, own,
                       'templates that share a store use the same keys: %s'
                       % [show(k) for k in by])
            ctx.ob('store', lab + ': used', loc, done,
                   'nothing reaches the store')


ONE = """
r = self.getCacheRegion(%r)
i = r.getCacheItem('i')
i.setData(d)
"""


def no_clash(ctx, prog):
    """Prefixes and regions whose names run together get other keys."""
    t = get(prog, 'Template', 'Template')
    me = ('self', t.qual)
    mods = [prog.mod('CacheRegion'), prog.mod('CacheStore')]
    region = get(prog, 'CacheRegion', 'CacheRegion')
    item = get(prog, 'CacheRegion', 'CacheItem')
    loc = loc_of(get(prog, 'Template', 'Template', 'getCacheRegion'))
    r = ('obj', 'dict', '@regions')
    keys = {}
    for prefix, rid in (('1', '23'), ('12', '3'), ('123', ''), ('1', '2')):
        def hook(it, fn, a, kw, st, n):
            if fn[0] == 'attr' and fn[1] == ('var', '@store'):
                it.emit(st, 'store', ('call', fn, tuple(a), tuple(kw),
                                      None), n)
                return [(st, NONE)]
            if fn[0] == 'attr' and fn[2] == '_cacheItemClass':
                return it.call(('cls', item.qual), a, kw, st, n)
            if callee_name(('call', fn, (), (), None)) == 'time' and not a:
                return [(st, ('var', 'now'))]
            return None
        heap = {(me, '_CHEETAH__cacheRegions'): r, (r, 'items'): (),
                (me, '_CHEETAH_cacheRegionClass'): ('cls', region.qual),
                (me, '_CHEETAH_cacheStoreIdPrefix'): K(prefix),
                (me, '_CHEETAH__cacheStore'): ('var', '@store'),
                (me, '_CHEETAH_cacheStore'): NONE}
        conds = {('var', '@store'): True,
                 ('cmp', 'is', ('var', '@store'), NONE): False}
        it, ends = drive(prog, None, ONE % rid, ('d',), cls=t, exact=True,
                         hook=hook, construct=lambda c: c.module in mods,
                         init={'heap': heap, 'conds': conds},
                         keep=lambda e: e.kind == 'store')
        got = {plain(e.term[2][0]) for s in ends for e in s.events
               if e.term[2]}
        for k in got:
            ctx.ob('store', 'keys of %r, %r' % (prefix, rid), loc,
                   k not in keys, 'region %r of a template with prefix %r '
                   'uses the key of region %r with prefix %r' % (
                       (rid, prefix) + keys.get(k, ('', ''))[::-1]))
        for k in got:
            keys[k] = (prefix, rid)


def interval(ctx, prog):
    c = None
    for nm in ('GenUtils', 'MethodCompiler'):
        c = prog.mod('Compiler').classes.get(nm)
        if c is not None and prog.find_method(c, 'genTimeInterval'):
            break
    f = c and prog.find_method(c, 'genTimeInterval')
    if f is None:
        raise AnalysisBroken('genTimeInterval missing')

    def hook(it, fn, a, kw, st, n):
        if fn == ('bi', 'float') and len(a) == 1 and is_const(a[0]):
            try:
                return [(st, K(float(a[0][2])))]
            except ValueError:
                st.status = 'raise'
                st.val = ('call', ('bi', 'ValueError'), (), (), None)
                return [(st, NONE)]
        return None
    p = [x.arg for x in f.node.args.args][1]
    for txt, want in (('7s', 7), ('7m', 420), ('7h', 7 * 3600),
                      ('7d', 7 * 86400), ('7w', 7 * 7 * 86400), ('7', 420),
                      ('1.5h', 5400), ('30', 1800), ('0.5', 30),
                      ('2.5s', 2.5), ('12d', 12 * 86400), ('10m', 600)):
        for s in Paths(prog, depth=4, hook=hook).run(
                f, selfcls=c, args={p: K(txt)}):
            ctx.ob('interval', txt, loc_of(f), s.status == 'return' and
                   is_const(s.val) and s.val[2] == want,
                   'an interval of %s becomes %s seconds instead of %s' % (
                       txt, show(s.val), want))


def token(ctx, prog):
    """genCacheInfo of what the parser found in the token of a placeholder"""
    c = prog.mod('Compiler').classes.get('MethodCompiler')
    f = c and prog.find_method(c, 'genCacheInfo')
    if f is None:
        raise AnalysisBroken('genCacheInfo missing')
    p = [x.arg for x in f.node.args.args][1]
    o = ('obj', 'dict', '@token')
    iv = ('var', '@interval')

    def hook(it, fn, a, kw, st, n):
        if callee_name(('call', fn, (), (), None)) == 'genTimeInterval':
            return [(st, ('seconds', a[0] if a else None))]
        return None
    consts = {}
    for nm in ('REFRESH_CACHE', 'STATIC_CACHE'):
        consts[nm] = prog.mod('Parser').assigns.get(nm)
    for what, refresh_, static, want in (
            ('$*30m*x', '*30m*', None, ('seconds', iv)),
            ('$*x', None, '*', None), ('$x', None, None, None)):
        heap = {(o, 'items'): tuple((K(k), K(v) if v is None or isinstance(
            v, str) else v) for k, v in (
                ('REFRESH_CACHE', refresh_), ('STATIC_CACHE', static),
                ('interval', iv if refresh_ else None)))}
        for s in Paths(prog, depth=4, hook=hook, exact=True).run(
                f, selfcls=c, args={p: o}, init={'heap': heap}):
            got = dict(s.heap.get((s.val, 'items')) or ()) if \
                s.val is not None else {}
            typ = got.get(K('type'))
            ok = s.status == 'return' and (
                (got == {} if not refresh_ and not static else
                 typ is not None) and got.get(K('interval')) == want)
            ctx.ob('token', what, loc_of(f), ok, '%s gives %s' % (
                what, {show(a): show(b) for a, b in got.items()}))


def arguments(ctx, prog):
    """genCacheInfoFromArgList of the arguments of a #cache directive"""
    c = prog.mod('Compiler').classes.get('MethodCompiler')
    f = c and prog.find_method(c, 'genCacheInfoFromArgList')
    if f is None:
        raise AnalysisBroken('genCacheInfoFromArgList missing')
    p = [x.arg for x in f.node.args.args][1]

    def hook(it, fn, a, kw, st, n):
        if callee_name(('call', fn, (), (), None)) == 'genTimeInterval':
            return [(st, ('seconds', a[0] if a else None))]
        return None
    timed = ('seconds', K('30m'))
    for given, want in (
            ((), {}),
            ((('id', "'u_i'"),), {'id': K('u_i')}),
            ((('id', '"u_i"'),), {'id': K('u_i')}),
            ((('test', 'u_t'),), {'test': K('u_t')}),
            ((('varyBy', 'u_v'),), {'varyBy': K('u_v')}),
            ((('timer', "'30m'"),), {'interval': timed}),
            ((('timer', '"30m"'),), {'interval': timed}),
            ((('timer', '30m'),), {'interval': timed}),
            ((('id', "'u_i'"), ('timer', "'30m'")),
             {'id': K('u_i'), 'interval': timed}),
            ((('timer', "'30m'"), ('varyBy', 'u_v'), ('test', 'u_t')),
             {'varyBy': K('u_v'), 'interval': timed, 'test': K('u_t')})):
        o = ('obj', 'list', '@args')
        heap = {(o, 'items'): tuple(('tup', (K(a), K(b))) for a, b in given)}
        what = '#cache ' + ', '.join('%s=%s' % x for x in given)
        n = 0
        for s in Paths(prog, depth=4, hook=hook, exact=True).run(
                f, selfcls=c, args={p: o}, init={'heap': heap}):
            n += 1
            got = s.heap.get((s.val, 'items')) if s.val is not None else None
            rest = {a[2]: b for a, b in got or () if is_const(a)}
            typ = rest.pop('type', None)
            ctx.ob('arguments', what, loc_of(f), s.status == 'return' and
                   got is not None and typ is not None and rest == want,
                   '%s gives %s' % (what, {a: show(b)
                                           for a, b in rest.items()}))
        if not n:
            raise AnalysisBroken('no path through genCacheInfoFromArgList')


CHECKS = {
    'C18': (c18, 'freshness of cached regions'),
    'C19': (c19, 'cache stores'),
}
