"""C08: output regions (#call, #capture, #cache, #filter) nest and restore."""
from ..absint import K, NONE, TRUE, show, callee_name, contains
from ..emit import Emitter, stream, render, gen_interp
from ..model import AnalysisBroken

SELF = ('self', 'gen:G')
TRANS = ('var', 'trans')


def resp_write(t):
    return ('attr', ('call', ('attr', t, 'response'), (), (), None), 'write')


REGIONS = {
    # kind: (opening driver lines, closing lines, params, redirects output)
    'call': ("self.startCallRegion(fn{i}, args{i}, lc{i})",
             "self.endCallRegion()", ('fn{i}', 'args{i}', 'lc{i}'), True),
    'call with one #arg': (
        "self.startCallRegion(fn{i}, args{i}, lc{i})\n"
        "self.setCallArg(an{i}, lc{i})",
        "self.endCallRegion()", ('fn{i}', 'args{i}', 'lc{i}', 'an{i}'), True),
    'call with two #args': (
        "self.startCallRegion(fn{i}, args{i}, lc{i})\n"
        "self.setCallArg(an{i}, lc{i})\n"
        "self.addChunk('ARG{i}_')\n"
        "self.setCallArg(bn{i}, lc{i})",
        "self.endCallRegion()",
        ('fn{i}', 'args{i}', 'lc{i}', 'an{i}', 'bn{i}'), True),
    'capture': ("self.startCaptureRegion(to{i}, lc{i})",
                "self.endCaptureRegion()", ('to{i}', 'lc{i}'), True),
    'cache': ("self.startCacheRegion(info{i}, lc{i})",
              "self.endCacheRegion()", ('info{i}', 'lc{i}'), True),
    'filter': ("self.setFilter(flt{i}, isk{i})",
               "self.closeFilterBlock()", ('flt{i}', 'isk{i}'), False),
}


def compositions(depth):
    ks = list(REGIONS)
    out = [(k,) for k in ks]
    if depth >= 2:
        out += [(a, b) for a in ks for b in ks]
    if depth >= 3:
        out += [(a, b, c) for a in ks for b in ks for c in ks
                if len({a, b, c}) > 1]
    return out


def driver(comp):
    lines, params = [], []
    for i, k in enumerate(comp):
        o, c, ps, red = REGIONS[k]
        lines.append("self.addChunk('IN%d_()')" % i)
        lines.append(o.format(i=i))
        params += [p.format(i=i) for p in ps]
    lines.append("self.addChunk('BODY_()')")
    for i in range(len(comp) - 1, -1, -1):
        lines.append(REGIONS[comp[i]][1].format(i=i))
        lines.append("self.addChunk('OUT%d_()')" % i)
    return '\n'.join(lines), params


def snapshot(st, env):
    return {
        'trans': env.get('trans'),
        'write': env.get('write'),
        'filter': env.get('_filter'),
        'currentFilter': st.heap.get((SELF, '_CHEETAH__currentFilter'),
                                     ('attr', SELF, '_CHEETAH__currentFilter')),
        'isBuffering': st.heap.get((SELF, '_CHEETAH__isBuffering'),
                                   ('attr', SELF, '_CHEETAH__isBuffering')),
    }


def generated_paths(prog, rendered):
    """Run the generated text; BODY_/INi_/OUTi_ markers record the state of
    the output plumbing at that point."""
    marks = []

    def hook(it, fn, args, kw, st, n):
        if fn[0] == 'free' and fn[1].rstrip('_').rstrip('0123456789') in (
                'BODY', 'IN', 'OUT', 'ARG') and fn[1].endswith('_'):
            snap = snapshot(st, st.env)
            st.heap[(('$mark',), fn[1])] = tuple(sorted(snap.items()))
            it.emit(st, 'mark', K(fn[1]), n, x=tuple(sorted(snap.items())))
            return [(st, NONE)]
        return None
    it, states = gen_interp(
        prog, rendered, env={'trans': TRANS, 'write': resp_write(TRANS),
                             '_filter': ('attr', SELF,
                                         '_CHEETAH__currentFilter')},
        hook=hook, pure={'response', 'getvalue', 'getRefreshTime', 'isNew',
                         'hasExpired'},
        keep=lambda e: e.kind == 'mark' or (e.kind == 'call'),
        exc=True, exc_calls=lambda t: callee_name(t) == 'renderOutput',
        max_states=3000)
    return it, states


def c08(ctx):
    ctx.rule('state-restored',
             'on every path through the code generated for a region (and for '
             'every nesting of regions) the current transaction, writer, '
             'active filter and buffering flag after the region equal those '
             'before it', 40)
    ctx.rule('body-collected',
             'inside an output-collecting region the body writes to a fresh '
             'collector of its own, bound to the innermost region', 30)
    ctx.rule('buffered-calls',
             'inside an output-collecting region template methods called '
             'without a transaction are buffered (their output is returned, '
             'not written past the collector)', 6)
    ctx.rule('collected-used',
             'the text a region hands on is the text collected from its own '
             'body', 5)
    ctx.rule('filter-consistent',
             'inside a filter region the local filter and the one picked up '
             'by called template methods are the same', 1)
    ctx.rule('generated-parses', 'the generated region code is well formed',
             10)
    prog = ctx.prog
    em = Emitter(prog)
    for comp in compositions(3 if ctx.thorough else 2):
        name = ' > '.join(comp)
        body, params = driver(comp)
        it, states = em.drive(body, params)
        for q in it.n_inlined:
            ctx.unit('compiler functions', q)
        live = [s for s in states if s.status == 'return']
        if not live:
            ctx.ob('generated-parses', name, em.meth.module.path, False,
                   'every path through the compiler fails')
            continue
        seen = set()
        for s in live:
            r = render(stream(s), s.conds)
            if r.src in seen:
                continue
            seen.add(r.src)
            ctx.unit('region compositions', name)
            ok = ctx.ob('generated-parses', name, em.meth.module.path,
                        r.err is None and r.final == 0,
                        r.err or 'indentation level off by %d' % r.final)
            if not ok:
                continue
            git, gstates = generated_paths(prog, r)
            for g in gstates:
                judge(ctx, comp, name, g, r)


def judge(ctx, comp, name, g, r):
    where = 'Cheetah/Compiler.py (code generated for %s)' % name
    marks = {}
    for e in g.events:
        if e.kind == 'mark':
            marks[e.term[2]] = dict(e.x)
    if g.status == 'raise':
        return
    # restoration
    for i in range(len(comp)):
        a, b = marks.get('IN%d_' % i), marks.get('OUT%d_' % i)
        if a is None or b is None:
            continue
        diff = {k: (show(a[k]) if a[k] else None, show(b[k]) if b[k] else None)
                for k in a if a[k] != b[k]}
        ctx.ob('state-restored', '%s: %s region' % (name, comp[i]), where,
               not diff, 'changed across the region: %s\n%s' % (diff, r.src))
    m = marks.get('BODY_')
    if m is None:
        return
    colls = [i for i, k in enumerate(comp) if REGIONS[k][3]]
    if colls:
        last = colls[-1]
        outer = marks['IN%d_' % last]
        t, w = m['trans'], m['write']
        fresh = t is not None and t[0] == 'call' and t != outer['trans'] and \
            callee_name(t) is not None or (
                t is not None and t[0] == 'call'
                and t[1] == ('free', 'DummyTransaction')
                and t != outer['trans'])
        ctx.ob('body-collected', '%s: body' % name, where,
               bool(t is not None and t[0] == 'call'
                    and t[1] == ('free', 'DummyTransaction')
                    and t != outer['trans'] and w == resp_write(t)),
               'body writes to %s with transaction %s' % (
                   show(w) if w else None, show(t) if t else None))
        if len(comp) == 1:
            ctx.ob('buffered-calls', '%s: body' % name, where,
                   m['isBuffering'] == TRUE,
                   'buffering flag in the body is %s' % show(
                       m['isBuffering']))
            # what is done with the collected text
            got = ('call', ('attr', ('call', ('attr', t, 'response'), (), (),
                                     None), 'getvalue'), (), (), None)
            used = used_value(comp[0], g, r, got)
            ctx.ob('collected-used', '%s: collected text' % name, where, used,
                   'the text collected in the body is not what the region '
                   'hands on\n' + r.src)
    if len(comp) == 1 and comp[0] == 'filter':
        ctx.ob('filter-consistent',
               'filter (%s)' % ('class' if any(
                   show(h).startswith('flt0.strip') or show(h) == 'flt0'
                   for h in r.holes.values()) and 'filterName' not in r.src
                   else 'named' if 'filterName' in r.src else 'None'),
               where, m['filter'] == m['currentFilter'],
               'local filter %s, filter used by called methods %s' % (
                   show(m['filter']), show(m['currentFilter'])))


def used_value(kind, g, r, got):
    if kind == 'capture':
        return any(v == got for k, v in g.env.items() if k.startswith('H'))
    if kind == 'cache':
        setd = any(e.kind == 'call' and e.name == 'setData'
                   and e.args and e.args[0] == got for e in g.events)
        wrote = any(e.kind == 'call' and e.term[1] == resp_write(TRANS)
                    and e.args and e.args[0] == got for e in g.events)
        return setd and wrote
    if kind == 'call':
        return any(e.kind == 'call' and e.term[1][0] == 'free'
                   and e.term[1][1].startswith('H') and e.args
                   and e.args[0] == got for e in g.events)
    if kind.startswith('call with'):
        # the keyword dict is passed, with the body text stored last
        for e in g.events:
            if e.kind == 'call' and e.term[1][0] == 'free' and \
                    e.term[1][1].startswith('H'):
                for k, v in e.term[3]:
                    if v == got:
                        return True
                    items = g.heap.get((v, 'items'))
                    if items and any(x[1] == got for x in items
                                     if len(x) == 2):
                        return True
        # names are holes: kwargs expanded as R<n>_ keys are not constants
        for (b, *rest), v in g.heap.items():
            if v == got and rest and rest[0] == '[]':
                return True
            if rest and rest[0] == 'items' and isinstance(v, tuple) and any(
                    len(x) == 2 and x[1] == got for x in v
                    if isinstance(x, tuple)):
                return True
        return False
    return True


CHECKS = {'C08': (c08, 'output regions nest and restore')}
