"""C24: the command line tool (CheetahWrapper): what it writes, where, when.

Every command is interpreted for each combination of its options and of the
files that exist; calls that change files are collected with their order and
their targets.  Paths, options and file tests are given by the scenario,
templates and processes are opaque.
"""
import itertools
import posixpath

from ..absint import K, NONE, callee_name, is_const, show
from ..drive import Follow
from ..model import AnalysisBroken

MOD = 'CheetahWrapper'
QUIET = ('chatter', 'debug', 'warn', 'fprintfMessage')
# functions of os, shutil, ... that change no file
PURE = ('exists', 'isfile', 'isdir', 'dirname', 'basename', 'join', 'split',
        'splitext', 'normpath', 'abspath', 'realpath', 'lexists', 'walk',
        'getcwd', 'islink', 'samefile', 'listdir', 'fspath', 'relpath',
        'getmtime', 'stat')
COPIES = ('copyfile', 'copy', 'copy2', 'rename', 'move', 'replace')


def dotted(fn):
    if fn[0] == 'attr':
        return dotted(fn[1]) + '.' + fn[2]
    if fn[0] in ('ext', 'global', 'builtin', 'mod'):
        return str(fn[-1])
    return show(fn)


def tool(prog):
    c = prog.mod(MOD).classes.get('CheetahWrapper')
    if c is None:
        raise AnalysisBroken('CheetahWrapper missing')
    return c


def method(prog, name):
    f = prog.find_method(tool(prog), name)
    if f is None:
        raise AnalysisBroken('CheetahWrapper.%s missing' % name)
    return f


def file_effect(t):
    """(kind, target terms) of a call that changes a file, or None"""
    fn, args, kw = t[1], t[2], dict(t[3])
    nm, name = callee_name(fn), dotted(fn)
    root = name.split('.')[0]
    if nm == 'open' and (name in ('open', 'io.open', 'codecs.open') or
                         root in ('io', 'codecs')):
        mode = args[1] if len(args) > 1 else kw.get('mode', K('r'))
        if is_const(mode) and not set(str(mode[2])) & set('wax+'):
            return None
        return 'write', args[:1] or (kw.get('file'),)
    if root in ('os', 'shutil', 'tempfile') and name != root and \
            nm not in PURE and name not in ('os.fork', 'os.wait',
                                            'os.waitpid') and \
            not nm.startswith('W'):
        if nm in COPIES:
            return 'copy', tuple(args) + tuple(kw.values())
        if nm in ('makedirs', 'mkdir'):
            return 'mkdir', args[:1]
        return nm, args
    if nm == 'mkdirsWithPyInitFiles':
        return 'mkdir', args[:1]
    return None


OPT = ('stdout', 'nobackup', 'encoding', 'compile', 'dst', 'dir', 'sub')


def scenarios():
    for v in itertools.product((False, True), repeat=len(OPT)):
        sc = dict(zip(OPT, v))
        if sc['dst'] and not sc['dir'] and sc['sub']:
            continue            # a file in a directory that is not there
        if sc['dir'] and not sc['sub']:
            continue
        yield sc


def told(sc):
    return ', '.join(x for x in (
        'compile' if sc['compile'] else 'fill',
        sc['stdout'] and '--stdout', sc['nobackup'] and '--nobackup',
        sc['encoding'] and '--encoding',
        'the output file exists' if sc['dst'] else 'no output file yet',
        sc['sub'] and ('in a directory' if sc['dir'] else
                       'in a directory that does not exist')) if x)


def bundle(ctx, prog):
    c = tool(prog)
    f = method(prog, '_compileOrFillBundle')
    params = [a.arg for a in f.node.args.args]
    b = ('var', '@bundle')
    src, dst, bak = (('attr', b, x) for x in ('src', 'dst', 'bak'))
    base = ('attr', b, 'basename')
    d = ('var', '@dstdir')
    self_t = ('self', c.qual)
    opts = ('var', '@opts')
    tclass, settings = ('var', '@class'), ('var', '@settings')
    enc = K('u_enc')
    for sc in scenarios():
        heap = {(self_t, 'opts'): opts, (self_t, 'isCompile'): K(
            sc['compile']), (opts, 'stdout'): K(sc['stdout']),
            (opts, 'nobackup'): K(sc['nobackup']),
            (opts, 'encoding'): enc if sc['encoding'] else NONE}

        def hook(it, fn, args, kw, st, n, sc=sc):
            nm = callee_name(fn)
            if nm == '_getTemplateClass':
                return [(st, tclass)]
            if nm == '_getCompilerSettings':
                return [(st, settings)]
            if nm == 'dirname' and args == [dst] or \
                    nm == 'dirname' and tuple(args) == (dst,):
                return [(st, d if sc['sub'] else K(''))]
            if nm in ('exists', 'isfile', 'lexists', 'isdir') and args:
                if args[0] == dst:
                    return [(st, K(sc['dst'] and nm != 'isdir'))]
                if args[0] in (d, K('')):
                    return [(st, K(sc['dir'] and sc['sub']
                                   and nm != 'isfile'))]
            if nm == 'match' and 'moduleNameRE' in show(fn):
                return [(st, K(True))]
            return None
        it = Follow(prog, hook=hook, opaque=lambda g: g.name in QUIET or
                    g.name == 'mkdirsWithPyInitFiles' or
                    g.module.name.endswith('Template'),
                    keep=lambda e: e.kind == 'call')
        sts = it.run(f, selfcls=c, args={params[1]: b}, init={
            'heap': heap, 'conds': {bak: True, d: True, dst: True}})
        if not sts:
            raise AnalysisBroken('no path through _compileOrFillBundle')
        for rule, bad in one_bundle(sc, sts, src, dst, bak, base, d, tclass,
                                    settings, self_t, enc).items():
            ctx.ob(rule, told(sc), f.module.path, not bad,
                   '; '.join(sorted(bad))[:300])
        ctx.unit('scenario', told(sc))


def one_bundle(sc, sts, src, dst, bak, base, d, tclass, settings, self_t,
               enc):
    bad = {'files': set(), 'backup': set(), 'output': set(), 'use': set()}
    for s in sts:
        if s.status == 'raise':
            bad['output'].add('it raises %s' % show(s.val)[:60])
            continue
        made, outs, fx, wrote, prints = None, [], [], [], []
        for i, e in enumerate(s.events):
            t = e.term
            nm, kw = callee_name(t[1]), dict(t[3])
            if nm == 'compile' and t[1] == ('attr', tclass, 'compile'):
                outs.append(i)
                made = t
                want = {'file': src, 'compilerSettings': settings}
                if sc['compile']:
                    want.update(moduleName=base, className=base)
                    want['returnAClass'] = K(False)
                for k, v in want.items():
                    if kw.get(k) != v:
                        bad['use'].add('%s=%s is given to compile()' % (
                            k, show(kw[k])[:60] if k in kw else 'nothing'))
            elif t[1] == made and made is not None:
                outs.append(i)
                sl = kw.get('searchList', t[2][1] if len(t[2]) > 1 else None)
                if sl != ('attr', self_t, 'searchList'):
                    bad['use'].add('the search list is %s' % (
                        show(sl)[:60] if sl else 'not given'))
            if nm in ('str', 'unicode', 'respond') and i and outs:
                outs.append(i)
            fe = file_effect(t)
            if fe:
                fx.append((i, fe[0], fe[1]))
            if nm == 'write':
                recv = t[1][1] if t[1][0] == 'attr' else None
                if dotted(t[1]) == 'sys.stdout.write':
                    prints.append(t[2][0] if t[2] else None)
                else:
                    wrote.append((recv, t[2][0] if t[2] else None))
        if not outs:
            bad['output'].add('nothing is compiled')
            continue
        for i, kind, targets in fx:
            if i < max(outs):
                bad['files'].add('%s of %s comes before the template is '
                                 'done' % (kind, show(targets[0])[:60]))
            tg = targets[-1] if kind == 'copy' else targets[0]
            allowed = {'write': (dst,), 'copy': (bak,), 'mkdir': (d,)}
            if tg not in allowed.get(kind, ()):
                bad['files'].add('%s of %s' % (kind, show(tg)[:60]))
        if sc['stdout']:
            if fx:
                bad['files'].add('--stdout changes files: ' + ', '.join(
                    '%s of %s' % (k, show(t[-1])[:40]) for i, k, t in fx))
            if len(prints) != 1 or not derived(prints[0], made):
                bad['output'].add('the output written to stdout is %s' % [
                    show(x)[:60] for x in prints])
            elif sc['compile'] and raw(prints[0], made, s):
                bad['output'].add('the code is printed as bytes')
            continue
        opened = [i for i, k, t in fx if k == 'write' and t[0] == dst]
        copies = [(i, t) for i, k, t in fx if k == 'copy']
        if len(opened) != 1:
            bad['output'].add('the output file is opened %d times'
                              % len(opened))
            continue
        if len(wrote) != 1 or not derived(wrote[0][1], made) or \
                s.events[opened[0]].term not in (
                    wrote[0][0], as_entered(wrote[0][0])):
            bad['output'].add('what is written is %s' % [
                (show(a)[:60], show(b)[:60]) for a, b in wrote])
        elif sc['compile'] and raw(wrote[0][1], made, s):
            bad['output'].add('the code is written as bytes')
        t = s.events[opened[0]].term
        e = dict(t[3]).get('encoding', t[2][2] if len(t[2]) > 2 else None)
        if sc['encoding'] and e != enc:
            bad['output'].add('the file is opened with encoding %s' % (
                show(e) if e else 'default'))
        if prints:
            bad['output'].add('the output is also printed')
        need = sc['dst'] and not sc['nobackup']
        if need and [t for i, t in copies] != [(dst, bak)]:
            bad['backup'].add('the backup copies are %s' % [
                [show(x)[:40] for x in t] for i, t in copies])
        elif need and copies[0][0] > opened[0]:
            bad['backup'].add('the backup is made after the file is opened')
        elif not need and copies:
            bad['backup'].add('a backup is made')
        dirs = [i for i, k, t in fx if k == 'mkdir']
        if sc['sub'] and not sc['dir'] and (
                not dirs or dirs[0] > opened[0]):
            bad['files'].add('the directory of the output is not made')
        if dirs and (not sc['sub'] or sc['dir']):
            bad['files'].add('a directory is made')
    return bad


def raw(t, made, s):
    """Bytes that may be written to a text file: source code comes as bytes
    when the template declares an encoding."""
    if t == made:
        return not any(k[0] == 'call' and callee_name(k[1]) == 'isinstance'
                       and k[2][:1] == (made,) and v is False
                       for k, v in s.conds.items())
    return False


def as_entered(t):
    """the file of `with open(...) as f`"""
    if t and t[0] == 'enter':
        return t[1]
    return None


def derived(t, made):
    """The text of what was compiled: nothing is added, cut or chosen."""
    while t is not None and made is not None:
        if t == made:
            return True
        if t[0] == 'call':
            nm = callee_name(t[1])
            if nm in ('decode', 'encode', 'respond') and t[1][0] == 'attr':
                t = t[1][1]
                continue
            if nm in ('str', 'unicode') and len(t[2]) == 1:
                t = t[2][0]
                continue
            if t[1] == made:
                return True
        if t[0] in ('str', 'tostr') and len(t) > 1:
            t = t[1]
            continue
        return False
    return False


# ------------------------------------------------------ standard input ----
def stdin(ctx, prog):
    c = tool(prog)
    f = method(prog, '_compileOrFillStdin')
    self_t = ('self', c.qual)
    tclass, settings = ('var', '@class'), ('var', '@settings')
    for comp in (True, False):
        def hook(it, fn, args, kw, st, n):
            nm = callee_name(fn)
            if nm == '_getTemplateClass':
                return [(st, tclass)]
            if nm == '_getCompilerSettings':
                return [(st, settings)]
            return None
        it = Follow(prog, hook=hook, opaque=lambda g: g.name in QUIET,
                    keep=lambda e: e.kind == 'call')
        bad = set()
        for s in it.run(f, selfcls=c, init={'heap': {
                (self_t, 'isCompile'): K(comp)}}):
            if s.status == 'raise':
                bad.add('it raises %s' % show(s.val)[:60])
                continue
            made = [e.term for e in s.events if e.term[1] in (
                tclass, ('attr', tclass, 'compile'))]
            prints = [e.term[2][0] for e in s.events
                      if dotted(e.term[1]) == 'sys.stdout.write' and
                      e.term[2]]
            if not made or made[0][1] != (
                    ('attr', tclass, 'compile') if comp else made[0][1]):
                bad.add('nothing is made of the source')
                continue
            kw = dict(made[0][3])
            if dotted(kw.get('file', NONE)) != 'sys.stdin':
                bad.add('the source is not standard input')
            if kw.get('compilerSettings') != settings:
                bad.add('the compiler settings are not given')
            if not comp:
                sl = [dict(m[3]).get('searchList') for m in [
                    e.term for e in s.events if e.kind == 'call']]
                if ('attr', self_t, 'searchList') not in sl:
                    bad.add('the search list is not given')
            if len(prints) != 1 or not derived(prints[0], made[0]):
                bad.add('what is printed is %s' % [
                    show(x)[:60] for x in prints])
            if any(file_effect(e.term) for e in s.events):
                bad.add('files are changed')
        ctx.ob('output', 'standard input, ' + ('compile' if comp else 'fill'),
               f.module.path, not bad, '; '.join(sorted(bad))[:300])


# ------------------------------------------------------ all of the files ----
def every(ctx, prog):
    """_compileOrFill: each source is handled once, in one process or in
    several, and a failure of any is the result of the command."""
    c = tool(prog)
    f = method(prog, '_compileOrFill')
    for n in (0, 1, 2, 3):
        run_all(ctx, prog, c, f, n, 1, ())
    for exc in ('ParseError', 'IOError', 'OSError', 'Exception', 'ValueError',
                'NotFound', 'SystemExit', 'KeyboardInterrupt'):
        run_all(ctx, prog, c, f, 2, 1, (), exc)
    for par in (2, 3):
        for n in (1, 2, 3):
            for statuses in itertools.product(('ok', 'exit', 'signal'),
                                              repeat=n):
                run_all(ctx, prog, c, f, n, par, statuses)
    for n in (1, 2):
        child(ctx, prog, c, f, n)
    for flat in (True, False):
        flat_checked(ctx, prog, c, f, flat)


STATUS = {'ok': 0, 'exit': 256, 'signal': 9}


def base_heap(c, par=1, flat=False):
    self_t = ('self', c.qual)
    opts = ('var', '@opts')
    fl = ('obj', 'list', '@paths')
    return {(self_t, 'opts'): opts, (self_t, 'pathArgs'): fl,
            (fl, 'items'): (K('u_f'),), (opts, 'parallel'): K(par),
            (opts, 'flat'): K(flat), (opts, 'recurse'): K(False)}


def files_hook(names, more):
    def hook(it, fn, args, kw, st, n):
        nm = callee_name(fn)
        if nm == '_expandSourceFiles':
            o = ('obj', 'list', '@sources')
            st.heap[(o, 'items')] = tuple(K('s_' + x) for x in names)
            return [(st, o)]
        if nm == 'normpath':
            return [(st, args[0])]
        if nm == '_getBundles':
            o = ('obj', 'list', '@bundles')
            st.heap[(o, 'items')] = tuple(('bundle', x) for x in names)
            return [(st, o)]
        return more(nm, fn, args, kw, st)
    return hook


def run_all(ctx, prog, c, f, n, par, statuses, exc=None):
    names = ['abc'[i] for i in range(n)]
    done, forks, left, ex = ((('$',), x) for x in (
        'done', 'forks', 'left', 'exit'))

    def more(nm, fn, args, kw, st):
        if nm == '_compileOrFillBundle':
            st.heap[done] = ('tup', st.heap.get(done, ('tup', ()))[1]
                             + (args[0],))
            if exc:
                st.status, st.val = 'raise', ('call', ('bi', exc), (), (),
                                              None)
            return [(st, NONE)]
        if dotted(fn) == 'os.fork':
            k = st.heap.get(forks, K(0))[2] + 1
            st.heap[forks] = K(k)
            st.heap[left] = ('tup', st.heap.get(left, ('tup', ()))[1]
                             + (K(k),))
            return [(st, K(k))]
        if dotted(fn) in ('os.wait', 'os.waitpid'):
            q = st.heap.get(left, ('tup', ()))[1]
            if not q:
                st.heap[ex] = K('waits for a process that is not there')
                return [(st, ('tup', (K(-1), K(0))))]
            pid = q[0] if dotted(fn) == 'os.wait' else args[0]
            st.heap[left] = ('tup', tuple(x for x in q if x != pid))
            return [(st, ('tup', (pid, K(
                STATUS[statuses[pid[2] - 1]]))))]
        d = dotted(fn)
        if d.startswith('os.W') and args and is_const(args[0]):
            v = args[0][2]
            r = {'os.WEXITSTATUS': v >> 8, 'os.WIFSIGNALED': v == 9,
                 'os.WIFEXITED': v & 127 == 0, 'os.WTERMSIG': v & 127}
            if d in r:
                return [(st, K(r[d]))]
        if d == 'os.waitstatus_to_exitcode' and args and is_const(args[0]):
            v = args[0][2]
            return [(st, K(-9 if v == 9 else v >> 8))]
        return None
    it = Follow(prog, hook=files_hook(names, more), exact=True,
                opaque=lambda g: g.name in QUIET + ('_checkForCollisions',),
                keep=lambda e: e.kind == 'call' and
                callee_name(e.term[1]) in ('exit', '_exit', 'error'),
                loop_max=8)
    sts = it.run(f, selfcls=c, init={'heap': base_heap(c, par)})
    what = '%d files%s' % (n, ', %d processes: %s' % (
        par, ', '.join(statuses)) if par > 1 else
        exc and ', the first raises ' + exc or '')
    if not sts:
        ctx.ob('once', what, f.module.path, False, 'it does not come to an '
               'end')
        return
    bad = set()
    for s in sts:
        failed = failing(s)
        if exc:
            if not failed:
                bad.add('it succeeds although a file failed')
            continue
        if par == 1:
            got = [x[1] for x in s.heap.get(done, ('tup', ()))[1]]
            if got != names:
                bad.add('handled are %s' % got)
            if failed:
                bad.add('it fails')
            continue
        k = s.heap.get(forks, K(0))[2]
        if s.heap.get(left, ('tup', ()))[1]:
            bad.add('a process is not waited for')
        if ex in s.heap:
            bad.add('it ' + s.heap[ex][2])
        wrong = any(x != 'ok' for x in statuses[:k])
        if k != n and not wrong:
            bad.add('%d of %d files are handled' % (k, n))
        if wrong and not failed:
            bad.add('it succeeds although a process failed')
        if failed and not wrong:
            bad.add('it fails')
    ctx.ob('once', what, f.module.path, not bad, '; '.join(sorted(bad)))


def failing(s):
    """The command ends with a failure: an exception, or an exit code that
    is not zero."""
    if s.status == 'raise':
        t = s.val
        if t is not None and 'SystemExit' in show(t):
            args = t[2] if t[0] == 'call' else ()
            return not args or args[0] not in (K(0), NONE)
        return True
    for e in s.events:
        nm = callee_name(e.term[1])
        if nm in ('exit', '_exit'):
            a = e.term[2][0] if e.term[2] else NONE
            return a not in (K(0), NONE)
        if nm == 'error':
            return True
    return False


def child(ctx, prog, c, f, n):
    """In a child process: its own file, and then the end."""
    names = ['abc'[i] for i in range(n)]
    log = (('$',), 'log')

    def more(nm, fn, args, kw, st):
        def add(x):
            st.heap[log] = ('tup', st.heap.get(log, ('tup', ()))[1] + (x,))
        if dotted(fn) == 'os.fork':
            add(K('fork'))
            return [(st, K(0))]
        if nm == '_compileOrFillBundle':
            add(args[0])
            return [(st, NONE)]
        if dotted(fn) in ('sys.exit', 'os._exit'):
            add(K('exit'))
            return None
        return None
    it = Follow(prog, hook=files_hook(names, more), exact=True, loop_max=6,
                opaque=lambda g: g.name in QUIET + ('_checkForCollisions',),
                keep=lambda e: e.kind == 'call')
    sts = it.run(f, selfcls=c, init={'heap': base_heap(c, 2)})
    bad = set()
    for s in sts:
        seq = s.heap.get(log, ('tup', ()))[1]
        if len(seq) < 2 or seq[0] != K('fork') or seq[1][0] != 'bundle':
            bad.add('the child does %s' % [show(x) for x in seq])
        elif K('exit') not in seq[2:3]:
            bad.add('the child goes on after its file')
    ctx.ob('once', 'a child process of %d files' % n, f.module.path,
           bool(sts) and not bad, '; '.join(sorted(bad)) or 'no path')


def flat_checked(ctx, prog, c, f, flat):
    log = (('$',), 'log')

    def more(nm, fn, args, kw, st):
        if nm in ('_checkForCollisions', '_compileOrFillBundle'):
            st.heap[log] = ('tup', st.heap.get(log, ('tup', ()))[1]
                            + (K(nm),))
            return [(st, NONE)]
        return None
    it = Follow(prog, hook=files_hook(['a', 'b'], more), exact=True,
                opaque=lambda g: g.name in QUIET, keep=lambda e: False)
    for s in it.run(f, selfcls=c, init={'heap': base_heap(c, 1, flat)}):
        seq = [x[2] for x in s.heap.get(log, ('tup', ()))[1]]
        ok = not flat or seq[:1] == ['_checkForCollisions']
        ctx.ob('collisions', 'all files are checked before the first%s' % (
            ' (--flat)' if flat else ''), f.module.path, ok,
            'the order is %s' % seq)


# ------------------------------------------------------------ collisions ----
def collisions(ctx, prog):
    c = tool(prog)
    f = method(prog, '_checkForCollisions')
    p = [a.arg for a in f.node.args.args][1]
    for dsts in ((), ('x',), ('x', 'y'), ('x', 'x'), ('x', 'y', 'x'),
                 ('y', 'x', 'x'), ('x', 'y', 'z'), ('x', 'x', 'y', 'y')):
        o = ('obj', 'list', '@bundles')
        heap = {(o, 'items'): tuple(('var', '@b%d' % i)
                                    for i in range(len(dsts))),
                (('self', c.qual), 'isCompile'): K(True)}
        for i, x in enumerate(dsts):
            heap[(('var', '@b%d' % i), 'dst')] = K(x)
            heap[(('var', '@b%d' % i), 'src')] = K('s%d' % i)
        it = Follow(prog, exact=True, loop_max=8, opaque=lambda g: g.name
                    in QUIET, keep=lambda e: e.kind == 'call' and
                    callee_name(e.term[1]) in ('exit', 'error', '_exit'))
        sts = it.run(f, selfcls=c, args={p: o}, init={'heap': heap})
        if not sts:
            raise AnalysisBroken('no path through _checkForCollisions')
        want = len(set(dsts)) < len(dsts)
        for s in sts:
            got = failing(s)
            ctx.ob('collisions', 'outputs %s' % ', '.join(dsts),
                   f.module.path, got == want, 'the command goes on although '
                   'one file would overwrite another' if want else
                   'the command is refused')


# ---------------------------------------------------------- destinations ----
PATHS = (
    # source, idir, odir, flat, destination (of .tmpl to .py)
    ('a.tmpl', '', '', False, 'a.py'),
    ('d/a.tmpl', '', '', False, 'd/a.py'),
    ('d/a.tmpl', '', '', True, 'a.py'),
    ('d/a.tmpl', '', 'o', False, 'o/d/a.py'),
    ('d/a.tmpl', '', 'o', True, 'o/a.py'),
    ('d/a.tmpl', 'd', '', False, 'a.py'),
    ('d/a.tmpl', 'd', 'o', False, 'o/a.py'),
    ('d/e/a.tmpl', 'd', 'o', False, 'o/e/a.py'),
    ('d/e/a.tmpl', 'd', 'o', True, 'o/a.py'),
    ('de/a.tmpl', 'd', 'o', False, 'o/de/a.py'),
    ('d/d/a.tmpl', 'd', '', False, 'd/a.py'),
    ('a.txt', '', '', False, 'a.txt.py'),
    ('a.tmpl.tmpl', '', '', False, 'a.tmpl.py'),
    ('/r/d/a.tmpl', '', '', False, '/r/d/a.py'),
    ('/r/d/a.tmpl', '/r', 'o', False, 'o/d/a.py'),
    ('/r/d/a.tmpl', '', '/r', False, '/r/d/a.py'),
    ('/r/a.tmpl', '/r', '/o', False, '/o/a.py'),
)


def destinations(ctx, prog):
    c = tool(prog)
    f = method(prog, '_getBundles')
    p = [a.arg for a in f.node.args.args][1]
    self_t = ('self', c.qual)
    opts = ('var', '@opts')

    def hook(it, fn, args, kw, st, n):
        d = dotted(fn)
        nm = callee_name(fn)
        if d.startswith('os.path.') and all(is_const(a) for a in args) and \
                nm in ('join', 'basename', 'dirname', 'splitext', 'split',
                       'normpath', 'relpath', 'isabs'):
            r = getattr(posixpath, nm)(*[a[2] for a in args])
            return [(st, ('tup', tuple(map(K, r))) if isinstance(r, tuple)
                     else K(r))]
        if nm == 'Bundle':
            o = ('new', 'Bundle', n.lineno if n is not None else 0)
            for k, v in dict(kw or ()).items():
                st.heap[(o, k)] = v
            return [(st, o)]
        return None
    for src, idir, odir, flat, want in PATHS:
        o = ('obj', 'list', '@sources')
        heap = {(o, 'items'): (K(src),), (self_t, 'opts'): opts,
                (opts, 'flat'): K(flat), (opts, 'idir'): K(idir),
                (opts, 'odir'): K(odir), (opts, 'iext'): K('.tmpl'),
                (opts, 'oext'): K('.py'), (('ext', 'os'), 'sep'): K('/'),
                (self_t, 'BACKUP_SUFFIX'): K('.bak')}
        it = Follow(prog, hook=hook, exact=True, loop_max=8,
                    keep=lambda e: False)
        what = '%s%s%s%s' % (src, idir and ' --idir ' + idir,
                             odir and ' --odir ' + odir,
                             ' --flat' if flat else '')
        sts = it.run(f, selfcls=c, args={p: o}, init={'heap': heap})
        if not sts:
            raise AnalysisBroken('no path through _getBundles')
        for s in sts:
            items = s.heap.get((s.val, 'items')) if s.val is not None else ()
            ok, got = False, 'no bundle'
            if items and len(items) == 1:
                g = {k: s.heap.get((items[0], k), NONE)
                     for k in ('src', 'dst', 'bak')}
                got = {k: show(v) for k, v in g.items()}
                ok = g == {'src': K(src), 'dst': K(want),
                           'bak': K(want + '.bak')}
            ctx.ob('destinations', what, f.module.path, ok,
                   'it becomes %s instead of %s' % (got, want))


# --------------------------------------------------------------- sources ----
TREE = {'.': 'dir', 'd': 'dir', 'd/a.tmpl': 'file', 'd/b.txt': 'file',
        'd/e': 'dir', 'd/e/c.tmpl': 'file', 'd/dd.tmpl': 'dir',
        'd/dd.tmpl/f.tmpl': 'file', 'x.tmpl': 'file', 'y.txt': 'file',
        '.h': 'dir', '.h/g.tmpl': 'file', 'd/.i.tmpl': 'file',
        'pipe': 'other', 'pipe2.tmpl': 'other', 'dir.tmpl': 'dir',
        'z': 'file', 'z.tmpl': 'file', 'd/link.tmpl': 'other'}
BELOW_D = ['d/a.tmpl', 'd/e/c.tmpl', 'd/dd.tmpl/f.tmpl', 'd/.i.tmpl']
CHOICES = (
    # arguments, -R, --idir, the files that are handled (None: refused)
    (('x',), False, '', ['x.tmpl']),
    (('x.tmpl',), False, '', ['x.tmpl']),
    (('y.txt',), False, '', ['y.txt']),
    (('y',), False, '', []),
    (('z',), False, '', ['z']),
    (('none',), False, '', []),
    (('none.tmpl',), False, '', []),
    (('x', 'y.txt'), False, '', ['x.tmpl', 'y.txt']),
    (('y.txt', 'none', 'x'), False, '', ['y.txt', 'x.tmpl']),
    (('pipe', 'x'), False, '', ['x.tmpl']),
    (('pipe2', 'x'), False, '', ['x.tmpl']),
    (('dir', 'x'), False, '', ['x.tmpl']),
    (('d',), False, '', None),
    (('x', 'd'), False, '', None),
    (('d',), True, '', BELOW_D),
    (('d', 'y.txt'), True, '', BELOW_D + ['y.txt']),
    (('x',), True, '', ['x.tmpl']),
    (('a',), False, 'd', ['d/a.tmpl']),
    (('e/c', 'b.txt'), False, 'd', ['d/e/c.tmpl', 'd/b.txt']),
    (('e',), True, 'd', ['d/e/c.tmpl']),
    ((), True, 'd', BELOW_D),
    ((), True, 'd/e', ['d/e/c.tmpl']),
    ((), True, '', BELOW_D + ['x.tmpl', 'z.tmpl', '.h/g.tmpl']),
    ((), False, '', None),
    (('-',), False, '', 'stdin'),
    (('-', 'x'), False, '', ['x.tmpl']),
    (('x', '-'), False, '', ['x.tmpl']),
)


def walk(top):
    """os.walk over TREE, with the paths os.walk would give"""
    key = posixpath.normpath(top)
    if TREE.get(key) != 'dir':
        return
    here = [x for x in TREE if x != '.' and
            (posixpath.dirname(x) or '.') == key]
    dirs = [posixpath.basename(x) for x in here if TREE[x] == 'dir']
    yield top, dirs, [posixpath.basename(x) for x in here
                      if TREE[x] != 'dir']
    for d in dirs:
        for r in walk(posixpath.join(top, d)):
            yield r


def pruned(s):
    """os.walk does not enter directories that are taken from its list"""
    for (o, k), v in [x for x in s.heap.items() if len(x[0]) == 2]:
        if k == 'items' and o[0] == 'obj' and isinstance(o[2], tuple) and \
                o[2][:1] == ('@d',):
            want = [posixpath.basename(x) for x in TREE if x != '.' and
                    TREE[x] == 'dir' and (posixpath.dirname(x) or '.') ==
                    posixpath.normpath(o[2][1])]
            left = set(want) - {x[2] for x in v if is_const(x)}
            if left:
                return sorted(left)
    return None


def sources(ctx, prog):
    """Which files a command handles, given its arguments and a tree of
    files, directories and others."""
    c = tool(prog)
    f = method(prog, '_compileOrFill')
    self_t = ('self', c.qual)
    opts = ('var', '@opts')
    got = (('$',), 'sources')

    def lst(st, name, items):
        o = ('obj', 'list', name)
        st.heap[(o, 'items')] = tuple(items)
        return o

    def hook(it, fn, args, kw, st, n):
        d, nm = dotted(fn), callee_name(fn)
        if d.startswith('os.') and all(is_const(a) for a in args):
            a = [x[2] for x in args]
            if d.startswith('os.path.') and nm in (
                    'join', 'basename', 'dirname', 'normpath', 'splitext',
                    'split', 'isabs'):
                r = getattr(posixpath, nm)(*a)
                return [(st, ('tup', tuple(map(K, r)))
                         if isinstance(r, tuple) else K(r))]
            if nm in ('isfile', 'isdir', 'exists', 'lexists'):
                kind = TREE.get(posixpath.normpath(a[0]))
                return [(st, K({'isfile': kind == 'file',
                                'isdir': kind == 'dir'}.get(
                                    nm, kind is not None)))]
            if nm == 'walk':
                return [(st, lst(st, '@walk', [('tup', (
                    K(r), lst(st, ('@d', r), map(K, ds)),
                    lst(st, ('@f', r), map(K, fs)))) for r, ds, fs
                    in walk(a[0])]))]
        if nm == '_getBundles':
            items = it.known_items(args[0], st)
            st.heap[got] = ('tup', tuple(items)) if items is not None \
                else NONE
            return [(st, lst(st, '@bundles', ()))]
        if nm == '_compileOrFillStdin':
            st.heap[got] = K('stdin')
            return [(st, NONE)]
        if nm == 'usage':
            st.status, st.val = 'raise', ('call', ('bi', 'SystemExit'),
                                          (K(1),), (), None)
            return [(st, NONE)]
        return None
    for files, rec, idir, want in CHOICES:
        o = ('obj', 'list', '@paths')
        heap = {(o, 'items'): tuple(map(K, files)), (self_t, 'opts'): opts,
                (self_t, 'pathArgs'): o, (opts, 'parallel'): K(1),
                (opts, 'flat'): K(False), (opts, 'recurse'): K(rec),
                (opts, 'idir'): K(idir), (opts, 'iext'): K('.tmpl'),
                (('ext', 'os'), 'curdir'): K('.')}
        it = Follow(prog, hook=hook, exact=True, loop_max=60, opaque=lambda g:
                    g.name in QUIET, keep=lambda e: e.kind == 'call' and
                    callee_name(e.term[1]) in ('exit', 'error', '_exit'))
        what = 'cheetah %s%s%s' % (' '.join(files), rec and ' -R' or '',
                                   idir and ' --idir ' + idir)
        sts = it.run(f, selfcls=c, init={'heap': heap})
        bad = set() if sts else {'no path'}
        for s in sts:
            g = s.heap.get(got)
            if want is None:
                if not failing(s):
                    bad.add('the command is not refused')
            elif failing(s):
                bad.add('it fails: %s' % show(s.val)[:80])
            elif want == 'stdin':
                if g != K('stdin'):
                    bad.add('it does not read standard input')
            elif pruned(s):
                bad.add('it does not go into the directories %s'
                        % pruned(s))
            elif g is None or g[0] != 'tup' or \
                    not all(is_const(x) for x in g[1]):
                bad.add('it handles %s' % (g and show(g)[:100]))
            elif sorted(x[2] for x in g[1]) != sorted(want) or (
                    not rec and [x[2] for x in g[1]] != want):
                bad.add('it handles %s, not %s' % ([x[2] for x in g[1]],
                                                   want))
        ctx.ob('sources', what, f.module.path, not bad,
               '; '.join(sorted(bad))[:300])


# ------------------------------------------------------- the directories ----
def directories(ctx, prog):
    m = prog.mod('Utils.Misc')
    f = m.funcs.get('mkdirsWithPyInitFiles')
    if f is None:
        raise AnalysisBroken('mkdirsWithPyInitFiles missing')
    path, parent = ('var', '@path'), ('var', '@parent')
    init = ('var', '@init')
    for there, up in itertools.product((True, False), (True, False, None)):
        if there and up is False:
            continue

        def hook(it, fn, args, kw, st, n):
            nm = callee_name(fn)
            if nm == 'split':
                return [(st, ('tup', (parent if up is not None else K(''),
                                      ('var', '@name'))))]
            if nm == 'dirname':
                return [(st, parent if up is not None else K(''))]
            if nm in ('exists', 'isdir') and args:
                return [(st, K(there if args[0] == path else bool(up)))]
            if nm == 'join' and args and args[0] == path:
                return [(st, init)]
            if nm == 'mkdirsWithPyInitFiles':
                return None
            return None
        it = Follow(prog, hook=hook, opaque=lambda g: True,
                    keep=lambda e: e.kind == 'call')
        bad = set()
        for s in it.run(f, args={[a.arg for a in f.node.args.args][0]: path},
                        init={'conds': {parent: True}}):
            fx = [file_effect(e.term) for e in s.events]
            fx = [(k, t[0]) for k, t in [x for x in fx if x]]
            want = []
            if up is False:
                want.append(('mkdir', parent))
            if not there:
                want += [('mkdir', path), ('write', init)]
            if fx != want or s.status == 'raise':
                bad.add('it does %s' % [(k, show(t)) for k, t in fx])
        ctx.ob('files', 'directory %s, parent %s' % (
            'exists' if there else 'missing',
            {True: 'exists', False: 'missing', None: 'is the current one'}[
                up]), f.module.path, not bad, '; '.join(sorted(bad)))


# ------------------------------------------------ messages and data given ----
def messages(ctx, prog):
    c = tool(prog)
    f = method(prog, 'chatter')
    self_t, opts = ('self', c.qual), ('var', '@opts')
    for out, verb in itertools.product((True, False), repeat=2):
        it = Follow(prog, opaque=lambda g: g.name == 'fprintfMessage',
                    keep=lambda e: e.kind == 'call')
        bad = set()
        for s in it.run(f, selfcls=c, init={'heap': {
                (self_t, 'opts'): opts, (opts, 'stdout'): K(out),
                (opts, 'verbose'): K(verb)}}):
            n = sum(callee_name(e.term[1]) in ('fprintfMessage', 'print',
                                               'write') for e in s.events)
            if n and (out or not verb):
                bad.add('a message is printed')
            if not n and verb and not out:
                bad.add('the message is not printed')
        ctx.ob('output', 'messages%s%s' % (out and ', --stdout' or '',
                                           not verb and ', --quiet' or ''),
               f.module.path, not bad, '; '.join(sorted(bad)))


def data(ctx, prog):
    """--env, --pickle and --json: all of them are in the search list, and
    what is in a file comes before the environment."""
    c = tool(prog)
    f = method(prog, 'parseOpts')
    self_t, opts = ('self', c.qual), ('var', '@opts')
    sl, fl = ('obj', 'list', '@searchList'), ('obj', 'list', '@files')
    for env, pick, js in itertools.product((True, False), repeat=3):
        def hook(it, fn, args, kw, st, n):
            nm = callee_name(fn)
            if nm == 'parse_args':
                return [(st, ('tup', (opts, fl)))]
            if nm == 'add_option':
                return [(st, NONE)]
            if nm == '_fixExts':
                return [(st, NONE)]
            if nm == 'load':
                return [(st, K('of json' if 'json' in dotted(fn)
                               else 'of pickle'))]
            return None
        heap = {(self_t, 'opts'): opts, (self_t, 'searchList'): sl,
                (self_t, 'command'): K('fill'), (sl, 'items'): (),
                (fl, 'items'): (), (opts, 'env'): K(env),
                (opts, 'pickle'): K('p' if pick else ''),
                (opts, 'json'): K('j' if js else ''),
                (opts, 'idir'): K(''), (opts, 'odir'): K(''),
                (opts, 'print_settings'): NONE,
                (('ext', 'sys'), 'platform'): K('linux'),
                (('ext', 'os'), 'altsep'): NONE,
                (('ext', 'os'), 'sep'): K('/')}
        it = Follow(prog, hook=hook, exact=True, loop_max=8,
                    opaque=lambda g: g.name in QUIET, keep=lambda e: False)
        p = [a.arg for a in f.node.args.args][1]
        want = [K(x) for x, y in (('of json', js), ('of pickle', pick))
                if y] + ([('attr', ('ext', 'os'), 'environ')] if env else [])
        what = 'data given by %s' % (', '.join(
            x for x, y in (('--env', env), ('--pickle', pick),
                           ('--json', js)) if y) or 'nothing')
        sts = it.run(f, selfcls=c, args={p: ('var', '@args')},
                     init={'heap': heap})
        bad = set() if sts else {'no path'}
        for s in sts:
            o = s.heap.get((self_t, 'searchList'))
            items = s.heap.get((o, 'items')) if o else None
            if s.status == 'raise':
                bad.add('it raises %s' % show(s.val)[:80])
            elif items is None or [dotted(x) for x in items] != \
                    [dotted(x) for x in want]:
                bad.add('the search list is %s' % (items and [
                    show(x)[:50] for x in items],))
        ctx.ob('use', what, f.module.path, not bad,
               '; '.join(sorted(bad))[:300])


def c24(ctx):
    ctx.rule('files', 'only the output file, its backup and its directory '
             'are changed, after the template is done, and nothing with '
             '--stdout', 60)
    ctx.rule('backup', 'an existing output file is copied to its backup '
             'before it is overwritten, unless --nobackup is given', 60)
    ctx.rule('output', 'the text produced is written once, to the file or to '
             'standard output, in the encoding given', 60)
    ctx.rule('use', 'the template class, the settings and the search list of '
             'the command are used for each file', 60)
    ctx.rule('once', 'each file is handled once and any failure is the '
             'result of the command', 60)
    ctx.rule('collisions', '--flat is refused before anything is written when '
             'two files would get the same name', 8)
    ctx.rule('destinations', 'the output path is that of the source, below '
             '--odir instead of --idir, with the other extension', 17)
    ctx.rule('sources', 'the files handled are those named, with the '
             'extension added when needed, and with -R those below a '
             'directory that have the extension', 27)
    prog = ctx.prog
    sources(ctx, prog)
    bundle(ctx, prog)
    stdin(ctx, prog)
    every(ctx, prog)
    collisions(ctx, prog)
    destinations(ctx, prog)
    directories(ctx, prog)
    messages(ctx, prog)
    data(ctx, prog)


CHECKS = {'C24': (c24, 'the command line tool')}
