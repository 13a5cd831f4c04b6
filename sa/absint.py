"""Path-sensitive abstract interpreter over the Python AST.

A function is walked statement by statement.  Values are *terms* (nested
tuples) normalised so that temporaries, re-association of string building,
helper extraction, inverted tests and early returns all give the same term.
Calls to functions defined in the package are inlined (bounded depth); every
other call, attribute write, subscript write, deletion, raise and context
manager becomes an *event* on the path, stamped with the branch conditions in
force.  Nothing is executed and no solver is consulted: infeasible branches are
pruned only by syntactic contradiction of identical atomic conditions.
Loops are taken 0, 1 (or `loop_max`) times; literal loops are unrolled.
"""
import ast
import builtins
import re
import string as _string

from .model import Func, AnalysisBroken

BUILTINS = set(dir(builtins)) | {'unicode', 'basestring', 'long', 'unichr'}


# ---------------------------------------------------------------- terms ----
def K(v):
    return ('const', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def is_const(t):
    return t[0] == 'const'


def is_key(t):
    """A constant, or a tuple of constants."""
    return t[0] == 'const' or t[0] == 'tup' and all(is_key(x) for x in t[1])


def key_value(t):
    return t[2] if t[0] == 'const' else tuple(key_value(x) for x in t[1])


def cval(t):
    return t[2]


def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            seq = p[1]
        else:
            seq = (p,)
        for q in seq:
            if q[0] == 'const' and isinstance(q[2], str):
                if q[2] == '':
                    continue
                if out and out[-1][0] == 'const' and \
                        isinstance(out[-1][2], str):
                    out[-1] = K(out[-1][2] + q[2])
                    continue
            out.append(q)
    if not out:
        return K('')
    if len(out) == 1 and out[0][0] == 'const':
        return out[0]
    return ('cat', tuple(out))


def is_str(t):
    return (t[0] == 'const' and isinstance(t[2], str)) or t[0] == 'cat' or \
        (t[0] == 'call' and t[1] in (('bi', 'repr'), ('bi', 'str')))


def NOT(t):
    if t[0] == 'not':
        return t[1]
    if t[0] == 'const':
        return K(not t[2])
    return ('not', t)


def mkcall(fn, args=(), kw=(), uid=None):
    return ('call', fn, tuple(args), tuple(sorted(kw, key=lambda x: str(x[0]))),
            uid)


def show(t, d=0):
    """Readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 12:
        return '…'
    s = lambda x: show(x, d + 1)     # noqa: E731
    op = t[0]
    if op == 'const':
        return repr(t[2])
    if op == 'var':
        return t[1]
    if op == 'self':
        return 'self'
    if op in ('glob', ):
        return t[2]
    if op in ('bi', 'ext'):
        return t[1]
    if op == 'modref':
        return t[1]
    if op in ('cls', 'fn'):
        return str(t[1]).split(':')[-1]
    if op == 'bound':
        return '%s.%s' % (s(t[1]), t[2].split('.')[-1])
    if op == 'attr':
        return '%s.%s' % (s(t[1]), t[2])
    if op == 'idx':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if op == 'slice':
        return ':'.join('' if x == NONE else s(x) for x in t[1:])
    if op == 'call':
        a = [s(x) for x in t[2]] + ['%s=%s' % (k, s(v)) for k, v in t[3]]
        return '%s(%s)' % (s(t[1]), ', '.join(a))
    if op == 'bin':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if op == 'un':
        return '%s%s' % (t[1], s(t[2]))
    if op == 'cmp':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if op == 'not':
        return 'not %s' % s(t[1])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in t[1]) + ')'
    if op == 'ite':
        return '(%s if %s else %s)' % (s(t[2]), s(t[1]), s(t[3]))
    if op == 'cat':
        return '⟨' + ' ++ '.join(s(x) for x in t[1]) + '⟩'
    if op == 'tup':
        return '(' + ', '.join(s(x) for x in t[1]) + ')'
    if op == 'obj':
        return '%s#%s' % (t[1], t[2][0] if isinstance(t[2], tuple) else t[2])
    if op == 'elem':
        return 'each(%s)' % s(t[1])
    if op == 'exc':
        return 'exc[%s]' % s(t[1])
    if op == 'new':
        return 'new %s' % str(t[1]).split(':')[-1]
    return str(op) + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x)
                                for x in t[1:]) + ')'


def walk(t):
    """All sub-terms of t."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            for y in x:
                if isinstance(y, tuple):
                    stack.append(y)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def callee_name(t):
    """Last component of the callee of a call term / of a function term."""
    if t[0] == 'call':
        t = t[1]
    if t[0] == 'attr':
        return t[2]
    if t[0] in ('bi', ):
        return t[1]
    if t[0] == 'ext':
        return t[1].split('.')[-1]
    if t[0] == 'glob':
        return t[2]
    if t[0] in ('fn', 'cls'):
        return t[1].split(':')[-1].split('.')[-1]
    if t[0] == 'bound':
        return t[2].split('.')[-1]
    return None


class Ev(object):
    __slots__ = ('kind', 'term', 'conds', 'loc', 'func', 'x', 'key', 'order')

    def __init__(self, kind, term, conds, loc, func, x=None):
        self.kind = kind
        self.term = term
        self.conds = conds
        self.loc = loc
        self.func = func
        self.x = x
        self.key = (kind, term, loc, x if not isinstance(x, dict) else None)

    @property
    def name(self):
        return callee_name(self.term) if self.kind == 'call' else None

    @property
    def args(self):
        return self.term[2]

    @property
    def kwargs(self):
        return dict(self.term[3])

    def arg(self, i, name=None, default=None):
        a = self.term[2]
        if i is not None and i < len(a):
            return a[i]
        if name is not None:
            return dict(self.term[3]).get(name, default)
        return default

    @property
    def recv(self):
        f = self.term[1]
        if f[0] == 'attr':
            return f[1]
        if f[0] == 'bound':
            return f[1]
        return None

    def __repr__(self):
        return '<%s %s @%s>' % (self.kind, show(self.term), self.loc)


class State(object):
    __slots__ = ('env', 'heap', 'conds', 'events', 'status', 'val', 'fr')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.conds = {}
        self.events = ()
        self.status = None      # None | 'return' | 'raise' | 'break' | 'cont'
        self.val = None
        self.fr = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.conds = dict(self.conds)
        s.events = self.events
        s.status = self.status
        s.val = self.val
        s.fr = self.fr
        return s

    def cond(self, atom):
        return self.conds.get(atom)


class Frame(object):
    """Static part of an activation: function, closure env, self term."""
    __slots__ = ('func', 'closure', 'depth', 'site', 'globals_decl', 'stack')

    def __init__(self, func, closure, depth, site, stack):
        self.func = func
        self.closure = closure
        self.depth = depth
        self.site = site
        self.globals_decl = set()
        self.stack = stack


PURE_METHODS = {
    'setting', 'hasSetting', 'startswith', 'endswith', 'find', 'rfind',
    'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'split', 'replace',
    'isdigit', 'get', 'keys', 'items', 'values', 'has_key', 'group', 'groups',
    'splitlines', 'join', 'encode', 'decode', 'isClassMethod',
    'isStaticMethod', 'methodName', 'count', 'index', 'partition',
    'rpartition', 'isspace', 'isalpha', 'title', 'translate',
}
PURE_FUNCS = {
    'len', 'isinstance', 'issubclass', 'hasattr', 'callable', 'getattr',
    'type', 'repr', 'str', 'unicode', 'bool', 'int', 'float', 'max', 'min',
    'abs', 'tuple', 'sorted', 'id', 'hash', 'range', 'bytes', 'vars', 'locals',
    'globals', 'super', 'ord', 'chr', 'isclass', 'ismethod', 'isfunction',
}


class TooManyPaths(AnalysisBroken):
    pass


class Interp(object):
    def __init__(self, prog, opaque=(), inline=None, keep=None, exc=False,
                 loop_max=1, depth=6, max_states=4000, receiver=None,
                 consts=None, exc_calls=None, fork_bool=True,
                 track_locals=False, impure=(), pure=(), hook=None,
                 generators=False, exact=False, construct=None):
        """opaque: set of callee names never inlined (or predicate on Func).
        keep(ev): which events to record (None = all).
        exc: opaque calls may raise (forks an exceptional edge) when inside a
             try statement, or always if exc == 'all'.
        receiver(term) -> Class or None: static type of a term.
        """
        self.prog = prog
        self.opaque = opaque
        self.inline_pred = inline
        self.keep = keep
        self.exc = exc
        self.exc_calls = exc_calls
        self.loop_max = loop_max
        self.maxdepth = depth
        self.max_states = max_states
        self.receiver = receiver
        self.consts = consts or {}
        self.funcs = {}
        self.closures = {}
        self.try_depth = 0
        self.n_inlined = set()
        self.n_calls = 0
        self.impure = set(impure)
        self.pure = set(pure)
        self.hook = hook
        self.track_locals = track_locals
        self.setcomp_uid = 0
        self.generators = generators
        self.exact = exact      # missing keys of known dictionaries raise
        self.construct = construct      # classes whose objects are tracked

    def known_key(self, b, k, st):
        """(True, value), (False, None) or None if not decided."""
        if not self.exact or b[0] != 'obj' or b[1] not in (
                'dict', 'list') or not is_key(k):
            return None
        if b[1] == 'list':
            items = st.heap.get((b, 'items'))
            if items is None or not is_const(k) or \
                    type(k[2]) is not int or any(
                        i[0] in ('elems', 'star') for i in items):
                return None
            if -len(items) <= k[2] < len(items):
                return True, items[k[2]]
            return False, None
        items = st.heap.get((b, 'items'))
        if items is None or not all(is_key(x) for x, _ in items):
            return None
        for x, v in items:
            if x == k:
                return True, v
        return False, None

    def drop_key(self, b, k, st):
        if b[1] == 'list':
            items = list(st.heap[(b, 'items')])
            del items[k[2]]
            st.heap[(b, 'items')] = tuple(items)
            for x in [x for x in st.heap if len(x) == 3 and x[0] == b]:
                del st.heap[x]
            return
        st.heap[(b, 'items')] = tuple(
            x for x in st.heap[(b, 'items')] if x[0] != k)
        st.heap.pop((b, '[]', k), None)

    @staticmethod
    def key_error(k, st):
        st.status = 'raise'
        st.val = ('call', ('bi', 'KeyError'), (k,), (), None)

    def exact_dict(self, fn, args, st, n):
        b, nm = fn[1], fn[2]
        if nm in ('pop', 'get', 'setdefault', '__getitem__', '__contains__',
                  'has_key') and args:
            r = self.known_key(b, args[0], st)
            if r is None:
                return None
            if nm in ('__contains__', 'has_key'):
                return [(st, K(r[0]))]
            if r[0]:
                if nm == 'pop':
                    self.drop_key(b, args[0], st)
                return [(st, r[1])]
            if len(args) > 1 or nm in ('get', 'setdefault'):
                v = args[1] if len(args) > 1 else NONE
                if nm == 'setdefault':
                    st.heap[(b, 'items')] += ((args[0], v),)
                return [(st, v)]
            self.key_error(args[0], st)
            return [(st, NONE)]
        if nm == 'popitem' and not args and st.heap.get((b, 'items')):
            k, v = st.heap[(b, 'items')][-1]
            self.drop_key(b, k, st)
            return [(st, ('tup', (k, v)))]
        if nm == 'clear' and not args:
            st.heap[(b, 'items')] = ()
            for k in [k for k in st.heap if len(k) == 3 and k[0] == b]:
                del st.heap[k]
            return [(st, NONE)]
        if nm == 'copy' and not args and st.heap.get(
                (b, 'items')) is not None:
            o = ('obj', 'dict', self.uid(st, n))
            st.heap[(o, 'items')] = st.heap[(b, 'items')]
            return [(st, o)]
        return None

    # ------------------------------------------------------------ entry ----
    def run(self, func, selfcls=None, args=None, init=None, site=()):
        """All paths through `func` -> list of final State (status None /
        'return' / 'raise')."""
        st = State()
        if init:
            st.heap.update(init.get('heap', {}))
            st.conds.update(init.get('conds', {}))
            st.env.update(init.get('env', {}))
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and not func.is_static:
                c = selfcls or func.cls
                if func.is_classmethod:
                    env[n] = ('cls', c.qual)
                else:
                    env[n] = ('self', c.qual)
            else:
                env[n] = ('var', n)
        for x in a.kwonlyargs:
            env[x.arg] = ('var', x.arg)
        if a.vararg:
            env[a.vararg.arg] = ('var', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('var', '**' + a.kwarg.arg)
        if args:
            env.update(args)
        st.env = dict(env, **st.env) if init else env
        st.fr = Frame(func, None, 0, site, (func.qual,))
        out = self.block(func.node.body, [st])
        for s in out:
            if s.status is None:
                s.status = 'return'
                s.val = NONE
        return self.merge(out)

    def run_stmts(self, stmts, func, env=None):
        st = State()
        st.env = dict(env or {})
        st.fr = Frame(func, None, 0, (), (func.qual,))
        return self.block(stmts, [st])

    # --------------------------------------------------------- machinery ---
    def merge(self, states):
        if len(states) <= 1:
            return states
        buckets = {}
        order = []
        for s in states:
            try:
                k = (s.status, s.val, tuple(e.key for e in s.events),
                     frozenset(s.env.items()), frozenset(s.heap.items()))
            except TypeError:
                k = id(s)
            if k in buckets:
                b = buckets[k]
                if b.conds != s.conds:
                    b.conds = {c: v for c, v in b.conds.items()
                               if s.conds.get(c) == v}
                # events: keep intersection of conds as well
                if b.events != s.events:
                    ev = []
                    for e, f in zip(b.events, s.events):
                        if e is f or e.conds == f.conds:
                            ev.append(e)
                        else:
                            ev.append(Ev(e.kind, e.term,
                                         {c: v for c, v in e.conds.items()
                                          if f.conds.get(c) == v},
                                         e.loc, e.func, e.x))
                    b.events = tuple(ev)
            else:
                buckets[k] = s
                order.append(k)
        out = [buckets[k] for k in order]
        if len(out) > self.max_states:
            raise TooManyPaths('more than %d paths' % self.max_states)
        return out

    def emit(self, st, kind, term, node, x=None):
        ev = Ev(kind, term, dict(st.conds), self.loc(st, node),
                st.fr.func.qual, x)
        if self.keep is None or self.keep(ev):
            st.events = st.events + (ev,)
        return ev

    def loc(self, st, node):
        return '%s:%d' % (st.fr.func.module.path,
                          getattr(node, 'lineno', 0) or 0)

    def uid(self, st, node):
        u = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
             st.fr.site)
        if not self.exact:
            return u
        # each round of a loop makes an object of its own
        key = (('$made',), u)
        k = st.heap.get(key, K(0))[2]
        st.heap[key] = K(k + 1)
        return u + (k,) if k else u

    def block(self, stmts, states):
        for stmt in stmts:
            live = [s for s in states if s.status is None]
            dead = [s for s in states if s.status is not None]
            if not live:
                return dead
            nxt = []
            for s in live:
                nxt.extend(self.stmt(stmt, s))
            states = dead + self.merge(nxt)
            if len(states) > self.max_states:
                states = self.merge(states)
        return states

    # -------------------------------------------------------- conditions ---
    def assume(self, st, t, val=True):
        """Fork st on truth of t == val; returns list of states."""
        if t[0] == 'not':
            return self.assume(st, t[1], not val)
        if t[0] == 'const':
            return [st] if bool(t[2]) == val else []
        if t[0] == 'and':
            if val:
                out = [st]
                for x in t[1]:
                    out = [r for s in out for r in self.assume(s, x, True)]
                return out
            out = []
            cur = [st]
            for x in t[1]:
                for s in cur:
                    out.extend(self.assume(s.copy(), x, False))
                cur = [r for s in cur for r in self.assume(s.copy(), x, True)]
            return out
        if t[0] == 'or':
            return self.assume(st, ('and', tuple(NOT(x) for x in t[1])),
                               not val)
        if t[0] == 'ite':
            out = []
            for c in (True, False):
                for s in self.assume(st.copy(), t[1], c):
                    out.extend(self.assume(s, t[2] if c else t[3], val))
            return out
        if t[0] == 'tup':
            return [st] if bool(t[1]) == val else []
        if t[0] in ('fn', 'cls', 'modref', 'bound', 'self', 'new',
                    'rematch'):
            return [st] if val else []
        if t[0] == 'obj':
            items = st.heap.get((t, 'items'))
            if items is not None:
                return [st] if bool(items) == val else []
        if t[0] == 'cat':
            if any(p[0] == 'const' and p[2] for p in t[1]):
                return [st] if val else []
        known = st.conds.get(t)
        if known is None:
            known = self.implied(st, t)
        if known is not None:
            return [st] if known == val else []
        st.conds[t] = val
        return [st]

    def implied(self, st, t):
        if t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE:
            x = t[2]
            if st.conds.get(x) is True:
                return False
            if x[0] in ('cat', 'tup', 'obj', 'fn', 'cls', 'bound'):
                return False
        if t[0] == 'cmp' and t[1] in ('==', 'is') and is_const(t[3]):
            for c, v in st.conds.items():
                if v and c[0] == 'cmp' and c[1] in ('==', 'is') and \
                        c[2] == t[2] and is_const(c[3]) and c[3] != t[3]:
                    return False
        if st.conds.get(('cmp', 'is', t, NONE)) is True:
            return False
        for c, v in ((TRUE, True), (FALSE, False)):
            for op in ('is', '=='):
                if st.conds.get(('cmp', op, t, c)) is True:
                    return v
        return None

    def branch(self, st, node):
        """Evaluate a test expression -> list of (state, bool)."""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            out = []
            cur = [st]
            for v in node.values:
                nxt = []
                for s in cur:
                    for s2, b in self.branch(s, v):
                        if s2.status is not None:
                            out.append((s2, None))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, not isand))
                cur = nxt
            out.extend((s, isand) for s in cur)
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, None if b is None else (not b))
                    for s, b in self.branch(st, node.operand)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            # chained comparison
            vals = [node.left] + node.comparators
            parts = [ast.copy_location(
                ast.Compare(vals[i], [node.ops[i]], [vals[i + 1]]), node)
                for i in range(len(node.ops))]
            return self.branch(st, ast.copy_location(
                ast.BoolOp(ast.And(), parts), node))
        out = []
        for s, t in self.ev(node, st):
            if s.status is not None:
                out.append((s, None))
                continue
            a = self.assume(s.copy(), t, True)
            b = self.assume(s, t, False)
            out.extend((x, True) for x in a)
            out.extend((x, False) for x in b)
        return out

    # -------------------------------------------------------- statements ---
    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.emit(st, 'unknown-stmt', K(type(n).__name__), n)
            return [st]
        return m(n, st)

    def s_Expr(self, n, st):
        return [s for s, _ in self.ev(n.value, st)]

    def s_Pass(self, n, st):
        return [st]

    def s_Global(self, n, st):
        fr = st.fr
        fr.globals_decl |= set(n.names)
        return [st]

    s_Nonlocal = s_Pass

    def s_Import(self, n, st):
        for a in n.names:
            if a.asname:
                st.env[a.asname] = self.fromres(
                    self.prog.resolve_dotted(a.name))
            else:
                top = a.name.split('.')[0]
                st.env[top] = self.fromres(self.prog.resolve_dotted(top))
        return [st]

    def s_ImportFrom(self, n, st):
        base = st.fr.func.module._abs(n.module, n.level)
        for a in n.names:
            st.env[a.asname or a.name] = self.fromres(
                self.prog.resolve_dotted(base + '.' + a.name))
        return [st]

    def s_FunctionDef(self, n, st):
        f = Func(n, st.fr.func.module, outer=st.fr.func)
        key = f.qual + '@%d' % n.lineno
        self.funcs[key] = f
        # defaults evaluated at definition time
        dflt = {}
        a = n.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            r = self.ev(d, st)
            dflt[p.arg] = r[0][1]
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[p.arg] = self.ev(d, st)[0][1]
        t = ('fn', key, tuple(sorted(dflt.items())))
        st.env[n.name] = t
        return [st]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        st.env[n.name] = ('lcls', n.name, self.uid(st, n))
        return [st]

    def s_Return(self, n, st):
        if n.value is None:
            st.status, st.val = 'return', NONE
            return [st]
        out = []
        for s, t in self.ev(n.value, st):
            if s.status is None:
                s.status, s.val = 'return', t
            out.append(s)
        return out

    def s_Delete(self, n, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    self.emit(s, 'delname', K(t.id), n)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        if s2.status is None:
                            s2.heap.pop((b, t.attr), None)
                            self.emit(s2, 'delattr', ('attr', b, t.attr), n)
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s):
                        if s2.status is not None:
                            nxt.append(s2)
                            continue
                        for s3, k in self.ev(t.slice, s2):
                            if s3.status is None:
                                self.emit(s3, 'delidx', ('idx', b, k), n)
                                kk = self.known_key(b, k, s3)
                                if kk is not None:
                                    if kk[0]:
                                        self.drop_key(b, k, s3)
                                    else:
                                        self.key_error(k, s3)
                                    nxt.append(s3)
                                    continue
                                s3.heap.pop((b, '[]', k), None)
                                if b[0] == 'obj':
                                    s3.heap.pop((b, 'items'), None)
                                if self.exc and (self.try_depth or
                                                 self.exc == 'all'):
                                    s4 = s3.copy()
                                    s4.status = 'raise'
                                    s4.val = ('exc', ('idx', b, k))
                                    nxt.append(s4)
                            nxt.append(s3)
                else:
                    nxt.append(s)
            states = nxt
        return states

    def s_Assign(self, n, st):
        # parallel tuple assignment
        out = []
        for s, v in self.ev(n.value, st):
            if s.status is not None:
                out.append(s)
                continue
            cur = [s]
            for t in n.targets:
                cur = [r for c in cur for r in self.assign(t, v, c, n)]
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [st]
        out = []
        for s, v in self.ev(n.value, st):
            if s.status is not None:
                out.append(s)
                continue
            out.extend(self.assign(n.target, v, s, n))
        return out

    def s_AugAssign(self, n, st):
        load = ast.copy_location(
            ast.BinOp(_load(n.target), n.op, n.value), n)
        ast.fix_missing_locations(load)
        out = []
        for s, v in self.ev(load, st):
            if s.status is not None:
                out.append(s)
                continue
            out.extend(self.assign(n.target, v, s, n, aug=True))
        return out

    def assign(self, target, v, st, node, aug=False):
        if isinstance(target, ast.Name):
            if target.id in st.fr.globals_decl:
                g = ('glob', st.fr.func.module.name, target.id)
                st.heap[(g, '$')] = v
                self.emit(st, 'setglob', g, node, x=v)
                return [st]
            if target.id not in st.env and st.fr.closure is not None and \
                    self.is_nonlocal(st.fr.func, target.id):
                st.fr.closure[target.id] = v
            st.env[target.id] = v
            if self.track_locals:
                self.emit(st, 'bind', K(target.id), node, x=v)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            states = [st]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    states = [r for s in states for r in self.assign(
                        e.value, ('rest', v, i), s, node)]
                    continue
                item = self.project(v, i, len(target.elts), st)
                states = [r for s in states
                          for r in self.assign(e, item, s, node)]
            return states
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st):
                if s.status is None:
                    s.heap[(b, target.attr)] = v
                    s.conds.pop(('attr', b, target.attr), None)
                    self.emit(s, 'setattr', ('attr', b, target.attr), node,
                              x=v)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.ev(target.value, st):
                if s.status is not None:
                    out.append(s)
                    continue
                for s2, k in self.ev(target.slice, s):
                    if s2.status is None:
                        if b[0] == 'obj':
                            items = s2.heap.get((b, 'items'))
                            if items is not None:
                                if b[1] == 'dict':
                                    items = tuple(
                                        x for x in items if x[0] != k) + \
                                        ((k, v),)
                                    s2.heap[(b, 'items')] = items
                                elif is_const(k) and \
                                        isinstance(cval(k), int) and \
                                        -len(items) <= cval(k) < len(items):
                                    it = list(items)
                                    it[cval(k)] = v
                                    s2.heap[(b, 'items')] = tuple(it)
                                elif self.exact and self.known_items(
                                        v, s2) is not None and \
                                        isinstance(target.slice, ast.Slice) \
                                        and not (target.slice.lower or
                                                 target.slice.upper or
                                                 target.slice.step):
                                    s2.heap[(b, 'items')] = tuple(
                                        self.known_items(v, s2))
                                else:
                                    s2.heap.pop((b, 'items'), None)
                        if not (b[0] == 'obj' and b[1] == 'list' and
                                (b, 'items') in s2.heap):
                            s2.heap[(b, '[]', k)] = v
                        self.emit(s2, 'setidx', ('idx', b, k), node, x=v)
                    out.append(s2)
            return out
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        return [st]

    def is_nonlocal(self, func, name):
        for x in ast.walk(func.node):
            if isinstance(x, ast.Nonlocal) and name in x.names:
                return True
        return False

    def project(self, v, i, n, st):
        if v[0] == 'tup' and len(v[1]) == n:
            return v[1][i]
        if v[0] == 'obj' and v[1] == 'list':
            items = st.heap.get((v, 'items'))
            if items is not None and len(items) == n:
                return items[i]
        if v[0] == 'const' and isinstance(v[2], (tuple, list)) and \
                len(v[2]) == n:
            return K(v[2][i])
        return ('idx', v, K(i))

    def s_If(self, n, st):
        truth = st.fr.func.module.static_truth(n.test)
        if truth is True:
            return self.block(n.body, [st])
        if truth is False:
            return self.block(n.orelse, [st])
        yes, no, out = [], [], []
        for s, b in self.branch(st, n.test):
            if b is None:
                out.append(s)
            elif b:
                yes.append(s)
            else:
                no.append(s)
        yes = self.merge(yes)
        no = self.merge(no)
        if yes:
            out.extend(self.block(n.body, yes))
        if no:
            out.extend(self.block(n.orelse, no) if n.orelse else no)
        return self.merge(out)

    def s_Assert(self, n, st):
        out = []
        for s, b in self.branch(st, n.test):
            if b is None or b:
                out.append(s)
            else:
                s.status = 'raise'
                s.val = mkcall(('bi', 'AssertionError'))
                self.emit(s, 'raise', s.val, n)
                out.append(s)
        return out

    def s_Raise(self, n, st):
        if n.exc is None:
            st.status = 'raise'
            st.val = st.env.get('$exc', ('exc', NONE))
            self.emit(st, 'raise', st.val, n, x='reraise')
            return [st]
        out = []
        for s, t in self.ev(n.exc, st):
            if s.status is None:
                s.status, s.val = 'raise', t
                self.emit(s, 'raise', t, n)
            out.append(s)
        return out

    def s_Break(self, n, st):
        st.status = 'break'
        return [st]

    def s_Continue(self, n, st):
        st.status = 'cont'
        return [st]

    def s_While(self, n, st):
        out = []
        cur = [st]
        for it in range(self.loop_max + 1):
            nxt = []
            for s in cur:
                for s2, b in self.branch(s, n.test):
                    if b is None:
                        out.append(s2)
                    elif not b:
                        out.extend(self.block(n.orelse, [s2])
                                   if n.orelse else [s2])
                    elif it < self.loop_max:
                        body = self.block(n.body, [s2])
                        for r in body:
                            if r.status == 'break':
                                r.status = None
                                out.append(r)
                            elif r.status in (None, 'cont'):
                                r.status = None
                                self.forget(r, n)
                                nxt.append(r)
                            else:
                                out.append(r)
                    else:
                        # iteration bound reached: leave the loop with the
                        # test unknown (widened exit)
                        s2.conds = dict(s.conds)
                        if not (isinstance(n.test, ast.Constant)
                                and n.test.value):
                            out.append(s2)
                        else:
                            pass
            cur = self.merge(nxt)
            if not cur:
                break
        return self.merge(out)

    def forget(self, st, loop):
        """Drop conditions that a loop iteration may have invalidated: those
        mentioning a call result or a name/attribute assigned in the body."""
        for c in list(st.conds):
            if contains(c, lambda x: x[0] == 'call' and x[4] is not None) or \
                    contains(c, lambda x: x[0] in ('attr', 'elem')):
                del st.conds[c]

    def s_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            if s.status is not None:
                out.append(s)
                continue
            items = self.known_items(it, s)
            if items is not None and len(items) <= 60:
                cur = [s]
                for x in items:
                    nxt = []
                    for c in cur:
                        for c2 in self.assign(n.target, x, c, n):
                            if c2.status is not None:
                                out.append(c2)
                                continue
                            for r in self.block(n.body, [c2]):
                                if r.status == 'break':
                                    r.status = None
                                    out.append(r)
                                elif r.status in (None, 'cont'):
                                    r.status = None
                                    nxt.append(r)
                                else:
                                    out.append(r)
                    cur = self.merge(nxt)
                for c in cur:
                    out.extend(self.block(n.orelse, [c])
                               if n.orelse else [c])
                continue
            self.emit(s, 'loop', it, n)
            cur = [s]
            for k in range(self.loop_max + 1):
                for c in cur:
                    e = c.copy()
                    out.extend(self.block(n.orelse, [e]) if n.orelse else [e])
                if k == self.loop_max:
                    break
                nxt = []
                for c in cur:
                    el = ('elem', it, (k,) + self.uid(c, n)[:2])
                    for c2 in self.assign(n.target, el, c, n):
                        if c2.status is not None:
                            out.append(c2)
                            continue
                        for r in self.block(n.body, [c2]):
                            if r.status == 'break':
                                r.status = None
                                out.append(r)
                            elif r.status in (None, 'cont'):
                                r.status = None
                                self.forget(r, n)
                                nxt.append(r)
                            else:
                                out.append(r)
                cur = self.merge(nxt)
        return self.merge(out)

    s_AsyncFor = s_For

    def known_items(self, t, st):
        if t[0] == 'tup':
            return list(t[1])
        if t[0] == 'obj' and t[1] in ('list', 'set'):
            items = st.heap.get((t, 'items'))
            if items is not None and not any(
                    i[0] in ('elems', 'star') for i in items):
                return list(items)
        if t[0] == 'const' and isinstance(t[2], (tuple, list)):
            return [K(x) for x in t[2]]
        if t[0] == 'obj' and t[1] == 'dict':
            items = st.heap.get((t, 'items'))
            if items is not None:
                return [x[0] for x in items]
        if t[0] == 'call' and t[1][0] == 'attr' and \
                t[1][2] in ('keys', 'values') and \
                t[1][1][0] == 'obj' and not t[2]:
            items = st.heap.get((t[1][1], 'items'))
            if items is not None and all(len(x) == 2 for x in items):
                return [x[t[1][2] == 'values'] for x in items]
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'items' and \
                t[1][1][0] == 'obj' and not t[2]:
            items = st.heap.get((t[1][1], 'items'))
            if items is not None and all(len(x) == 2 for x in items):
                return [('tup', x) for x in items]
        if t[0] == 'call' and t[1] in (
                ('bi', 'reversed'), ('bi', 'enumerate'), ('bi', 'zip'),
                ('bi', 'list'), ('bi', 'tuple'), ('bi', 'iter')) and \
                t[2] and not t[3]:
            parts = [self.known_items(x, st) for x in t[2]]
            if all(x is not None for x in parts):
                nm = t[1][1]
                if nm == 'zip':
                    return [('tup', x) for x in zip(*parts)]
                if len(parts) == 1:
                    if nm == 'reversed':
                        return parts[0][::-1]
                    if nm == 'enumerate':
                        return [('tup', (K(i), x))
                                for i, x in enumerate(parts[0])]
                    return parts[0]
        return None

    def s_With(self, n, st):
        cur = [st]
        mgrs = {}
        for item in n.items:
            nxt = []
            for s in cur:
                for s2, t in self.ev(item.context_expr, s):
                    if s2.status is not None:
                        nxt.append(s2)
                        continue
                    self.emit(s2, 'enter', t, n)
                    if item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars,
                                               ('entered', t), s2, n))
                    else:
                        nxt.append(s2)
                    s2.env['$with%d_%d' % (n.lineno, n.items.index(item))] = t
            cur = nxt
        live = [s for s in cur if s.status is None]
        dead = [s for s in cur if s.status is not None]
        self.try_depth += 1
        body = self.block(n.body, live)
        self.try_depth -= 1
        for s in body:
            for i in range(len(n.items) - 1, -1, -1):
                t = s.env.pop('$with%d_%d' % (n.lineno, i), None)
                if t is not None:
                    self.emit(s, 'exit', t, n)
        return self.merge(dead + body)

    s_AsyncWith = s_With

    def as_test(self, n, st):
        """try: x = d[k] / except KeyError: … with a dictionary d, as the
        test for k in d that it is."""
        if len(n.body) != 1 or len(n.handlers) != 1 or n.finalbody or \
                n.handlers[0].name or not isinstance(
                    n.body[0], (ast.Return, ast.Assign)):
            return None
        h = n.handlers[0].type
        v = n.body[0].value
        if not (isinstance(h, ast.Name) and isinstance(v, ast.Subscript) and
                h.id in ('KeyError', 'LookupError') and all(
                    isinstance(t, ast.Name)
                    for t in getattr(n.body[0], 'targets', ()))):
            return None
        if any(isinstance(x, ast.Raise) and x.exc is None
               for b in n.handlers[0].body for x in ast.walk(b)):
            return None
        for x in ast.walk(v):
            if not isinstance(x, (ast.Subscript, ast.Name, ast.Attribute,
                                  ast.Constant, ast.Tuple, ast.expr_context)):
                return None
        r = self.ev(v.value, st.copy())
        if len(r) != 1 or r[0][1][0] != 'obj' or r[0][1][1] != 'dict':
            return None
        test = ast.Compare(v.slice, [ast.In()], [v.value])
        return ast.fix_missing_locations(ast.copy_location(ast.If(
            ast.copy_location(test, v), list(n.body) + list(n.orelse),
            list(n.handlers[0].body)), n))

    def s_Try(self, n, st):
        alt = self.as_test(n, st)
        if alt is not None:
            return self.stmt(alt, st)
        self.try_depth += 1
        body = self.block(n.body, [st])
        self.try_depth -= 1
        out, after = [], []
        raised = []
        for s in body:
            if s.status == 'raise' and n.handlers:
                raised.append(s)
            elif s.status is None:
                after.append(s)
            else:
                out.append(s)
        fin_guard = bool(n.finalbody)
        if fin_guard:
            self.try_depth += 1
        raised = self.merge(raised)
        for s in raised:
            rest = [s]
            for h in n.handlers:
                nxt = []
                for r in rest:
                    m = self.handler_matches(h, r)
                    if m is not False:
                        c = r.copy()
                        exc = c.val
                        c.status, c.val = None, None
                        prev = c.env.get('$exc')
                        c.env['$exc'] = exc
                        if h.name:
                            c.env[h.name] = exc
                        ht = self.handler_type(h, c)
                        self.emit(c, 'handler', ht, h, x=exc)
                        for b in self.block(h.body, [c]):
                            if prev is None:
                                b.env.pop('$exc', None)
                            else:
                                b.env['$exc'] = prev
                            out.append(b)
                    if m is not True:
                        nxt.append(r)
                rest = nxt
            out.extend(rest)
        if after:
            if n.orelse:
                out.extend(self.block(n.orelse, after))
            else:
                out.extend(after)
        if fin_guard:
            self.try_depth -= 1
        if n.finalbody:
            final = []
            for s in self.merge(out):
                status, val = s.status, s.val
                s.status, s.val = None, None
                for r in self.block(n.finalbody, [s]):
                    if r.status is None:
                        r.status, r.val = status, val
                    final.append(r)
            out = final
        return self.merge(out)

    s_TryStar = s_Try

    def handler_type(self, h, st):
        if h.type is None:
            return ('bi', 'BaseException')
        return self.ev(h.type, st)[0][1]

    def handler_names(self, t):
        if t[0] == 'tup':
            return [y for x in t[1] for y in self.handler_names(x)]
        return [t]

    def handler_matches(self, h, st):
        """True: certainly catches; False: certainly not; None: may."""
        ht = self.handler_type(h, st.copy())
        exc = st.val
        res = False
        for t in self.handler_names(ht):
            r = self.exc_match(t, exc)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def exc_match(self, t, exc):
        if t == ('bi', 'BaseException'):
            return True
        cls = None
        if exc is not None and exc[0] == 'call':
            cls = exc[1]
        elif exc is not None and exc[0] in ('bi', 'cls'):
            cls = exc
        if cls is None or cls[0] not in ('bi', 'cls'):
            if t == ('bi', 'Exception'):
                return True
            return None
        a = self.exc_ancestors(cls)
        b = t
        if b[0] in ('bi', 'cls'):
            return self.exc_key(b) in a
        return None

    def exc_key(self, t):
        if t[0] == 'bi':
            o = getattr(builtins, t[1], None)
            return o.__name__ if isinstance(o, type) else t[1]
        return t[1]

    def exc_ancestors(self, t):
        if t[0] == 'bi':
            o = getattr(builtins, t[1], None)
            if isinstance(o, type):
                return {c.__name__ for c in o.__mro__}
            return {t[1]}
        out = set()
        mod, name = t[1].split(':')
        m = self.prog.modules.get(mod)
        c = m and m.classes.get(name)
        if not c:
            return {t[1], 'Exception', 'BaseException'}
        for k in self.prog.mro(c):
            out.add(k.qual)
            for b in k.node.bases:
                if isinstance(b, ast.Name) and \
                        isinstance(getattr(builtins, b.id, None), type) and \
                        not self.prog.resolve(k.module, b.id):
                    out |= {x.__name__ for x in
                            getattr(builtins, b.id).__mro__}
        return out

    def s_Match(self, n, st):
        self.emit(st, 'unknown-stmt', K('Match'), n)
        out = []
        for c in n.cases:
            out.extend(self.block(c.body, [st.copy()]))
        out.append(st)
        return out

    # -------------------------------------------------------- expressions --
    def evs(self, nodes, st):
        """Evaluate several expressions in order -> [(state, [terms])]."""
        cur = [(st, [])]
        for x in nodes:
            nxt = []
            for s, ts in cur:
                if s.status is not None:
                    nxt.append((s, ts))
                    continue
                for s2, t in self.ev(x, s):
                    nxt.append((s2, ts + [t]))
            cur = nxt
        return cur

    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(st, ('unk', type(n).__name__, self.uid(st, n)))]
        return m(n, st)

    def e_Constant(self, n, st):
        return [(st, K(n.value))]

    def e_Name(self, n, st):
        return [(st, self.name(n.id, st))]

    def name(self, nm, st):
        if nm in st.fr.globals_decl:
            g = ('glob', st.fr.func.module.name, nm)
            if (g, '$') in st.heap:
                return st.heap[(g, '$')]
            return self.globname(nm, st)
        if nm in st.env:
            return st.env[nm]
        c = st.fr.closure
        if c is not None and nm in c:
            return c[nm]
        return self.globname(nm, st)

    def globname(self, nm, st):
        m = st.fr.func.module
        r = self.prog.resolve(m, nm)
        if r is None:
            if nm in BUILTINS:
                return {'True': TRUE, 'False': FALSE,
                        'None': NONE}.get(nm, ('bi', nm))
            return ('free', nm)
        return self.fromres(r)

    def fromres(self, r):
        if r is None:
            return ('unk', 'import', ())
        if r[0] == 'cls':
            return ('cls', r[1].qual)
        if r[0] == 'fn':
            self.funcs[r[1].qual] = r[1]
            return ('fn', r[1].qual, ())
        if r[0] == 'mod':
            return ('modref', r[1].name)
        if r[0] == 'ext':
            last = r[1]
            if last.startswith('builtins.') or last.startswith('__builtin__.'):
                return ('bi', last.split('.', 1)[1])
            return ('ext', last)
        if r[0] == 'glob':
            m, nm = r[1], r[2]
            key = (m.name, nm)
            if key in self.consts:
                return self.consts[key]
            if nm == 'PY2':
                return FALSE
            if nm in ('unicode', 'string_type'):
                return ('bi', nm)
            vals = m.assigns.get(nm)
            if vals and len(vals) == 1 and isinstance(
                    vals[0], ast.Constant) and nm not in m.aug:
                return K(vals[0].value)
            if vals and len(vals) == 1 and nm not in m.aug:
                c = const_expr(vals[0])
                if c is not None:
                    return K(c)
            if vals and len(vals) == 1 and isinstance(
                    vals[0], (ast.Name, ast.Attribute)):
                r2 = self.prog.resolve_expr(m, vals[0])
                if r2 is not None and r2[0] != 'glob':
                    return self.fromres(r2)
                if r2 is None and isinstance(vals[0], ast.Name) and \
                        vals[0].id in BUILTINS:
                    return ('bi', vals[0].id)
            return ('glob', m.name, nm)
        return ('unk', 'res', ())

    def e_Attribute(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            if s.status is not None:
                out.append((s, b))
                continue
            out.append((s, self.getattr(b, n.attr, s)))
        return out

    def getattr(self, b, name, st):
        if (b, name) in st.heap and not (
                name == 'items' and b[0] == 'obj'
                and b[1] in ('dict', 'list', 'set')):
            return st.heap[(b, name)]
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + name)
        if b[0] == 'modref':
            m = self.prog.modules[b[1]]
            r = self.prog.resolve(m, name)
            if r:
                return self.fromres(r)
        if b[0] == 'bi' and b[1] in ('builtins', '__builtin__'):
            return ('bi', name)
        c = self.cls_of(b)
        if c is not None:
            f = self.prog.find_method(c, name)
            if f is not None:
                self.funcs[f.qual] = f
                if f.is_static:
                    return ('fn', f.qual, ())
                if b[0] == 'cls' and not f.is_classmethod:
                    return ('fn', f.qual, ())
                if f.is_property:
                    return ('attr', b, name)
                return ('bound', b, f.qual)
        return ('attr', b, name)

    def cls_of(self, t):
        if t[0] in ('self', 'cls', 'new'):
            mod, nm = t[1].split(':')
            m = self.prog.modules.get(mod)
            return m and m.classes.get(nm)
        if t[0] == 'call' and t[1][0] == 'cls':
            return self.cls_of(t[1])
        if t[0] == 'call' and t[1] == ('bi', 'super'):
            return None
        if self.receiver:
            return self.receiver(t)
        return None

    def e_Subscript(self, n, st):
        out = []
        for s, ts in self.evs([n.value, n.slice], st):
            if s.status is not None:
                out.append((s, NONE))
                continue
            b, k = ts
            if self.exact:
                kk = self.known_key(b, k, s)
                if kk is not None and not kk[0]:
                    self.key_error(k, s)
                    out.append((s, NONE))
                    continue
            r = self.getidx(b, k, s)
            if k[0] == 'slice' and r[0] in ('idx', 'copyof') and \
                    all(is_const(x) for x in k[1:]) and \
                    b[0] in ('tup', 'obj'):
                items = self.known_items(b, s) if b[1] != 'dict' else None
                if items is not None:
                    try:
                        items = tuple(items[slice(*[cval(x)
                                                    for x in k[1:]])])
                    except Exception:
                        items = None
                if items is not None and b[0] == 'tup':
                    r = ('tup', items)
                elif items is not None:
                    r = ('obj', 'list', self.uid(s, n))
                    s.heap[(r, 'items')] = items
            if self.exc_calls and self.exc_calls(r) and (
                    self.try_depth or self.exc == 'all'):
                s2 = s.copy()
                s2.status, s2.val = 'raise', ('exc', r)
                out.append((s2, NONE))
            out.append((s, r))
        return out

    def getidx(self, b, k, st):
        if (b, '[]', k) in st.heap:
            return st.heap[(b, '[]', k)]
        if is_key(k) and not is_const(k) and b[0] == 'obj' and b[1] == 'dict':
            for kk, vv in st.heap.get((b, 'items')) or ():
                if kk == k:
                    return vv
        if is_const(k):
            kv = cval(k)
            if b[0] == 'tup' and isinstance(kv, int) and \
                    -len(b[1]) <= kv < len(b[1]):
                return b[1][kv]
            if b[0] == 'const' and isinstance(b[2], (str, tuple)):
                try:
                    return K(b[2][kv])
                except Exception:
                    pass
            if b[0] == 'obj':
                items = st.heap.get((b, 'items'))
                if items is not None:
                    if b[1] == 'dict':
                        for kk, vv in items:
                            if kk == k:
                                return vv
                    elif isinstance(kv, int) and -len(items) <= kv < len(
                            items) and not any(
                                i[0] in ('elems', 'star') for i in items):
                        return items[kv]
        if k[0] == 'slice':
            if b[0] == 'const' and isinstance(b[2], (str, tuple)) and all(
                    is_const(x) for x in k[1:]):
                try:
                    return K(b[2][slice(*[cval(x) for x in k[1:]])])
                except Exception:
                    pass
            if k == ('slice', NONE, NONE, NONE):
                return ('copyof', b)
        return ('idx', b, k)

    def e_Slice(self, n, st):
        nodes = [x if x is not None else ast.Constant(None)
                 for x in (n.lower, n.upper, n.step)]
        return [(s, ('slice',) + tuple(ts) if s.status is None else NONE)
                for s, ts in self.evs(nodes, st)]

    def e_Tuple(self, n, st):
        out = []
        for s, ts in self.evs([e.value if isinstance(e, ast.Starred) else e
                               for e in n.elts], st):
            items = []
            for e, t in zip(n.elts, ts):
                if isinstance(e, ast.Starred):
                    k = self.known_items(t, s)
                    if k is not None:
                        items.extend(k)
                    else:
                        items.append(('star', t))
                else:
                    items.append(t)
            out.append((s, ('tup', tuple(items))))
        return out

    def e_List(self, n, st):
        out = []
        for s, t in self.e_Tuple(n, st):
            if s.status is not None:
                out.append((s, NONE))
                continue
            o = ('obj', 'list', self.uid(s, n))
            s.heap[(o, 'items')] = t[1]
            out.append((s, o))
        return out

    def e_Set(self, n, st):
        out = []
        for s, t in self.e_Tuple(n, st):
            o = ('obj', 'set', self.uid(s, n))
            if s.status is None:
                s.heap[(o, 'items')] = t[1]
            out.append((s, o))
        return out

    def e_Dict(self, n, st):
        keys = [k for k in n.keys]
        flat = []
        for k, v in zip(keys, n.values):
            flat.append(k if k is not None else ast.Constant(None))
            flat.append(v)
        out = []
        for s, ts in self.evs(flat, st):
            if s.status is not None:
                out.append((s, NONE))
                continue
            o = ('obj', 'dict', self.uid(s, n))
            if all(k is not None for k in keys):
                s.heap[(o, 'items')] = tuple(
                    (ts[2 * i], ts[2 * i + 1]) for i in range(len(keys)))
            out.append((s, o))
        return out

    def e_BoolOp(self, n, st):
        # value semantics; fork so that effects in later operands are guarded
        isand = isinstance(n.op, ast.And)
        if not any(self.has_effect(v, st) for v in n.values[1:]):
            # pure: build a term
            r = self.evs(n.values, st)
            out = []
            for s, ts in r:
                if s.status is not None:
                    out.append((s, NONE))
                    continue
                ts = [t for t in ts]
                out.append((s, self.boolterm(isand, ts, s)))
            return out
        out = []
        cur = [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for s2, t in self.ev(v, s):
                    if s2.status is not None:
                        out.append((s2, NONE))
                        continue
                    if last:
                        out.append((s2, t))
                        continue
                    for s3 in self.assume(s2.copy(), t, not isand):
                        out.append((s3, t))
                    for s3 in self.assume(s2, t, isand):
                        nxt.append(s3)
            cur = nxt
        return out

    def boolterm(self, isand, ts, st):
        """`and`/`or` as a value, simplified with what is known."""
        res = []
        for i, t in enumerate(ts):
            k = self.truth(t, st)
            last = i == len(ts) - 1
            if k is None or last:
                res.append(t)
                if last:
                    break
                continue
            if k == isand:
                continue        # does not decide
            res.append(t)
            break
        if len(res) == 1:
            return res[0]
        return ('and' if isand else 'or', tuple(res))

    def truth(self, t, st):
        if t[0] == 'const':
            return bool(t[2])
        if t[0] == 'not':
            r = self.truth(t[1], st)
            return None if r is None else not r
        if t[0] in ('fn', 'cls', 'modref', 'bound', 'self', 'new',
                    'rematch'):
            return True
        if self.exact and t[0] == 'obj' and t[1] in ('list', 'dict', 'set') \
                and (t, 'items') in st.heap:
            items = st.heap[(t, 'items')]
            if not items:
                return False
            if any(i[0] not in ('elems', 'star') for i in items):
                return True
        if t[0] == 'cat' and any(p[0] == 'const' and p[2] for p in t[1]):
            return True
        if t in st.conds:
            return st.conds[t]
        return self.implied(st, t)

    def has_effect(self, node, st):
        for x in ast.walk(node):
            if isinstance(x, (ast.Call, ast.Await, ast.Yield)):
                if isinstance(x, ast.Call) and self.pure_callnode(x):
                    continue
                return True
            if isinstance(x, ast.NamedExpr):
                return True
        return False

    def pure_callnode(self, x):
        f = x.func
        if isinstance(f, ast.Attribute):
            return f.attr in PURE_METHODS and f.attr not in self.impure and \
                f.attr not in ('isClassMethod', 'isStaticMethod')
        if isinstance(f, ast.Name):
            return f.id in PURE_FUNCS and f.id not in self.impure
        return False

    def e_IfExp(self, n, st):
        if not self.has_effect(n.body, st) and \
                not self.has_effect(n.orelse, st) and False:
            pass
        out = []
        for s, b in self.branch(st, n.test):
            if b is None:
                out.append((s, NONE))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def e_NamedExpr(self, n, st):
        out = []
        for s, t in self.ev(n.value, st):
            if s.status is None:
                s.env[n.target.id] = t
            out.append((s, t))
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for s, t in self.ev(n.operand, st):
            if s.status is not None:
                out.append((s, t))
            elif isinstance(n.op, ast.Not):
                k = self.truth(t, s)
                out.append((s, K(not k) if k is not None else NOT(t)))
            elif is_const(t) and isinstance(n.op, ast.USub):
                try:
                    out.append((s, K(-t[2])))
                except TypeError:
                    out.append((s, ('un', '-', t)))
            else:
                out.append((s, ('un', {ast.USub: '-', ast.UAdd: '+',
                                       ast.Invert: '~'}[type(n.op)], t)))
        return out

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
           ast.Mod: '%', ast.FloorDiv: '//', ast.Pow: '**', ast.BitOr: '|',
           ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
           ast.RShift: '>>', ast.MatMult: '@'}

    def e_BinOp(self, n, st):
        out = []
        for s, ts in self.evs([n.left, n.right], st):
            if s.status is not None:
                out.append((s, NONE))
                continue
            a, b = ts
            out.append((s, self.binop(self.OPS[type(n.op)], a, b, s, n)))
        return out

    def binop(self, op, a, b, st, n):
        if is_const(a) and is_const(b):
            try:
                if op == '+':
                    return K(a[2] + b[2])
                if op == '-':
                    return K(a[2] - b[2])
                if op == '*' and not (isinstance(a[2], str)
                                      and isinstance(b[2], int)
                                      and b[2] > 200):
                    return K(a[2] * b[2])
                if op == '%' and isinstance(a[2], str):
                    return K(a[2] % b[2])
            except Exception:
                pass
        if op == '+':
            if is_str(a) or is_str(b) or self.stringy(a) or self.stringy(b):
                return cat(a, b)
            if a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1] == 'list':
                ia = st.heap.get((a, 'items'))
                ib = st.heap.get((b, 'items'))
                o = ('obj', 'list', self.uid(st, n))
                if ia is not None and ib is not None:
                    st.heap[(o, 'items')] = ia + ib
                return o
            if a[0] == 'tup' and b[0] == 'tup':
                return ('tup', a[1] + b[1])
            la = self.aslist(a, st)
            lb = self.aslist(b, st)
            if la is not None or lb is not None:
                return ('lcat', la if la is not None else (('elems', a),),
                        lb if lb is not None else (('elems', b),))
        if op == '%' and is_str(a):
            r = self.percent(a, b, st)
            if r is not None:
                return r
        return ('bin', op, a, b)

    def stringy(self, t):
        return t[0] == 'call' and callee_name(t) in (
            'strip', 'lower', 'upper', 'join', 'replace', 'indentation')

    def aslist(self, t, st):
        if t[0] == 'obj' and t[1] == 'list':
            return st.heap.get((t, 'items'))
        if t[0] == 'lcat':
            return t[1] + t[2]
        return None

    def percent(self, a, b, st):
        """'…%s…' % args as a concatenation."""
        parts = a[1] if a[0] == 'cat' else (a,)
        # holes inside the format string could themselves contain %; the
        # repository formats only literal text, so treat holes as opaque text
        out = []
        args = None
        if b[0] == 'tup':
            args = list(b[1])
        mapping = None
        if b[0] == 'obj' and b[1] == 'dict':
            items = st.heap.get((b, 'items'))
            if items is not None:
                mapping = {k[2]: v for k, v in items if is_const(k)}
        elif b[0] == 'call' and b[1] == ('bi', 'locals'):
            mapping = '$locals'
        idx = 0
        for p in parts:
            if not (p[0] == 'const' and isinstance(p[2], str)):
                out.append(p)
                continue
            s = p[2]
            i = 0
            buf = ''
            while i < len(s):
                ch = s[i]
                if ch != '%':
                    buf += ch
                    i += 1
                    continue
                i += 1
                if i >= len(s):
                    return None
                if s[i] == '%':
                    buf += '%'
                    i += 1
                    continue
                key = None
                if s[i] == '(':
                    j = s.index(')', i)
                    key = s[i + 1:j]
                    i = j + 1
                while i < len(s) and s[i] in '-+ #0123456789.*':
                    i += 1
                conv = s[i]
                i += 1
                if key is not None:
                    if mapping is None:
                        v = ('idx', b, K(key))
                    elif mapping == '$locals':
                        if key in st.env:
                            v = st.env[key]
                        elif st.fr.closure and key in st.fr.closure:
                            # only if actually captured; python's locals()
                            # includes free variables used in the function
                            v = st.fr.closure[key]
                        else:
                            v = ('free', key)
                    elif key in mapping:
                        v = mapping[key]
                    else:
                        v = ('idx', b, K(key))
                elif args is not None:
                    if idx >= len(args):
                        return None
                    v = args[idx]
                    idx += 1
                else:
                    # single argument (or an unknown tuple with several)
                    v = b if self.count_convs(parts) == 1 else \
                        ('idx', b, K(idx))
                    idx += 1
                if buf:
                    out.append(K(buf))
                    buf = ''
                if conv == 'r':
                    out.append(self.mk_repr(v))
                else:
                    out.append(self.mk_str(v))
            if buf:
                out.append(K(buf))
        return cat(*out) if out else K('')

    def count_convs(self, parts):
        n = 0
        for p in parts:
            if p[0] == 'const' and isinstance(p[2], str):
                s = p[2].replace('%%', '')
                n += s.count('%')
        return n

    def mk_repr(self, v):
        if is_const(v):
            return K(repr(v[2]))
        return mkcall(('bi', 'repr'), (v,))

    def mk_str(self, v):
        if is_const(v):
            return K(str(v[2]))
        if v[0] == 'call' and v[1] == ('bi', 'str') and len(v[2]) == 1:
            return self.mk_str(v[2][0])
        return v

    def e_JoinedStr(self, n, st):
        out = [(st, [])]
        for v in n.values:
            nxt = []
            for s, ps in out:
                if s.status is not None:
                    nxt.append((s, ps))
                    continue
                if isinstance(v, ast.Constant):
                    nxt.append((s, ps + [K(v.value)]))
                else:
                    for s2, t in self.ev(v.value, s):
                        if v.conversion == ord('r'):
                            t = self.mk_repr(t)
                        else:
                            t = self.mk_str(t)
                        nxt.append((s2, ps + [t]))
            out = nxt
        return [(s, cat(*ps) if ps else K('')) for s, ps in out]

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Compare(self, n, st):
        if len(n.ops) > 1:
            vals = [n.left] + n.comparators
            out = []
            for s, ts in self.evs(vals, st):
                if s.status is not None:
                    out.append((s, NONE))
                    continue
                parts = [self.cmp(n.ops[i], ts[i], ts[i + 1], s)
                         for i in range(len(n.ops))]
                out.append((s, ('and', tuple(parts))))
            return out
        out = []
        for s, ts in self.evs([n.left, n.comparators[0]], st):
            if s.status is not None:
                out.append((s, NONE))
                continue
            out.append((s, self.cmp(n.ops[0], ts[0], ts[1], s)))
        return out

    def cmp(self, op, a, b, st):
        neg = False
        if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn, ast.GtE,
                           ast.LtE)):
            neg = True
        if isinstance(op, (ast.Eq, ast.NotEq)):
            o = '=='
        elif isinstance(op, (ast.Is, ast.IsNot)):
            o = 'is'
        elif isinstance(op, (ast.In, ast.NotIn)):
            o = 'in'
        else:
            o = '<'
            if isinstance(op, ast.Gt):       # a > b  ==  b < a
                a, b = b, a
            elif isinstance(op, ast.LtE):    # a <= b == not b < a
                a, b = b, a
            elif isinstance(op, ast.GtE):    # a >= b == not a < b
                pass
        if o in ('==', 'is') and is_const(a) and not is_const(b):
            a, b = b, a
        # small integer normal form: len(x) > 0, x != 0 ... left alone
        if is_const(a) and is_const(b):
            try:
                r = {'==': lambda: a[2] == b[2],
                     'is': lambda: a[2] is b[2] or (a[2] == b[2]
                                                    and type(a[2]) is
                                                    type(b[2])),
                     'in': lambda: a[2] in b[2],
                     '<': lambda: a[2] < b[2]}[o]()
                return K(r != neg)
            except Exception:
                pass
        if o == 'in' and b[0] in ('tup', ) or (
                o == 'in' and b[0] == 'obj' and b[1] in ('list', 'set')
                and st.heap.get((b, 'items')) is not None):
            items = b[1] if b[0] == 'tup' else st.heap[(b, 'items')]
            if is_const(a) and all(is_const(i) for i in items):
                return K((a in items) != neg)
            if 0 < len(items) <= 12 and not any(
                    i[0] in ('star', 'elems') for i in items):
                t = ('or', tuple(self._eq(a, i) for i in items))
                if len(items) == 1:
                    t = self._eq(a, items[0])
                return NOT(t) if neg else t
        if o == 'in' and b[0] == 'obj' and b[1] == 'dict' and is_key(a):
            items = st.heap.get((b, 'items'))
            if items is not None and all(is_key(k) for k, _ in items):
                return K((a in [k for k, _ in items]) != neg)
        if o == 'in' and self.exact and b[0] == 'obj' and \
                b[1] == 'dict' and st.heap.get((b, 'items')) == () and \
                not any(len(k) == 3 and k[0] == b for k in st.heap):
            return K(neg)
        if o in ('==', 'is') and a == b and not contains(
                a, lambda x: x[0] == 'call'):
            return K(not neg)
        if o == 'is' and a[0] in ('cls', 'fn') and is_const(b):
            return K(neg)
        if o == '==' and self.exact and a[0] == b[0] == 'obj' and \
                a[1] == b[1] == 'list':
            x, y = (st.heap.get((i, 'items')) for i in (a, b))
            if x is not None and y is not None and \
                    all(is_key(i) for i in x + y):
                return K((x == y) != neg)
        if o in ('==', 'is') and a[0] == 'cat' and is_const(b) and \
                b[2] in (None, ''):
            if any(p[0] == 'const' for p in a[1]):
                return K(neg)
        if o == '==' and not is_const(b):
            a, b = sorted((a, b), key=repr)
        if o == '==' and is_const(b) and b[2] is None:
            o = 'is'
        if o == '==' and is_const(b) and b[2] is True:
            pass
        t = ('cmp', o, a, b)
        return NOT(t) if neg else t

    def _eq(self, a, b):
        if is_const(a) and is_const(b):
            return K(a == b)
        if is_const(a):
            a, b = b, a
        if is_const(b) and b[2] is None:
            return K(False) if a[0] in ('cls', 'fn') else ('cmp', 'is', a, b)
        if is_const(b) and a[0] in ('cls', 'fn'):
            return K(False)
        if not is_const(b):
            a, b = sorted((a, b), key=repr)
        return ('cmp', '==', a, b)

    def e_Lambda(self, n, st):
        f = Func(n, st.fr.func.module, outer=st.fr.func)
        key = f.qual + '@%d:%d' % (n.lineno, n.col_offset)
        self.funcs[key] = f
        return [(st, ('fn', key, ()))]

    def comp(self, n, st, elt_nodes, kind):
        """Comprehension: evaluate once with symbolic element."""
        saved = dict(st.env)
        cur = [st]
        iters = []
        ok = True
        conds = []
        out = []
        for g in n.generators:
            nxt = []
            for s in cur:
                for s2, it in self.ev(g.iter, s):
                    if s2.status is not None:
                        out.append((s2, NONE))
                        continue
                    iters.append(it)
                    items = self.known_items(it, s2)
                    if items is not None and len(n.generators) == 1 and \
                            len(items) <= 90:
                        return self.comp_known(n, s2, g, items, elt_nodes,
                                               kind, saved)
                    el = ('elem', it, self.uid(s2, g.iter)[:2])
                    for s3 in self.assign(g.target, el, s2, g.target):
                        c2 = [s3]
                        for i in g.ifs:
                            c3 = []
                            for c in c2:
                                for s4, b in self.branch(c, i):
                                    if b:
                                        c3.append(s4)
                                        conds.append(1)
                            c2 = c3
                        nxt.extend(c2)
            cur = nxt
            if not cur:
                ok = False
        if not ok:
            st.env = saved
            o = ('obj', kind, self.uid(st, n))
            st.heap[(o, 'items')] = ()
            out.append((st, o))
            return out
        for s in cur:
            for s2, ts in self.evs(elt_nodes, s):
                if s2.status is not None:
                    out.append((s2, NONE))
                    continue
                s2.env = dict(saved)
                o = ('obj', kind, self.uid(s2, n))
                if len(ts) == 1:
                    s2.heap[(o, 'items')] = (
                        ('elems', ts[0], iters[-1] if iters else NONE),)
                out.append((s2, o))
        return out

    def comp_known(self, n, st, g, items, elt_nodes, kind, saved):
        cur = [(st, [])]
        for x in items:
            nxt = []
            for s, acc in cur:
                for s2 in self.assign(g.target, x, s, g.target):
                    c2 = [(s2, True)]
                    for i in g.ifs:
                        c3 = []
                        for c, b in c2:
                            if not b:
                                c3.append((c, False))
                            else:
                                c3.extend(self.branch(c, i))
                        c2 = c3
                    for c, b in c2:
                        if not b:
                            nxt.append((c, acc))
                        else:
                            for s3, ts in self.evs(elt_nodes, c):
                                nxt.append((s3, acc + [ts]))
            cur = nxt
        out = []
        for s, acc in cur:
            if s.status is not None:
                out.append((s, NONE))
                continue
            s.env = dict(saved)
            o = ('obj', kind, self.uid(s, n))
            if kind == 'dict':
                s.heap[(o, 'items')] = tuple((a[0], a[1]) for a in acc)
            else:
                s.heap[(o, 'items')] = tuple(a[0] for a in acc)
            out.append((s, o))
        return out

    def e_ListComp(self, n, st):
        return self.comp(n, st, [n.elt], 'list')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, [n.elt], 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, [n.elt], 'set')

    def e_DictComp(self, n, st):
        return self.comp(n, st, [n.key, n.value], 'dict')

    def e_Starred(self, n, st):
        return [(s, ('star', t)) for s, t in self.ev(n.value, st)]

    def e_Yield(self, n, st):
        if n.value is None:
            self.emit(st, 'yield', NONE, n)
            return [(st, ('unk', 'sent', self.uid(st, n)))]
        out = []
        for s, t in self.ev(n.value, st):
            if s.status is None:
                self.emit(s, 'yield', t, n)
                key = (('obj', 'list', ('gen', s.fr.site)), 'items')
                if key in s.heap:
                    new = (t,)
                    if isinstance(n, ast.YieldFrom):
                        k = self.known_items(t, s)
                        new = tuple(k) if k is not None else (('elems', t),)
                    s.heap[key] += new
            out.append((s, ('unk', 'sent', self.uid(s, n))))
        return out

    e_YieldFrom = e_Yield

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # -------------------------------------------------------------- calls --
    def e_Call(self, n, st):
        out = []
        for s, fn in self.ev(n.func, st):
            if s.status is not None:
                out.append((s, fn))
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a
                     for a in n.args] + [k.value for k in n.keywords]
            for s2, ts in self.evs(nodes, s):
                if s2.status is not None:
                    out.append((s2, NONE))
                    continue
                args = []
                for a, t in zip(n.args, ts):
                    if isinstance(a, ast.Starred):
                        k = self.known_items(t, s2)
                        if k is not None:
                            args.extend(k)
                        else:
                            args.append(('star', t))
                    else:
                        args.append(t)
                kw = []
                for k, t in zip(n.keywords, ts[len(n.args):]):
                    if k.arg is None:
                        items = s2.heap.get((t, 'items')) \
                            if t[0] == 'obj' else None
                        if items is not None and all(
                                is_const(i[0]) for i in items):
                            kw.extend((i[0][2], i[1]) for i in items)
                        else:
                            kw.append(('**', t))
                    else:
                        kw.append((k.arg, t))
                out.extend(self.call(fn, args, kw, s2, n))
        return out

    def call(self, fn, args, kw, st, n):
        self.n_calls += 1
        if self.hook is not None:
            r = self.hook(self, fn, args, kw, st, n)
            if r is not None:
                return r
        r = self.builtin_call(fn, args, kw, st, n)
        if r is not None:
            return r
        if fn[0] == 'cls' and self.construct is not None:
            c = self.cls_of(fn)
            if c is not None and self.construct(c):
                o = ('new', fn[1], self.uid(st, n))
                f = self.prog.find_method(c, '__init__')
                if f is None:
                    return [(st, o)]
                self.funcs[f.qual] = f
                r = self.inline(f, o, args, kw, st, n, (), f.qual)
                if r is None:
                    raise AnalysisBroken('constructor call not understood: '
                                         '%s' % f.qual)
                return [(s, o) for s, _ in r]
        if fn[0] == 'cls':
            c = self.cls_of(fn)
            if c is not None and self.is_record(c):
                o = ('obj', 'inst', self.uid(st, n))
                f = self.prog.find_method(c, '__init__')
                self.funcs[f.qual] = f
                r = self.inline(f, o, args, kw, st, n, (), f.qual)
                if r is not None:
                    return [(s, o) for s, _ in r]
        # super().m / super(C, self).m
        if fn[0] == 'attr' and fn[1][0] == 'call' and \
                fn[1][1] == ('bi', 'super'):
            f, recv = self.super_method(fn, st)
            if f is not None:
                self.funcs[f.qual] = f
                fn = ('bound', recv, f.qual)
        key, f, recv, dflt = None, None, None, ()
        if fn[0] == 'fn':
            key = fn[1]
            f = self.funcs.get(key)
            dflt = fn[2]
        elif fn[0] == 'bound':
            key = fn[2]
            f = self.funcs.get(key)
            recv = fn[1]
        if f is not None and self.may_inline(f, st):
            r = self.inline(f, recv, args, kw, st, n, dflt, key)
            if r is not None:
                return r
        return self.opaque_call(fn, args, kw, st, n)

    def is_record(self, c):
        """A class that does nothing but hold what it is made with."""
        if c.name == 'CheetahVariable' or set(c.methods) != {'__init__'} or \
                any(ast.unparse(b) != 'object' for b in c.node.bases):
            return False
        f = c.methods['__init__'].node
        return all(isinstance(x, ast.Assign) and
                   not any(isinstance(y, ast.Call) for y in ast.walk(x))
                   for x in f.body
                   if not (isinstance(x, ast.Expr) and
                           isinstance(x.value, ast.Constant)))

    def super_method(self, fn, st):
        sargs = fn[1][2]
        if sargs:
            c = self.cls_of(sargs[0]) if sargs[0][0] == 'cls' else None
            recv = sargs[1] if len(sargs) > 1 else None
        else:
            f = st.fr.func
            while f.outer is not None:
                f = f.outer
            c = f.cls
            a = f.node.args.args
            recv = st.env.get(a[0].arg) if a else None
        if c is None or recv is None:
            return None, None
        rc = self.cls_of(recv)
        if rc is None:
            return None, None
        mro = self.prog.mro(rc)
        if c not in mro:
            mro = self.prog.mro(c)
        for k in mro[mro.index(c) + 1:]:
            if fn[2] in k.methods:
                return k.methods[fn[2]], recv
        return None, None

    def may_inline(self, f, st):
        if st.fr.depth >= self.maxdepth:
            return False
        if f.qual in st.fr.stack:
            return False
        if callable(self.opaque):
            if self.opaque(f):
                return False
        elif f.name in self.opaque or f.qual.split(':')[1] in self.opaque:
            return False
        if self.inline_pred is not None and not self.inline_pred(f):
            return False
        bad = [d for d in f.decorators
               if d not in ('staticmethod', 'classmethod')]
        if bad:
            return False
        return self.generators or not self.is_generator(f)

    def is_generator(self, f):
        if isinstance(f.node, ast.FunctionDef):
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    return True
        return False

    def bind(self, f, recv, args, kw, st, dflt):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = list(kw)
        if f.cls is not None and not f.is_static and recv is not None:
            args = [recv] + args
        elif f.is_classmethod and recv is None and f.cls is not None:
            args = [('cls', f.cls.qual)] + args
        if any(x[0] == 'star' for x in args):
            i = [x[0] for x in args].index('star')
            star = args[i][1]
            if i != len(args) - 1:
                return None
            args = args[:i]
            given = {k for k, _ in kw}
            j = 0
            if a.vararg and len(args) >= len(pos):
                env[a.vararg.arg] = star if len(args) == len(pos) else \
                    ('unk', 'varargs', ())
                args = args[:len(pos)]
            else:
                while len(args) < len(pos) and pos[len(args)] not in given:
                    args.append(('idx', star, K(j)))
                    j += 1
        if len(args) > len(pos):
            if not a.vararg:
                return None
            env[a.vararg.arg] = ('tup', tuple(args[len(pos):]))
            args = args[:len(pos)]
        for p, t in zip(pos, args):
            env[p] = t
        extra = []
        unknown_kw = None
        for k, t in kw:
            if k == '**':
                unknown_kw = t
                continue
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = t
            else:
                extra.append((k, t))
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = ('tup', ())
        if a.kwarg:
            if unknown_kw is not None and not extra:
                env[a.kwarg.arg] = unknown_kw
            elif unknown_kw is not None:
                env[a.kwarg.arg] = ('unk', 'kwargs', ())
            else:
                o = ('obj', 'dict', ('kw', f.qual, st.fr.site))
                st.heap[(o, 'items')] = tuple((K(k), t) for k, t in extra)
                env[a.kwarg.arg] = o
        elif extra:
            return None
        dd = dict(dflt)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p in env:
                continue
            if unknown_kw is not None and p in defaults:
                env[p] = ('idx', unknown_kw, K(p))
            elif p in dd:
                env[p] = dd[p]
            elif p in defaults:
                d = defaults[p]
                if isinstance(d, ast.Constant):
                    env[p] = K(d.value)
                else:
                    s0 = State()
                    s0.fr = Frame(f, None, 99, (), ())
                    try:
                        r = self.ev(d, s0)
                        env[p] = r[0][1]
                        st.heap.update(s0.heap)
                    except Exception:
                        env[p] = ('unk', 'default', (f.qual, p))
            elif unknown_kw is not None:
                env[p] = ('idx', unknown_kw, K(p))
            else:
                return None
        return env

    def inline(self, f, recv, args, kw, st, n, dflt, key):
        env = self.bind(f, recv, args, kw, st, dflt)
        if env is None:
            return None
        self.n_inlined.add(f.qual)
        caller_env, caller_fr = st.env, st.fr
        closure = None
        if f.outer is not None:
            # late binding: closure sees the definer's current variables
            closure = dict(caller_fr.closure or {})
            closure.update(caller_env if caller_fr.func is f.outer or True
                           else {})
        site = st.fr.site + ((getattr(n, 'lineno', 0),
                              getattr(n, 'col_offset', 0)),)
        fr = Frame(f, closure, caller_fr.depth + 1, site,
                   caller_fr.stack + (f.qual,))
        st.env = env
        st.fr = fr
        if isinstance(f.node, ast.Lambda):
            out = []
            for s, t in self.ev(f.node.body, st):
                s.env, s.fr = dict(caller_env), caller_fr
                out.append((s, t))
            return out
        if '$exc' in caller_env and '$exc' not in env:
            st.env['$exc'] = caller_env['$exc']     # for a bare raise
        gen = None
        if self.is_generator(f):
            # the values it yields, as a list
            gen = ('obj', 'list', ('gen', site))
            st.heap[(gen, 'items')] = ()
        res = self.block(f.node.body, [st])
        nonlocals = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Nonlocal):
                nonlocals |= set(x.names)
        fin = []
        for s in res:
            e2 = dict(caller_env)
            for nm in nonlocals:
                if nm in s.env:
                    e2[nm] = s.env[nm]
            s.env, s.fr = e2, caller_fr
            fin.append(s)
        fin = self.merge(fin)
        out = []
        for s in fin:
            if s.status == 'return':
                v = s.val
                s.status, s.val = None, None
                out.append((s, gen or v))
            elif s.status is None:
                out.append((s, gen or NONE))
            else:
                out.append((s, NONE))
        return out

    def opaque_call(self, fn, args, kw, st, n):
        nm = callee_name(fn)
        pure = False
        if nm not in self.impure:
            if nm in self.pure:
                pure = True
            elif fn[0] == 'bi' and fn[1] in PURE_FUNCS:
                pure = True
            elif fn[0] == 'attr' and nm in PURE_METHODS:
                pure = True
            elif fn[0] == 'bound' and nm in ('setting',):
                pure = True
            elif fn[0] == 'ext' and (fn[1].startswith('os.path.') or
                                     nm in PURE_FUNCS):
                pure = True
        t = mkcall(fn, args, kw, None if pure else self.uid(st, n))
        # mutation of tracked containers
        if fn[0] == 'attr' and fn[1][0] == 'obj':
            self.container_method(fn, args, st)
        elif not pure:
            for a in list(args) + [v for _, v in kw]:
                pass
        self.emit(st, 'call', t, n)
        if self.exc and (self.exc == 'all' or self.try_depth) and not pure \
                and (self.exc_calls is None or self.exc_calls(t)):
            s2 = st.copy()
            s2.status = 'raise'
            s2.val = ('exc', t)
            return [(st, t), (s2, NONE)]
        if self.exc and pure and self.exc_calls is not None and \
                self.exc_calls(t) and (self.exc == 'all' or self.try_depth):
            s2 = st.copy()
            s2.status = 'raise'
            s2.val = ('exc', t)
            return [(st, t), (s2, NONE)]
        return [(st, t)]

    def container_method(self, fn, args, st):
        o, nm = fn[1], fn[2]
        items = st.heap.get((o, 'items'))
        if items is None:
            return
        if o[1] in ('list', 'set'):
            if nm in ('append', 'add') and len(args) == 1:
                if o[1] == 'list' or not is_key(args[0]) or \
                        args[0] not in items:
                    st.heap[(o, 'items')] = items + (args[0],)
            elif nm in ('remove', 'discard') and self.exact and \
                    len(args) == 1 and is_key(args[0]) and \
                    all(is_key(i) for i in items):
                if args[0] in items:
                    k = items.index(args[0])
                    st.heap[(o, 'items')] = items[:k] + items[k + 1:]
                elif nm == 'remove':
                    self.key_error(args[0], st)
            elif nm == 'clear' and not args and self.exact:
                st.heap[(o, 'items')] = ()
            elif nm in ('extend', 'update') and len(args) == 1:
                k = self.known_items(args[0], st)
                if k is not None:
                    st.heap[(o, 'items')] = items + tuple(k)
                else:
                    st.heap[(o, 'items')] = items + (
                        ('elems', ('elem', args[0], ()), args[0]),)
            elif nm == 'insert' and len(args) == 2 and is_const(args[0]) and \
                    args[0][2] == 0:
                st.heap[(o, 'items')] = (args[1],) + items
            elif nm == 'pop' and not args and items:
                st.heap[(o, 'items')] = items[:-1]
            elif nm == 'reverse':
                st.heap[(o, 'items')] = tuple(reversed(items))
            elif nm in PURE_METHODS:
                pass
            else:
                st.heap.pop((o, 'items'), None)
        else:
            if nm in PURE_METHODS:
                return
            if nm == 'update' and len(args) == 1 and args[0][0] == 'obj':
                k = st.heap.get((args[0], 'items'))
                if k is not None and args[0][1] != 'dict':
                    if all(x[0] == 'tup' and len(x[1]) == 2 for x in k):
                        k = tuple((x[1][0], x[1][1]) for x in k)
                    else:
                        k = None
                if k is not None:
                    d = [x for x in items
                         if x[0] not in [y[0] for y in k]]
                    st.heap[(o, 'items')] = tuple(d) + k
                    return
            st.heap.pop((o, 'items'), None)

    def builtin_call(self, fn, args, kw, st, n):
        """Calls with a known abstract meaning; None if not handled."""
        if fn[0] == 'ext' and fn[1] in (
                're.match', 're.search', 're.fullmatch') and not kw and \
                len(args) == 2 and all(
                    is_const(a) and isinstance(a[2], str) for a in args):
            m = getattr(re, fn[1][3:])(args[0][2], args[1][2])
            if m is None:
                return [(st, NONE)]
            return [(st, ('rematch', fn[1], args[0], args[1]))]
        if fn[0] == 'attr' and fn[1][0] == 'rematch' and fn[2] in (
                'end', 'start', 'group', 'groups', 'span') and not kw and \
                all(is_const(a) for a in args):
            _, f, a, b = fn[1]
            m = getattr(re, f[3:])(a[2], b[2])
            v = getattr(m, fn[2])(*[x[2] for x in args])
            if isinstance(v, tuple):
                return [(st, ('tup', tuple(K(x) for x in v)))]
            return [(st, K(v))]
        if fn[0] == 'attr':
            b, nm = fn[1], fn[2]
            if self.exact and b[0] == 'obj' and b[1] == 'dict' and not kw:
                r = self.exact_dict(fn, args, st, n)
                if r is not None:
                    return r
            if nm == 'join' and is_str(b) and len(args) == 1:
                items = self.known_items(args[0], st)
                if items is None and args[0][0] == 'obj':
                    items = st.heap.get((args[0], 'items'))
                if items is None and args[0][0] == 'lcat':
                    items = args[0][1] + args[0][2]
                if items is not None:
                    parts = []
                    for i, x in enumerate(items):
                        if i:
                            parts.append(b)
                        if x[0] == 'elems':
                            parts.append(('joined', b, x[1], x[2]
                                          if len(x) > 2 else NONE))
                        else:
                            parts.append(x)
                    return [(st, cat(*parts) if parts else K(''))]
                return [(st, ('joined', b, ('elem', args[0], ()), args[0]))]
            if nm == 'format' and b[0] == 'const' and isinstance(b[2], str):
                r = self.format(b[2], args, kw, st)
                if r is not None:
                    return [(st, r)]
            if b[0] == 'const' and isinstance(b[2], str) and \
                    all(is_const(a) for a in args) and not kw and \
                    nm in ('strip', 'lower', 'upper', 'replace', 'split',
                           'startswith', 'endswith', 'find', 'rstrip',
                           'lstrip', 'title', 'splitlines', 'capitalize',
                           'rfind', 'index', 'rindex', 'count', 'partition',
                           'rpartition', 'rsplit', 'swapcase', 'isdigit',
                           'isalpha', 'isalnum', 'isspace', 'isidentifier',
                           'isupper', 'islower', 'zfill', 'ljust', 'rjust',
                           'expandtabs', 'removeprefix', 'removesuffix'):
                try:
                    v = getattr(b[2], nm)(*[a[2] for a in args])
                    if isinstance(v, (list, tuple)):
                        return [(st, ('tup', tuple(K(x) for x in v)))]
                    return [(st, K(v))]
                except Exception:
                    return None
            if b[0] == 'obj' and b[1] == 'dict' and nm == 'get' and args:
                items = st.heap.get((b, 'items'))
                if items is not None and is_key(args[0]) and all(
                        is_key(k) for k, _ in items):
                    for k, v in items:
                        if k == args[0]:
                            return [(st, v)]
                    return [(st, args[1] if len(args) > 1 else NONE)]
            if b[0] == 'obj' and b[1] == 'dict' and nm == 'items' and \
                    not args:
                return None
            if nm == 'pop' and b[0] == 'obj' and b[1] == 'list' and \
                    self.exact:
                k = args[0] if args else K(-1)
                kk = self.known_key(b, k, st)
                if kk is not None:
                    if kk[0]:
                        self.drop_key(b, k, st)
                        return [(st, kk[1])]
                    self.key_error(k, st)
                    return [(st, NONE)]
            if nm == 'pop' and b[0] == 'obj' and b[1] == 'list' and not args:
                items = st.heap.get((b, 'items'))
                if items:
                    st.heap[(b, 'items')] = items[:-1]
                    return [(st, items[-1])]
            return None
        if fn[0] == 'bi':
            nm = fn[1]
            if self.exact and nm == 'dict' and len(args) == 1 and \
                    args[0][0] == 'obj' and args[0][1] == 'dict' and \
                    st.heap.get((args[0], 'items')) is not None and \
                    not any(k == '**' for k, _ in kw):
                o = ('obj', 'dict', self.uid(st, n))
                new = dict(kw)
                st.heap[(o, 'items')] = tuple(
                    i for i in st.heap[(args[0], 'items')]
                    if not (is_const(i[0]) and i[0][2] in new)) + tuple(
                        (K(k), v) for k, v in kw)
                return [(st, o)]
            if self.exact and nm == 'dict' and len(args) == 1 and not kw \
                    and (args[0][0] == 'tup' or args[0][0] == 'obj' and
                         args[0][1] == 'list'):
                its = self.known_items(args[0], st)
                if its is not None and all(
                        i[0] == 'tup' and len(i[1]) == 2 and is_key(i[1][0])
                        for i in its):
                    o = ('obj', 'dict', self.uid(st, n))
                    st.heap[(o, 'items')] = tuple(dict(
                        i[1] for i in its).items())
                    return [(st, o)]
            if nm in ('max', 'min', 'abs', 'ord', 'chr') and args and \
                    not kw and all(is_const(a) for a in args):
                try:
                    return [(st, K({'max': max, 'min': min, 'abs': abs,
                                    'ord': ord, 'chr': chr}[nm](
                                        *[a[2] for a in args])))]
                except Exception:
                    return None
            if nm in ('max', 'min', 'sum', 'any', 'all', 'sorted') and \
                    len(args) == 1 and not kw:
                items = self.known_items(args[0], st)
                if items is not None and all(is_const(x) for x in items):
                    try:
                        v = {'max': max, 'min': min, 'sum': sum, 'any': any,
                             'all': all, 'sorted': sorted}[nm](
                                 [x[2] for x in items])
                    except Exception:
                        return None
                    if nm != 'sorted':
                        return [(st, K(v))]
                    o = ('obj', 'list', self.uid(st, n))
                    st.heap[(o, 'items')] = tuple(K(x) for x in v)
                    return [(st, o)]
                if nm == 'sorted' and items is not None and all(
                        x[0] == 'tup' and x[1] and is_const(x[1][0])
                        for x in items) and len(
                            {x[1][0] for x in items}) == len(items):
                    try:
                        v = sorted(items, key=lambda x: x[1][0][2])
                    except TypeError:
                        return None
                    o = ('obj', 'list', self.uid(st, n))
                    st.heap[(o, 'items')] = tuple(v)
                    return [(st, o)]
            if nm == 'map' and self.exact and len(args) == 2 and not kw:
                items = self.known_items(args[1], st)
                if items is not None and len(items) <= 60:
                    cur = [(st, ())]
                    for x in items:
                        cur = [(s2, got + (v,)) for s, got in cur
                               for s2, v in (self.call(args[0], [x], (), s, n)
                                             if s.status is None
                                             else [(s, NONE)])]
                    out = []
                    for s, got in cur:
                        o = ('obj', 'list', self.uid(s, n))
                        s.heap[(o, 'items')] = got
                        out.append((s, o))
                    return out
            if nm in ('repr', 'str', 'unicode') and len(args) == 1 and \
                    args[0][0] == 'tup' and is_key(args[0]):
                return [(st, K(repr(key_value(args[0]))))]
            if nm == 'repr' and len(args) == 1:
                return [(st, self.mk_repr(args[0]))]
            if nm in ('str', 'unicode') and len(args) == 1 and \
                    is_const(args[0]):
                return [(st, self.mk_str(args[0]))]
            if nm in ('str', 'unicode') and len(args) == 1 and \
                    is_str(args[0]):
                return [(st, args[0])]
            if nm == 'bool' and len(args) == 1:
                k = self.truth(args[0], st)
                if k is not None:
                    return [(st, K(k))]
                return [(st, NOT(NOT(args[0])))]
            if nm in ('list', 'tuple') and len(args) == 1:
                items = self.known_items(args[0], st)
                if items is not None:
                    if nm == 'tuple':
                        return [(st, ('tup', tuple(items)))]
                    o = ('obj', 'list', self.uid(st, n))
                    st.heap[(o, 'items')] = tuple(items)
                    return [(st, o)]
                o = ('obj', 'list', self.uid(st, n))
                st.heap[(o, 'items')] = (('elems', ('elem', args[0], ()),
                                          args[0]),)
                return [(st, o)]
            if nm in ('list', 'dict', 'set') and not args and not kw:
                o = ('obj', nm, self.uid(st, n))
                st.heap[(o, 'items')] = ()
                return [(st, o)]
            if nm == 'dict' and not args and all(k != '**' for k, _ in kw):
                o = ('obj', nm, self.uid(st, n))
                st.heap[(o, 'items')] = tuple((K(k), v) for k, v in kw)
                return [(st, o)]
            if nm == 'len' and len(args) == 1:
                if is_const(args[0]) and isinstance(args[0][2],
                                                    (str, bytes, tuple)):
                    return [(st, K(len(args[0][2])))]
                items = self.known_items(args[0], st)
                if items is not None:
                    return [(st, K(len(items)))]
            if nm == 'isinstance' and len(args) == 2:
                if is_const(args[0]) and args[1] in (
                        ('bi', 'str'), ('bi', 'unicode'),
                        ('bi', 'string_type'), ('bi', 'bytes')):
                    isb = args[1][1] == 'bytes'
                    return [(st, K(isinstance(args[0][2],
                                              bytes if isb else str)))]
            if nm == 'getattr' and len(args) >= 2 and is_const(args[1]) and \
                    isinstance(args[1][2], str):
                if (args[0], args[1][2]) in st.heap:
                    return [(st, st.heap[(args[0], args[1][2])])]
                if len(args) == 2:
                    return [(st, self.getattr(args[0], args[1][2], st))]
            if nm == 'setattr' and len(args) == 3 and is_const(args[1]) and \
                    isinstance(args[1][2], str):
                st.heap[(args[0], args[1][2])] = args[2]
                self.emit(st, 'setattr', ('attr', args[0], args[1][2]), n,
                          x=args[2])
                return [(st, NONE)]
        if fn[0] == 'lcls':
            # instance of a local record class
            o = ('obj', 'inst', self.uid(st, n))
            return [(st, o)]
        return None

    def format(self, fmt, args, kw, st):
        out = []
        idx = 0
        kwd = dict(kw)
        if len(args) == 1 and args[0][0] == 'star':
            # the items of an unknown sequence
            args = [('idx', args[0][1], K(i)) for i in range(20)]
        try:
            for litt, field, spec, conv in _string.Formatter().parse(fmt):
                if litt:
                    out.append(K(litt))
                if field is None:
                    continue
                if field == '':
                    v = args[idx]
                    idx += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwd:
                    v = kwd[field]
                else:
                    return None
                out.append(self.mk_repr(v) if conv == 'r'
                           else self.mk_str(v))
        except Exception:
            return None
        return cat(*out) if out else K('')


def const_expr(n):
    """Value of an expression of string literals (replace, +, *), or None."""
    if isinstance(n, ast.Constant) and isinstance(n.value, (str, int)):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)):
        a, b = const_expr(n.left), const_expr(n.right)
        if a is None or b is None:
            return None
        try:
            return a + b if isinstance(n.op, ast.Add) else a * b
        except TypeError:
            return None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            not n.keywords and n.func.attr in (
                'replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper'):
        b = const_expr(n.func.value)
        args = [const_expr(a) for a in n.args]
        if isinstance(b, str) and None not in args:
            try:
                return getattr(b, n.func.attr)(*args)
            except (TypeError, ValueError):
                return None
    return None


def _load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()),
                                 t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()),
                                 t)
    return t
