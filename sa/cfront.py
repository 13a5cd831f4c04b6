"""Path-sensitive analysis of the C accelerator, on clang's syntax tree.

The tree of the preprocessed translation unit is turned into control flow
graphs; every path through an exported function (static helpers analysed in
place, loops entered a bounded number of times) is followed with a model of
the CPython API: who owns which reference, whether an exception is pending,
what was asked about which object and how the answer was used."""
import json
import os
import subprocess

from .model import AnalysisBroken

NULL = ('i', 0)


class CNode(object):
    pass


def include_dir():
    for v in ('3.12', '3.11', '3.13', '3.10'):
        d = '/usr/include/python' + v
        if os.path.exists(d + '/Python.h'):
            return d
    raise AnalysisBroken('no Python headers')


class CProgram(object):
    def __init__(self, path, defines=()):
        self.path = path
        cmd = ['clang', '-fsyntax-only', '-Xclang', '-ast-dump=json',
               '-I', include_dir()] + list(defines) + [path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        if p.returncode:
            raise AnalysisBroken('clang: ' + p.stderr.decode()[-300:])
        tree = json.loads(p.stdout)
        top = tree['inner']
        start = None
        base = os.path.basename(path)
        for i, n in enumerate(top):
            for loc in self.locs(n.get('loc', {})):
                f = loc.get('file')
                if f and os.path.basename(f) == base:
                    start = i
                    break
            if start is not None:
                break
        if start is None:
            raise AnalysisBroken('no declarations of %s' % base)
        self.line = 0
        self.top = top[start:]
        for n in self.top:
            self.lines(n)
        self.funcs = {}
        self.globals = {}
        for n in self.top:
            if n['kind'] == 'FunctionDecl' and any(
                    c['kind'] == 'CompoundStmt' for c in n.get('inner', ())):
                self.funcs[n['name']] = n
            elif n['kind'] == 'VarDecl':
                self.globals[n['name']] = n
        self.cfgs = {}

    def locs(self, loc):
        if 'spellingLoc' in loc or 'expansionLoc' in loc:
            for k in ('spellingLoc', 'expansionLoc'):
                if k in loc:
                    yield loc[k]
        else:
            yield loc

    def lines(self, n):
        """Line numbers are only dumped where they change."""
        stack = [n]
        while stack:
            n = stack.pop()
            if not isinstance(n, dict):
                continue
            here = None
            for src in (n.get('loc'), (n.get('range') or {}).get('begin'),
                        (n.get('range') or {}).get('end')):
                if not src:
                    continue
                for loc in self.locs(src):
                    if 'line' in loc:
                        self.line = loc['line']
                if here is None or src is not (n.get('range') or {}).get(
                        'end'):
                    here = self.line
            n['_line'] = here
            stack.extend(reversed(n.get('inner', ())))

    def methods(self):
        """{name visible in Python: C function name}"""
        out = {}
        for g in self.globals.values():
            if 'PyMethodDef' not in g['type']['qualType']:
                continue
            for row in self.find(g, 'InitListExpr'):
                s = f = None
                for x in row.get('inner', ()):
                    for y in self.walk(x):
                        if y['kind'] == 'StringLiteral' and s is None:
                            s = json.loads(y['value'])
                        elif y['kind'] == 'DeclRefExpr' and y.get(
                                'referencedDecl', {}).get('kind') == \
                                'FunctionDecl' and f is None:
                            f = y['referencedDecl']['name']
                if s and f and not any(y['kind'] == 'InitListExpr'
                                       for x in row['inner']
                                       for y in self.walk(x)):
                    out[s] = f
        return out

    def walk(self, n):
        stack = [n]
        while stack:
            n = stack.pop()
            if isinstance(n, dict) and 'kind' in n:
                yield n
                stack.extend(reversed(n.get('inner', ())))

    def find(self, n, kind):
        return [x for x in self.walk(n) if x['kind'] == kind]

    def params(self, f):
        return [c for c in f.get('inner', ()) if c['kind'] == 'ParmVarDecl']

    def is_splitter(self, f):
        ts = [p['type']['qualType'].replace(' ', '') for p in self.params(f)]
        return 'char**' in ts and not any('PyObject' in t for t in ts)

    def body(self, f):
        return [c for c in f['inner'] if c['kind'] == 'CompoundStmt'][0]

    def cfg(self, name):
        if name not in self.cfgs:
            self.cfgs[name] = Cfg(self.body(self.funcs[name]))
        return self.cfgs[name]


class Cfg(object):
    """Instructions: ('expr', node), ('cond', node, then, else),
    ('jump', target), ('ret', node or None), ('decl', node)."""

    def __init__(self, body):
        self.code = []
        self.labels = {}
        self.gotos = []
        self.loops = []
        self.stmt(body)
        self.emit('ret', None)
        for i, ins in enumerate(self.code):
            if len(ins) > 4 and not any(
                    self.calls(j) for j in range(i, max(
                        [i] + [k for k, x in enumerate(self.code) if k > i and
                               x[0] == 'jump' and x[1] == i]) + 1)):
                # copies or scans memory, calls nothing
                self.code[i] = ins[:4] + ('quiet',)
        for i, l in self.gotos:
            if l not in self.labels:
                raise AnalysisBroken('unknown label')
            self.code[i] = ('jump', self.labels[l])

    def calls(self, i):
        stack = [x for x in self.code[i][1:] if isinstance(x, dict)]
        while stack:
            n = stack.pop()
            if n.get('kind') == 'CallExpr':
                return True
            stack.extend(c for c in n.get('inner', ())
                         if isinstance(c, dict))
        return False

    def emit(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def patch(self, i, **kw):
        ins = list(self.code[i])
        for k, v in kw.items():
            ins[{'t': 2, 'f': 3, 'to': 1}[k]] = v
        self.code[i] = tuple(ins)

    @property
    def here(self):
        return len(self.code)

    def stmt(self, n):
        k = n.get('kind')
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            for c in inner:
                self.stmt(c)
        elif k == 'DeclStmt':
            for c in inner:
                if c['kind'] == 'VarDecl':
                    self.emit('decl', c)
        elif k == 'IfStmt':
            i = self.emit('cond', inner[0], None, None)
            self.patch(i, t=self.here)
            self.stmt(inner[1])
            if len(inner) > 2:
                j = self.emit('jump', None)
                self.patch(i, f=self.here)
                self.stmt(inner[2])
                self.patch(j, to=self.here)
            else:
                self.patch(i, f=self.here)
        elif k == 'WhileStmt':
            top = self.here
            i = self.emit('cond', inner[0], None, None, 'loop')
            self.patch(i, t=self.here)
            self.loops.append([top, []])
            self.stmt(inner[1])
            self.emit('jump', top)
            self.patch(i, f=self.here)
            self.close()
        elif k == 'DoStmt':
            top = self.here
            self.loops.append([None, []])
            cont = self.loops[-1]
            self.stmt(inner[0])
            c = self.here
            i = self.emit('cond', inner[1], top, None, 'loop')
            self.patch(i, f=self.here)
            for j in cont[1]:
                if j[0] == 'c':
                    self.patch(j[1], to=c)
            self.close()
        elif k == 'ForStmt':
            init, _, cond, inc, body = inner[:5]
            if init:
                self.stmt(init)
            top = self.here
            i = None
            if cond:
                i = self.emit('cond', cond, None, None, 'loop')
                self.patch(i, t=self.here)
            self.loops.append([None, []])
            fr = self.loops[-1]
            self.stmt(body)
            c = self.here
            for j in fr[1]:
                if j[0] == 'c':
                    self.patch(j[1], to=c)
            if inc:
                self.emit('expr', inc)
            self.emit('jump', top)
            if i is not None:
                self.patch(i, f=self.here)
            self.close()
        elif k == 'BreakStmt':
            self.loops[-1][1].append(('b', self.emit('jump', None)))
        elif k == 'ContinueStmt':
            if self.loops[-1][0] is not None:
                self.emit('jump', self.loops[-1][0])
            else:
                self.loops[-1][1].append(('c', self.emit('jump', None)))
        elif k == 'ReturnStmt':
            self.emit('ret', inner[0] if inner else None, n)
        elif k == 'GotoStmt':
            self.gotos.append((self.emit('jump', None),
                               n['targetLabelDeclId']))
        elif k == 'LabelStmt':
            self.labels[n['declId']] = self.here
            for c in inner:
                self.stmt(c)
        elif k == 'NullStmt':
            pass
        elif k in ('SwitchStmt', 'CaseStmt', 'DefaultStmt', 'GCCAsmStmt'):
            raise AnalysisBroken('unsupported statement %s' % k)
        else:
            self.emit('expr', n)

    def close(self):
        for kind, j in self.loops.pop()[1]:
            if kind == 'b':
                self.patch(j, to=self.here)


class State(object):
    __slots__ = ('vars', 'own', 'dead', 'err', 'ans', 'mem', 'events',
                 'arr', 'lines', 'cells')

    def __init__(self):
        self.vars = {}      # (frame, decl id) -> value
        self.own = {}       # object id -> references held
        self.dead = set()   # objects given up
        self.err = None     # None or (kind or None, excluded, origin)
        self.ans = {}       # term -> value / ('not', {values})
        self.mem = {}       # allocation -> 'live' | 'freed'
        self.events = []
        self.arr = {}       # array -> {index: value} or number filled
        self.lines = []
        self.cells = {}     # (base, off) -> value

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.own = dict(self.own)
        s.dead = set(self.dead)
        s.err = self.err
        s.ans = dict(self.ans)
        s.mem = dict(self.mem)
        s.events = list(self.events)
        s.arr = {k: dict(v) for k, v in self.arr.items()}
        s.lines = list(self.lines)
        s.cells = dict(self.cells)
        return s


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr',
                        'ConstantExpr'):
        n = n['inner'][-1]
    return n


# result: owned object or NULL with an exception
NEW = {'PyUnicode_FromFormat', 'PyObject_CallMethod', 'PyObject_CallObject',
       'PyMapping_GetItemString', 'PyObject_GetAttrString',
       'PyObject_GetIter', 'Py_BuildValue', 'PyImport_ImportModule',
       'PyErr_NewException', 'PyModule_Create2', 'PyUnicode_FromString',
       'PyObject_GetAttr', 'PyObject_GetItem', 'PyObject_CallNoArgs',
       'PyObject_Str', 'PyObject_Repr', 'PyList_New', 'PyTuple_New',
       'PyDict_New', 'PyLong_FromLong', 'PyObject_CallFunction',
       'PyObject_CallFunctionObjArgs', 'PyUnicode_Concat',
       'PySequence_GetItem', 'PyUnicode_FromStringAndSize',
       'PyObject_CallOneArg', 'PyUnicode_Split', 'PySequence_List',
       'PySequence_Tuple', 'PyObject_CallMethodObjArgs'}
BORROWED = {'PyEval_GetLocals', 'PyEval_GetGlobals', 'PyEval_GetBuiltins',
            'PyModule_GetDict'}
# questions about an object: 0 or 1, no exception left behind
ASK = {'PyObject_HasAttrString', 'PyMapping_HasKeyString', 'PyMapping_Check',
       'PyCallable_Check', 'PyType_Check', 'PyObject_HasAttr',
       'PyMapping_HasKey', 'PyDict_Check', 'PyUnicode_Check',
       'PyFunction_Check', 'PyObject_TypeCheck', 'PyType_HasFeature',
       'PyType_FastSubclass', 'PySequence_Check', 'Py_IS_TYPE'}
NULL_OK = {'PyCallable_Check': (0,), 'PyMapping_Check': (0,),
           'Py_XDECREF': (0,), 'free': (0,), 'PyErr_SetObject': (1,),
           'PyErr_Restore': (0, 1, 2), 'PyObject_CallObject': (1,),
           'PyErr_NewException': (1, 2), 'Py_XINCREF': (0,),
           'Py_XNewRef': (0,), 'PyModule_Create2': ()}
RUNS_CODE = {'PyObject_CallMethod', 'PyObject_CallObject',
             'PyMapping_GetItemString', 'PyObject_GetAttrString',
             'PyObject_GetIter', 'PyObject_HasAttrString',
             'PyMapping_HasKeyString', 'PyIter_Next', 'PyObject_CallNoArgs',
             'PyObject_GetItem', 'PyObject_GetAttr'}


class CInterp(object):
    def __init__(self, prog, loop_max=2, max_paths=60000, chunks=(0, 1, 2),
                 splitter=True, optional=True):
        self.optional = optional
        self.p = prog
        self.loop_max = loop_max
        self.max_paths = max_paths
        self.chunks = chunks
        self.splitter = splitter
        self.n = 0
        self.problems = {}
        self.frame = 0
        self.calls = 0
        self.api = set()

    def fresh(self):
        self.n += 1
        return self.n

    def problem(self, rule, node, msg):
        line = (node or {}).get('_line') or 0
        self.problems.setdefault((rule, line, msg), 0)
        self.problems[(rule, line, msg)] += 1

    # -- running functions
    def run(self, name, args=None):
        f = self.p.funcs[name]
        st = State()
        vals = []
        for i, prm in enumerate(self.p.params(f)):
            if args and prm['name'] in args:
                vals.append(args[prm['name']])
            elif '*' in prm['type']['qualType']:
                vals.append(('o', self.fresh(), ('arg', prm['name'])))
            else:
                vals.append(('u', ('arg', prm['name'])))
        return self.call(f, vals, st)

    def call(self, f, vals, st, depth=0):
        if depth > 12:
            raise AnalysisBroken('recursion in %s' % f['name'])
        self.frame += 1
        fr = self.frame
        st = st.copy()
        for prm, v in zip(self.p.params(f), vals):
            st.vars[(fr, prm['id'])] = v
        cfg = self.p.cfg(f['name'])
        out = []
        work = [(0, st, {})]
        while work:
            pc, st, seen = work.pop()
            while True:
                ins = cfg.code[pc]
                if ins[0] == 'jump':
                    pc = ins[1]
                elif ins[0] == 'decl':
                    d = ins[1]
                    if d.get('storageClass') == 'static':
                        st.vars[(fr, d['id'])] = ('static', d['name'], d['id'])
                        pc += 1
                        continue
                    q = d['type']['qualType']
                    if '[' in q:
                        a = ('arr', self.fresh(), int(
                            q[q.index('[') + 1:q.index(']')] or 0))
                        st.arr[a] = {}
                        st.vars[(fr, d['id'])] = a
                        pc += 1
                        continue
                    if d.get('init') and d.get('inner'):
                        rs = self.ev(d['inner'][-1], st, fr, depth)
                    else:
                        rs = [(st, ('uninit', d['name']))]
                    rs = [(self.setv(s, fr, d['id'], v), v) for s, v in rs]
                    for s, v in rs[1:]:
                        work.append((pc + 1, s, dict(seen)))
                    if not rs:
                        break
                    st = rs[0][0]
                    pc += 1
                elif ins[0] == 'expr':
                    rs = self.ev(ins[1], st, fr, depth)
                    for s, v in rs[1:]:
                        work.append((pc + 1, s, dict(seen)))
                    if not rs:
                        break
                    st = rs[0][0]
                    pc += 1
                elif ins[0] == 'cond':
                    loop = len(ins) > 4
                    if loop:
                        seen = dict(seen)
                        seen[pc] = seen.get(pc, 0) + 1
                    nxt = []
                    for s, v in self.ev(ins[1], st, fr, depth):
                        for s2, b in self.truth(v, s, ins[1]):
                            if b and loop and (
                                    seen[pc] > self.loop_max or
                                    self.splitter and ins[4] == 'quiet'):
                                continue
                            nxt.append((ins[2] if b else ins[3], s2))
                    for t, s in nxt[1:]:
                        work.append((t, s, dict(seen)))
                    if len(work) + len(out) > self.max_paths:
                        raise AnalysisBroken('too many paths in %s'
                                             % f['name'])
                    if not nxt:
                        break
                    pc, st = nxt[0]
                elif ins[0] == 'ret':
                    if ins[1] is None:
                        out.append((st, None, ins[2] if len(ins) > 2
                                    else None))
                    else:
                        for s, v in self.ev(ins[1], st, fr, depth):
                            out.append((s, v, ins[2]))
                    break
        return out

    def setv(self, st, fr, did, v):
        st.vars[(fr, did)] = v
        return st

    # -- values
    def truth(self, v, st, node):
        if v[0] == 'i':
            return [(st, v[1] != 0)]
        if v[0] in ('o', 's', 'ptr', 'addr', 'arr', 'static', 'alloc',
                    'chunkp'):
            return [(st, True)]
        if v[0] == 'u':
            return [(s, not z) for s, z in self.equal(v[1], 0, st)]
        if v[0] == 'uninit':
            self.problem('uninitialised', node, '%s is used before it is set'
                         % v[1])
            return [(st.copy(), True), (st, False)]
        if v[0] == 'not':
            return [(s, not b) for s, b in self.truth(v[1], st, node)]
        if v[0] == 'cmp':
            return self.compare(v[1], v[2], v[3], st, node)
        raise AnalysisBroken('truth of %r' % (v,))

    def equal(self, term, val, st):
        a = st.ans.get(term)
        if a is not None:
            if a[0] == 'is':
                return [(st, a[1] == val)]
            if val in a[1]:
                return [(st, False)]
        s1, s2 = st.copy(), st
        s1.ans[term] = ('is', val)
        s2.ans[term] = ('not', (a[1] if a else frozenset()) | {val})
        if term[0] == 'ask':
            # a yes/no question
            s2.ans[term] = ('is', 1 if val == 0 else 0)
        return [(s1, True), (s2, False)]

    def compare(self, op, a, b, st, node):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            return [(st, {'==': x == y, '!=': x != y, '<': x < y,
                          '<=': x <= y, '>': x > y, '>=': x >= y}[op])]
        if a[0] == 'i':
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if op in ('==', '!='):
            neg = op == '!='
            if a[0] == 'u' and b[0] == 'i':
                return [(s, r != neg) for s, r in self.equal(a[1], b[1], st)]
            if a[0] in ('o', 's', 'ptr', 'alloc', 'addr', 'chunkp') and \
                    b == NULL:
                return [(st, neg)]
            if a == b:
                return [(st, not neg)]
            if a[0] == 'o' and b[0] == 'o':
                t = ('same', a[1], b[1])
                return [(s, (not r) != neg)
                        for s, r in self.equal(t, 0, st)]
        if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
            return self.compare(op, ('i', a[2]), ('i', b[2]), st, node)
        if a[0] == 'uninit' or b[0] == 'uninit':
            self.problem('uninitialised', node, 'a variable is used before '
                         'it is set')
        t = ('cmp', op, a, b)
        return [(s, not r) for s, r in self.equal(t, 0, st)]

    def is_null(self, v):
        return v == NULL

    def use(self, v, st, node, what):
        if v[0] == 'o' and v[1] in st.dead:
            self.problem('use-after-release', node, '%s uses %s, whose '
                         'reference was released' % (what, name(v)))
        if v[0] == 'chunkp' and st.mem.get(v[2]) == 'freed':
            self.problem('use-after-free', node, '%s uses a part of the name '
                         'that was freed' % what)
        if v[0] == 'uninit':
            self.problem('uninitialised', node, '%s uses %s before it is '
                         'set' % (what, v[1]))

    # -- expressions
    def ev(self, n, st, fr, depth):
        n0 = n
        n = strip(n)
        k = n['kind']
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return [(st, ('i', int(n['value'])))]
        if k == 'StringLiteral':
            return [(st, ('s', n['value']))]
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            key = (fr, d['id'])
            if key in st.vars:
                return [(st, st.vars[key])]
            if d['kind'] == 'FunctionDecl':
                return [(st, ('fn', d['name']))]
            if d['kind'] == 'EnumConstantDecl':
                return [(st, ('u', ('enum', d['name'])))]
            g = st.vars.get(('g', d['name']))
            if g is not None:
                return [(st, g)]
            return [(st, ('o', 'g:' + d['name'], ('global', d['name'])))]
        if k in ('UnaryExprOrTypeTraitExpr', 'FloatingLiteral'):
            return [(st, ('u', ('size', self.fresh())))]
        if k == 'UnaryOperator':
            return self.unary(n, st, fr, depth)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.binary(n, st, fr, depth)
        if k == 'ConditionalOperator':
            out = []
            for s, v in self.ev(n['inner'][0], st, fr, depth):
                for s2, b in self.truth(v, s, n):
                    out += self.ev(n['inner'][1 if b else 2], s2, fr, depth)
            return out
        if k == 'CallExpr':
            return self.callexpr(n, st, fr, depth)
        if k == 'MemberExpr':
            out = []
            for s, v in self.ev(n['inner'][0], st, fr, depth):
                if n.get('isArrow') and v == NULL:
                    self.problem('null', n, 'NULL is dereferenced')
                    continue
                self.use(v, s, n, 'member access')
                out.append((s, ('u', ('member', v, n.get('name')))))
            return out
        if k == 'ArraySubscriptExpr':
            return self.load(n, st, fr, depth)
        if k in ('InitListExpr', 'CompoundLiteralExpr', 'StmtExpr',
                 'ImplicitValueInitExpr', 'PredefinedExpr'):
            return [(st, ('u', ('opaque', self.fresh())))]
        raise AnalysisBroken('C expression %s at line %s' % (
            k, n0.get('_line')))

    def lvalue(self, n, st, fr, depth):
        """[(state, ('var', fr, id) | ('glob', name) | ('cell', b, off) |
        ('elem', arr, idx) | ('dead',))]"""
        n = strip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if (fr, d['id']) in st.vars:
                return [(st, ('var', fr, d['id']))]
            return [(st, ('glob', d['name']))]
        if k == 'UnaryOperator' and n['opcode'] == '*':
            out = []
            for s, v in self.ev(n['inner'][0], st, fr, depth):
                if v == NULL:
                    self.problem('null', n, 'NULL is dereferenced')
                    continue
                self.use(v, s, n, 'the access')
                if v[0] == 'addr':
                    out.append((s, v[1]))
                    continue
                if v[0] == 'ptr':
                    if v[1][0] == 'alloc' and s.mem.get(v[1]) == 'freed':
                        self.problem('use-after-free', n, 'freed memory is '
                                     'accessed')
                    out.append((s, ('cell', v[1], v[2])))
                elif v[0] == 'arr':
                    out.append((s, ('elem', v, ('i', 0))))
                else:
                    out.append((s, ('cell', v, 0)))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for s, b in self.ev(n['inner'][0], st, fr, depth):
                for s2, i in self.ev(n['inner'][1], s, fr, depth):
                    if b == NULL:
                        self.problem('null', n, 'NULL is dereferenced')
                        continue
                    if b[0] == 'ptr' and i[0] == 'i':
                        out.append((s2, ('cell', b[1], b[2] + i[1])))
                    elif b[0] == 'arr':
                        out.append((s2, ('elem', b, i)))
                    else:
                        out.append((s2, ('cell', b, i)))
            return out
        if k == 'MemberExpr':
            out = []
            for s, v in self.ev(n['inner'][0], st, fr, depth):
                out.append((s, ('cell', v, n.get('name'))))
            return out
        raise AnalysisBroken('C lvalue %s' % k)

    def load(self, n, st, fr, depth):
        out = []
        for s, lv in self.lvalue(n, st, fr, depth):
            if lv[0] == 'var':
                out.append((s, s.vars[lv[1:]]))
            elif lv[0] == 'glob':
                out.append((s, s.vars.get(('g', lv[1]),
                                          ('u', ('global', lv[1])))))
            elif lv[0] == 'elem':
                a, i = lv[1], lv[2]
                d = s.arr.get(a, {})
                if i[0] == 'i' and i[1] in d:
                    out.append((s, d[i[1]]))
                elif i[0] == 'i':
                    self.problem('uninitialised', n, 'element %d is read but '
                                 'was not set' % i[1])
                    out.append((s, ('u', ('elem', self.fresh()))))
                else:
                    out.append((s, ('u', ('elem', i))))
            else:
                key = lv[1:]
                if key in s.cells:
                    out.append((s, s.cells[key]))
                elif lv[1][0] == 'alloc':
                    self.problem('uninitialised', n, 'memory is read before '
                                 'it is set') if False else None
                    out.append((s, ('u', ('deref',) + key)))
                else:
                    out.append((s, ('u', ('deref',) + key)))
        return out

    def store(self, lv, v, st, node):
        if lv[0] == 'var':
            st.vars[lv[1:]] = v
        elif lv[0] == 'glob':
            if v[0] == 'o' and st.own.get(v[1], 0) > 0:
                st.own[v[1]] -= 1       # kept by the module
            st.vars[('g', lv[1])] = v
        elif lv[0] == 'elem':
            a, i = lv[1], lv[2]
            if i[0] == 'i':
                if a[2] and i[1] >= a[2]:
                    self.problem('bounds', node, 'element %d of %d is set'
                                 % (i[1], a[2]))
                st.arr.setdefault(a, {})[i[1]] = v
        else:
            st.cells[lv[1:]] = v
        return st

    def add(self, v, d):
        if v[0] == 'i':
            return ('i', v[1] + d)
        if v[0] == 'ptr':
            return ('ptr', v[1], v[2] + d)
        if v[0] in ('o', 's', 'alloc', 'u'):
            if v[0] == 'u':
                return ('u', ('add', v[1], d))
            return ('ptr', v, d)
        return ('u', ('add', v, d))

    def unary(self, n, st, fr, depth):
        op = n['opcode']
        x = n['inner'][0]
        if op == '!':
            return [(s, ('not', v)) for s, v in self.ev(x, st, fr, depth)]
        if op == '-':
            return [(s, ('i', -v[1]) if v[0] == 'i' else
                     ('u', ('neg', v))) for s, v in self.ev(x, st, fr, depth)]
        if op == '&':
            x2 = strip(x)
            if x2['kind'] == 'DeclRefExpr' and (
                    fr, x2['referencedDecl']['id']) not in st.vars:
                return [(st, ('o', 'g:' + x2['referencedDecl']['name'],
                              ('global', x2['referencedDecl']['name'])))]
            return [(s, ('addr', lv))
                    for s, lv in self.lvalue(x, st, fr, depth)]
        if op == '*':
            return self.load(n, st, fr, depth)
        if op in ('++', '--'):
            out = []
            d = 1 if op == '++' else -1
            for s, lv in self.lvalue(x, st, fr, depth):
                for s2, v in self.load(x, s, fr, depth):
                    nv = self.add(v, d)
                    s2 = s2.copy()
                    self.store(lv, nv, s2, n)
                    out.append((s2, v if n.get('isPostfix') else nv))
            return out
        if op in ('__extension__', '+', '~'):
            return self.ev(x, st, fr, depth)
        raise AnalysisBroken('C operator %s' % op)

    def binary(self, n, st, fr, depth):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            out = []
            for s, v in self.ev(b, st, fr, depth):
                for s2, lv in self.lvalue(a, s, fr, depth):
                    s2 = s2.copy()
                    self.store(lv, v, s2, n)
                    out.append((s2, v))
            return out
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(a, st, fr, depth):
                for s2, t in self.truth(v, s, n):
                    if t == (op == '||'):
                        out.append((s2, ('i', int(t))))
                        continue
                    for s3, v2 in self.ev(b, s2, fr, depth):
                        for s4, t2 in self.truth(v2, s3, n):
                            out.append((s4, ('i', int(t2))))
            return out
        if op == ',':
            out = []
            for s, v in self.ev(a, st, fr, depth):
                out += self.ev(b, s, fr, depth)
            return out
        out = []
        for s, x in self.ev(a, st, fr, depth):
            for s2, y in self.ev(b, s, fr, depth):
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    for s3, t in self.compare(op, self.val(x), self.val(y),
                                              s2, n):
                        out.append((s3, ('i', int(t))))
                    continue
                if op in ('+=', '-='):
                    for s3, lv in self.lvalue(a, s2, fr, depth):
                        s3 = s3.copy()
                        v = self.add(x, y[1] if op == '+=' else -y[1]) \
                            if y[0] == 'i' else ('u', (op, self.fresh()))
                        self.store(lv, v, s3, n)
                        out.append((s3, v))
                    continue
                if x[0] == 'i' and y[0] == 'i' and op in (
                        '+', '-', '*', '|', '&', '/', '%', '<<', '>>'):
                    r = {'+': x[1] + y[1], '-': x[1] - y[1],
                         '*': x[1] * y[1], '|': x[1] | y[1],
                         '&': x[1] & y[1], '<<': x[1] << max(y[1], 0),
                         '>>': x[1] >> max(y[1], 0),
                         '/': x[1] // y[1] if y[1] else 0,
                         '%': x[1] % y[1] if y[1] else 0}[op]
                    out.append((s2, ('i', r)))
                elif op in ('+', '-') and y[0] == 'i' and x[0] in (
                        'o', 's', 'ptr', 'alloc', 'u'):
                    out.append((s2, self.add(x, y[1] if op == '+'
                                             else -y[1])))
                elif op == '-' and x[0] == 'ptr' and y[0] == 'ptr' and \
                        x[1] == y[1]:
                    out.append((s2, ('i', x[2] - y[2])))
                else:
                    out.append((s2, ('u', (op, x, y))))
        return out

    def val(self, v):
        if v[0] == 'alloc' or v[0] == 's':
            return ('ptr', v, 0)
        return v

    # -- calls
    def callexpr(self, n, st, fr, depth):
        fn = strip(n['inner'][0])
        name_ = fn.get('referencedDecl', {}).get('name') \
            if fn['kind'] == 'DeclRefExpr' else None
        states = [(st, [])]
        for a in n['inner'][1:]:
            nxt = []
            for s, vs in states:
                for s2, v in self.ev(a, s, fr, depth):
                    nxt.append((s2, vs + [v]))
            states = nxt
        out = []
        for s, vs in states:
            if name_ is None:
                raise AnalysisBroken('indirect call in C code')
            self.calls += 1
            if name_ in self.p.funcs:
                f = self.p.funcs[name_]
                if self.splitter and self.p.is_splitter(f):
                    out += self.split(f, vs, s, n)
                    continue
                for s2, v, node in self.call(f, vs, s, depth + 1):
                    out.append((s2, v if v is not None else ('u', (
                        'void', 0))))
                continue
            out += self.apicall(name_, vs, s, n)
        return out

    def split(self, f, vs, st, n):
        """The function that cuts a name into chunks, see chunk rules."""
        arr = [v for v in vs if v[0] == 'arr']
        mem = [v[1] if v[0] == 'ptr' else v for v in vs
               if v[0] == 'alloc' or v[0] == 'ptr' and v[1][0] == 'alloc']
        mem = mem[0] if mem else None
        out = []
        for k in self.chunks:
            s = st.copy()
            for i in range(k):
                if arr:
                    s.arr[arr[0]][i] = ('chunkp', i, mem)
            s.ans[('chunks',)] = ('is', k)
            out.append((s, ('i', k)))
        s = st.copy()
        s.err = ('TooManyPeriods', frozenset(), ('split',))
        s.ans[('chunks',)] = ('is', -1)
        out.append((s, ('i', 0)))
        return out

    def newobj(self, s, term, owned=True):
        o = ('o', self.fresh(), term)
        s.own[o[1]] = 1 if owned else 0
        return o

    def raised(self, s, origin, kind=None):
        s.err = (kind, frozenset(), origin)
        s.ans[('failed', origin)] = ('is', kind)

    def apicall(self, f, a, st, n):
        self.api.add(f)
        s = st.copy()
        nullok = NULL_OK.get(f, ())
        for i, v in enumerate(a):
            if v == NULL and f in RUNS_CODE | ASK | NEW | {
                    'Py_DECREF', 'Py_INCREF', 'strlen', 'strncmp',
                    'PyDict_SetItemString', 'PyModule_GetDict',
                    'PyErr_SetString', 'strcpy', 'memcpy', 'strchr'} \
                    and i not in nullok and not (
                        f == 'Py_BuildValue' and i) and (
                        f != 'PyObject_CallMethod' or i < 2):
                self.problem('null', n, 'NULL is passed to %s' % f)
                return []
            self.use(v, s, n, f)
        if f in RUNS_CODE and s.err is not None:
            self.problem('error-pending', n, '%s is called while an '
                         'exception is pending' % f)
        term = (f,) + tuple(t_of(v) for v in a)
        if f in ('PyModule_Create2',):
            term = (f,)
        s.events.append((f, tuple(a), n.get('_line')))
        if f in NEW:
            s2 = s.copy()
            o = self.newobj(s, term)
            self.raised(s2, term)
            return [(s, o), (s2, NULL)]
        if f == 'PyIter_Next':
            k = sum(1 for e in s.events if e[0] == f)
            term = ('item', t_of(a[0]), k)
            s2, s3 = s.copy(), s.copy()
            o = self.newobj(s, term)
            self.raised(s3, term)
            s.ans[('next', k)] = ('is', 'item')
            s2.ans[('next', k)] = ('is', 'end')
            s3.ans[('next', k)] = ('is', 'fail')
            return [(s, o), (s2, NULL), (s3, NULL)]
        if f in BORROWED:
            return [(s, ('o', 'b:%s' % (term,), term))]
        if f in ASK:
            if a and a[0] == NULL:
                return [(s, ('i', 0))]
            return [(s, ('u', ('ask',) + term))]
        if f in ('Py_DECREF', 'Py_XDECREF'):
            return self.decref(f, a[0], s, n)
        if f in ('Py_INCREF', 'Py_XINCREF'):
            if a[0][0] == 'o':
                s.own[a[0][1]] = s.own.get(a[0][1], 0) + 1
            return [(s, ('u', ('void', 0)))]
        if f in ('Py_NewRef', 'Py_XNewRef', '_Py_NewRef', '_Py_XNewRef'):
            if a[0][0] == 'o':
                s.own[a[0][1]] = s.own.get(a[0][1], 0) + 1
            return [(s, a[0])]
        if f == 'PyErr_Occurred':
            if s.err is None:
                return [(s, NULL)]
            return [(s, ('o', 'b:exc%d' % self.fresh(), ('exc', s.err)))]
        if f == 'PyErr_Clear':
            s.err = None
            return [(s, ('u', ('void', 0)))]
        if f in ('PyErr_SetString', 'PyErr_SetObject', 'PyErr_SetNone',
                 'PyErr_Format'):
            self.raised(s, ('set',) + term[1:], kind_of(a[0]))
            return [(s, NULL)]
        if f == 'PyErr_NoMemory':
            self.raised(s, ('nomem',), 'MemoryError')
            return [(s, NULL)]
        if f in ('PyErr_ExceptionMatches', 'PyErr_GivenExceptionMatches'):
            want = kind_of(a[-1])
            if s.err is None:
                self.problem('error-pending', n, '%s without an exception'
                             % f)
                return [(s, ('i', 0))]
            kind, exc, origin = s.err
            if kind is not None:
                return [(s, ('i', int(kind == want)))]
            if want in exc:
                return [(s, ('i', 0))]
            s2 = s.copy()
            s.err = (want, exc, origin)
            s2.err = (None, exc | {want}, origin)
            s.ans[('kind', origin)] = ('is', want)
            s2.ans[('kind', origin)] = ('not', exc | {want})
            return [(s, ('i', 1)), (s2, ('i', 0))]
        if f == 'PyErr_Fetch':
            err = s.err
            for i, w in enumerate(('type', 'value', 'tb')):
                o = self.newobj(s, ('fetched', w, err)) if err or i \
                    else NULL
                if a[i][0] == 'addr':
                    self.store(a[i][1], o, s, n)
            s.err = None
            return [(s, ('u', ('void', 0)))]
        if f == 'PyErr_Restore':
            for v in a:
                if v[0] == 'o':
                    self.giveup(v, s, n, f)
            t = a[0]
            if t[0] == 'o' and isinstance(t[2], tuple) and \
                    t[2][0] == 'fetched' and t[2][2]:
                k, x, org = t[2][2]
                if a[1] == NULL:
                    self.problem('error-lost', n, 'the value of the '
                                 'exception is dropped')
                s.err = (k, x, org)
            else:
                self.raised(s, ('restored',))
            return [(s, ('u', ('void', 0)))]
        if f == 'PyErr_CheckSignals':
            s2 = s.copy()
            if s2.err is None:
                self.raised(s2, ('signal',))
            return [(s, ('i', 0)), (s2, ('i', -1))]
        if f.startswith('PyArg_Parse'):
            s2 = s.copy()
            self.raised(s2, ('arguments',))
            fmt = [v for v in a if v[0] == 's']
            outs = [v for v in a if v[0] == 'addr']
            spec = []
            opt = False
            if fmt:
                for c in json.loads(fmt[0][1]).split(':')[0]:
                    if c == '|':
                        opt = True
                    elif c in 'Osiplfdn':
                        spec.append((c, opt))
            if len(spec) != len(outs):
                self.problem('arguments', n, 'format %s for %d variables' % (
                    fmt[0][1] if fmt else '?', len(outs)))
            outstates = [s]
            for (c, opt), v in zip(spec, outs):
                nxt = []
                for s in outstates:
                    nm = self.argname(a, spec, outs, v)
                    if opt and self.optional:
                        s2_ = s.copy()
                        s2_.ans[('omitted', nm)] = ('is', 1)
                        nxt.append(s2_)
                    if c == 'O':
                        o = ('o', 'arg:' + nm, ('param', nm))
                    elif c == 's':
                        o = ('o', 'arg:' + nm, ('param', nm))
                    else:
                        o = ('u', ('param', nm))
                    self.store(v[1], o, s, n)
                    nxt.append(s)
                outstates = nxt
            return [(s, ('i', 1)) for s in outstates] + [(s2, ('i', 0))]
        if f in ('malloc', 'PyMem_Malloc', 'PyMem_RawMalloc', 'strdup',
                 'calloc'):
            s2 = s.copy()
            if f != 'strdup' and a and no_room(t_of(a[-1])):
                self.problem('bounds', n, 'there is no room for the end of '
                             'the string')
            m = ('alloc', self.fresh(), a)
            m = ('alloc', m[1], t_of(a[0]) if a else None)
            s.mem[m] = 'live'
            return [(s, m), (s2, NULL)]
        if f in ('free', 'PyMem_Free', 'PyMem_RawFree'):
            v = a[0]
            if v[0] == 'ptr' and v[2] == 0:
                v = v[1]
            if v == NULL:
                return [(s, ('u', ('void', 0)))]
            if v[0] != 'alloc':
                self.problem('free', n, 'something is freed that was not '
                             'allocated')
            elif s.mem.get(v) == 'freed':
                self.problem('free', n, 'memory is freed twice')
            else:
                s.mem[v] = 'freed'
            return [(s, ('u', ('void', 0)))]
        if f in ('PyDict_SetItemString', 'PyDict_SetItem',
                 'PyModule_AddStringConstant', 'PyModule_AddObjectRef'):
            s2 = s.copy()
            self.raised(s2, term)
            return [(s, ('i', 0)), (s2, ('i', -1))]
        if f == 'PyModule_AddObject':
            s2 = s.copy()
            self.raised(s2, term)
            self.giveup(a[2], s, n, f)
            return [(s, ('i', 0)), (s2, ('i', -1))]
        if f in ('Py_FatalError', 'abort', 'exit'):
            return []
        if f in ('strcpy', 'strncpy', 'memcpy', 'memmove'):
            return [(s, a[0])]
        # anything else: a plain value, no ownership
        return [(s, ('u', term))]

    def argname(self, a, spec, outs, v):
        i = outs.index(v)
        kw = [x for x in a if x[0] == 'static']
        if kw:
            for f in self.p.funcs.values():
                for d in self.p.find(f, 'VarDecl'):
                    if d['id'] == kw[0][2]:
                        names = [json.loads(x['value']) for x in
                                 self.p.find(d, 'StringLiteral')]
                        if len(names) == len(spec):
                            return names[i]
        return 'argument%d' % i

    def decref(self, f, v, s, n):
        ret = ('u', ('void', 0))
        if v == NULL:
            return [(s, ret)]
        if v[0] == 'o':
            if v[1] in s.dead:
                self.problem('use-after-release', n, '%s is released twice'
                             % name(v))
            elif s.own.get(v[1], 0) <= 0:
                self.problem('release', n, '%s is released, but the '
                             'reference is borrowed' % name(v))
            else:
                s.own[v[1]] -= 1
                if s.own[v[1]] == 0:
                    s.dead.add(v[1])
        elif v[0] == 'uninit':
            self.problem('uninitialised', n, '%s is released before it is '
                         'set' % v[1])
        return [(s, ret)]

    def giveup(self, v, s, n, f):
        if v[0] != 'o':
            return
        if v[1] in s.dead:
            self.problem('use-after-release', n, '%s gets %s, which was '
                         'released' % (f, name(v)))
        elif s.own.get(v[1], 0) <= 0:
            self.problem('release', n, '%s takes over a borrowed reference '
                         'to %s' % (f, name(v)))
        else:
            s.own[v[1]] -= 1
            if s.own[v[1]] == 0:
                s.dead.add(v[1])


def no_room(t):
    """the size of a copy of a string without its terminator"""
    return isinstance(t, tuple) and t[:1] == ('strlen',)


def t_of(v):
    if v[0] == 'o':
        return v[2]
    if v[0] in ('s', 'i', 'u'):
        return v[1]
    if v[0] == 'chunkp':
        return ('chunk', v[1])
    if v[0] == 'ptr':
        return ('ptr', t_of(v[1]), v[2])
    return v[:2]


def kind_of(v):
    t = t_of(v)
    if isinstance(t, tuple) and t[0] == 'global':
        return t[1].replace('PyExc_', '')
    return str(t)


def name(v):
    t = v[2] if v[0] == 'o' else v
    if isinstance(t, tuple):
        return '%s(%s)' % (t[0], ', '.join(
            str(x[0]) if isinstance(x, tuple) and x else str(x)
            for x in t[1:]))
    return str(t)


# ------------------------------------------------------------ intervals

INF = float('inf')


class Intervals(object):
    """Upper and lower bounds of the integer variables of one function."""

    def __init__(self, prog, fname):
        self.p = prog
        self.f = prog.funcs[fname]
        self.cfg = prog.cfg(fname)
        self.sites = []     # (node, array expr, (lo, hi))
        self.consts = {0, 1, -1}
        for n in prog.walk(self.f):
            v = self.const(n)
            if v is not None:
                self.consts.update((v - 1, v, v + 1))
        self.ints = {}
        for n in prog.walk(self.f):
            if n['kind'] in ('VarDecl', 'ParmVarDecl') and \
                    n['type']['qualType'] in (
                        'int', 'long', 'unsigned int', 'size_t',
                        'Py_ssize_t', 'short', 'ssize_t', 'unsigned long'):
                self.ints[n['id']] = n['name']
        self.solve()

    def const(self, n):
        n = strip(n)
        if n['kind'] in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n['value'])
        if n['kind'] == 'BinaryOperator' and n['opcode'] in '+-*':
            a, b = (self.const(x) for x in n['inner'])
            if a is None or b is None:
                return None
            return {'+': a + b, '-': a - b, '*': a * b}[n['opcode']]
        return None

    def solve(self):
        env0 = {v: (-INF, INF) for v in self.ints}
        states = {0: env0}
        work = [0]
        visits = {}
        while work:
            pc = work.pop()
            visits[pc] = visits.get(pc, 0) + 1
            env = dict(states[pc])
            for tgt, e in self.step(pc, env, None):
                old = states.get(tgt)
                new = e if old is None else self.join(old, e)
                if old is not None and visits.get(tgt, 0) > 4:
                    new = self.widen(old, new)
                if new != old:
                    states[tgt] = new
                    work.append(tgt)
        self.sites = []
        for pc in sorted(states):
            self.step(pc, dict(states[pc]), self.sites)

    def join(self, a, b):
        return {v: (min(a[v][0], b[v][0]), max(a[v][1], b[v][1]))
                for v in a}

    def widen(self, a, b):
        out = {}
        for v in a:
            lo, hi = b[v]
            if hi > a[v][1]:
                hi = min([c for c in self.consts if c >= hi] or [INF])
            if lo < a[v][0]:
                lo = max([c for c in self.consts if c <= lo] or [-INF])
            out[v] = (lo, hi)
        return out

    def step(self, pc, env, sites):
        ins = self.cfg.code[pc]
        if ins[0] == 'jump':
            return [(ins[1], env)]
        if ins[0] == 'decl':
            d = ins[1]
            if d.get('init') and d.get('inner'):
                v = self.ev(d['inner'][-1], env, sites)
                if d['id'] in env:
                    env[d['id']] = v
            return [(pc + 1, env)]
        if ins[0] == 'expr':
            self.ev(ins[1], env, sites)
            return [(pc + 1, env)]
        if ins[0] == 'ret':
            if ins[1] is not None:
                self.ev(ins[1], env, sites)
            return []
        e2 = dict(env)
        self.ev(ins[1], e2, sites)
        out = []
        for t, b in ((ins[2], True), (ins[3], False)):
            e = self.refine(ins[1], dict(e2), b)
            if e is not None:
                out.append((t, e))
        return out

    def refine(self, n, env, b):
        n = strip(n)
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '!':
            return self.refine(n['inner'][0], env, not b)
        if n['kind'] != 'BinaryOperator':
            return env
        op = n['opcode']
        if op == '&&' and b or op == '||' and not b:
            for x in n['inner']:
                env = self.refine(x, env, b)
                if env is None:
                    return None
            return env
        x, y = (strip(c) for c in n['inner'])
        if op not in ('<', '>', '<=', '>=', '==', '!='):
            return env
        if not b:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=',
                  '!=': '=='}[op]
        for a, c, o in ((x, y, op), (y, x, {
                '<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if a['kind'] == 'DeclRefExpr' and \
                    a['referencedDecl']['id'] in env:
                d = a['referencedDecl']['id']
                lo, hi = env[d]
                cl, ch = self.ev(c, dict(env), None)
                if o == '<':
                    hi = min(hi, ch - 1)
                elif o == '<=':
                    hi = min(hi, ch)
                elif o == '>':
                    lo = max(lo, cl + 1)
                elif o == '>=':
                    lo = max(lo, cl)
                elif o == '==':
                    lo, hi = max(lo, cl), min(hi, ch)
                if lo > hi:
                    return None
                env[d] = (lo, hi)
        return env

    def ev(self, n, env, sites):
        n = strip(n)
        k = n['kind']
        v = self.const(n)
        if v is not None:
            return (v, v)
        inner = [c for c in n.get('inner', ()) if c and 'kind' in c]
        if k == 'DeclRefExpr':
            return env.get(n['referencedDecl']['id'], (-INF, INF))
        if k == 'ArraySubscriptExpr':
            self.ev(inner[0], env, sites)
            i = self.ev(inner[1], env, sites)
            if sites is not None:
                sites.append((n, inner[0], i))
            return (-INF, INF)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            x = strip(inner[0])
            if x['kind'] == 'DeclRefExpr' and \
                    x['referencedDecl']['id'] in env:
                d = x['referencedDecl']['id']
                o = env[d]
                s = 1 if n['opcode'] == '++' else -1
                env[d] = (o[0] + s, o[1] + s)
                return o if n.get('isPostfix') else env[d]
            self.ev(inner[0], env, sites)
            return (-INF, INF)
        if k == 'UnaryOperator' and n['opcode'] == '&':
            x = strip(inner[0])
            if x['kind'] == 'DeclRefExpr' and \
                    x['referencedDecl']['id'] in env:
                env[x['referencedDecl']['id']] = (-INF, INF)
        if k == 'BinaryOperator' and n['opcode'] == '=':
            r = self.ev(inner[1], env, sites)
            x = strip(inner[0])
            if x['kind'] == 'DeclRefExpr' and \
                    x['referencedDecl']['id'] in env:
                env[x['referencedDecl']['id']] = r
            else:
                self.ev(inner[0], env, sites)
            return r
        if k == 'BinaryOperator' and n['opcode'] in '+-':
            a = self.ev(inner[0], env, sites)
            b = self.ev(inner[1], env, sites)
            if n['opcode'] == '+':
                return (a[0] + b[0], a[1] + b[1])
            return (a[0] - b[1], a[1] - b[0])
        if k == 'CompoundAssignOperator':
            r = self.ev(inner[1], env, sites)
            x = strip(inner[0])
            if x['kind'] == 'DeclRefExpr' and \
                    x['referencedDecl']['id'] in env:
                d = x['referencedDecl']['id']
                a = env[d]
                if n['opcode'] == '+=':
                    env[d] = (a[0] + r[0], a[1] + r[1])
                elif n['opcode'] == '-=':
                    env[d] = (a[0] - r[1], a[1] - r[0])
                else:
                    env[d] = (-INF, INF)
                return env[d]
            return (-INF, INF)
        for c in inner:
            self.ev(c, env, sites)
        return (-INF, INF)
