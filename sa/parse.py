"""Abstract interpretation of the template parser, one directive at a time.

`eatDirective` is entered with the directive name fixed; the dispatch tables
are read from the source, so the path sets below cover the real handler of
every directive, through the compiler calls it makes.
"""
import ast

from .model import AnalysisBroken
from .absint import K, NONE, Interp, callee_name, is_const, show
from .emit import Emitter, PRIMS

# readers of the expression grammar: their results are template-supplied text
READERS = {
    'getExpression', 'getExpressionParts', 'getCheetahVar',
    'getCheetahVarBody', 'getCheetahVarNameChunks', 'getCallArgString',
    'getDefArgList', 'transformToken', 'getIdentifier', 'readToEOL', 'readTo',
    'getCommaSeparatedSymbols', 'getTargetVarsList', 'getDottedName',
    'getAssignmentOperator', '_eatToThisEndDirective', 'getPyToken', 'getc',
    'getWhiteSpace', 'getMultiLineCommentEndToken', 'getCacheToken',
    'getSilentPlaceholderToken',
}


class ParserModel(object):
    def __init__(self, prog):
        self.prog = prog
        self.em = Emitter(prog)
        self.hi = prog.cls('Parser', '_HighLevelParser')
        self.lo = prog.cls('Parser', '_LowLevelParser')
        self.mod = prog.mod('Parser')
        self.table = prog.literal(self.mod, 'directiveNamesAndParsers')
        self.endtable = prog.literal(self.mod, 'endDirectiveNamesAndHandlers')
        self.self_t = ('self', self.hi.qual)
        self.closeable = self._closeable()
        self.cache = {}

    def _closeable(self):
        f = self.prog.find_method(self.hi, '_initDirectives')
        if f is None:
            raise AnalysisBroken('_initDirectives missing')
        it = Interp(self.prog, keep=lambda e: e.kind == 'setattr',
                    loop_max=0, opaque=lambda fn: fn.cls is not None and
                    fn.name not in ('_initDirectives',) and
                    not fn.name.startswith('_init'))
        for s in it.run(f, selfcls=self.hi):
            for e in s.events:
                if e.term[2] == '_closeableDirectives':
                    items = s.heap.get((e.x, 'items'))
                    if items:
                        return [i[2] for i in items if is_const(i)]
        raise AnalysisBroken('closeable directive list not found')

    def is_lowlevel(self, f):
        if f.cls is None:
            return False
        return f.cls is self.lo or f.cls.name in ('SourceReader',
                                                  'SettingsManager',
                                                  '_SettingsCollector')

    def interp(self, opaque=(), inline_low=('getPlaceholder',), inline_compiler=True,
               hook=None, **kw):
        pm = self
        base = type(self.em.interp())
        extra = set(opaque)

        class I3(base):
            def cls_of(self, t):
                if t == ('attr', pm.self_t, '_compiler'):
                    return pm.em.module
                return base.cls_of(self, t)

        def is_opaque(f):
            if f.name in extra:
                return True
            if f.name in inline_low:
                return False
            if pm.is_lowlevel(f):
                return not pm.touches(f)
            if f.name in READERS or f.name == 'parse':
                return True
            if f.module.name.endswith('.Compiler'):
                if not inline_compiler:
                    return True
                return f.name in PRIMS or f.name in (
                    '_spawnMethodCompiler', '_swallowMethodCompiler',
                    'genCheetahVar', 'addComment', 'setBaseClass',
                    'setCompilerSetting', 'setCompilerSettings',
                    '_initializeSettings', 'addImportStatement')
            return False
        first = [('$', ), 'md']

        def hk(it, fn, args, kw2, st, n):
            if hook is not None:
                r = hook(it, fn, args, kw2, st, n)
                if r is not None:
                    return r
            nm = callee_name(fn)
            if nm == 'matchDirective' and (('$',), 'dname') in st.heap:
                v = st.heap.pop((('$',), 'dname'))
                return [(st, v)]
            return None
        kw.setdefault('depth', 9)
        return I3(self.prog, opaque=is_opaque, hook=hk, **kw)

    def touches(self, f):
        """Low-level methods that are still inlined because they themselves
        reach the filter hooks, the directive stack or the settings (other
        than the expression readers)."""
        if f.name in READERS or f.name in ('setting', 'setSetting', 'settings',
                                           'updateSettings', '_initializeSettings',
                                           'configureParser'):
            return False
        key = ('touch', f.qual)
        if key not in self.cache:
            names = {x.attr for x in ast.walk(f.node)
                     if isinstance(x, ast.Attribute)}
            self.cache[key] = bool(names & {
                '_applyExpressionFilters', '_openDirectivesStack',
                '_filterDisabledDirectives', 'setSetting', '_compiler',
                'pushToOpenDirectivesStack', 'popFromOpenDirectivesStack'})
        return self.cache[key]

    def init_heap(self, it, dname=None):
        heap = {}
        o = ('obj', 'dict', 'dtable')
        items = []
        for k, v in self.table.items():
            if isinstance(v, str):
                f = self.prog.find_method(self.hi, v)
                if f is None:
                    items.append((K(k), ('missing', v)))
                else:
                    it.funcs[f.qual] = f
                    items.append((K(k), ('bound', self.self_t, f.qual)))
            else:
                items.append((K(k), K(v)))
        heap[(o, 'items')] = tuple(items)
        heap[(self.self_t, '_directiveNamesAndParsers')] = o
        o2 = ('obj', 'dict', 'etable')
        items = []
        for k, v in self.endtable.items():
            if isinstance(v, str):
                f = self.prog.find_method(self.hi, v)
                if f is None:
                    items.append((K(k), ('missing', v)))
                else:
                    it.funcs[f.qual] = f
                    items.append((K(k), ('bound', self.self_t, f.qual)))
            else:
                items.append((K(k), K(v)))
        heap[(o2, 'items')] = tuple(items)
        heap[(self.self_t, '_endDirectiveNamesAndHandlers')] = o2
        o3 = ('obj', 'list', 'closeable')
        heap[(o3, 'items')] = tuple(K(x) for x in self.closeable)
        heap[(self.self_t, '_closeableDirectives')] = o3
        for attr in ('_simpleIndentingDirectives', '_simpleExprDirectives'):
            c, node = self.prog.find_attr(self.hi, attr)
            if node is not None:
                from .model import lit
                try:
                    v = lit(node, self.mod, self.prog)
                    heap[(self.self_t, attr)] = (
                        'tup', tuple(K(x) for x in v))
                except ValueError:
                    pass
        c, node = self.prog.find_attr(self.hi, '_directiveHandlerNames')
        if node is not None:
            from .model import lit
            try:
                v = lit(node, self.mod, self.prog)
                o4 = ('obj', 'dict', 'hnames')
                heap[(o4, 'items')] = tuple((K(a), K(b))
                                            for a, b in v.items())
                heap[(self.self_t, '_directiveHandlerNames')] = o4
            except ValueError:
                pass
        if dname is not None:
            heap[(('$',), 'dname')] = K(dname)
        return heap

    def run(self, method, dname=None, args=None, heap=(), **kw):
        it = self.interp(**kw)
        f = self.prog.find_method(self.hi, method)
        if f is None:
            raise AnalysisBroken('parser method %s missing' % method)
        h = self.init_heap(it, dname)
        h.update(heap)
        states = it.run(f, selfcls=self.hi, args=args, init={'heap': h})
        return it, states
