P = 'Cheetah/Parser.py'
C = 'Cheetah/Compiler.py'
T = 'Cheetah/Template.py'
NMC = 'Cheetah/c/_namemapper.c'
NMP = 'Cheetah/NameMapper.py'
AI = 'path-sensitive abstract interpretation of the source'
PROPS = [
 dict(id='C01', title='The C accelerator is memory- and reference-safe on every path',
  statement='The compiled NameMapper never uses a NULL, released or uninitialised pointer, never reads outside its table of name parts, releases or returns every reference and allocation exactly once, and follows the exception protocol (NULL with an exception set, a value without one), for all names, namespaces and objects, including ones whose attribute access, item access, call or allocation fails.',
  over=['inputs', 'crash points'], q='all arguments of the five lookup functions and a failure at every Python API call',
  why='Leaks, dangling pointers and missing error checks only show with failing allocations, hostile objects or long runs; unit tests look at results.',
  files=[NMC], mech=[('lookup functions and helpers', NMC)],
  technique='path-sensitive ownership and exception-state analysis of the C source (clang AST to CFG) against a model of the CPython API; interval analysis of array indices',
  note='Every path through every function with every API call failing, namespaces and name parts up to the loop bound. Trusts the table of API ownership rules and the configuration of the installed Python (one side of the version conditionals).'),
 dict(id='C02', title='Dotted names resolve by the search rules, in C and Python alike',
  statement='A lookup takes the first part of the name from the first namespace that has it (locals, search list, globals, builtins, as the function promises), by mapping key before attribute, and each further part from the value before it; a value is called automatically exactly when calling is asked for and it is callable but neither a class nor an instance. The C accelerator and the Python fallback agree.',
  over=['inputs'], q='all names, namespace lists and objects',
  why='The order of namespaces and of key/attribute lookup matters only for objects that offer both; tests try a few objects.',
  files=[NMC, NMP], mech=[('C lookup', NMC), ('Python lookup', NMP)],
  technique='path enumeration of both implementations against one symbolic oracle of the lookup rules',
  note='Every path of each implementation within the loop bounds yields the symbolic value it returns and what it assumed about the objects; both are compared with the oracle. What user objects do in __getattr__ and the like is outside.'),
 dict(id='C03', title='Only a missing name counts as not found; other errors pass through',
  statement='A lookup raises NotFound exactly when no namespace has the first part of the name or a later part is missing; an exception raised by an object, its attribute, item or call during the lookup reaches the template unchanged and is never taken for a missing name. getVar and varExists fall back to their default only for NotFound, and a silent placeholder ($!x) is left out only for NotFound.',
  over=['inputs', 'crash points'], q='all names and objects, and any exception raised by them',
  why='Swallowed exceptions are invisible unless a test makes that particular access fail.',
  files=[NMC, NMP, T], mech=[('C lookup', NMC), ('Python lookup', NMP), ('getVar, varExists', T), ('addPlaceholder', C)],
  technique='path enumeration with an exception at every user-code call, in C and Python',
  note='hasattr-style probing treats AttributeError as missing in both versions, as documented Python semantics.'),
 dict(id='C31', title='Placeholders translate to the lookup their text describes',
  statement='$a.b(x).c[i] is cut into its dotted names and the calls and indices after them, and is translated to one lookup of the first name (in frame and search list, in the search list, or as a plain Python name, as the settings say) followed by a lookup of each further name in the result, every call and index applied exactly where it was written. A name is called automatically only if the template does not call it itself and useAutocalling is set.',
  over=['programs', 'configurations'], q='all placeholders and the settings useNameMapper, useSearchList, useStackFrames, useAutocalling',
  why='Tests combine few shapes of placeholders with non-default settings.',
  files=[C, P], mech=[('genCheetahVar and helpers', C), ('getCheetahVarNameChunks', P)],
  technique=AI + ' over all shapes of a placeholder up to three parts',
  note='Shapes: up to three parts, each with one to three dotted names, followed by nothing, a call or an index; the code treats further parts by the same loop.'),
 dict(id='C04', title='The compile cache never hands out a class for other inputs',
  statement='Template.compile may answer from its cache only when every input that decides the resulting class (source text, or file path and, when checked, its modification time; base class, class, module and main method names, compiler settings, module globals, compiler class) is the same as for the stored entry. What it returns is exactly the class stored for these inputs, and the cache is used and filled only when asked for.',
  over=['inputs', 'histories'], q='all combinations of compile() arguments and all histories of earlier calls',
  why='A missing or ambiguous key part shows only when two calls differ in just that input; tests compare a few pairs.',
  files=[T], mech=[('compile cache key, lookup and store in Template.compile', T), ('hashDict', T)],
  technique=AI + ': dependence of the cache key on every input of the compilation',
  note='Every feasible path of Template.compile per scenario of given/omitted arguments. Preprocessors are applied before the key is built. Values are told apart by type and content; only collisions of the hash() of equal-typed values are outside.'),
 dict(id='C05', title='Concurrent compilations do not interfere',
  statement='Any number of threads may compile templates at the same time: no two compilations get the same automatically chosen module name, the shared lock is released on every path including errors, and no foreign code (the compiled module, imports) runs while it is held. A finished or failed compilation leaves no claim on its name behind.',
  over=['schedules', 'crash points'], q='all interleavings of compile() calls and all failures inside them',
  why='The race windows are a few instructions wide and errors inside the locked part are rare.',
  files=[T], mech=[('compile lock and module name claims in Template.compile', T)],
  technique=AI + ': lock typestate and check-then-act analysis with exceptional paths',
  note='All paths including an exception at every call. Names the caller gives explicitly are his own business.'),
 dict(id='C06', title='Every substituted value goes through the active output filter',
  statement='Every value a template substitutes into its output (placeholder, #echo, ternary #if, #super, #call, PSP expression) is passed exactly once through the output filter active at that point, with the arguments written in the template; literal text is never filtered. Only switching filters off as a whole bypasses it. #filter makes the filter it names active from there to its #end (the instance\'s one of that name, created from the filter library the first time; the given class for #filter $x; the initial one for #filter None), for the rest of the method and for the methods it calls.',
  over=['programs', 'configurations'], q='all templates, all substitution constructs, all combinations of compiler settings',
  why='Tests render a handful of templates per construct with default settings; a filter bypass for one construct under one setting combination is invisible to them.',
  files=[C, P], mech=[('filtered output code generation', C), ('placeholder parsing', P)],
  technique=AI + ': symbolic generated-code stream per construct',
  note='Covers all paths of the code generators for every substitution construct under every setting; trusts the small model of Python string building. The runtime behaviour of a user-supplied filter is outside.'),
 dict(id='C07', title='Template text cannot break out into the generated program',
  statement='Text taken from a template (literal text, comments, raw placeholders, markers, documentation comments) reaches the generated program only inside string literals or comments it cannot terminate. Only text that is an expression or statement by the template grammar becomes code.',
  over=['programs', 'inputs'], q='all template texts, all constructs, all settings',
  why='Tests use benign text; quoting defects need particular characters (quotes, backslashes, newlines) in particular constructs.',
  files=[C, P, 'Cheetah/Utils'], mech=[('string constant writer', C), ('comment and documentation writers', C)],
  technique=AI + ': lexical-context (taint) analysis of generated code chunks',
  note='Every hole in every generated chunk is classified by lexical context (code, comment, string); text values must be quoted with an escaping that is safe for that context. Trusts repr() and the model of string operations.'),
 dict(id='C08', title='Capture, call, cache and filter regions save and restore output state',
  statement='When the end of a #capture, #call, #cache or #filter region is reached, the output target, the buffering state and the active filter are again exactly what they were when the region began, for any nesting of regions and of template methods called inside. What the region collected is delivered exactly once.',
  over=['programs'], q='all templates and all nestings of regions',
  why='Nesting depth and order are unbounded; tests render a few fixed nestings.',
  files=[C], mech=[('region start/end code generators', C)],
  technique=AI + ' of the generators, then data-flow over the generated code',
  note='The generated start and end code of every region is symbolically extracted and checked as save/restore pairs with per-region names. Exceptions raised inside a region are outside the statement.'),
 dict(id='C09', title='Literal text is output in the block in which it was written',
  statement='Literal template text is always output by the block (conditional branch, loop body, method, region) that contains it in the template, at its place between the surrounding constructs; none is lost, moved across a block boundary or attached to another block.',
  over=['programs'], q='all templates, all directives in block and single-line form',
  why='Text placement errors show only for particular directive forms next to particular text; tests cover a few of them.',
  files=[P, C], mech=[('pending text flushing', C), ('directive handlers', P)],
  technique=AI + ': typestate of pending text on every path of every directive',
  note='All paths of all 49 directives and other constructs; parse() of bodies is treated as leaving arbitrary pending text.'),
 dict(id='C12', title='A disabled directive never takes effect',
  statement='When directives are disabled, or a list of enabled directives is given, a template using a directive that is not permitted is rejected with an error before the directive has any effect. This holds for every directive and PSP, in any letter case, wherever it appears in a template.',
  over=['programs', 'configurations'], q='all directives, all disabled/enabled lists, all templates',
  why='Tests disable two or three directives; the guarantee is used for untrusted templates and must hold for all of them.',
  files=[P], mech=[('directive restriction check', P)],
  technique=AI + ': dominance of the check over every directive handler',
  note='Known finding: #defmacro bodies are compiled without the restrictions.'),
 dict(id='C13', title='Expression filter hooks see every expression of a template',
  statement='Every expression that a template supplies to a directive, placeholder, macro call or PSP block is offered to the configured expression filter hooks, complete and before code is generated from it, and the text the hooks return is what gets compiled. Each hook sees the result of the previous one and is told the parser, the kind of the expression, its source text and where it starts.',
  over=['programs', 'configurations'], q='all templates, constructs and hooks',
  why='Tests install a hook on a few directives; a missed one is a hole in the security filter.',
  files=[P], mech=[('expression filter application', P)],
  technique=AI + ': taint from expression readers to code sinks',
  note='For directives whose arguments were already converted (#def, #block, #closure, #implements, #super, #call, ternary #if, #set global) hooks can veto but their result does not replace the text. Known findings: #defmacro.'),
 dict(id='C14', title='Blocks match, balance and must be closed',
  statement='Every closing directive must match the innermost open block, otherwise the template is rejected with a parse error; a template with unclosed blocks is rejected too. Opening and closing a block, and the single-line form of a block, leave the indentation of the generated code and all nesting state balanced.',
  over=['programs'], q='all templates, all nestings of block directives',
  why='Nesting is unbounded; tests render fixed combinations.',
  files=[P, C], mech=[('open block stack', P), ('indentation handling', C)],
  technique=AI + ': effect (balance) analysis of each directive and its #end',
  note='The effect on indentation and on every nesting stack is computed on all paths and compared between opening and closing.'),
 dict(id='C15', title='Temporary parser state is restored',
  statement='Whatever a construct changes in the parser while it is being processed (settings, position limits, the source being read) has its former value when the construct is finished, for any nesting. Text after a construct is parsed exactly as if the construct had not been there.',
  over=['programs'], q='all templates and nestings',
  why='A leaked override changes only how later text is read; tests seldom place sensitive text after the construct.',
  files=[P], mech=[('save/restore pairs in directive handlers', P)],
  technique=AI + ': save/restore pairing on every path',
  note='Persistent changes requested by #compiler-settings and #compiler are intended and excluded.'),
 dict(id='C10', title='Includes and the search list are resolved in the documented context',
  statement='An #include writes the text of exactly the file or source it names once, to the output of the including template: compiled with the template class of the including one, or unchanged when raw, and two includes that differ in text, kind or rawness never share their result. The included template sees the search list and global variables of the including one; every instance has its own search list, in the documented order, and leaves the given one alone.',
  over=['programs', 'histories'], q='all includes, nesting of templates, and histories of calls on one instance',
  why='Sharing and ordering mistakes need several includes on one instance or nested templates with clashing names.',
  files=[T, C], mech=[('_handleCheetahInclude', T), ('_initCheetahInstance', T), ('addInclude', C)],
  technique=AI + ': all paths of include handling and instance initialisation over symbolic arguments',
  note='Includes that are cached on the instance are keyed on all inputs. Changes of an included file after its first use are outside (documented behaviour).'),
 dict(id='C11', title='A template method returns its text or writes it to the transaction it is given',
  statement='A template method that is given a transaction writes its whole output there and returns an empty string; without one it collects its output in a fresh transaction (or the one of the instance when awake) and returns exactly the text written, in order. This holds for every kind of method the compiler generates (with own *args, **kw or trans, class and static methods, generators with #yield, early #stop or #return).',
  over=['programs', 'configurations'], q='all method signatures, decorators, settings, and ways of calling',
  why='The combination of signature, decorator and caller decides which branch of the generated code runs; tests sample few.',
  files=[C, 'Cheetah/DummyTransaction.py'], mech=[('method setup and clean-up code', C), ('DummyTransaction', 'Cheetah/DummyTransaction.py')],
  technique=AI + ': partial evaluation of the method generator, then path enumeration over the generated code',
  note='The complete generated method is extracted for every signature shape and setting and all its paths are interpreted. Known finding: #transform.'),
 dict(id='C16', title='Template instances and compilations share no mutable state',
  statement='Nothing done to one template instance or in one compilation changes another: no container belonging to a module, a class or a default argument is modified while templates are compiled or rendered, and everything an instance modifies in place is created anew for it. The only process-wide tables are memo tables whose entries depend on their key alone.',
  over=['histories', 'schedules'], q='all instances, compilations and threads in a process',
  why='Leaks through shared containers appear only in a later, unrelated compilation or instance.',
  files=[C, P, T, 'Cheetah'], mech=[('parser and compiler state', P), ('instance state', T), ('indenter', 'Cheetah/Utils/Indenter.py')],
  technique='alias and effect analysis of every in-place change in the library',
  note='Every function of the library is scanned; a container that reaches an attribute which is changed in place must not come from a module, class or default argument. Import hook configuration and the registry of module names (C05) are intended process-wide state.'),
 dict(id='C28', title='Compiler settings are declared, applied in time and never written back',
  statement='Every setting the compiler relies on has a declared default, which settings given by the caller override before any of the source is read. Compiling never modifies the defaults, the dictionaries the caller passed in, or containers taken from them, so a later compilation starts from the same values; merging keeps what is not overridden. A setting written in #compiler-settings gets the value its text stands for (a number, True, False, None, the value of a python: expression, otherwise the text itself, as written) and changes no other setting; a setting asked for is what was set last, even if that is false, and the default offered is used only when it is not set at all.',
  over=['configurations', 'histories'], q='all settings dictionaries and sequences of compilations',
  why='A setting that leaks or is modified in place affects only later compilations in the same process.',
  files=[C, P, 'Cheetah/SettingsManager.py'], mech=[('settings table and manager', 'Cheetah/SettingsManager.py'), ('use of settings', C)],
  technique='ownership analysis of values taken from settings; path analysis of the compiler constructor; abstract execution of the settings reader on a table of values',
  note='#compiler-settings is meant to change settings of the compilation it occurs in.'),
 dict(id='C30', title='Generating code does not execute template text',
  statement='Translating a template to Python source never evaluates or executes any part of the template, whatever it contains; template code runs only when the generated module does. The only exceptions are the constructs that exist to run code while compiling (#compiler, #compiler-settings, #defmacro and macros), and string literals read as such.',
  over=['programs'], q='all template texts',
  why='An evaluation hidden in an unusual directive is only noticed by a template that attacks it.',
  files=[P, C, 'Cheetah/Utils/Indenter.py'], mech=[('directive handlers', P), ('compiler', C)],
  technique='call-graph reachability of evaluating calls from the compiler entry points',
  note='Name-based call graph (over-approximating). Compiling with the import of user base classes at load time is not part of code generation.'),
 dict(id='C18', title='A cached region shows fresh text: expired or cleared data is never served',
  statement='A #cache region or cached placeholder outputs stored text only when it was produced by the same region for the same varyBy value, has not expired, was not cleared since and its test (if any) does not ask for a refresh; in every other case the body is executed once, its text is output and becomes the stored text, with the expiry of the declared interval. While fresh text is stored the body is not executed. refreshCache() drops the regions and items it names (all of them without arguments) and nothing else, whether or not anything is stored for them. Intervals are in the unit they are given in (minutes without one). The text is kept in the store given to the instance, else that of its class, else one created for the instance, under keys that no other template, region or item uses.',
  over=['histories', 'programs', 'inputs'], q='all histories of rendering, expiry, clearing and refreshing, all cache arguments',
  why='Staleness needs a history (fill, expire, refresh, fill again) that no single rendering shows.',
  files=[C, T, 'Cheetah/CacheRegion.py'], mech=[('startCacheRegion/endCacheRegion', C), ('refreshCache, getCacheRegion', T), ('CacheRegion, CacheItem', 'Cheetah/CacheRegion.py')],
  technique=AI + ': the generated caching code is extracted by partial evaluation and all its paths are interpreted together with the cache classes',
  note='The value of the clock, and what an exception in the body leaves behind, are outside.'),
 dict(id='C19', title='Cache stores keep their contract: set, add, replace, get, delete, clear',
  statement='In whatever state a store is: set stores the value with its expiry time; add does so only when there is no value for the key and replace only when there is one, otherwise they raise CacheStore.Error and change nothing; get returns the value last stored for exactly that key, and raises KeyError when there is none or its expiry time has passed; delete removes that value or raises KeyError; clear removes all. No operation touches another key. The memcached store passes each operation on as the same operation of the client and turns its results into the same exceptions.',
  over=['histories', 'inputs'], q='all states of a store, keys, values and times',
  why='Operations interact through the stored state over arbitrary histories; the memcached store is not tested at all.',
  files=['Cheetah/CacheStore.py'], mech=[('MemoryCacheStore, MemcachedCacheStore', 'Cheetah/CacheStore.py')],
  technique=AI + ': each operation as a transformer of a symbolic store',
  note='An expired value counts as present for add and replace until a get removed it (as implemented).'),
 dict(id='C20', title='Generated modules are complete: no unbound name or missing attribute',
  statement='Whatever constructs a template combines and whatever the compiler settings: the generated module is valid Python; each name its code uses is bound on every path to the use (as a local, by an import or definition placed before it, as a builtin, or by the template itself); each attribute of self it relies on exists, also when the template extends a class that does not derive from Template, which is given all methods and attributes it lacks and keeps those it has; the class has a constructor which initialises its base class and the instance, and each declared method exactly once, and names its main method.',
  over=['programs', 'configurations'], q='all templates and settings',
  why='Unbound locals and missing imports appear only on the path or with the setting that reaches them.',
  files=[C, T], mech=[('ModuleCompiler, ClassCompiler, MethodCompiler', C), ('_addCheetahPlumbingCodeToClass', T), ('_initCheetahInstance', T)],
  technique=AI + ': whole modules are produced by partial evaluation of the compiler; definite-assignment dataflow over their syntax trees',
  note='Every construct, pairs of output regions, and each boolean setting a construct reads in both positions. Regions inside class and static methods (which have no self) are outside. Known finding: monitorSrcFile.'),
 dict(id='C17', title='Definitions and inheritance are compiled as written',
  statement='A #def or #block becomes one method of the class with the name, arguments, defaults and decorators written (a later definition of the same name is the one in force), and its body stands in that method only; a #block is also output once, at the place where it was written, at any nesting, and a #def is not; a definition on one line ends there. #attr sets an attribute of the class, #set module and #import a global of the module (an import after text stays in place without legacy import mode), #set global the named variable of the instance, also through dots and subscripts, and #set a local variable, whatever the name of the variable; in the order written and once. The class has exactly the base class named by #extends, taken from what the template imported or imported from the module it implies; the main method is the one that was asked for (#implements, setting, or the default of a base template or a derived one) and the module names it; #super calls the method of the same name of the base class with the arguments given.',
  over=['programs'], q='all templates',
  why='Each combination of nesting, order, decorators, imports and base names is a separate case.',
  files=[C, P], mech=[('ClassCompiler.startMethodDef/closeDef/closeBlock/addSuper/addAttribute', C), ('ModuleCompiler.setBaseClass/addImportStatement', C), ('MethodCompiler.addSet', C), ('_eatDefOrBlock, eatSet, eatImplements, eatSuper, eatAttr, eatExtends', P)],
  technique=AI + ': whole modules are produced by partial evaluation of the compiler and their syntax trees compared with what was asked for; path enumeration over the directive handlers for what they hand to the compiler',
  note='Expressions are symbolic; nesting up to two levels. #extends of a module attribute (import pk.mod and extends pk.mod.Base) follows the documented implied import.'),
 dict(id='C21', title='Error catchers guard exactly the placeholders in their region',
  statement='Between #errorCatcher NAME and #end errorCatcher in a method every placeholder is evaluated once, as the same expression with the same names in sight as without the directive; outside it none is touched. When the evaluation raises an exception that the catcher declares (name not found, for the built-in ones), and only then, the catcher is handed the exception, the code, the source text and the position of that very placeholder, and what it returns is output; every other exception passes through. The catcher in force is the one the instance has under that name (as given to the constructor), or else a new one of that class, kept for the instance. Echo outputs the source text of the placeholder, BigEcho the text between its markers, ListErrors the text, recording each error, and KeyError raises KeyError.',
  over=['programs', 'inputs'], q='all templates and all placeholder failures',
  why='Which placeholders share a guard depends on their combination in one template; which error is reported depends on all of them.',
  files=[C, P, T, 'Cheetah/ErrorCatchers.py'], mech=[('ModuleCompiler.addErrorCatcherCall, MethodCompiler.setErrorCatcher/turnErrorCatcherOff/addPlaceholder', C), ('eatErrorCatcher', P), ('Template.errorCatcher', T), ('ErrorCatcher.warn/exceptions', 'Cheetah/ErrorCatchers.py')],
  technique=AI + ': whole modules are produced by partial evaluation of the compiler; the guard methods and the selection code in their syntax trees are followed path by path; path enumeration over the catcher classes and the directive handler',
  note='Nested #errorCatcher regions are not claimed: the inner end turns the outer one off (see DESIGN.md).'),
 dict(id='N01', title='The tokens the parser accepts are exactly the documented syntax',
  statement='For every text, what the scanner takes as placeholder, directive, comment, PSP block or literal text is what the Users Guide defines, with every token setting.',
  over=['inputs', 'configurations'], q='all template texts and token settings',
  why='The input space is unbounded and the tokens are configurable regular expressions.',
  files=[P], mech=[('regular expressions of the scanner', P)], technique='', note=''),
 dict(id='N02', title='Rendered text survives every encoding step unchanged',
  statement='Reading a template in its declared encoding, rendering and encoding the output with the same encoding loses no character.',
  over=['inputs'], q='all encodings and texts', why='Tests use a few encodings and characters.',
  files=[P, T, C], mech=[('#encoding, EncodeUnicode filter, __unicode__/__str__', T)], technique='', note=''),
 dict(id='N03', title='Compiling takes time proportional to the template',
  statement='The time and memory to compile a template are bounded by a polynomial of small degree in its length.',
  over=['inputs'], q='all templates', why='Tests compile short templates.',
  files=[P, C], mech=[('parse loop and regular expressions', P)], technique='', note=''),
 dict(id='N04', title='Generated module names never clash',
  statement='Two templates compiled without an explicit module name in one process never get the same module name.',
  over=['histories'], q='all sequences of compilations', why='A clash of random names cannot be provoked by a test.',
  files=[T], mech=[('_genUniqueModuleName', T)], technique='', note=''),
 dict(id='C22', title='Options given to compile() and Template() take effect',
  statement='Template.compile() uses every option it is given: source or file, moduleName, className, mainMethodName and baseclass (by name or as a class, which the module finds under the name its code uses), compilerSettings and compilerClass make the code, moduleGlobals are in the module before it runs, keepRefToGeneratedCode keeps the code, the cache is only consulted or filled and a module file only written when asked for; the class returned is the named one of the module made from this code. An option that is not given is that of the class compile() is called on (not of Template). An option of a wrong type is a TypeError before anything is compiled. Preprocessors are applied in order, each to the result of the one before, and the last result is compiled; one given by tokens, dictionary or object renders the source with exactly the settings, search list, output transformer and compile options it asks for, and leaves those objects as they are. subclass() compiles with the class as base. Template(source or file) compiles it with the settings given, and the instance gets the given filter, filter library and error catcher.',
  over=['inputs', 'configurations'], q='all combinations of options and all values of each',
  why='Some twenty options, their defaults on any subclass and their combinations; tests pass a few together on Template itself.',
  files=[T], mech=[('Template.compile, subclass, __init__, _compile, _initCheetahInstance', T), ('_preprocessSource, _normalizePreprocessorArg/Settings, TemplatePreprocessor', T)],
  technique=AI + ': every path of compile() and of the constructor with each option given, missing or of a wrong type; what reaches the compiler, the module and the class is compared with the option',
  note='compile() is entered on a synthetic subclass of Template so that its defaults and those of Template are told apart. Preprocessors: lists of up to three, the four ways to give one. Opaque: the compiler itself, file access.'),
 dict(id='C23', title='Directives and comments take away their own line, or only themselves',
  statement='A directive (opening, closing or other) that stands alone on its line, possibly followed by a ## comment, disappears with the whole line: the blanks before it and the end of the line are not output, and nothing else is lost. One that has other text before it on the line, or is closed with the directive end token, takes away only its own tag: the line end and the text around it stay. #slurp takes the rest of its line with the line end. The body of a short form (#if x: ...) is the rest of that line. A ## comment goes to the end of the line, a multi-line comment to its own end token, at any nesting, and each takes its line away only when it is alone there. A body that is not parsed (#raw, #defmacro, macro calls, #compiler-settings) ends before the line of its #end, or at #end when text stands before it. Literal text is output from where it starts to the next token, and whatever ends it is parsed as the construct it starts.',
  over=['programs', 'inputs'], q='all directives in every position of a line',
  why='Fifty directives times the ways a tag can stand on its line; each handler does its own bookkeeping, and tests have samples for some.',
  files=[P, C, 'Cheetah/SourceReader.py'], mech=[('_eatRestOfDirectiveTag, _eatToThisEndDirective and the directive handlers', P), ('eatComment, eatMultiLineComment, eatPlainText, parse, matchTopLevelToken', P), ('handleWSBeforeDirective', C)],
  technique=AI + ': the handler of every directive over abstract layouts of its line, with the scanner replaced by its specification over the layout',
  note='A layout says what stands before the tag (blanks or text) and after it (line end, end of source, closing token with or without a line end, comment, text); positions are points of the layout, so the result does not depend on the text. Tags that span lines are not told apart from others. The regular expressions of the scanner itself are not analysed (N01).'),
 dict(id='C24', title='The command line tool writes its outputs in place, once, and reports failures',
  statement='cheetah compile and cheetah fill handle each file named by their arguments once (with the extension added when needed, and with -R every file below a directory that has the extension), with the template class, the compiler settings and the data (--env, --pickle, --json) of the command. The output of a source is written under its own path below --odir instead of --idir with the other extension (or, with --flat, its name alone), in the encoding given; with --stdout it is printed, with no message among it, and no file, backup or directory is made. Nothing but the output file, its backup and its directory is changed, and only after the template has been compiled or filled, so a template that fails leaves the files as they were. An existing output file is copied to its .bak file before it is overwritten, unless --nobackup. With --flat two sources of the same name are refused before anything is written. With --parallel a child handles its one file and ends, all children are waited for, and a child that fails or is killed makes the command fail.',
  over=['inputs', 'schedules'], q='all combinations of options, files and child outcomes',
  why='The options combine in hundreds of ways, with files that may or may not exist and children that may fail; the tests run a dozen commands.',
  files=['Cheetah/CheetahWrapper.py', 'Cheetah/Utils/Misc.py'], mech=[('CheetahWrapper._compileOrFillBundle, _compileOrFillStdin', 'Cheetah/CheetahWrapper.py'), ('_compileOrFill, _expandSourceFiles, _getBundles, _checkForCollisions, parseOpts', 'Cheetah/CheetahWrapper.py'), ('mkdirsWithPyInitFiles', 'Cheetah/Utils/Misc.py')],
  technique=AI + ': the commands over every combination of options and existing files, with the effects on files collected in order, and the process pool over every outcome of its children',
  note='Up to three files and three processes; children are waited for in the order they were started. What is compiled is the subject of the other properties; the option parser (optparse) is taken as documented. Outputs of absolute sources outside --odir may collide without --flat (listed in DESIGN.md).'),
 dict(id='C25', title='Flow-control directives run as the Python statements they stand for',
  statement='#if, #elif (or #else if), #else, #unless, #for, #while, #repeat, #try, #except and #finally, closed by #end or written on one line, become exactly that Python statement over the expression as written, with their body in it and nothing after it: #unless negates the whole expression, #repeat runs its body that many times, nothing inside the expression or its strings is changed. #if c then a else b outputs the filtered value of a or of b by c. #return, #yield, #break, #continue, #pass, #del, #assert, #raise and #silent become their statement; #set assigns with the operator written to the name written, local, global or of the module as asked, also to an attribute or item of it. #call calls its function once, with the text of its body, or that of each #arg under its name, and the arguments given, and outputs the result in place of the body; #capture assigns the text of its body and outputs nothing.',
  over=['programs'], q='all expressions, operators and nestings of these directives',
  why='An expression that is negated, split or rewritten wrongly shows only for particular operators, precedences or strings inside it; the tests use plain names.',
  files=[C, P], mech=[('addIf, addElse, addUnless, addTernaryExpr, addFor, addWhile, addRepeat, addTry and the like', C), ('addSet', C), ('startCallRegion, setCallArg, endCallRegion, startCaptureRegion', C), ('eatIf, eatUnless, eatSimpleIndentingDirective, eatSimpleExprDirective, eatSet', P)],
  technique=AI + ': parser and compiler over each directive and form of expression, the code generated compared with the syntax tree of the statement it stands for; the code of #call and #capture interpreted in turn and its calls and output compared',
  note='Expressions, operators and nestings from a grammar of forms (names, calls, operators of every precedence, strings holding keywords, lambdas, comprehensions). Text between #call and its first #arg, and a conditional expression inside #if-then-else, are outside (listed in DESIGN.md).'),
 dict(id='C26', title='Expressions and argument lists reach Python as written',
  statement='The Python expression of a directive or placeholder argument is read up to its end (the end of the line or the directive end token outside brackets, the token that ends it, or its closing bracket) and carried over token by token: nothing is lost, joined, doubled or reordered, whatever brackets, strings, operators, comprehensions, lambdas, line ends in brackets or continuation lines it holds; only its placeholders and c-strings are translated, where they stand, and the targets of for and the names of keyword arguments stay plain names. An argument list of a definition gives its names in order, each with exactly the default written for it, star arguments included. A bracket that is not closed, or closed by another one, is an error of the template.',
  over=['programs'], q='all expressions and argument lists',
  why='A token that is dropped or joined shows only for a particular operator, bracket or line break next to a particular token; the tests use simple expressions.',
  files=[P], mech=[('getExpressionParts, getExpression', P), ('getCallArgString', P), ('getDefArgList, ArgList', P), ('transformToken', P)],
  technique=AI + ': the expression readers over a grammar of forms of expressions, calls and definitions, the text they return compared as a syntax tree with the text given',
  note='Forms from a grammar of about 200 expressions and 40 argument lists in each position; what is one token (numbers, strings, operators) is taken from the tokenizer (N01). Comments inside brackets, and $-names as keyword names or for targets of a plain call nested in another call, are outside (DESIGN.md).'),
 dict(id='C27', title='The supplied filters turn a value into exactly the text they promise',
  statement='The default filter turns None into an empty text, leaves text unchanged and turns any other value, false ones included, into its text. On top of that MaxLen keeps the first maxlen characters; WebSafe replaces every &, < and > and every character given in also by its entity, each once and nothing else; Strip removes the blanks at both ends of every line and keeps the lines; StripSqueeze joins the words with single blanks.',
  over=['inputs'], q='all values and filter arguments',
  why='A character, empty value or limit that is treated wrongly shows only for texts holding it; escaping that misses one is a hole in the safety of a page.',
  files=['Cheetah/Filters.py'], mech=[('Filter, MaxLen, WebSafe, Strip, StripSqueeze', 'Cheetah/Filters.py')],
  technique=AI + ': the filter methods over an unknown value on every path, and over all short texts of the characters they treat specially, with every kind of argument',
  note='Texts up to four characters over the special characters and one that stands for the rest; every kind of blank. Markdown and CodeHighlighter call other libraries and are outside. That every value goes through the filter is C06.'),
 dict(id='C29', title='Macros and custom directives work as they were given',
  statement='A macro call calls its macro once, with the text of its body (the rest of the line, or everything up to the #end of this macro) as src, the keyword arguments written, and of parser, macros, compilerSettings, isShortForm, EOLCharsInShortForm (one-line form only), startPos and endPos exactly those it takes. What it returns is parsed whole, in place of the call and within the blocks that are open, and parsing goes on right after the call in the same source. #defmacro makes a macro of its body and arguments, compiled by the class and with the settings and search list asked for, which also offers macros, parser and compilerSettings. Directives, end directives, closeable directives and macros given as settings add to or replace the built-in ones, False removes one, and nothing else changes.',
  over=['inputs', 'configurations'], q='all macros, calls and settings',
  why='Macros come as functions, methods or objects, in two call forms, with any choice of arguments; tests show a few of these combinations.',
  files=['Cheetah/Parser.py'], mech=[('eatMacroCall, eatDefMacro, _initDirectives', 'Cheetah/Parser.py')],
  technique=AI + ': macro call, macro definition and directive tables on every path, for every kind of macro, call form and choice of arguments and settings',
  note='Reading the source is a sequence of abstract points. That the filter hooks see the arguments is C13, that the body ends where it should is C23, that state is restored on errors is C15.'),
]
NA = {
    'N01': 'The scanner is a set of regular expressions built at run time from settings and applied at computed positions; deciding language equality with a prose definition needs a formal grammar that does not exist, and executing the expressions on samples would be a test. What happens after a token is recognised is covered by C09 and C12-C15.',
    'N02': 'Which bytes encode and decode to what is decided by the codec library and the data at run time; no code of this repository shows it.',
    'N03': 'Running time depends on the backtracking of the re module on the input, a runtime quantity outside any static argument in reach.',
    'N04': 'Names combine the clock and a random number; that they differ is a matter of probability. That names already taken are avoided under the lock is part of C05.',
}
