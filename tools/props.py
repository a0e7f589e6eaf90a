"""Source of properties.jsonl and MANIFEST.json (python3-vt tools/gen.py writes both)."""
P = []


def add(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, technique=technique, note=note,
                  observe=list(observe)))


add('C01', 'Plain text reaches the output character for character',
    'Every part of a template source that is not Cheetah syntax appears in the rendered output unchanged, character for character: all Unicode, quotes, backslashes and line endings, wherever the text stands (top level, inside #def, #block, #if, #for, #call, #capture, #filter, #cache bodies, next to placeholders). '
    'A backslash before $ or # makes that token literal and is itself removed; dollar signs and hashes that start no placeholder, directive or comment are literal. '
    'The body of #raw ... #end raw (and of the one-line #raw:) is output verbatim, whatever Cheetah syntax it contains.',
    ['inputs'], 'all template texts, in every position of a template',
    'The tests render a few dozen fixed texts; quoting of arbitrary backslash/quote/EOL mixtures into a generated Python literal is an infinite input space.',
    ['Cheetah/Compiler.py', 'Cheetah/Parser.py', 'Cheetah/SourceReader.py'],
    [('string constant emission', 'Compiler.py: MethodCompiler.commitStrConst/handleStrConst/addRawText'),
     ('plain text scanning and unescaping', 'Parser.py: eatPlainText, matchTopLevelToken, _unescapeCheetahVars, _unescapeDirectives, eatRaw')],
    'property-based testing: generated text, round-trip oracle with an independent lexer for inert text',
    'Exploration: tens of thousands of generated texts per run; trusts Hypothesis and the 40-line lexical oracle in checks/c01.py.',
    ['rendered output'])

add('C02', 'Directives compute what their Python counterparts compute',
    'For every template built from nested #if/#elif/#else, #unless, one-line #if..then..else, single-line short forms, #for (with tuple targets), #while, #repeat, #break, #continue, #try/#except/#else/#finally, #raise, #assert, #set, #del, #echo, #silent, #pass, #stop, #return and Python expressions containing placeholders, the output is exactly the text and values a direct interpretation of the directives in order yields. '
    'An expression that is not needed is not evaluated, each needed expression is evaluated exactly once and in source order, and an exception that no #except handles leaves the template unchanged; #breakpoint ends the template, whatever follows it.',
    ['programs', 'inputs'], 'all programs of the template language of bounded depth, over all variable bindings',
    'Tests exercise each directive alone with one or two fixed bodies; interactions of nesting, layout, short forms and expression parsing are not enumerable by hand.',
    ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
    [('directive parsing', 'Parser.py: eatDirective, eatSimpleIndentingDirective, eatIf, eatSet, getExpressionParts'),
     ('code generation', 'Compiler.py: MethodCompiler.addIndentingDirective, addReIndentingDirective, addRepeat, addSet, addStop, addReturn')],
    'property-based testing: grammar-generated programs against a reference interpreter',
    'Exploration: generated programs of bounded depth compared with an independent interpreter written from the Users\' Guide (vlib/lang.py); trusts that interpreter.',
    ['rendered output', 'trace of evaluated calls'])

add('C03', 'Name lookup follows the NameMapper rules',
    'A dotted name is resolved left to right: each part is looked up as a mapping key if the container is a mapping that has that key, otherwise as an attribute; functions and methods met on the way are called without arguments when autocalling is on, classes and callable instances are not. '
    'The first part is searched in local variables, #set global variables, the template instance and the searchList entries in their configured order, module globals and builtins, and the first namespace that has the name wins, whether or not the rest of the name resolves. '
    'A name that cannot be found raises NotFound naming the missing part; an exception raised by the looked-up code itself propagates unchanged and is never reported as a missing name.',
    ['inputs', 'configurations'], 'all object graphs, dotted names, namespace contents and NameMapper-related settings',
    'The tests look up a fixed list of names in one object graph.',
    ['Cheetah/NameMapper.py', 'Cheetah/c/_namemapper.c', 'Cheetah/Template.py', 'Cheetah/Compiler.py'],
    [('lookup', 'NameMapper.py and c/_namemapper.c: valueForName, valueFromSearchList, valueFromFrameOrSearchList, valueFromFrame'),
     ('searchList set-up and API', 'Template.py: Template.__init__/_initCheetahInstance, getVar, varExists, hasVar')],
    'property-based testing: generated object graphs and names against a reference resolver',
    'Exploration: generated namespaces and names against an independent 60-line resolver, through the NameMapper API, getVar/varExists and templates, in C and pure mode.',
    ['return values', 'exceptions', 'rendered output'])

add('C04', 'C and pure-Python NameMapper are interchangeable',
    'For every object graph, well-formed dotted name and flag combination the compiled NameMapper returns the same object, performs the same calls and raises the same kind of exception as the pure-Python one, and templates render identically with either. '
    'The compiled NameMapper never crashes the interpreter and neither leaks nor over-releases references, on success and on every error path.',
    ['inputs', 'histories'], 'all namespaces, names and call sequences',
    'The suite runs the same fixed lookups in both modes but never compares them on other inputs and never looks at reference counts.',
    ['Cheetah/c/_namemapper.c', 'Cheetah/NameMapper.py'],
    [('two implementations of one interface', 'NameMapper.py functions / c/_namemapper.c functions'),
     ('reference counting', 'c/_namemapper.c: PyNamemapper_valueForName and callers')],
    'property-based differential testing of the C extension against the Python implementation, with reference-count and crash oracles',
    'Exploration: both implementations loaded in one process; reference counts of every involved object and of the traced exception compared around each call.',
    ['return values', 'exceptions', 'sys.getrefcount'])

add('C05', 'Placeholders end where Python says and all forms mean the same',
    'For any sequence of attribute, call and subscript steps with arbitrary Python arguments, $name..., ${name...}, $(name...) and $[name...] produce the same output, namely the value of the corresponding Python expression, and the text after the placeholder is left alone (trailing periods, punctuation, following letters after the closed long form). '
    '$!name outputs nothing exactly when the name is not found and is otherwise the same as $name; ${expr} with an arbitrary Python expression outputs its value, and c\'...\' strings replace the placeholders in them. '
    'In the short form the placeholder ends after a call or subscript unless a period and a name follow.',
    ['inputs'], 'all placeholder expressions and following texts',
    'Tests list about a hundred placeholders with fixed arguments and surroundings.',
    ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
    [('placeholder parsing', 'Parser.py: getPlaceholder, getCheetahVarNameChunks, getCallArgString, getExpressionParts'),
     ('code generation', 'Compiler.py: genCheetahVar, genNameMapperVar, genPlainVar, addPlaceholder')],
    'property-based testing: generated placeholder chains against direct Python evaluation, metamorphic over the placeholder forms',
    'Exploration: generated chains and argument expressions compared with direct Python evaluation.',
    ['rendered output'])

add('C06', 'Output passes through exactly the filter in force, with its arguments',
    'Every top-level placeholder, #echo and ${...} value is passed exactly once through the output filter in force at that point, with the placeholder\'s filter arguments, and literal text never is; None becomes the empty string and other values their string form under the default filter. '
    '#filter switches the filter for exactly its block, nests, restores the previous one also for the code after the block, and #filter None restores the initial one; the filter given to the constructor is the initial one, including in included templates. '
    'The standard filters keep their laws for every value: WebSafe output contains no unescaped &, <, > and unescapes to the input, MaxLen truncates to maxlen, Strip trims each line, StripSqueeze collapses whitespace runs, html encoding round-trips. #transform passes the whole text of the method once through the filter.',
    ['inputs', 'programs'], 'all values, filter nestings and filter arguments',
    'Tests check each filter on one or two strings and one nesting.',
    ['Cheetah/Filters.py', 'Cheetah/Compiler.py', 'Cheetah/Template.py', 'Cheetah/Utils/htmlEncode.py', 'Cheetah/Utils/htmlDecode.py'],
    [('filter application', 'Compiler.py: addFilteredChunk, setFilter, closeFilterBlock, addPlaceholder'),
     ('filter classes', 'Filters.py')],
    'property-based testing: generated filter nestings against a model; algebraic laws of the filter functions',
    'Exploration: templates with nested #filter blocks against a filter-stack model that records each filter call; filter laws on arbitrary text.',
    ['rendered output', 'recorded filter calls'])

add('C07', 'Cached regions and placeholders refresh exactly when they should',
    'A #cache region or $*placeholder renders its body the first time and thereafter returns the stored text until it is due: never for a static cache, when the timer interval has passed, when test= is true, when varyBy= takes a value not seen before, or after refreshCache() of its id or of everything; then it is rendered again and stored. '
    'Text cached under one varyBy value, region id or template instance is never returned for another, and the output of a template with caching equals that of the same template without it whenever nothing it depends on has changed.',
    ['histories'], 'all histories of renders, variable changes, clock advances and refreshes',
    'Tests render a cached region twice; expiry, varyBy and refresh sequences under a moving clock are not covered.',
    ['Cheetah/CacheRegion.py', 'Cheetah/CacheStore.py', 'Cheetah/Template.py', 'Cheetah/Compiler.py'],
    [('cache regions', 'CacheRegion.py: CacheRegion, CacheItem'),
     ('generated cache code', 'Compiler.py: startCacheRegion, endCacheRegion, addPlaceholder, genTimeInterval'),
     ('API', 'Template.py: getCacheRegion, getCacheRegions, refreshCache')],
    'model-based property testing of render/advance/refresh histories with a controlled clock',
    'Exploration: generated templates and operation histories run against a reference cache model under a simulated clock.',
    ['rendered output', 'evaluation counts'])

add('C08', 'The cache stores honour the memcached contract',
    'For every sequence of add, set, replace, get, gets, delete, flush and clock advances, the memory store (and the memcached wrapper over a conforming client) behaves like a dictionary whose entries vanish at their expiry time: add stores only absent keys, replace only present ones, set always; get returns the stored value unchanged until expiry and reports a miss afterwards; other keys are never affected.',
    ['histories'], 'all operation sequences, keys, values and expiry times',
    'No test exercises the store on its own.',
    ['Cheetah/CacheStore.py'],
    [('stores', 'CacheStore.py: MemoryCacheStore, MemcachedCacheStore')],
    'model-based property testing of operation histories with a controlled clock',
    'Exploration: generated histories against a dictionary model with a simulated clock.',
    ['return values', 'exceptions'])

add('C09', 'The compilation cache is transparent',
    'Compiling with the compilation cache on always yields a template that behaves like a fresh compilation of the same arguments: for any history of compile calls that differ in source, file content, class or method name, base class, compiler settings, preprocessors, module globals or compiler class, a cached class is returned only for calls whose meaning is identical. '
    'Changing a source file and its modification time between calls is always seen.',
    ['histories', 'configurations'], 'all histories of compile calls with colliding and near-colliding arguments, interleaved with file modifications',
    'Tests compile the same source twice with the cache and check identity only.',
    ['Cheetah/Template.py'],
    [('compile cache', 'Template.py: Template.compile, _CHEETAH_compileCache, hashDict, hashList, genParserErrorFromPythonException')],
    'property-based testing of compile histories: cached result compared with a fresh uncached compilation',
    'Exploration: generated histories of near-colliding compile calls; differential oracle (cache on vs cache off).',
    ['rendered output of compiled classes'])

add('C10', 'Rendering is repeatable and instances do not disturb each other',
    'Rendering a template instance any number of times with unchanged inputs gives the same output, also after a render that raised an exception half way, inside a #call, #capture, #filter or #cache region, and leaves its namespaces as it found them. '
    'Instances of one or several templates, rendered in any order, interleaved inside one another or concurrently in threads, produce the output they would produce alone.',
    ['histories', 'schedules'], 'all interleavings of renders of several instances, with exceptions at any evaluation point, and threads',
    'Tests render fresh instances one at a time.',
    ['Cheetah/Template.py', 'Cheetah/Compiler.py', 'Cheetah/DummyTransaction.py', 'Cheetah/Servlet.py'],
    [('per-render transaction and buffers', 'DummyTransaction.py; generated respond() prologue in Compiler.py'),
     ('instance state', 'Template.py: _initCheetahInstance')],
    'property-based testing of render histories with injected exceptions, re-entrant renders and harness-scheduled threads',
    'Exploration: each render in the history is compared with a render of the same instance inputs in isolation; thread interleaving is forced by hand-over points inside placeholders, so the schedule is part of the generated case.',
    ['rendered output', 'searchList contents'])

add('C11', 'Inheritance between templates works like Python inheritance',
    'For any chain of templates and Python classes connected by #extends or the baseclass argument, a method or block call anywhere in the chain runs the most derived definition, #super runs the next one up with the given arguments, #attr values and #def methods are inherited and overridable, and #implements, #extends and mainMethodName decide which main method the rendering entry points run. '
    'Removing the tags of a #block that is not overridden and uses no local variables of the method around it does not change the output.',
    ['programs'], 'all inheritance chains with arbitrary overriding patterns of defs, blocks and attributes',
    'Tests use one or two levels with one overridden block.',
    ['Cheetah/Compiler.py', 'Cheetah/Template.py', 'Cheetah/Parser.py'],
    [('class generation', 'Compiler.py: ClassCompiler, setBaseClass, addSuper, closeBlock'),
     ('base class plumbing', 'Template.py: compile, subclass, _addCheetahPlumbingCodeToClass')],
    'property-based testing: generated class hierarchies against a model of method resolution',
    'Exploration: generated hierarchies up to 4 levels against an MRO model.',
    ['rendered output'])

add('C12', '#include inserts exactly the included text, parsed or raw',
    'Including a file or source string parsed gives the text that a template of its own with the same searchList and #set global variables renders to, at that position and through the including template\'s initial filter; including it raw inserts it verbatim. '
    'Local variables of the including template are not visible inside, #set global variables are visible in both directions, and #stop inside an include ends only the include; a file that has changed since is included in its new form.',
    ['inputs', 'histories'], 'all included texts, include forms, orders of includes and file modifications',
    'Tests include a handful of fixed files once.',
    ['Cheetah/Template.py', 'Cheetah/Compiler.py', 'Cheetah/Parser.py'],
    [('include', 'Template.py: _handleCheetahInclude; Compiler.py: addInclude; Parser.py: eatInclude')],
    'property-based testing: generated include graphs against a reference interpreter',
    'Exploration: generated including/included templates with file changes between renders, compared with a model.',
    ['rendered output'])

add('C13', 'Malformed templates are rejected with an error that points at the fault',
    'Compiling any text terminates and either succeeds or raises Cheetah\'s ParseError (ForbiddenDirective/ForbiddenExpression included) or a Python syntax error for embedded Python; it never fails with an internal error (settings values, encodings and macro code supplied by the template aside). '
    'Unclosed, mismatched and unopened directives, unclosed brackets, strings, placeholders and PSP sections are always rejected with ParseError, whose line and column lie inside the source and name the line of the fault, and whose report shows that source line.',
    ['inputs'], 'all strings, in particular mutations of valid templates',
    'The tests try about thirty malformed inputs and check only the exception type.',
    ['Cheetah/Parser.py', 'Cheetah/SourceReader.py', 'Cheetah/Compiler.py'],
    [('error reporting', 'Parser.py: ParseError.report, pushToOpenDirectivesStack, popFromOpenDirectivesStack, assertEmptyOpenDirectivesStack'),
     ('positions', 'SourceReader.py: getRowCol, getRowColLine')],
    'fuzzing of template sources (token-level mutation) with an exception-class oracle, and generated faults with known position',
    'Exploration: mutated and random token streams must not raise anything but the documented errors; seeded faults at a known place must be reported at that place.',
    ['exceptions', 'ParseError.report()'])

add('C14', 'Forbidden directives and expressions never get through',
    'When a directive is disabled (or not among the enabled ones), any template that uses it at any place, in any layout or spelling, fails to compile with ForbiddenDirective, and templates that do not use it are unaffected. '
    'Expression filter hooks see every placeholder, directive expression and PSP section of the template, in order, and what they return or raise takes effect (a hook for #def can refuse the signature, not change it).',
    ['programs', 'configurations'], 'all templates and all sets of disabled/enabled directives',
    'Tests disable one directive in one template.',
    ['Cheetah/Parser.py'],
    [('directive filter', 'Parser.py: _filterDisabledDirectives, eatDirective, eatPSP'),
     ('expression hooks', 'Parser.py: _applyExpressionFilters and its callers')],
    'property-based testing: generated templates with known directive/expression inventory against the hooks\' observations',
    'Exploration: the generator knows which directives and expressions each template contains; acceptance/rejection and hook calls are compared with that inventory.',
    ['compile result', 'hook calls'])

add('C15', 'Syntax settings change the syntax and nothing else',
    'Rewriting a template for other, unambiguous start and end tokens of placeholders, directives, comments, multi-line comments, slurp or PSP sections and compiling it with the matching settings (as compiler settings, settings string or #compiler-settings block) gives the same output as the original. '
    'Settings that only affect code generation (useStackFrames, outputRowColComments, commentOffset, defDocStrMsg, indentationStep, outputMethodsBeforeAttributes, addTimestampsToCompilerOutput, useFilters or alwaysFilterNone with the default filter, useKWsDictArgForPassingTrans, allowNestedDefScopes and the like) do not change the output of templates that do not use the feature concerned.',
    ['programs', 'configurations'], 'all templates and token/settings choices',
    'Tests change a few tokens on one-line templates.',
    ['Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/SettingsManager.py'],
    [('token regular expressions', 'Parser.py: _makeCheetahVarREs, _makeCommentREs, _makeDirectiveREs, _makePspREs'),
     ('settings', 'Compiler.py: setCompilerSettings, _initializeSettings')],
    'metamorphic property-based testing: generated programs rendered under token and settings changes',
    'Exploration: metamorphic relation between the default and the rewritten syntax on generated programs, anchored to the reference interpreter.',
    ['rendered output'])

add('C16', 'Macros and preprocessors expand to what they return',
    'A #defmacro or registered macro directive is replaced by the text its body or function produces from the given arguments and source, which is then parsed as part of the template; a preprocessor of any accepted form transforms the source before compilation, in the given order, and the result behaves as if the transformed source had been written. '
    'Macro calls may be nested (a macro inside a call of another one), and the caller\'s preprocessor settings are not modified.',
    ['programs'], 'all macro bodies, argument forms and preprocessor chains',
    'Tests use a few fixed macros and one preprocessor.',
    ['Cheetah/Parser.py', 'Cheetah/Template.py'],
    [('macros', 'Parser.py: eatDefMacro, eatMacroCall'),
     ('preprocessors', 'Template.py: _preprocessSource, _normalizePreprocessorArg, TemplatePreprocessor')],
    'metamorphic property-based testing: expanded source compiled directly vs through the macro/preprocessor',
    'Exploration: generated macro definitions and calls compared with the hand-expanded template.',
    ['rendered output'])

add('C17', 'Every way of compiling a template yields the same template',
    'A template compiled to a class, to module source code that is then imported, by the command line tool, by loadTemplateModule or by the import hook, from a string, a file name or a file object, renders the same output with the same inputs, in every ASCII-compatible source encoding that can represent it and is declared by #encoding or the encoding setting (UTF-8 if none is). '
    'Class, module and main method names are those asked for; a compiled module run as a script takes its variables from --env, --json or --pickle.',
    ['programs', 'configurations'], 'all templates, encodings and compile routes',
    'Tests compile two or three trivial templates by each route.',
    ['Cheetah/Template.py', 'Cheetah/Compiler.py', 'Cheetah/CheetahWrapper.py', 'Cheetah/ImportHooks.py', 'Cheetah/LoadTemplate.py'],
    [('module code generation', 'Compiler.py: ModuleCompiler.getModuleCode, wrapModuleDef, moduleHeader'),
     ('routes', 'Template.py: compile; CheetahWrapper.py: _compileOrFillBundle; ImportHooks.py; LoadTemplate.py')],
    'differential property-based testing across compile routes',
    'Exploration: generated programs and texts rendered through each route and compared with the reference interpreter.',
    ['rendered output', 'module contents'])

add('C18', 'The command line tool writes exactly the files it should',
    'cheetah compile and cheetah fill read each given source and write its output to the path determined by --idir, --odir, --iext, --oext, --flat and -R, with the content rendering/compilation yields, keep the previous output as a backup unless told not to, and touch no other file (compile also creates the packages\' __init__.py). '
    'With --stdout nothing is written; if two sources would map to the same output the tool stops before writing anything.',
    ['inputs', 'histories', 'configurations'], 'all source trees, option combinations and pre-existing files',
    'Tests cover about forty fixed invocations on one small tree.',
    ['Cheetah/CheetahWrapper.py'],
    [('bundles and backups', 'CheetahWrapper.py: _expandSourceFiles, _getBundles, _checkForCollisions, _compileOrFillBundle, backup')],
    'model-based property testing of command lines on generated directory trees',
    'Exploration: the whole scratch tree before and after each run is compared with a model of the documented path mapping.',
    ['file system contents', 'exit status', 'stdout'])

add('C19', 'Settings merge and parse as written',
    'Updating settings merges nested dictionaries key by key without losing unrelated keys and without modifying the caller\'s dictionaries (unless told to overwrite; merging into a given dictionary without copy= changes that one); numbers, strings, None/True/False and python: values written in a configuration string or file come out as the values they denote; a later value always wins and instances do not share settings.',
    ['inputs', 'histories'], 'all nested dictionaries, update sequences and configuration texts',
    'Tests merge one dictionary and read one configuration string.',
    ['Cheetah/SettingsManager.py'],
    [('merging and parsing', 'SettingsManager.py: mergeNestedDictionaries, updateSettings, updateSettingsFromConfigStr, convStringToNum')],
    'model-based property testing of update histories and config-text round trips',
    'Exploration: generated nested dictionaries and config texts against a reference merge and the known values.',
    ['settings values'])

add('C20', 'Buffered regions capture exactly their own output and restore the stream',
    '#call passes exactly the text its body renders to (and each #arg section\'s text or value) to the called function and outputs its result; #capture stores exactly its body\'s text and outputs nothing; #call, #capture, #filter and #cache regions nest in any combination and the output outside them is unaffected, whatever the body does (loops, early #stop or #return inside called methods, handled exceptions).',
    ['programs'], 'all nestings of buffering directives with control flow',
    'Tests nest at most two of them once.',
    ['Cheetah/Compiler.py', 'Cheetah/Parser.py', 'Cheetah/DummyTransaction.py'],
    [('region code', 'Compiler.py: startCallRegion/endCallRegion, startCaptureRegion/endCaptureRegion, setCallArg')],
    'property-based testing: grammar-generated region nestings against a reference interpreter',
    'Exploration: generated nestings against the reference interpreter.',
    ['rendered output', 'arguments received'])

add('C21', 'Web input becomes template variables of the declared type',
    'webInput() yields, for every request, exactly the requested names, looked up in the chosen source, with single values or lists as asked, converted to int or float when declared, with the default or 0 for missing and the bad default for invalid values or an error in debug mode, and makes them available to placeholders with priority over the rest of the searchList.',
    ['inputs'], 'all request contents, name lists and conversion requests',
    'No test calls webInput.',
    ['Cheetah/Template.py', 'Cheetah/Utils/WebInputMixin.py'],
    [('web input', 'Template.py: webInput; Utils/WebInputMixin.py: _Converter, _lookup')],
    'model-based property testing of generated requests',
    'Exploration: generated requests through a stand-in request object against a model written from the method\'s documentation.',
    ['returned dictionary', 'rendered output'])

add('C22', 'An error catcher replaces failing placeholders and nothing else',
    'With an error catcher on, a placeholder whose lookup fails with a caught exception outputs the catcher\'s warning for that placeholder (its source text for Echo) and rendering continues; placeholders that succeed output what they would without the catcher, and other exceptions propagate. '
    'ListErrors records exactly the failures, in order, with their source text and position; placeholders are guarded from the #errorCatcher directive to #end errorCatcher in the source of the method, and the catcher called is the one switched on last at run time.',
    ['programs', 'fault_sequences'], 'all templates with any subset of failing placeholders',
    'Tests use one failing placeholder per catcher.',
    ['Cheetah/ErrorCatchers.py', 'Cheetah/Compiler.py'],
    [('catchers', 'ErrorCatchers.py; Compiler.py: addErrorCatcherCall, turnErrorCatcherOn/Off')],
    'property-based testing: generated templates with injected lookup failures against a model',
    'Exploration: random subsets of placeholders fail with random exception types; output and recorded errors compared with a model.',
    ['rendered output', 'recorded errors'])

add('C23', 'Variables live in the scope their directive gives them',
    '#set variables are local to the method they are set in, shadow every other namespace there and vanish afterwards; #set global variables are visible from every method and later render of the instance and shadow the searchList but not locals; #set module, #import and #from names are visible in all methods of the module, behind the searchList; #attr values belong to the class; #del removes only the local; getVar and varExists see the searchList (with the #set global variables and the template), not locals. '
    'Assignments with augmented operators, tuple targets, and attribute and item targets of local, global, module and self variables have Python\'s effect.',
    ['programs', 'histories'], 'all sequences of assignments and reads across methods, instances and renders',
    'Tests set one variable per kind and read it once.',
    ['Cheetah/Compiler.py', 'Cheetah/Parser.py', 'Cheetah/Template.py'],
    [('assignment', 'Compiler.py: addSet, addDel, addAttribute, addImportStatement; Parser.py: eatSet'),
     ('global variables', 'Template.py: setupSearchList, globalSetVars')],
    'property-based testing: generated scope programs against a scope model',
    'Exploration: generated multi-method programs and render histories against an explicit scope model.',
    ['rendered output'])

add('C24', 'Template methods take arguments and return text like Python functions',
    'A #def with any list of plain, defaulted, *args, keyword-only and **kw parameters binds the arguments of a call (positional, keyword, *, **) as the same Python signature would, except that unknown keyword arguments are ignored; it returns its rendered text when called from Python or from an expression, inserts it when used as a placeholder, works above or below its use and recursively, and #return gives the value while #stop gives the text so far. '
    'Decorators and @classmethod/@staticmethod behave as in Python; a #closure or nested #def binds its arguments strictly and writes its text in place. A method with #yield is a generator: #yield with an expression yields its value, #yield alone the text written since the last time.',
    ['programs', 'inputs'], 'all parameter lists, call forms and call sites',
    'Tests use six fixed signatures.',
    ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
    [('definitions', 'Parser.py: _eatDefOrBlock, getDefArgList; Compiler.py: AutoMethodCompiler')],
    'property-based testing: generated signatures and calls against the equivalent Python function',
    'Exploration: generated signatures and argument lists, oracle is a Python function with the same signature.',
    ['rendered output', 'return values', 'exceptions'])

add('C25', 'Directive lines, comments and #slurp leave no residue',
    'A directive or comment that stands alone on its line removes that whole line, including indentation (spaces, tabs, form feeds) and line ending, and nothing else; one closed explicitly or sharing its line leaves all surrounding whitespace as written (a multi-line comment also takes the blanks after it when nothing else follows on the line; end tags of verbatim sections take their indentation); comments of either kind, however nested and whatever they contain, add nothing to the output; #slurp and a trailing # join the next line. '
    'This holds for every directive and for \\n, \\r\\n and \\r line endings alike, at the start, middle and end of the source.',
    ['inputs'], 'all placements of directives and comments in surrounding text',
    'Tests check a few placements per directive.',
    ['Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/SourceReader.py'],
    [('whitespace handling', 'Parser.py: _eatRestOfDirectiveTag, _eatToThisEndDirective, eatComment, eatMultiLineComment, eatSlurp; Compiler.py: handleWSBeforeDirective'),
     ('line positions', 'SourceReader.py: findEOL, findBOL, isLineClearToPos')],
    'property-based testing: generated layouts against a line-based whitespace model',
    'Exploration: every directive kind in generated layouts against a whitespace model.',
    ['rendered output'])

add('C26', 'Version comparison and utility classes keep their laws',
    'Version strings convert to tuples that order as the releases do (devel < alpha < beta < candidate < final, numbers numerically); MondoReport yields each item exactly once with correct index, first/last, even/odd, running statistics and page boundaries; RecursiveNull absorbs any access; a site hierarchy shows the menu and crumbs of the current page; #indent directives replace each line\'s indentation by the level in force, independently per template; a directive analysis counts exactly the directives used.',
    ['inputs'], 'all version strings, item lists and templates',
    'Tests check six version strings and no report values.',
    ['Cheetah/Version.py', 'Cheetah/Tools/MondoReport.py', 'Cheetah/Tools/RecursiveNull.py', 'Cheetah/DirectiveAnalyzer.py', 'Cheetah/Tools/SiteHierarchy.py', 'Cheetah/Utils/Indenter.py'],
    [('utilities', 'Version.py: convertVersionStringToTuple; Tools/MondoReport.py; Tools/RecursiveNull.py; DirectiveAnalyzer.py')],
    'property-based testing: algebraic laws and reference computations',
    'Exploration: generated inputs against direct computations.',
    ['return values'])

add('C27', 'Source positions are exact',
    'For every source text and position the source reader\'s row and column, line start, line end and next/previous line boundaries agree with counting line endings (\\n, \\r\\n, \\r) from the start; generated line/column information for placeholders in error catcher reports uses the same numbering. Cursor operations (read, readTo, readToEOL, advance, rev, peek, getWhiteSpace, bookmarks) move and return exactly the characters they name.',
    ['inputs'], 'all texts with mixed line endings and all positions in them',
    'No test checks positions other than one parse error.',
    ['Cheetah/SourceReader.py'],
    [('positions', 'SourceReader.py: getRowCol, getRowColLine, findBOL, findEOL, isLineClearToPos, rangecheck')],
    'property-based testing: generated texts against a counting oracle',
    'Exploration: every position of generated texts against a counting oracle.',
    ['return values'])

add('C28', 'Documentation and header comments reach the module as written',
    'The text of ##doc:, ##doc-method:, ##doc-class: and ##doc-module: comments (and their #*...*# forms) becomes, word for word and in order, the docstring of the method it stands in, of the class and of the module, ##header: comments become comment lines above the module docstring, ##name@ text defines the module variable __name__, and #shBang the first line of the module; '
    'whatever characters these comments contain, the template still compiles, none of their text is executed as code and the output is the same as without them.',
    ['inputs'], 'all texts of documentation, header and variable comments at all places of a template',
    'Tests compile no documentation comment with quotes, backslashes or percent signs.',
    ['Cheetah/Compiler.py', 'Cheetah/Parser.py'],
    [('comments', 'Compiler.py: ModuleCompiler.addComment, addSpecialVar, moduleHeader, moduleDocstring; ClassCompiler.classDocstring; MethodCompiler.docString'),
     ('comment parsing', 'Parser.py: eatComment, eatMultiLineComment, eatShbang')],
    'property-based testing: generated comments against the docstrings of the compiled class',
    'Exploration: generated texts full of quotes, backslashes and formatting characters in every kind of comment; the docstrings, header lines and variables of the compiled module are compared with the text written.',
    ['docstrings', 'generated module code', 'rendered output'])

add('C29', 'Embedded Python sections run as written',
    '<%= expression %> outputs the value of the expression through the output filter in force; the statements of <% ... %> run as written and where they stand, in order with the rest of the template (lines after the first indented relative to it), and see and set the local variables of the method; write() outputs text as is; a section that ends with a block head (trailing colon, or $) opens a block that lasts until <% end %>; the text between sections comes out unchanged, at every nesting with directives and with other section tokens set in the settings.',
    ['programs'], 'all sequences and nestings of sections, text, placeholders and directives',
    'Tests run ten fixed sections.',
    ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
    [('section parsing', 'Parser.py: eatPSP, matchPSPStartToken, matchPSPEndToken'),
     ('section code', 'Compiler.py: addPSP, nextMethodID, addWriteChunk')],
    'property-based testing: generated sections against the same Python program run directly',
    'Exploration: generated programs of sections are executed as plain Python with an output list as oracle.',
    ['rendered output', 'exceptions'])

add('C30', 'The web base classes build the page from the parts they are given',
    'A page of the SkeletonPage template contains exactly the document type, title, meta tags, style sheets (in the given order), scripts with their code, body attributes and blocks that its class, instance and search list define, each once and at its place, with the header cached until it is refreshed, and pages do not affect one another; tag helpers write the given attributes; a CGITemplate outputs its headers exactly when it runs as a CGI script and a response returns exactly the text written to it, in order; server side paths are normalised and absolute.',
    ['inputs', 'histories'], 'all page parts, environments and write sequences',
    'No test renders a SkeletonPage or a CGITemplate.',
    ['Cheetah/Templates/_SkeletonPage.py', 'Cheetah/Templates/SkeletonPage.py', 'Cheetah/Tools/CGITemplate.py', 'Cheetah/DummyTransaction.py', 'Cheetah/Servlet.py'],
    [('page parts', 'Templates/_SkeletonPage.py: _SkeletonPage'),
     ('CGI', 'Tools/CGITemplate.py: cgiHeaders, isCgi'),
     ('responses and paths', 'DummyTransaction.py: DummyResponse, TransformerResponse; Servlet.py: serverSidePath')],
    'model-based property testing of generated pages, environments and write histories',
    'Exploration: generated page parts against a page composed from the documentation of the base class.',
    ['rendered output', 'return values'])

add('C31', 'Feature settings do what they say, for the portion they are set for',
    'With useNameMapper off a placeholder is the plain Python expression; with useSearchList off its first name is a Python variable and only the rest is name-mapped; with useAutocalling off nothing is called that is not called in the source; with useFilters off values pass through str(); such settings apply from the directive that sets them to the next one or to a reset, within methods too, and leave the placeholders before them alone. includeBlockMarkers puts the start and end markers with the block name directly around the text of every block. In legacy mode #import takes place once, at module level; otherwise where and as often as it is reached, with names local to the method. handlerForExtendsDirective, autoImportForExtendsDirective and allowExpressionsInExtendsDirective select the base class as described. Every call of a gettext function appears as a plain call in the module and is still made only where and when it is reached. With gobbleWhitespaceAroundMultiLineComments off only the comments themselves are removed.',
    ['programs', 'configurations'], 'all templates and combinations of these settings',
    'Tests set few of these settings, each for a whole fixed template.',
    ['Cheetah/Compiler.py', 'Cheetah/Parser.py'],
    [('variables', 'Compiler.py: genCheetahVar, genNameMapperVar, genPlainVar, addGetTextVar, _addAutoSetupCode'),
     ('blocks, imports and base classes', 'Compiler.py: closeBlock, addImportStatement, addImportedVarNames, setBaseClass; Parser.py: _eatDefOrBlock, eatExtends'),
     ('settings', 'Compiler.py: setCompilerSetting, setCompilerSettings')],
    'model-based property testing of generated templates under generated settings',
    'Exploration: a model evaluates the same placeholders, blocks and imports on the same objects and compares text and call logs.',
    ['rendered output', 'calls made', 'imports made', 'generated module'])

add('C32', 'Templates take their arguments in every documented form',
    'A template made from a source string, a file name, a file object or a compiled class, with its namespaces given as searchList or namespaces, as list, tuple or a single dictionary, object or module, with a filter given by name, class or from a filters library and with settings given to the call or as class defaults, renders the same text; the arguments are not modified. An argument of a wrong type, source together with file, and searchList together with namespaces are rejected with an error that names the argument and leave nothing behind. generatedModuleCode(), generatedClassCode(), getCacheRegions(), getFileContents() return what they name, and shutdown() empties only its own instance.',
    ['inputs', 'configurations'], 'all sources, namespaces and argument forms',
    'Tests use a handful of the forms, each with a fixed template.',
    ['Cheetah/Template.py'],
    [('construction', 'Template.py: __init__, compile, _compile, _initCheetahInstance, _addCheetahPlumbingCodeToClass'),
     ('services', 'Template.py: generatedModuleCode, generatedClassCode, getCacheRegions, getFileContents, shutdown')],
    'property-based testing: generated arguments in every form against a small rendering model',
    'Exploration: the same template and names go through every form of construction; the oracle looks the names up in the given namespaces itself.',
    ['rendered output', 'exceptions', 'return values', "the caller's objects"])

add('C33', 'Applications can add, replace and remove directives',
    'A directive registered in directiveNamesAndParsers (as a class, a function or the name of a method of the parser class), with its end handler in endDirectiveNamesAndHandlers and its name in closeableDirectives, works like a built-in one: in every layout (line, closed, single-line form), at every nesting with other directives, whatever other directive its name begins like; a built-in directive registered anew is replaced, and one registered as False is plain text. Unclosed, unopened and mismatched ones are rejected with ParseError and disabled ones with ForbiddenDirective. The settings may come with the call, with the attributes or with the _getCompilerSettings and _getCompilerClass methods of a Template subclass, and other templates are not affected.',
    ['inputs', 'configurations'], 'all sets of directive names, handlers and templates that use them',
    'No test registers a directive of its own.',
    ['Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/Template.py'],
    [('registration', 'Parser.py: _initDirectives, matchDirectiveName, eatDirective, eatEndDirective, pushToOpenDirectivesStack, popFromOpenDirectivesStack'),
     ('settings', 'Template.py: compile, _getCompilerClass, _getCompilerSettings')],
    'property-based testing: generated directive sets and templates, differential against built-in directives',
    'Exploration: every template with directives of the application is compared with the same template in terms of built-in directives.',
    ['rendered output', 'exceptions'])
