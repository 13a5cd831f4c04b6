"""Names of the functions the analyses know as units. A function that is not
in this list (a helper that was extracted, say) is analysed in place."""

KNOWN = frozenset("""
Letter Roman VFFSL VFN VFS _X_test1 _X_test2 _X_test3 _X_test6 __bool__
__call__ __eq__ __getattr__ __getitem__ __getslice__ __init__ __len__ __ne__
__nonzero__ __repr__ __str__ __to_bytes __to_unicode __unicode__
__valueForName _acquire _addActiveClassCompiler _addAutoCleanupCode
_addAutoSetupCode _addCheetahPlumbingCodeToClass _addSourceFileMonitoring
_analyze_templates _appendToPrevStrConst _applyExpressionFilters _beginCGI
_checkDestFileHelper _checkForCollisions _cheetah _cheetah_compile _cleanup
_compile _compileOrFill _compileOrFillBundle _compileOrFillStdin
_createCacheRegion _defaultSettings _eatDefOrBlock _eatMultiLineDef
_eatRestOfDirectiveTag _eatSingleLineDef _eatToThisEndDirective _endCGI
_endCallArg _escapeRegexChars _exec _expandSourceFiles
_filterDisabledDirectives _find_templates _finishedClasses _finishedMethods
_firstOrLastValue _fixExts _genUniqueModuleName _getActiveClassCompiler
_getActiveMethodCompiler _getBundles _getCacheStore _getCacheStoreIdPrefix
_getCompilerClass _getCompilerSettings
_getTemplateAPIClassForIncludeDirectiveCompilation _getTemplateClass
_getValues _handleCheetahInclude _inContents _initCheetahInstance
_initDirectives _initializeSettings _isInstanceOrClass _lookup
_makeCheetahVarREs _makeCommentREs _makeDirectiveREs _makeOwner _makePspREs
_menubarRecurse _namespaces _normalizePreprocessorArg
_normalizePreprocessorSettings _os_bootstrap _outputMismatchReport
_popActiveClassCompiler _popActiveMethodCompiler _preprocessSource
_prevNextHelper _print_error _processCmdLineArgs _pystone_calibration
_raiseErrorAboutInvalidCheetahVarSyntaxInExpr _raiseNotFoundException
_recompile_template _release _run _setActiveMethodCompiler _set_path
_setupCompilerState _setupInitMethod _setupState _spawnClassCompiler
_spawnMethodCompiler _subDispatcher _swallowClassCompiler
_swallowMethodCompiler _test _try_test_run _unescapeCheetahVars
_unescapeDirectives _updateSettingsWithPreprocessTokens
_useKWsDictArgForPassingTrans _valueForName _wrapNotFoundException aMacro
accumulate_time acquire add addAssert addAttribute addAttributes addBreak
addChunk addChunkToInit addClassDocString addClosure addComment addContinue
addDecorator addDel addEcho addElif addElse addError addErrorCatcherCall
addExcept addFailure addFilteredChunk addFinally addFor addGetTextVar addIf
addImportStatement addImportedVarNames addInclude addIndentingDirective
addMethArg addMethComment addMethDocString addMethods addModuleDocString
addModuleGlobal addModuleHeader addOneLineIf addPSP addPass addPlaceholder
addRaise addRawText addReIndentingDirective addRepeat addReturn addSet
addSilent addSpecialVar addStop addStrConst addSuper addTernaryExpr addTry
addUnless addWhile addWriteChunk addYield add_argument add_default advance all
analyze any appendToPrevChunk assertEmptyOpenDirectivesStack
assertPosixSubprocess assertSubprocess assertWin32Subprocess atEnd atStart
attributes bodyTag boink breakPoint cache_from_source cachedRegex callIt
cgiHeaders cgiHeadersHook chatter check checkCompile checkFileMtime checkFill
checkKeywords checkNoBackup checkPos checkSubdirPyInit child_wait classDef
classDefs classDocstring className classSignature cleanup cleanupState clear
clock closeBlock closeDef closeFilterBlock code codeBody commitStrConst
compile configureParser convStringToNum convertTmplPathToModuleName
convertVersionStringToTuple copySettings count createAndCompile createMethod
create_error create_failure create_success crumbLink crumbSeperator
crumbTerminator crumbs currentDate currentYr debug dec dedent deepcopySettings
delete die dirname display docString doimport dummyFunc eatAttr eatBackref
eatBlock eatBreakPoint eatCache eatCall eatCallArg eatCapture eatClosure
eatComment eatCompiler eatCompilerSettings eatDecorator eatDef eatDefMacro
eatDirective eatEOLSlurpToken eatEncoding eatEndDirective eatErrorCatcher
eatExtends eatFilter eatGroup eatIf eatImplements eatInclude eatMacroCall
eatMultiLineComment eatPSP eatPlaceholder eatPlainText eatRaw eatSet eatShbang
eatSimpleExprDirective eatSimpleIndentingDirective eatSlurp eatStrConst
eatSuper eatTransform emptyCrumb endCacheRegion endCallRegion endCaptureRegion
error errorCatcher escapeDocString escapeRegexChars even even_i example
exceptions filename files fill filter filterDir find findBOL findEOL findFiles
first firstValue flush formHTMLTag formatMetaTags fprintfMessage
funcThatRaises function genCacheInfo genCacheInfoFromArgList genCheetahVar
genClassCode genModuleCode genNameMapperVar genParserErrorFromPythonException
genPlainVar genTimeInterval generatedClassCode generatedModuleCode get getArgs
getAssignmentOperator getBackref getCacheItem getCacheRegion getCacheRegions
getCacheToken getCallArgString getCheetahVar getCheetahVarBody
getCheetahVarNameChunks getCheetahVarStartToken getCommaSeparatedSymbols
getCommentStartToken getData getDefArgList getDescr getDirectiveEndToken
getDirectiveStartToken getDottedName getEOLSlurpToken getExpiryTime
getExpression getExpressionParts getFileContents getFileStats getGroup
getIdentifier getLine getModuleCode getModuleEncoding
getMultiLineCommentEndToken getMultiLineCommentStartToken getNonWhiteSpace
getOperator getPSPEndToken getPSPStartToken getPathExt getPlaceholder
getPyToken getRefreshTime getRowCol getRowColLine getSilentPlaceholderToken
getTargetVarsList getVar getWhiteSpace get_call_data get_suffixes getc getkws
getmod getvalue go gotoBookmark group handleEndDef handleWSBeforeDirective
hasBookmark hasExpired hasKey hasName hasSetting hashDict hashList help
htmlDecode htmlEncode i18n imgTag importHook importStatements importedVarNames
inc includeBlockMarkers indent indentation indentize index inform install
install_eols isCgi isClassMethod isErrorCatcherOn isLineClearToPos
isLineClearToStartToken isNew isNonNegative isNotNone isNumeric isStaticMethod
is_active item javascriptTags join last lastValue length letter lineNum
listErrors listTests loadTemplateClass loadTemplateModule
load_module_from_file load_template load_template_file load_template_module
load_template_string locate_cheetah lookup_func main main_dir main_file
makeTripleQuoteRe matchAssignmentOperator matchBackref
matchCheetahVarInExpressionStartToken matchCheetahVarStart
matchCheetahVarStartToken matchColonForSingleLineShortFormDirective
matchCommentStartToken matchDirective matchDirectiveEndToken
matchDirectiveName matchDirectiveStartToken matchEOLSlurpToken
matchExpressionPlaceholderStart matchGroup matchIdentifier
matchMultiLineCommentEndToken matchMultiLineCommentStartToken
matchNonWhiteSpace matchOperator matchPSPEndToken matchPSPStartToken
matchPyToken matchTopLevelToken matchVariablePlaceholderStart matchWhiteSpace
matches max maybe mean median menuLink menuList merge mergeNestedDictionaries
metaTags meth meth1 meth2 meth3 methWithPercentSignDefaultArg method method2
method3 methodBody methodDef methodDefs methodName methodSignature min
mkdirsWithPyInitFiles moduleConstants moduleDocstring moduleFooter
moduleHeader nameSplit namedGroup namespace next nextCacheID nextCallRegionID
nextCaptureRegionID nextFilterRegionID nextPages nongroup normalizeParserVal
normalizeSearchList normalizeTokens number odd odd_i off on options
optionxform packageName page parse parseOpts pathIsDir peek percentOfTotal
performanceSample perftest ping pop popFromOpenDirectivesStack pos preprocFunc
preprocess prev prevPages printStats print_report process processDir
profile_signal_handler push pushToOpenDirectivesStack rawStats read
readSettingsFromConfigFileObj readSettingsFromModule readSettingsFromPySrcStr
readTo readToEOL refreshCache release reloadHook removeFromList render
renderOutput replace replaceRegexInFiles replaceStrInFiles report reset
respond response results rev rfind roman run runAsMainProgram runTest runTests
safeConvert sample_stack_procs searchList searchListGenerator serverSidePath
set setBaseClass setBookmark setBreakPoint setCacheDir setCallArg setChar
setClassName setCompilerSetting setCompilerSettings setData setErrorCatcher
setExpiryTime setFilter setLevel setMainMethodArgs setMainMethodName
setMethodName setMethodSignature setModuleEncoding setPos setSetting
setSettingsManager setShBang setThreaded setTransform setUp setUpModule
setting settings setupState shutdown sleep spacer specialVars splitlines src
standardDeviation standardDeviation_n start startCache startCacheRegion
startCallRegion startCaptureRegion startMethodDef startTest startswith stop
stopTest stringIsNumber stylesheetTags subberFunc subclass sum summary
tearDown tearDownModule test test1 test10 test11 test12 test13 test14 test15
test16 test17 test18 test19 test2 test20 test21 test22 test23 test24 test25
test26 test27 test28 test29 test3 test30 test31 test32 test33 test34 test35
test36 test37 test38 test39 test4 test40 test41 test42 test43 test44 test45
test46 test47 test48 test49 test5 test50 test51 test52 test53 test54 test55
test56 test57 test58 test59 test6 test60 test61 test7 test8 test9 testCompile
testDynamicCompile testFill testStaticCompile testText test_AutoImporting
test_BasicASCII test_BasicDecorator test_BasicDynamic test_BasicHeader
test_CheetahDirOwner test_DefinedFilter test_FailCase test_FailingBehavior
test_FailingBehaviorWithSetting test_FromFooImportThing test_Html
test_ImportFailModule test_ImportHooks test_InlineImport test_LegacyMode
test_ModuleLevelImport test_NoneFilter test_NotFoundException
test_ProperImportOfBadModule test_Python test_StuffBeforeImport_Legacy
test_Thai test_Thai_utf8 test_VFF_1 test_ValidException test_baseclassArg
test_basicUsage test_basicUsage1 test_classNameArg test_compilationCache
test_compileFile test_compiler_str test_compilersettings test_complexUsage
test_env test_error test_failure test_foo test_help test_i18n
test_import_bootlocale test_import_builtin test_int test_json_file
test_json_stdin test_keepRefToGeneratedCodeArg test_loadTemplate
test_mainMethodNameArg test_merge1 test_merge2 test_merge3
test_mergeDictionaries test_moduleFileCaching test_moduleGlobalsArg
test_moduleNameArg test_module_not_found test_no_tests test_normal
test_normalizePreprocessorArgVariants test_path test_pickle_file
test_pickle_stdin test_search test_set test_stderr_capture test_stdout_capture
test_string test_success test_unittests_changing_stderr
test_unittests_changing_stdout testdecorator timestamp transformToken
turnErrorCatcherOff turnErrorCatcherOn ungetc uninstall updateLinecache
updateSettings updateSettingsFromConfigFileObj updateSettingsFromConfigStr
updateSettingsFromPySrcStr usage useOrRaise validPos valueForKey valueForName
valueFromFrame valueFromFrameOrSearchList valueFromSearchList varExists
variance variance_n verify version walkDirTree warn webInput wrapClassDef
wrapCode wrapModuleDef wrapper write writeBody writeHeadTag writelines writeln
""".split())


def known(f):
    return f.name in KNOWN
