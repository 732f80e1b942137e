// C01: no text makes the interpreter panic, or exhaust the Go stack.
//
// recursion: the call graph of the package, with every interface call and every call of a
// function value resolved to all the functions of matching signature, has no cycle that avoids
// the guard functions.  A guard counts the depth and refuses beyond a limit, so Go's stack (whose
// exhaustion kills the process; no recover stops it) has a fixed bound.  Exceptions, each by reading:
//  FunctionCallNameTypeCheck   recurses into formals' own symbols, one level
//  SexpError.Error             an error wraps one error, made in Go
//  fillJsonMap                 the embedded structs of a Go type
//  goDumper.value, dataMeasure.measure, Parser.ParseExpression   count their own depth
//  Snoopy.Fly                  a demo method, nothing calls it back
//  SexpToGo, SexpToGoStructs, sexpToPlainGo, writeJson   run on what `encodable` admitted (depth counted there)
//  numbersToGo, decodeGoToSexpHelper, fillHashHelper     walk what a decoder with a depth limit made
//  nestedPathGetSet            the path gets shorter
//  hold, admits, pointerDepthHelper, SexpArray.Type      walk a type; register's nesting is capped
//  StructBuilder$1, makeRecord$1, newPlainType$1, RegisterPointer$1   factories, in a cycle only by signature
//  ArrayIndexFunction, HashIndexFunction                 in a cycle only by signature
props C01

recursion (*Zlisp).enter, (*PrintState).enter, (*filtering).enter: (*Zlisp).FunctionCallNameTypeCheck, (*SexpError).Error, (SexpError).Error, fillJsonMap, (*goDumper).value, (*dataMeasure).measure, (*Snoopy).Fly, SexpToGo, SexpToGoStructs, numbersToGo, (*SexpHash).nestedPathGetSet, (*Parser).ParseExpression, (*RegisteredType).hold, sexpToPlainGo, writeJson, decodeGoToSexpHelper, fillHashHelper, pointerDepthHelper, StructBuilder$1, makeRecord$1, newPlainType$1, (*GoStructRegistryType).RegisterPointer$1, ArrayIndexFunction, HashIndexFunction, (*SexpArray).Type, (*RegisteredType).admits

// the guards refuse beyond their limits
func (*Zlisp).enter(env) (err)
  ensures counts: env != nil && err == nil ==> env.nesting == old(env.nesting) + 1 && env.nesting <= 100000
  ensures refuses: env != nil && err != nil ==> env.nesting == old(env.nesting)

func (*Zlisp).leave(env)
  ensures counts: env != nil ==> env.nesting == old(env.nesting) - 1

func (*PrintState).enter(ps, x) (mark, ok)
  requires ps != nil
  ensures counts: ok && old(ps.at) != nil ==> ps.at == old(ps.at) && ps.at.depth == old(ps.at.depth) + 1 && ps.at.depth <= 20000

func (*PrintState).leave(ps, x)
  requires ps != nil && ps.at != nil
  ensures counts: ps.at == old(ps.at) && ps.at.depth == old(ps.at.depth) - 1

writers Zlisp.nesting: (*Zlisp).Clone, (*Zlisp).Duplicate, (*Zlisp).enter, (*Zlisp).leave, (*Zlisp).restoreControlState, (*Zlisp).Run
writers printing.depth: (*PrintState).enter, (*PrintState).leave

// panicless: every index, slice, type assertion, division, map write, make and panic call of these
// functions is safe for all arguments and all heaps (no precondition).
panicless (*Event).DecodeMsg, (*Event).DisplayEvent, (*Event).EncodeMsg, (*Event).MarshalMsg, (*Event).Msgsize, (*Event).UnmarshalMsg, (*Generator).AddInstruction, (*Generator).GenerateAll, (*Generator).GenerateAssert, (*Generator).GenerateBegin, (*Generator).GenerateBuilder, (*Generator).GenerateCond
panicless (*Generator).GenerateDefn, (*Generator).GenerateFn, (*Generator).GenerateInclude, (*Generator).GenerateInclude$1, (*Generator).GenerateMacexpand, (*Generator).GenerateMultiDef, (*Generator).GeneratePackage, (*Generator).GenerateQuote, (*Generator).GenerateReturn, (*Generator).GenerateShortCircuit, (*Generator).GenerateSyntaxQuote, (*Generator).GetLHS
panicless (*Generator).Reset, (*Generator).generateSyntaxQuoteArray, (*Generator).generateSyntaxQuoteDotted, (*Generator).generateSyntaxQuoteList, (*GoStructRegistryType).GetOrCreatePointerType, (*GoStructRegistryType).GetOrCreateSliceType, (*GoStructRegistryType).LazyAddFunction, (*GoStructRegistryType).RegisterPointer, (*GoStructRegistryType).RegisterUserdef, (*Hellcat).Fly, (*Hornet).Fly, (*Lexer).AddNextStream
panicless (*Lexer).AppendToken, (*Lexer).PrependToken, (*Lexer).PromoteNextStream, (*Lexer).Reset, (*Lexer).dumpBuffer, (*NestOuter).EncodeMsg, (*NestOuter).MarshalMsg, (*Parser).ParseArray, (*Parser).ParseInfix, (*Parser).ParseList, (*Parser).ParseList$2, (*Parser).ParseTokens
panicless (*Parser).ParsingIter$1, (*Pratt).ShowCnodeStack, (*PrintState).Dump, (*Prompter).getExpressionOrig, (*RegisteredType).TypeCheckRecord, (*RegisteredType).admits, (*RegisteredType).derivable, (*RegisteredType).hold, (*Scope).CloneScope, (*Scope).DeleteSymbolInScope, (*Scope).Show, (*Scope).UpdateSymbolInScope
panicless (*SexpArray).Type, (*SexpArraySelector).RHS, (*SexpArraySelector).SexpString, (*SexpDur).SexpString, (*SexpFunction).IsLazyFormal, (*SexpFunction).SetFormalSymbols, (*SexpHash).CloneFrom, (*SexpHash).CopyMap, (*SexpHash).FillHashFromShadow, (*SexpHash).HashDelete, (*SexpHash).HashGet, (*SexpHash).HashGetDefault
panicless (*SexpHash).HashPairi, (*SexpHash).TypeCheckField, (*SexpHash).fieldNames, (*SexpHash).removeFromKeyOrder, (*SexpHashSelector).SexpString, (*SexpInterfaceDecl).SexpString, (*SexpPointer).SexpString, (*SexpRaw).SexpString, (*SexpReflect).SexpString, (*SexpRegexp).SexpString, (*Snoopy).Fly, (*Snoopy).Sideeffect
panicless (*Stack).Clone, (*Stack).Pop, (*Stack).PushExpressions, (*Stack).Show, (*Stack).TruncateToSize, (*Stack).lookupSymbol, (*Weather).EncodeMsg, (*Weather).MarshalMsg, (*Zlisp).AddPostHook, (*Zlisp).AddPreHook, (*Zlisp).Apply, (*Zlisp).Assignment$1
panicless (*Zlisp).CallResolved, (*Zlisp).CallUserFunction, (*Zlisp).Clear, (*Zlisp).Compare, (*Zlisp).DetectSigils, (*Zlisp).DumpEnvironment, (*Zlisp).DumpFunctionByName, (*Zlisp).DumpSymTable, (*Zlisp).EliminateColonAndCommaFromArgs, (*Zlisp).EvalCallExpression, (*Zlisp).FindLoop, (*Zlisp).ImportBaseTypes
panicless (*Zlisp).ImportDemoData, (*Zlisp).Infix$1, (*Zlisp).Infixr$1, (*Zlisp).InitInfixOps$1, (*Zlisp).LeftBindingPower, (*Zlisp).LexicalLookupSymbol, (*Zlisp).LoadExpressions, (*Zlisp).LoadStream, (*Zlisp).NewStack, (*Zlisp).ParseFile, (*Zlisp).PostfixAssign$1, (*Zlisp).Prefix$1
panicless (*Zlisp).PrepareCallExprArgs, (*Zlisp).ResolveCallable, (*Zlisp).ResolveDotSym, (*Zlisp).ReturnFromFunction, (*Zlisp).ShowStackStackAndScopeStack, (*Zlisp).SourceStream, (*Zlisp).SubstituteRHS, (*Zlisp).comparePair, (*Zlisp).compareSymbol, (*Zlisp).dumpParentChain, (*Zlisp).flattenToWords, (*Zlisp).matchFormals
panicless (*Zlisp).outside, (*Zlisp).sourceItem, (*Zlisp).wrangleOptargs, (*filtering).array, (*filtering).enter, (AddFuncScopeInstr).Execute, (AddScopeInstr).Execute, (BindlistInstr).Execute, (BindlistInstr).InstrString, (BranchInstr).InstrString, (BreakInstr).InstrString, (CallExprInstr).InstrString
panicless (CallInstr).Execute, (CallInstr).InstrString, (ClearStackmarkInstr).InstrString, (ContinueInstr).InstrString, (Date).NoSlashString, (Date).String, (Date).StringNoSlashCCYYMMDD, (Date).StringNoSlashYYMMDD, (Date).To3339, (Date).ToSlash, (DebugInstr).InstrString, (DispatchInstr).Execute
panicless (DispatchInstr).InstrString, (EnvToStackInstr).Execute, (EnvToStackInstr).InstrString, (ExplodeInstr).Execute, (HashizeInstr).Execute, (JumpInstr).InstrString, (LabelInstr).InstrString, (LoopStartInstr).InstrString, (NestInner).EncodeMsg, (NestInner).MarshalMsg, (Person).EncodeMsg, (Person).MarshalMsg
panicless (PopStackPutEnvInstr).InstrString, (PopUntilStackmarkInstr).Execute, (PopUntilStackmarkInstr).InstrString, (PushStackmarkInstr).InstrString, (TailCallInstr).InstrString, (UpdateInstr).Execute, (UpdateInstr).InstrString, (VectorizeInstr).Execute, (VectorizeInstr).InstrString, AddressOfFunction, AllBuiltinFunctions, AppendFunction$1
panicless ApplyFunction, ArrayAccessFunction$1, ArrayOfFunction, AsDateFunction, AsDurationFunction, AsTmFunction, AsUint64Function, AssignmentFunction, BinaryIntFunction$1, BitwiseFunction$1, CallGoMethodFunction, CallGoMethodFunction$1
panicless CallGoMethodFunction$1$1, CallZMethodOnRecordFunction, ChanTxFunction, Chomp, ChunkedBase64StringToRaw, ClosureToString, ColonAccessBuilder, CommaBuilder, CompareFunction$1, ComplementFunction, ConcatArray, ConcatLists
panicless ConcatStr, ConcatTwoLists, ConsFunction, ConstructorFunction$1, CopyRawFunction, CoreFunctions, DashDateTo3339, DashMonthDate, DayDifference, DaysBetweenAminusB, DeclareMsgpackMapFunction, DecodeLocalTimeString
panicless DecodeTimeFromTrthCsvLocalOffset, DecodeTimeFromTrthCsvUtc, DecodeUtcTimeString, DefinedFunction, DemoNestInnerOuterFunction, DerefFunction$1$1, DotFunction, DumpClosureEnvFunction, DumpFunction, EncodingFunctions, ExitFunction, ExpectErrorBuilder
panicless FileLine, FirstFunction, FlattenToWordsFunction, ForceFunction, FromGoFunction, FromIntDate, GenericAccessFunction, GenericHpairFunction, GensymFunction, GetEmbedPath, GoFieldListFunction, GoMethodListFunction
panicless GobEncodeFunction, GoonDumpFunction, HashColonFunction, HashExpression, ImportPackageBuilder, InfixBuilder, InfixExpandArray, InterfaceBuilder, IsBase64Function, IsBusinessDay, IsNaNFunction$1, JoinSymFunction
panicless JsonFunction$1, MakeChanFunction, MakeList, MakeRaw, MakeRawUnbase64$1, MapFunction, MapList, MillisFunction, MsgpackToSexp, NewGenerator, NewLexer, NewPratt
panicless NewZlispWithFuncs, NextBusinessDayFunction, NotFunction, NumericFunction$1, OldEvalFunction, ParseDate, ParseIQFeedTimestamp, ParseMMDDYYYY, ParseYYDDWithMonthSupplied, ParseYYMMDDNoSlash, ParseYYYYMMDDNoSlash, PointerToFunction
panicless PrintFunction$1, QuoteListFunction, RangeKeyFunction, RangeLenFunction, RangePairFunction, RawToStringFunction, ReadGreenpackFromFileFunction, ReflectionFunctions, RegexpCompile, RegexpFind, RegisterDemoStructs, RemoveSymFunction
panicless Repl, ReplMain, RestFunction, SandboxSafeFunctions, SecondFunction, SetEchoPrintFlag, SetHashKeyOrder, SetPrettyPrintFlag, SetShellCmd, SimpleJSONStringFunction, SimpleSourceFunction, SlashDateTo3339
panicless SliceOfFunction, SlurpfileFunction, SourceFileFunction, SplitStringFunction, SplitStringOnNewlinesFunction, StopFunction, Str2SymFunction, StrFunctions, StringUtilFunction$1, StringifyFunction, StructBuilder, SubstituteFunction
panicless Sym2StrFunction, SymnumFunction, SystemFunction, SystemFunctions, TSPrintf, ThreadMapFunction, TimeitFunction, ToGoFunction, TypeListFunction, TypeOf, TypeQueryFunction$1, VarBuilder
panicless Version, WriteToFileFunction$1, arrayToPlainGo, baseConstruct, buildSexpFun, commaHelper, compareBool, compareChar, compareFloat, compareHash, compareInt, comparePointers
panicless compareRegisteredTypes, compareString, compareUint64, convertMonth, countSemicolons, dotGetSetHelper, errIfPrivate, errorCalling, errorGenerating, fillHashHelper, findRangeAssign, flattenCommas
panicless forBodyExpressions, getLine, hasRangeSymbol, hashHelper, infixBlockIsEmpty, init#2, init#4, joinElements, joinSymHelper, jsonEscape, jsonFloat, loopControlOpMunchRight$1
panicless lowerGoFor, lowerRangeFor, maybeSignedInf, noEncoding, numbersToGo, parsePrattOne, parseRangeTargets, prattCall, prattForControl, prattForList, processDumpCommand, rangeIndexArg
panicless regexpFindIndex, runScript, selectorIntBound, sliceBoundLiteralBeforeColon, soleElementKey, sortedTypeNames, splitColonTailSelectorSymbols, starOpMunchRight, stripAnyDotPrefix, toGoHelper, toGreenpackHelper, trimHelper
panicless withoutComments, withoutName, writeJsonArray, writeJsonString
