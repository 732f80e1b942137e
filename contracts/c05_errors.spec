// C05: an error a callee returns is never dropped. Every function of the package whose
// last result is an error returns a non-nil error on every path on which a
// call it made returned one, and no loop goes on past such a call.
props C05

sweep errprop except demo_go_structs_gen.go, demo_go_structs.go, bsave.go, liner.go, repl.go, cfg.go, gob.go

// bytes.Buffer's writers are documented to return a nil error always; a file
// that was only read is closed; standard output is not part of an evaluation.
nofail (*strings.Builder).Write, (*strings.Builder).WriteString, (*strings.Builder).WriteByte, (*strings.Builder).WriteRune, (*bytes.Buffer).WriteRune, (*bytes.Buffer).WriteString, (*bytes.Buffer).Write, (*os.File).Close, fmt.Print, fmt.Println, fmt.Printf

func errorGenerating(expr, err) (r)
  requires err != nil
  ensures error: r != nil

func errorCalling(name, err) (r)
  requires err != nil
  ensures error: r != nil

// The left-hand side decides which of the two meanings a list with = has.
func (*Generator).generate(gen, expr) (err)
  errprop except (*Generator).GetLHS

// The end of the text, not a failure.
func (*Lexer).PeekNextToken(lexer, extra) (tok, err)
  errprop except (io.RuneScanner).ReadRune

// The token discarded has been peeked at already.
func (*Parser).ParseArray(parser, depth) (r, err)
  errprop except (*Lexer).GetNextToken
func (*Parser).ParseInfix(parser, depth) (r, err)
  errprop except (*Lexer).GetNextToken
func (*Parser).ParseList(parser, depth, end) (r, err)
  errprop except (*Lexer).GetNextToken
func (*Parser).ParseExpression(parser, depth) (r, err)
  errprop except (*Lexer).GetNextToken

// Keys that cannot be compared are different keys.
func (*SexpHash).HashDelete(hash, key) (err)
  errprop except (*Zlisp).Compare
func (*SexpHash).HashGetDefault(hash, env, key, defaultval) (r, err)
  errprop except (*Zlisp).Compare
func (*SexpHash).HashSet(hash, key, val) (err)
  errprop except (*Zlisp).Compare, (*SexpHash).TypeCheckField
func SetHashKeyOrder(hash, keyOrd) (err)
  errprop except (*Zlisp).Compare

// This form's value is the error.
func ExpectErrorBuilder(env, name, args) (r, err)
  errprop except (*Zlisp).EvalExpressions

// The end of the tokens; every reader checks IsEOF.
nofail (*Pratt).Advance

// The keys come from the hash's own key list.
func (*RegisteredType).TypeCheckRecord(p, hash) (err)
  errprop except (*SexpHash).HashGet

// Popping nothing is not an error of this instruction.
func (PopInstr).Execute(p, env) (err)
  errprop except (*Stack).PopExpr

// A value without a Go struct has no methods.
func GoMethodListFunction(env, name, args) (r, err)
  errprop except (*SexpHash).SetMethodList

// The recursive definition being replaced may not exist.
func StructBuilder(env, name, args) (r, err)
  errprop except (*Stack).DeleteSymbolFromTopOfStackScope

// The end of the file.
func SlurpfileFunction(env, name, args) (r, err)
  errprop except (*bufio.Reader).ReadBytes

// The loop record pushed at the start.
func (*Generator).GenerateForLoop(gen, args) (err)
  errprop except (*Stack).Pop

// a number that fits no integer is a float
func numbersToGo(iface) (r, err)
  errprop except strconv.ParseInt, strconv.ParseUint
