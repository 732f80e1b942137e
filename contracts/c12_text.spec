// C12: printed data reads back as the same data; literals denote exactly what is written.
props C12

// ---- the escape table of string and character literals, in both directions

func EscapeChar(char) (r, err)
  modifies nothing
  ensures n: char == 110 ==> err == nil && r == 10
  ensures r: char == 114 ==> err == nil && r == 13
  ensures a: char == 97 ==> err == nil && r == 7
  ensures t: char == 116 ==> err == nil && r == 9
  ensures b: char == 98 ==> err == nil && r == 8
  ensures f: char == 102 ==> err == nil && r == 12
  ensures v: char == 118 ==> err == nil && r == 11
  ensures itself: char == 92 || char == 34 || char == 39 || char == 35 ==> err == nil && r == char
  ensures others: err == nil ==> char == 110 || char == 114 || char == 97 || char == 116 || char == 98 || char == 102 || char == 118 || char == 92 || char == 34 || char == 39 || char == 35

// the value of a hex digit
pred hexdigit(r rune) = (48 <= r && r <= 57) || (97 <= r && r <= 102) || (65 <= r && r <= 70)

func (*Lexer).startHexEscape(lexer, r, back) (ok)
  requires lexer != nil
  ensures which: ok <==> r == 120 || r == 117 || r == 85
  ensures digits: (r == 120 ==> lexer.hexLeft == 2) && (r == 117 ==> lexer.hexLeft == 4) && (r == 85 ==> lexer.hexLeft == 8)
  ensures start: ok ==> lexer.hexValue == 0 && lexer.hexState == back && lexer.state == LexerHexEscaped
  ensures byte: ok ==> (lexer.hexByte <==> r == 120 && back == LexerStrLit)
  ensures no: !ok ==> lexer.state == old(lexer.state)

func (*Lexer).addHexEscapeDigit(lexer, r) (err)
  mode bv
  requires lexer != nil
  errprop
  ensures bad: !hexdigit(r) ==> err != nil
  ensures more: hexdigit(r) && old(lexer.hexLeft) > 1 ==> err == nil && lexer.hexLeft == old(lexer.hexLeft) - 1 && lexer.state == old(lexer.state)
  ensures last: hexdigit(r) && old(lexer.hexLeft) == 1 ==> lexer.state == old(lexer.hexState)
  ensures value: hexdigit(r) && 0 <= old(lexer.hexValue) && old(lexer.hexValue) < 16777216 ==> (48 <= r && r <= 57 ==> lexer.hexValue == 16 * old(lexer.hexValue) + r - 48) && (97 <= r ==> lexer.hexValue == 16 * old(lexer.hexValue) + r - 87) && (65 <= r && r <= 70 ==> lexer.hexValue == 16 * old(lexer.hexValue) + r - 55)
  ensures kept: lexer.hexState == old(lexer.hexState) && lexer.hexByte == old(lexer.hexByte)

func (*Lexer).inLiteral(lexer) (r)
  requires lexer != nil
  modifies nothing
  ensures which: r <==> lexer.state == LexerStrLit || lexer.state == LexerStrEscaped || lexer.state == LexerRuneLit || lexer.state == LexerRuneEscaped || lexer.state == LexerHexEscaped

// ---- tokens

func (*Lexer).Token(lex, typ, str) (t)
  modifies nothing
  ensures made: t.typ == typ && t.str == str

func (*Lexer).DecodeBrace(x, brace) (t)
  modifies nothing
  ensures which: (brace == 40 ==> t.typ == TokenLParen) && (brace == 41 ==> t.typ == TokenRParen) && (brace == 91 ==> t.typ == TokenLSquare) && (brace == 93 ==> t.typ == TokenRSquare) && (brace == 123 ==> t.typ == TokenLCurly) && (brace == 125 ==> t.typ == TokenRCurly)

func canStartSignedNumberAfter(r) (ok)
  modifies nothing
  ensures open: r == 0 || r == 32 || r == 9 || r == 10 || r == 13 || r == 40 || r == 91 || r == 123 || r == 44 || r == 58 ==> ok
  ensures word: (48 <= r && r <= 57) || (65 <= r && r <= 90) || (97 <= r && r <= 122) || r == 41 || r == 93 || r == 125 || r == 95 || r == 46 ==> !ok

func maybeSignedInf(atom) (r)
  modifies nothing

// what an atom is, in the order the notations are tried; the text of a number goes on unchanged
func (*Lexer).DecodeAtom(x, atom0) (tk, err)
  requires len(atom0) > 0
  modifies []rune
  errprop
  ensures whole: err == nil && (tk.typ == TokenBool || tk.typ == TokenUint64 || tk.typ == TokenDecimal) && atom0[len(atom0)-1] != 58 ==> tk.str == atom0
  ensures float: err == nil && tk.typ == TokenFloat && atom0[len(atom0)-1] != 58 ==> tk.str == atom0 || tk.str == "NaN"
  ensures based: err == nil && (tk.typ == TokenHex || tk.typ == TokenOct || tk.typ == TokenBinary) && atom0[len(atom0)-1] != 58 ==> tk.str == substr(atom0, 2, len(atom0))
  ensures symbol: err == nil && tk.typ == TokenSymbol && atom0[len(atom0)-1] != 58 ==> tk.str == atom0 || atom0 == "&"

// ---- printing

func (*SexpBool).SexpString(b, ps) (r)
  requires b != nil
  modifies nothing
  ensures true: b.Val ==> r == "true"
  ensures false: !b.Val ==> r == "false"

func (*SexpSymbol).SexpString(sym, ps) (r)
  requires sym != nil
  modifies nothing
  ensures name: r == sym.name

// ---- evaluation of what was read: atoms denote themselves

func (*Generator).generate(gen, expr) (err)
  requires gen != nil && gen.env != nil
  ensures atom: is(expr, *SexpInt) || is(expr, *SexpUint64) || is(expr, *SexpFloat) || is(expr, *SexpBool) || is(expr, *SexpStr) || is(expr, *SexpChar) || is(expr, *SexpSentinel) ==> err == nil && len(gen.instructions) == old(len(gen.instructions)) + 1 && is(gen.instructions[old(len(gen.instructions))], PushInstr) && as(gen.instructions[old(len(gen.instructions))], PushInstr).expr == expr

// ---- literals: the token at the head of the queue becomes the atom it spells

func (*Lexer).PeekNextToken(lexer, extra) (tok, err)
  requires lexer != nil && extra >= 0
  loop 1 invariant old(lexer.stream != nil && len(lexer.tokens) > 0) && extra == 0 ==> len(lexer.tokens) > 0 && lexer.tokens[0].typ == old(lexer.tokens[0].typ) && lexer.tokens[0].str == old(lexer.tokens[0].str)
  ensures queued: extra == 0 && old(lexer.stream != nil && len(lexer.tokens) > 0) ==> err == nil && tok.typ == old(lexer.tokens[0].typ) && tok.str == old(lexer.tokens[0].str) && len(lexer.tokens) > 0

func (*Lexer).GetNextToken(lexer) (tok, err)
  requires lexer != nil
  ensures queued: old(lexer.stream != nil && len(lexer.tokens) > 0) && old(lexer.tokens[0].typ) != TokenEnd ==> err == nil && tok.typ == old(lexer.tokens[0].typ) && tok.str == old(lexer.tokens[0].str)

pred atomNext(p *Parser, depth int, typ int) = depth > 0 && depth <= maxNesting && p.lexer.stream != nil && len(p.lexer.tokens) > 0 && p.lexer.tokens[0].typ == typ

func (*Parser).ParseExpression(parser, depth) (res, err)
  requires parser != nil && parser.lexer != nil && parser.env != nil
  loop 1 invariant lexer == old(parser.lexer)
  loop 1 invariant old(parser.lexer.stream != nil && len(parser.lexer.tokens) > 0 && parser.lexer.tokens[0].typ != TokenEnd) ==> lexer.stream != nil && len(lexer.tokens) > 0 && lexer.tokens[0].typ == old(parser.lexer.tokens[0].typ) && lexer.tokens[0].str == old(parser.lexer.tokens[0].str)
  ensures bool: old(atomNext(parser, depth, TokenBool)) ==> err == nil && is(res, *SexpBool) && (as(res, *SexpBool).Val <==> old(parser.lexer.tokens[0].str) == "true")
  ensures string: old(atomNext(parser, depth, TokenString)) ==> err == nil && is(res, *SexpStr) && as(res, *SexpStr).S == old(parser.lexer.tokens[0].str)
  ensures char: old(atomNext(parser, depth, TokenChar)) ==> err == nil && is(res, *SexpChar)
  ensures nil: old(atomNext(parser, depth, TokenSymbol)) && old(parser.lexer.tokens[0].str) == "nil" ==> err == nil && is(res, *SexpSentinel) && as(res, *SexpSentinel) == SexpNull
  ensures symbol: old(atomNext(parser, depth, TokenSymbol)) && old(parser.lexer.tokens[0].str) != "nil" && old(parser.lexer.tokens[0].str) != "-" && old(parser.lexer.tokens[0].str) != "+" ==> err == nil && is(res, *SexpSymbol)
  ensures int: old(atomNext(parser, depth, TokenDecimal) || atomNext(parser, depth, TokenHex) || atomNext(parser, depth, TokenOct) || atomNext(parser, depth, TokenBinary)) && err == nil ==> is(res, *SexpInt)
  ensures uint: old(atomNext(parser, depth, TokenUint64)) && err == nil ==> is(res, *SexpUint64)
  ensures float: old(atomNext(parser, depth, TokenFloat)) && err == nil ==> is(res, *SexpFloat)
  ensures decimal.value: old(atomNext(parser, depth, TokenDecimal)) && err == nil ==> as(res, *SexpInt).Val == extern(int64, strconv.ParseInt, extern(string, strings.ReplaceAll, old(parser.lexer.tokens[0].str), "_", ""), 10, 64)
  ensures hex.value: old(atomNext(parser, depth, TokenHex)) && err == nil ==> as(res, *SexpInt).Val == extern(int64, strconv.ParseInt, old(parser.lexer.tokens[0].str), 16, 64)
  ensures octal.value: old(atomNext(parser, depth, TokenOct)) && err == nil ==> as(res, *SexpInt).Val == extern(int64, strconv.ParseInt, old(parser.lexer.tokens[0].str), 8, 64)
  ensures binary.value: old(atomNext(parser, depth, TokenBinary)) && err == nil ==> as(res, *SexpInt).Val == extern(int64, strconv.ParseInt, old(parser.lexer.tokens[0].str), 2, 64)
