From 2d5b4a21860408bc03ee49e18a0faa1b9fde1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 01/34] fix: compare integers without overflow and order NaN
 against int and char

Subtraction overflows near the 64-bit limits (and an unsigned difference is
never negative), so (< a b) was wrong there; an int or char compared with a
NaN float from the left was reported as equal.
---
 zygo/comparisons.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 12da425..93de75b 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -53,6 +53,17 @@ func signumInt(i int64) int {
 	return 0
 }
 
+// orderInt compares without subtracting: the difference can overflow.
+func orderInt(a, b int64) int {
+	if a > b {
+		return 1
+	}
+	if a < b {
+		return -1
+	}
+	return 0
+}
+
 func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
@@ -85,17 +96,20 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(i.Val - e.Val), nil
+		return orderInt(i.Val, e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(i.Val) - e.Val), nil
 	case *SexpChar:
-		return signumInt(i.Val - int64(e.Val)), nil
+		return orderInt(i.Val, int64(e.Val)), nil
 	case *SexpReflect:
 		r := reflect.Value(e.Val)
 		ifa := r.Interface()
 		switch z := ifa.(type) {
 		case *int64:
-			return signumInt(i.Val - *z), nil
+			return orderInt(i.Val, *z), nil
 		}
 		P("compareInt(): ifa = %v/%T", ifa, ifa)
 		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
@@ -110,8 +124,11 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(int64(c.Val) - e.Val), nil
+		return orderInt(int64(c.Val), e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(c.Val) - e.Val), nil
 	case *SexpChar:
 		return signumInt(int64(c.Val) - int64(e.Val)), nil
@@ -312,17 +329,18 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 func compareUint64(i *SexpUint64, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpUint64:
-		return signumUint64(i.Val - e.Val), nil
+		return orderUint64(i.Val, e.Val), nil
 	}
 	errmsg := fmt.Sprintf("err 101: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
 }
 
-func signumUint64(i uint64) int {
-	if i > 0 {
+// orderUint64 compares without subtracting: an unsigned difference is never negative.
+func orderUint64(a, b uint64) int {
+	if a > b {
 		return 1
 	}
-	if i < 0 {
+	if a < b {
 		return -1
 	}
 	return 0
-- 
2.43.0


From 49ebea770560c75b905e18f581d35927754d9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 02/34] verif: step hook in the VM run loop, behind build tag
 verif

---
 zygo/environment.go |  5 ++++-
 zygo/verif_off.go   |  7 +++++++
 zygo/verif_on.go    | 15 +++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)
 create mode 100644 zygo/verif_off.go
 create mode 100644 zygo/verif_on.go

diff --git a/zygo/environment.go b/zygo/environment.go
index f6f9d51..215518c 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -893,7 +893,10 @@ func (env *Zlisp) Run() (Sexp, error) {
 			fmt.Printf("\n ====== in '%s', now running the above.\n",
 				env.curfunc.name)
 		}
-		err := instr.Execute(env)
+		err := verifStep(env)
+		if err == nil {
+			err = instr.Execute(env)
+		}
 		if err != nil {
 			env.restoreControlState(runState)
 			env.pc = functionSize(env.curfunc)
diff --git a/zygo/verif_off.go b/zygo/verif_off.go
new file mode 100644
index 0000000..e5eaf06
--- /dev/null
+++ b/zygo/verif_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package zygo
+
+// verifStep is called before every instruction. It does nothing unless the
+// package is built with the verif tag.
+func verifStep(env *Zlisp) error { return nil }
diff --git a/zygo/verif_on.go b/zygo/verif_on.go
new file mode 100644
index 0000000..4752f79
--- /dev/null
+++ b/zygo/verif_on.go
@@ -0,0 +1,15 @@
+//go:build verif
+
+package zygo
+
+// VerifStepHook, when set, is called before every instruction; an error it
+// returns is handled as if the instruction had failed with it. It exists only
+// in builds with the verif tag, for step budgets and fault injection.
+var VerifStepHook func(env *Zlisp) error
+
+func verifStep(env *Zlisp) error {
+	if VerifStepHook == nil {
+		return nil
+	}
+	return VerifStepHook(env)
+}
-- 
2.43.0


From 5dfababdc21931b3df5abacfb46fb48538dc979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 03/34] fix: keep hash contents, key order and count consistent
 under delete and copy

Deleting left the key in KeyOrder, decremented the count for absent keys,
positional access then skipped or panicked, an emptied hash printed as '}',
copies shared buckets, and one element array keys were unwrapped by some
operations only.
---
 zygo/hashutils.go | 104 +++++++++++++++++++++++++++-------------------
 1 file changed, 61 insertions(+), 43 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b7ff70e..9f4b8bd 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -200,10 +200,6 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 			return hash.DotPathHashGet(env, sym)
 		}
 
-	case *SexpArray:
-		if len(sym.Val) == 1 {
-			key = sym.Val[0]
-		}
 	}
 
 	// this is kind of a hack
@@ -222,7 +218,17 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 	return val, nil
 }
 
+// soleElementKey lets single number keys work, as in h[6]: a one element
+// array used as a key stands for its element.
+func soleElementKey(key Sexp) Sexp {
+	if arr, isArray := key.(*SexpArray); isArray && len(arr.Val) == 1 {
+		return arr.Val[0]
+	}
+	return key
+}
+
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
+	key = soleElementKey(key)
 	hashval, err := HashExpression(env, key)
 	if err != nil {
 		return SexpNull, err
@@ -348,12 +354,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if _, isComment := val.(*SexpComment); isComment {
 		return fmt.Errorf("HashSet: val cannot be comment")
 	}
-	if arr, isArray := key.(*SexpArray); isArray {
-		na := len(arr.Val)
-		if na == 1 {
-			key = arr.Val[0] // let single number keys work: h[6]=10
-		}
-	}
+	key = soleElementKey(key)
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
@@ -380,8 +381,10 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	for i, pair := range arr {
 		res, err := hash.Env.Compare(pair.Head, key)
 		if err == nil && res == 0 {
-			arr[i] = Cons(key, val)
+			// keep the key object that KeyOrder holds.
+			arr[i] = Cons(pair.Head, val)
 			found = true
+			break
 		}
 	}
 
@@ -397,22 +400,24 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 }
 
 func (hash *SexpHash) HashDelete(key Sexp) error {
+	key = soleElementKey(key)
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
 	}
-	arr, ok := hash.Map[hashval]
 
 	// if it doesn't exist, no need to delete it
-	if !ok {
-		return nil
-	}
-
-	hash.NumKeys--
+	arr := hash.Map[hashval]
 	for i, pair := range arr {
 		res, err := hash.Env.Compare(pair.Head, key)
 		if err == nil && res == 0 {
-			hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
+			hash.removeFromKeyOrder(pair.Head)
+			hash.NumKeys--
+			if len(arr) == 1 {
+				delete(hash.Map, hashval)
+			} else {
+				hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
+			}
 			break
 		}
 	}
@@ -420,6 +425,16 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 	return nil
 }
 
+// removeFromKeyOrder drops key, which must be the very object stored there.
+func (hash *SexpHash) removeFromKeyOrder(key Sexp) {
+	for k := range hash.KeyOrder {
+		if hash.KeyOrder[k] == key {
+			hash.KeyOrder = append(hash.KeyOrder[:k], hash.KeyOrder[k+1:]...)
+			return
+		}
+	}
+}
+
 func HashCountKeys(hash *SexpHash) int {
 	var num int
 	for _, arr := range hash.Map {
@@ -440,43 +455,45 @@ func HashIsEmpty(hash *SexpHash) bool {
 	return true
 }
 
+// SetHashKeyOrder puts the keys listed in keyOrd first, in that order; listed
+// keys that the hash does not hold are ignored, and keys that are not listed
+// follow in their present order.
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
-	// truncate down to zero, then build back up correctly.
-	hash.KeyOrder = hash.KeyOrder[:0]
-
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
 		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
 	}
+	rest := append([]Sexp{}, hash.KeyOrder...)
+	ordered := make([]Sexp, 0, len(rest))
 	for _, key := range keys.Val {
-		hash.KeyOrder = append(hash.KeyOrder, key)
+		for k, have := range rest {
+			res, err := hash.Env.Compare(have, key)
+			if err == nil && res == 0 {
+				ordered = append(ordered, have)
+				rest = append(rest[:k], rest[k+1:]...)
+				break
+			}
+		}
 	}
+	hash.KeyOrder = append(ordered, rest...)
 
 	return nil
 }
 
 func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
-	nk := hash.NumKeys
-	if pos > nk {
+	nk := len(hash.KeyOrder)
+	if pos < 0 || pos >= nk {
 		return &SexpPair{}, fmt.Errorf("hpair error: pos %d is beyond our key count %d",
 			pos, nk)
 	}
-	lenKeyOrder := len(hash.KeyOrder)
-	var err error
-	var key, val Sexp
-	found := false
-	for k := pos; k < lenKeyOrder; k++ {
-		key = hash.KeyOrder[k]
-		val, err = hash.HashGet(nil, key)
-
-		if err == nil {
-			found = true
-			break
-		}
-		// what about deleted keys? just skip to the next!
+	key := hash.KeyOrder[pos]
+	// not HashGet, which would take a dotted symbol for a path.
+	val, err := hash.HashGetDefault(nil, key, SexpEnd)
+	if err != nil {
+		return &SexpPair{}, err
 	}
-	if !found {
-		panic(fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, lenKeyOrder))
+	if val == SexpEnd {
+		return &SexpPair{}, fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, nk)
 	}
 
 	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
@@ -923,12 +940,12 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 		}
 	}
 	if displayHashInCurly {
-		if len(hash.Map) > 0 {
+		if onKey > 0 {
 			return str[:len(str)-1] + prettyEnd + origIndInner + "}"
 		}
 		return str + prettyEnd + origIndInner + "}"
 	}
-	if len(hash.Map) > 0 {
+	if onKey > 0 {
 		return str[:len(str)-1] + ")" + prettyEnd
 	}
 	return str + ")" + prettyEnd
@@ -958,7 +975,8 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
-		cp[k] = v
+		// a bucket is updated in place, so it cannot be shared.
+		cp[k] = append([]*SexpPair{}, v...)
 	}
 	return &cp
 }
@@ -970,7 +988,7 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.TypeName = src.TypeName
 	p.Map = *(src.CopyMap())
 
-	p.KeyOrder = src.KeyOrder
+	p.KeyOrder = append([]Sexp{}, src.KeyOrder...)
 	p.GoStructFactory = src.GoStructFactory
 	p.NumKeys = src.NumKeys
 	p.GoMethods = src.GoMethods
-- 
2.43.0


From a67cc0fc791c7bb43b0632f1a242db9c0168ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 04/34] fix: read every text to its end, independently of
 chunking and of earlier input

---
 zygo/environment.go |   8 +--
 zygo/functions.go   |   3 +-
 zygo/lexer.go       | 122 ++++++++++++++++++++++++++++++--
 zygo/parser.go      | 166 ++++++++++++++++++++++++++------------------
 zygo/source.go      |   2 +-
 5 files changed, 221 insertions(+), 80 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 215518c..d01f550 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -680,23 +680,21 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer in.Close()
 
 	var exp []Sexp
 
-	env.parser.Reset()
-	env.parser.NewInput(bufio.NewReader(in))
+	env.parser.ResetAddText(bufio.NewReader(in))
 	exp, err = env.parser.ParseTokens()
 	if err != nil {
 		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
 	}
 
-	in.Close()
-
 	return exp, nil
 }
 
 func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
-	env.parser.ResetAddNewInput(stream)
+	env.parser.ResetAddText(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
 		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
diff --git a/zygo/functions.go b/zygo/functions.go
index a79173c..a9fc1d0 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -662,7 +662,8 @@ func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
 	default:
 		return SexpNull, WrongType
 	}
-	env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(str)))
+	sx = SexpNull
+	env.parser.ResetAddText(bytes.NewBuffer([]byte(str)))
 	//exp, err := env.parser.ParseExpression(0)
 	// have to use the iter interface...once.
 	for reply := range env.parser.ParsingIter() {
diff --git a/zygo/lexer.go b/zygo/lexer.go
index 58419cd..9a30b70 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -128,6 +128,7 @@ const (
 	LexerBuiltinOperator
 	LexerRuneLit
 	LexerRuneEscaped
+	LexerHexEscaped // in the digits of \xHH, \uHHHH or \UHHHHHHHH
 )
 
 type Lexer struct {
@@ -144,6 +145,13 @@ type Lexer struct {
 	next           []io.RuneScanner
 	linenum        int
 
+	// LexerHexEscaped: digits still to come, value so far, whether it is
+	// one byte (\xHH in a string), and the state to return to.
+	hexLeft  int
+	hexValue rune
+	hexByte  bool
+	hexState LexerState
+
 	priori    int
 	priorRune [20]rune
 }
@@ -179,6 +187,12 @@ func canStartSignedNumberAfter(r rune) bool {
 	}
 }
 
+// maybeSignedInf is true of an atom that begins like +Inf, -Inf, +inf or -inf.
+func maybeSignedInf(atom string) bool {
+	return len(atom) > 1 && (atom[0] == '-' || atom[0] == '+') &&
+		(atom[1] == 'I' || atom[1] == 'i')
+}
+
 func NewLexer(p *Parser) *Lexer {
 	return &Lexer{
 		parser:  p,
@@ -194,11 +208,22 @@ func (lexer *Lexer) Linenum() int {
 }
 
 func (lex *Lexer) Reset() {
+	// nothing read before the reset may influence how later text is read.
 	lex.stream = nil
+	lex.next = nil
 	lex.tokens = lex.tokens[:0]
 	lex.state = LexerNormal
 	lex.linenum = 1
+	lex.prevrune = 0
+	lex.hexLeft = 0
+	lex.hexValue = 0
+	lex.hexByte = false
+	lex.hexState = LexerNormal
 	lex.preBuiltinRune = 0
+	lex.prevToken = Token{}
+	lex.prevPrevToken = Token{}
+	lex.priori = 0
+	lex.priorRune = [20]rune{}
 	lex.buffer.Reset()
 }
 
@@ -277,6 +302,12 @@ func EscapeChar(char rune) (rune, error) {
 		return '\a', nil
 	case 't':
 		return '\t', nil
+	case 'b':
+		return '\b', nil
+	case 'f':
+		return '\f', nil
+	case 'v':
+		return '\v', nil
 	case '\\':
 		return '\\', nil
 	case '"':
@@ -289,6 +320,54 @@ func EscapeChar(char rune) (rune, error) {
 	return ' ', errors.New("invalid escape sequence")
 }
 
+// startHexEscape begins a \xHH, \uHHHH or \UHHHHHHHH escape, the forms that
+// strconv.Quote uses to print what is not printable.
+func (lexer *Lexer) startHexEscape(r rune, back LexerState) bool {
+	switch r {
+	case 'x':
+		lexer.hexLeft = 2
+	case 'u':
+		lexer.hexLeft = 4
+	case 'U':
+		lexer.hexLeft = 8
+	default:
+		return false
+	}
+	lexer.hexValue = 0
+	lexer.hexByte = r == 'x' && back == LexerStrLit
+	lexer.hexState = back
+	lexer.state = LexerHexEscaped
+	return true
+}
+
+func (lexer *Lexer) addHexEscapeDigit(r rune) error {
+	var d rune
+	switch {
+	case r >= '0' && r <= '9':
+		d = r - '0'
+	case r >= 'a' && r <= 'f':
+		d = r - 'a' + 10
+	case r >= 'A' && r <= 'F':
+		d = r - 'A' + 10
+	default:
+		return errors.New("invalid escape sequence")
+	}
+	lexer.hexValue = lexer.hexValue<<4 | d
+	lexer.hexLeft--
+	if lexer.hexLeft > 0 {
+		return nil
+	}
+	lexer.state = lexer.hexState
+	if lexer.hexByte {
+		return lexer.buffer.WriteByte(byte(lexer.hexValue))
+	}
+	if !utf8.ValidRune(lexer.hexValue) {
+		return errors.New("invalid escape sequence")
+	}
+	_, err := lexer.buffer.WriteRune(lexer.hexValue)
+	return err
+}
+
 func DecodeChar(atom string) (string, error) {
 	runes := StringToRunes(atom)
 	n := len(runes)
@@ -385,7 +464,13 @@ func (lexer *Lexer) dumpBuffer() error {
 		return nil
 	}
 
-	tok, err := lexer.DecodeAtom(lexer.buffer.String())
+	atom := lexer.buffer.String()
+	if maybeSignedInf(atom) && !InfRegex.MatchString(atom) {
+		// not -Inf or +Inf after all, but a sign in front of a symbol.
+		lexer.AppendToken(lexer.Token(TokenSymbol, atom[:1]))
+		atom = atom[1:]
+	}
+	tok, err := lexer.DecodeAtom(atom)
 	if err != nil {
 		return err
 	}
@@ -435,6 +520,15 @@ func (x *Lexer) DecodeBrace(brace rune) Token {
 	return EndTk
 }
 
+// inLiteral is true while a string or character literal is unfinished.
+func (lexer *Lexer) inLiteral() bool {
+	switch lexer.state {
+	case LexerStrLit, LexerStrEscaped, LexerRuneLit, LexerRuneEscaped, LexerHexEscaped:
+		return true
+	}
+	return false
+}
+
 func (lexer *Lexer) LexNextRune(r rune) error {
 
 	// a little look-back ring. To help with scientific
@@ -543,6 +637,9 @@ top:
 		return nil
 
 	case LexerStrEscaped:
+		if lexer.startHexEscape(r, LexerStrLit) {
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -559,14 +656,19 @@ top:
 		if r == '\'' {
 			// closing single quote
 			lexer.buffer.WriteRune(r)
-			lexer.dumpBuffer()
 			lexer.state = LexerNormal
-			return nil
+			return lexer.dumpBuffer()
 		}
 		lexer.buffer.WriteRune(r)
 		return nil
 
+	case LexerHexEscaped:
+		return lexer.addHexEscapeDigit(r)
+
 	case LexerRuneEscaped:
+		if lexer.startHexEscape(r, LexerRuneLit) {
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -578,12 +680,12 @@ top:
 	case LexerUnquote:
 		if r == '@' {
 			lexer.AppendToken(lexer.Token(TokenTildeAt, ""))
-		} else {
-			lexer.AppendToken(lexer.Token(TokenTilde, ""))
-			lexer.buffer.WriteRune(r)
+			lexer.state = LexerNormal
+			return nil
 		}
+		lexer.AppendToken(lexer.Token(TokenTilde, ""))
 		lexer.state = LexerNormal
-		return nil
+		goto top // process r in Normal mode, as it may start any expression
 	case LexerFreshAssignOrColon:
 		lexer.state = LexerNormal
 
@@ -645,6 +747,12 @@ top:
 			}
 		}
 
+		// could be -Inf or +Inf; dumpBuffer decides once the atom is complete.
+		if maybeSignedInf(atom) && canStartSignedNumberAfter(lexer.preBuiltinRune) {
+			_, err := lexer.buffer.WriteString(atom)
+			return err
+		}
+
 		if BuiltinOpRegex.MatchString(atom) {
 			//Q("2 rune atom in builtin op '%s', first='%s'", atom, first)
 			// 2 rune op
diff --git a/zygo/parser.go b/zygo/parser.go
index b0b590d..6fcbb4e 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 var NaN float64
@@ -27,6 +28,9 @@ type Parser struct {
 
 	inBacktick bool
 	recur      int64
+
+	// the next expression is an operator if it is + or -, even if Inf follows.
+	atOperator bool
 }
 
 type ParserReply struct {
@@ -66,6 +70,9 @@ func (p *Parser) Reset() {
 	}
 	p.sendMe = &ParserReply{}
 	p.yield = nil
+	p.inBacktick = false
+	p.atOperator = false
+	p.recur = 0
 	p.lexer.Reset()
 }
 
@@ -91,10 +98,40 @@ func (p *Parser) ResetAddNewInput(s io.RuneScanner) {
 	}
 	p.yield = nil
 	p.sendMe = &ParserReply{}
+	p.inBacktick = false
+	p.atOperator = false
+	p.recur = 0
 	p.lexer.Reset()
 	p.lexer.AddNextStream(s)
 }
 
+// ResetAddText is ResetAddNewInput for a complete text: the end of s ends the
+// last token, which would otherwise wait for the delimiter that follows it.
+func (p *Parser) ResetAddText(s io.RuneScanner) {
+	p.ResetAddNewInput(s)
+	p.NewInput(strings.NewReader("\n"))
+}
+
+// askForMore pauses the parser until more input is available. It returns
+// ParserHaltRequested when nobody is going to provide any.
+func (p *Parser) askForMore() error {
+	p.sendMe.Err = ErrMoreInputNeeded
+	if !p.yield(p.sendMe) {
+		return ParserHaltRequested
+	}
+	return nil
+}
+
+// peekTokenAt returns the i-th token not yet consumed, asking for more input
+// until it is available.
+func (p *Parser) peekTokenAt(i int) (tok Token, err error) {
+	_, err = p.ParserPeekNextToken(i)
+	if err != nil {
+		return EndTk, err
+	}
+	return p.lexer.tokens[i], nil
+}
+
 var UnexpectedEnd error = errors.New("Unexpected end of input")
 
 const SliceDefaultCap = 10
@@ -121,10 +158,8 @@ tokFilled:
 			break tokFilled
 		}
 		// instead of returning UnexpectedEnd, we:
-		parser.sendMe.Err = ErrMoreInputNeeded
-		ok := parser.yield(parser.sendMe)
-		if !ok {
-			return SexpEnd, nil
+		if err = parser.askForMore(); err != nil {
+			return SexpNull, err
 		}
 		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
@@ -147,7 +182,7 @@ tokFilled:
 
 	start.Head = expr
 
-	tok, err = lexer.PeekNextToken(0)
+	tok, err = parser.ParserPeekNextToken(0)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -162,6 +197,10 @@ tokFilled:
 		}
 
 		// eat up the end paren
+		_, err = parser.ParserPeekNextToken(0)
+		if err != nil {
+			return SexpNull, err
+		}
 		tok, err = lexer.GetNextToken()
 		if err != nil {
 			return SexpNull, err
@@ -211,10 +250,8 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 			} else {
 				//instead of return SexpEnd, UnexpectedEnd
 				// we ask for more, and then loop
-				parser.sendMe.Err = ErrMoreInputNeeded
-				ok := parser.yield(parser.sendMe)
-				if !ok {
-					return SexpEnd, nil
+				if err = parser.askForMore(); err != nil {
+					return SexpNull, err
 				}
 			}
 		}
@@ -250,14 +287,30 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	lexer := parser.lexer
 	env := parser.env
 
-	//getAnother:
-	tok, err := lexer.GetNextToken()
-	if err != nil {
-		return SexpEnd, err
+	atOperator := parser.atOperator || depth == 0
+	parser.atOperator = false
+
+	var tok Token
+	for {
+		tok, err = lexer.GetNextToken()
+		if err != nil {
+			return SexpEnd, err
+		}
+		if tok.typ != TokenEnd {
+			break
+		}
+		// the input is complete only between top level expressions.
+		if depth == 0 && !lexer.inLiteral() {
+			return SexpEnd, nil
+		}
+		if err = parser.askForMore(); err != nil {
+			return SexpEnd, err
+		}
 	}
 
 	switch tok.typ {
 	case TokenLParen:
+		parser.atOperator = true
 		exp, err := parser.ParseList(depth+1, TokenRParen)
 		return exp, err
 	case TokenLSquare:
@@ -265,46 +318,29 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		return exp, err
 	case TokenLCurly:
 		// allow `{ symbol: ` to initiate a `(hash symbol:` so we can parse JSON type {} hashmaps.
-		tok2, err := parser.ParserPeekNextToken(0)
+		tok2, err := parser.peekTokenAt(0)
 		if err != nil {
 			return SexpNull, err
 		}
 
+		// extra is the index of the token that follows tok2.
 		extra := 1
 		// skip past comments
-		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment {
-			if tok2.typ == TokenBeginBlockComment {
-				_, err = parser.ParserPeekNextToken(extra + 2)
-				if err != nil {
-					return SexpNull, err
-				}
-				// to discern the pattern:
-				//tok2 = lexer.tokens[extra]    // TokenComment
-				//tok3 := lexer.tokens[extra+1] // TokenEndBlockComment
-				//vv("tok2 = '%v' / '%#v' (extra=%v)", tok2.String(), tok2, extra)
-				//vv("tok3 = '%v' / '%#v'", tok3.String(), tok3)
-
-				tok2 = lexer.tokens[extra+2]
-				extra += 3
-			}
-			if tok2.typ == TokenComment {
-				_, err = parser.ParserPeekNextToken(extra)
-				if err != nil {
-					return SexpNull, err
-				}
-				//vv("tok2 = '%v' / '%#v'", tok2.String(), tok2)
-				tok2 = lexer.tokens[extra]
-				extra++
+		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment ||
+			tok2.typ == TokenEndBlockComment {
+			tok2, err = parser.peekTokenAt(extra)
+			if err != nil {
+				return SexpNull, err
 			}
+			extra++
 		}
 
 		switch tok2.typ {
 		case TokenSymbolColon:
-			_, err = parser.ParserPeekNextToken(extra)
+			second, err := parser.peekTokenAt(extra)
 			if err != nil {
 				return SexpNull, err
 			}
-			second := lexer.tokens[extra]
 			if second.typ == TokenSymbol && second.str == "for" {
 				break
 			}
@@ -320,10 +356,12 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			return MakeHash(nil, "hash", env) // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra)
+			second, err := parser.peekTokenAt(extra)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { "name": value }, as in JSON?
-			second := lexer.tokens[extra]
 			if second.typ == TokenColonOperator {
 				//vv(`we see { "%v" : `, tok2.str)
 				lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
@@ -336,11 +374,13 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 
 		case TokenBeginBacktickString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra + 1)
+			third, err := parser.peekTokenAt(extra + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { `name`: value }, as in JSON but with backtick quoted string this time?
 			second := lexer.tokens[extra]
-			third := lexer.tokens[extra+1]
 
 			// if second is the keyname and third is ':', then create anonymous hash, like JSON.
 			if second.typ == TokenBacktickString && third.typ == TokenColonOperator {
@@ -437,7 +477,8 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return &SexpInt{Val: i}, nil
 	case TokenChar:
-		return &SexpChar{Val: rune(tok.str[0])}, nil
+		char, _ := utf8.DecodeRuneInString(tok.str)
+		return &SexpChar{Val: char}, nil
 	case TokenString:
 		return &SexpStr{S: tok.str}, nil
 	case TokenBeginBacktickString:
@@ -462,11 +503,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return r, nil
 
-	case TokenEnd:
-		return SexpEnd, nil
 	case TokenSymbol:
-		if tok.str == "-" || tok.str == "+" {
-			// are we -Inf ?
+		if !atOperator && (tok.str == "-" || tok.str == "+") {
+			// are we - Inf ? (the lexer takes care of -Inf)
 			tok2, err := parser.ParserPeekNextToken(0)
 			if err != nil {
 				return SexpEnd, err
@@ -568,6 +607,9 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		const depth0 int = 0
 		for {
 			expr, err = p.ParseExpression(depth0)
+			if err == ParserHaltRequested {
+				return
+			}
 			if err != nil || expr == SexpEnd {
 				p.sendMe.Err = err
 				yield(p.sendMe)
@@ -602,10 +644,8 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 			if tok.typ != TokenEnd {
 				break tokFilled
 			}
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				return SexpEnd, nil
+			if err = parser.askForMore(); err != nil {
+				return SexpNull, err
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -627,7 +667,7 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 		case TokenComment:
 			block.Comment += tok.str
 		default:
-			panic("internal error: inside a block comment, we should only see TokenComment and TokenEndBlockComment tokens")
+			return SexpNull, fmt.Errorf("internal error: inside a block comment, we should only see TokenComment and TokenEndBlockComment tokens")
 		}
 	}
 	//return block, nil
@@ -647,10 +687,8 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 			if tok.typ != TokenEnd {
 				break tokFilled
 			}
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				return SexpEnd, nil
+			if err = parser.askForMore(); err != nil {
+				return SexpNull, err
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -666,7 +704,7 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 		case TokenBacktickString:
 			return &SexpStr{S: tok.str, backtick: true}, nil
 		default:
-			panic("internal error: inside a backtick string, we should only see TokenBacktickString token")
+			return SexpNull, fmt.Errorf("internal error: inside a backtick string, we should only see TokenBacktickString token")
 		}
 	}
 }
@@ -692,10 +730,8 @@ func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 			} else {
 				//instead of return SexpEnd, UnexpectedEnd
 				// we ask for more, and then loop
-				parser.sendMe.Err = ErrMoreInputNeeded
-				ok := parser.yield(parser.sendMe)
-				if !ok {
-					return SexpEnd, nil
+				if err = parser.askForMore(); err != nil {
+					return SexpNull, err
 				}
 			}
 		}
@@ -707,6 +743,7 @@ func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 		}
 
 		//Q("debug: ParseInfix(depth=%v) calling ParseExpression", depth)
+		parser.atOperator = true
 		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
@@ -745,10 +782,7 @@ func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 			//instead of return SexpEnd, UnexpectedEnd
 			// we ask for more, and then loop
 
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				err = ParserHaltRequested
+			if err = parser.askForMore(); err != nil {
 				return
 			}
 			// otherwise, loop
diff --git a/zygo/source.go b/zygo/source.go
index f1a9a2b..810ccb3 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -81,7 +81,7 @@ func (env *Zlisp) SourceExpressions(expressions []Sexp) error {
 }
 
 func (env *Zlisp) SourceStream(stream io.RuneScanner) error {
-	env.parser.ResetAddNewInput(stream)
+	env.parser.ResetAddText(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
 		return errors.New(fmt.Sprintf(
-- 
2.43.0


From 9da4aba67c0e52ebdac915cf39ef4a293f9a5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 05/34] fix: bind the variables of range loops afresh, whatever
 the types of the keys and values

---
 zygo/scopes.go | 10 ++++++++++
 zygo/vm.go     |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8bd062a..ac4dacc 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -248,6 +248,16 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	return nil
 }
 
+// DefineSymbol makes a new binding in the innermost scope, whatever the type of
+// the value that the symbol may be bound to already.
+func (stack *Stack) DefineSymbol(sym *SexpSymbol, expr Sexp) error {
+	if stack.IsEmpty() {
+		return errors.New("no scope available")
+	}
+	stack.elements[stack.tos].(*Scope).Map[sym.number] = expr
+	return nil
+}
+
 func (stack *Stack) DeleteSymbolFromTopOfStackScope(sym *SexpSymbol) error {
 	if stack.IsEmpty() {
 		panic("empty stack!!")
diff --git a/zygo/vm.go b/zygo/vm.go
index 9cd6543..63c455a 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -550,7 +550,12 @@ func (b BindlistInstr) Execute(env *Zlisp) error {
 	}
 
 	for i, bindThisSym := range b.syms {
-		env.LexicalBindSymbol(bindThisSym, arr[i])
+		// each mdef makes new variables: a loop over a hash meets keys and
+		// values of several types.
+		err = env.linearstack.DefineSymbol(bindThisSym, arr[i])
+		if err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return nil
-- 
2.43.0


From a6cc789f87ecdd279e37ab9393666af766f18406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 06/34] fix: make a new interpreter independent of map order
 and of types scripts declared in earlier interpreters

---
 zygo/environment.go | 11 ++++++++++-
 zygo/gotypereg.go   | 22 ++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index d01f550..c0e503b 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"runtime"
 	"strconv"
 )
@@ -118,7 +119,15 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
-	for key, function := range funcs {
+	// in a fixed order, so that symbol numbers (and with them the order of
+	// symbols) are the same in every run.
+	names := make([]string, 0, len(funcs))
+	for key := range funcs {
+		names = append(names, key)
+	}
+	sort.Strings(names)
+	for _, key := range names {
+		function := funcs[key]
 		sym := env.MakeSymbol(key)
 		env.builtins[sym.number] = MakeUserFunction(key, function)
 		env.AddFunction(key, function)
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e066119..a6acbe3 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"time"
 )
 
@@ -397,15 +398,32 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (env *Zlisp) ImportBaseTypes() {
-	for _, e := range GoStructRegistry.Builtin {
+	for _, name := range sortedTypeNames(GoStructRegistry.Builtin) {
+		e := GoStructRegistry.Builtin[name]
 		env.AddGlobal(e.RegisteredName, e)
 	}
 
-	for _, e := range GoStructRegistry.Userdef {
+	for _, name := range sortedTypeNames(GoStructRegistry.Userdef) {
+		e := GoStructRegistry.Userdef[name]
+		if !e.hasShadowStruct {
+			// declared (or just used) by a script running in some other
+			// interpreter: no business of this one, and it would
+			// hide builtin functions such as field and hash.
+			continue
+		}
 		env.AddGlobal(e.RegisteredName, e)
 	}
 }
 
+func sortedTypeNames(m map[string]*RegisteredType) []string {
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
 
 	var b *RegisteredType
-- 
2.43.0


From 4fa95cf77acd295ec0781775db204b755d777788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 07/34] fix: generated symbols never collide with interned
 names

---
 zygo/environment.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index c0e503b..5ab22a3 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -275,8 +275,13 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 }
 
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
-	symname := prefix + strconv.Itoa(env.nextsymbol)
-	return env.MakeSymbol(symname)
+	for i := env.nextsymbol; ; i++ {
+		symname := prefix + strconv.Itoa(i)
+		// scripts may have interned this very name already.
+		if _, exists := env.symtable[symname]; !exists {
+			return env.MakeSymbol(symname)
+		}
+	}
 }
 
 func (env *Zlisp) CurrentFunctionSize() int {
-- 
2.43.0


From ee6d404808aff00072efa90e1fe7e9726169c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 08/34] fix: follow dot paths through packages and hashes at
 any depth

---
 zygo/hashutils.go | 2 +-
 zygo/stack.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 9f4b8bd..e5429cf 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -860,7 +860,7 @@ func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp)
 			//P("\n found hash in h2 at i=%d, looping to next i\n", i)
 			askh = x
 		case *Stack:
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 			//		case *SexpReflect:
 			//			// at least allow reading, if we can.
 			//			P("hashutils DEBUG! SexpReflect value x is type: '%v', '%T'", x.Val.Type(), x.Val.Interface())
diff --git a/zygo/stack.go b/zygo/stack.go
index e011b9a..314fc35 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -272,7 +272,7 @@ func (s *Stack) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (S
 				return SexpNull, err
 			}
 			//P("\n found hash in x at i=%d, looping to next i\n", i)
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 		case *Stack:
 			curStack = x
 		default:
-- 
2.43.0


From 4ba1fb9b87b8580b3710a0e5cad251eba03cb6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:33 +0000
Subject: [PATCH 09/34] fix: read a dot path in the scope it is written in

---
 zygo/environment.go | 27 +++++++++++++++++++++++++++
 zygo/vm.go          |  2 +-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 5ab22a3..a762498 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -425,11 +425,28 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 		if err != nil {
 			return err
 		}
+		if sym, isSym := expr.(*SexpSymbol); isSym && sym.isDot && !takesPath(function, len(args)) {
+			val, err = env.SymbolValue(sym)
+			if err != nil {
+				if function != nil && function.user {
+					err = fmt.Errorf("Error calling '%s': %v", function.name, err)
+				}
+				return err
+			}
+		}
 		env.datastack.PushExpr(val)
 	}
 	return nil
 }
 
+// takesPath: (* a.b) and (derefSet a.b v) are given the path, not the value it denotes.
+func takesPath(function *SexpFunction, nargs int) bool {
+	if function == nil || !function.user {
+		return false
+	}
+	return function.name == "derefSet" || function.name == "*" && nargs == 1
+}
+
 func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error {
 	startingDataStackSize := env.datastack.Size()
 	prepare := func(function *SexpFunction) error {
@@ -1017,6 +1034,16 @@ func (env *Zlisp) ShowGlobalStack() error {
 	return err
 }
 
+// SymbolValue evaluates a symbol. A path like a.b is read at once, in the scope
+// it is written in; .a.b is a selector, which stands for itself.
+func (env *Zlisp) SymbolValue(sym *SexpSymbol) (Sexp, error) {
+	if sym.isDot && sym.name[0] != '.' {
+		return dotGetSetHelper(env, sym.name, nil)
+	}
+	val, err, _ := env.LexicalLookupSymbol(sym, nil)
+	return val, err
+}
+
 func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, error, *Scope) {
 
 	// DotSymbols, named-argument labels, and question sigils evaluate to themselves.
diff --git a/zygo/vm.go b/zygo/vm.go
index 63c455a..2556cc3 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -156,7 +156,7 @@ func (g EnvToStackInstr) Execute(env *Zlisp) error {
 	}
 	var expr Sexp
 	var err error
-	expr, err, _ = env.LexicalLookupSymbol(g.sym, nil)
+	expr, err = env.SymbolValue(g.sym)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2586c2e81b34090258d9c3f1ca5d2ba3ae8e149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 10/34] fix: an index expression used as an argument, an
 element or a condition stands for the element

---
 zygo/environment.go | 27 +++++++++++++++++++++++----
 zygo/functions.go   |  7 +++++++
 zygo/vm.go          |  4 ++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index a762498..6bca927 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -425,8 +425,14 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 		if err != nil {
 			return err
 		}
-		if sym, isSym := expr.(*SexpSymbol); isSym && sym.isDot && !takesPath(function, len(args)) {
-			val, err = env.SymbolValue(sym)
+		if !takesPath(function, len(args)) {
+			if sym, isSym := expr.(*SexpSymbol); isSym {
+				if sym.isDot {
+					val, err = env.SymbolValue(sym)
+				}
+			} else {
+				val, err = env.selected(val)
+			}
 			if err != nil {
 				if function != nil && function.user {
 					err = fmt.Errorf("Error calling '%s': %v", function.name, err)
@@ -439,12 +445,25 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 	return nil
 }
 
-// takesPath: (* a.b) and (derefSet a.b v) are given the path, not the value it denotes.
+// selected reads the element that an index expression such as arr[0] stands for.
+func (env *Zlisp) selected(val Sexp) (Sexp, error) {
+	switch val.(type) {
+	case *SexpArraySelector, *SexpHashSelector:
+		return env.RValue(val)
+	}
+	return val, nil
+}
+
+// takesPath: these are given the place that a.b or a[i] denotes, not the value found there.
 func takesPath(function *SexpFunction, nargs int) bool {
 	if function == nil || !function.user {
 		return false
 	}
-	return function.name == "derefSet" || function.name == "*" && nargs == 1
+	switch function.name {
+	case "derefSet", "=", ":=":
+		return true
+	}
+	return function.name == "*" && nargs == 1
 }
 
 func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error {
diff --git a/zygo/functions.go b/zygo/functions.go
index a9fc1d0..d998fa5 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -982,6 +982,13 @@ func ConstructorFunction(name string) ZlispUserFunction {
 	return func(env *Zlisp, _ string, args []Sexp) (Sexp, error) {
 		switch name {
 		case "array":
+			for i := range args {
+				val, err := env.selected(args[i])
+				if err != nil {
+					return SexpNull, err
+				}
+				args[i] = val
+			}
 			return env.NewSexpArray(args), nil
 		case "list":
 			return MakeList(args), nil
diff --git a/zygo/vm.go b/zygo/vm.go
index 2556cc3..9cf6072 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -66,6 +66,10 @@ func (b BranchInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	expr, err = env.selected(expr)
+	if err != nil {
+		return err
+	}
 	if b.direction == IsTruthy(expr) {
 		return JumpInstr{addpc: b.location}.Execute(env)
 	}
-- 
2.43.0


From f34540b8efe2a518f6f4a70818251203caa310a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 11/34] fix: every form leaves one value and every nested
 evaluation restores the interpreter

Empty bodies, comments, multiple assignments, builders and include left too
many or too few values on the datastack; errors inside and/or, templates and
builders were dropped at compile time; eval, source, apply and forcing did not
restore the control state; the main program grew with every evaluation.
---
 zygo/builders.go    |   7 +-
 zygo/closing.go     |  19 ++--
 zygo/environment.go |  80 ++++++++++------
 zygo/expressions.go |  42 ++-------
 zygo/func.go        |  22 ++---
 zygo/functions.go   |  46 +--------
 zygo/generator.go   | 220 +++++++++++++++++++++++++-------------------
 zygo/source.go      |  73 +++++----------
 zygo/vm.go          |  25 +++--
 9 files changed, 235 insertions(+), 299 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 478e95e..4960bb1 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -277,7 +277,6 @@ func StructBuilder(env *Zlisp, name string,
 
 	//Q("good: have struct name '%v'", symN)
 
-	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
 	{
@@ -723,7 +722,7 @@ func VarBuilder(env *Zlisp, name string,
 	case *RegisteredType:
 		rt = myrt
 	default:
-		return SexpNull, fmt.Errorf("bad var declaration, type '%v' is unknown", rt.SexpString(nil))
+		return SexpNull, fmt.Errorf("bad var declaration, type '%v' is unknown", ev.SexpString(nil))
 	}
 
 	val, err := rt.Factory(env, nil)
@@ -756,8 +755,6 @@ func VarBuilder(env *Zlisp, name string,
 	}
 	//Q("good: var decl bound symbol '%s' to '%s' of type '%s'", symN.SexpString(nil), valSexp.SexpString(nil), rt.SexpString(nil))
 
-	env.datastack.PushExpr(valSexp)
-
 	return SexpNull, nil
 }
 
@@ -798,7 +795,7 @@ func ExpectErrorBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func ColonAccessBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
-	if len(args) < 1 || len(args) > 3 {
+	if len(args) < 2 || len(args) > 3 {
 		return SexpNull, WrongNargs
 	}
 	////Q("ColonAccessBuilder, args = %#v", args)
diff --git a/zygo/closing.go b/zygo/closing.go
index 1a20a9a..7bdf5e9 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -8,22 +8,21 @@ type Closing struct {
 }
 
 func NewClosing(name string, env *Zlisp) *Closing {
-	stk := env.linearstack.Clone()
 	// Be strict: only store scopes from the current lexical function outward
 	// to the current top. Caller scopes below that function are dynamic state.
-	for i := stk.tos; i >= 0; i-- {
-		scop, ok := stk.elements[i].(*Scope)
+	live := env.linearstack
+	first := 0
+	for i := live.tos; i > 0; i-- {
+		scop, ok := live.elements[i].(*Scope)
 		if ok && scop.IsFunction {
-			if i > 0 {
-				trimmed := env.NewStack(stk.Size() - i)
-				for _, elem := range stk.elements[i : stk.tos+1] {
-					trimmed.Push(elem)
-				}
-				stk = trimmed
-			}
+			first = i
 			break
 		}
 	}
+	stk := env.NewStack(live.tos + 1 - first)
+	for _, elem := range live.elements[first : live.tos+1] {
+		stk.Push(elem)
+	}
 
 	return &Closing{
 		Stack: stk,
diff --git a/zygo/environment.go b/zygo/environment.go
index 6bca927..813ac9b 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -369,30 +369,53 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 		return val, err
 	}
 
+	return env.evalInPlace("callExprEval", []Sexp{expr})
+}
+
+// evalInPlace runs the expressions in the current scope, as part of the function
+// that is running, and returns the value of the last one.
+func (env *Zlisp) evalInPlace(name string, expressions []Sexp) (Sexp, error) {
 	gen := NewGenerator(env)
-	if err := gen.Generate(expr); err != nil {
+	if err := gen.GenerateBegin(expressions); err != nil {
 		return SexpNull, err
 	}
-	if len(gen.instructions) == 0 {
-		return SexpNull, nil
-	}
 	gen.AddInstruction(ReturnInstr{nil})
 
 	callState := env.captureControlState()
-	sfun := env.MakeFunction("callExprEval", 0, false, ZlispFunction(gen.instructions), expr)
-	sfun.parent = callState.curfunc
+	sfun := env.MakeFunction(name, 0, false, ZlispFunction(gen.instructions), MakeList(expressions))
+	sfun.parent = env.runningFunction()
+	return env.callToEnd(callState, sfun, 0)
+}
 
+// runningFunction is the function whose code is running; that of the caller
+// while a builtin runs.
+func (env *Zlisp) runningFunction() *SexpFunction {
+	function := env.curfunc
+	for i := 0; function != nil && function.user; i++ {
+		elem, err := env.addrstack.Get(i)
+		if err != nil {
+			return env.mainfunc
+		}
+		function = elem.(Address).function
+	}
+	return function
+}
+
+// callToEnd runs function on the nargs arguments on top of the datastack until
+// it returns. Whether it succeeds or fails, the interpreter is then back in the
+// given state.
+func (env *Zlisp) callToEnd(state vmControlState, function *SexpFunction, nargs int) (Sexp, error) {
+	var res Sexp = SexpNull
+	// the return address becomes -1, where Run stops.
 	env.pc = -2
-	if err := env.CallFunction(sfun, 0); err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
+	err := env.CallFunction(function, nargs)
+	if err == nil {
+		res, err = env.Run()
 	}
-	res, err := env.Run()
+	env.restoreControlState(state)
 	if err != nil {
-		env.restoreControlState(callState)
 		return SexpNull, err
 	}
-	env.restoreControlState(callState)
 	return res, nil
 }
 
@@ -711,13 +734,19 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 	expressions = env.FilterArray(expressions, RemoveEndsFilter)
 
 	gen := NewGenerator(env)
-	if !env.ReachedEnd() {
+	pending := !env.ReachedEnd()
+	if pending {
 		gen.AddInstruction(PopInstr(0))
 	}
 	err := gen.GenerateBegin(expressions)
 	if err != nil {
 		return err
 	}
+	if !pending && env.curfunc == env.mainfunc && env.addrstack.IsEmpty() {
+		// everything loaded before has run: its code is not needed any more.
+		env.mainfunc.fun = nil
+		env.pc = 0
+	}
 
 	env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
 	env.curfunc = env.mainfunc
@@ -753,6 +782,10 @@ func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 }
 
 func (env *Zlisp) EvalString(str string) (Sexp, error) {
+	if env.curfunc.user {
+		// called by a builtin, in the midst of an evaluation.
+		return env.SourceStream(bytes.NewBuffer([]byte(str)))
+	}
 	err := env.LoadString(str)
 	if err != nil {
 		return SexpNull, err
@@ -764,6 +797,9 @@ func (env *Zlisp) EvalString(str string) (Sexp, error) {
 // for most things now (except the main repl), prefer EvalFunction() instead of EvalExpressions.
 func (env *Zlisp) EvalExpressions(xs []Sexp) (Sexp, error) {
 	//P("inside EvalExpressions with env %p: xs[0] = %s", env, xs[0].SexpString(0))
+	if env.curfunc.user {
+		return EvalFunction(env, "eval", xs)
+	}
 	err := env.LoadExpressions(xs)
 	if err != nil {
 		return SexpNull, err
@@ -905,7 +941,6 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 	}
 
 	callState := env.captureControlState()
-	env.pc = -2
 	for i, expr := range args {
 		if fun.IsLazyCallArg(i) {
 			env.datastack.PushExpr(NewValueLazyArg(expr))
@@ -913,20 +948,7 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 		}
 		env.datastack.PushExpr(expr)
 	}
-
-	//VPrintf("\nApply Calling '%s'\n", fun.SexpString())
-	err := env.CallFunction(fun, len(args))
-	if err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
-	}
-
-	res, err := env.Run()
-	if err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
-	}
-	return res, nil
+	return env.callToEnd(callState, fun, len(args))
 }
 
 func (env *Zlisp) Run() (Sexp, error) {
@@ -979,7 +1001,7 @@ func (env *Zlisp) AddPostHook(fun PostHook) {
 // scan the instruction stream to locate loop start
 func (env *Zlisp) FindLoop(target *Loop) (int, error) {
 	if env.curfunc.user {
-		panic(fmt.Errorf("impossible in user-defined-function to find a loop '%s'", target.stmtname.name))
+		return -1, fmt.Errorf("impossible in user-defined-function to find a loop '%s'", target.stmtname.name)
 	}
 	instruc := env.curfunc.fun
 	for i := range instruc {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 48f3daa..d2e8b76 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -621,42 +621,25 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 		return lazy.Value, nil
 	}
 
+	// everything, also compiling, happens where the argument was written.
+	callState := env.captureControlState()
+	if lazy.Stack != nil {
+		env.linearstack = lazy.Stack.Clone()
+	}
 	gen := NewGenerator(env)
 	if err := gen.Generate(lazy.Expr); err != nil {
+		env.restoreControlState(callState)
 		return SexpNull, err
 	}
-	if len(gen.instructions) == 0 {
-		lazy.Value = SexpNull
-		lazy.Forced = true
-		return lazy.Value, nil
-	}
 	gen.AddInstruction(ReturnInstr{nil})
 
 	sfun := env.MakeFunction("lazyArgForce", 0, false, ZlispFunction(gen.instructions), lazy.Expr)
-	if lazy.Stack != nil {
-		sfun.SetClosing(&Closing{
-			Stack: lazy.Stack.Clone(),
-			Name:  "lazyArgForce",
-			env:   env,
-		})
-	}
 	sfun.parent = lazy.CurFunc
 
-	callState := env.captureControlState()
-	if lazy.Stack != nil {
-		env.linearstack = lazy.Stack.Clone()
-	}
-	env.pc = -2
-	if err := env.CallFunction(sfun, 0); err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
-	}
-	res, err := env.Run()
+	res, err := env.callToEnd(callState, sfun, 0)
 	if err != nil {
-		env.restoreControlState(callState)
 		return SexpNull, err
 	}
-	env.restoreControlState(callState)
 	lazy.Value = res
 	lazy.Forced = true
 	return res, nil
@@ -749,18 +732,7 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 }
 
 func (sf *SexpFunction) SetClosing(clos *Closing) {
-	ps4 := NewPrintStateWithIndent(4)
-	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-	_ = pre
-	panicOn(err)
-	newnew, err := sf.ShowClosing(clos.env, ps4, "newnew")
-	_ = newnew
-	panicOn(err)
-	//P("99999 for sfun = %p, in sfun.SetClosing(), prev value is %p = '%s'\n",
-	//	sf, sf.closingOverScopes, pre)
-	//P("88888 in sfun.SetClosing(), new  value is %p = '%s'\n", clos, newnew)
 	sf.closingOverScopes = clos
-	//P("in SetClosing() for '%s'/%p: my stack is: '%s'", sf.name, sf, clos.Stack.SexpString(nil))
 }
 
 func (sf *SexpFunction) ShowClosing(env *Zlisp, ps *PrintState, label string) (string, error) {
diff --git a/zygo/func.go b/zygo/func.go
index 2462754..223e5aa 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -126,8 +126,6 @@ func FuncBuilder(env *Zlisp, name string,
 	}
 	//Q("retHash = '%v'", retHash.SexpString(nil))
 
-	env.datastack.PushExpr(SexpNull)
-
 	//Q("FuncBuilder() about to call buildSexpFun")
 
 	// ===================================
@@ -186,14 +184,6 @@ func FuncBuilder(env *Zlisp, name string,
 		return MissingFunction, err
 	}
 
-	// minimal sanity check that we return the number of arguments
-	// on the stack that are declared
-	if len(body) == 0 {
-		for range retHash.KeyOrder {
-			gen.AddInstruction(PushInstr{expr: SexpNull})
-		}
-	}
-
 	gen.AddInstruction(RemoveScopeInstr{})
 	gen.AddInstruction(ReturnInstr{nil}) // nil is the error returned
 
@@ -210,11 +200,15 @@ func FuncBuilder(env *Zlisp, name string,
 
 	clos := CreateClosureInstr{sfun}
 	notePc := env.pc
-	clos.Execute(env)
-
-	invok, err := env.datastack.PopExpr()
-	panicOn(err) // we just pushed in the clos.Execute(), so this should always be err == nil
+	err = clos.Execute(env)
 	env.pc = notePc
+	if err != nil {
+		return SexpNull, err
+	}
+	invok, err := env.datastack.PopExpr()
+	if err != nil {
+		return SexpNull, err
+	}
 	err = env.LexicalBindSymbol(symN, invok)
 	if err != nil {
 		return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
diff --git a/zygo/functions.go b/zygo/functions.go
index d998fa5..68a81f0 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -703,51 +703,7 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	args = env.FilterArray(args, RemoveCommentsFilter)
 	args = env.FilterArray(args, RemoveEndsFilter)
 
-	startingDataStackSize := env.datastack.Size()
-
-	gen := NewGenerator(env)
-	err := gen.GenerateBegin(args)
-	if err != nil {
-		return SexpNull, err
-	}
-	if len(gen.instructions) == 0 {
-		return SexpNull, nil
-	}
-	gen.AddInstruction(ReturnInstr{nil})
-
-	newfunc := ZlispFunction(gen.instructions)
-	orig := &SexpArray{Val: args}
-	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
-
-	err = env.CallFunction(sfun, 0)
-	if err != nil {
-		return SexpNull, err
-	}
-
-	var resultSexp Sexp
-	resultSexp, err = env.Run()
-	if err != nil {
-		return SexpNull, err
-	}
-
-	// some sanity checks
-	if env.datastack.Size() > startingDataStackSize {
-		/*
-			xtra := env.datastack.Size() - startingDataStackSize
-			panic(fmt.Sprintf("we've left some extra stuff (xtra = %v) on the datastack "+
-				"during eval, don't be sloppy, fix it now! env.datastack.Size()=%v, startingDataStackSize = %v",
-				xtra, env.datastack.Size(), startingDataStackSize))
-			P("warning: truncating datastack back to startingDataStackSize %v", startingDataStackSize)
-		*/
-		env.datastack.TruncateToSize(startingDataStackSize)
-	}
-	if env.datastack.Size() < startingDataStackSize {
-		P("about panic, since env.datastack.Size() < startingDataStackSize, here is env dump:")
-		env.DumpEnvironment()
-		panic(fmt.Sprintf("we've shrunk the datastack during eval, don't be sloppy, fix it now! env.datastack.Size()=%v. startingDataStackSize=%v", env.datastack.Size(), startingDataStackSize))
-	}
-
-	return resultSexp, err
+	return env.evalInPlace("evalGeneratedFunction", args)
 }
 
 func TypeQueryFunction(name string) ZlispUserFunction {
diff --git a/zygo/generator.go b/zygo/generator.go
index cf5f7e5..c562303 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -53,31 +53,46 @@ func (gen *Generator) AddInstruction(instr Instruction) {
 	gen.instructions = append(gen.instructions, instr)
 }
 
+// GenerateBegin generates the expressions in order. Whatever they are, running
+// them leaves one value on the datastack: that of the last one, or nil if there
+// is none.
 func (gen *Generator) GenerateBegin(expressions []Sexp) error {
+	expressions = withoutComments(expressions)
 	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
 	if size == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
-		//return NoExpressionsFound
 	}
-	startInstructionCount := 0
 	for _, expr := range expressions[:size-1] {
-		startInstructionCount = len(gen.instructions)
-		err := gen.Generate(expr)
+		err := gen.GenerateValue(expr)
 		if err != nil {
 			return err
 		}
 		// insert pops after all but the last instruction
 		// that way the stack remains clean.
-		// Without the (conditional) pop here, we really mess up
-		// the closure.zy tests.
-		if len(gen.instructions) > startInstructionCount {
-			gen.AddInstruction(PopInstr(0))
+		gen.AddInstruction(PopInstr(0))
+	}
+	return gen.Generate(expressions[size-1])
+}
+
+func withoutComments(expressions []Sexp) []Sexp {
+	kept := make([]Sexp, 0, len(expressions))
+	for _, expr := range expressions {
+		if _, isComment := expr.(*SexpComment); !isComment {
+			kept = append(kept, expr)
 		}
 	}
+	return kept
+}
+
+// GenerateValue generates an expression whose value is still needed by the
+// code that follows it, so it is not in tail position.
+func (gen *Generator) GenerateValue(expr Sexp) error {
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.Generate(expr)
 	gen.Tail = oldtail
-	return gen.Generate(expressions[size-1])
+	return err
 }
 
 func buildSexpFun(
@@ -197,10 +212,11 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	var instr Instruction
 	switch args[0].(type) {
 	case *SexpPair:
+		// AssignInstr leaves the assigned value itself.
 		dup = false
 		Q("def sees assign to pair, using AssignInstr{}")
 		instr = AssignInstr{}
-		err := gen.Generate(args[0])
+		err := gen.GenerateValue(args[0])
 		if err != nil {
 			return err
 		}
@@ -220,8 +236,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[1])
+	err := gen.GenerateValue(args[1])
 	if err != nil {
 		return err
 	}
@@ -382,18 +397,28 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
+	args = withoutComments(args)
 	size := len(args)
+	if size == 0 {
+		return WrongNargs
+	}
 
 	subgen := gen.NewSubGenerator()
 	subgen.scopes = gen.scopes
 	subgen.Tail = gen.Tail
 	subgen.funcname = gen.funcname
-	subgen.Generate(args[size-1])
+	if err := subgen.Generate(args[size-1]); err != nil {
+		return err
+	}
 	instructions := subgen.instructions
 
 	for i := size - 2; i >= 0; i-- {
 		subgen = gen.NewSubGenerator()
-		subgen.Generate(args[i])
+		subgen.scopes = gen.scopes
+		subgen.funcname = gen.funcname
+		if err := subgen.Generate(args[i]); err != nil {
+			return err
+		}
 		subgen.AddInstruction(DupInstr(0))
 		subgen.AddInstruction(BranchInstr{or, len(instructions) + 2})
 		subgen.AddInstruction(PopInstr(0))
@@ -405,6 +430,7 @@ func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
 }
 
 func (gen *Generator) GenerateCond(args []Sexp) error {
+	args = withoutComments(args)
 	if len(args)%2 == 0 {
 		return fmt.Errorf("missing default case")
 	}
@@ -422,6 +448,8 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 	// we generate the cond bottom up, so i counts down.
 	for i := len(args)/2 - 1; i >= 0; i-- {
 		subgen.Reset()
+		subgen.scopes = gen.scopes
+		subgen.funcname = gen.funcname
 		err := subgen.Generate(args[2*i])
 		if err != nil {
 			return err
@@ -453,9 +481,10 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateQuote(args []Sexp) error {
-	for _, expr := range args {
-		gen.AddInstruction(PushInstr{expr})
+	if len(args) != 1 {
+		return WrongNargs
 	}
+	gen.AddInstruction(PushInstr{args[0]})
 	return nil
 }
 
@@ -494,7 +523,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 
 	if name == "letseq" {
 		for i, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.GenerateValue(rs)
 			if err != nil {
 				return err
 			}
@@ -502,7 +531,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.GenerateValue(rs)
 			if err != nil {
 				return err
 			}
@@ -525,7 +554,7 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
 	}
-	err := gen.Generate(args[0])
+	err := gen.GenerateValue(args[0])
 	if err != nil {
 		return err
 	}
@@ -543,7 +572,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		return WrongNargs
 	}
 
-	var err error
+	// everything included, in order; its value is that of the last expression.
 	var exps []Sexp
 
 	var sourceItem func(item Sexp) error
@@ -557,24 +586,22 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 				}
 			}
 		case *SexpPair:
-			expr := item
-			for expr != SexpNull {
-				list := expr.(*SexpPair)
-				if err := sourceItem(list.Head); err != nil {
+			items, err := ListToArray(t)
+			if err != nil {
+				return err
+			}
+			for _, v := range items {
+				if err := sourceItem(v); err != nil {
 					return err
 				}
-				expr = list.Tail
 			}
 		case *SexpStr:
-			exps, err = gen.env.ParseFile(t.S)
-			if err != nil {
-				return err
-			}
-
-			err = gen.GenerateBegin(exps)
+			more, err := gen.env.ParseFile(t.S)
 			if err != nil {
 				return err
 			}
+			more = gen.env.FilterArray(more, RemoveCommentsFilter)
+			exps = append(exps, gen.env.FilterArray(more, RemoveEndsFilter)...)
 
 		default:
 			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
@@ -584,13 +611,13 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	}
 
 	for _, v := range args {
-		err = sourceItem(v)
+		err := sourceItem(v)
 		if err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return gen.GenerateBegin(exps)
 }
 
 func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Sexp) error {
@@ -693,7 +720,9 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	for i := 0; i < n; i++ {
 		gen.AddInstruction(PushInstr{args[i]})
 	}
-	gen.Generate(fun)
+	if err := gen.GenerateValue(fun); err != nil {
+		return err
+	}
 	gen.AddInstruction(DispatchInstr{len(args)})
 	return nil
 }
@@ -761,7 +790,9 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 		return gen.GenerateCall(expr)
 	}
 	arr, err := ListToArray(expr)
-	panicOn(err) // internal error, should never happen since we prevalidate that we have a list.
+	if err != nil {
+		return err
+	}
 
 	if len(arr) <= 1 || assignPos == len(arr)-1 {
 		return fmt.Errorf("bad assignment syntax: no right-hand-side")
@@ -778,6 +809,10 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 	// of return value flow, rather than exact lhs to rhs count equality.
 
 	for i := range rhs {
+		if i > 0 {
+			// the value is that of the last assignment.
+			gen.AddInstruction(PopInstr(0))
+		}
 		err = gen.GenerateDef([]Sexp{lhs[i], rhs[i]}, "def")
 		if err != nil {
 			return err
@@ -787,7 +822,10 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 }
 
 func (gen *Generator) GenerateCall(expr *SexpPair) error {
-	arr, _ := ListToArray(expr.Tail)
+	arr, err := ListToArray(expr.Tail)
+	if err != nil {
+		return err
+	}
 	switch head := expr.Head.(type) {
 	case *SexpSymbol:
 		// detect builtin builder calls
@@ -810,19 +848,20 @@ func (gen *Generator) GenerateCall(expr *SexpPair) error {
 }
 
 func (gen *Generator) GenerateArray(arr *SexpArray) error {
-	err := gen.GenerateAll(arr.Val)
+	elements := withoutComments(arr.Val)
+	err := gen.GenerateAll(elements)
 	if err != nil {
 		return err
 	}
-	gen.AddInstruction(CallInstr{gen.env.MakeSymbol("array"), len(arr.Val)})
+	gen.AddInstruction(CallInstr{gen.env.MakeSymbol("array"), len(elements)})
 	return nil
 }
 
 func (gen *Generator) Generate(expr Sexp) error {
-	if _, isComment := expr.(*SexpComment); isComment {
-		return nil
-	}
 	switch e := expr.(type) {
+	case *SexpComment:
+		gen.AddInstruction(PushInstr{SexpNull})
+		return nil
 	case *SexpSymbol:
 		gen.AddInstruction(EnvToStackInstr{e})
 		return nil
@@ -864,7 +903,7 @@ func (gen *Generator) Generate(expr Sexp) error {
 
 func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	for _, expr := range expressions {
-		err := gen.Generate(expr)
+		err := gen.GenerateValue(expr)
 		if err != nil {
 			return err
 		}
@@ -1126,16 +1165,16 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		case *SexpPair:
 			// gracefully handle the quoted symbols we get from the range macro
 			unquotedSymbol, isQuo := isQuotedSymbol(sym)
-			if isQuo {
-				syms[i] = unquotedSymbol.(*SexpSymbol)
+			if !isQuo {
+				return fmt.Errorf("All mdef targets must be symbols, but %d-th was not: '%s'", i+1, sym.SexpString(nil))
 			}
+			syms[i] = unquotedSymbol.(*SexpSymbol)
 		default:
 			return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[lastpos])
+	err := gen.GenerateValue(args[lastpos])
 	if err != nil {
 		return err
 	}
@@ -1154,6 +1193,8 @@ func isQuotedSymbol(list *SexpPair) (unquotedSymbol Sexp, isQuo bool) {
 		if h.name != "quote" {
 			return SexpNull, false
 		}
+	default:
+		return SexpNull, false
 	}
 	// good, keep going to tail
 	t := list.Tail
@@ -1184,17 +1225,14 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	// in them too.
 	switch aaa := arg.(type) {
 	case *SexpArray:
-		gen.generateSyntaxQuoteArray(aaa)
-		return nil
+		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
 			break
 		}
-		gen.generateSyntaxQuoteList(arg)
-		return nil
+		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
-		gen.generateSyntaxQuoteHash(arg)
-		return nil
+		return gen.generateSyntaxQuoteHash(arg)
 	}
 	gen.AddInstruction(PushInstr{arg})
 	return nil
@@ -1216,7 +1254,10 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	// list of length 2 exactly, with first atom
 	// being "unquote" and second being the symbol
 	// to substitute.
-	quotebody, _ := ListToArray(arg)
+	quotebody, err := ListToArray(arg)
+	if err != nil {
+		return err
+	}
 	//Q("quotebody = '%#v'", quotebody)
 
 	if len(quotebody) == 2 {
@@ -1232,10 +1273,11 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.Generate(quotebody[1])
-				return nil
+				return gen.GenerateValue(quotebody[1])
 			} else if sym.name == "unquote-splicing" {
-				gen.Generate(quotebody[1])
+				if err := gen.GenerateValue(quotebody[1]); err != nil {
+					return err
+				}
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1245,7 +1287,9 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 	}
 
 	gen.AddInstruction(SquashInstr(0))
@@ -1268,7 +1312,9 @@ func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for _, expr := range arr.Val {
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1298,12 +1344,16 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		}
 		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{val})
+		if err := gen.GenerateSyntaxQuote([]Sexp{val}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{key})
+		if err := gen.GenerateSyntaxQuote([]Sexp{key}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1458,27 +1508,9 @@ scanUpTheLoops:
 
 // like begin, but puts its contents in a new scope
 func (gen *Generator) GenerateNewScope(expressions []Sexp) error {
-	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
-	if size == 0 {
-		return nil
-		//return NoExpressionsFound
-	}
-
 	gen.AddInstruction(AddScopeInstr{Name: "newScope"})
 	gen.scopes++
-	for _, expr := range expressions[:size-1] {
-		err := gen.Generate(expr)
-		if err != nil {
-			return err
-		}
-		// insert pops after all but the last instruction
-		// that way the stack remains clean... Q: how does this extra popping not mess up the expressions?
-		gen.AddInstruction(PopInstr(0))
-	}
-	gen.Tail = oldtail
-	err := gen.Generate(expressions[size-1])
+	err := gen.GenerateBegin(expressions)
 	if err != nil {
 		return err
 	}
@@ -1508,29 +1540,22 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	// to aim at when cleaning up.
 	symPkgName := gen.env.GenSymbol(pkgName)
 
-	oldtail := gen.Tail
-	gen.Tail = false
-
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
+	gen.scopes++
 	gen.AddInstruction(PushStackmarkInstr{sym: symPkgName})
 
-	if size > 1 {
-		for _, expr := range expressions[1 : size-1] {
-			err := gen.Generate(expr)
-			if err != nil {
-				return err
-			}
-		}
-	}
-
+	// the package is built once its body has run: nothing in it is a tail call.
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.GenerateBegin(expressions[1:])
 	gen.Tail = oldtail
-	err := gen.Generate(expressions[size-1])
 	if err != nil {
 		return err
 	}
 	gen.AddInstruction(PopUntilStackmarkInstr{sym: symPkgName})
 	gen.AddInstruction(PopInstr(0)) // remove the stackmark itself now
 	gen.AddInstruction(PopScopeTransferToDataStackInstr{PackageName: pkgName})
+	gen.scopes--
 	return nil
 }
 
@@ -1570,6 +1595,7 @@ func getQuotedSymbol(expr *SexpPair) (*SexpSymbol, error) {
 func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	n := len(xs)
 	if n == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
 
@@ -1578,7 +1604,11 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	}
 	for i := range xs {
 		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
-		err := gen.Generate(xs[i])
+		generate := gen.GenerateValue
+		if n == 1 {
+			generate = gen.Generate
+		}
+		err := generate(xs[i])
 		if err != nil {
 			return err
 		}
diff --git a/zygo/source.go b/zygo/source.go
index 810ccb3..2901ffa 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -44,57 +44,28 @@ func SimpleSourceFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 // existing
 
-// SourceExpressions, this should be called from a user func context
-func (env *Zlisp) SourceExpressions(expressions []Sexp) error {
-	gen := NewGenerator(env)
-
-	err := gen.GenerateBegin(expressions)
-	if err != nil {
-		return err
-	}
-	//P("debug: in SourceExpressions, FROM expressions='%s'", (&SexpArray{Val: expressions, Env: env}).SexpString(0))
-	//P("debug: in SourceExpressions, gen=")
-	//DumpFunction(ZlispFunction(gen.instructions), -1)
-	curfunc := env.curfunc
-	curpc := env.pc
-	defer func() {
-		env.pc = curpc
-		env.curfunc = curfunc
-	}()
-
-	env.curfunc = env.MakeFunction("__source", 0, false,
-		gen.instructions, nil)
-	env.pc = 0
-
-	result, err := env.Run()
-	if err != nil {
-		return err
-	}
-
-	//P("end of SourceExpressions, result going onto datastack is: '%s'", result.SexpString(0))
-	env.datastack.PushExpr(result)
-
-	//P("debug done with Run in source, now stack is:")
-	//env.datastack.PrintStack()
-
-	return nil
+// SourceExpressions runs the expressions in the current scope and returns the
+// value of the last one.
+func (env *Zlisp) SourceExpressions(expressions []Sexp) (Sexp, error) {
+	return env.evalInPlace("__source", expressions)
 }
 
-func (env *Zlisp) SourceStream(stream io.RuneScanner) error {
+func (env *Zlisp) SourceStream(stream io.RuneScanner) (Sexp, error) {
 	env.parser.ResetAddText(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
-		return errors.New(fmt.Sprintf(
+		return SexpNull, errors.New(fmt.Sprintf(
 			"Error parsing on line %d: %v\n", env.parser.Linenum(), err))
 	}
 
 	// like LoadExpressions in environment.go, remove comments.
 	expressions = env.FilterArray(expressions, RemoveCommentsFilter)
+	expressions = env.FilterArray(expressions, RemoveEndsFilter)
 
 	return env.SourceExpressions(expressions)
 }
 
-func (env *Zlisp) SourceFile(file *os.File) error {
+func (env *Zlisp) SourceFile(file *os.File) (Sexp, error) {
 	return env.SourceStream(bufio.NewReader(file))
 }
 
@@ -103,36 +74,34 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
+	var result Sexp = SexpNull
 	for _, v := range args {
-		if err := env.sourceItem(v); err != nil {
+		if err := env.sourceItem(v, &result); err != nil {
 			return SexpNull, err
 		}
 	}
-
-	result, err := env.datastack.PopExpr()
-	if err != nil {
-		return SexpNull, err
-	}
 	return result, nil
 }
 
-// helper for SourceFileFunction recursion
-func (env *Zlisp) sourceItem(item Sexp) error {
+// helper for SourceFileFunction recursion; result becomes the value of the
+// last file sourced.
+func (env *Zlisp) sourceItem(item Sexp, result *Sexp) error {
 	switch t := item.(type) {
 	case *SexpArray:
 		for _, v := range t.Val {
-			if err := env.sourceItem(v); err != nil {
+			if err := env.sourceItem(v, result); err != nil {
 				return err
 			}
 		}
 	case *SexpPair:
-		expr := item
-		for expr != SexpNull {
-			list := expr.(*SexpPair)
-			if err := env.sourceItem(list.Head); err != nil {
+		items, err := ListToArray(t)
+		if err != nil {
+			return err
+		}
+		for _, v := range items {
+			if err := env.sourceItem(v, result); err != nil {
 				return err
 			}
-			expr = list.Tail
 		}
 	case *SexpStr:
 		var f *os.File
@@ -142,7 +111,7 @@ func (env *Zlisp) sourceItem(item Sexp) error {
 			return err
 		}
 		defer f.Close()
-		if err = env.SourceFile(f); err != nil {
+		if *result, err = env.SourceFile(f); err != nil {
 			return err
 		}
 
diff --git a/zygo/vm.go b/zygo/vm.go
index 9cf6072..c9a7c25 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -826,17 +826,6 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
 	}
 
-	ps8 := NewPrintStateWithIndent(8)
-	shown, err := myInvok.ShowClosing(env, ps8, fmt.Sprintf("closedOverScopes of '%s'", myInvok.name))
-	_ = shown
-	if err != nil {
-		return err
-	}
-	//VPrintf("+++ CreateClosure: assign to '%s' the stack:\n\n%s\n\n",		myInvok.SexpString(nil), shown)
-	top := cls.TopScope()
-	//VPrintf("222 CreateClosure: top of NewClosing Scope has addr %p and is\n",		top)
-	top.Show(env, ps8, fmt.Sprintf("top of NewClosing at %p", top))
-
 	env.datastack.PushExpr(myInvok)
 	return nil
 }
@@ -864,11 +853,18 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 	}
 	switch x := lhs.(type) {
 	case *SexpSymbol:
-		return env.LexicalBindSymbol(x, rhs)
+		if err := env.LexicalBindSymbol(x, rhs); err != nil {
+			return err
+		}
+		env.datastack.PushExpr(rhs)
+		return nil
 	case Selector:
 		Q("AssignInstr: I see lhs is Selector")
-		err := x.AssignToSelection(env, rhs)
-		return err
+		if err := x.AssignToSelection(env, rhs); err != nil {
+			return err
+		}
+		env.datastack.PushExpr(rhs)
+		return nil
 	case *SexpArray:
 		switch rhsArray := rhs.(type) {
 		case *SexpArray:
@@ -891,6 +887,7 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 						" we found %T", i, x.Val[i])
 				}
 			}
+			env.datastack.PushExpr(rhs)
 			return nil
 		default:
 			return fmt.Errorf("AssignInstr: don't know how to assign rhs %T `%v` to lhs %T `%v`",
-- 
2.43.0


From 2633f6b22c121fc97ecf02422a497a369e851b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 12/34] fix: a tail call behaves like the call it replaces

It evaluated arguments and bound parameters in the scope of the previous
iteration, so closures of earlier iterations saw later values, skipped the
arity check, and ignored that the name may mean another function by then.
---
 zygo/check.go       |   4 --
 zygo/environment.go |  49 +++++++-------
 zygo/generator.go   |  72 +++-----------------
 zygo/vm.go          | 156 ++++++++++++++------------------------------
 4 files changed, 79 insertions(+), 202 deletions(-)

diff --git a/zygo/check.go b/zygo/check.go
index 4daeabb..e822331 100644
--- a/zygo/check.go
+++ b/zygo/check.go
@@ -79,10 +79,6 @@ func (env *Zlisp) FunctionCallNameTypeCheck(f *SexpFunction, nargs *int) error {
 		// not using named parameters, restore the arguments to the stack as they were.
 		finalArgs = exprs
 	}
-	finalArgs, err = env.prepareLazyFinalArgs(f, finalArgs)
-	if err != nil {
-		return err
-	}
 	for i, val := range finalArgs {
 		if i >= len(f.inputTypes.KeyOrder) {
 			break
diff --git a/zygo/environment.go b/zygo/environment.go
index 813ac9b..4164b16 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -345,14 +345,6 @@ func (env *Zlisp) wrangleOptargs(fnargs, nargs int) error {
 	return nil
 }
 
-func (env *Zlisp) prepareLazyCallArgs(function *SexpFunction, nargs *int) error {
-	return nil
-}
-
-func (env *Zlisp) prepareLazyFinalArgs(function *SexpFunction, args []Sexp) ([]Sexp, error) {
-	return args, nil
-}
-
 func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 	if expr == nil {
 		return SexpNull, nil
@@ -576,38 +568,41 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
 }
 
-func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
-	for _, prehook := range env.before {
-		expressions, err := env.datastack.GetExpressions(nargs)
-		if err != nil {
-			return err
-		}
-		prehook(env, function.name, expressions)
-	}
-
+// matchFormals checks the nargs arguments on top of the datastack against the
+// formals of function and arranges them for its prologue.
+func (env *Zlisp) matchFormals(function *SexpFunction, nargs int) error {
 	// do name and type checking
 	if function.inputTypes != nil && !function.varargs {
 		err := env.FunctionCallNameTypeCheck(function, &nargs)
 		if err != nil {
 			return err
 		}
-	} else {
-		err := env.prepareLazyCallArgs(function, &nargs)
-		if err != nil {
-			return err
-		}
 	}
 
 	if function.varargs {
-		err := env.wrangleOptargs(function.nargs, nargs)
-		if err != nil {
-			return err
-		}
-	} else if nargs != function.nargs {
+		return env.wrangleOptargs(function.nargs, nargs)
+	}
+	if nargs != function.nargs {
 		return errors.New(
 			fmt.Sprintf("%s expected %d arguments, got %d",
 				function.name, function.nargs, nargs))
 	}
+	return nil
+}
+
+func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+	for _, prehook := range env.before {
+		expressions, err := env.datastack.GetExpressions(nargs)
+		if err != nil {
+			return err
+		}
+		prehook(env, function.name, expressions)
+	}
+
+	err := env.matchFormals(function, nargs)
+	if err != nil {
+		return err
+	}
 
 	if env.linearstack.IsEmpty() {
 		panic("where's the global scope?")
diff --git a/zygo/generator.go b/zygo/generator.go
index c562303..42581a2 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -12,7 +12,6 @@ type Generator struct {
 	Tail           bool
 	scopes         int
 	instructions   []Instruction
-	knownFunctions map[int]*SexpFunction
 }
 
 type Loop struct {
@@ -31,7 +30,6 @@ func NewGenerator(env *Zlisp) *Generator {
 	gen := new(Generator)
 	gen.env = env
 	gen.instructions = make([]Instruction, 0)
-	gen.knownFunctions = make(map[int]*SexpFunction)
 	// tail marks whether or not we are in the tail position
 	gen.Tail = false
 	// scopes is the number of extra (non-function) scopes we've created
@@ -40,9 +38,7 @@ func NewGenerator(env *Zlisp) *Generator {
 }
 
 func (gen *Generator) NewSubGenerator() *Generator {
-	subgen := NewGenerator(gen.env)
-	subgen.knownFunctions = gen.knownFunctions
-	return subgen
+	return NewGenerator(gen.env)
 }
 
 func (gen *Generator) AddInstructions(instr []Instruction) {
@@ -100,15 +96,11 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp,
-	knownFunctions map[int]*SexpFunction) (*SexpFunction, error) {
+	orig Sexp) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
 	gen := NewGenerator(env)
-	if knownFunctions != nil {
-		gen.knownFunctions = knownFunctions
-	}
 	gen.Tail = true
 
 	if len(name) == 0 {
@@ -144,9 +136,6 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
-	if len(name) > 0 {
-		gen.knownFunctions[env.MakeSymbol(name).number] = sfun
-	}
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
@@ -189,7 +178,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
 	if err != nil {
 		return err
 	}
@@ -283,7 +272,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -332,7 +321,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -692,25 +681,12 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 		return gen.Generate(expr)
 	}
 
-	oldtail := gen.Tail
-	gen.Tail = false
-	if oldtail && sym.name == gen.funcname {
-		err := gen.GenerateCallArgsForFunction(gen.LookupKnownFunction(sym), args)
-		if err != nil {
-			return err
-		}
-		// to do a tail call
-		// pop off all the extra scopes
-		// then jump to beginning of function
-		for i := 0; i < gen.scopes; i++ {
-			gen.AddInstruction(RemoveScopeInstr{})
-		}
-		gen.AddInstruction(PrepareCallInstr{sym, len(args)})
-		gen.AddInstruction(GotoInstr{1}) // goto 1 instead of 0 to avoid adding a new scope
+	args = append([]Sexp(nil), args...)
+	if gen.Tail && sym.name == gen.funcname {
+		gen.AddInstruction(TailCallInstr{callee: sym, args: args, scopes: gen.scopes})
 	} else {
-		gen.AddInstruction(CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)})
+		gen.AddInstruction(CallExprInstr{callee: sym, args: args})
 	}
-	gen.Tail = oldtail
 	return nil
 }
 
@@ -727,36 +703,6 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) LookupKnownFunction(sym *SexpSymbol) *SexpFunction {
-	if sym == nil {
-		return nil
-	}
-	if gen.knownFunctions != nil {
-		if function := gen.knownFunctions[sym.number]; function != nil {
-			return function
-		}
-	}
-	x, err, _ := gen.env.LexicalLookupSymbol(sym, nil)
-	if err != nil {
-		return nil
-	}
-	function, _ := x.(*SexpFunction)
-	return function
-}
-
-func (gen *Generator) GenerateCallArgsForFunction(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && function.IsLazyCallArg(i) {
-			gen.AddInstruction(PushLazyArgInstr{expr: expr})
-			continue
-		}
-		if err := gen.Generate(expr); err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (gen *Generator) GenerateInfix(args []Sexp) error {
 	arr, empty, err := InfixArgsToArray("infix", args)
 	if err != nil {
diff --git a/zygo/vm.go b/zygo/vm.go
index c9a7c25..7b9ebe6 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -30,22 +30,6 @@ func (j JumpInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type GotoInstr struct {
-	location int
-}
-
-func (g GotoInstr) InstrString() string {
-	return fmt.Sprintf("goto %d", g.location)
-}
-
-func (g GotoInstr) Execute(env *Zlisp) error {
-	if g.location < 0 || g.location > env.CurrentFunctionSize() {
-		return OutOfBounds
-	}
-	env.pc = g.location
-	return nil
-}
-
 type BranchInstr struct {
 	direction bool
 	location  int
@@ -91,23 +75,6 @@ func (p PushInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type PushLazyArgInstr struct {
-	expr Sexp
-}
-
-func (p PushLazyArgInstr) InstrString() string {
-	if p.expr == nil {
-		return "push lazyArg nil"
-	}
-	return "push lazyArg " + p.expr.SexpString(nil)
-}
-
-func (p PushLazyArgInstr) Execute(env *Zlisp) error {
-	env.datastack.PushExpr(NewSourceLazyArg(env, p.expr))
-	env.pc++
-	return nil
-}
-
 type PopInstr int
 
 func (p PopInstr) InstrString() string {
@@ -368,6 +335,54 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
+// TailCallInstr is a call in tail position that names the function being compiled.
+// When the name still means the running function at the time of the call, the
+// call reuses the frame: the scopes of this activation are left, and the
+// function starts over with the new arguments. Otherwise it is a call like any
+// other.
+type TailCallInstr struct {
+	callee *SexpSymbol
+	args   []Sexp
+	scopes int // entered since the function scope
+}
+
+func (c TailCallInstr) InstrString() string {
+	return fmt.Sprintf("tailCall %s %d", c.callee.name, len(c.args))
+}
+
+func (c TailCallInstr) Execute(env *Zlisp) error {
+	funcobj, err := env.EvalCallExpression(c.callee)
+	if err != nil {
+		return err
+	}
+	funcobj, callName, err := env.ResolveCallable(funcobj)
+	if err != nil {
+		return err
+	}
+	function, isFun := funcobj.(*SexpFunction)
+	if !isFun || function != env.curfunc {
+		return env.CallResolved(funcobj, callName, c.args)
+	}
+
+	startingDataStackSize := env.datastack.Size()
+	err = env.PrepareCallExprArgs(function, c.args)
+	if err == nil {
+		err = env.matchFormals(function, len(c.args))
+	}
+	if err != nil {
+		env.datastack.TruncateToSize(startingDataStackSize)
+		return err
+	}
+	// the function scope goes too: pc 0 adds a new one.
+	for i := 0; i <= c.scopes; i++ {
+		if err := env.linearstack.PopScope(); err != nil {
+			return err
+		}
+	}
+	env.pc = 0
+	return nil
+}
+
 type DispatchInstr struct {
 	nargs int
 }
@@ -917,78 +932,3 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-
-type PrepareCallInstr struct {
-	sym   *SexpSymbol
-	nargs int
-}
-
-func (c PrepareCallInstr) InstrString() string {
-	return fmt.Sprintf("pre-call %s %d", c.sym.name, c.nargs)
-}
-
-func (c PrepareCallInstr) Execute(env *Zlisp) error {
-	if err := c.execute(env); err != nil {
-		return err
-	}
-	env.pc++
-	return nil
-}
-
-func (c PrepareCallInstr) execute(env *Zlisp) error {
-	_, ok := env.builtins[c.sym.number]
-	if ok {
-		return nil
-	}
-	var funcobj, indirectFuncName Sexp
-	var err error
-
-	funcobj, err, _ = env.LexicalLookupSymbol(c.sym, nil)
-
-	if err != nil {
-		return err
-	}
-	switch f := funcobj.(type) {
-	case *SexpSymbol:
-		if c.sym.isDot {
-
-			dotSymRef, dotLookupErr := dotGetSetHelper(env, c.sym.name, nil)
-			if dotLookupErr != nil {
-				return dotLookupErr
-			}
-			indirectFuncName = dotSymRef
-		} else {
-			indirectFuncName, err = dotGetSetHelper(env, f.name, nil)
-			if err != nil {
-				return fmt.Errorf("'%s' refers to symbol '%s', but '%s' could not be resolved: '%s'.",
-					c.sym.name, f.name, f.name, err)
-			}
-		}
-
-		switch g := indirectFuncName.(type) {
-		case *SexpFunction:
-			if !g.user {
-				nargs := c.nargs
-				if err := env.prepareLazyCallArgs(g, &nargs); err != nil {
-					return err
-				}
-				if g.varargs {
-					return env.wrangleOptargs(g.nargs, nargs)
-				}
-			}
-			return nil
-		}
-
-	case *SexpFunction:
-		if !f.user {
-			nargs := c.nargs
-			if err := env.prepareLazyCallArgs(f, &nargs); err != nil {
-				return err
-			}
-			if f.varargs {
-				return env.wrangleOptargs(f.nargs, nargs)
-			}
-		}
-	}
-	return nil
-}
-- 
2.43.0


From 77709965e9370570b64ec79182f335366cbfd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:39 +0000
Subject: [PATCH 13/34] fix: append, concat and map build arrays that share
 nothing with their arguments

---
 zygo/arrayutils.go | 20 ++++++++++++--------
 zygo/functions.go  |  4 ++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 43d2633..f3f6ba9 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -6,18 +6,22 @@ func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
 	result := make([]Sexp, len(arr.Val))
 	var err error
 
-	var firstTyp *RegisteredType
 	for i := range arr.Val {
-		result[i], err = env.Apply(fun, arr.Val[i:i+1])
+		result[i], err = env.Apply(fun, []Sexp{arr.Val[i]})
 		if err != nil {
-			return &SexpArray{Val: result, Typ: firstTyp, Env: env}, err
-		}
-		if firstTyp == nil {
-			firstTyp = result[i].Type()
+			return SexpNull, err
 		}
 	}
 
-	return &SexpArray{Val: result, Typ: firstTyp, Env: env}, nil
+	return &SexpArray{Val: result, Env: env}, nil
+}
+
+// joinElements returns a new slice: an array never shares elements with the
+// arrays it was built from.
+func joinElements(front, back []Sexp) []Sexp {
+	all := make([]Sexp, 0, len(front)+len(back))
+	all = append(all, front...)
+	return append(all, back...)
 }
 
 func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
@@ -25,7 +29,7 @@ func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("ConcatArray called with nil arr")
 	}
 	var res SexpArray
-	res.Val = arr.Val
+	res.Val = joinElements(arr.Val, nil)
 	for i, x := range rest {
 		switch t := x.(type) {
 		case *SexpArray:
diff --git a/zygo/functions.go b/zygo/functions.go
index 68a81f0..cdda7b3 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -604,11 +604,11 @@ func AppendFunction(name string) ZlispUserFunction {
 		case *SexpArray:
 			switch name {
 			case "append":
-				return &SexpArray{Val: append(t.Val, args[1]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: joinElements(t.Val, args[1:]), Env: env, Typ: t.Typ}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: append(t.Val, sl.Val...), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: joinElements(t.Val, sl.Val), Env: env, Typ: t.Typ}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
-- 
2.43.0


From b0b8365662bf0967c190f9b082df097d40470607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:41 +0000
Subject: [PATCH 14/34] fix: map and apply give the value an index expression
 found, not its place

---
 zygo/environment.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 4164b16..37fe408 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -943,7 +943,11 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 		}
 		env.datastack.PushExpr(expr)
 	}
-	return env.callToEnd(callState, fun, len(args))
+	res, err := env.callToEnd(callState, fun, len(args))
+	if err != nil {
+		return SexpNull, err
+	}
+	return env.selected(res)
 }
 
 func (env *Zlisp) Run() (Sexp, error) {
-- 
2.43.0


From 6e748200237b4876014f24e3af796166521eeae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 15/34] fix: the error for a panicking builtin names no
 addresses or goroutines

---
 zygo/environment.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 37fe408..5835c8d 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -10,6 +10,7 @@ import (
 	"sort"
 	"runtime"
 	"strconv"
+	"strings"
 )
 
 type PreHook func(*Zlisp, string, []Sexp)
@@ -637,6 +638,21 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
+// callTrace lists the Go functions in progress inside the innermost builtin
+// call, without the addresses and goroutine numbers that differ between runs.
+func callTrace() string {
+	pcs := make([]uintptr, 200)
+	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
+	trace := ""
+	for {
+		frame, more := frames.Next()
+		trace += fmt.Sprintf("%s\n\t%s:%d\n", frame.Function, frame.File, frame.Line)
+		if !more || strings.HasSuffix(frame.Function, "(*Zlisp).CallUserFunction") {
+			return trace
+		}
+	}
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -665,15 +681,13 @@ func (env *Zlisp) CallUserFunction(
 	// protect against bad calls/bad reflection in usercalls
 	var wasPanic bool
 	var recovered interface{}
-	var trace []byte
+	var trace string
 	res, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = make([]byte, 16384)
-				nbyte := runtime.Stack(trace, false)
-				trace = trace[:nbyte]
+				trace = callTrace()
 			}
 		}()
 
@@ -687,7 +701,7 @@ func (env *Zlisp) CallUserFunction(
 	if wasPanic {
 		err = fmt.Errorf("CallUserFunction caught panic during call of "+
 			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, string(trace))
+			name, recovered, trace)
 	}
 	if err != nil {
 		env.restoreControlState(callState)
-- 
2.43.0


From f47da3ebb99839266994745663bc1a74b81531a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 16/34] fix: runaway nesting of evaluations is an error, not a
 crash

---
 zygo/builders.go    |  3 +++
 zygo/environment.go | 55 +++++++++++++++++++++++++++++++++++++++++----
 zygo/expressions.go | 12 +++++++++-
 zygo/generator.go   | 25 +++++++++++++++++----
 4 files changed, 86 insertions(+), 9 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 4960bb1..9385d9c 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -785,6 +785,9 @@ func ExpectErrorBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		if err.Error() == expectedError.S {
 			return SexpNull, nil
 		}
+		if len(err.Error()) > longestErrorText {
+			return SexpNull, err
+		}
 		return SexpNull, fmt.Errorf("expectError expected '%s' but saw '%s'", expectedError.S, err)
 	}
 
diff --git a/zygo/environment.go b/zygo/environment.go
index 5835c8d..6348ae5 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -7,8 +7,8 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"sort"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -35,6 +35,7 @@ type Zlisp struct {
 	curfunc     *SexpFunction
 	mainfunc    *SexpFunction
 	pc          int
+	nesting     int // evaluations and compilations in progress, one inside the other
 	nextsymbol  int
 	before      []PreHook
 	after       []PostHook
@@ -202,6 +203,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -299,9 +301,35 @@ func functionSize(function *SexpFunction) int {
 	return len(function.fun)
 }
 
+// Evaluations nested deeper than maxNesting, or calls deeper than maxCalls, are
+// errors: Go cannot recover when its own stack or the memory runs out.
+const (
+	maxNesting = 100000
+	maxCalls   = 1000000
+
+	// an error text of this length is passed on as it is.
+	longestErrorText = 4096
+)
+
+var NestedTooDeeply = errors.New("evaluation nested too deeply")
+
+// enter starts a nested evaluation or compilation; leave ends it.
+func (env *Zlisp) enter() error {
+	if env.nesting >= maxNesting {
+		return NestedTooDeeply
+	}
+	env.nesting++
+	return nil
+}
+
+func (env *Zlisp) leave() {
+	env.nesting--
+}
+
 type vmControlState struct {
 	curfunc         *SexpFunction
 	pc              int
+	nesting         int
 	linearstack     *Stack
 	addrstackSize   int
 	linearstackSize int
@@ -312,6 +340,7 @@ func (env *Zlisp) captureControlState() vmControlState {
 	return vmControlState{
 		curfunc:         env.curfunc,
 		pc:              env.pc,
+		nesting:         env.nesting,
 		linearstack:     env.linearstack,
 		addrstackSize:   env.addrstack.Size(),
 		linearstackSize: env.linearstack.Size(),
@@ -326,6 +355,7 @@ func (env *Zlisp) restoreControlState(state vmControlState) {
 	env.datastack.TruncateToSize(state.datastackSize)
 	env.curfunc = state.curfunc
 	env.pc = state.pc
+	env.nesting = state.nesting
 }
 
 func (env *Zlisp) wrangleOptargs(fnargs, nargs int) error {
@@ -451,7 +481,7 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 			}
 			if err != nil {
 				if function != nil && function.user {
-					err = fmt.Errorf("Error calling '%s': %v", function.name, err)
+					err = errorCalling(function.name, err)
 				}
 				return err
 			}
@@ -609,6 +639,9 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 		panic("where's the global scope?")
 	}
 
+	if env.addrstack.Size() >= maxCalls {
+		return NestedTooDeeply
+	}
 	env.addrstack.PushAddr(env.curfunc, env.pc+1)
 
 	//P("DEBUG linearstack with this next:")
@@ -653,6 +686,16 @@ func callTrace() string {
 	}
 }
 
+// errorCalling says which builtin failed. The text stops growing when an error
+// comes out of a very deep nest of calls.
+func errorCalling(name string, err error) error {
+	msg := err.Error()
+	if len(msg) > longestErrorText {
+		return err
+	}
+	return fmt.Errorf("Error calling '%s': %s", name, msg)
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -705,8 +748,7 @@ func (env *Zlisp) CallUserFunction(
 	}
 	if err != nil {
 		env.restoreControlState(callState)
-		return 0, errors.New(
-			fmt.Sprintf("Error calling '%s': %v", name, err))
+		return 0, errorCalling(name, err)
 	}
 
 	env.datastack.PushExpr(res)
@@ -966,6 +1008,9 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 
 func (env *Zlisp) Run() (Sexp, error) {
 	runState := env.captureControlState()
+	if err := env.enter(); err != nil {
+		return SexpNull, err
+	}
 
 	for env.pc != -1 && !env.ReachedEnd() {
 		instr := env.curfunc.fun[env.pc]
@@ -994,6 +1039,8 @@ func (env *Zlisp) Run() (Sexp, error) {
 		}
 	}
 
+	env.nesting = runState.nesting
+
 	if env.datastack.IsEmpty() {
 		// this does fire.
 		//P("debug: *** detected empty datastack, adding a null")
diff --git a/zygo/expressions.go b/zygo/expressions.go
index d2e8b76..9ce7786 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -577,7 +577,17 @@ type SexpLazyArg struct {
 func NewSourceLazyArg(env *Zlisp, expr Sexp) *SexpLazyArg {
 	lazy := &SexpLazyArg{Expr: expr}
 	if env != nil {
-		lazy.Stack = env.linearstack.Clone()
+		// the caller's scopes, and the global one; not the callers of the caller.
+		scopes := NewClosing("lazyArg", env).Stack
+		if scopes.elements[0] != env.linearstack.elements[0] {
+			whole := env.NewStack(scopes.Size() + 1)
+			whole.Push(env.linearstack.elements[0])
+			for _, elem := range scopes.elements {
+				whole.Push(elem)
+			}
+			scopes = whole
+		}
+		lazy.Stack = scopes
 		lazy.CurFunc = env.curfunc
 	}
 	return lazy
diff --git a/zygo/generator.go b/zygo/generator.go
index 42581a2..66260bf 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -803,7 +803,26 @@ func (gen *Generator) GenerateArray(arr *SexpArray) error {
 	return nil
 }
 
+// errorGenerating says which form did not compile. Like errorCalling, it stops
+// growing when the form is nested very deeply.
+func errorGenerating(expr Sexp, err error) error {
+	msg := err.Error()
+	if len(msg) > longestErrorText {
+		return err
+	}
+	return fmt.Errorf("Error generating %s:\n%s", expr.SexpString(nil), msg)
+}
+
 func (gen *Generator) Generate(expr Sexp) error {
+	if err := gen.env.enter(); err != nil {
+		return err
+	}
+	err := gen.generate(expr)
+	gen.env.leave()
+	return err
+}
+
+func (gen *Generator) generate(expr Sexp) error {
 	switch e := expr.(type) {
 	case *SexpComment:
 		gen.AddInstruction(PushInstr{SexpNull})
@@ -824,15 +843,13 @@ func (gen *Generator) Generate(expr Sexp) error {
 			if isAssign && pos > 0 && legalLeftHandSide {
 				err := gen.GenerateAssignment(e, pos)
 				if err != nil {
-					return fmt.Errorf("Error generating %s:\n%v",
-						expr.SexpString(nil), err)
+					return errorGenerating(expr, err)
 				}
 				return nil
 			}
 			err := gen.GenerateCall(e)
 			if err != nil {
-				return fmt.Errorf("Error generating %s:\n%v",
-					expr.SexpString(nil), err)
+				return errorGenerating(expr, err)
 			}
 			return nil
 		} else {
-- 
2.43.0


From 4e26dce20880a2e80cd44188e85855c829b56185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 17/34] fix: a declaration or decoding that fails says so and
 keeps what was there

---
 zygo/builders.go  | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 zygo/func.go      |  4 +++-
 zygo/hashutils.go |  8 ++++++--
 zygo/jsonmsgp.go  |  2 +-
 zygo/scopes.go    |  9 +++++++++
 zygo/vm.go        |  5 ++++-
 6 files changed, 70 insertions(+), 5 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 9385d9c..ce4bc53 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -279,6 +279,15 @@ func StructBuilder(env *Zlisp, name string,
 
 	structName := symN.name
 
+	// a declaration that fails leaves the one it would have replaced in force.
+	undo := env.checkpointType(symN)
+	declared := false
+	defer func() {
+		if !declared {
+			undo()
+		}
+	}()
+
 	{
 		// begin enable recursion -- add ourselves to the env early, then
 		// update later, so that structs can refer to themselves.
@@ -383,9 +392,47 @@ func StructBuilder(env *Zlisp, name string,
 			structName, err)
 	}
 	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
+	declared = true
 	return rt, nil
 }
 
+// checkpointType returns a function that puts back what sym is bound to and
+// registered as now.
+func (env *Zlisp) checkpointType(sym *SexpSymbol) (undo func()) {
+	reg := GoStructRegistry
+	name := sym.name
+	was, registered := reg.Registry[name]
+	user, isUser := reg.Userdef[name]
+	bound, hasBinding := env.linearstack.symbolInTopScope(sym)
+	return func() {
+		if registered {
+			reg.Registry[name] = was
+		} else {
+			delete(reg.Registry, name)
+			ListRegisteredTypes = withoutName(ListRegisteredTypes, name)
+		}
+		if isUser {
+			reg.Userdef[name] = user
+		} else {
+			delete(reg.Userdef, name)
+		}
+		env.linearstack.DeleteSymbolFromTopOfStackScope(sym)
+		if hasBinding {
+			env.linearstack.DefineSymbol(sym, bound)
+		}
+	}
+}
+
+func withoutName(names []string, name string) []string {
+	var kept []string
+	for _, n := range names {
+		if n != name {
+			kept = append(kept, n)
+		}
+	}
+	return kept
+}
+
 func InterfaceBuilder(env *Zlisp, name string,
 	args []Sexp) (Sexp, error) {
 
diff --git a/zygo/func.go b/zygo/func.go
index 223e5aa..8bd56c9 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -280,7 +280,9 @@ func GetFuncArgArray(arr *SexpArray, env *Zlisp, where string) (*SexpHash, error
 		switch rt := r.(type) {
 		case *RegisteredType:
 			// good, store it
-			hash.HashSet(symN, rt)
+			if err := hash.HashSet(symN, rt); err != nil {
+				return nil, err
+			}
 		default:
 			return nil, fmt.Errorf("'%s' is not a known type", symTyp.SexpString(nil))
 		}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e5429cf..a5442c0 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -800,11 +800,15 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		if err != nil {
+			return SexpNull, err
+		}
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
+			if err != nil {
+				return SexpNull, err
+			}
 		}
-		panicOn(err)
 		return hash, nil
 
 	case []byte:
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f2f505d..2fef4c8 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -340,11 +340,11 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		panicOn(err)
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
 			panicOn(err)
 		}
-		panicOn(err)
 		return hash
 
 	case []byte:
diff --git a/zygo/scopes.go b/zygo/scopes.go
index ac4dacc..9dc0f2f 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -258,6 +258,15 @@ func (stack *Stack) DefineSymbol(sym *SexpSymbol, expr Sexp) error {
 	return nil
 }
 
+// symbolInTopScope finds what the innermost scope binds sym to.
+func (stack *Stack) symbolInTopScope(sym *SexpSymbol) (expr Sexp, found bool) {
+	if stack.IsEmpty() {
+		return SexpNull, false
+	}
+	expr, found = stack.elements[stack.tos].(*Scope).Map[sym.number]
+	return expr, found
+}
+
 func (stack *Stack) DeleteSymbolFromTopOfStackScope(sym *SexpSymbol) error {
 	if stack.IsEmpty() {
 		panic("empty stack!!")
diff --git a/zygo/vm.go b/zygo/vm.go
index 7b9ebe6..5c7147f 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -928,7 +928,10 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	stackClone.IsPackage = true // always/only used for packages.
 	stackClone.PackageName = a.PackageName
 	//P("PopScopeTransferToDataStackInstr: scope is '%v'", stackClone.SexpString(nil))
-	env.linearstack.PopScope()
+	err := env.linearstack.PopScope()
+	if err != nil {
+		return err
+	}
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-- 
2.43.0


From 67b1e69f4b3d4160972f2bb6d54be52df67cf87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 18/34] fix: the value of an index expression returned to the
 host is what it selects

---
 zygo/environment.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index 6348ae5..cb261cf 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -833,6 +833,15 @@ func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 }
 
 func (env *Zlisp) EvalString(str string) (Sexp, error) {
+	res, err := env.evalString(str)
+	if err != nil {
+		return SexpNull, err
+	}
+	// the value of an index expression is what it selects, not its place.
+	return env.selected(res)
+}
+
+func (env *Zlisp) evalString(str string) (Sexp, error) {
 	if env.curfunc.user {
 		// called by a builtin, in the midst of an evaluation.
 		return env.SourceStream(bytes.NewBuffer([]byte(str)))
-- 
2.43.0


From 3dcbc28046bcff4d4c3fea6332b6b251fa1e5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 19/34] fix: a multiple assignment evaluates the expressions on
 its right

---
 zygo/generator.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 66260bf..31e8a22 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -225,7 +225,13 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 	}
 
-	err := gen.GenerateValue(args[1])
+	rhs := args[1]
+	if isCommaForm(args[0]) && isCommaForm(rhs) {
+		// {a, b = x, x + 1} assigns the values of
+		// the expressions on the right.
+		rhs = &SexpArray{Val: flattenCommas(rhs, nil), Env: gen.env}
+	}
+	err := gen.GenerateValue(rhs)
 	if err != nil {
 		return err
 	}
@@ -239,6 +245,33 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	return nil
 }
 
+// isCommaForm reports whether expr is (comma ...), the list
+// of expressions that commas in infix code stand for.
+func isCommaForm(expr Sexp) bool {
+	pair, ok := expr.(*SexpPair)
+	if !ok {
+		return false
+	}
+	sym, ok := pair.Head.(*SexpSymbol)
+	return ok && sym.name == "comma"
+}
+
+// flattenCommas appends to res the expressions that expr, a
+// possibly nested (comma ...) form, lists.
+func flattenCommas(expr Sexp, res []Sexp) []Sexp {
+	if !isCommaForm(expr) {
+		return append(res, expr)
+	}
+	items, err := ListToArray(expr)
+	if err != nil {
+		return append(res, expr)
+	}
+	for _, item := range items[1:] {
+		res = flattenCommas(item, res)
+	}
+	return res
+}
+
 func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 	if len(args) < 3 {
 		return WrongNargs
-- 
2.43.0


From 8bcbee8a1a8de574034e9de1a9e505210f528f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 20/34] fix: a function that calls itself in tail position
 under any name reuses its frame

---
 zygo/generator.go | 4 +++-
 zygo/vm.go        | 9 ++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 31e8a22..5df6ebe 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -715,7 +715,9 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	}
 
 	args = append([]Sexp(nil), args...)
-	if gen.Tail && sym.name == gen.funcname {
+	// whether the callee is the function being compiled, under its own name
+	// or any other, is decided when the call is made.
+	if gen.Tail {
 		gen.AddInstruction(TailCallInstr{callee: sym, args: args, scopes: gen.scopes})
 	} else {
 		gen.AddInstruction(CallExprInstr{callee: sym, args: args})
diff --git a/zygo/vm.go b/zygo/vm.go
index 5c7147f..0714d79 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -335,11 +335,10 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
-// TailCallInstr is a call in tail position that names the function being compiled.
-// When the name still means the running function at the time of the call, the
-// call reuses the frame: the scopes of this activation are left, and the
-// function starts over with the new arguments. Otherwise it is a call like any
-// other.
+// TailCallInstr is a call by name in tail position of a function. When the name
+// means the running function at the time of the call, the call reuses the frame:
+// the scopes of this activation are left, and the function starts over with the
+// new arguments. Otherwise it is a call like any other.
 type TailCallInstr struct {
 	callee *SexpSymbol
 	args   []Sexp
-- 
2.43.0


From 512eafda8f15a1731c0e32cb732543418bfe2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 21/34] fix: an operator or a signed number right after ^, ~ or
 % reads as it does elsewhere

---
 zygo/lexer.go  | 1 +
 zygo/parser.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 9a30b70..7ffc5ca 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -180,6 +180,7 @@ func canStartSignedNumberAfter(r rune) bool {
 	switch r {
 	case 0, ' ', '\t', '\n', '\r',
 		'(', '[', '{', ',', ';', ':',
+		'^', '~', '%',
 		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|':
 		return true
 	default:
diff --git a/zygo/parser.go b/zygo/parser.go
index 6fcbb4e..27a76ea 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -396,6 +396,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		exp, err := parser.ParseInfix(depth + 1)
 		return exp, err
 	case TokenQuote:
+		parser.atOperator = atOperator
 		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
@@ -403,18 +404,21 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		return MakeList([]Sexp{env.MakeSymbol("quote"), expr}), nil
 	case TokenCaret:
 		// '^' is now our syntax-quote symbol, not TokenBacktick, to allow go-style `string literals`.
+		parser.atOperator = atOperator
 		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("syntaxQuote"), expr}), nil
 	case TokenTilde:
+		parser.atOperator = atOperator
 		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("unquote"), expr}), nil
 	case TokenTildeAt:
+		parser.atOperator = atOperator
 		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
-- 
2.43.0


From 6d79abc619a5a502700bf1b171b60def3aab33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 22/34] fix: templates keep dotted lists, index expressions and
 functions made while a macro expands

---
 zygo/generator.go | 48 ++++++++++++++++++++++++++++++++++++-------
 zygo/vm.go        | 52 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 93 insertions(+), 7 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 5df6ebe..b009c3f 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -365,6 +365,18 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 	return nil
 }
 
+// expandMacro runs macro on args, off to the side. Functions that its body makes
+// find the global definitions through the macro, as in any other function.
+func (env *Zlisp) expandMacro(macro *SexpFunction, args []Sexp) (Sexp, error) {
+	dup := env.Duplicate()
+	macro = macro.Copy()
+	clos := NewEmptyClosing("macro "+macro.name, dup)
+	clos.Stack.Push(dup.linearstack.elements[0])
+	macro.SetClosing(clos)
+	macro.parent = dup.mainfunc
+	return dup.Apply(macro, args)
+}
+
 func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
@@ -406,9 +418,7 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 
 	// don't mess up the previous environment
 	// just to run a macroexpand.
-	newenv := gen.env.Duplicate()
-
-	expr, err := newenv.Apply(macro, macargs)
+	expr, err := gen.env.expandMacro(macro, macargs)
 	if err != nil {
 		return err
 	}
@@ -699,8 +709,7 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	if found {
 		// calling Apply on the current environment will screw up
 		// the stack, creating a duplicate environment is safer
-		env := gen.env.Duplicate()
-		expr, err := env.Apply(macro, args)
+		expr, err := gen.env.expandMacro(macro, args)
 
 		// try without the env.Duplicate. Issue 54 user wants macros
 		// to be able to arbitrarily alter the current environment,
@@ -1226,7 +1235,7 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
-			break
+			return gen.generateSyntaxQuoteDotted(aaa)
 		}
 		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
@@ -1236,6 +1245,26 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	return nil
 }
 
+// generateSyntaxQuoteDotted: the template is a list that ends in something else than nil.
+func (gen *Generator) generateSyntaxQuoteDotted(pair *SexpPair) error {
+	gen.AddInstruction(PushInstr{SexpMarker})
+	for {
+		if err := gen.GenerateSyntaxQuote([]Sexp{pair.Head}); err != nil {
+			return err
+		}
+		next, more := pair.Tail.(*SexpPair)
+		if !more {
+			break
+		}
+		pair = next
+	}
+	if err := gen.GenerateSyntaxQuote([]Sexp{pair.Tail}); err != nil {
+		return err
+	}
+	gen.AddInstruction(SquashDottedInstr(0))
+	return nil
+}
+
 func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	//Q("GenerateSyntaxQuoteList() called with arg='%#v'", arg)
 
@@ -1271,11 +1300,16 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				return gen.GenerateValue(quotebody[1])
+				if err := gen.GenerateValue(quotebody[1]); err != nil {
+					return err
+				}
+				gen.AddInstruction(ReadSelectedInstr(0))
+				return nil
 			} else if sym.name == "unquote-splicing" {
 				if err := gen.GenerateValue(quotebody[1]); err != nil {
 					return err
 				}
+				gen.AddInstruction(ReadSelectedInstr(0))
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
diff --git a/zygo/vm.go b/zygo/vm.go
index 0714d79..d04ab98 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -536,6 +536,58 @@ func (s SquashInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
+// SquashDottedInstr is SquashInstr for a list whose end, on top, is not nil.
+type SquashDottedInstr int
+
+func (s SquashDottedInstr) InstrString() string {
+	return "squash dotted"
+}
+
+func (s SquashDottedInstr) Execute(env *Zlisp) error {
+	list, err := env.datastack.PopExpr()
+	if err != nil {
+		return err
+	}
+	if list == SexpMarker {
+		list = SexpNull // only splices, all empty
+		env.datastack.PushExpr(SexpMarker)
+	}
+	for {
+		expr, err := env.datastack.PopExpr()
+		if err != nil {
+			return err
+		}
+		if expr == SexpMarker {
+			break
+		}
+		list = Cons(expr, list)
+	}
+	env.datastack.PushExpr(list)
+	env.pc++
+	return nil
+}
+
+// ReadSelectedInstr replaces an index expression on top by the element it stands for.
+type ReadSelectedInstr int
+
+func (s ReadSelectedInstr) InstrString() string {
+	return "read selected"
+}
+
+func (s ReadSelectedInstr) Execute(env *Zlisp) error {
+	expr, err := env.datastack.PopExpr()
+	if err != nil {
+		return err
+	}
+	expr, err = env.selected(expr)
+	if err != nil {
+		return err
+	}
+	env.datastack.PushExpr(expr)
+	env.pc++
+	return nil
+}
+
 // bind these symbols to the SexpPair list found at
 // datastack top.
 type BindlistInstr struct {
-- 
2.43.0


From 70c3ea9578dd968df7b283f68f07b54fb5833d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 23/34] fix: a sandboxed interpreter cannot reach files,
 processes, the environment or exit

---
 zygo/bsave.go       |  6 ++++++
 zygo/environment.go | 20 +++++++++++++++++++-
 zygo/functions.go   |  6 ++++++
 zygo/import.go      |  3 +++
 zygo/repl.go        | 14 ++++++++------
 zygo/slurp.go       |  6 ++++++
 zygo/source.go      |  8 +++++++-
 zygo/system.go      |  3 +++
 8 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/zygo/bsave.go b/zygo/bsave.go
index a50af2c..d0fd90d 100644
--- a/zygo/bsave.go
+++ b/zygo/bsave.go
@@ -58,6 +58,9 @@ func WriteShadowGreenpackToFileFunction(name string) ZlispUserFunction {
 			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], args[1])
 		}
 
+		if err := env.outside(name); err != nil {
+			return SexpNull, err
+		}
 		// don't overwrite existing file
 		if FileExists(fn) {
 			return SexpNull, fmt.Errorf("error: %s refusing to write to existing file '%s'",
@@ -114,6 +117,9 @@ func ReadGreenpackFromFileFunction(env *Zlisp, name string, args []Sexp) (Sexp,
 		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], args[0])
 	}
 
+	if err := env.outside(name); err != nil {
+		return SexpNull, err
+	}
 	if !FileExists(string(fn)) {
 		return SexpNull, fmt.Errorf("file '%s' does not exist", fn)
 	}
diff --git a/zygo/environment.go b/zygo/environment.go
index cb261cf..fdcefc6 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -52,6 +52,9 @@ type Zlisp struct {
 
 	booter Booter
 
+	// scripts may not reach the outside world; see outside().
+	sandboxed bool
+
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
 }
@@ -92,7 +95,17 @@ func (env *Zlisp) Close() error {
 // NewZlispSandbox returns a new *Zlisp instance that does not allow the
 // user to get to the outside world
 func NewZlispSandbox() *Zlisp {
-	return NewZlispWithFuncs(SandboxSafeFunctions())
+	env := NewZlispWithFuncs(SandboxSafeFunctions())
+	env.sandboxed = true
+	return env
+}
+
+// outside returns an error if env is sandboxed: what is then not permitted.
+func (env *Zlisp) outside(what string) error {
+	if env.sandboxed {
+		return fmt.Errorf("%s: not permitted in a sandbox", what)
+	}
+	return nil
 }
 
 // NewZlispWithFuncs returns a new *Zlisp instance with access to only the given builtin functions
@@ -186,6 +199,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 	return dupenv
 }
 
@@ -219,6 +233,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 
 	return dupenv
 }
@@ -806,6 +821,9 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 }
 
 func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
+	if err := env.outside("include"); err != nil {
+		return nil, err
+	}
 	in, err := os.Open(file)
 	if err != nil {
 		return nil, err
diff --git a/zygo/functions.go b/zygo/functions.go
index cdda7b3..e4cac76 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1340,6 +1340,9 @@ func ExitFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
 	}
+	if err := env.outside(name); err != nil {
+		return SexpNull, err
+	}
 	switch e := args[0].(type) {
 	case *SexpInt:
 		os.Exit(int(e.Val))
@@ -1941,6 +1944,9 @@ func GetEnvFunction(name string) ZlispUserFunction {
 			}
 		}
 
+		if err := env.outside(name); err != nil {
+			return SexpNull, err
+		}
 		if name == "getenv" {
 			return &SexpStr{S: os.Getenv(nm[0])}, nil
 		}
diff --git a/zygo/import.go b/zygo/import.go
index be42f22..64897aa 100644
--- a/zygo/import.go
+++ b/zygo/import.go
@@ -37,6 +37,9 @@ func ImportPackageBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	default:
 		return SexpNull, fmt.Errorf("import error: path argument must be string")
 	}
+	if err := env.outside(name); err != nil {
+		return SexpNull, err
+	}
 	if !FileExists(pth) {
 		return SexpNull, fmt.Errorf("import error: path '%s' does not exist", pth)
 	}
diff --git a/zygo/repl.go b/zygo/repl.go
index 652584a..a99dda2 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -438,17 +438,19 @@ func (env *Zlisp) StandardSetup() {
 	gob.Register(SexpArray{})
 }
 
+func newReplEnv(cfg *ZlispConfig) *Zlisp {
+	if cfg.Sandboxed {
+		return NewZlispSandbox()
+	}
+	return NewZlisp()
+}
+
 // like main() for a standalone repl, now in library
 func ReplMain(cfg *ZlispConfig) {
-	var env *Zlisp
 	if cfg.LoadDemoStructs {
 		RegisterDemoStructs()
 	}
-	if cfg.Sandboxed {
-		env = NewZlispSandbox()
-	} else {
-		env = NewZlisp()
-	}
+	env := newReplEnv(cfg)
 	env.StandardSetup()
 	if cfg.LoadDemoStructs {
 		// avoid data conflicts by only loading these in demo mode.
diff --git a/zygo/slurp.go b/zygo/slurp.go
index 322af1c..d70ac72 100644
--- a/zygo/slurp.go
+++ b/zygo/slurp.go
@@ -21,6 +21,9 @@ func SlurpfileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], args[0])
 	}
 
+	if err := env.outside(name); err != nil {
+		return SexpNull, err
+	}
 	if !FileExists(string(fn)) {
 		return SexpNull, fmt.Errorf("file '%s' does not exist", fn)
 	}
@@ -78,6 +81,9 @@ func WriteToFileFunction(name string) ZlispUserFunction {
 			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], args[1])
 		}
 
+		if err := env.outside(name); err != nil {
+			return SexpNull, err
+		}
 		if name == "write" || name == "writef" || name == "save" {
 			// don't overwrite existing file
 			if FileExists(fn) {
diff --git a/zygo/source.go b/zygo/source.go
index 2901ffa..c7ccfbc 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -19,6 +19,9 @@ func SimpleSourceFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("-> error: first argument must be a string")
 	}
 
+	if err := env.outside(name); err != nil {
+		return SexpNull, err
+	}
 	file := src.S
 	if !FileExists(file) {
 		return SexpNull, fmt.Errorf("path '%s' does not exist", file)
@@ -105,7 +108,10 @@ func (env *Zlisp) sourceItem(item Sexp, result *Sexp) error {
 		}
 	case *SexpStr:
 		var f *os.File
-		var err error
+		err := env.outside("source")
+		if err != nil {
+			return err
+		}
 
 		if f, err = os.Open(t.S); err != nil {
 			return err
diff --git a/zygo/system.go b/zygo/system.go
index d54c0f0..59cd993 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -43,6 +43,9 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
+	if err := env.outside(name); err != nil {
+		return SexpNull, err
+	}
 	flat, err := flattenToWordsHelper(args)
 	if err != nil {
 		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
-- 
2.43.0


From 09a642f47a4aa527ef33e35566d864a21a1ebf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 24/34] fix: declared struct types are enforced on every write,
 and belong to their interpreter

---
 zygo/arrayutils.go  |   3 +-
 zygo/builders.go    |  85 ++++++++-------------
 zygo/environment.go |   7 +-
 zygo/expressions.go |  29 +++----
 zygo/functions.go   |  31 +++++---
 zygo/gotypereg.go   | 142 +++++++++++++++++++++++++++--------
 zygo/hashutils.go   | 179 ++++++++++++++++++++++----------------------
 zygo/jsonmsgp.go    |   8 +-
 8 files changed, 283 insertions(+), 201 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index f3f6ba9..596a2e4 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -308,8 +308,7 @@ func (x *SexpArraySelector) AssignToSelection(env *Zlisp, rhs Sexp) error {
 	if err != nil {
 		return err
 	}
-	x.Container.Val[x.Select.Val[0].(*SexpInt).Val] = rhs
-	return nil
+	return x.Container.setElem(int(x.Select.Val[0].(*SexpInt).Val), rhs)
 }
 
 func (env *Zlisp) NewSexpArray(arr []Sexp) *SexpArray {
diff --git a/zygo/builders.go b/zygo/builders.go
index ce4bc53..f11f20b 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -63,6 +63,8 @@ type RecordDefn struct {
 	Name      string
 	Fields    []*SexpField
 	FieldType map[string]*RegisteredType
+
+	typ *RegisteredType // the type this defines
 }
 
 func NewRecordDefn() *RecordDefn {
@@ -85,9 +87,7 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 }
 
 func (p *RecordDefn) Type() *RegisteredType {
-	rt := GoStructRegistry.Registry[p.Name]
-	//Q("RecordDefn) Type() sees rt = %v", rt)
-	return rt
+	return p.typ
 }
 
 // pretty print a struct
@@ -279,6 +279,10 @@ func StructBuilder(env *Zlisp, name string,
 
 	structName := symN.name
 
+	if _, builtin := GoStructRegistry.Builtin[structName]; builtin || structName == "hash" || structName == "field" {
+		return SexpNull, fmt.Errorf("bad struct name: '%s' is a builtin type", structName)
+	}
+
 	// a declaration that fails leaves the one it would have replaced in force.
 	undo := env.checkpointType(symN)
 	declared := false
@@ -288,23 +292,24 @@ func StructBuilder(env *Zlisp, name string,
 		}
 	}()
 
+	uds := NewRecordDefn()
+	uds.SetName(structName)
+	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		return uds, nil
+	})
+	rt.UserStructDefn = uds
+	rt.DisplayAs = structName
+	uds.typ = rt
 	{
-		// begin enable recursion -- add ourselves to the env early, then
-		// update later, so that structs can refer to themselves.
-		udsR := NewRecordDefn()
-		udsR.SetName(structName)
-		rtR := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-			return udsR, nil
-		})
-		rtR.UserStructDefn = udsR
-		rtR.DisplayAs = structName
-		GoStructRegistry.RegisterUserdef(rtR, false, structName)
+		// begin enable recursion -- add ourselves to the env early; the
+		// fields follow, so that structs can refer to themselves.
+		env.declareType(structName, rt)
 
 		// overwrite any existing definition, deliberately ignore any error,
 		// as there may not be a prior definition present at all.
 		env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
 
-		err := env.LexicalBindSymbol(symN, rtR)
+		err := env.LexicalBindSymbol(symN, rt)
 		if err != nil {
 			return SexpNull, fmt.Errorf("struct builder could not bind symbol '%s': '%v'",
 				structName, err)
@@ -367,54 +372,23 @@ func StructBuilder(env *Zlisp, name string,
 		}
 	} // end n == 2
 
-	uds := NewRecordDefn()
-	uds.SetName(structName)
 	uds.SetFields(flat)
-	//Q("good: made typeDefnHash: '%s'", uds.SexpString(nil))
-	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-		return uds, nil
-	})
-	rt.UserStructDefn = uds
-	rt.DisplayAs = structName
-	GoStructRegistry.RegisterUserdef(rt, false, structName)
-	//Q("good: registered new userdefined struct '%s'", structName)
-
-	// replace our recursive-reference-enabling symbol with the real one.
-	err := env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: should have already had symbol '%s' "+
-			"bound, but DeleteSymbolFromTopOfStackScope returned error: '%v'",
-			symN.name, err)
-	}
-	err = env.LexicalBindSymbol(symN, rt)
-	if err != nil {
-		return SexpNull, fmt.Errorf("late: struct builder could not bind symbol '%s': '%v'",
-			structName, err)
-	}
 	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
 	declared = true
 	return rt, nil
 }
 
 // checkpointType returns a function that puts back what sym is bound to and
-// registered as now.
+// declared as now.
 func (env *Zlisp) checkpointType(sym *SexpSymbol) (undo func()) {
-	reg := GoStructRegistry
 	name := sym.name
-	was, registered := reg.Registry[name]
-	user, isUser := reg.Userdef[name]
+	was, declared := env.userTypes.byName[name]
 	bound, hasBinding := env.linearstack.symbolInTopScope(sym)
 	return func() {
-		if registered {
-			reg.Registry[name] = was
+		if declared {
+			env.userTypes.set(name, was)
 		} else {
-			delete(reg.Registry, name)
-			ListRegisteredTypes = withoutName(ListRegisteredTypes, name)
-		}
-		if isUser {
-			reg.Userdef[name] = user
-		} else {
-			delete(reg.Userdef, name)
+			env.userTypes.remove(name)
 		}
 		env.linearstack.DeleteSymbolFromTopOfStackScope(sym)
 		if hasBinding {
@@ -716,13 +690,16 @@ func ArrayOfFunction(env *Zlisp, name string,
 
 	//Q("arrayOf arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
-	derivedType := reflect.ArrayOf(sz, rt.TypeCache)
+	if sz < 0 {
+		return SexpNull, fmt.Errorf("array size %v is negative", sz)
+	}
+	derivedType := reflect.ArrayOf(sz, rt.goType())
 	arrayRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return reflect.New(derivedType), nil
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
 	arrayName := "arrayOf" + rt.RegisteredName
-	GoStructRegistry.RegisterUserdef(arrayRt, false, arrayName)
+	arrayRt.setUserdef(arrayName, false)
 	return arrayRt, nil
 }
 
@@ -789,9 +766,9 @@ func VarBuilder(env *Zlisp, name string,
 			_ = rd
 			//Q("we have RecordDefn rd = %#v", *rd)
 		}
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	default:
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	}
 
 	//Q("var decl: valSexp is '%v'", valSexp.SexpString(nil))
diff --git a/zygo/environment.go b/zygo/environment.go
index fdcefc6..7db7793 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -54,6 +54,7 @@ type Zlisp struct {
 
 	// scripts may not reach the outside world; see outside().
 	sandboxed bool
+	userTypes *declaredTypes // declared by scripts
 
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
@@ -113,6 +114,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env := new(Zlisp)
 	env.baseTypeCtor = MakeUserFunction("__basetype_ctor", BaseTypeConstructorFunction)
 	env.parser = env.NewParser()
+	env.userTypes = &declaredTypes{byName: make(map[string]*RegisteredType)}
 	env.datastack = env.NewStack(DataStackSize)
 	env.linearstack = env.NewStack(ScopeStackSize)
 	env.Echo = true
@@ -200,6 +202,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
 	dupenv.sandboxed = env.sandboxed
+	dupenv.userTypes = env.userTypes
 	return dupenv
 }
 
@@ -234,6 +237,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
 	dupenv.sandboxed = env.sandboxed
+	dupenv.userTypes = env.userTypes
 
 	return dupenv
 }
@@ -1015,7 +1019,8 @@ func (env *Zlisp) FindObject(name string) (Sexp, bool) {
 func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 	//VPrintf("\n\n debug Apply not working on user funcs: fun = '%#v'   and args = '%#v'\n\n", fun, args)
 	if fun.user {
-		return fun.userfun(env, fun.name, args)
+		// the builtin may keep or change its arguments.
+		return fun.userfun(env, fun.name, append([]Sexp{}, args...))
 	}
 
 	callState := env.captureControlState()
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 9ce7786..a3513f4 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -136,9 +136,14 @@ func (r *SexpRaw) Type() *RegisteredType {
 
 type SexpReflect struct {
 	Val reflect.Value
+
+	Typ *RegisteredType // if declared
 }
 
 func (r *SexpReflect) Type() *RegisteredType {
+	if r.Typ != nil {
+		return r.Typ
+	}
 	k := reflectName(reflect.Value(r.Val))
 	//Q("SexpReflect.Type() looking up type named '%s'", k)
 	ty, ok := GoStructRegistry.Registry[k]
@@ -262,20 +267,18 @@ type SexpArray struct {
 }
 
 func (r *SexpArray) Type() *RegisteredType {
-	if r.Typ == nil {
-		if len(r.Val) > 0 {
-			// take type from first element
-			ty := r.Val[0].Type()
-			if ty != nil {
-				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
-			}
-		} else {
-			// empty array
-			r.Typ = GoStructRegistry.Lookup("[]")
-			//P("lookup [] returned type %#v", r.Typ)
-		}
+	if r.Typ != nil {
+		return r.Typ
 	}
-	return r.Typ
+	if len(r.Val) == 0 {
+		return GoStructRegistry.Lookup("[]")
+	}
+	// take type from first element
+	ty := r.Val[0].Type()
+	if ty == nil {
+		return nil
+	}
+	return GoStructRegistry.GetOrCreateSliceType(ty)
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
diff --git a/zygo/functions.go b/zygo/functions.go
index e4cac76..55e3472 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -295,7 +295,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			if i < 0 || i >= len(arr.Val) {
 				return SexpNull, fmt.Errorf("Array index out of bounds")
 			}
-			arr.Val[i] = args[2]
+			return SexpNull, arr.setElem(i, args[2])
 		}
 		return SexpNull, nil
 	}
@@ -378,11 +378,6 @@ func HashAccessFunction(name string) ZlispUserFunction {
 			arr := &SexpArray{Env: env}
 			for i := 0; i < n; i++ {
 				keys = append(keys, (hash.KeyOrder)[i])
-
-				// try to get a .Typ value going too... from the first available.
-				if arr.Typ == nil {
-					arr.Typ = (hash.KeyOrder)[i].Type()
-				}
 			}
 			arr.Val = keys
 			return arr, nil
@@ -604,11 +599,11 @@ func AppendFunction(name string) ZlispUserFunction {
 		case *SexpArray:
 			switch name {
 			case "append":
-				return &SexpArray{Val: joinElements(t.Val, args[1:]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: joinElements(t.Val, args[1:]), Env: env}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: joinElements(t.Val, sl.Val), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: joinElements(t.Val, sl.Val), Env: env}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
@@ -1692,6 +1687,9 @@ func AddressOfFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
+	if args[0].Type() == nil {
+		return SexpNull, fmt.Errorf("cannot take the address of '%v', which has no type", args[0].SexpString(nil))
+	}
 	return NewSexpPointer(args[0]), nil
 }
 
@@ -1746,12 +1744,27 @@ func DerefFunction(name string) ZlispUserFunction {
 			//P("rhstype = %#v, lhstype = %#v", rhstype, lhstype)
 			if lhstype == rhstype {
 				// have to exclude *SexpHash and *SexpReflect from this
-				switch args[1].(type) {
+				switch payload := args[1].(type) {
 				case *SexpHash:
 					// handle below
 				//case *SexpReflect:
 				// handle here or below?
+				case *SexpSymbol, *SexpSentinel, *SexpFunction, *RegisteredType:
+					return SexpNull, fmt.Errorf("derefSet cannot assign to a %T", payload)
 				default:
+					want := ptr.PointedToType
+					arr, isArray := ptr.Target.(*SexpArray)
+					held := isArray && arr.Typ != nil // by a declared field
+					if held {
+						want = arr.Typ
+					}
+					if !want.admits(payload) {
+						return SexpNull, fmt.Errorf("cannot assign '%v' to type '%v'",
+							payload.SexpString(nil), want.RegisteredName)
+					}
+					if held {
+						want.hold(payload)
+					}
 					//P("we have a reflection capable type match!")
 					ptr.ReflectTarget.Elem().Set(rhs.Elem())
 					return
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index a6acbe3..c09af88 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"sync"
 	"time"
 )
 
@@ -129,14 +130,77 @@ func (r *GoStructRegistryType) RegisterUserdef(
 			e0 = &rt
 		}
 		r.register(name, e0, true)
-		e0.IsUser = true
-		e0.hasShadowStruct = hasShadowStruct
+		e0.setUserdef(name, hasShadowStruct)
+	}
+}
+
+// setUserdef makes e, called name, a type that constructs its own records.
+func (e *RegisteredType) setUserdef(name string, hasShadowStruct bool) {
+	e.RegisteredName = name
+	e.IsUser = true
+	e.hasShadowStruct = hasShadowStruct
+	e.Constructor = MakeUserFunction("__struct_"+name,
+		func(env *Zlisp, _ string, args []Sexp) (Sexp, error) {
+			return makeRecord(args, name, e, env)
+		})
+	if e.DisplayAs == "" {
+		e.DisplayAs = name
+	}
+}
+
+// declaredTypes holds the types that the scripts of one interpreter
+// declared; other interpreters do not see them.
+type declaredTypes struct {
+	byName map[string]*RegisteredType
+	names  []string // in order of first declaration
+}
+
+func (d *declaredTypes) set(name string, e *RegisteredType) {
+	if _, found := d.byName[name]; !found {
+		d.names = append(d.names, name)
+	}
+	d.byName[name] = e
+}
+
+func (d *declaredTypes) remove(name string) {
+	delete(d.byName, name)
+	d.names = withoutName(d.names, name)
+}
+
+// declareType makes e the type that name refers to in env.
+func (env *Zlisp) declareType(name string, e *RegisteredType) {
+	e.setUserdef(name, false)
+	env.userTypes.set(name, e)
+}
 
-		e0.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
-		if e0.DisplayAs == "" {
-			e0.DisplayAs = name
+// lookupType finds the type that name refers to in env: one that a script
+// declared, or else one that the host registered.
+func (env *Zlisp) lookupType(name string) *RegisteredType {
+	if env != nil && env.userTypes != nil {
+		if e, found := env.userTypes.byName[name]; found {
+			return e
 		}
 	}
+	if e, found := GoStructRegistry.Registry[name]; found {
+		return e
+	}
+	return plainTypes[name]
+}
+
+// plainTypes are the types of the records that need no declaration.
+var plainTypes map[string]*RegisteredType
+
+func newPlainType(name string) *RegisteredType {
+	e := &RegisteredType{
+		initDone: true,
+		Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+			return MakeHash(nil, name, env)
+		},
+		Aliases:     make(map[string]bool),
+		ReflectName: name,
+	}
+	e.setUserdef(name, false)
+	return e
 }
 
 func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
@@ -196,8 +260,15 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+
+	elem      *RegisteredType // of a slice type: the type of its elements
+	sliceType *RegisteredType // slices of this type; nil until needed
+	ptrType   *RegisteredType // pointers to this type; nil until needed
 }
 
+// derivedTypes guards sliceType and ptrType.
+var derivedTypes sync.Mutex
+
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
 	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
@@ -247,6 +318,10 @@ func NewRegisteredType(f MakeGoStructFunc) *RegisteredType {
 //
 //	Go integration.
 func init() {
+	plainTypes = map[string]*RegisteredType{
+		"hash":  newPlainType("hash"),
+		"field": newPlainType("field"),
+	}
 	GoStructRegistry = GoStructRegistryType{
 		Registry: make(map[string]*RegisteredType),
 		Builtin:  make(map[string]*RegisteredType),
@@ -389,7 +464,12 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if narg != 0 {
 		return SexpNull, WrongNargs
 	}
-	r := ListRegisteredTypes
+	r := append([]string{}, ListRegisteredTypes...)
+	for _, nm := range env.userTypes.names {
+		if GoStructRegistry.Lookup(nm) == nil {
+			r = append(r, nm)
+		}
+	}
 	s := make([]Sexp, len(r))
 	for i := range r {
 		s[i] = &SexpStr{S: r[i]}
@@ -441,42 +521,44 @@ func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
 	return 1, nil
 }
 
+// goType is how Go represents the values of type e.
+func (e *RegisteredType) goType() reflect.Type {
+	if e.TypeCache == nil {
+		return reflect.TypeOf((*SexpHash)(nil))
+	}
+	return e.TypeCache
+}
+
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
-	Q("pointedToType = %#v", pointedToType)
-	ptrName := "*" + pointedToType.RegisteredName
-	ptrRt := gsr.Lookup(ptrName)
-	if ptrRt != nil {
-		Q("type named '%v' already registered, reusing the pointer type", ptrName)
-	} else {
-		Q("registering new pointer type '%v'", ptrName)
-		derivedType := reflect.PtrTo(pointedToType.TypeCache)
-		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	derivedTypes.Lock()
+	defer derivedTypes.Unlock()
+	if pointedToType.ptrType == nil {
+		derivedType := reflect.PtrTo(pointedToType.goType())
+		ptrRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
-		ptrRt.RegisteredName = ptrName
-		gsr.RegisterUserdef(ptrRt, false, ptrName)
+		ptrRt.setUserdef("*"+pointedToType.RegisteredName, false)
+		pointedToType.ptrType = ptrRt
 	}
-	return ptrRt
+	return pointedToType.ptrType
 }
 
 func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *RegisteredType {
-	//sliceName := "sliceOf" + rt.RegisteredName
-	sliceName := "[]" + rt.RegisteredName
-	sliceRt := gsr.Lookup(sliceName)
-	if sliceRt != nil {
-		Q("type named '%v' already registered, re-using the type", sliceName)
-	} else {
-		Q("registering new slice type '%v'", sliceName)
-		derivedType := reflect.SliceOf(rt.TypeCache)
-		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	derivedTypes.Lock()
+	defer derivedTypes.Unlock()
+	if rt.sliceType == nil {
+		sliceName := "[]" + rt.RegisteredName
+		derivedType := reflect.SliceOf(rt.goType())
+		sliceRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
-		sliceRt.RegisteredName = sliceName
-		gsr.RegisterUserdef(sliceRt, false, sliceName)
+		sliceRt.setUserdef(sliceName, false)
+		sliceRt.elem = rt
+		rt.sliceType = sliceRt
 	}
-	return sliceRt
+	return rt.sliceType
 }
 
 func RegisterDemoStructs() {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index a5442c0..19050ee 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -64,6 +64,12 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 }
 
 func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
+	return makeRecord(args, typename, env.lookupType(typename), env)
+}
+
+// makeRecord makes a record of the given type; if that is nil, then of a new
+// type called typename.
+func makeRecord(args []Sexp, typename string, factory *RegisteredType, env *Zlisp) (*SexpHash, error) {
 	//	Q("MakeHash called ")
 	//	for i := range args {
 	//		Q("MakeHash args[i=%v] = '%v'", i, args[i].SexpString(nil))
@@ -92,8 +98,8 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	var iface interface{}
 	jsonMap := make(map[string]*HashFieldDet)
 
-	factory := GoStructRegistry.Lookup(typename)
-	if factory == nil {
+	known := factory != nil
+	if !known {
 		factory = &RegisteredType{Factory: MakeGoStructFunc(func(env *Zlisp, h *SexpHash) (interface{}, error) { return MakeHash(nil, typename, env) })}
 		factory.Aliases = make(map[string]bool)
 	}
@@ -140,13 +146,10 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		k++
 	}
 
-	//Q("doing factory, foundRecordType := GoStructRegistry.Registry[typename]")
-	factoryShad, foundRecordType := GoStructRegistry.Registry[typename]
-	if foundRecordType {
-		//Q("factoryShad = '%#v' for typename='%s'\n", factoryShad, typename)
-		if factoryShad.hasShadowStruct {
+	if known {
+		if factory.hasShadowStruct {
 			//Q("\n in MakeHash: found struct associated with '%s'\n", typename)
-			hash.SetGoStructFactory(factoryShad)
+			hash.SetGoStructFactory(factory)
 			//Q("\n in MakeHash: after SetGoStructFactory for typename '%s'\n", typename)
 			err := hash.SetMethodList(env)
 			if err != nil {
@@ -154,7 +157,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 					"from hash.SetMethodList(): %s", err)
 			}
 		} else {
-			err := factoryShad.TypeCheckRecord(&hash)
+			err := factory.TypeCheckRecord(&hash)
 			if err != nil {
 				return &SexpHash{Env: env}, err
 			}
@@ -165,7 +168,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.RegisterUserdef(factory, false, typename)
+		env.declareType(typename, factory)
 	}
 
 	return &hash, nil
@@ -255,96 +258,90 @@ func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sex
 var KeyNotSymbol = fmt.Errorf("key is not a symbol")
 
 func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
-	//Q("in TypeCheckField, key='%v' val='%v'", key.SexpString(nil), val.SexpString(nil))
-
-	var keySym *SexpSymbol
-	wasSym := false
-	switch ks := key.(type) {
-	case *SexpSymbol:
-		keySym = ks
-		wasSym = true
-	default:
-		return KeyNotSymbol
+	defn := h.declaration()
+	keySym, isSym := key.(*SexpSymbol)
+	if defn == nil {
+		if !isSym {
+			return KeyNotSymbol
+		}
+		return nil
 	}
-	p := h.GoStructFactory
-	if p == nil {
-		//Q("SexpHash.TypeCheckField() sees nil GoStructFactory, bailing out.")
+	if !isSym {
+		return fmt.Errorf("%s has no field '%s' [err 2]", defn.Name, key.SexpString(nil))
+	}
+	declaredTyp, ok := defn.FieldType[keySym.name]
+	if !ok {
+		return fmt.Errorf("%s has no field '%s' [err 2]", defn.Name, keySym.name)
+	}
+	if declaredTyp.admits(val) {
 		return nil
-	} else {
-		//Q("SexpHash.TypeCheckField() sees h.GoStructFactory = '%#v'", h.GoStructFactory)
-	}
-
-	if p.UserStructDefn == nil {
-		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
-
-		// check in the registry for this type!
-		rt := GoStructRegistry.Lookup(h.TypeName)
-
-		// was it found? If so, use it!
-		if rt != nil && rt.UserStructDefn != nil {
-			if rt.UserStructDefn.FieldType != nil {
-				//Q("")
-				//Q("we have a type for hash.TypeName = '%s', using it by "+
-				//	"replacing the hash.GoStructFactory with rt", h.TypeName)
-				//Q("")
-				//Q("old: h.GoStructFactory = '%#v'", h.GoStructFactory)
-				//Q("")
-				//Q("new: rt = '%#v'", rt)
-				//Q("new rt.UserStructDefn.FieldType = '%#v'", rt.UserStructDefn.FieldType)
-				//p.UserStructDefn = rt.UserStructDefn
-				h.GoStructFactory = rt
-				p = h.GoStructFactory
-			}
-		} else {
-			return nil
-		}
 	}
+	obsTyp := val.Type()
+	if obsTyp == nil {
+		return fmt.Errorf("%v has nil Type", val.SexpString(nil))
+	}
+	return fmt.Errorf("field %v.%v is %v, cannot assign %v '%v'",
+		defn.Name,
+		keySym.name,
+		declaredTyp.SexpString(nil),
+		obsTyp.SexpString(nil),
+		val.SexpString(nil))
+}
 
-	// type-check record updates here, if we are a record with a
-	// registered type associated.
-	if wasSym && h.TypeName != "hash" && h.TypeName != "field" && p != nil {
-		k := keySym.name
-		//Q("is key '%s' defined?", k)
-		declaredTyp, ok := p.UserStructDefn.FieldType[k]
-		if !ok {
-			return fmt.Errorf("%s has no field '%s' [err 2]", p.UserStructDefn.Name, k)
-		}
-		obsTyp := val.Type()
-		if obsTyp == nil {
-			// allow certain types to be nil, e.g. [] and nil itself
-			switch a := val.(type) {
-			case *SexpArray:
-				if len(a.Val) == 0 {
-					return nil // okay
+// declaration returns what was declared, when h was made, about the fields of
+// a record such as h; nil if nothing was.
+func (h *SexpHash) declaration() *RecordDefn {
+	if h.GoStructFactory == nil {
+		return nil
+	}
+	return h.GoStructFactory.UserStructDefn
+}
+
+// admits says whether val may be stored in a field declared to be of type p.
+func (p *RegisteredType) admits(val Sexp) bool {
+	switch v := val.(type) {
+	case *SexpSentinel:
+		return true
+	case *SexpArray:
+		if p.elem != nil && (v.Typ == nil || v.Typ == p || len(v.Val) == 0) {
+			for _, e := range v.Val {
+				if !p.elem.admits(e) {
+					return false
 				}
-			case *SexpSentinel:
-				return nil // okay
-			default:
-				return fmt.Errorf("%v has nil Type", val.SexpString(nil))
 			}
+			return true
 		}
+	}
+	obsTyp := val.Type()
+	return obsTyp != nil && obsTyp == p
+}
 
-		//Q("obsTyp is %T / val = %#v", obsTyp, obsTyp)
-		//Q("declaredTyp is %T / val = %#v", declaredTyp, declaredTyp)
-		if obsTyp != declaredTyp {
-			if obsTyp.RegisteredName == "[]" {
-				if strings.HasPrefix(declaredTyp.RegisteredName, "[]") {
-					// okay to assign empty slice to typed slice
-					goto done
-				}
-			}
-			return fmt.Errorf("field %v.%v is %v, cannot assign %v '%v'",
-				p.UserStructDefn.Name,
-				k,
-				declaredTyp.SexpString(nil),
-				obsTyp.SexpString(nil),
-				val.SexpString(nil))
+// hold makes val, which p admits, keep to p from now on.
+func (p *RegisteredType) hold(val Sexp) {
+	arr, isArray := val.(*SexpArray)
+	if !isArray || p.elem == nil || len(arr.Val) == 0 {
+		return
+	}
+	arr.Typ = p
+	for _, e := range arr.Val {
+		p.elem.hold(e)
+	}
+}
+
+// setElem stores val at index i, provided that arr may hold it there.
+func (arr *SexpArray) setElem(i int, val Sexp) error {
+	if arr.Typ != nil && arr.Typ.elem != nil {
+		if !arr.Typ.elem.admits(val) {
+			return fmt.Errorf("element of %v, cannot assign '%v'",
+				arr.Typ.SexpString(nil), val.SexpString(nil))
 		}
+		arr.Typ.elem.hold(val)
 	}
-done:
+	arr.Val[i] = val
 	return nil
 }
 
+
 func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	//vv("in HashSet, key='%v' val='%v'", key.SexpString(nil), val.SexpString(nil))
 
@@ -367,6 +364,9 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if err != nil {
 		return err
 	}
+	if defn := hash.declaration(); defn != nil {
+		defn.FieldType[key.(*SexpSymbol).name].hold(val)
+	}
 	arr, ok := hash.Map[hashval]
 
 	if !ok {
@@ -956,7 +956,10 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
-	return GoStructRegistry.Registry[r.TypeName]
+	if r.GoStructFactory != nil {
+		return r.GoStructFactory
+	}
+	return r.Env.lookupType(r.TypeName)
 }
 
 func compareHash(a *SexpHash, bs Sexp) (int, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 2fef4c8..5b1107f 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -548,8 +548,8 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		} else {
 			//vv("ToGo: tn '%s' does not have GoShadowStruct set, making a new one", tn)
 
-			factory, hasMaker := GoStructRegistry.Registry[tn]
-			if !hasMaker {
+			factory := env.lookupType(tn)
+			if factory == nil {
 				return SexpNull, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 			}
 			newStruct, err = factory.Factory(env, asHash)
@@ -907,8 +907,8 @@ func SexpToGoStructs(
 		}
 
 		// use targVa, but check against the type in the registry for sanity/type checking.
-		factory, hasMaker := GoStructRegistry.Registry[tn]
-		if !hasMaker {
+		factory := env.lookupType(tn)
+		if factory == nil {
 			panic(fmt.Errorf("type '%s' not registered in GoStructRegistry", tn))
 			//return nil, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 		}
-- 
2.43.0


From e3426ca586e33d7aeba3961fc61b8f4ca335fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 25/34] fix: an assignment hands its dotted symbols on
 unevaluated, so that {x.a += 3} assigns

---
 zygo/vm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zygo/vm.go b/zygo/vm.go
index d04ab98..8daa770 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -149,7 +149,7 @@ func (p PopStackPutEnvInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
-	expr, err = env.RValue(expr)
+	expr, err = env.selected(expr)
 	if err != nil {
 		return err
 	}
@@ -177,7 +177,7 @@ func (p UpdateInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
-	expr, err = env.RValue(expr)
+	expr, err = env.selected(expr)
 	if err != nil {
 		return err
 	}
@@ -909,7 +909,7 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
-	rhs, err = env.RValue(rhs)
+	rhs, err = env.selected(rhs)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b4a7b4732fa213761df2a5a8f1e698fa9aa20cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 26/34] fix: a struct with a field of its own type prints

---
 zygo/builders.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index f11f20b..1354ac1 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -169,7 +169,7 @@ func (f *SexpField) FieldWidths() []int {
 				str += key.SexpString(nil) + ":"
 			}
 			wide = append(wide, len(str))
-			wide = append(wide, len(val.SexpString(nil))+1)
+			wide = append(wide, len(fieldValue(val))+1)
 		} else {
 			panic(err)
 		}
@@ -177,6 +177,15 @@ func (f *SexpField) FieldWidths() []int {
 	return wide
 }
 
+// fieldValue prints val as part of a field: of a struct just the name, since
+// structs may contain themselves.
+func fieldValue(val Sexp) string {
+	if rt, isType := val.(*RegisteredType); isType {
+		return rt.ShortName()
+	}
+	return val.SexpString(nil)
+}
+
 func (f *SexpField) AlignString(pad []int) string {
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
@@ -198,7 +207,7 @@ func (f *SexpField) AlignString(pad []int) string {
 				panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
 			}
 			leftpad := strings.Repeat(" ", xtra)
-			vs := val.SexpString(nil)
+			vs := fieldValue(val)
 			rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
 			if i == 0 {
 				spc = " "
@@ -233,9 +242,9 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 				str += key.SexpString(nil) + ":"
 			}
 			if i > 0 {
-				str += val.SexpString(nil) + " "
+				str += fieldValue(val) + " "
 			} else {
-				str += val.SexpString(nil) + "    "
+				str += fieldValue(val) + "    "
 			}
 		} else {
 			panic(err)
-- 
2.43.0


From 8d63902e94d773613b0ad8a1fb2a3074d638a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 27/34] fix: no text can make the interpreter panic, hang or
 exhaust its stack while printing, comparing, parsing or filtering what it
 builds

---
 zygo/arrayutils.go  |   6 +++
 zygo/builders.go    |   6 +--
 zygo/comment.go     |  90 ++++++++++++++++++++++-----------
 zygo/comparisons.go |  26 ++++++++--
 zygo/environment.go |  11 +++--
 zygo/expressions.go | 107 +++++++++++++++++++++++++++------------
 zygo/functions.go   |   3 +-
 zygo/generator.go   |   5 --
 zygo/godump.go      | 114 ++++++++++++++++++++++++++++++++++++++++++
 zygo/gotypereg.go   |   1 -
 zygo/hashutils.go   |  30 +++++++++--
 zygo/jsonmsgp.go    |   3 +-
 zygo/listutils.go   |  66 +++++++++----------------
 zygo/parser.go      | 118 ++++++++++++++++++++++----------------------
 zygo/pratt.go       |   5 ++
 zygo/printstate.go  |  69 ++++++++++++++++++++++++++
 zygo/scopes.go      |   2 -
 zygo/source.go      |   6 ++-
 zygo/typeutils.go   |  32 ++++++------
 zygo/vm.go          |   1 -
 20 files changed, 492 insertions(+), 209 deletions(-)
 create mode 100644 zygo/godump.go

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 596a2e4..c6f733a 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -149,6 +149,12 @@ type SexpArraySelector struct {
 }
 
 func (si *SexpArraySelector) SexpString(ps *PrintState) string {
+	ps = ps.orNew()
+	mark, ok := ps.enter(si)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(si)
 	//Q("in SexpArraySelector.SexpString(), si.Container.Env = %p", si.Container.Env)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
diff --git a/zygo/builders.go b/zygo/builders.go
index 1354ac1..64c0da0 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -157,7 +157,7 @@ func (f *SexpField) FieldWidths() []int {
 	hash := (*SexpHash)(f)
 	wide := []int{}
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.HashGetDefault(nil, key, SexpNull)
 		str := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -191,7 +191,7 @@ func (f *SexpField) AlignString(pad []int) string {
 	str := " (" + hash.TypeName + " "
 	spc := " "
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.HashGetDefault(nil, key, SexpNull)
 		r := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -231,7 +231,7 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 	str := " (" + hash.TypeName + " "
 
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.HashGetDefault(nil, key, SexpNull)
 		if err == nil {
 			switch s := key.(type) {
 			case *SexpStr:
diff --git a/zygo/comment.go b/zygo/comment.go
index fc51d05..94b6a7b 100644
--- a/zygo/comment.go
+++ b/zygo/comment.go
@@ -48,58 +48,92 @@ func RemoveCommasFilter(x Sexp) bool {
 }
 
 func (env *Zlisp) FilterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
+	return (&filtering{env: env, f: f}).any(x)
+}
+
+func (env *Zlisp) FilterArray(x []Sexp, f Filter) []Sexp {
+	return (&filtering{env: env, f: f}).array(x)
+}
+
+func (env *Zlisp) FilterHash(h *SexpHash, f Filter) *SexpHash {
+	// should not actually need this, since hashes
+	// don't yet exist in parsed symbols. (they are
+	// still lists).
+	return h
+}
+
+func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
+	return (&filtering{env: env, f: f}).list(h)
+}
+
+// filtering is one run of a Filter over a value. What eval is given can
+// contain itself, or the same container many times: each is filtered once.
+type filtering struct {
+	env  *Zlisp
+	f    Filter
+	done map[Sexp]Sexp // a container, and what it became; itself while at it
+}
+
+func (r *filtering) any(x Sexp) (filtered Sexp, keep bool) {
 	switch ele := x.(type) {
 	case *SexpArray:
-		res := &SexpArray{Val: env.FilterArray(ele.Val, f), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
+		if already, ok := r.enter(x); ok {
+			return already, true
+		}
+		defer r.env.leave()
+		res := &SexpArray{Val: r.array(ele.Val), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: r.env}
+		r.done[x] = res
 		return res, true
 	case *SexpPair:
-		return env.FilterList(ele, f), true
+		if already, ok := r.enter(x); ok {
+			return already, true
+		}
+		defer r.env.leave()
+		res := r.list(ele)
+		r.done[x] = res
+		return res, true
 	case *SexpHash:
-		return env.FilterHash(ele, f), true
+		return r.env.FilterHash(ele, r.f), true
 	default:
-		keep = f(x)
-		if keep {
+		if r.f(x) {
 			return x, true
 		}
 		return SexpNull, false
 	}
 }
 
-func (env *Zlisp) FilterArray(x []Sexp, f Filter) []Sexp {
-	//P("FilterArray: before: %d in size", len(x))
-	//for i := range x {
-	//P("x[i=%d] = %v", i, x[i].SexpString())
-	//}
+// enter starts on the container x, unless there is nothing to do for it any
+// more, or it is nested too deeply; then it gives what to take for x.
+func (r *filtering) enter(x Sexp) (already Sexp, ok bool) {
+	if res, ok := r.done[x]; ok {
+		return res, true
+	}
+	if r.env.enter() != nil {
+		return x, true // too deep to compile anyhow
+	}
+	if r.done == nil {
+		r.done = make(map[Sexp]Sexp)
+	}
+	r.done[x] = x
+	return nil, false
+}
+
+func (r *filtering) array(x []Sexp) []Sexp {
 	res := []Sexp{}
 	for i := range x {
-		filtered, keep := env.FilterAny(x[i], f)
+		filtered, keep := r.any(x[i])
 		if keep {
 			res = append(res, filtered)
 		}
 	}
-	//P("FilterArray: after: %d in size", len(res))
-	//for i := range res {
-	//P("x[i=%d] = %v", i, res[i].SexpString())
-	//}
 	return res
 }
 
-func (env *Zlisp) FilterHash(h *SexpHash, f Filter) *SexpHash {
-	// should not actually need this, since hashes
-	// don't yet exist in parsed symbols. (they are
-	// still lists).
-	//P("in FilterHash")
-	return h
-}
-
-func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
-	//P("in FilterList")
+func (r *filtering) list(h *SexpPair) Sexp {
 	arr, err := ListToArray(h)
-	res := []Sexp{}
 	if err == NotAList {
 		// don't filter pair lists
 		return h
 	}
-	res = env.FilterArray(arr, f)
-	return MakeList(res)
+	return MakeList(r.array(arr))
 }
diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 93de75b..0db5191 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -172,14 +172,25 @@ func (env *Zlisp) comparePair(a *SexpPair, b Sexp) (int, error) {
 		errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
 		return 0, errors.New(errmsg)
 	}
-	res, err := env.Compare(a.Head, bp.Head)
-	if err != nil {
+	if err := env.enter(); err != nil {
 		return 0, err
 	}
-	if res != 0 {
-		return res, nil
+	defer env.leave()
+	for {
+		res, err := env.Compare(a.Head, bp.Head)
+		if err != nil {
+			return 0, err
+		}
+		if res != 0 {
+			return res, nil
+		}
+		atail, amore := a.Tail.(*SexpPair)
+		btail, bmore := bp.Tail.(*SexpPair)
+		if !amore || !bmore {
+			return env.Compare(a.Tail, bp.Tail)
+		}
+		a, bp = atail, btail
 	}
-	return env.Compare(a.Tail, bp.Tail)
 }
 
 func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
@@ -191,6 +202,11 @@ func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
 		errmsg := fmt.Sprintf("err 97: cannot compare %T to %T", a, b)
 		return 0, errors.New(errmsg)
 	}
+	if err := env.enter(); err != nil {
+		return 0, err
+	}
+	defer env.leave()
+
 	var length int
 	if len(a.Val) < len(ba.Val) {
 		length = len(a.Val)
diff --git a/zygo/environment.go b/zygo/environment.go
index 7db7793..36a2f94 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -330,10 +330,13 @@ const (
 	longestErrorText = 4096
 )
 
-var NestedTooDeeply = errors.New("evaluation nested too deeply")
+var NestedTooDeeply = errors.New("nested too deeply")
 
-// enter starts a nested evaluation or compilation; leave ends it.
+// enter starts a nested evaluation, compilation or comparison; leave ends it.
 func (env *Zlisp) enter() error {
+	if env == nil {
+		return nil
+	}
 	if env.nesting >= maxNesting {
 		return NestedTooDeeply
 	}
@@ -342,7 +345,9 @@ func (env *Zlisp) enter() error {
 }
 
 func (env *Zlisp) leave() {
-	env.nesting--
+	if env != nil {
+		env.nesting--
+	}
 }
 
 type vmControlState struct {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index a3513f4..46ac4c6 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -229,27 +229,37 @@ func Cons(a Sexp, b Sexp) *SexpPair {
 }
 
 func (pair *SexpPair) SexpString(ps *PrintState) string {
-	str := "("
+	ps = ps.orNew()
+	mark, ok := ps.enter(pair)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(pair)
+
+	var str strings.Builder
+	str.WriteString("(")
 
 	for {
-		switch pair.Tail.(type) {
-		case *SexpPair:
-			str += pair.Head.SexpString(ps) + " "
-			pair = pair.Tail.(*SexpPair)
-			continue
+		if !ps.room() {
+			str.WriteString(cutMark + ")")
+			return str.String()
 		}
-		break
+		str.WriteString(pair.Head.SexpString(ps))
+		tail, more := pair.Tail.(*SexpPair)
+		if !more {
+			break
+		}
+		str.WriteString(" ")
+		pair = tail
 	}
 
-	str += pair.Head.SexpString(ps)
-
 	if pair.Tail == SexpNull {
-		str += ")"
+		str.WriteString(")")
 	} else {
-		str += " \\ " + pair.Tail.SexpString(ps) + ")"
+		str.WriteString(" \\ " + pair.Tail.SexpString(ps) + ")")
 	}
 
-	return str
+	return str.String()
 }
 func (r *SexpPair) Type() *RegisteredType {
 	return nil // TODO what should this be?
@@ -267,21 +277,44 @@ type SexpArray struct {
 }
 
 func (r *SexpArray) Type() *RegisteredType {
-	if r.Typ != nil {
-		return r.Typ
+	// the type comes from the first element, which can again be an array
+	nest := 0
+	for r.Typ == nil && len(r.Val) > 0 {
+		if nest >= maxTypeNesting {
+			return nil
+		}
+		nest++
+		inner, isArray := r.Val[0].(*SexpArray)
+		if !isArray {
+			return sliceType(r.Val[0].Type(), nest)
+		}
+		r = inner
 	}
-	if len(r.Val) == 0 {
-		return GoStructRegistry.Lookup("[]")
+	if r.Typ != nil {
+		return sliceType(r.Typ, nest)
 	}
-	// take type from first element
-	ty := r.Val[0].Type()
-	if ty == nil {
-		return nil
+	return sliceType(GoStructRegistry.Lookup("[]"), nest)
+}
+
+// an array nested deeper than this (it can contain itself) has no type.
+const maxTypeNesting = 100
+
+// sliceType returns the type of slices of slices ... of ty.
+func sliceType(ty *RegisteredType, nest int) *RegisteredType {
+	for ; nest > 0 && ty != nil; nest-- {
+		ty = GoStructRegistry.GetOrCreateSliceType(ty)
 	}
-	return GoStructRegistry.GetOrCreateSliceType(ty)
+	return ty
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
+	ps = ps.orNew()
+	mark, ok := ps.enter(arr)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(arr)
+
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -317,37 +350,41 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 		return opn + cls
 	}
 	ta := arr.IsFuncDeclTypeArray
-	str := opn
+	var str strings.Builder
+	str.WriteString(opn)
 
 	last := n - 1
 	var comma2 string
 	for i, sexp := range arr.Val {
-		str += indInner + sexp.SexpString(ps)
+		if !ps.room() {
+			str.WriteString(cutMark + " ")
+			break
+		}
+		str.WriteString(indInner + sexp.SexpString(ps))
 		comma2 = comma
 		if i == last {
 			comma2 = ""
 		}
 		if ta {
 			if i%2 == 0 {
-				str += ":"
+				str.WriteString(":")
 			} else {
-				str += comma2 + " "
+				str.WriteString(comma2 + " ")
 			}
 		} else {
 			if pretty {
-				str += comma2 + "\n"
+				str.WriteString(comma2 + "\n")
 			} else {
-				str += comma2 + " "
+				str.WriteString(comma2 + " ")
 			}
 		}
 	}
-	m := len(str)
+	s := str.String()
+	m := len(s)
 	if pretty {
-		str = str[:m-1] + "\n" + indInner + cls
-	} else {
-		str = str[:m-1] + indInner + cls
+		return s[:m-1] + "\n" + indInner + cls
 	}
-	return str
+	return s[:m-1] + indInner + cls
 }
 
 func (e *SexpError) SexpString(ps *PrintState) string {
@@ -611,6 +648,12 @@ func (lazy *SexpLazyArg) SexpString(ps *PrintState) string {
 	if lazy.Expr == nil {
 		return "(lazyArg nil)"
 	}
+	ps = ps.orNew()
+	mark, ok := ps.enter(lazy)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(lazy)
 	return "(lazyArg " + lazy.Expr.SexpString(ps) + ")"
 }
 
diff --git a/zygo/functions.go b/zygo/functions.go
index 55e3472..890ca30 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"runtime"
 	"unicode"
+	"unicode/utf8"
 )
 
 var WrongNargs error = fmt.Errorf("wrong number of arguments")
@@ -1512,7 +1513,7 @@ func errIfPrivate(pathPart string, pkg *Stack) error {
 	noDot := stripAnyDotPrefix(pathPart)
 
 	// references through a package must be Public
-	if !unicode.IsUpper([]rune(noDot)[0]) {
+	if first, _ := utf8.DecodeRuneInString(noDot); !unicode.IsUpper(first) {
 		return fmt.Errorf("Cannot access private member '%s' of package '%s'",
 			noDot, pkg.PackageName)
 	}
diff --git a/zygo/generator.go b/zygo/generator.go
index b009c3f..897ef81 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -196,7 +196,6 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	if len(args) != 2 {
 		return fmt.Errorf("Wrong number of arguments to %s", opname)
 	}
-	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
 	dup := true
 	var instr Instruction
 	switch args[0].(type) {
@@ -218,7 +217,6 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		case "def":
 			instr = PopStackPutEnvInstr{lhs}
 		case "set":
-			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
 		default:
 			panic(fmt.Errorf("unknown opname '%s'", opname))
@@ -1114,7 +1112,6 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 }
 
 func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
-	Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
 	var lhs *SexpSymbol
 	switch expr := arg.(type) {
 	case *SexpSymbol:
@@ -1145,7 +1142,6 @@ func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
 	}
 
 	if lhs.isDot {
-		Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
 		//return nil, fmt.Errorf("illegal to %s dot-symbol, attempted on '%s'", opname, lhs.name)
 	}
 
@@ -1635,7 +1631,6 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 		gen.AddInstruction(PushInstr{SexpMarker})
 	}
 	for i := range xs {
-		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
 		generate := gen.GenerateValue
 		if n == 1 {
 			generate = gen.Generate
diff --git a/zygo/godump.go b/zygo/godump.go
new file mode 100644
index 0000000..f7eb028
--- /dev/null
+++ b/zygo/godump.go
@@ -0,0 +1,114 @@
+package zygo
+
+import (
+	"fmt"
+	"reflect"
+	"sort"
+	"strings"
+)
+
+// How far (dump x) goes into the Go values that make up x. Everything an
+// interpreter holds can be reached from an array or a hash, so that there
+// has to be an end.
+const (
+	maxDumpDepth = 12
+	maxDumpNodes = 5000
+)
+
+// goDumper writes Go values as Go composite literals, roughly.
+type goDumper struct {
+	out   strings.Builder
+	open  map[interface{}]bool
+	nodes int
+}
+
+// goDump shows the Go values that make up x.
+func goDump(x interface{}) string {
+	d := &goDumper{open: make(map[interface{}]bool)}
+	d.value(reflect.ValueOf(x), 0)
+	d.out.WriteString("\n")
+	return d.out.String()
+}
+
+func (d *goDumper) line(depth int) {
+	d.out.WriteString("\n" + strings.Repeat("\t", depth))
+}
+
+func (d *goDumper) value(v reflect.Value, depth int) {
+	if !v.IsValid() {
+		d.out.WriteString("nil")
+		return
+	}
+	d.nodes++
+	name := v.Type().String()
+	if depth > maxDumpDepth || d.nodes > maxDumpNodes {
+		fmt.Fprintf(&d.out, "(%s)(...)", name)
+		return
+	}
+	switch v.Kind() {
+	case reflect.Interface:
+		d.value(v.Elem(), depth)
+	case reflect.Ptr:
+		if v.IsNil() {
+			fmt.Fprintf(&d.out, "(%s)(nil)", name)
+			return
+		}
+		switch v.Type().Elem() {
+		case reflect.TypeOf(Zlisp{}), reflect.TypeOf(Scope{}), reflect.TypeOf(Stack{}), reflect.TypeOf(RegisteredType{}):
+			// the interpreter, not the value
+			fmt.Fprintf(&d.out, "(%s)(...)", name)
+			return
+		}
+		at := [2]interface{}{v.Type(), v.Pointer()}
+		if d.open[at] {
+			fmt.Fprintf(&d.out, "(%s)(%s)", name, cycleMark)
+			return
+		}
+		d.open[at] = true
+		d.out.WriteString("&")
+		d.value(v.Elem(), depth)
+		delete(d.open, at)
+	case reflect.Struct:
+		d.out.WriteString(name + "{")
+		for i := 0; i < v.NumField(); i++ {
+			d.line(depth + 1)
+			d.out.WriteString(v.Type().Field(i).Name + ": ")
+			d.value(v.Field(i), depth+1)
+			d.out.WriteString(",")
+		}
+		d.line(depth)
+		d.out.WriteString("}")
+	case reflect.Slice, reflect.Array:
+		d.out.WriteString(name + "{")
+		for i := 0; i < v.Len() && d.nodes <= maxDumpNodes; i++ {
+			d.line(depth + 1)
+			d.value(v.Index(i), depth+1)
+			d.out.WriteString(",")
+		}
+		if v.Len() > 0 {
+			d.line(depth)
+		}
+		d.out.WriteString("}")
+	case reflect.Map:
+		d.out.WriteString(name + "{")
+		keys := v.MapKeys()
+		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
+		for i := 0; i < len(keys) && d.nodes <= maxDumpNodes; i++ {
+			d.line(depth + 1)
+			d.value(keys[i], depth+1)
+			d.out.WriteString(": ")
+			d.value(v.MapIndex(keys[i]), depth+1)
+			d.out.WriteString(",")
+		}
+		if len(keys) > 0 {
+			d.line(depth)
+		}
+		d.out.WriteString("}")
+	case reflect.String:
+		fmt.Fprintf(&d.out, "(%s)(%q)", name, v.String())
+	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
+		fmt.Fprintf(&d.out, "(%s)(...)", name)
+	default:
+		fmt.Fprintf(&d.out, "(%s)(%v)", name, v)
+	}
+}
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index c09af88..935aaa1 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -270,7 +270,6 @@ type RegisteredType struct {
 var derivedTypes sync.Mutex
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
-	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
 		Q("in RegisteredType.TypeCheckRecord, TypeName == field, skipping.")
 		return nil
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 19050ee..7b1c672 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -889,6 +889,13 @@ func (hash *SexpHash) ShortName() string {
 }
 
 func (hash *SexpHash) SexpString(ps *PrintState) string {
+	ps = ps.orNew()
+	mark, ok := ps.enter(hash)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(hash)
+
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -914,35 +921,42 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 		}
 	}
 
+	var out strings.Builder
+	out.WriteString(str)
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
 		val, err := hash.HashGet(hash.Env, key)
 		if err == nil {
 			onKey++
+			if !ps.room() {
+				out.WriteString(cutMark + " ")
+				break
+			}
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + `"` + s.S + `":`
+				out.WriteString(indInner + `"` + s.S + `":`)
 			case *SexpSymbol:
 				if asJSON {
-					str += indInner + `"` + s.name + `":`
+					out.WriteString(indInner + `"` + s.name + `":`)
 				} else {
-					str += indInner + s.name + ":"
+					out.WriteString(indInner + s.name + ":")
 				}
 			default:
-				str += indInner + key.SexpString(innerPs) + ":"
+				out.WriteString(indInner + key.SexpString(innerPs) + ":")
 			}
 			comma2 := comma
 			if onKey == lastKey {
 				comma2 = ""
 			}
-			str += val.SexpString(innerPs) + comma2 + " " + prettyEnd
+			out.WriteString(val.SexpString(innerPs) + comma2 + " " + prettyEnd)
 
 		} else {
 			// ignore deleted keys
 			// don't panic(err)
 		}
 	}
+	str = out.String()
 	if displayHashInCurly {
 		if onKey > 0 {
 			return str[:len(str)-1] + prettyEnd + origIndInner + "}"
@@ -1072,6 +1086,12 @@ func (h *SexpHash) NewSexpHashSelector(sym *SexpSymbol) *SexpHashSelector {
 }
 
 func (si *SexpHashSelector) SexpString(ps *PrintState) string {
+	ps = ps.orNew()
+	mark, ok := ps.enter(si)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(si)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
 		return fmt.Sprintf("SexpHashSelector error: could not get RHS: '%v'",
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 5b1107f..a52b09b 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"bytes"
 	"fmt"
-	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
 	"reflect"
 	"sort"
@@ -608,7 +607,7 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 	fmt.Printf("\n")
-	goon.Dump(args[0])
+	fmt.Print(goDump(args[0]))
 	return SexpNull, nil
 }
 
diff --git a/zygo/listutils.go b/zygo/listutils.go
index b69efad..3007c03 100644
--- a/zygo/listutils.go
+++ b/zygo/listutils.go
@@ -23,42 +23,28 @@ func ListToArray(expr Sexp) ([]Sexp, error) {
 }
 
 func MakeList(expressions []Sexp) Sexp {
-	if len(expressions) == 0 {
-		return SexpNull
+	var list Sexp = SexpNull
+	for i := len(expressions) - 1; i >= 0; i-- {
+		list = Cons(expressions[i], list)
 	}
-
-	return Cons(expressions[0], MakeList(expressions[1:]))
+	return list
 }
 
 func MapList(env *Zlisp, fun *SexpFunction, expr Sexp) (Sexp, error) {
-	if expr == SexpNull {
-		return SexpNull, nil
-	}
-
-	var list = &SexpPair{}
-	switch e := expr.(type) {
-	case *SexpPair:
-		list.Head = e.Head
-		list.Tail = e.Tail
-	default:
-		return SexpNull, NotAList
-	}
-
-	var err error
-
-	list.Head, err = env.Apply(fun, []Sexp{list.Head})
-
-	if err != nil {
-		return SexpNull, err
-	}
-
-	list.Tail, err = MapList(env, fun, list.Tail)
-
-	if err != nil {
-		return SexpNull, err
+	mapped := []Sexp{}
+	for expr != SexpNull {
+		pair, isPair := expr.(*SexpPair)
+		if !isPair {
+			return SexpNull, NotAList
+		}
+		val, err := env.Apply(fun, []Sexp{pair.Head})
+		if err != nil {
+			return SexpNull, err
+		}
+		mapped = append(mapped, val)
+		expr = pair.Tail
 	}
-
-	return list, nil
+	return MakeList(mapped), nil
 }
 
 // O(n^2) for n total nodes in all lists. So this is
@@ -87,20 +73,14 @@ func ConcatTwoLists(a *SexpPair, b Sexp) (Sexp, error) {
 		return SexpNull, NotAList
 	}
 
-	if a.Tail == SexpNull {
-		return Cons(a.Head, b), nil
+	front, err := ListToArray(a)
+	if err != nil {
+		return SexpNull, NotAList
 	}
-
-	switch t := a.Tail.(type) {
-	case *SexpPair:
-		newtail, err := ConcatTwoLists(t, b)
-		if err != nil {
-			return SexpNull, err
-		}
-		return Cons(a.Head, newtail), nil
+	for i := len(front) - 1; i >= 0; i-- {
+		b = Cons(front[i], b)
 	}
-
-	return SexpNull, NotAList
+	return b, nil
 }
 
 func ListLen(expr Sexp) (int, error) {
diff --git a/zygo/parser.go b/zygo/parser.go
index 27a76ea..60e0381 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -146,80 +146,76 @@ func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err
 
 	lexer := parser.lexer
 	var tok Token
+	var items []Sexp
 
-tokFilled:
-	for {
-		tok, err = lexer.PeekNextToken(0)
-		//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
-		if err != nil {
-			return SexpNull, err
-		}
-		if tok.typ != TokenEnd {
-			break tokFilled
-		}
-		// instead of returning UnexpectedEnd, we:
-		if err = parser.askForMore(); err != nil {
-			return SexpNull, err
+	// the list of items, then tail.
+	listOf := func(tail Sexp) Sexp {
+		for i := len(items) - 1; i >= 0; i-- {
+			tail = Cons(items[i], tail)
 		}
-		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
-
-		// have to still fill tok, so
-		// loop to the top to PeekNextToken
-	}
-
-	// allow TokenRCurly to end a list too, for the JSON {} style hashes.
-	if tok.typ == endTokenTyp {
-		_, _ = lexer.GetNextToken()
-		return SexpNull, nil
-	}
-
-	var start = &SexpPair{}
-
-	expr, err := parser.ParseExpression(depth + 1)
-	if err != nil {
-		return SexpNull, err
+		return tail
 	}
 
-	start.Head = expr
-
-	tok, err = parser.ParserPeekNextToken(0)
-	if err != nil {
-		return SexpNull, err
-	}
+	for {
+	tokFilled:
+		for {
+			tok, err = lexer.PeekNextToken(0)
+			if err != nil {
+				return SexpNull, err
+			}
+			if tok.typ != TokenEnd {
+				break tokFilled
+			}
+			// instead of returning UnexpectedEnd, we:
+			if err = parser.askForMore(); err != nil {
+				return SexpNull, err
+			}
+			// have to still fill tok, so
+			// loop to the top to PeekNextToken
+		}
 
-	// backslash '\' replaces dot '.'
-	if tok.typ == TokenBackslash {
-		// eat up the backslash
-		_, _ = lexer.GetNextToken()
-		expr, err = parser.ParseExpression(depth + 1)
-		if err != nil {
-			return SexpNull, err
+		// allow TokenRCurly to end a list too, for the JSON {} style hashes.
+		if tok.typ == endTokenTyp {
+			_, _ = lexer.GetNextToken()
+			return listOf(SexpNull), nil
 		}
 
-		// eat up the end paren
-		_, err = parser.ParserPeekNextToken(0)
+		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
-		tok, err = lexer.GetNextToken()
+		items = append(items, expr)
+
+		tok, err = parser.ParserPeekNextToken(0)
 		if err != nil {
 			return SexpNull, err
 		}
-		// make sure it was actually an end paren
-		if tok.typ != TokenRParen {
-			return SexpNull, errors.New("extra value in dotted pair")
-		}
-		start.Tail = expr
-		return start, nil
-	}
 
-	expr, err = parser.ParseList(depth+1, endTokenTyp)
-	if err != nil {
-		return start, err
-	}
-	start.Tail = expr
+		// backslash '\' replaces dot '.'
+		if tok.typ == TokenBackslash {
+			// eat up the backslash
+			_, _ = lexer.GetNextToken()
+			expr, err = parser.ParseExpression(depth + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
-	return start, nil
+			// eat up the end paren
+			_, err = parser.ParserPeekNextToken(0)
+			if err != nil {
+				return SexpNull, err
+			}
+			tok, err = lexer.GetNextToken()
+			if err != nil {
+				return SexpNull, err
+			}
+			// make sure it was actually an end paren
+			if tok.typ != TokenRParen {
+				return SexpNull, errors.New("extra value in dotted pair")
+			}
+			return listOf(expr), nil
+		}
+	}
 }
 
 func (parser *Parser) ParseArray(depth int) (Sexp, error) {
@@ -284,6 +280,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	// 	}
 	// }()
 
+	if depth > maxNesting {
+		return SexpEnd, NestedTooDeeply
+	}
+
 	lexer := parser.lexer
 	env := parser.env
 
diff --git a/zygo/pratt.go b/zygo/pratt.go
index e699833..741117e 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -913,6 +913,11 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 	//	}
 	//}()
 
+	if err := env.enter(); err != nil {
+		return SexpNull, err
+	}
+	defer env.leave()
+
 	cnode := p.NextToken
 	//if cnode != nil {
 	//	Q("top of Expression, rbp = %v, cnode = '%v'", rbp, cnode.SexpString(nil))
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 16cec97..d8cff42 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -13,6 +13,67 @@ type PrintState struct {
 	Indent    int
 	Seen      Seen
 	PrintJSON bool
+
+	// where the printing stands; shared by the states AddIndent() makes.
+	at *printing
+}
+
+// A container being printed inside itself prints as cycleMark. Text nested
+// deeper than maxPrintDepth, or beyond maxPrintNodes values, prints as cutMark:
+// Go cannot recover when its own stack or the memory runs out.
+const (
+	maxPrintDepth = 20000
+	maxPrintNodes = 10 * 1000 * 1000
+	cycleMark     = "<cycle>"
+	cutMark       = "..."
+)
+
+// printing says which containers are being printed, and how much has been.
+type printing struct {
+	open  map[interface{}]struct{}
+	depth int
+	nodes int
+}
+
+func newPrinting() *printing {
+	return &printing{open: make(map[interface{}]struct{})}
+}
+
+// orNew gives the state to print with to a SexpString() called without one.
+func (ps *PrintState) orNew() *PrintState {
+	if ps == nil {
+		return NewPrintState()
+	}
+	return ps
+}
+
+// enter starts printing the container x. When x cannot be printed here, it
+// returns what stands for x, and false. Otherwise leave(x) must follow.
+func (ps *PrintState) enter(x interface{}) (string, bool) {
+	if ps.at == nil {
+		ps.at = newPrinting()
+	}
+	if _, inside := ps.at.open[x]; inside {
+		return cycleMark, false
+	}
+	if ps.at.depth >= maxPrintDepth || ps.at.nodes >= maxPrintNodes {
+		return cutMark, false
+	}
+	ps.at.open[x] = struct{}{}
+	ps.at.depth++
+	ps.at.nodes++
+	return "", true
+}
+
+func (ps *PrintState) leave(x interface{}) {
+	delete(ps.at.open, x)
+	ps.at.depth--
+}
+
+// room says if one more element of a container can be printed.
+func (ps *PrintState) room() bool {
+	ps.at.nodes++
+	return ps.at.nodes <= maxPrintNodes
 }
 
 func (ps *PrintState) SetSeen(x interface{}, name string) {
@@ -42,18 +103,24 @@ func (ps *PrintState) AddIndent(addme int) *PrintState {
 		return &PrintState{
 			Indent: addme,
 			Seen:   NewSeen(),
+			at:     newPrinting(),
 		}
 	}
+	if ps.at == nil {
+		ps.at = newPrinting()
+	}
 	return &PrintState{
 		Indent:    ps.Indent + addme,
 		Seen:      ps.Seen,
 		PrintJSON: ps.PrintJSON,
+		at:        ps.at,
 	}
 }
 
 func NewPrintState() *PrintState {
 	return &PrintState{
 		Seen: NewSeen(),
+		at:   newPrinting(),
 	}
 }
 
@@ -61,12 +128,14 @@ func NewPrintStateWithIndent(indent int) *PrintState {
 	return &PrintState{
 		Indent: indent,
 		Seen:   NewSeen(),
+		at:     newPrinting(),
 	}
 }
 
 func (ps *PrintState) Clear() {
 	ps.Indent = 0
 	ps.Seen = NewSeen()
+	ps.at = newPrinting()
 }
 
 func (ps *PrintState) Dump() {
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 9dc0f2f..cd5b37a 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -192,7 +192,6 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	}
 	cur, already := stack.elements[stack.tos].(*Scope).Map[sym.number]
 	if already {
-		Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
 
 		lhsTy := cur.Type()
 		rhsTy := expr.Type()
@@ -212,7 +211,6 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 		}
 
 		// both sides have type
-		Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
 
 		if lhsTy == rhsTy {
 			Q("BindSymbol: YES types match exactly. Good.")
diff --git a/zygo/source.go b/zygo/source.go
index c7ccfbc..c34e605 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -89,6 +89,10 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 // helper for SourceFileFunction recursion; result becomes the value of the
 // last file sourced.
 func (env *Zlisp) sourceItem(item Sexp, result *Sexp) error {
+	if err := env.enter(); err != nil {
+		return err
+	}
+	defer env.leave()
 	switch t := item.(type) {
 	case *SexpArray:
 		for _, v := range t.Val {
@@ -122,7 +126,7 @@ func (env *Zlisp) sourceItem(item Sexp, result *Sexp) error {
 		}
 
 	default:
-		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item)
+		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item.SexpString(nil))
 	}
 
 	return nil
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index fdc24a1..2fd244b 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -14,32 +14,28 @@ func IsArray(expr Sexp) bool {
 }
 
 func IsList(expr Sexp) bool {
-	if expr == SexpNull {
-		return true
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		return IsList(list.Tail)
+	for {
+		pair, isPair := expr.(*SexpPair)
+		if !isPair {
+			return expr == SexpNull
+		}
+		expr = pair.Tail
 	}
-	return false
 }
 
 func IsAssignmentList(expr Sexp, pos int) (bool, int) {
-	if expr == SexpNull {
-		return false, -1
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		sym, isSym := list.Head.(*SexpSymbol)
-		if !isSym {
-			return IsAssignmentList(list.Tail, pos+1)
+	for {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			return false, -1
 		}
-		if sym.name == "=" || sym.name == ":=" {
+		sym, isSym := list.Head.(*SexpSymbol)
+		if isSym && (sym.name == "=" || sym.name == ":=") {
 			return true, pos
 		}
-		return IsAssignmentList(list.Tail, pos+1)
+		expr = list.Tail
+		pos++
 	}
-	return false, -1
 }
 
 func IsFloat(expr Sexp) bool {
diff --git a/zygo/vm.go b/zygo/vm.go
index 8daa770..a340029 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -184,7 +184,6 @@ func (p UpdateInstr) Execute(env *Zlisp) error {
 	env.pc++
 
 	if p.sym.isSigil {
-		Q("UpdateInstr: ignoring sigil symbol '%s'", p.sym.SexpString(nil))
 		return nil
 	}
 	if p.sym.isDot {
-- 
2.43.0


From 08f1633af8e8052947d33855cc65a33913ce36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 28/34] fix: json, json2 and msgpack write every value so that
 it reads back equal, with its types and field order, or say they cannot

---
 zygo/functions.go |  15 +-
 zygo/hashutils.go |  39 +---
 zygo/jsonmsgp.go  | 569 ++++++++++++++++++++++++++++++++++++++--------
 3 files changed, 482 insertions(+), 141 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 890ca30..ce85579 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -2,6 +2,7 @@ package zygo
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"os"
 	"reflect"
@@ -1310,9 +1311,17 @@ func SimpleJSONStringFunction(env *Zlisp, name string, args []Sexp) (Sexp, error
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
 	}
-	ps := NewPrintState()
-	ps.PrintJSON = true
-	s := args[0].SexpString(ps)
+	s, err := sexpToJson(args[0], false)
+	if err != nil {
+		return SexpNull, err
+	}
+	if env.Pretty {
+		var pretty bytes.Buffer
+		if err := json.Indent(&pretty, []byte(s), "", "    "); err != nil {
+			return SexpNull, err
+		}
+		s = pretty.String()
+	}
 	return &SexpStr{S: s}, nil
 }
 
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 7b1c672..90243c0 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -772,44 +772,7 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 
 	case map[string]interface{}:
 
-		//Q("depth %d found map[string]interface case: val = %#v\n", depth, val)
-		sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(val)
-
-		pairs := make([]Sexp, 0)
-
-		typeName := "hash"
-		var keyOrd Sexp
-		foundzKeyOrder := false
-		for i := range sortedMapKey {
-			// special field storing the name of our record (defmap) type.
-			//Q("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
-			//Q("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
-			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
-				foundzKeyOrder = true
-			} else if sortedMapKey[i] == "Atype" {
-				tn, isString := sortedMapVal[i].(string)
-				if isString {
-					typeName = string(tn)
-				}
-			} else {
-				sym := env.MakeSymbol(sortedMapKey[i])
-				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
-				pairs = append(pairs, ele)
-			}
-		}
-		hash, err := MakeHash(pairs, typeName, env)
-		if err != nil {
-			return SexpNull, err
-		}
-		if foundzKeyOrder {
-			err = SetHashKeyOrder(hash, keyOrd)
-			if err != nil {
-				return SexpNull, err
-			}
-		}
-		return hash, nil
+		return decodeGoToSexpHelper(r, depth, env, preferSym)
 
 	case []byte:
 		//Q("depth %d found []byte case: val = %#v\n", depth, val)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index a52b09b..a0bed4d 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -2,12 +2,17 @@ package zygo
 
 import (
 	"bytes"
+	"encoding/base64"
+	"encoding/json"
 	"fmt"
 	"github.com/ugorji/go/codec"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 	"unsafe"
 )
 
@@ -65,7 +70,10 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
-			str := SexpToJson(args[0])
+			str, err := sexpToJson(args[0], true)
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(str)}, nil
 		case "unjson":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -74,7 +82,10 @@ func JsonFunction(name string) ZlispUserFunction {
 			}
 			return JsonToSexp([]byte(raw.Val), env)
 		case "msgpack":
-			by, _ := SexpToMsgpack(args[0])
+			by, _, err := sexpToMsgpack(args[0])
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(by)}, nil
 		case "unmsgpack":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -89,72 +100,376 @@ func JsonFunction(name string) ZlispUserFunction {
 }
 
 // json -> sexp. env is needed to handle symbols correctly
-func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
-	iface, err := JsonToGo(json)
+func JsonToSexp(jsonText []byte, env *Zlisp) (Sexp, error) {
+	iface, err := JsonToGo(jsonText)
 	if err != nil {
 		return nil, err
 	}
 	return GoToSexp(iface, env)
 }
 
-// sexp -> json
+// the reserved keys that carry a record's type name and field order.
+const (
+	typeNameKey = "Atype"
+	keyOrderKey = "zKeyOrder"
+)
+
+// sexp -> json. It panics if there is no JSON for exp.
 func SexpToJson(exp Sexp) string {
+	str, err := sexpToJson(exp, true)
+	panicOn(err)
+	return str
+}
+
+// sexpToJson writes exp as JSON. With meta, hashes carry their type
+// name and their key order.
+func sexpToJson(exp Sexp, meta bool) (string, error) {
+	if err := encodable(exp); err != nil {
+		return "", err
+	}
+	var out strings.Builder
+	if err := writeJson(&out, exp, meta); err != nil {
+		return "", err
+	}
+	return out.String(), nil
+}
+
+func writeJson(out *strings.Builder, exp Sexp, meta bool) error {
 	switch e := exp.(type) {
 	case *SexpHash:
-		return e.jsonHashHelper()
+		return e.writeJson(out, meta)
 	case *SexpArray:
-		return e.jsonArrayHelper()
+		return writeJsonArray(out, e.Val, meta)
+	case *SexpPair:
+		items, err := ListToArray(e)
+		if err != nil {
+			return fmt.Errorf("no JSON for a dotted pair")
+		}
+		return writeJsonArray(out, items, meta)
+	case *SexpStr:
+		return writeJsonString(out, e.S)
 	case *SexpSymbol:
-		return `"` + e.name + `"`
-	default:
-		return exp.SexpString(nil)
+		return writeJsonString(out, e.name)
+	case *SexpChar:
+		return writeJsonString(out, string(e.Val))
+	case *SexpInt:
+		out.WriteString(strconv.FormatInt(e.Val, 10))
+		return nil
+	case *SexpUint64:
+		out.WriteString(strconv.FormatUint(e.Val, 10))
+		return nil
+	case *SexpFloat:
+		num, err := jsonFloat(e)
+		out.WriteString(num)
+		return err
+	case *SexpBool:
+		out.WriteString(strconv.FormatBool(e.Val))
+		return nil
+	case *SexpTime:
+		return writeJsonString(out, e.Tm.Format(time.RFC3339Nano))
+	case *SexpRaw:
+		return writeJsonString(out, base64.StdEncoding.EncodeToString(e.Val))
+	case *SexpReflect:
+		by, err := json.Marshal(reflect.Value(e.Val).Interface())
+		out.Write(by)
+		return err
+	}
+	if exp == SexpNull {
+		out.WriteString("null")
+		return nil
+	}
+	return noEncoding(exp)
+}
+
+func noEncoding(exp Sexp) error {
+	return fmt.Errorf("cannot encode a value of type %T", exp)
+}
+
+// jsonFloat: whole numbers beyond 2^53 are written with an exponent, since
+// their shortest decimal digits do not stand for that very integer.
+func jsonFloat(f *SexpFloat) (string, error) {
+	if math.IsNaN(f.Val) || math.IsInf(f.Val, 0) {
+		return "", fmt.Errorf("no JSON for the number %v", f.Val)
+	}
+	if f.Scientific || math.Abs(f.Val) >= 1<<53 {
+		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize), nil
+	}
+	num := strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	if !strings.Contains(num, ".") {
+		num += ".0"
 	}
+	return num, nil
 }
 
-func (hash *SexpHash) jsonHashHelper() string {
-	str := fmt.Sprintf(`{"Atype":"%s", `, hash.TypeName)
+// jsonEscape is how the rune c is written within a JSON string.
+func jsonEscape(c rune) string {
+	switch c {
+	case '"':
+		return `\"`
+	case '\\':
+		return `\\`
+	case '\n':
+		return `\n`
+	case '\r':
+		return `\r`
+	case '\t':
+		return `\t`
+	}
+	if c < ' ' || c == 0x7f {
+		return fmt.Sprintf(`\u%04x`, c)
+	}
+	return string(c)
+}
 
-	ko := []string{}
-	n := len(hash.KeyOrder)
-	if n == 0 {
-		return str[:len(str)-2] + "}"
+func writeJsonString(out *strings.Builder, s string) error {
+	if !utf8.ValidString(s) {
+		return fmt.Errorf("no JSON for a string that is not UTF-8: %q", s)
 	}
+	out.WriteByte('"')
+	for _, c := range s {
+		out.WriteString(jsonEscape(c))
+	}
+	out.WriteByte('"')
+	return nil
+}
 
+func writeJsonArray(out *strings.Builder, items []Sexp, meta bool) error {
+	out.WriteString("[")
+	for i, item := range items {
+		if i > 0 {
+			out.WriteString(", ")
+		}
+		if err := writeJson(out, item, meta); err != nil {
+			return err
+		}
+	}
+	out.WriteString("]")
+	return nil
+}
+
+// fieldNames lists the names of the keys of hash, in their order, for encoding.
+func (hash *SexpHash) fieldNames() ([]string, error) {
+	names := make([]string, 0, len(hash.KeyOrder))
+	seen := make(map[string]bool)
 	for _, key := range hash.KeyOrder {
-		keyst := key.SexpString(nil)
-		ko = append(ko, keyst)
-		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			str += `"` + keyst + `":`
-			str += string(SexpToJson(val)) + `, `
-		} else {
-			panic(err)
+		var name string
+		switch k := key.(type) {
+		case *SexpStr:
+			name = k.S
+		case *SexpSymbol:
+			name = k.name
+		case *SexpChar:
+			name = string(k.Val)
+		default:
+			name = key.SexpString(nil)
 		}
+		if name == typeNameKey || name == keyOrderKey {
+			return nil, fmt.Errorf("cannot encode the key '%s': this name is reserved", name)
+		}
+		if seen[name] {
+			return nil, fmt.Errorf("cannot encode two keys that are both named '%s'", name)
+		}
+		seen[name] = true
+		names = append(names, name)
 	}
+	return names, nil
+}
 
-	str += `"zKeyOrder":[`
-	for _, key := range ko {
-		str += `"` + key + `", `
+func (hash *SexpHash) writeJson(out *strings.Builder, meta bool) error {
+	names, err := hash.fieldNames()
+	if err != nil {
+		return err
+	}
+	sep := ""
+	out.WriteString("{")
+	if meta || hash.TypeName != "hash" {
+		out.WriteString(`"` + typeNameKey + `":`)
+		if err := writeJsonString(out, hash.TypeName); err != nil {
+			return err
+		}
+		sep = ", "
 	}
-	if n > 0 {
-		str = str[:len(str)-2]
+	for i, key := range hash.KeyOrder {
+		// not HashGet, which would take a dotted symbol for a path.
+		val, err := hash.HashGetDefault(nil, key, SexpEnd)
+		if err != nil {
+			return err
+		}
+		out.WriteString(sep)
+		sep = ", "
+		if err := writeJsonString(out, names[i]); err != nil {
+			return err
+		}
+		out.WriteString(":")
+		if err := writeJson(out, val, meta); err != nil {
+			return err
+		}
 	}
-	str += "]}"
+	if meta && len(names) > 0 {
+		out.WriteString(sep + `"` + keyOrderKey + `":[`)
+		for i, name := range names {
+			if i > 0 {
+				out.WriteString(", ")
+			}
+			if err := writeJsonString(out, name); err != nil {
+				return err
+			}
+		}
+		out.WriteString("]")
+	}
+	out.WriteString("}")
+	return nil
+}
 
-	//VPrintf("\n\n final ToJson() str = '%s'\n", str)
-	return str
+// sexpToPlainGo gives the go value that is encoded for exp.
+func sexpToPlainGo(exp Sexp) (interface{}, error) {
+	switch e := exp.(type) {
+	case *SexpHash:
+		names, err := e.fieldNames()
+		if err != nil {
+			return nil, err
+		}
+		m := map[string]interface{}{typeNameKey: e.TypeName}
+		order := []interface{}{}
+		for i, key := range e.KeyOrder {
+			val, err := e.HashGetDefault(nil, key, SexpEnd)
+			if err != nil {
+				return nil, err
+			}
+			m[names[i]], err = sexpToPlainGo(val)
+			if err != nil {
+				return nil, err
+			}
+			order = append(order, names[i])
+		}
+		if len(order) > 0 {
+			m[keyOrderKey] = order
+		}
+		return m, nil
+	case *SexpArray:
+		return arrayToPlainGo(e.Val)
+	case *SexpPair:
+		items, err := ListToArray(e)
+		if err != nil {
+			return nil, fmt.Errorf("cannot encode a dotted pair")
+		}
+		return arrayToPlainGo(items)
+	case *SexpStr:
+		return e.S, nil
+	case *SexpSymbol:
+		return e.name, nil
+	case *SexpChar:
+		return string(e.Val), nil
+	case *SexpInt:
+		return e.Val, nil
+	case *SexpUint64:
+		return e.Val, nil
+	case *SexpFloat:
+		return e.Val, nil
+	case *SexpBool:
+		return e.Val, nil
+	case *SexpTime:
+		return e.Tm.Format(time.RFC3339Nano), nil
+	case *SexpRaw:
+		return e.Val, nil
+	case *SexpReflect:
+		return reflect.Value(e.Val).Interface(), nil
+	}
+	if exp == SexpNull {
+		return nil, nil
+	}
+	return nil, noEncoding(exp)
 }
 
-func (arr *SexpArray) jsonArrayHelper() string {
-	if len(arr.Val) == 0 {
-		return "[]"
+func arrayToPlainGo(items []Sexp) (interface{}, error) {
+	arr := make([]interface{}, len(items))
+	for i, item := range items {
+		val, err := sexpToPlainGo(item)
+		if err != nil {
+			return nil, err
+		}
+		arr[i] = val
 	}
+	return arr, nil
+}
+
+// Data nested deeper than maxDataDepth cannot be encoded, nor data with more
+// than maxDataSize parts, counting a part each time it occurs.
+const (
+	maxDataDepth = 10000
+	maxDataSize  = 50 * 1000 * 1000
+)
+
+// encodable returns an error if exp contains itself, is nested too deeply or is too large.
+func encodable(exp Sexp) error {
+	m := &dataMeasure{size: make(map[Sexp]int)}
+	_, err := m.measure(exp, 0)
+	return err
+}
 
-	str := "[" + SexpToJson(arr.Val[0])
-	for _, sexp := range arr.Val[1:] {
-		str += ", " + SexpToJson(sexp)
+// dataMeasure knows the sizes of the containers seen; -1 while one is being measured.
+type dataMeasure struct {
+	size map[Sexp]int
+}
+
+func (m *dataMeasure) measure(exp Sexp, depth int) (int, error) {
+	switch exp.(type) {
+	case *SexpHash, *SexpArray, *SexpPair:
+	default:
+		return 1, nil
+	}
+	if n, seen := m.size[exp]; seen {
+		if n < 0 {
+			return 0, fmt.Errorf("cannot convert a value that contains itself")
+		}
+		return n, nil
+	}
+	if depth > maxDataDepth {
+		return 0, NestedTooDeeply
+	}
+	m.size[exp] = -1
+	total := 1
+	add := func(part Sexp) error {
+		n, err := m.measure(part, depth+1)
+		total += n
+		if err == nil && total > maxDataSize {
+			return fmt.Errorf("cannot convert a value this large")
+		}
+		return err
 	}
-	return str + "]"
+	switch e := exp.(type) {
+	case *SexpHash:
+		for _, key := range e.KeyOrder {
+			val, err := e.HashGetDefault(nil, key, SexpEnd)
+			if err == nil {
+				err = add(val)
+			}
+			if err != nil {
+				return 0, err
+			}
+		}
+	case *SexpArray:
+		for _, val := range e.Val {
+			if err := add(val); err != nil {
+				return 0, err
+			}
+		}
+	case *SexpPair:
+		for pair := e; pair != nil; {
+			if err := add(pair.Head); err != nil {
+				return 0, err
+			}
+			next, more := pair.Tail.(*SexpPair)
+			if !more {
+				if err := add(pair.Tail); err != nil {
+					return 0, err
+				}
+			}
+			pair = next
+		}
+	}
+	m.size[exp] = total
+	return total, nil
 }
 
 type msgpackHelper struct {
@@ -177,6 +492,7 @@ func (m *msgpackHelper) init() {
 	m.mh.WriteExt = true
 	m.mh.SignedInteger = true
 	m.mh.Canonical = true // sort maps before writing them
+	m.mh.MaxDepth = maxDataDepth
 
 	// JSON
 	m.jh.MapType = reflect.TypeOf(map[string]interface{}(nil))
@@ -192,29 +508,71 @@ func init() {
 	msgpHelper.init()
 }
 
-// translate to sexp -> json -> go -> msgpack
-// returns both the msgpack []bytes and the go intermediary
+// translate to sexp -> go -> msgpack
+// returns both the msgpack []bytes and the go intermediary.
+// It panics if there is no msgpack for exp.
 func SexpToMsgpack(exp Sexp) ([]byte, interface{}) {
-
-	json := []byte(SexpToJson(exp))
-	iface, err := JsonToGo(json)
-	panicOn(err)
-	by, err := GoToMsgpack(iface)
+	by, iface, err := sexpToMsgpack(exp)
 	panicOn(err)
 	return by, iface
 }
 
+func sexpToMsgpack(exp Sexp) ([]byte, interface{}, error) {
+	if err := encodable(exp); err != nil {
+		return nil, nil, err
+	}
+	iface, err := sexpToPlainGo(exp)
+	if err != nil {
+		return nil, nil, err
+	}
+	by, err := GoToMsgpack(iface)
+	return by, iface, err
+}
+
 // json -> go
-func JsonToGo(json []byte) (interface{}, error) {
+func JsonToGo(jsonText []byte) (interface{}, error) {
 	var iface interface{}
 
-	decoder := codec.NewDecoderBytes(json, &msgpHelper.jh)
+	decoder := json.NewDecoder(bytes.NewReader(jsonText))
+	decoder.UseNumber()
 	err := decoder.Decode(&iface)
 	if err != nil {
-		panic(err)
+		return nil, err
+	}
+	return numbersToGo(iface)
+}
+
+// numbersToGo replaces the json.Number within iface by int64, by uint64 if
+// it takes that, else by float64.
+func numbersToGo(iface interface{}) (interface{}, error) {
+	switch val := iface.(type) {
+	case json.Number:
+		if !strings.ContainsAny(string(val), ".eE") {
+			if i, err := strconv.ParseInt(string(val), 10, 64); err == nil {
+				return i, nil
+			}
+			if u, err := strconv.ParseUint(string(val), 10, 64); err == nil {
+				return u, nil
+			}
+		}
+		return val.Float64()
+	case []interface{}:
+		for i := range val {
+			ele, err := numbersToGo(val[i])
+			if err != nil {
+				return nil, err
+			}
+			val[i] = ele
+		}
+	case map[string]interface{}:
+		for k := range val {
+			ele, err := numbersToGo(val[k])
+			if err != nil {
+				return nil, err
+			}
+			val[k] = ele
+		}
 	}
-	//VPrintf("\n decoded type : %T\n", iface)
-	//VPrintf("\n decoded value: %#v\n", iface)
 	return iface, nil
 }
 
@@ -270,98 +628,105 @@ func MsgpackToGo(msgp []byte) (interface{}, error) {
 // convert iface, which will typically be map[string]interface{},
 // into an s-expression
 func GoToSexp(iface interface{}, env *Zlisp) (Sexp, error) {
-	return decodeGoToSexpHelper(iface, 0, env, false), nil
+	return decodeGoToSexpHelper(iface, 0, env, false)
 }
 
-func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (s Sexp) {
+func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (s Sexp, err error) {
+	if depth > maxDataDepth {
+		return SexpNull, NestedTooDeeply
+	}
 
 	//VPrintf("decodeHelper() at depth %d, decoded type is %T\n", depth, r)
 	switch val := r.(type) {
 	case string:
-		//VPrintf("depth %d found string case: val = %#v\n", depth, val)
 		if preferSym {
-			return env.MakeSymbol(val)
+			return env.MakeSymbol(val), nil
 		}
-		return &SexpStr{S: val}
+		return &SexpStr{S: val}, nil
 
 	case int:
-		//VPrintf("depth %d found int case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}
+		return &SexpInt{Val: int64(val)}, nil
 
 	case int32:
-		//VPrintf("depth %d found int32 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}
+		return &SexpInt{Val: int64(val)}, nil
 
 	case int64:
-		//VPrintf("depth %d found int64 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: val}
+		return &SexpInt{Val: val}, nil
+
+	case uint64:
+		if val <= math.MaxInt64 {
+			return &SexpInt{Val: int64(val)}, nil
+		}
+		return &SexpUint64{Val: val}, nil
 
 	case float64:
-		//VPrintf("depth %d found float64 case: val = %#v\n", depth, val)
-		return &SexpFloat{Val: val}
+		return &SexpFloat{Val: val}, nil
 
 	case []interface{}:
-		//VPrintf("depth %d found []interface{} case: val = %#v\n", depth, val)
-
-		slice := []Sexp{}
+		slice := make([]Sexp, 0, len(val))
 		for i := range val {
-			slice = append(slice, decodeGoToSexpHelper(val[i], depth+1, env, preferSym))
+			ele, err := decodeGoToSexpHelper(val[i], depth+1, env, preferSym)
+			if err != nil {
+				return SexpNull, err
+			}
+			slice = append(slice, ele)
 		}
-		return &SexpArray{Val: slice, Env: env}
+		return &SexpArray{Val: slice, Env: env}, nil
 
 	case map[string]interface{}:
-
-		//VPrintf("depth %d found map[string]interface case: val = %#v\n", depth, val)
 		sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(val)
 
-		pairs := make([]Sexp, 0)
+		pairs := make([]Sexp, 0, 2*len(val))
 
 		typeName := "hash"
 		var keyOrd Sexp
-		foundzKeyOrder := false
-		for i := range sortedMapKey {
-			// special field storing the name of our record (defmap) type.
-			//VPrintf("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
-			//VPrintf("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
-			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
-				foundzKeyOrder = true
-			} else if sortedMapKey[i] == "Atype" {
+		for i, key := range sortedMapKey {
+			switch key {
+			case keyOrderKey:
+				keyOrd, err = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
+				if err != nil {
+					return SexpNull, err
+				}
+			case typeNameKey:
+				// special field storing the name of our record (defmap) type.
 				tn, isString := sortedMapVal[i].(string)
 				if isString {
-					typeName = string(tn)
+					typeName = tn
+				}
+			default:
+				ele, err := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
+				if err != nil {
+					return SexpNull, err
 				}
-			} else {
-				sym := env.MakeSymbol(sortedMapKey[i])
-				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
-				pairs = append(pairs, ele)
+				pairs = append(pairs, env.MakeSymbol(key), ele)
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
-		panicOn(err)
-		if foundzKeyOrder {
+		if err != nil {
+			return SexpNull, err
+		}
+		if keyOrd != nil {
 			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
+			if err != nil {
+				return SexpNull, err
+			}
 		}
-		return hash
+		return hash, nil
 
 	case []byte:
-		//VPrintf("depth %d found []byte case: val = %#v\n", depth, val)
-
-		return &SexpRaw{Val: val}
+		return &SexpRaw{Val: val}, nil
 
 	case nil:
-		return SexpNull
+		return SexpNull, nil
 
 	case bool:
-		return &SexpBool{Val: val}
+		return &SexpBool{Val: val}, nil
 
 	case *SexpReflect:
 		return decodeGoToSexpHelper(val.Val.Interface(), depth+1, env, preferSym)
 
 	case time.Time:
-		return &SexpTime{Tm: val}
+		return &SexpTime{Tm: val}, nil
 
 	default:
 		// do we have a struct for it?
@@ -372,10 +737,8 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		} else {
 			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
 		}
-		return SexpNull
+		return SexpNull, nil
 	}
-
-	return s
 }
 
 //msgp:ignore mapsorter KiSlice
@@ -418,6 +781,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 
 	cacheHit := false
 	if dedup == nil {
+		panicOn(encodable(sexp))
 		dedup = make(map[*SexpHash]interface{})
 	}
 
@@ -626,6 +990,11 @@ func SexpToGoStructs(
 	//defer func() {
 	//vv("returning from SexpToGoStructs, target='%p'/'%#v'", target, target)
 	//}()
+	if calldepth == 0 {
+		if err := encodable(sexp); err != nil {
+			return nil, err
+		}
+	}
 	cacheHit := false
 	if dedup == nil {
 		dedup = make(map[*SexpHash]interface{})
-- 
2.43.0


From 88198a3f17715f4cbf82a744552f0bcce0df26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 29/34] fix: an empty path part has no first letter

---
 zygo/functions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index ce85579..1f199f5 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -8,7 +8,6 @@ import (
 	"reflect"
 	"runtime"
 	"unicode"
-	"unicode/utf8"
 )
 
 var WrongNargs error = fmt.Errorf("wrong number of arguments")
@@ -1522,7 +1521,8 @@ func errIfPrivate(pathPart string, pkg *Stack) error {
 	noDot := stripAnyDotPrefix(pathPart)
 
 	// references through a package must be Public
-	if first, _ := utf8.DecodeRuneInString(noDot); !unicode.IsUpper(first) {
+	letters := []rune(noDot)
+	if len(letters) == 0 || !unicode.IsUpper(letters[0]) {
 		return fmt.Errorf("Cannot access private member '%s' of package '%s'",
 			noDot, pkg.PackageName)
 	}
-- 
2.43.0


From 97d4226cb3b8ecbb0df8cc9ee95333a8a77c773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 30/34] fix: printing, syntax-quote, include and type nesting
 count their depth; no Go stack overflow from deep data

---
 zygo/builders.go    | 96 +++++++++++++++++++++++++++------------------
 zygo/comparisons.go | 30 ++++++++------
 zygo/expressions.go | 14 ++++++-
 zygo/functions.go   | 28 +++++++------
 zygo/generator.go   | 39 ++++++++++++++----
 zygo/gotypereg.go   | 12 ++++++
 zygo/scopes.go      |  8 +++-
 zygo/stack.go       |  8 +++-
 zygo/system.go      | 16 +++++---
 9 files changed, 175 insertions(+), 76 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 64c0da0..6d5354a 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -96,12 +96,18 @@ func (p *RecordDefn) SexpString(ps *PrintState) string {
 	if len(p.Fields) == 0 {
 		return fmt.Sprintf("(struct %s)", p.Name)
 	}
+	ps = ps.orNew()
+	mark, ok := ps.enter(p)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(p)
 	s := fmt.Sprintf("(struct %s [\n", p.Name)
 
 	w := make([][]int, len(p.Fields))
 	maxnfield := 0
 	for i, f := range p.Fields {
-		w[i] = f.FieldWidths()
+		w[i] = f.fieldWidths(ps)
 		//Q("w[i=%v] = %v", i, w[i])
 		maxnfield = maxi(maxnfield, len(w[i]))
 	}
@@ -133,7 +139,7 @@ func (p *RecordDefn) SexpString(ps *PrintState) string {
 	// xxx     x  x x
 	//Q("pad = %#v", biggestCol)
 	for _, f := range p.Fields {
-		s += " " + f.AlignString(biggestCol) + "\n"
+		s += " " + f.alignString(biggestCol, ps) + "\n"
 	}
 	s += " ])\n"
 	return s
@@ -154,6 +160,10 @@ func (r SexpField) Type() *RegisteredType {
 
 // compute key and value widths to assist alignment
 func (f *SexpField) FieldWidths() []int {
+	return f.fieldWidths(NewPrintState())
+}
+
+func (f *SexpField) fieldWidths(ps *PrintState) []int {
 	hash := (*SexpHash)(f)
 	wide := []int{}
 	for _, key := range hash.KeyOrder {
@@ -166,10 +176,10 @@ func (f *SexpField) FieldWidths() []int {
 			case *SexpSymbol:
 				str += s.name + ":"
 			default:
-				str += key.SexpString(nil) + ":"
+				str += key.SexpString(ps) + ":"
 			}
 			wide = append(wide, len(str))
-			wide = append(wide, len(fieldValue(val))+1)
+			wide = append(wide, len(fieldValue(val, ps))+1)
 		} else {
 			panic(err)
 		}
@@ -179,14 +189,18 @@ func (f *SexpField) FieldWidths() []int {
 
 // fieldValue prints val as part of a field: of a struct just the name, since
 // structs may contain themselves.
-func fieldValue(val Sexp) string {
+func fieldValue(val Sexp, ps *PrintState) string {
 	if rt, isType := val.(*RegisteredType); isType {
 		return rt.ShortName()
 	}
-	return val.SexpString(nil)
+	return val.SexpString(ps)
 }
 
 func (f *SexpField) AlignString(pad []int) string {
+	return f.alignString(pad, NewPrintState())
+}
+
+func (f *SexpField) alignString(pad []int, ps *PrintState) string {
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
 	spc := " "
@@ -200,14 +214,14 @@ func (f *SexpField) AlignString(pad []int) string {
 			case *SexpSymbol:
 				r += s.name + ":"
 			default:
-				r += key.SexpString(nil) + ":"
+				r += key.SexpString(ps) + ":"
 			}
 			xtra := pad[i*2] - len(r)
 			if xtra < 0 {
 				panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
 			}
 			leftpad := strings.Repeat(" ", xtra)
-			vs := fieldValue(val)
+			vs := fieldValue(val, ps)
 			rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
 			if i == 0 {
 				spc = " "
@@ -227,6 +241,12 @@ func (f *SexpField) AlignString(pad []int) string {
 }
 
 func (f *SexpField) SexpString(ps *PrintState) string {
+	ps = ps.orNew()
+	mark, ok := ps.enter(f)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(f)
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
 
@@ -239,12 +259,12 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 			case *SexpSymbol:
 				str += s.name + ":"
 			default:
-				str += key.SexpString(nil) + ":"
+				str += key.SexpString(ps) + ":"
 			}
 			if i > 0 {
-				str += fieldValue(val) + " "
+				str += fieldValue(val, ps) + " "
 			} else {
-				str += fieldValue(val) + "    "
+				str += fieldValue(val, ps) + "    "
 			}
 		} else {
 			panic(err)
@@ -520,6 +540,9 @@ func SliceOfFunction(env *Zlisp, name string,
 
 	//Q("sliceOf arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
+	if err := rt.derivable(); err != nil {
+		return SexpNull, err
+	}
 	sliceRt := GoStructRegistry.GetOrCreateSliceType(rt)
 	//Q("in SliceOfFunction: returning sliceRt = '%#v'", sliceRt)
 	return sliceRt, nil
@@ -561,7 +584,7 @@ func PointerToFunction(env *Zlisp, name string,
 			}
 			return resolved, nil
 		} else {
-			panic("TODO: what goes here, for (* sym) where sym is a regular symbol")
+			return SexpNull, fmt.Errorf("argument x in (%s x) was the symbol '%s', not a regtype or SexpPointer", name, arg.name)
 		}
 	default:
 		return SexpNull, fmt.Errorf("argument x in (%s x) was not regtype or SexpPointer, "+
@@ -571,6 +594,9 @@ func PointerToFunction(env *Zlisp, name string,
 
 	//Q("pointer-to arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
+	if err := rt.derivable(); err != nil {
+		return SexpNull, err
+	}
 	ptrRt := GoStructRegistry.GetOrCreatePointerType(rt)
 	return ptrRt, nil
 }
@@ -886,38 +912,32 @@ func CommaBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func commaHelper(a Sexp, res *[]Sexp) {
-	//Q("top of commaHelper with a = '%s'", a.SexpString(nil))
-	switch x := a.(type) {
-	case *SexpPair:
-		sy, isQuo := isQuotedSymbol(x)
-		if isQuo {
-			symN := sy.(*SexpSymbol)
-			//Q("have quoted symbol symN=%v", symN.SexpString(nil))
-			*res = append(*res, symN)
-			return
+	// commas nest as deep as the text is long
+	todo := []Sexp{a}
+	for len(todo) > 0 {
+		last := len(todo) - 1
+		a := todo[last]
+		todo = todo[:last]
+
+		x, isPair := a.(*SexpPair)
+		if !isPair {
+			*res = append(*res, a)
+			continue
+		}
+		if sy, isQuo := isQuotedSymbol(x); isQuo {
+			*res = append(*res, sy.(*SexpSymbol))
+			continue
 		}
-
 		ar, err := ListToArray(x)
 		if err != nil || len(ar) < 1 {
-			return
+			continue
 		}
-
-		switch sym := ar[0].(type) {
-		case *SexpSymbol:
-			if sym.name == "comma" {
-				//Q("have recursive comma")
-				over := ar[1:]
-				for i := range over {
-					commaHelper(over[i], res)
-				}
-			} else {
-				//Q("have symbol sym = '%v'", sym.SexpString(nil))
-				*res = append(*res, a)
+		if sym, isSym := ar[0].(*SexpSymbol); isSym && sym.name == "comma" {
+			for i := len(ar) - 1; i >= 1; i-- {
+				todo = append(todo, ar[i])
 			}
-		default:
-			*res = append(*res, a)
+			continue
 		}
-	default:
 		*res = append(*res, a)
 	}
 }
diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 0db5191..68be9c0 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -265,20 +265,28 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 	return 1, nil
 }
 
+// selectedValue is what the selector x stands for; any other x stands for itself.
+func (env *Zlisp) selectedValue(x Sexp) (Sexp, error) {
+	sel, isSel := x.(Selector)
+	if !isSel {
+		return x, nil
+	}
+	if err := env.enter(); err != nil {
+		return SexpNull, err
+	}
+	defer env.leave()
+	return sel.RHS(env)
+}
+
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 
-	var err error
-	if sel, isSel := a.(Selector); isSel {
-		a, err = sel.RHS(env)
-		if err != nil {
-			return 0, err
-		}
+	a, err := env.selectedValue(a)
+	if err != nil {
+		return 0, err
 	}
-	if sel, isSel := b.(Selector); isSel {
-		b, err = sel.RHS(env)
-		if err != nil {
-			return 0, err
-		}
+	b, err = env.selectedValue(b)
+	if err != nil {
+		return 0, err
 	}
 
 	switch at := a.(type) {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 46ac4c6..7b0bc44 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -301,7 +301,7 @@ const maxTypeNesting = 100
 
 // sliceType returns the type of slices of slices ... of ty.
 func sliceType(ty *RegisteredType, nest int) *RegisteredType {
-	for ; nest > 0 && ty != nil; nest-- {
+	for ; nest > 0 && ty != nil && ty.derivable() == nil; nest-- {
 		ty = GoStructRegistry.GetOrCreateSliceType(ty)
 	}
 	return ty
@@ -708,6 +708,12 @@ type SexpInterfaceDecl struct {
 }
 
 func (r *SexpInterfaceDecl) SexpString(ps *PrintState) string {
+	ps = ps.orNew()
+	mark, ok := ps.enter(r)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(r)
 	indent := ps.GetIndent()
 	space := strings.Repeat(" ", indent)
 	space4 := strings.Repeat(" ", indent+4)
@@ -847,6 +853,12 @@ func (sf *SexpFunction) SexpString(ps *PrintState) string {
 	if sf.orig == nil {
 		return "fn [" + sf.name + "]"
 	}
+	ps = ps.orNew()
+	mark, ok := ps.enter(sf)
+	if !ok {
+		return mark
+	}
+	defer ps.leave(sf)
 	return sf.orig.SexpString(ps)
 }
 
diff --git a/zygo/functions.go b/zygo/functions.go
index 1f199f5..2303724 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1253,23 +1253,26 @@ func ThreadMapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 func threadingHelper(env *Zlisp, hash *SexpHash, args []Sexp) (Sexp, error) {
 	if len(args) == 0 {
-		panic("should not recur without arguments")
+		return hash, nil
 	}
-	field, err := hash.HashGet(env, args[0])
-	if err != nil {
-		return SexpNull, fmt.Errorf("-> error: field '%s' not found",
-			args[0].SexpString(nil))
-	}
-	if len(args) > 1 {
+	for {
+		field, err := hash.HashGet(env, args[0])
+		if err != nil {
+			return SexpNull, fmt.Errorf("-> error: field '%s' not found",
+				args[0].SexpString(nil))
+		}
+		args = args[1:]
+		if len(args) == 0 {
+			return field, nil
+		}
 		h, isHash := field.(*SexpHash)
 		if !isHash {
 			return SexpNull, fmt.Errorf("request for field '%s' was "+
-				"not on a hash or defmap; instead type %T with value '%#v'",
-				args[1].SexpString(nil), field, field)
+				"not on a hash or defmap; instead type %T with value '%s'",
+				args[0].SexpString(nil), field, field.SexpString(nil))
 		}
-		return threadingHelper(env, h, args[1:])
+		hash = h
 	}
-	return field, nil
 }
 
 func StringifyFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
@@ -1700,6 +1703,9 @@ func AddressOfFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if args[0].Type() == nil {
 		return SexpNull, fmt.Errorf("cannot take the address of '%v', which has no type", args[0].SexpString(nil))
 	}
+	if err := args[0].Type().derivable(); err != nil {
+		return SexpNull, err
+	}
 	return NewSexpPointer(args[0]), nil
 }
 
diff --git a/zygo/generator.go b/zygo/generator.go
index 897ef81..d051594 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -257,17 +257,34 @@ func isCommaForm(expr Sexp) bool {
 // flattenCommas appends to res the expressions that expr, a
 // possibly nested (comma ...) form, lists.
 func flattenCommas(expr Sexp, res []Sexp) []Sexp {
+	// commas nest as deep as the text is long
+	todo := []Sexp{expr}
+	for len(todo) > 0 {
+		last := len(todo) - 1
+		item := todo[last]
+		todo = todo[:last]
+		items := commaItems(item)
+		if items == nil {
+			res = append(res, item)
+			continue
+		}
+		for i := len(items) - 1; i >= 0; i-- {
+			todo = append(todo, items[i])
+		}
+	}
+	return res
+}
+
+// commaItems gives what a (comma ...) form lists, or nil for anything else.
+func commaItems(expr Sexp) []Sexp {
 	if !isCommaForm(expr) {
-		return append(res, expr)
+		return nil
 	}
 	items, err := ListToArray(expr)
 	if err != nil {
-		return append(res, expr)
-	}
-	for _, item := range items[1:] {
-		res = flattenCommas(item, res)
+		return nil
 	}
-	return res
+	return items[1:]
 }
 
 func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
@@ -608,6 +625,10 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	var sourceItem func(item Sexp) error
 
 	sourceItem = func(item Sexp) error {
+		if err := gen.env.enter(); err != nil {
+			return err
+		}
+		defer gen.env.leave()
 		switch t := item.(type) {
 		case *SexpArray:
 			for _, v := range t.Val {
@@ -634,7 +655,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 			exps = append(exps, gen.env.FilterArray(more, RemoveEndsFilter)...)
 
 		default:
-			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
+			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item.SexpString(nil))
 		}
 
 		return nil
@@ -1223,6 +1244,10 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 		return fmt.Errorf("syntaxQuote takes exactly one argument")
 	}
 	arg := args[0]
+	if err := gen.env.enter(); err != nil {
+		return err
+	}
+	defer gen.env.leave()
 
 	// need to handle arrays, since they can have unquotes
 	// in them too.
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 935aaa1..749c774 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -264,6 +264,16 @@ type RegisteredType struct {
 	elem      *RegisteredType // of a slice type: the type of its elements
 	sliceType *RegisteredType // slices of this type; nil until needed
 	ptrType   *RegisteredType // pointers to this type; nil until needed
+	nest      int             // how many slice and pointer types this one is made of
+}
+
+// derivable says if slices of rt, and pointers to it, can have a type: a name
+// for every depth would take all memory.
+func (rt *RegisteredType) derivable() error {
+	if rt != nil && rt.nest >= maxTypeNesting {
+		return fmt.Errorf("type %.40s... is nested too deeply", rt.DisplayAs)
+	}
+	return nil
 }
 
 // derivedTypes guards sliceType and ptrType.
@@ -536,6 +546,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		ptrRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
+		ptrRt.nest = pointedToType.nest + 1
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
 		ptrRt.setUserdef("*"+pointedToType.RegisteredName, false)
 		pointedToType.ptrType = ptrRt
@@ -552,6 +563,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		sliceRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
+		sliceRt.nest = rt.nest + 1
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.setUserdef(sliceName, false)
 		sliceRt.elem = rt
diff --git a/zygo/scopes.go b/zygo/scopes.go
index cd5b37a..38416af 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -326,10 +326,16 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	} else {
 		ps.SetSeen(scop, "Scope")
 	}
+	ps = ps.orNew()
+	mark, ok := ps.enter(scop)
+	if !ok {
+		return mark, nil
+	}
+	defer ps.leave(scop)
 	indent := ps.GetIndent()
 	rep := strings.Repeat(" ", indent)
 	rep4 := strings.Repeat(" ", indent+4)
-	s += fmt.Sprintf("%s %s  %s (%p)\n", rep, label, scop.Name, scop)
+	s += fmt.Sprintf("%s %s  %s\n", rep, label, scop.Name)
 	if scop.IsGlobal && !env.showGlobalScope {
 		s += fmt.Sprintf("%s (global scope - omitting content for brevity)\n", rep4)
 		return
diff --git a/zygo/stack.go b/zygo/stack.go
index 314fc35..a53dfb7 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -161,10 +161,16 @@ func (stack *Stack) IsStackElem() {}
 func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, error) {
 	//P("debug: Stack.Show starting with stack = %p, ps = %p, Package: '%s', IsPkg: %v", stack, ps, stack.PackageName, stack.IsPackage)
 	if ps.GetSeen(stack) {
-		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
+		return fmt.Sprintf("already-saw Stack '%s' in Show", stack.Name), nil
 	} else {
 		ps.SetSeen(stack, "Stack in Show")
 	}
+	ps = ps.orNew()
+	mark, ok := ps.enter(stack)
+	if !ok {
+		return mark, nil
+	}
+	defer ps.leave(stack)
 
 	s := ""
 	rep := strings.Repeat(" ", ps.GetIndent())
diff --git a/zygo/system.go b/zygo/system.go
index 59cd993..5b2e0ce 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -46,7 +46,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if err := env.outside(name); err != nil {
 		return SexpNull, err
 	}
-	flat, err := flattenToWordsHelper(args)
+	flat, err := env.flattenToWords(args)
 	if err != nil {
 		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
 	}
@@ -76,7 +76,7 @@ func FlattenToWordsFunction(env *Zlisp, name string, args []Sexp) (Sexp, error)
 	if len(args) == 0 {
 		return SexpNull, WrongNargs
 	}
-	stringArgs, err := flattenToWordsHelper(args)
+	stringArgs, err := env.flattenToWords(args)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -89,7 +89,11 @@ func FlattenToWordsFunction(env *Zlisp, name string, args []Sexp) (Sexp, error)
 	return env.NewSexpArray(res), nil
 }
 
-func flattenToWordsHelper(args []Sexp) ([]string, error) {
+func (env *Zlisp) flattenToWords(args []Sexp) ([]string, error) {
+	if err := env.enter(); err != nil {
+		return nil, err
+	}
+	defer env.leave()
 	stringArgs := []string{}
 
 	for i := range args {
@@ -102,15 +106,15 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 		case *SexpPair:
 			carry, err := ListToArray(c)
 			if err != nil {
-				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%#v'", err, c, c)
+				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%s'", err, c, c.SexpString(nil))
 			}
-			moreWords, err := flattenToWordsHelper(carry)
+			moreWords, err := env.flattenToWords(carry)
 			if err != nil {
 				return []string{}, err
 			}
 			stringArgs = append(stringArgs, moreWords...)
 		default:
-			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%#v'", c, c)
+			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%s'", c, c.SexpString(nil))
 		}
 	} // end i over args
 	// INVAR: stringArgs has our flattened list.
-- 
2.43.0


From ea19600a18f3c3bab92da91d4a5784c698271503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 31/34] fix: a type is no value of itself; a slice held by a
 record is not aliased by untyped ones

---
 zygo/hashutils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 90243c0..1f03bfc 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -302,6 +302,13 @@ func (p *RegisteredType) admits(val Sexp) bool {
 	switch v := val.(type) {
 	case *SexpSentinel:
 		return true
+	case *RegisteredType, *RecordDefn, *SexpInterfaceDecl, *SexpField:
+		return false // what says what a type is, is no value of that type
+	case *SexpPointer:
+		switch v.Target.(type) {
+		case *RegisteredType, *RecordDefn, *SexpInterfaceDecl, *SexpField:
+			return false
+		}
 	case *SexpArray:
 		if p.elem != nil && (v.Typ == nil || v.Typ == p || len(v.Val) == 0) {
 			for _, e := range v.Val {
@@ -322,7 +329,11 @@ func (p *RegisteredType) hold(val Sexp) {
 	if !isArray || p.elem == nil || len(arr.Val) == 0 {
 		return
 	}
-	arr.Typ = p
+	if arr.Typ != p {
+		// a slice taken of arr before does not know about p
+		arr.Val = append([]Sexp(nil), arr.Val...)
+		arr.Typ = p
+	}
 	for _, e := range arr.Val {
 		p.elem.hold(e)
 	}
-- 
2.43.0


From b4c39e7a9931cf07e6f3cfd52748bc131e2b44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 32/34] fix: unmsgpack made negative integers of the uint64
 beyond int64

---
 zygo/jsonmsgp.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index a0bed4d..e5129c8 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -490,7 +490,7 @@ func (m *msgpackHelper) init() {
 	//does this make a differenece? m.mh.AddExt(reflect.TypeOf(time.Time{}), 1, timeEncExt, timeDecExt)
 	m.mh.RawToString = true
 	m.mh.WriteExt = true
-	m.mh.SignedInteger = true
+	m.mh.SignedInteger = false // int64 has no room for the larger uint64; see numbersToGo
 	m.mh.Canonical = true // sort maps before writing them
 	m.mh.MaxDepth = maxDataDepth
 
@@ -543,7 +543,7 @@ func JsonToGo(jsonText []byte) (interface{}, error) {
 }
 
 // numbersToGo replaces the json.Number within iface by int64, by uint64 if
-// it takes that, else by float64.
+// it takes that, else by float64; and the uint64 that fit int64 by that.
 func numbersToGo(iface interface{}) (interface{}, error) {
 	switch val := iface.(type) {
 	case json.Number:
@@ -556,6 +556,10 @@ func numbersToGo(iface interface{}) (interface{}, error) {
 			}
 		}
 		return val.Float64()
+	case uint64:
+		if val <= math.MaxInt64 {
+			return int64(val), nil
+		}
 	case []interface{}:
 		for i := range val {
 			ele, err := numbersToGo(val[i])
@@ -622,7 +626,7 @@ func MsgpackToGo(msgp []byte) (interface{}, error) {
 
 	//fmt.Printf("\n decoded type : %T\n", iface)
 	//fmt.Printf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return numbersToGo(iface)
 }
 
 // convert iface, which will typically be map[string]interface{},
-- 
2.43.0


From 70af3bd4e50df3124dd2c25407c06758364323ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 33/34] fix: printed floats, hash string keys and nil did not
 read back; -.5 and 1.5_ were not read

---
 zygo/expressions.go | 7 ++++++-
 zygo/hashutils.go   | 3 ++-
 zygo/lexer.go       | 8 +++++---
 zygo/parser.go      | 5 ++++-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 7b0bc44..ec5274a 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -2,6 +2,7 @@ package zygo
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -545,7 +546,11 @@ func (f *SexpFloat) SexpString(ps *PrintState) string {
 	if f.Scientific {
 		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
 	}
-	return strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	str := strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	if f.Val == math.Trunc(f.Val) && !math.IsInf(f.Val, 0) {
+		str += ".0" // else it would read as an integer
+	}
+	return str
 }
 
 func (c *SexpChar) SexpString(ps *PrintState) string {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 1f03bfc..15853bc 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"hash/fnv"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -909,7 +910,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			}
 			switch s := key.(type) {
 			case *SexpStr:
-				out.WriteString(indInner + `"` + s.S + `":`)
+				out.WriteString(indInner + strconv.Quote(s.S) + ":")
 			case *SexpSymbol:
 				if asJSON {
 					out.WriteString(indInner + `"` + s.name + `":`)
diff --git a/zygo/lexer.go b/zygo/lexer.go
index 7ffc5ca..c8a0d4a 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"regexp"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -466,8 +467,9 @@ func (lexer *Lexer) dumpBuffer() error {
 	}
 
 	atom := lexer.buffer.String()
-	if maybeSignedInf(atom) && !InfRegex.MatchString(atom) {
-		// not -Inf or +Inf after all, but a sign in front of a symbol.
+	if (maybeSignedInf(atom) && !InfRegex.MatchString(atom)) ||
+		(strings.HasPrefix(atom, "-.") && !FloatRegex.MatchString(atom)) {
+		// not -Inf, +Inf or -.1 after all, but a sign in front of a symbol.
 		lexer.AppendToken(lexer.Token(TokenSymbol, atom[:1]))
 		atom = atom[1:]
 	}
@@ -736,7 +738,7 @@ top:
 		//vv("in LexerBuiltinOperator, first='%s', atom='%s', lexer.prevrune='%c'", first, atom, lexer.prevrune)
 		// are we a negative number -1 or -.1 rather than  ->, --, -= operator?
 		if lexer.prevrune == '-' && canStartSignedNumberAfter(lexer.preBuiltinRune) {
-			if FloatRegex.MatchString(atom) || DecimalRegex.MatchString(atom) {
+			if atom == "-." || DecimalRegex.MatchString(atom) {
 				//Q("'%s' is the beginning of a negative number", atom)
 				_, err := lexer.buffer.WriteString(atom)
 				if err != nil {
diff --git a/zygo/parser.go b/zygo/parser.go
index 60e0381..49792aa 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -496,7 +496,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		if tok.str == "NaN" {
 			f = NaN
 		} else {
-			f, err = strconv.ParseFloat(tok.str, SexpFloatSize)
+			f, err = strconv.ParseFloat(strings.ReplaceAll(tok.str, "_", ""), SexpFloatSize)
 			if err != nil {
 				return SexpNull, err
 			}
@@ -527,6 +527,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 				}
 			}
 		}
+		if tok.str == "nil" {
+			return SexpNull, nil // a literal, like true and false
+		}
 		return env.MakeSymbol(tok.str), nil
 	case TokenSymbolColon:
 		sym := env.MakeSymbol(tok.str)
-- 
2.43.0


From e5ef7d85c79b166a835618927e8b2d3999545dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 34/34] fix: in infix blocks a line that starts with not, a
 literal or a dotted path was not a statement of its own

---
 zygo/pratt.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index 741117e..f464984 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
 // Pratt parsing. see http://javascript.crockford.com/tdop/tdop.html
@@ -749,6 +750,10 @@ func InfixExpandArray(env *Zlisp, arr *SexpArray) ([]Sexp, error) {
 	xs := []Sexp{}
 
 	for {
+		if _, isSemi := pr.NextToken.(*SexpSemicolon); isSemi && !pr.IsEOF() {
+			pr.Advance() // an empty statement
+			continue
+		}
 		x, ok, err := pr.LabeledFor(env)
 		if err != nil {
 			return nil, err
@@ -1060,9 +1065,9 @@ func (p *Pratt) IsEOF() bool {
 func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 	//Q("LeftBindingPower: sx is '%v'", sx.SexpString(nil))
 	switch x := sx.(type) {
-	case *SexpInt, *SexpFloat:
+	case *SexpInt, *SexpUint64, *SexpFloat, *SexpChar:
 		return 0, nil
-	case *SexpBool:
+	case *SexpBool, *SexpSentinel:
 		return 0, nil
 	case *SexpStr:
 		return 0, nil
@@ -1076,10 +1081,17 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 			return 0, nil
 		}
 		if found {
+			if op.MunchLeft == nil {
+				// a prefix operator such as not begins an expression
+				// and so never binds to what stands on its left.
+				return 0, nil
+			}
 			//Q("LeftBindingPower: found op '%#v', returning op.Bp = %v", op, op.Bp)
 			return op.Bp, nil
 		}
-		if x.isDot {
+		if x.isDot && strings.HasPrefix(x.name, ".") {
+			// a field selector like .b; a whole path like a.b stands by
+			// itself and begins an expression of its own.
 			//Q("LeftBindingPower: dot symbol '%v', "+
 			//	"giving it binding-power 80", x.name)
 			return 80, nil
-- 
2.43.0

