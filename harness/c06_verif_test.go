package zygo

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

// The documented table, written down here a second time and used in another
// way: a run of operands and operators is split at its loosest operator (the
// last one of a left associative level, the first one of a right associative
// level), never by climbing.
var c06bp = map[string]int{"=": 10, ":=": 10, "+=": 10, "-=": 10, ",": 15, "and": 30, "or": 30,
	"==": 40, "!=": 40, "<": 40, "<=": 40, ">": 40, ">=": 40, "+": 50, "-": 50, "*": 60, "/": 60, "mod": 60, "**": 65}
var c06ops = []string{"=", ":=", "+=", "-=", ",", "and", "or", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "mod", "**"}
var c06valueOps = []string{"and", "or", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "mod", "**", "+", "-", "*"}

func c06right(bp int) bool { return bp == 10 || bp == 30 || bp == 65 }

// c06tok: an operand (what it becomes in the tree is in tree), a binary
// operator (op), a prefix not / * (pre), a postfix ++ / -- (post), or an
// index, slice or field selector (sel: tree holds the selector).
type c06tok struct {
	kind, text, tree string
}

func c06parse(ts []c06tok) string {
	if len(ts) == 1 {
		return ts[0].tree
	}
	best, bestBp := -1, 1000
	for i, t := range ts {
		bp := 1000
		switch t.kind {
		case "op":
			bp = c06bp[t.text]
			if bp < bestBp || (bp == bestBp && !c06right(bp)) {
				best, bestBp = i, bp
			}
		case "post":
			// at the assignment level; it takes all that an assignment
			// to its left has not taken
			if bestBp > 10 {
				best, bestBp = i, 10
			}
		}
	}
	if best >= 0 && ts[best].kind == "op" {
		l, r := c06parse(ts[:best]), c06parse(ts[best+1:])
		return "(" + c06head(ts[best].text) + " " + l + " " + r + ")"
	}
	if best >= 0 {
		return "(" + ts[best].text + " " + c06parse(ts[:best]) + ")"
	}
	if ts[0].kind == "pre" {
		return "(" + ts[0].text + " " + c06parse(ts[1:]) + ")"
	}
	last := ts[len(ts)-1]
	f := "arrayidx"
	if last.tree[0] != '[' {
		f = "hashidx"
	}
	return "(" + f + " " + c06parse(ts[:len(ts)-1]) + " " + last.tree + ")"
}

func c06head(op string) string {
	switch op {
	case "=", ":=":
		return "set"
	case ",":
		return "comma"
	}
	return op
}

// c06join writes the tokens with the chosen spacing. Blanks are forced where
// leaving them out would make another token, and a sign is kept apart from a
// digit on its left only as the lexer's documented rule has it: a '-' that
// follows a blank, an opening bracket or an operator and touches a digit is
// the sign of a number.
func c06join(r *rand.Rand, ts []c06tok, mode int) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			p := ts[i-1]
			space := mode == 0
			switch mode {
			case 2:
				space = t.kind == "op" // blank before operators
			case 3:
				space = p.kind == "op"
			case 4:
				space = r.Intn(2) == 0
			}
			need := false
			pl, tf := p.text[len(p.text)-1], t.text[0]
			word := func(c byte) bool {
				return c == '_' || c == '.' || c == '"' || c == '\'' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
			}
			sign := func(c byte) bool { return strings.IndexByte("+-*<>=!&|/:", c) >= 0 }
			if word(pl) && word(tf) && !(t.kind == "sel") {
				need = true
			}
			if sign(pl) && sign(tf) {
				// "a*-1", "a==-1" are read as written; "+ -1" would be
				// fine too but "a--1" is a decrement.
				need = !(t.kind == "operand" && tf == '-' && (p.text == "*" || p.text == "==" || p.text == "**" || p.text == "<=" || p.text == ">=" || p.text == "!=" || p.text == "/"))
			}
			if (p.text == "-" || p.text == "+" || p.text == "<" || p.text == ">") && tf == '-' {
				need = true
			}
			if p.kind == "op" && p.text == "/" && (tf == '/' || tf == '*') {
				need = true
			}
			if p.text == ":=" || t.text == ":=" {
				need = need || t.text == ":=" // "a:=" would read as a label's colon
			}
			if (p.text == "-" || p.text == "+") && tf >= '0' && tf <= '9' && i > 1 {
				// either both sides blank or neither
				if pre := strings.TrimSuffix(b.String(), p.text); strings.TrimRight(pre, " \t\n/") != pre {
					need = true
				}
			}
			if p.text == "-" && tf == '.' || p.text == "+" && (tf == 'I' || tf == 'i') || p.text == "-" && (tf == 'I' || tf == 'i') {
				need = true
			}
			if tf == '-' && t.text != "-" && word(pl) && p.kind != "operand" && p.kind != "sel" {
				need = true // "and-1": the sign follows a letter
			}
			if t.kind == "sel" && tf == '.' && word(pl) { // "a.b" would be one path
				need = true
			}
			if p.text == "not" || t.text == "not" || p.text == "," && false {
				need = true
			}
			if space || need {
				b.WriteString(" ")
				if mode == 4 && r.Intn(6) == 0 {
					b.WriteString([]string{" ", "\t", "\n", " /* c */ ", "// c\n"}[r.Intn(5)])
				}
			}
		}
		b.WriteString(t.text)
	}
	return b.String()
}

type c06 struct {
	v     *vRun
	r     *rand.Rand
	depth int
	eval  bool // restrict to what can be evaluated
}

var c06atoms = []string{"a", "b", "c", "x", "y", "foo", "e", "e1", "i", "I", "1", "2", "3", "10", "2.5", "1e3", "0x1f", "\"s\"", "'c'", "true", "false", "nil", "a.b", "c.d.e", "-1", "-2.5", "1e-3", "5ULL"}

func (c *c06) operand() c06tok {
	r := c.r
	if c.eval {
		switch r.Intn(9) {
		case 0:
			t := fmt.Sprintf("(t %d)", 1+r.Intn(9))
			return c06tok{"operand", t, t}
		case 1:
			if c.depth < 2 {
				c.depth++
				text, tree := c.block(1 + r.Intn(2))
				c.depth--
				return c06tok{"operand", text, tree}
			}
		case 2:
			if c.depth < 2 {
				c.depth++
				ts := c.tokens(r.Intn(2))
				c.depth--
				return c06tok{"operand", "(t {" + c06join(r, ts, r.Intn(5)) + "})", "(t (infix " + c06parse(ts) + "))"}
			}
		}
		t := vPick(r, []string{"a", "b", "c", "1", "2", "3", "7", "a", "b", "-4", "h.p", "h.q"})
		return c06tok{"operand", t, t}
	}
	switch r.Intn(10) {
	case 0:
		return c06tok{"operand", "(f a 1)", "(f a 1)"}
	case 1:
		if c.depth < 3 {
			c.depth++
			text, tree := c.block(1 + r.Intn(3))
			c.depth--
			return c06tok{"operand", text, tree}
		}
	case 2:
		if c.depth < 3 {
			c.depth++
			ts := c.tokens(r.Intn(3))
			c.depth--
			return c06tok{"operand", "(g {" + c06join(r, ts, r.Intn(5)) + "} 2)", "(g (infix " + c06parse(ts) + ") 2)"}
		}
	}
	t := vPick(r, c06atoms)
	return c06tok{"operand", t, t}
}

func (c *c06) selector() c06tok {
	r := c.r
	if c.eval {
		switch r.Intn(2) {
		case 0:
			return c06tok{"sel", "[1]", "[1]"}
		default:
			t := vPick(r, []string{"[0]", "[i]", "[2]"})
			return c06tok{"sel", t, t}
		}
	}
	switch r.Intn(6) {
	case 0:
		t := vPick(r, []string{".b", ".b.c"})
		return c06tok{"sel", t, t}
	case 1:
		ts := c.tokens(1 + r.Intn(2))
		for i := range ts {
			if ts[i].text == "," { // commas between array elements are dropped by the reader
				ts[i].text = "+"
			}
		}
		text := "[" + c06join(r, ts, r.Intn(2)*0) + "]"
		return c06tok{"sel", text, "[" + c06parse(ts) + "]"}
	case 2:
		return c06tok{"sel", vPick(r, []string{"[1:3]", "[1 : 3]"}), "[1 : 3]"}
	case 3:
		return c06tok{"sel", vPick(r, []string{"[:3]", "[: 3]"}), "[: 3]"}
	case 4:
		return c06tok{"sel", vPick(r, []string{"[i:]", "[i :]"}), "[i :]"}
	}
	t := vPick(r, []string{"[0]", "[i]", "[\"k\"]"})
	return c06tok{"sel", t, t}
}

// tokens: n operators.
func (c *c06) tokens(n int) []c06tok {
	r := c.r
	var ts []c06tok
	for i := 0; ; i++ {
		if r.Intn(8) == 0 {
			for k := 1 + r.Intn(2); k > 0; k-- {
				if !c.eval && r.Intn(3) == 0 {
					ts = append(ts, c06tok{"pre", "*", ""})
				} else {
					ts = append(ts, c06tok{"pre", "not", ""})
				}
			}
		}
		if c.eval && r.Intn(6) == 0 {
			ts = append(ts, c06tok{"operand", "ar", "ar"}, c.selector())
		} else if o := c.operand(); !c.eval && r.Intn(5) == 0 {
			ts = append(ts, o)
			for k := 1 + r.Intn(2); k > 0; k-- {
				ts = append(ts, c.selector())
			}
		} else {
			ts = append(ts, o)
		}
		if i == n {
			break
		}
		op := vPick(r, c06ops)
		if c.eval {
			op = vPick(r, c06valueOps)
		}
		ts = append(ts, c06tok{"op", op, ""})
	}
	if !c.eval && r.Intn(12) == 0 {
		ts = append(ts, c06tok{"post", vPick(r, []string{"++", "--"}), ""})
	}
	return ts
}

func (c *c06) expr(n int) (string, string) {
	ts := c.tokens(n)
	return c06join(c.r, ts, c.r.Intn(5)), c06parse(ts)
}

// block: "{ ... }" and what it stands for.
func (c *c06) block(n int) (string, string) {
	text, trees := c.stmts(n)
	if len(trees) == 1 {
		return "{" + text + "}", "(infix " + trees[0] + ")"
	}
	return "{" + text + "}", "(infix " + strings.Join(trees, " ") + ")"
}

func (c *c06) stmts(n int) (string, []string) {
	r := c.r
	var b strings.Builder
	var trees []string
	for i := 0; i < n; i++ {
		text, tree := c.stmt()
		if i > 0 {
			// a line that starts with a bracket, a star or a field goes on
			// with the one before: only a semicolon separates those.
			if strings.ContainsRune("[*.-+", rune(text[0])) || r.Intn(2) == 0 {
				b.WriteString(vPick(r, []string{";", "; ", " ; ", ";\n", ";;", " ; ; "}))
			} else {
				b.WriteString(vPick(r, []string{"\n", "\n  ", "\n\n", " // note\n", "\t\n"}))
			}
		} else if r.Intn(10) == 0 {
			b.WriteString(vPick(r, []string{" ", "\n", ";", " ; "}))
		}
		b.WriteString(text)
		trees = append(trees, tree)
	}
	if r.Intn(8) == 0 {
		b.WriteString(vPick(r, []string{" ", "\n", ";", " ;\n"}))
	}
	return b.String(), trees
}

func (c *c06) stmt() (string, string) {
	r := c.r
	k := r.Intn(10)
	if c.depth >= 3 {
		k = 9
	}
	c.depth++
	defer func() { c.depth-- }()
	switch k {
	case 0:
		ct, cx := c.cond()
		t1, x1 := c.block(1 + r.Intn(2))
		if r.Intn(3) == 0 {
			return "if " + ct + " " + t1, "(cond " + cx + " " + x1 + " nil)"
		}
		if r.Intn(3) == 0 {
			ct2, cx2 := c.cond()
			t2, x2 := c.block(1)
			t3, x3 := c.block(1)
			return "if " + ct + " " + t1 + " else if " + ct2 + t2 + "\nelse " + t3, "(cond " + cx + " " + x1 + " (cond " + cx2 + " " + x2 + " " + x3 + "))"
		}
		t2, x2 := c.block(1 + r.Intn(2))
		return "if " + ct + t1 + vPick(r, []string{" else ", "\nelse\n", "else"}) + t2, "(cond " + cx + " " + x1 + " " + x2 + ")"
	case 1:
		if c.eval {
			lim := r.Intn(4)
			bt, bx := c.block(1)
			v := vPick(r, []string{"i", "j"})
			return fmt.Sprintf("for %s = 0; %s < %d; %s++ %s", v, v, lim, v, bt), fmt.Sprintf("(for [(set %s 0) (< %s %d) (++ %s)] %s)", v, v, lim, v, bx)
		}
		lab, labx := "", ""
		if r.Intn(3) == 0 {
			lab, labx = vPick(r, []string{"outer: ", "outer:\n"}), "outer: "
		}
		bt, bx := c.block(1)
		switch r.Intn(3) {
		case 0:
			ct, cx := c.forExpr()
			return lab + "for " + ct + " " + bt, "(for " + labx + "[nil " + cx + " nil] " + bx + ")"
		case 1:
			return lab + "for " + bt, "(for " + labx + "[nil true nil] " + bx + ")"
		}
		i1, x1 := c.forExpr()
		i2, x2 := c.forExpr()
		i3, x3 := c.forExpr()
		if r.Intn(5) == 0 {
			i2, x2 = "", "true"
		}
		if r.Intn(5) == 0 {
			i3, x3 = "", "nil"
		}
		if r.Intn(5) == 0 {
			i1, x1 = "", "nil"
		}
		return lab + "for " + i1 + ";" + i2 + "; " + i3 + " " + bt, "(for " + labx + "[" + x1 + " " + x2 + " " + x3 + "] " + bx + ")"
	case 2, 3:
		v := vPick(r, []string{"a", "b", "c"})
		op := vPick(r, []string{"=", "=", ":=", "+=", "-="})
		t, x := c.expr(r.Intn(3))
		if r.Intn(6) == 0 && !c.eval {
			ct, cx := c.cond()
			t1, x1 := c.block(1)
			t2, x2 := c.block(1)
			t, x = "if "+ct+" "+t1+" else "+t2, "(cond "+cx+" "+x1+" "+x2+")"
		}
		return v + " " + op + " " + t, "(" + c06head(op) + " " + v + " " + x + ")"
	case 4:
		v := vPick(r, []string{"a", "b", "c"})
		op := vPick(r, []string{"++", "--"})
		return v + vPick(r, []string{"", " "}) + op, "(" + op + " " + v + ")"
	}
	return c.expr(r.Intn(5))
}

// cond: an expression that may stand before a block: flat, no assignment.
func (c *c06) cond() (string, string) {
	d := c.depth
	c.depth = 5
	defer func() { c.depth = d }()
	for {
		ts := c.tokens(c.r.Intn(2))
		ok := true
		for _, t := range ts {
			if t.text == "=" || t.text == ":=" || t.text == "+=" || t.text == "-=" || t.kind == "post" || strings.ContainsAny(t.text, "{") {
				ok = false
			}
		}
		if ok {
			return c06join(c.r, ts, c.r.Intn(4)), c06parse(ts)
		}
	}
}

func (c *c06) forExpr() (string, string) {
	if c.r.Intn(2) == 0 {
		v := vPick(c.r, []string{"i", "j"})
		switch c.r.Intn(3) {
		case 0:
			return v + "++", "(++ " + v + ")"
		case 1:
			t, x := c.cond()
			return v + " = " + t, "(set " + v + " " + x + ")"
		}
	}
	return c.cond()
}

// c06show prints a tree with every nested block expanded.
func c06show(env *Zlisp, x Sexp) string {
	switch v := x.(type) {
	case *SexpPair:
		if s, ok := v.Head.(*SexpSymbol); ok && s.name == "infix" {
			arr, empty, err := InfixArgsToArray("infixExpand", []Sexp{v})
			if err != nil {
				return "ERR " + err.Error()
			}
			if empty {
				return "(infix)"
			}
			xs, err := InfixExpandArray(env, arr)
			if err != nil {
				return "ERR " + err.Error()
			}
			out := []string{"infix"}
			for _, y := range xs {
				out = append(out, c06show(env, y))
			}
			return "(" + strings.Join(out, " ") + ")"
		}
		xs, err := ListToArray(v)
		if err != nil {
			return "ERR " + err.Error()
		}
		var out []string
		for _, y := range xs {
			out = append(out, c06show(env, y))
		}
		return "(" + strings.Join(out, " ") + ")"
	case *SexpArray:
		var out []string
		for _, y := range v.Val {
			out = append(out, c06show(env, y))
		}
		return "[" + strings.Join(out, " ") + "]"
	case *SexpSymbol:
		if v.colonTail {
			return strings.TrimSuffix(v.name, ":") + ":"
		}
		return v.name
	case nil:
		return "GONIL"
	}
	return x.SexpString(nil)
}

func c06read(env *Zlisp, text string) (Sexp, string) {
	env.parser.ResetAddNewInput(bytes.NewBufferString(text + "\n"))
	xs, err := env.parser.ParseTokens()
	if err != nil {
		return SexpNull, err.Error()
	}
	keep := env.FilterArray(xs, RemoveCommentsFilter)
	if len(keep) != 1 {
		return SexpNull, fmt.Sprintf("%d expressions", len(keep))
	}
	return keep[0], ""
}

// c06inner reads a prefix text so that numbers and strings are compared as
// the same reader prints them.
func (c *c06) want(env *Zlisp, tree string) string {
	x, bad := c06read(env, tree)
	if bad != "" {
		return "BAD WANT " + bad + ": " + tree
	}
	return c06plain(x)
}

// c06plain prints without expanding (the wanted tree is already expanded).
func c06plain(x Sexp) string {
	switch v := x.(type) {
	case *SexpPair:
		xs, err := ListToArray(v)
		if err != nil {
			return "ERR"
		}
		var out []string
		for _, y := range xs {
			out = append(out, c06plain(y))
		}
		return "(" + strings.Join(out, " ") + ")"
	case *SexpArray:
		var out []string
		for _, y := range v.Val {
			if s, ok := y.(*SexpSymbol); ok && s.colonTail { // [i :] may read i: as one
				out = append(out, strings.TrimSuffix(s.name, ":"), ":")
				continue
			}
			out = append(out, c06plain(y))
		}
		return "[" + strings.Join(out, " ") + "]"
	case *SexpSymbol:
		if v.colonTail {
			return strings.TrimSuffix(v.name, ":") + ":"
		}
		return v.name
	}
	return x.SexpString(nil)
}

func (c *c06) checkTree(env *Zlisp, key, text, tree string) {
	v := c.v
	v.at("tree of " + text)
	v.count("tree " + key)
	var got, want string
	o := vGuard(200000, func() (Sexp, error) {
		x, bad := c06read(env, text)
		if bad != "" {
			got = "not read: " + bad
			return SexpNull, nil
		}
		got = c06show(env, x)
		return SexpNull, nil
	})
	if o.kind() != "VALUE" {
		got = o.show()
	}
	want = c.want(env, tree)
	if strings.HasPrefix(want, "BAD") {
		v.tally("unusable wanted tree")
		v.count("unusable " + tree)
		return
	}
	if got != want {
		v.fail("tree:"+key, fmt.Sprintf("%s is read as %s; the table says %s", text, got, want), text)
	}
}

const c06setup = `(begin (def log []) (defn t [x] (set log (append log x)) x) (def a 3) (def b 4) (def c 5) (def i 0) (def j 0) (def ar [7 8 9]) (def h (hash p:11 q:12)) nil)`

func c06newEnv() *Zlisp {
	env := vNewEnv()
	vEval(env, c06setup)
	return env
}

func c06prefix(tree string) string { return strings.ReplaceAll(tree, "(infix ", "(begin ") }

// checkValue: the block and its prefix form have one value and one effect.
func (c *c06) checkValue(key, text, tree string) {
	v := c.v
	v.at("value of " + text)
	v.count("value " + text)
	e1, e2 := c06newEnv(), c06newEnv()
	defer e1.parser.Stop()
	defer e2.parser.Stop()
	o1 := vEval(e1, text)
	o2 := vEval(e2, c06prefix(tree))
	if o1.kind() == "BUDGET" || o2.kind() == "BUDGET" {
		v.tally("ran out of budget")
		return
	}
	r1, r2 := o1.show(), o2.show()
	if o1.kind() == "ERROR" && o2.kind() == "ERROR" {
		r1, r2 = "", ""
	} else {
		v.tally("evaluated to a value")
	}
	s1 := vEval(e1, "[log a b c i j]").show()
	s2 := vEval(e2, "[log a b c i j]").show()
	if r1 != r2 || s1 != s2 {
		v.fail("value:"+key, fmt.Sprintf("%s gives %s and leaves %s; its prefix form %s gives %s and leaves %s", text, o1.show(), s1, c06prefix(tree), o2.show(), s2), text)
	}
}

func TestVerifC06(t *testing.T) {
	v := vBegin(t, "C06", "an infix block is the s-expression of the binding power table, and has its value and effects")
	defer v.finish()
	c := &c06{v: v, r: v.rng}
	env := vNewEnv()
	env.StandardSetup()

	// every operator, pair and triple of operators, tight and with blanks
	names := []string{"a", "b", "c", "d"}
	mk := func(ops []string, pre int, sel int) []c06tok {
		var ts []c06tok
		for i := 0; i <= len(ops); i++ {
			if pre&(1<<i) != 0 {
				ts = append(ts, c06tok{"pre", "not", ""})
			}
			ts = append(ts, c06tok{"operand", names[i], names[i]})
			if sel&(1<<i) != 0 {
				ts = append(ts, c06tok{"sel", "[i]", "[i]"})
			}
			if i < len(ops) {
				ts = append(ts, c06tok{"op", ops[i], ""})
			}
		}
		return ts
	}
	try := func(ts []c06tok, key string) {
		want := "(infix " + c06parse(ts) + ")"
		for mode := 0; mode < 4; mode++ {
			c.checkTree(env, fmt.Sprintf("%s %d", key, mode), "{"+c06join(c.r, ts, mode)+"}", want)
		}
	}
	for _, o1 := range c06ops {
		for p := 0; p < 4; p++ {
			for s := 0; s < 4; s++ {
				try(mk([]string{o1}, p, s), fmt.Sprint(o1, p, s))
			}
		}
		for _, o2 := range c06ops {
			for p := 0; p < 8; p++ {
				try(mk([]string{o1, o2}, p, p>>1^p), fmt.Sprint(o1, o2, p))
			}
		}
	}
	for _, o1 := range c06ops {
		for _, o2 := range c06ops {
			for _, o3 := range c06ops {
				p := c.r.Intn(16)
				if c.r.Intn(2) == 0 {
					p = 0
				}
				ts := mk([]string{o1, o2, o3}, p, c.r.Intn(16)&c.r.Intn(16))
				m := c.r.Intn(4)
				c.checkTree(env, fmt.Sprint(o1, o2, o3), "{"+c06join(c.r, ts, m)+"}", "(infix "+c06parse(ts)+")")
			}
		}
	}
	// written out by hand
	for _, d := range [][2]string{
		{"{a-1}", "(infix (- a 1))"}, {"{a - 1}", "(infix (- a 1))"}, {"{a+1}", "(infix (+ a 1))"}, {"{a[0]-1}", "(infix (- (arrayidx a [0]) 1))"},
		{"{(f 1)-1}", "(infix (- (f 1) 1))"}, {"{a*-1}", "(infix (* a -1))"}, {"{a==-1}", "(infix (== a -1))"}, {"{1e3-1}", "(infix (- 1e3 1))"},
		{"{e-1}", "(infix (- e 1))"}, {"{1-e}", "(infix (- 1 e))"}, {"{e1-1}", "(infix (- e1 1))"}, {"{e+1}", "(infix (+ e 1))"}, {"{2e-1}", "(infix 2e-1)"},
		{"{xe-1}", "(infix (- xe 1))"}, {"{a.e-1}", "(infix (- a.e 1))"}, {"{a.b-c.d}", "(infix (- a.b c.d))"}, {"{a[i].b}", "(infix (hashidx (arrayidx a [i]) .b))"},
		{"{a.b[i].c[j]}", "(infix (arrayidx (hashidx (arrayidx a.b [i]) .c) [j]))"}, {"{a[1:2]}", "(infix (arrayidx a [1 : 2]))"}, {"{a[i+1]}", "(infix (arrayidx a [(+ i 1)]))"},
		{"{a[i+1:j*2]}", "(infix (arrayidx a [(+ i 1) : (* j 2)]))"}, {"{a[:]}", "(infix (arrayidx a [:]))"},
		{"{a[i-1]}", "(infix (arrayidx a [(- i 1)]))"}, {"{a = b = c}", "(infix (set a (set b c)))"}, {"{a ** b ** c}", "(infix (** a (** b c)))"},
		{"{a - b - c}", "(infix (- (- a b) c))"}, {"{a and b or c}", "(infix (and a (or b c)))"}, {"{a&&b||c}", "(infix (and a (or b c)))"},
		{"{not a == b}", "(infix (== (not a) b))"}, {"{not a[0]}", "(infix (not (arrayidx a [0])))"}, {"{a\nnot b}", "(infix a (not b))"},
		{"{a = 1\nnil}", "(infix (set a 1) nil)"}, {"{a = 1\n'c'}", "(infix (set a 1) 'c')"}, {"{a\n5ULL}", "(infix a 5ULL)"}, {"{a;[1 2]}", "(infix a [1 2])"}, {"{a;;[1 2]}", "(infix a [1 2])"},
		{"{a; *b}", "(infix a (* b))"}, {"{;a}", "(infix a)"}, {"{a;}", "(infix a)"}, {"{a // x\n}", "(infix a)"}, {"{a + // x\n b}", "(infix (+ a b))"},
		{"{a\n(f b)}", "(infix a (f b))"}, {"{(f a)\n(f b)}", "(infix (f a) (f b))"}, {"{a\n\"s\"}", "(infix a \"s\")"}, {"{a {b} c}", "(infix a (infix b) c)"},
		{"{a, b = b, a}", "(infix (set (comma a b) (comma b a)))"}, {"{a = b, c}", "(infix (set a (comma b c)))"}, {"{x = y + z++}", "(infix (set x (++ (+ y z))))"},
		{"{a*b/c mod d}", "(infix (mod (/ (* a b) c) d))"}, {"{a + b * c ** d}", "(infix (+ a (* b (** c d))))"}, {"{a ** b * c}", "(infix (* (** a b) c))"},
		{"{*a + b}", "(infix (+ (* a) b))"}, {"{a * *b}", "(infix (* a (* b)))"}, {"{x = *p}", "(infix (set x (* p)))"},
		{"{if a {b} else {c}}", "(infix (cond a (infix b) (infix c)))"}, {"{if a {b}\nd}", "(infix (cond a (infix b) nil) d)"}, {"{x = if a {b} else {c}\nd}", "(infix (set x (cond a (infix b) (infix c))) d)"},
		{"{if a < b and not c {b}}", "(infix (cond (and (< a b) (not c)) (infix b) nil))"},
		{"{for {break}}", "(infix (for [nil true nil] (infix (break))))"}, {"{outer: for a {continue outer}}", "(infix (for outer: [nil a nil] (infix (continue outer))))"},
	} {
		c.checkTree(env, "hand "+d[0], d[0], d[1])
	}
	c.values()
	for v.more() {
		c.eval = v.rng.Intn(4) == 0
		c.depth = 0
		if c.eval {
			text, tree := c.block(1 + v.rng.Intn(4))
			c.checkTree(env, text, text, tree)
			c.checkValue("random "+text, text, tree)
		} else {
			text, tree := c.block(1 + v.rng.Intn(4))
			c.checkTree(env, text, text, tree)
		}
	}
}

// values: what blocks evaluate to, against written values.
func (c *c06) values() {
	for _, d := range [][2]string{
		{"{1 + 2 * 3}", "7"}, {"{2 ** 3 ** 2}", "512"}, {"{10 - 3 - 2}", "5"}, {"{a = 7; b = 8; a + b}", "15"}, {"{a = 7\nb = 8\na * b}", "56"}, {"{a = b = 9}", "9"},
		{"{a = b = 9\n[a b]}", "ERROR"}, {"{a = b = 9;\n[a b]}", "[9 9]"}, {"{17 mod 5 * 2}", "4"}, {"{not 1 == 2}", "ERROR"}, {"{1 < 2 and 2 < 3}", "true"}, {"{1 > 2 or 2 < 3}", "true"},
		{"{ar[1]}", "8"}, {"{ar[i]}", "7"}, {"{ar[i+1]*2}", "16"}, {"{ar[1:3]}", "[8 9]"}, {"{ar[:1]}", "[7]"}, {"{ar[1:]}", "[8 9]"}, {"{h.p + h.q}", "23"},
		{"{(t 2) + {3 * (t 4)}}", "14"}, {"{if a < b {1} else {2}}", "1"}, {"{if a > b {1} else if a == 3 {5} else {2}}", "5"}, {"{if a > b {1}}", "nil"},
		{"{s = 0; for i = 0; i < 5; i++ { s = s + i }; s}", "10"}, {"{s = 0\nfor i = 0; i < 5; i++ { s += i }\ns}", "10"}, {"{s = 0; for k := range ar { s += k }; s}", "3"},
		{"{s = 0; for k, v := range ar { s = s * 10 + v }; s}", "789"}, {"{s = 0; k = 0; w = 0; for k, w = range ar { s = s * 10 + w * k }; s * 100 + k * 10 + w}", "9829"},
		{"{s = 0; outer: for i = 0; i < 3; i++ { for j = 0; j < 3; j++ { if j == 1 { continue outer }; s++ } }; s}", "3"},
		{"{s = 0; outer: for i = 0; i < 3; i++ { for j = 0; j < 3; j++ { if i == 1 { break outer }; s++ } }; s}", "3"},
		{"{s = 0; for s < 7 { s += 2 }; s}", "8"}, {"{s = 0; for { s++; if s > 4 { break } }; s}", "5"}, {"{}", "{}"}, {"{;}", "nil"}, {"{3;}", "3"}, {"{3\n4}", "4"}, {"{3;4;}", "4"},
		{"{a++; a}", "4"}, {"{a--; a}", "2"}, {"{a += 4; a}", "7"}, {"{a -= 4; a}", "-1"}, {"{a = 5\nnil}", "nil"}, {"{a = 5\nnot true}", "false"},
		{"(begin {(t 1)\n(t 2)\n(t 3)} log)", "[1 2 3]"}, {"(begin {(t 1) + (t 2) * (t 3)} log)", "[1 2 3]"}, {"(begin {a = (t 1); (t 2); b = (t 3)} log)", "[1 2 3]"},
		{"(begin {(t 0) == 1 and (t 2) == 2} log)", "[0]"}, {"(begin {(t 1) == 1 or (t 2) == 2} log)", "[1]"}, {"{1 == 1 and 2 == 3 or true}", "true"},
		{"{7 / 2}", "3.5"}, {"{a-1}", "2"}, {"{a - -1}", "4"}, {"{a*-1}", "-3"}, {"{2*3+4*5}", "26"}, {"{2+3*4-5}", "9"}, {"{{2+3}*4}", "20"}, {"{2*{3+4}*5}", "70"},
	} {
		e := c06newEnv()
		c.v.at("value of " + d[0])
		c.v.count("written " + d[0])
		o := vEval(e, d[0])
		got := o.show()
		if o.kind() == "ERROR" {
			got = "ERROR"
		}
		want := "VALUE " + d[1]
		if d[1] == "ERROR" {
			want = "ERROR"
		}
		if got != want && got != d[1] {
			c.v.fail("written:"+d[0], fmt.Sprintf("%s gives %s, want %s", d[0], o.show(), d[1]), d[0])
		}
		e.parser.Stop()
	}
}
