package zygo

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"
)

var c12floats = []float64{0, math.Copysign(0, -1), 1, -1, 2, 10, 0.5, 1.5, -2.5, 0.1, 1e5, 1e6, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23, 1e100, 1e300, 1e308, math.MaxFloat64, -math.MaxFloat64,
	1e-5, 1e-6, 1e-7, 1e-20, 1e-300, 5e-324, 2.2250738585072014e-308, 1 << 53, 1<<53 + 2, 1 << 62, 1 << 63, 3.141592653589793, 123456.789, 4503599627370496.5, math.Inf(1), math.Inf(-1), math.NaN()}

var c12ints = []int64{0, 1, -1, 7, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MaxUint32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1}
var c12uints = []uint64{0, 1, 255, 65536, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1}
var c12syms = []string{"a", "b", "abc", "x1", "foo_bar", "camelCase", "a!", "a?", "q/r", "+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!=", "=", ":=", "&&", "||", "->", "++", "--", "**", "quote", "if", "cond", "hash", "nul", "nill", "truex", "falsey", "infx", "Info", "NaNx", "e5", "_", "é", "日本", "λ", "$", "null", "def", "a.b", "a.b.c", ".a", "?x", "inf1", "i", "E", "ULL"}

var c12strings = []string{"", "a", " ", "two words", `"`, `\`, `\"`, `\\`, "\n", "\t", "\r", "\x00", "\x01", "\x1b", "\x7f", "\u0080", "\u00a0", "\u2028", "\ufeff", "\ufffd", "é", "日本語", "𝄞", "\U0010FFFF", "'", "`", "{", "}", "(", ")", "[", "]", ";", "//", "/* */", "#", "~", "%", "^", "@", ":", ",", "\a\b\f\v", "\xff", "a\xc3", "\xed\xa0\x80", "\\x41", "\\n", "$x", "a:b", "1", "1.5", "true", "nil", "</s>", "\\u0041"}

type c12 struct {
	v    *vRun
	r    *rand.Rand
	env  *Zlisp
	syms []string // that can be written
}

func (c *c12) float() float64 {
	switch c.r.Intn(4) {
	case 0:
		return vPick(c.r, c12floats)
	case 1: // made by arithmetic
		return float64(c.r.Intn(2000)-1000) / float64(1+c.r.Intn(20)) * math.Pow(10, float64(c.r.Intn(40)-20))
	case 2:
		return float64(int64(c.r.Uint64()) >> uint(c.r.Intn(64)))
	}
	return math.Float64frombits(c.r.Uint64())
}

func (c *c12) rune() rune {
	switch c.r.Intn(5) {
	case 0:
		return rune(c.r.Intn(0x20))
	case 1:
		return rune(0x20 + c.r.Intn(0x60))
	case 2:
		return rune(0x80 + c.r.Intn(0x200))
	case 3:
		return rune(c.r.Intn(0xd800))
	}
	return rune(0xe000 + c.r.Intn(0x110000-0xe000))
}

func (c *c12) str() string {
	if c.r.Intn(3) > 0 {
		return vPick(c.r, c12strings) + vPick(c.r, c12strings)
	}
	var b strings.Builder
	for n := c.r.Intn(8); n > 0; n-- {
		if c.r.Intn(12) == 0 {
			b.WriteByte(byte(c.r.Intn(256)))
		} else {
			b.WriteRune(c.rune())
		}
	}
	return b.String()
}

func (c *c12) scalar(json bool) Sexp {
	n := 8
	if json {
		n = 6
	}
	switch c.r.Intn(n) {
	case 0:
		return SexpNull
	case 1:
		return &SexpBool{Val: c.r.Intn(2) == 0}
	case 2:
		if c.r.Intn(2) == 0 {
			return &SexpInt{Val: vPick(c.r, c12ints)}
		}
		return &SexpInt{Val: int64(c.r.Uint64()) >> uint(c.r.Intn(64))}
	case 3:
		return &SexpFloat{Val: c.float(), Scientific: c.r.Intn(3) == 0}
	case 4:
		return &SexpStr{S: c.str()}
	case 5:
		if c.r.Intn(3) == 0 {
			return &SexpUint64{Val: vPick(c.r, c12uints)}
		}
		return &SexpInt{Val: int64(c.r.Intn(200) - 100)}
	case 6:
		return &SexpChar{Val: c.rune()}
	}
	return c.env.MakeSymbol(vPick(c.r, c.syms))
}

// data makes a value of lists, arrays and atoms.
func (c *c12) data(depth int) Sexp {
	if depth <= 0 || c.r.Intn(3) == 0 {
		return c.scalar(false)
	}
	var xs []Sexp
	for n := c.r.Intn(5); n > 0; n-- {
		xs = append(xs, c.data(depth-1))
	}
	if c.r.Intn(2) == 0 {
		return &SexpArray{Val: xs, Env: c.env}
	}
	return MakeList(xs)
}

// jsonlike makes a value of arrays, hashes and scalars.
func (c *c12) jsonlike(depth int) Sexp {
	if depth <= 0 || c.r.Intn(3) == 0 {
		return c.scalar(true)
	}
	n := c.r.Intn(5)
	if c.r.Intn(2) == 0 {
		var xs []Sexp
		for ; n > 0; n-- {
			xs = append(xs, c.jsonlike(depth-1))
		}
		return &SexpArray{Val: xs, Env: c.env}
	}
	h, err := MakeHash(nil, "hash", c.env)
	if err != nil {
		panic(err)
	}
	kind := c.r.Intn(3)
	for ; n > 0; n-- {
		var key Sexp
		if kind == 0 || kind == 2 && c.r.Intn(2) == 0 {
			key = c.env.MakeSymbol(vPick(c.r, []string{"a", "b", "c", "name", "x1", "zed", "foo_bar", "Atype", "e", "E5", "i", "inf1", "hash", "nul"}))
		} else {
			key = &SexpStr{S: c.str()}
		}
		if err := h.HashSet(key, c.jsonlike(depth-1)); err != nil {
			panic(err)
		}
	}
	return h
}

// c12same compares two values by structure; "" or where they differ.
func c12same(a, b Sexp) string {
	bad := func() string { return fmt.Sprintf("%T %s became %T %s", a, c12show(a), b, c12show(b)) }
	ok := false
	switch x := a.(type) {
	case *SexpSentinel:
		ok = a == b
	case *SexpBool:
		y, is := b.(*SexpBool)
		ok = is && x.Val == y.Val
	case *SexpInt:
		y, is := b.(*SexpInt)
		ok = is && x.Val == y.Val
	case *SexpUint64:
		y, is := b.(*SexpUint64)
		ok = is && x.Val == y.Val
	case *SexpFloat:
		y, is := b.(*SexpFloat)
		ok = is && (x.Val == y.Val && math.Signbit(x.Val) == math.Signbit(y.Val) || x.Val != x.Val && y.Val != y.Val)
	case *SexpStr:
		y, is := b.(*SexpStr)
		ok = is && x.S == y.S
	case *SexpChar:
		y, is := b.(*SexpChar)
		ok = is && x.Val == y.Val
	case *SexpSymbol:
		y, is := b.(*SexpSymbol)
		ok = is && x.name == y.name
	case *SexpPair:
		y, is := b.(*SexpPair)
		if is {
			if d := c12same(x.Head, y.Head); d != "" {
				return d
			}
			return c12same(x.Tail, y.Tail)
		}
	case *SexpArray:
		y, is := b.(*SexpArray)
		if ok = is && len(x.Val) == len(y.Val); ok {
			for i := range x.Val {
				if d := c12same(x.Val[i], y.Val[i]); d != "" {
					return d
				}
			}
		}
	case *SexpHash:
		y, is := b.(*SexpHash)
		if ok = is && len(x.KeyOrder) == len(y.KeyOrder) && x.TypeName == y.TypeName; ok {
			for i := range x.KeyOrder {
				if d := c12same(x.KeyOrder[i], y.KeyOrder[i]); d != "" {
					return d
				}
				v, err := x.HashGetDefault(nil, x.KeyOrder[i], SexpEnd)
				w, err2 := y.HashGetDefault(nil, y.KeyOrder[i], SexpEnd)
				if err != nil || err2 != nil {
					return bad()
				}
				if d := c12same(v, w); d != "" {
					return d
				}
			}
		}
	default:
		return bad()
	}
	if !ok {
		return bad()
	}
	return ""
}

func c12show(x Sexp) string {
	if x == nil {
		return "no value"
	}
	s := fmt.Sprintf("%+q", x.SexpString(nil))
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

func (c *c12) parse(text string) ([]Sexp, error) {
	c.env.parser.ResetAddNewInput(bytes.NewBufferString(text + "\n"))
	return c.env.parser.ParseTokens()
}

// readBack gives "" or what is wrong with reading the printed form of x as data.
func (c *c12) readBack(x Sexp) (key, msg string) {
	text := x.SexpString(nil)
	xs, err := c.parse(text)
	if err != nil {
		return "printed-rejected", fmt.Sprintf("the printed form %+q does not parse: %v", text, err)
	}
	if len(xs) != 1 {
		return "printed-several", fmt.Sprintf("the printed form %+q reads as %d expressions", text, len(xs))
	}
	if d := c12same(x, xs[0]); d != "" {
		return "printed-differs", fmt.Sprintf("the printed form %+q reads as another value: %s", text, d)
	}
	// by way of the language: (read (str v))
	c.env.AddGlobal("c12x", x)
	o := vEval(c.env, "(read (str c12x))")
	if o.kind() != "VALUE" {
		return "read-str", fmt.Sprintf("(read (str v)) gave %s for v = %+q", o.show(), text)
	}
	if d := c12same(x, o.Val); d != "" {
		return "read-str", fmt.Sprintf("(read (str v)): %s for v = %+q", d, text)
	}
	if eq := vEval(c.env, "(== c12x (read (str c12x)))"); eq.show() != "VALUE true" && !strings.Contains(text, "NaN") && !strings.ContainsRune(text, '.') {
		c.v.tally("not-== " + eq.kind())
	}
	// and as quoted source
	o = vEval(c.env, "(quote "+text+")")
	if o.kind() != "VALUE" {
		return "quoted", fmt.Sprintf("(quote v) gave %s for v = %+q", o.show(), text)
	}
	if d := c12same(x, o.Val); d != "" {
		return "quoted", fmt.Sprintf("(quote v): %s for v = %+q", d, text)
	}
	return "", ""
}

func (c *c12) evalBack(x Sexp) (key, msg string) {
	text := x.SexpString(nil)
	for _, how := range []string{"%s", "(begin %s)", "(aget [%s] 0)", "(let [c12v %s] c12v)"} {
		src := fmt.Sprintf(how, text)
		o := vEval(c.env, src)
		if o.kind() != "VALUE" {
			return "eval-rejected", fmt.Sprintf("%+q gave %s", src, o.show())
		}
		if d := c12same(x, o.Val); d != "" {
			return "eval-differs", fmt.Sprintf("evaluating %+q gives another value: %s", src, d)
		}
	}
	c.env.AddGlobal("c12x", x)
	o := vEval(c.env, "(eval (read (str c12x)))")
	if o.kind() != "VALUE" {
		return "eval-read-str", fmt.Sprintf("(eval (read (str v))) gave %s for v = %+q", o.show(), text)
	}
	if d := c12same(x, o.Val); d != "" {
		return "eval-read-str", fmt.Sprintf("(eval (read (str v))): %s for v = %+q", d, text)
	}
	return "", ""
}

// parts gives smaller values inside x.
func (c *c12) parts(x Sexp) (out []Sexp) {
	without := func(xs []Sexp, i int) []Sexp { return append(append([]Sexp{}, xs[:i]...), xs[i+1:]...) }
	with := func(xs []Sexp, i int, y Sexp) []Sexp {
		ys := append([]Sexp{}, xs...)
		ys[i] = y
		return ys
	}
	switch e := x.(type) {
	case *SexpArray:
		out = append(out, e.Val...)
		for i := range e.Val {
			out = append(out, &SexpArray{Val: without(e.Val, i), Env: c.env})
			for _, y := range c.parts(e.Val[i]) {
				out = append(out, &SexpArray{Val: with(e.Val, i, y), Env: c.env})
			}
		}
	case *SexpPair:
		xs, err := ListToArray(e)
		if err != nil {
			return
		}
		out = append(out, xs...)
		for i := range xs {
			out = append(out, MakeList(without(xs, i)))
			for _, y := range c.parts(xs[i]) {
				out = append(out, MakeList(with(xs, i, y)))
			}
		}
	case *SexpHash:
		for i := range e.KeyOrder {
			v, _ := e.HashGetDefault(nil, e.KeyOrder[i], SexpEnd)
			out = append(out, v)
			for _, w := range append(c.parts(v), SexpNull) {
				h, _ := MakeHash(nil, "hash", c.env)
				for j, k := range e.KeyOrder {
					u, _ := e.HashGetDefault(nil, k, SexpEnd)
					if j == i {
						u = w
					}
					if j != i || w != SexpNull {
						h.HashSet(k, u)
					}
				}
				out = append(out, h)
			}
		}
	case *SexpStr:
		for i := range e.S {
			_, n := utf8.DecodeRuneInString(e.S[i:])
			out = append(out, &SexpStr{S: e.S[:i] + e.S[i+n:]})
		}
	}
	return
}

func (c *c12) check(x Sexp, prob func(Sexp) (string, string)) {
	text := x.SexpString(nil)
	c.v.at(text)
	c.v.count(text)
	key, msg := prob(x)
	if key == "" {
		return
	}
	for n, more := 0, true; more && n < 300; n++ {
		more = false
		for _, y := range c.parts(x) {
			if k, m := prob(y); k == key {
				x, msg, more = y, m, true
				break
			}
		}
	}
	c.v.fail(key, msg, x.SexpString(nil))
}

// ---- numeric literals ----

// exact gives the value the spelling denotes, worked out digit by digit; kind i, u or f.
func c12exact(s string) (kind byte, val *big.Rat, inf int) {
	body, neg := s, false
	if strings.HasPrefix(body, "-") || strings.HasPrefix(body, "+") {
		neg = body[0] == '-'
		body = body[1:]
	}
	if body == "Inf" || body == "inf" {
		if neg {
			return 'f', nil, -1
		}
		return 'f', nil, 1
	}
	kind = 'i'
	if strings.HasSuffix(body, "ULL") {
		kind, body = 'u', body[:len(body)-3]
	}
	base := int64(10)
	if len(body) > 2 && body[0] == '0' {
		if b, ok := map[byte]int64{'x': 16, 'o': 8, 'b': 2}[body[1]]; ok {
			base, body = b, body[2:]
		}
	}
	mant, exp := new(big.Int), 0
	frac, seenDot := 0, false
	i := 0
	for ; i < len(body); i++ {
		ch := body[i]
		if base == 10 && (ch == 'e' || ch == 'E') {
			break
		}
		switch {
		case ch == '_':
			continue
		case ch == '.':
			seenDot, kind = true, 'f'
			continue
		}
		d := int64(strings.IndexByte("0123456789abcdef", ch|0x20))
		if ch >= '0' && ch <= '9' {
			d = int64(ch - '0')
		}
		mant.Mul(mant, big.NewInt(base)).Add(mant, big.NewInt(d))
		if seenDot {
			frac++
		}
	}
	if i < len(body) {
		kind = 'f'
		exp, _ = strconv.Atoi(strings.ReplaceAll(strings.TrimPrefix(body[i+1:], "+"), "_", ""))
	}
	val = new(big.Rat).SetInt(mant)
	e := exp - frac
	if e < -2000 {
		e = -2000
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(c12abs(e))), nil)
	if e >= 0 {
		val.Mul(val, new(big.Rat).SetInt(p))
	} else {
		val.Quo(val, new(big.Rat).SetInt(p))
	}
	if neg {
		val.Neg(val)
	}
	return kind, val, 0
}

func c12abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// literal gives "" or what is wrong with the value x of the spelling s.
func c12literal(s string, x Sexp, err error) string {
	kind, val, inf := c12exact(s)
	fits := true
	switch kind {
	case 'i':
		fits = val.Num().IsInt64()
	case 'u':
		fits = val.Num().IsUint64()
	case 'f':
		if val != nil {
			f, _ := val.Float64()
			fits = !math.IsInf(f, 0)
		}
	}
	if err != nil {
		if fits {
			return fmt.Sprintf("%s is rejected: %v", s, err)
		}
		return ""
	}
	ok := false
	switch e := x.(type) {
	case *SexpInt:
		ok = kind == 'i' && val.Num().IsInt64() && val.Num().Int64() == e.Val
	case *SexpUint64:
		ok = kind == 'u' && val.Num().IsUint64() && val.Num().Uint64() == e.Val
	case *SexpFloat:
		if inf != 0 {
			ok = math.IsInf(e.Val, inf)
		} else if kind == 'f' {
			f, _ := val.Float64()
			ok = f == e.Val && (f != 0 || math.Signbit(e.Val) == strings.HasPrefix(s, "-") || val.Sign() != 0)
		}
	}
	if !ok {
		return fmt.Sprintf("%s reads as %T %s", s, x, c12show(x))
	}
	return ""
}

var c12frames = []struct {
	text string
	get  func(xs []Sexp) Sexp
}{
	{"%s", func(xs []Sexp) Sexp { return xs[0] }},
	{"%s ", func(xs []Sexp) Sexp { return xs[0] }},
	{"(a %s)", func(xs []Sexp) Sexp { return xs[0].(*SexpPair).Tail.(*SexpPair).Head }},
	{"(%s a)", func(xs []Sexp) Sexp { return xs[0].(*SexpPair).Head }},
	{"[%s]", func(xs []Sexp) Sexp { return xs[0].(*SexpArray).Val[0] }},
	{"[1 %s 2]", func(xs []Sexp) Sexp { return xs[0].(*SexpArray).Val[1] }},
	{"[1, %s]", func(xs []Sexp) Sexp { return xs[0].(*SexpArray).Val[len(xs[0].(*SexpArray).Val)-1] }},
	{"x\n%s\n", func(xs []Sexp) Sexp { return xs[1] }},
	{"%s// c\n", func(xs []Sexp) Sexp { return xs[0] }},
}

func (c *c12) spelling(s string, frames int) {
	for _, fr := range c12frames[:frames] {
		text := fmt.Sprintf(fr.text, s)
		c.v.at(text)
		c.v.count(text)
		var x Sexp
		xs, err := c.parse(text)
		if err == nil {
			o := vGuard(1000000, func() (Sexp, error) { return fr.get(xs), nil })
			if o.kind() != "VALUE" {
				c.v.fail("literal-shape", fmt.Sprintf("%q reads as %d expressions of another shape", text, len(xs)), text)
				return
			}
			x = o.Val
		}
		if d := c12literal(s, x, err); d != "" {
			c.v.fail("literal", d+fmt.Sprintf(" (in %q)", text), text)
			return
		}
		if fr.text == "%s" {
			if len(xs) > 1 {
				c.v.fail("literal-several", fmt.Sprintf("%q reads as %d expressions", text, len(xs)), text)
			}
			if err == nil && c.r.Intn(20) == 0 { // evaluated, and inside infix
				for _, src := range []string{s, "{" + s + "}", "(let [c12y " + s + "] {c12y})", "(begin " + s + ")"} {
					o := vEval(c.env, src)
					var err error
					if o.kind() != "VALUE" {
						err = fmt.Errorf("%s", o.show())
					}
					if d := c12literal(s, o.Val, err); d != "" {
						c.v.fail("literal-evaluated", d+fmt.Sprintf(" (evaluating %q)", src), src)
						return
					}
				}
			}
		}
	}
}

func (c *c12) literals() {
	digits := []string{"0", "1", "7", "9", "10", "123", "007", "1_000", "1_0_0", "1__0", "1_", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "4503599627370497", "9007199254740993"}
	var all []string
	for _, d := range digits {
		all = append(all, d, "-"+d)
		if !strings.Contains(d, "_") {
			all = append(all, d+"ULL")
		}
	}
	for _, h := range []string{"0", "1", "f", "F", "ff", "DeadBeef", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "0001", "10000000000000000", "e", "1e5", "abc"} {
		all = append(all, "0x"+h, "0x"+h+"ULL")
	}
	for _, o := range []string{"0", "7", "17", "777", "777777777777777777777", "1000000000000000000000", "1777777777777777777777", "0012"} {
		all = append(all, "0o"+o, "0o"+o+"ULL")
	}
	for _, b := range []string{"0", "1", "10", "101", "0001", strings.Repeat("1", 63), "1" + strings.Repeat("0", 63)} {
		all = append(all, "0b"+b)
	}
	ints := []string{"0", "1", "12", "1_0", "00", "123456789012345678901234567890", "9007199254740993"}
	fracs := []string{"", "0", "5", "25", "1_5", "000", "1234567890123456789", "50_", "4_"}
	exps := []string{"", "e0", "e5", "E5", "e+5", "E+05", "e-5", "E-3", "e1_0", "e308", "e309", "e-308", "e-324", "e-400", "e-330", "e+22", "e+23", "e00"}
	for _, sign := range []string{"", "-"} {
		for _, i := range ints {
			for _, e := range exps {
				if e != "" {
					all = append(all, sign+i+e)
				}
				for _, f := range fracs {
					all = append(all, sign+i+"."+f+e)
				}
			}
		}
		for _, f := range []string{"0", "5", "25", "1_5", "000", "1234567890123456789", "50_"} {
			all = append(all, sign+"."+f)
		}
		all = append(all, sign+"Inf", sign+"inf")
	}
	all = append(all, "+Inf", "+inf")
	for _, s := range all {
		c.spelling(s, len(c12frames))
	}
	// every short spelling over a small alphabet that the notation allows
	var grow func(s string, left int)
	grow = func(s string, left int) {
		if s != "" && (DecimalRegex.MatchString(s) || FloatRegex.MatchString(s)) && c12wellformed(s) {
			c.spelling(s, 3)
		}
		if left == 0 {
			return
		}
		for _, a := range []string{"-", "0", "1", "7", "_", ".", "e", "E", "+"} {
			grow(s+a, left-1)
		}
	}
	grow("", 5)
}

// c12wellformed: the harness's own idea of a decimal or floating literal.
func c12wellformed(s string) bool {
	s = strings.TrimPrefix(s, "-")
	mant, exp, sci := s, "", false
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant, exp, sci = s[:i], strings.TrimLeft(s[i+1:], "+-"), true
		if len(s[i+1:])-len(exp) > 1 {
			return false
		}
	}
	digits := func(t string) bool { return t != "" && t[0] != '_' && strings.Trim(t, "0123456789_") == "" }
	if sci && !digits(exp) {
		return false
	}
	ip, fp, dot := strings.Cut(mant, ".")
	if !dot {
		return digits(ip)
	}
	if ip == "" {
		return digits(fp) && !sci
	}
	return digits(ip) && strings.Trim(fp, "0123456789_") == ""
}

// ---- characters and strings ----

var c12escapes = map[rune]string{'\n': `\n`, '\r': `\r`, '\t': `\t`, '\a': `\a`, '\b': `\b`, '\f': `\f`, '\v': `\v`, '\\': `\\`, '"': `\"`, '\'': `\'`}

func (c *c12) runeLiteral(r rune) {
	var chars, strs []string
	if r != '\'' && r != '\\' {
		chars = append(chars, "'"+string(r)+"'")
	}
	if r != '"' && r != '\\' {
		strs = append(strs, `"`+string(r)+`"`)
	}
	if e, ok := c12escapes[r]; ok {
		chars = append(chars, "'"+e+"'")
		strs = append(strs, `"`+e+`"`)
	}
	chars = append(chars, strconv.QuoteRune(r), strconv.QuoteRuneToASCII(r))
	strs = append(strs, strconv.Quote(string(r)), strconv.QuoteToASCII(string(r)), strconv.Quote("a"+string(r)+"b"), fmt.Sprintf(`"\U%08x"`, r))
	if r != '`' {
		strs = append(strs, "`"+string(r)+"`")
	}
	for _, s := range chars {
		c.v.at(s)
		c.v.count(s)
		xs, err := c.parse("[" + s + " 1]")
		if err != nil {
			c.v.fail("char-literal", fmt.Sprintf("[%+q 1] is rejected: %v", s, err), s)
			continue
		}
		a, ok := xs[0].(*SexpArray)
		if !ok || len(a.Val) != 2 {
			c.v.fail("char-literal", fmt.Sprintf("[%+q 1] reads as %s", s, c12show(xs[0])), s)
		} else if d := c12same(&SexpChar{Val: r}, a.Val[0]); d != "" {
			c.v.fail("char-literal", fmt.Sprintf("%+q: %s", s, d), s)
		}
	}
	for _, s := range strs {
		c.v.at(s)
		c.v.count(s)
		want := string(r)
		if strings.HasPrefix(s, `"a`) && len(s) > 4 {
			want = "a" + want + "b"
		}
		xs, err := c.parse("(" + s + " 1)")
		if err != nil {
			c.v.fail("string-literal", fmt.Sprintf("(%+q 1) is rejected: %v", s, err), s)
			continue
		}
		p, ok := xs[0].(*SexpPair)
		if !ok {
			c.v.fail("string-literal", fmt.Sprintf("(%+q 1) reads as %s", s, c12show(xs[0])), s)
		} else if d := c12same(&SexpStr{S: want}, p.Head); d != "" {
			if r == 'a' && s == `"a"` {
				continue
			}
			c.v.fail("string-literal", fmt.Sprintf("%+q: %s", s, d), s)
		}
	}
}

// saved: a hash written to a file by the language, and sourced again.
func (c *c12) saved(dir string) {
	h, err := MakeHash(nil, "hash", c.env)
	if err != nil {
		panic(err)
	}
	for i := 0; i < 8; i++ {
		if err := h.HashSet(&SexpStr{S: c.str()}, c.jsonlike(3)); err != nil {
			panic(err)
		}
	}
	c.env.AddGlobal("c12save", h)
	f := filepath.Join(dir, "saved.zy")
	for _, form := range []string{"owritef", "save"} {
		os.Remove(f)
		src := fmt.Sprintf(`(%s c12save "%s")`, form, f)
		o := vEval(c.env, src)
		text, err := os.ReadFile(f)
		if o.kind() != "VALUE" || err != nil {
			c.v.fail("save", fmt.Sprintf("%s gave %s, %v", src, o.show(), err), src)
			continue
		}
		c.v.count(string(text))
		o = vEval(c.env, fmt.Sprintf(`(source "%s")`, f))
		if o.kind() != "VALUE" {
			c.v.fail("source", fmt.Sprintf("sourcing %+q gave %s", text, o.show()), string(text))
		} else if d := c12same(h, o.Val); d != "" {
			c.v.fail("source", fmt.Sprintf("sourcing %+q: %s", text, d), string(text))
		}
	}
}

func TestVerifC12(t *testing.T) {
	v := vBegin(t, "C12", "printed data reads back equal; literals denote their exact value")
	defer v.finish()
	c := &c12{v: v, r: v.rng, env: vNewEnv()}
	c.env.StandardSetup()
	dir, err := os.MkdirTemp("", "c12")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)

	for _, s := range c12syms {
		if xs, err := c.parse("[" + s + " " + s + "]"); err == nil && len(xs) == 1 {
			a, ok := xs[0].(*SexpArray)
			if !ok || len(a.Val) != 2 {
				continue
			}
			if sym, ok := a.Val[0].(*SexpSymbol); ok && sym.name == s { // a name that can be written
				c.syms = append(c.syms, s)
				c.check(sym, c.readBack)
				c.check(MakeList([]Sexp{sym, sym, &SexpInt{Val: 1}}), c.readBack)
				c.check(MakeList([]Sexp{&SexpInt{Val: 1}, sym}), c.readBack)
				c.check(&SexpArray{Val: []Sexp{sym, &SexpStr{S: "x"}, sym}, Env: c.env}, c.readBack)
			}
		}
	}
	for _, want := range []string{"a", "abc", "x1", "foo_bar", "+", "-", "<=", "quote", "hash", "e5", "é", "日本", "a.b"} {
		ok := false
		for _, s := range c.syms {
			ok = ok || s == want
		}
		if !ok {
			v.fail("symbol-unwritable", fmt.Sprintf("[%s %s] does not read as two symbols %s", want, want, want), want)
		}
	}
	for _, f := range c12floats {
		for _, g := range []float64{f, -f} {
			for _, sci := range []bool{false, true} {
				x := &SexpFloat{Val: g, Scientific: sci}
				c.check(x, c.readBack)
				c.check(x, c.evalBack)
				c.check(&SexpArray{Val: []Sexp{x, x}, Env: c.env}, c.readBack)
			}
		}
	}
	for _, i := range c12ints {
		c.check(&SexpInt{Val: i}, c.readBack)
		c.check(&SexpInt{Val: i}, c.evalBack)
		c.check(MakeList([]Sexp{&SexpInt{Val: i}, &SexpInt{Val: i}}), c.readBack)
	}
	for _, s := range c12strings {
		c.check(&SexpStr{S: s}, c.readBack)
		c.check(&SexpStr{S: s}, c.evalBack)
		h, _ := MakeHash(nil, "hash", c.env)
		h.HashSet(&SexpStr{S: s}, &SexpStr{S: s})
		c.check(h, c.evalBack)
		if utf8.ValidString(s) && !strings.Contains(s, "`") {
			c.check(&SexpStr{S: s, backtick: true}, c.readBack)
		}
	}
	for _, x := range []Sexp{SexpNull, &SexpBool{Val: true}, &SexpBool{}, MakeList([]Sexp{SexpNull}), MakeList([]Sexp{SexpNull, SexpNull}), &SexpArray{Env: c.env}, &SexpArray{Val: []Sexp{SexpNull}, Env: c.env}, MakeList([]Sexp{MakeList([]Sexp{MakeList([]Sexp{SexpNull, &SexpArray{Env: c.env}})})})} {
		c.check(x, c.readBack)
		if _, isList := x.(*SexpPair); !isList {
			c.check(x, c.evalBack)
		}
	}
	empty, _ := MakeHash(nil, "hash", c.env)
	c.check(empty, c.evalBack)
	c.check(&SexpArray{Val: []Sexp{empty, empty}, Env: c.env}, c.evalBack)
	for r := rune(0); r < 0x300; r++ {
		c.runeLiteral(r)
		c.check(&SexpChar{Val: r}, c.readBack)
		c.check(&SexpStr{S: string(r)}, c.readBack)
		if r < 0x100 {
			c.check(&SexpStr{S: string([]byte{byte(r)})}, c.readBack)
		}
	}
	for _, r := range []rune{0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d11e, 0x10fffe, 0x10ffff} {
		c.runeLiteral(r)
		c.check(&SexpChar{Val: r}, c.readBack)
	}
	c.literals()
	c.saved(dir)
	// nested to depth
	var deepA, deepH Sexp = &SexpInt{Val: 1}, &SexpInt{Val: 1}
	for i := 0; i < 80; i++ {
		deepA = &SexpArray{Val: []Sexp{MakeList([]Sexp{deepA})}, Env: c.env}
		h, _ := MakeHash(nil, "hash", c.env)
		h.HashSet(c.env.MakeSymbol("k"), deepH)
		deepH = &SexpArray{Val: []Sexp{h}, Env: c.env}
	}
	c.check(deepA, c.readBack)
	c.check(deepH, c.evalBack)

	for n := 0; v.more(); n++ {
		c.check(c.data(1+c.r.Intn(4)), c.readBack)
		c.check(c.jsonlike(1+c.r.Intn(4)), c.evalBack)
		if n%8 == 0 {
			c.runeLiteral(c.rune())
		}
		if n%500 == 0 {
			c.saved(dir)
		}
		if n%3000 == 2999 {
			c.env = vNewEnv()
			c.env.StandardSetup()
		}
	}
}
