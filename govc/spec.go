package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---------- contract files ----------

type Clause struct {
	Label string
	Text  string
	Expr  *Ex
	Deep  bool
}

// Printers are functions assumed to write nothing and to return some value.
type printerSet = map[string]bool

type AtCall struct {
	Callee string
	Clause
	hits int
}

type FnSpec struct {
	Name        string
	File        string
	Params      []string
	Results     []string
	Requires    []Clause
	Ensures     []Clause
	Modifies    []string
	Loops       map[int][]Clause
	Props       []string
	BV          bool
	Safe        bool
	SafeDeep    bool
	SafeNoNil   bool
	Guard       *Guard
	Swept       bool // obligation only: callers do not rely on it
	ErrProp     bool
	ErrExcept   map[string]bool
	ErrOnly     map[string]bool
	InlineOnly  bool
	Trusted     bool
	TrustWhy    string
	InlineSize  int
	InlineDepth int
	ForceInline []string
	NoInline    []string
	Shows       []Clause
	Timeout     int
	Assumes     []Clause
	AtCalls     []AtCall      // asserted at every call of the named callee, with the arguments as arg0, arg1, ...
	Dynamic     bool          // the contract of an interface method or of a function type
	Fn          *ssa.Function // the implementation this instance of a dynamic contract is about
	Iface       types.Type    // the interface type its receiver stands for
}

type Pred struct {
	Name   string
	Params []string
	PTypes []string
	Body   *Ex
}

type UFun struct {
	Name string
	Args []string
	Ret  string
}

type Axiom struct {
	Name string
	Expr *Ex
	Text string
}

// Panicless is "panicless FN, ...": these functions have no index, slice bound,
// type assertion, division, nil map or explicit panic that can fail. Nil
// pointers are not looked at.
type Panicless struct {
	Names []string
	Props []string
}

// Sweep is "sweep errprop except FILE, ...": every function of the package whose
// last result is an error carries an errprop obligation, also one added later.
type Sweep struct {
	Except map[string]bool
	Props  []string
}

type Spec struct {
	OnlyProp  string
	Printers  printerSet
	Wholes    []*Whole
	Sweeps    []*Sweep
	Panicless []*Panicless
	Guards    []*Guard
	NoFail    map[string]bool // callees whose error result carries no failure of the evaluation
	Funcs     map[string]*FnSpec
	Order     []string
	Preds     map[string]*Pred
	UFuns     map[string]*UFun
	Axioms    []Axiom
	Lemmas    []struct {
		Axiom
		Props []string
		BV    bool
	}
	Consts map[string]*Ex
}

var funcRe = regexp.MustCompile(`^func (\S+?)\(([\w, ]*)\)(?:\s*\(([\w, ]*)\))?$`)
var predRe = regexp.MustCompile(`^pred (\w+)\(([^)]*)\)\s*=\s*(.*)$`)
var ufunRe = regexp.MustCompile(`^ufun (\w+)\(([^)]*)\)\s*(\S+)$`)
var clauseKw = map[string]bool{"func": true, "printers": true, "writers": true, "callers": true, "recursion": true, "guarded": true, "pred": true, "ufun": true, "axiom": true, "lemma": true, "requires": true, "ensures": true,
	"modifies": true, "loop": true, "props": true, "mode": true, "safe": true, "safedeep": true, "errprop": true, "inline": true, "trusted": true, "inlinesize": true,
	"noinline": true, "forceinline": true, "show": true, "sweep": true, "panicless": true, "nofail": true, "timeout": true, "inlinedepth": true, "assume": true, "erronly": true, "dynamic": true, "atcall": true}

func splitList(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

func NewSpec() *Spec {
	return &Spec{Funcs: map[string]*FnSpec{}, Preds: map[string]*Pred{}, UFuns: map[string]*UFun{}, Consts: map[string]*Ex{}}
}

func (sp *Spec) Load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var clauses []string
	var lnos []int
	for i, l := range strings.Split(string(data), "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		kw := strings.Fields(t)[0]
		if clauseKw[kw] {
			clauses = append(clauses, t)
			lnos = append(lnos, i+1)
		} else if len(clauses) > 0 {
			clauses[len(clauses)-1] += " " + t
		} else {
			return fmt.Errorf("%s:%d: stray text %q", file, i+1, t)
		}
	}
	if sp.OnlyProp != "" {
		for _, c := range clauses {
			if f := strings.Fields(c); f[0] == "props" {
				ok := false
				for _, x := range splitList(strings.Join(f[1:], ",")) {
					ok = ok || x == sp.OnlyProp
				}
				if !ok {
					return nil
				}
				break
			}
		}
	}
	var cur *FnSpec
	var defProps []string
	for i, c := range clauses {
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v in %q", file, lnos[i], e, c) }
		kw := strings.Fields(c)[0]
		rest := strings.TrimSpace(c[len(kw):])
		clause := func(r string) (Clause, error) {
			cl := Clause{}
			if m := regexp.MustCompile(`^([\w.-]+):\s*(.*)$`).FindStringSubmatch(r); m != nil && !strings.HasPrefix(m[2], ":") {
				cl.Label = m[1]
				r = m[2]
			}
			cl.Text = r
			e, err := parseEx(r)
			cl.Expr = e
			if cl.Label == "" {
				cl.Label = "L" + strconv.Itoa(lnos[i])
			}
			return cl, err
		}
		switch kw {
		case "func":
			m := funcRe.FindStringSubmatch(c)
			if m == nil {
				return fail(fmt.Errorf("bad func header"))
			}
			cur = &FnSpec{Name: m[1], File: file, Loops: map[int][]Clause{}, InlineSize: 40, InlineDepth: 4, Props: defProps}
			for _, p := range strings.Split(m[2], ",") {
				cur.Params = append(cur.Params, strings.TrimSpace(p))
			}
			if m[2] == "" {
				cur.Params = nil
			}
			for _, p := range splitList(m[3]) {
				cur.Results = append(cur.Results, p)
			}
			if sp.Funcs[cur.Name] != nil {
				return fail(fmt.Errorf("duplicate contract"))
			}
			sp.Funcs[cur.Name] = cur
			sp.Order = append(sp.Order, cur.Name)
		case "pred":
			m := predRe.FindStringSubmatch(c)
			if m == nil {
				return fail(fmt.Errorf("bad pred"))
			}
			p := &Pred{Name: m[1]}
			for _, a := range splitList(m[2]) {
				fs := strings.SplitN(a, " ", 2)
				p.Params = append(p.Params, fs[0])
				ty := ""
				if len(fs) > 1 {
					ty = strings.TrimSpace(fs[1])
				}
				p.PTypes = append(p.PTypes, ty)
			}
			e, err := parseEx(m[3])
			if err != nil {
				return fail(err)
			}
			p.Body = e
			sp.Preds[p.Name] = p
		case "printers":
			if sp.Printers == nil {
				sp.Printers = map[string]bool{}
			}
			for _, x := range splitList(rest) {
				sp.Printers[x] = true
			}
		case "writers", "callers", "recursion":
			k := strings.LastIndex(rest, ": ")
			if k < 0 {
				return fail(fmt.Errorf("bad %s clause", kw))
			}
			sp.Wholes = append(sp.Wholes, &Whole{kw, strings.TrimSpace(rest[:k]), splitList(rest[k+2:]), defProps})
			cur = nil
		case "guarded":
			k := strings.Index(rest, ": ")
			if k < 0 {
				return fail(fmt.Errorf("bad guarded clause"))
			}
			what, arg := strings.TrimSpace(rest[:k]), strings.TrimSpace(rest[k+2:])
			if what == "by" {
				e, err := parseEx(arg)
				if err != nil {
					return fail(err)
				}
				sp.Guards = append(sp.Guards, &Guard{Cond: e, Text: arg, Props: defProps})
			} else if len(sp.Guards) == 0 {
				return fail(fmt.Errorf("guarded by comes first"))
			} else if g := sp.Guards[len(sp.Guards)-1]; what == "also" {
				g.Also = append(g.Also, splitList(arg)...)
			} else {
				re, err := regexp.Compile("^(?:" + arg + ")$")
				if err != nil {
					return fail(err)
				}
				g.Harmless = append(g.Harmless, re)
			}
			cur = nil
		case "nofail":
			if sp.NoFail == nil {
				sp.NoFail = map[string]bool{}
			}
			for _, x := range splitList(rest) {
				sp.NoFail[x] = true
			}
			cur = nil
		case "panicless":
			sp.Panicless = append(sp.Panicless, &Panicless{splitList(rest), defProps})
			cur = nil
		case "sweep":
			if !strings.HasPrefix(rest, "errprop except ") {
				return fail(fmt.Errorf("bad sweep"))
			}
			sw := &Sweep{Except: map[string]bool{}, Props: defProps}
			for _, x := range splitList(strings.TrimPrefix(rest, "errprop except ")) {
				sw.Except[x] = true
			}
			sp.Sweeps = append(sp.Sweeps, sw)
			cur = nil
		case "ufun":
			m := ufunRe.FindStringSubmatch(c)
			if m == nil {
				return fail(fmt.Errorf("bad ufun"))
			}
			sp.UFuns[m[1]] = &UFun{m[1], splitList(m[2]), m[3]}
		case "axiom":
			cl, err := clause(rest)
			if err != nil {
				return fail(err)
			}
			sp.Axioms = append(sp.Axioms, Axiom{cl.Label, cl.Expr, cl.Text})
		case "lemma":
			bv := false
			if strings.HasPrefix(rest, "bv ") {
				bv = true
				rest = strings.TrimSpace(rest[3:])
			}
			cl, err := clause(rest)
			if err != nil {
				return fail(err)
			}
			sp.Lemmas = append(sp.Lemmas, struct {
				Axiom
				Props []string
				BV    bool
			}{Axiom{cl.Label, cl.Expr, cl.Text}, defProps, bv})
		case "props":
			if cur == nil {
				defProps = splitList(rest)
			} else {
				cur.Props = splitList(rest)
			}
		default:
			if cur == nil {
				return fail(fmt.Errorf("clause outside func"))
			}
			switch kw {
			case "requires", "ensures", "show", "assume":
				cl, err := clause(rest)
				if err != nil {
					return fail(err)
				}
				switch kw {
				case "requires":
					cur.Requires = append(cur.Requires, cl)
				case "ensures":
					cur.Ensures = append(cur.Ensures, cl)
				case "assume":
					cur.Assumes = append(cur.Assumes, cl)
				default:
					cur.Shows = append(cur.Shows, cl)
				}
			case "modifies":
				if rest == "nothing" {
					rest = ""
				}
				cur.Modifies = append([]string{}, splitList(rest)...)
				if cur.Modifies == nil {
					cur.Modifies = []string{}
				}
			case "loop":
				fs := strings.SplitN(rest, " ", 3)
				n, err := strconv.Atoi(fs[0])
				if err != nil || len(fs) < 3 || fs[1] != "invariant" {
					return fail(fmt.Errorf("bad loop clause"))
				}
				cl, err := clause(fs[2])
				if err != nil {
					return fail(err)
				}
				cur.Loops[n] = append(cur.Loops[n], cl)
			case "atcall":
				callee, r, _ := strings.Cut(rest, " ")
				cl, err := clause(strings.TrimSpace(r))
				if err != nil {
					return fail(err)
				}
				cur.AtCalls = append(cur.AtCalls, AtCall{Callee: callee, Clause: cl})
			case "dynamic":
				cur.Dynamic = true
			case "mode":
				cur.BV = strings.Contains(rest, "bv")
			case "safe":
				cur.Safe = true
			case "safedeep":
				cur.Safe = true
				cur.SafeDeep = true
			case "errprop":
				cur.ErrProp = true
				cur.ErrExcept = map[string]bool{}
				rest = strings.TrimPrefix(rest, "except")
				for _, x := range splitList(rest) {
					cur.ErrExcept[x] = true
				}
			case "erronly":
				cur.ErrOnly = map[string]bool{}
				for _, x := range splitList(rest) {
					cur.ErrOnly[x] = true
				}
			case "inline":
				cur.InlineOnly = true
			case "trusted":
				cur.Trusted = true
				cur.TrustWhy = rest
			case "inlinesize":
				cur.InlineSize, _ = strconv.Atoi(rest)
			case "inlinedepth":
				cur.InlineDepth, _ = strconv.Atoi(rest)
			case "noinline":
				cur.NoInline = splitList(rest)
			case "forceinline":
				cur.ForceInline = splitList(rest)
			case "timeout":
				cur.Timeout, _ = strconv.Atoi(rest)
			}
		}
	}
	return nil
}

// ---------- expressions ----------

type Ex struct {
	Op   string // lit, str, id, bin ops, call, field, index, forall, exists, not, neg
	S    string
	Kids []*Ex
	Vars [][2]string
}

type lexTok struct {
	k string // id, int, str, op, eof, flt
	s string
	p int
}

type exParser struct {
	src string
	pos int
	tok lexTok
}

func parseEx(src string) (e *Ex, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	p := &exParser{src: src}
	p.next()
	e = p.expr(0)
	if p.tok.k != "eof" {
		panic("trailing text at " + p.src[p.tok.p:])
	}
	return e, nil
}

var ops3 = []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "<<", ">>"}

func (p *exParser) next() {
	for p.pos < len(p.src) && unicode.IsSpace(rune(p.src[p.pos])) {
		p.pos++
	}
	st := p.pos
	if st >= len(p.src) {
		p.tok = lexTok{"eof", "", st}
		return
	}
	c := p.src[st]
	switch {
	case c == '_' || unicode.IsLetter(rune(c)) || c == '$':
		for p.pos < len(p.src) && (p.src[p.pos] == '_' || p.src[p.pos] == '$' || unicode.IsLetter(rune(p.src[p.pos])) || unicode.IsDigit(rune(p.src[p.pos]))) {
			p.pos++
		}
		p.tok = lexTok{"id", p.src[st:p.pos], st}
	case unicode.IsDigit(rune(c)):
		for p.pos < len(p.src) && (unicode.IsDigit(rune(p.src[p.pos])) || p.src[p.pos] == 'x' || p.src[p.pos] >= 'a' && p.src[p.pos] <= 'f') {
			p.pos++
		}
		p.tok = lexTok{"int", p.src[st:p.pos], st}
	case c == '"':
		p.pos++
		for p.pos < len(p.src) && p.src[p.pos] != '"' {
			if p.src[p.pos] == '\\' {
				p.pos++
			}
			p.pos++
		}
		p.pos++
		p.tok = lexTok{"str", p.src[st:p.pos], st}
	case c == '\'':
		p.pos++
		for p.pos < len(p.src) && p.src[p.pos] != '\'' {
			if p.src[p.pos] == '\\' {
				p.pos++
			}
			p.pos++
		}
		p.pos++
		p.tok = lexTok{"chr", p.src[st:p.pos], st}
	default:
		for _, o := range ops3 {
			if strings.HasPrefix(p.src[st:], o) {
				p.pos += len(o)
				p.tok = lexTok{"op", o, st}
				return
			}
		}
		p.pos++
		p.tok = lexTok{"op", string(c), st}
	}
}

func (p *exParser) isOp(s string) bool { return p.tok.k == "op" && p.tok.s == s }
func (p *exParser) expect(s string) {
	if !p.isOp(s) {
		panic("expected " + s + " at " + p.src[p.tok.p:])
	}
	p.next()
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "&": 7, "<<": 7, ">>": 7}

func (p *exParser) expr(min int) *Ex {
	l := p.unary()
	for p.tok.k == "op" {
		o := p.tok.s
		pr, ok := prec[o]
		if !ok || pr < min {
			break
		}
		p.next()
		var r *Ex
		if o == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Ex{Op: o, Kids: []*Ex{l, r}}
	}
	return l
}

// rawUntil returns raw text up to a top-level ',' , ')' or "::".
func (p *exParser) raw(stops string) string {
	st := p.tok.p
	d := 0
	i := st
	for ; i < len(p.src); i++ {
		c := p.src[i]
		if d == 0 && strings.ContainsRune(stops, rune(c)) {
			break
		}
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
	}
	s := strings.TrimSpace(p.src[st:i])
	p.pos = i
	p.next()
	return s
}

func (p *exParser) unary() *Ex {
	switch {
	case p.isOp("!"):
		p.next()
		return &Ex{Op: "not", Kids: []*Ex{p.unary()}}
	case p.isOp("-"):
		p.next()
		return &Ex{Op: "neg", Kids: []*Ex{p.unary()}}
	case p.tok.k == "id" && (p.tok.s == "forall" || p.tok.s == "exists"):
		op := p.tok.s
		p.next()
		e := &Ex{Op: op}
		for {
			nm := p.tok.s
			p.next()
			ty := p.raw(",:")
			e.Vars = append(e.Vars, [2]string{nm, ty})
			if p.isOp(",") {
				p.next()
				continue
			}
			break
		}
		p.expect("::")
		e.Kids = []*Ex{p.expr(0)}
		return e
	}
	return p.postfix(p.primary())
}

var rawArgs = map[string]map[int]bool{"is": {1: true}, "as": {1: true}, "same": {0: true, 1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true}, "sameExcept": {0: true}, "zero": {0: true}, "conv": {0: true}, "extern": {0: true, 1: true}, "runsfn": {1: true}, "capturedvar": {1: true, 2: true},
	"cell": {0: true}, "boxed": {0: true}, "sliceOf": {0: true}, "elemsSame": {0: true}}

func (p *exParser) primary() *Ex {
	t := p.tok
	switch t.k {
	case "id":
		p.next()
		if p.isOp("(") {
			p.next()
			e := &Ex{Op: "call", S: t.s}
			for n := 0; !p.isOp(")"); n++ {
				if rawArgs[t.s][n] {
					e.Kids = append(e.Kids, &Ex{Op: "raw", S: p.raw(",)")})
				} else {
					e.Kids = append(e.Kids, p.expr(0))
				}
				if p.isOp(",") {
					p.next()
				} else if !p.isOp(")") {
					panic("expected , or ) at " + p.src[p.tok.p:])
				}
			}
			p.next()
			return e
		}
		return &Ex{Op: "id", S: t.s}
	case "int":
		p.next()
		return &Ex{Op: "int", S: t.s}
	case "str":
		p.next()
		s, err := strconv.Unquote(t.s)
		if err != nil {
			panic("bad string " + t.s)
		}
		return &Ex{Op: "str", S: s}
	case "chr":
		p.next()
		s, err := strconv.Unquote(t.s)
		if err != nil {
			panic("bad char " + t.s)
		}
		return &Ex{Op: "int", S: fmt.Sprint([]rune(s)[0])}
	}
	if p.isOp("(") {
		p.next()
		e := p.expr(0)
		p.expect(")")
		return e
	}
	panic("unexpected " + t.s + " at " + p.src[t.p:])
}

func (p *exParser) postfix(e *Ex) *Ex {
	for {
		switch {
		case p.isOp("."):
			p.next()
			e = &Ex{Op: "field", S: p.tok.s, Kids: []*Ex{e}}
			p.next()
		case p.isOp("["):
			p.next()
			i := p.expr(0)
			p.expect("]")
			e = &Ex{Op: "index", Kids: []*Ex{e, i}}
		default:
			return e
		}
	}
}

// ---------- evaluation ----------

type SVal struct {
	T   Term
	typ types.Type
}

type specEnv struct {
	s        *Session
	vars     map[string]SVal
	cur, old *State
	fr       *Frame
	li       *loopInfo
	bound    int
	post     bool
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) specErr { return specErr{fmt.Sprintf(f, a...)} }

func (s *Session) evalBool(env *specEnv, e *Ex) Term {
	v := env.eval(e)
	if v.T.Sort != "Bool" {
		panic(serr("not boolean: %v", e))
	}
	return v.T
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tUInt = types.Typ[types.UntypedInt]
var tNil = types.Typ[types.UntypedNil]
var typeCache = map[string]types.Type{}

func (s *Session) parseType(txt string) types.Type {
	if t, ok := typeCache[txt]; ok {
		return t
	}
	tv, err := types.Eval(s.w.prog.Fset, s.w.tpkg, s.w.evalPos(), txt)
	if err != nil || !tv.IsType() {
		panic(serr("bad type %q: %v", txt, err))
	}
	typeCache[txt] = tv.Type
	return tv.Type
}

func (e *specEnv) withState(st *State) *specEnv {
	n := *e
	n.cur = st
	return &n
}

// adapt converts an untyped constant/nil to the sort of the other operand.
func (e *specEnv) adapt(a, b SVal) (SVal, SVal) {
	if a.typ == tNil && b.typ != tNil {
		a = SVal{e.s.zero(b.typ), b.typ}
	} else if b.typ == tNil && a.typ != tNil {
		b = SVal{e.s.zero(a.typ), a.typ}
	}
	fix := func(x, o SVal) SVal {
		if x.typ == tUInt && o.typ != tUInt {
			srt := o.T.Sort
			if bvWidth(srt) > 0 {
				return SVal{e.s.intConst(x.T.S, srt), o.typ}
			}
			if strings.HasPrefix(srt, "(_ Fl") {
				f, _ := strconv.ParseFloat(x.T.S, 64)
				return SVal{fpLit(f, srt), o.typ}
			}
			return SVal{x.T, o.typ}
		}
		return x
	}
	a, b = fix(a, b), fix(b, a)
	if a.T.Sort != b.T.Sort {
		if a.T.Sort == "Iface" {
			b = SVal{e.s.makeIface(b.typ, b.T), a.typ}
		} else if b.T.Sort == "Iface" {
			a = SVal{e.s.makeIface(a.typ, a.T), b.typ}
		}
	}
	return a, b
}

func (e *specEnv) eval(x *Ex) SVal {
	s := e.s
	switch x.Op {
	case "int":
		n := x.S
		if strings.HasPrefix(n, "0x") {
			u, err := strconv.ParseUint(n, 0, 64)
			if err != nil {
				panic(serr("bad int %s", n))
			}
			n = fmt.Sprint(u)
		}
		return SVal{Term{n, "Int"}, tUInt}
	case "str":
		return SVal{smtString(x.S), tString}
	case "id":
		return e.ident(x.S)
	case "not":
		return SVal{Not(e.eval(x.Kids[0]).T), tBool}
	case "neg":
		v := e.eval(x.Kids[0])
		if v.typ == tUInt {
			return SVal{T("Int", "(- %s)", v.T.S), tUInt}
		}
		if bvWidth(v.T.Sort) > 0 {
			return SVal{T(v.T.Sort, "(bvneg %s)", v.T.S), v.typ}
		}
		if strings.HasPrefix(v.T.Sort, "(_ Fl") {
			return SVal{T(v.T.Sort, "(fp.neg %s)", v.T.S), v.typ}
		}
		return SVal{T("Int", "(- %s)", v.T.S), v.typ}
	case "&&":
		return SVal{And(e.eval(x.Kids[0]).T, e.eval(x.Kids[1]).T), tBool}
	case "||":
		return SVal{Or(e.eval(x.Kids[0]).T, e.eval(x.Kids[1]).T), tBool}
	case "==>":
		return SVal{Imp(e.eval(x.Kids[0]).T, e.eval(x.Kids[1]).T), tBool}
	case "<==>":
		return SVal{Eq(e.eval(x.Kids[0]).T, e.eval(x.Kids[1]).T), tBool}
	case "==", "!=":
		a, b := e.adapt(e.eval(x.Kids[0]), e.eval(x.Kids[1]))
		r := s.arith(token.EQL, a.T, b.T, a.typ, b.typ, tBool)
		if x.Op == "!=" {
			r = Not(r)
		}
		return SVal{r, tBool}
	case "<", "<=", ">", ">=":
		a, b := e.adapt(e.eval(x.Kids[0]), e.eval(x.Kids[1]))
		op := map[string]token.Token{"<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}[x.Op]
		return SVal{s.arith(op, a.T, b.T, a.typ, b.typ, tBool), tBool}
	case "+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>":
		a, b := e.adapt(e.eval(x.Kids[0]), e.eval(x.Kids[1]))
		op := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "|": token.OR, "&": token.AND, "^": token.XOR, "<<": token.SHL, ">>": token.SHR}[x.Op]
		return SVal{s.arith(op, a.T, b.T, a.typ, b.typ, a.typ), a.typ}
	case "field":
		return e.fieldOf(e.eval(x.Kids[0]), x.S)
	case "index":
		return e.index(e.eval(x.Kids[0]), x.Kids[1])
	case "forall", "exists":
		n := *e
		n.vars = map[string]SVal{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		n.bound++
		var bs []string
		for _, v := range x.Vars {
			var t types.Type
			srt := ""
			if strings.HasPrefix(v[1], "ref ") {
				t = s.parseType("*" + strings.TrimSpace(v[1][4:]))
				srt = "Int"
			} else {
				t = s.parseType(v[1])
				srt = s.sort(t)
			}
			nm := q(fmt.Sprintf("%s!b%d", v[0], n.bound))
			bs = append(bs, fmt.Sprintf("(%s %s)", nm, srt))
			n.vars[v[0]] = SVal{Term{nm, srt}, t}
		}
		body := n.eval(x.Kids[0])
		return SVal{T("Bool", "(%s (%s) %s)", x.Op, strings.Join(bs, " "), body.T.S), tBool}
	case "call":
		return e.call(x)
	}
	panic(serr("cannot evaluate %s", x.Op))
}

func (e *specEnv) ident(n string) SVal {
	s := e.s
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SVal{True, tBool}
	case "false":
		return SVal{False, tBool}
	case "nil":
		return SVal{IntLit(0), tNil}
	case "NaN":
		return SVal{Term{"(_ NaN 11 53)", "(_ FloatingPoint 11 53)"}, types.Typ[types.Float64]}
	case "$errflag":
		return SVal{s.heapGet(e.cur, "L!errflag", "Bool"), tBool}
	}
	if p, ok := s.spec.Preds[n]; ok && len(p.Params) == 0 {
		return e.eval(p.Body)
	}
	if e.fr != nil {
		if v, ok := e.fr.localVar(e, n); ok {
			return v
		}
	}
	if o := s.w.tpkg.Scope().Lookup(n); o != nil {
		switch o := o.(type) {
		case *types.Const:
			t := o.Type()
			if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				if o.Val().Kind() == constant.Int {
					return SVal{Term{o.Val().ExactString(), "Int"}, tUInt}
				}
			}
			return SVal{s.constant(ssa.NewConst(o.Val(), t)), t}
		case *types.Var:
			g := s.w.pkg.Var(n)
			return SVal{s.globalVal(e.cur, g), o.Type()}
		}
	}
	panic(serr("unknown name %q", n))
}

// localVar resolves a source variable at a loop header.
func (f *Frame) localVar(e *specEnv, n string) (SVal, bool) {
	s := f.s
	if e.li != nil {
		if n == "$i" {
			for _, in := range e.li.header.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
					t := s.term(f.vals[ph])
					return SVal{T(t.Sort, "(+ %s 1)", t.S), ph.Type()}, true
				}
				if ph, ok := in.(*ssa.Phi); ok && strings.HasPrefix(ph.Comment, "rangeint") {
					return SVal{s.term(f.vals[ph]), ph.Type()}, true
				}
			}
		}
		// walk outwards: this loop's phis, then enclosing values
		for _, in := range e.li.header.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && ph.Comment == n {
				return SVal{s.term(f.vals[ph]), ph.Type()}, true
			}
		}
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == n {
				if v, ok := f.vals[a]; ok {
					ad, isA := v.(Addr)
					if isA {
						return SVal{s.load(e.cur, ad), deref(a.Type())}, true
					}
					return SVal{s.term(v), a.Type()}, true
				}
			}
		}
	}
	// last DebugRef of that name whose value is computed and dominates the header
	var best ssa.Value
	for _, b := range f.fn.Blocks {
		if e.li != nil && !b.Dominates(e.li.header) {
			continue
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && ph.Comment == n {
				if _, have := f.vals[ph]; have {
					best = ph
				}
			}
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if o := d.Object(); o != nil && o.Name() == n {
					if _, have := f.vals[d.X]; have {
						best = d.X
					} else if c, ok := d.X.(*ssa.Const); ok {
						best = c
					}
				}
			}
		}
	}
	if best != nil {
		return SVal{s.term(f.get(e.cur, best)), best.Type()}, true
	}
	return SVal{}, false
}

func (e *specEnv) fieldOf(v SVal, name string) SVal {
	s := e.s
	obj, path, _ := types.LookupFieldOrMethod(v.typ, true, s.w.tpkg, name)
	fv, ok := obj.(*types.Var)
	if !ok {
		panic(serr("no field %s in %s", name, s.w.ts(v.typ)))
	}
	cur := v
	for _, i := range path {
		if p, ok := cur.typ.Underlying().(*types.Pointer); ok {
			st := p.Elem()
			_, h := s.fieldArr(e.cur, st, i)
			ref := cur.T
			cur = SVal{Select(h, cur.T), st.Underlying().(*types.Struct).Field(i).Type()}
			e.live(ref, cur)
		} else {
			st := cur.typ
			cur = SVal{s.field(st, cur.T, i), st.Underlying().(*types.Struct).Field(i).Type()}
		}
	}
	_ = fv
	return cur
}

var boundVar = regexp.MustCompile(`!b[0-9]`)

// live: what a field of an allocated object refers to is itself allocated (memory safety), as
// loads in the code know too. Only for closed terms.
func (e *specEnv) live(ref Term, v SVal) {
	if e.cur == nil || e.cur.alloc.S == "" || boundVar.MatchString(ref.S) {
		return
	}
	switch v.typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
	default:
		return
	}
	key := "live " + v.T.S + " " + e.cur.alloc.S + " " + e.cur.pc.S
	if e.s.liveSeen == nil {
		e.s.liveSeen = map[string]bool{}
	}
	if e.s.liveSeen[key] {
		return
	}
	e.s.liveSeen[key] = true
	e.s.wf(&State{pc: And(e.cur.pc, T("Bool", "(and (< 0 %s) (< %s %s))", ref.S, ref.S, e.cur.alloc.S)), alloc: e.cur.alloc}, v.typ, v.T)
}

func (e *specEnv) index(v SVal, ix *Ex) SVal {
	s := e.s
	i := e.eval(ix)
	switch u := v.typ.Underlying().(type) {
	case *types.Slice:
		_, h := s.elemArr(e.cur, u.Elem())
		return SVal{Select(Select(h, T("Int", "(sl!arr %s)", v.T.S)), T("Int", "(sl!at (sl!off %s) %s)", v.T.S, i.T.S)), u.Elem()}
	case *types.Map:
		k, _ := e.adapt(i, SVal{s.zero(u.Key()), u.Key()})
		_, _, val, _ := s.mapArrs(e.cur, v.typ)
		return SVal{Select(Select(val, v.T), k.T), u.Elem()}
	case *types.Array:
		return SVal{Select(v.T, i.T), u.Elem()}
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			_, h := s.elemArr(e.cur, at.Elem())
			return SVal{Select(Select(h, v.T), i.T), at.Elem()}
		}
	case *types.Basic:
		return SVal{s.byteAt(v.T, i.T), types.Typ[types.Byte]}
	}
	panic(serr("cannot index %s", s.w.ts(v.typ)))
}

func (e *specEnv) call(x *Ex) SVal {
	s := e.s
	k := x.Kids
	switch x.S {
	case "old":
		return e.withState(e.old).eval(k[0])
	case "pre":
		if e.li == nil || e.li.preSt == nil {
			return e.eval(k[0])
		}
		return e.withState(e.li.preSt).eval(k[0])
	case "len", "cap":
		v := e.eval(k[0])
		switch v.typ.Underlying().(type) {
		case *types.Slice:
			return SVal{T("Int", "(sl!%s %s)", x.S, v.T.S), tInt}
		case *types.Basic:
			return SVal{T("Int", "(str.len %s)", v.T.S), tInt}
		case *types.Map:
			_, _, _, ln := s.mapArrs(e.cur, v.typ)
			return SVal{Ite(Eq(v.T, IntLit(0)), IntLit(0), Select(ln, v.T)), tInt}
		}
	case "has":
		m := e.eval(k[0])
		mt := m.typ.Underlying().(*types.Map)
		key, _ := e.adapt(e.eval(k[1]), SVal{s.zero(mt.Key()), mt.Key()})
		return SVal{s.mapHas(e.cur, m.typ, m.T, key.T), tBool}
	case "is":
		v := e.eval(k[0])
		return SVal{s.hasType(v.T, s.parseType(k[1].S)), tBool}
	case "as":
		v := e.eval(k[0])
		t := s.parseType(k[1].S)
		return SVal{s.asConcrete(v.T, t), t}
	case "boxed":
		t := s.parseType(k[0].S)
		v := e.eval(k[1])
		if v.typ == tUInt {
			v, _ = e.adapt(v, SVal{s.zero(t), t})
		}
		if isPtrLike(t) {
			return SVal{s.makeIface(t, v.T), types.NewInterfaceType(nil, nil)}
		}
		panic(serr("boxed of non-pointer"))
	case "conv":
		v := e.eval(k[1])
		t := s.parseType(k[0].S)
		if v.typ == tUInt {
			v, _ = e.adapt(v, SVal{s.zero(t), t})
			return SVal{v.T, t}
		}
		return SVal{s.conv(v.T, v.typ, t), t}
	case "zero":
		t := s.parseType(k[0].S)
		return SVal{s.zero(t), t}
	case "typed":
		return e.eval(k[0])
	case "ite":
		a, b := e.adapt(e.eval(k[1]), e.eval(k[2]))
		return SVal{Ite(e.eval(k[0]).T, a.T, b.T), a.typ}
	case "isNaN":
		return SVal{T("Bool", "(fp.isNaN %s)", e.eval(k[0]).T.S), tBool}
	case "fpsame": // identical float value including NaN and signed zero
		return SVal{Eq(e.eval(k[0]).T, e.eval(k[1]).T), tBool}
	case "nilslice":
		return SVal{T("Bool", "(= (sl!arr %s) 0)", e.eval(k[0]).T.S), tBool}
	case "fresh":
		v := e.eval(k[0])
		r := v.T
		if r.Sort == "Iface" {
			r = ival(r)
		} else if r.Sort == "Slice" {
			r = T("Int", "(sl!arr %s)", r.S)
		}
		return SVal{T("Bool", "(>= %s %s)", r.S, e.old.alloc.S), tBool}
	case "allocated":
		v := e.eval(k[0])
		r := v.T
		if r.Sort == "Iface" {
			return SVal{T("Bool", "(< (ival %s) %s)", r.S, e.cur.alloc.S), tBool}
		} else if r.Sort == "Slice" {
			r = T("Int", "(sl!arr %s)", r.S)
		}
		return SVal{T("Bool", "(and (< 0 %s) (< %s %s))", r.S, r.S, e.cur.alloc.S), tBool}
	case "arr":
		return SVal{T("Int", "(sl!arr %s)", e.eval(k[0]).T.S), tInt}
	case "deref": // deref(p): what the pointer p points to
		v := e.eval(k[0])
		p, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			panic(serr("deref of a value that is no pointer"))
		}
		return SVal{s.load(e.cur, Addr{kind: 'C', heap: s.w.cellHeap(p.Elem()), ref: v.T, root: p.Elem(), typ: p.Elem()}), p.Elem()}
	case "off":
		return SVal{T("Int", "(sl!off %s)", e.eval(k[0]).T.S), tInt}
	case "ref":
		v := e.eval(k[0])
		if v.T.Sort == "Iface" {
			return SVal{ival(v.T), tInt}
		}
		return SVal{v.T, tInt}
	case "substr": // substr(s, from, count)
		return SVal{T("String", "(str.substr %s %s %s)", e.eval(k[0]).T.S, e.eval(k[1]).T.S, e.eval(k[2]).T.S), types.Typ[types.String]}
	case "runeat":
		return SVal{T("Int", "(%s %s %s)", s.declFun("rune!at", "String Int", "Int"), e.eval(k[0]).T.S, e.eval(k[1]).T.S), types.Typ[types.Int32]}
	case "runelen":
		return SVal{T("Int", "(%s %s)", s.declFun("rune!len", "String", "Int"), e.eval(k[0]).T.S), tInt}
	case "runsfn": // runsfn(v, F): the function value v is F, plain or as a closure
		return SVal{s.runs(e.eval(k[0]).T, s.w.named(k[1].S)), tBool}
	case "capturedvar": // capturedvar(v, F$1, x): the captured variable x of the closure v of F$1
		return s.captured(e.cur, e.eval(k[0]).T, s.w.named(k[1].S), k[2].S)
	case "extern": // extern(type, pkg.Func, args...): a pure function of another package
		t := s.parseType(k[0].S)
		var as, ss []string
		for _, a := range k[2:] {
			v := e.eval(a)
			as, ss = append(as, v.T.S), append(ss, v.T.Sort)
		}
		return SVal{T(s.sort(t), "(%s %s)", s.declFun("ext!"+k[1].S+"!0", strings.Join(ss, " "), s.sort(t)), strings.Join(as, " ")), t}
	case "identical":
		a, b := e.adapt(e.eval(k[0]), e.eval(k[1]))
		return SVal{Eq(a.T, b.T), tBool}
	case "same": // heap variables unchanged since the old state
		var cs []Term
		for _, r := range k {
			for _, h := range s.w.heapNames(r.S) {
				srt := s.sortOfHeapName(h)
				if srt == "" {
					panic(serr("unknown heap %s", h))
				}
				cs = append(cs, Eq(s.heapGet(e.cur, h, srt), s.heapGet(e.old, h, srt)))
			}
		}
		return SVal{And(cs...), tBool}
	case "sameExcept": // sameExcept(T.f, x, y...): unchanged at every object allocated before, other than x, y
		var cs []Term
		for _, h := range s.w.heapNames(k[0].S) {
			srt := s.sortOfHeapName(h)
			if srt == "" {
				panic(serr("unknown heap %s", h))
			}
			if !strings.HasPrefix(srt, "(Array Int ") {
				panic(serr("sameExcept on global"))
			}
			r := fmt.Sprintf("|r!b%d|", e.bound+1)
			conds := []string{fmt.Sprintf("(< %s %s)", r, e.old.alloc.S)}
			for _, y := range k[1:] {
				v := e.eval(y).T
				if v.Sort == "Slice" {
					v = T("Int", "(sl!arr %s)", v.S)
				} else if v.Sort == "Iface" {
					v = ival(v)
				}
				conds = append(conds, fmt.Sprintf("(not (= %s %s))", r, v.S))
			}
			c, o := s.heapGet(e.cur, h, srt), s.heapGet(e.old, h, srt)
			if c.S == o.S {
				continue
			}
			cs = append(cs, T("Bool", "(forall ((%s Int)) (! (=> (and %s) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))", r, strings.Join(conds, " "), c.S, r, o.S, r, c.S, r))
		}
		return SVal{And(cs...), tBool}
	case "visited":
		v := e.eval(k[0])
		for b := range e.li.body {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					it, ok := e.fr.vals[nx.Iter].(mapIter)
					if !ok {
						continue
					}
					mt := it.mt.Underlying().(*types.Map)
					h := s.heapGet(e.cur, "IT!"+it.id, fmt.Sprintf("(Array %s Bool)", s.sort(mt.Key())))
					return SVal{Select(h, v.T), tBool}
				}
			}
		}
		panic(serr("visited: no map iteration in this loop"))
	case "nextof": // shorthand not available
	}
	if p, ok := s.spec.Preds[x.S]; ok {
		if len(p.Params) != len(k) {
			panic(serr("pred %s arity", p.Name))
		}
		n := *e
		n.vars = map[string]SVal{}
		for kk, v := range e.vars {
			if strings.HasSuffix(v.T.S, "|") && strings.Contains(v.T.S, "!b") {
				n.vars["\x00"+kk] = v
			}
		}
		n.fr = nil
		n.bound = e.bound + 1
		for i, pn := range p.Params {
			a := e.eval(k[i])
			if p.PTypes[i] != "" {
				t := s.parseType(p.PTypes[i])
				a, _ = e.adapt(a, SVal{s.zero(t), t})
				a.typ = t
			}
			n.vars[pn] = a
		}
		return n.eval(p.Body)
	}
	if u, ok := s.spec.UFuns[x.S]; ok {
		var as, ss []string
		for i, a := range k {
			v := e.eval(a)
			t := s.parseType(u.Args[i])
			v, _ = e.adapt(v, SVal{s.zero(t), t})
			as = append(as, v.T.S)
			ss = append(ss, s.sort(t))
		}
		rt := s.parseType(u.Ret)
		fn := s.declFun("u!"+u.Name, strings.Join(ss, " "), s.sort(rt))
		return SVal{T(s.sort(rt), "(%s %s)", fn, strings.Join(as, " ")), rt}
	}
	panic(serr("unknown function %q in contract", x.S))
}

// ---------- loop invariants ----------

func (f *Frame) invEnv(li *loopInfo, st *State) *specEnv {
	env := &specEnv{s: f.s, vars: map[string]SVal{}, cur: st, old: f.entry, fr: f, li: li}
	if f.spec != nil {
		for i, n := range f.spec.Params {
			if i < len(f.fn.Params) && n != "_" && n != "" {
				env.vars[n] = SVal{f.s.term(f.vals[f.fn.Params[i]]), f.fn.Params[i].Type()}
				if i == 0 && f.spec.Iface != nil {
					env.vars[n] = SVal{f.s.makeIface(f.fn.Params[i].Type(), env.vars[n].T), f.spec.Iface}
				}
			}
		}
	}
	return env
}

func (f *Frame) checkInvs(li *loopInfo, st *State, what string) {
	s := f.s
	if s.errProp && f.top {
		s.check(st, "invariant", fmt.Sprintf("loop%d/no-pending-error/%s", li.ord, what), s.posStr(li.header.Instrs[0].Pos()), Not(s.heapGet(st, "L!errflag", "Bool")))
	}
	if f.spec == nil {
		return
	}
	for _, c := range f.spec.Loops[li.ord] {
		g := s.evalBool(f.invEnv(li, st), c.Expr)
		s.check(st, "invariant", fmt.Sprintf("loop%d/%s/%s", li.ord, c.Label, what), s.posStr(token.Pos(loopPos(li))), g)
	}
}

func (f *Frame) assumeInvs(li *loopInfo, st *State) {
	s := f.s
	if s.errProp && f.top {
		s.assume(st, Not(s.heapGet(st, "L!errflag", "Bool")))
	}
	if f.spec == nil {
		return
	}
	for _, c := range f.spec.Loops[li.ord] {
		s.assume(st, s.evalBool(f.invEnv(li, st), c.Expr))
	}
}
