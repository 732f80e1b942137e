package zygo

import (
	"fmt"
	"strings"
	"testing"
)

// qgen writes templates together with what they must evaluate to.
type qgen struct {
	r     interface{ Intn(int) int }
	env   *Zlisp
	holes int
}

// a node of a template: its text, the template as data, and its expansion
// (several elements, or none, for a splice)
type qnode struct {
	text   string
	data   Sexp
	want   []Sexp
	dotted bool
}

var qLits = []string{"a", "b", "foo", "if", "cond", "+", "1", "-7", "2.5", `"str"`, `"unquote"`, "'c'", "true", "nil", "unquoted", "x", "l", "splice", "0x1f", "a.b", "()", "[]", "quote", "k:", "$d", "#h", "99ULL", "list", "hash"}
var qHoles = []string{"x", "s", "l", "e", "arr", "h", "nl", "sy", "fl", "(+ x 1)", "(list x s)", "(quote (a b))", "(quote c)", "nil", "5", "(cons 0 l)", "(map (fn [q] (* q q)) l)", "[x x]", "(let [x 9] x)", "^(in ~x)", "^(in ~@l)", "(begin)", "{arr[1]}", "{x + 2}", "(list)", "(for [(def i 0) (< i 2) (set i (+ i 1))] i)", "(mm x)", "(cond true x 0)", "(and x s)", "h.a"}
var qSplices = []string{"l", "e", "nl", "(list x s)", "(quote (a b))", "(quote ())", "nil", "(cons 0 l)", "(rest l)", "(map (fn [q] (* q q)) l)", "^(in ~x)", "^(~@l ~@l)", "(list l l)", "(let [l (list 3)] l)", "(list (quote unquote) x)", "(list)", "(list [1] (hash a: 1))"}

const qSetup = `(def x 5) (def s "st") (def l (list 1 2)) (def e (list)) (def arr [7 8]) (def h (hash a: 3)) (def nl (list (list 1) [2 (list 3)])) (def sy (quote foo)) (def fl 1.5) (defmac mm [z] ^(list ~z 1))`

func (g *qgen) eval(src string) Sexp {
	o := vEval(g.env, src)
	if o.Err != nil || o.Panic != "" {
		panic(fmt.Sprintf("not evaluable: %s: %s", src, o.show()))
	}
	return o.Val
}

func (g *qgen) sym(s string) Sexp { return g.env.MakeSymbol(s) }

func (g *qgen) node(d int, seq bool) qnode {
	k := g.r.Intn(12)
	if d <= 0 && k > 6 {
		k = g.r.Intn(7)
	}
	switch {
	case k < 3:
		t := qLits[g.r.Intn(len(qLits))]
		v := g.eval("(quote " + t + ")")
		return qnode{text: t, data: v, want: []Sexp{v}}
	case k < 5 || k == 5 && !seq:
		g.holes++
		t := qHoles[g.r.Intn(len(qHoles))]
		return qnode{text: "~" + t, data: MakeList([]Sexp{g.sym("unquote"), g.eval("(quote " + t + ")")}), want: []Sexp{g.eval(t)}}
	case k < 7 && seq:
		g.holes++
		t := qSplices[g.r.Intn(len(qSplices))]
		var w []Sexp
		v := g.eval(t)
		for p, ok := v.(*SexpPair); ok; p, ok = p.Tail.(*SexpPair) {
			w = append(w, p.Head)
		}
		return qnode{text: "~@" + t, data: MakeList([]Sexp{g.sym("unquote-splicing"), g.eval("(quote " + t + ")")}), want: w}
	case k < 7:
		return g.node(d, false)
	case k < 10:
		ts, ds, ws := g.seq(d)
		if g.r.Intn(8) == 0 && len(ws) > 0 && len(ts) > 0 {
			last := g.node(d-1, false)
			for strings.HasPrefix(last.text, "~") || strings.HasPrefix(last.text, "(") {
				last = g.node(0, false)
			}
			dd, ww := last.data, last.want[0]
			for i := len(ds) - 1; i >= 0; i-- {
				dd = Cons(ds[i], dd)
			}
			for i := len(ws) - 1; i >= 0; i-- {
				ww = Cons(ws[i], ww)
			}
			return qnode{text: "(" + strings.Join(ts, " ") + " \\ " + last.text + ")", data: dd, want: []Sexp{ww}}
		}
		return qnode{text: "(" + strings.Join(ts, " ") + ")", data: MakeList(ds), want: []Sexp{MakeList(ws)}}
	default:
		ts, ds, ws := g.seq(d)
		return qnode{text: "[" + strings.Join(ts, " ") + "]", data: &SexpArray{Val: ds, Env: g.env}, want: []Sexp{&SexpArray{Val: ws, Env: g.env}}}
	}
}

func (g *qgen) seq(d int) (ts []string, ds, ws []Sexp) {
	for i := g.r.Intn(5); i > 0; i-- {
		n := g.node(d-1, true)
		ts, ds, ws = append(ts, n.text), append(ds, n.data), append(ws, n.want...)
	}
	if len(ts) == 2 && (ts[0] == "unquote" || strings.HasPrefix(ts[0], "unquote-")) {
		ts, ds, ws = ts[:1], ds[:1], ws[:1]
	}
	if len(ds) == 2 {
		if s, ok := ds[0].(*SexpSymbol); ok && (s.name == "unquote" || s.name == "unquote-splicing") {
			return nil, nil, nil
		}
	}
	return
}

// hash is a template that is a hash (there is no text for those: a hash in
// source text is a call), possibly inside others
func (g *qgen) hash(d int) qnode {
	hd, _ := MakeHash(nil, "hash", g.env)
	hw, _ := MakeHash(nil, "hash", g.env)
	for i := g.r.Intn(5); i >= 0; i-- {
		k := g.sym([]string{"a", "b", "c", "d"}[g.r.Intn(4)])
		v := g.node(d-1, false)
		if d > 1 && g.r.Intn(4) == 0 {
			v = g.hash(d - 1)
		}
		hd.HashSet(k, v.data)
		hw.HashSet(k, v.want[0])
		if g.r.Intn(8) == 0 {
			k := g.sym([]string{"a", "b", "c", "d"}[g.r.Intn(4)])
			hd.HashDelete(k)
			hw.HashDelete(k)
		}
	}
	switch g.r.Intn(3) {
	case 0:
		return qnode{data: &SexpArray{Val: []Sexp{g.sym("a"), hd}}, want: []Sexp{&SexpArray{Val: []Sexp{g.sym("a"), hw}}}}
	case 1:
		return qnode{data: MakeList([]Sexp{hd, g.sym("a")}), want: []Sexp{MakeList([]Sexp{hw, g.sym("a")})}}
	}
	return qnode{data: hd, want: []Sexp{hw}}
}

// qParts collects the arrays, hashes and list cells of x that a template is
// responsible for: not what unquoted expressions, or skip, contain.
func qParts(x Sexp, skip, out map[Sexp]bool) {
	switch t := x.(type) {
	case *SexpPair:
		if skip[t] || out[t] {
			return
		}
		if s, ok := t.Head.(*SexpSymbol); ok && strings.HasPrefix(s.name, "unquote") {
			return
		}
		out[t] = true
		qParts(t.Head, skip, out)
		qParts(t.Tail, skip, out)
	case *SexpArray:
		if skip[t] || out[t] {
			return
		}
		out[t] = true
		for _, e := range t.Val {
			qParts(e, skip, out)
		}
	case *SexpHash:
		if skip[t] || out[t] {
			return
		}
		out[t] = true
		for _, k := range t.KeyOrder {
			if e, err := t.HashGet(nil, k); err == nil {
				qParts(e, skip, out)
			}
		}
	}
}

// qShared: a template makes its arrays, hashes and lists each time it is
// evaluated; none is part of the template or of an earlier value of it.
func qShared(env *Zlisp, v *vRun, n qnode, data bool) string {
	if data && strings.Contains(n.data.SexpString(nil), "(quote") {
		return ""
	}
	if strings.Contains(n.text, "quote") || strings.Contains(n.text, "^") {
		return "" // parts of constants in holes
	}
	skip := map[Sexp]bool{}
	for _, b := range env.linearstack.elements {
		for _, x := range b.(*Scope).Map {
			if x == n.data {
				continue // the template itself
			}
			qParts(x, map[Sexp]bool{}, skip)
		}
	}
	first, second := map[Sexp]bool{}, map[Sexp]bool{}
	if data {
		qParts(n.data, skip, first)
		o := vEval(env, "(eval (list (quote syntaxQuote) tmpl))")
		qParts(o.Val, skip, second)
	} else {
		o := vEval(env, "((fn [tfun] [(tfun) (tfun)]) (fn [] ^"+n.text+"))")
		a, ok := o.Val.(*SexpArray)
		if o.Err != nil || !ok || len(a.Val) != 2 {
			return "twice gives " + o.show()
		}
		qParts(a.Val[0], skip, first)
		qParts(a.Val[1], skip, second)
	}
	for x := range second {
		if first[x] {
			return "the value shares " + x.SexpString(nil) + " with the template or an earlier value of it"
		}
	}
	v.tally("parts compared")
	return ""
}

// contexts in which a template is evaluated; all see the variables of qSetup
var qCtx = []string{"^%s", "(syntaxQuote %s)", "((fn [] ^%s))", "(let [zz 1] ^%s)", "(begin 3 ^%s)", "(cond false 1 ^%s)", "(first (list ^%s))", "(eval (quote ^%s))", "((fn [x s l e arr h nl sy fl] ^%s) x s l e arr h nl sy fl)",
	"(let [qq nil] (for [(def i 0) (< i 2) (set i (+ i 1))] (set qq (list ^%s))) (first qq))", "(apply (fn [zz] ^%s) [1])", "(first (map (fn [zz] ^%s) (list 1)))", "((fn [#zz] (force #zz)) ^%s)", "(begin (defmac tmac [] (list (quote quote) ^%s)) (tmac))", "(and 1 ^%s)", "(hget (hash k: ^%s) k:)"}

// ---- macros against the form written by hand ----

// mtemplates are bodies of macros with parameters a and b and further ones in r
var mtemplates = []string{
	"(begin ~a ~b)", "(list ~a ~b ~@r)", "(let [x ~a] (list x ~b ~@r))", "(cond ~a ~b (list ~@r))", "(and ~a ~b ~@r)", "(or ~a ~b ~@r)", "[~a ~@r ~b]", "(hash k: ~a j: ~b)",
	"(for [(def i 0) (< i 2) (set i (+ i 1))] ~a ~b ~@r)", "(def y ~a)", "(begin (def z ~a) (list z ~b))", "(set x ~a)", "(fn [x] ~a ~b)", "((fn [x] ~a ~@r ~b) ~b)", "(newScope (def x ~a) ~b ~@r)", "(letseq [x ~a y ~b] (list x y ~@r))",
	"(+ ~a ~b)", "(note ~a ~b ~@r)", "(defn g [x] (list ~a ~b))", "(begin (defn f [y] ~a) (f ~b))", "(mm2 ~a ~b)", "(mm2 (mm2 ~b ~a) ~a)", "(quote (~a ~b ~@r))", "^(~a)", "(eval (quote ~a))", "(map (fn [x] ~a) [1 2])",
	"(cond (== x 1) ~a (break))", "(begin (cond (> x 0) (continue) 0) ~a)", "(return ~a)", "~a", "(begin ~@r)", "(infix [x = ~a])", "(infix [~a + ~b])", "(mdef x y (list ~a ~b))", "(lzy ~a)", "(len (list ~@r ~@r))", "(assert ~a)", "(list (quote ~a) ~a)",
	"(begin ~a ~a)", "(begin (note ~a) (note ~a) ~b)", "(let [~b 3] 5)", "(~a ~b)", "(not ~a)", "(apply ~a [~b])", "(undefinedthing ~a)", "(begin (set x 50) ~a)", "(list (mm2 ~@r) 1)",
}

// other ways to write the body, for a macro whose parameters are a, b and r
var mbodies = []struct{ body, hand string }{
	{"(list (quote +) a b)", "(+ ~a ~b)"},
	{"(cons (quote list) (cons a r))", "(list ~a ~@r)"},
	{"(cond (== (len r) 0) ^(list ~a) ^(list ~b ~@r))", ""},
	{"(let [q ^(note ~a)] ^(begin ~q ~q))", "(begin (note ~a) (note ~a))"},
	{"(begin (def acc (list)) (for [(def i 0) (< i 3) (set i (+ i 1))] (set acc (cons a acc))) (cons (quote list) acc))", "(list ~a ~a ~a)"},
	{"(cons (quote begin) (map (fn [q] ^(note ~q)) r))", ""},
	{"(helper a b)", "(list ~b ~a)"},
	{"((fn [x y] ^(list ~y ~x)) a b)", "(list ~b ~a)"},
	{"(def x 77) ^(list x ~a)", "(list x ~a)"},
	{"(begin (let [x a y b] ^(list ~y x)))", "(list ~b x)"},
	{"(note 1) ^(list ~a)", ""},
	{"(apply (fn [p q] ^(begin ~p ~q)) (list a b))", "(begin ~a ~b)"},
	{"(eval (quote (list 1 2))) ^(list ~a)", "(list ~a)"},
	{"5", "5"}, {"nil", "nil"}, {"x", ""}, {"(quote x)", "x"}, {"\"lit\"", "\"lit\""},
	{"(begin (cond true (begin (let [a1 a] (for [(def i 0) (< i 5) (set i (+ i 1))] (cond (== i 2) (break) (list i))))) 0) ^(list ~b))", "(list ~b)"},
	{"(return ^(list ~a 4))", "(list ~a 4)"},
}

func mhand(t string, a, b string, r []string) string {
	t = strings.ReplaceAll(t, "~@r", strings.Join(r, " "))
	t = strings.ReplaceAll(t, "~a", a)
	return strings.ReplaceAll(t, "~b", b)
}

var mctx = []string{"%s", "(list 1 %s)", "(begin %s x)", "((fn [x y] (begin %s (list x y))) 1 2)", "((fn [x y] %s) 1 2)", "(let [x 1 y 2] %s)", "(let [x 1 y 2] (set y 3) %s (list x y))", "(newScope (def x 4) %s)", "(for [(def i 0) (< i 3) (set i (+ i 1))] (let [x i] %s))",
	"(begin (def acc 0) (for [(def i 0) (< i 3) (set i (+ i 1))] (let [x i y 1] (set acc %s))) acc)", "(cond %s 1 2)", "(cond true %s 2)", "(and 1 %s)", "(let [x 1 y %s] (list x y))", "(fn [] %s)", "((fn [] %s))", "(begin (defn k [x] %s) (k 1))",
	"(begin (defn k [x y] (cond (> x 0) (k (- x 1) y) %s)) (k 3 4))", "(eval (quote %s))", "(map (fn [x] %s) [1 2])", "(apply (fn [x y] %s) [1 2])", "[%s 1]", "(hash k: %s)", "(lzy %s)", "{ %s }", "{ 1 + %s }", "{ x = %s ; x }", "(return %s)", "(def x %s)", "(set y %s)", "(note %s)", "(mm2 %s 1)",
	"(for [(def i %s) false 0] 1)", "(begin (defmac loc [] %s) 3)", "(assert %s)", "(def zz (fn [x] (let [y 1] %s)))", "(begin (def zz (fn [x y] %s)) (list (zz 1 2) (zz 3 4)))"}

var margs = []string{"x", "y", "1", "0", "2.5", `"s"`, "(note x)", "(note 3)", "(+ x 1)", "(list x y)", "[x 1]", "(quote q)", "(set x (+ x 1))", "(begin (note 8) 2)", "(fn [z] (+ z x))", "(let [x 9] x)", "nil", "true", "false", "(undefinedthing)", "(cond x 1 2)", "(mm2 x y)", "(hash a: x)", "{x + 1}", "(list)", "sym", "(for [(def i 0) (< i 1) (set i (+ i 1))] (note i))", "'c'", "+", "idf", "(idf x)", "(def w x)", "^(q ~x)"}

const mSetup = `(def x 10) (def y 20) (def sym 30) (defn idf [q] q) (defmac mm2 [p q] ^(list ~p ~q)) (defn lzy [#p] (force #p)) (defn helper [p q] (list (quote list) q p))`

// vExpandState describes the state of the interpreter that an expansion has no
// business with
func vExpandState(env *Zlisp) string {
	return fmt.Sprintf("data %d scopes %d (%p) calls %d loops %d pc %d nesting %d function %p", env.datastack.Size(), env.linearstack.Size(), env.linearstack, env.addrstack.Size(), env.loopstack.Size(), env.pc, env.nesting, env.curfunc)
}

func mrun(src []string) (outs []string, ok bool) {
	env := vNewEnv()
	env.AddFunction("note", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		s := "effect"
		for _, a := range args {
			s += " " + vCanon(a)
		}
		outs = append(outs, s)
		if len(args) == 0 {
			return SexpNull, nil
		}
		return args[len(args)-1], nil
	})
	ok = true
	for i, s := range src {
		o := vGuard(50000, func() (Sexp, error) { return env.EvalString(s) })
		if o.Over || o.Panic != "" {
			return nil, false
		}
		if i > 1 { // not the definition of the macro
			outs = append(outs, strings.SplitN(vGot(o), "\n", 2)[0])
		} else {
			outs = outs[:0]
			if o.Err != nil {
				return nil, false
			}
		}
		if i > 1 {
			outs = append(outs, vRest(env))
		}
	}
	return outs, true
}

func TestVerifC15(t *testing.T) {
	v := vBegin(t, "C15", "(1) random templates of literals, unquoted expressions and splices nested in lists, dotted lists, arrays and hashes (as data), evaluated in 16 kinds of context, against substitution done on the template as data; (2) macros with about 60 bodies, called with random argument texts in 37 kinds of context, against the same program with the form written by hand: value, error or not, ordered effects, later values of the variables, and the interpreter at rest; (3) the stacks, program counter, nesting and running function are the same before and after an expansion made while code runs. Non-trivial: distinct templates with holes, and macro programs that agree.")
	defer v.finish()
	for i := 0; v.more(); i++ {
		env := vNewEnv()
		if o := vEval(env, qSetup); o.Err != nil {
			v.fail("setup", o.show(), qSetup)
			return
		}
		// (1)
		for k := 0; k < 40; k++ {
			g := &qgen{r: v.rng, env: env}
			n := g.node(1+v.rng.Intn(4), false)
			hash := v.rng.Intn(4) == 0
			if hash {
				n = g.hash(3)
			}
			if len(n.want) != 1 {
				continue
			}
			want := vCanon(n.want[0])
			var src string
			if hash || v.rng.Intn(5) == 0 {
				env.AddGlobal("tmpl", n.data)
				src = "(eval (list (quote syntaxQuote) tmpl))"
			} else {
				src = fmt.Sprintf(qCtx[v.rng.Intn(len(qCtx))], n.text)
			}
			desc := src
			if strings.Contains(src, "tmpl") {
				desc = "template " + n.data.SexpString(nil)
			}
			v.at(desc)
			o := vEval(env, src)
			if o.Err != nil || o.Panic != "" || vCanon(o.Val) != want {
				v.fail("template", fmt.Sprintf("gives %s, want %s", vGot(o), want), qSetup+"\n"+desc)
				env.Clear()
				break
			}
			if w := qShared(env, v, n, hash); w != "" {
				v.fail("template", w, qSetup+"\n"+desc)
				break
			}
			if g.holes > 0 || hash {
				v.count(desc)
			}
		}
		// (2)
		for k := 0; k < 12; k++ {
			a, b := margs[v.rng.Intn(len(margs))], margs[v.rng.Intn(len(margs))]
			var r []string
			for j := v.rng.Intn(3); j > 0; j-- {
				r = append(r, margs[v.rng.Intn(len(margs))])
			}
			t := mtemplates[v.rng.Intn(len(mtemplates))]
			body, hand := "^"+t, t
			if v.rng.Intn(3) == 0 {
				m := mbodies[v.rng.Intn(len(mbodies))]
				if m.hand == "" {
					continue
				}
				body, hand = m.body, m.hand
			}
			def := fmt.Sprintf("(defmac mac [a b & r] %s)", body)
			call := "(mac " + a + " " + b + " " + strings.Join(r, " ") + ")"
			h := mhand(hand, a, b, r)
			c := mctx[v.rng.Intn(len(mctx))]
			if v.rng.Intn(5) == 0 {
				c = fmt.Sprintf(c, strings.Replace(mctx[v.rng.Intn(len(mctx))], "%", "%", 1))
			}
			if strings.Count(c, "%s") != 1 {
				continue
			}
			// what the macro sees of an infix block is the block
			prog := func(f string) []string {
				return []string{mSetup, def, fmt.Sprintf(c, f), "(list x y sym)", "(begin)"}
			}
			p1, p2 := prog(call), prog(h)
			v.at(strings.Join(p1, "\n"))
			o1, ok1 := mrun(p1)
			o2, ok2 := mrun(p2)
			if !ok1 || !ok2 {
				v.tally("not compared")
				continue
			}
			if strings.Join(o1, "\n") != strings.Join(o2, "\n") {
				v.fail("macro:"+body, fmt.Sprintf("with the macro %v, by hand %v", o1, o2), strings.Join(p1, "\n")+"\n// by hand: "+p2[2])
				continue
			}
			v.count(strings.Join(p1, "\n"))
		}
		// (3)
		if i%4 == 0 {
			env := vNewEnv()
			vEval(env, mSetup)
			bad := ""
			env.AddFunction("expand", func(e *Zlisp, name string, args []Sexp) (Sexp, error) {
				before := vExpandState(e)
				gen := NewGenerator(e)
				err := gen.Generate(args[0])
				if after := vExpandState(e); after != before {
					bad = fmt.Sprintf("before %s, after %s (error %v)", before, after, err)
				}
				return SexpNull, nil
			})
			t := mtemplates[v.rng.Intn(len(mtemplates))]
			body := "^" + t
			if v.rng.Intn(2) == 0 {
				body = mbodies[v.rng.Intn(len(mbodies))].body
			}
			bodies := []string{body, "(let [q 1] (for [(def i 0) (< i 2) (set i (+ i 1))] (let [z i] (undefinedthing))))", "((fn [q] (let [w q] (undefinedthing q))) 1)", "(map (fn [q] (undefinedthing)) [1])"}
			body = bodies[max(0, v.rng.Intn(7)-3)]
			vEval(env, fmt.Sprintf("(defmac mac [a b & r] %s)", body))
			a, b := margs[v.rng.Intn(len(margs))], margs[v.rng.Intn(len(margs))]
			form := []string{"(mac %s %s)", "(macexpand (mac %s %s))", "(list (mac %s %s))", "(for [(def i 0) (< i 2) (set i (+ i 1))] (mac %s %s))", "(let [u 1] (mac %s %s))", "(fn [u] (mac %s %s))"}[v.rng.Intn(6)]
			src := fmt.Sprintf("((fn [x y] (let [z 1] (for [(def i 0) (< i 2) (set i (+ i 1))] (list 1 2 (expand (quote "+form+")))))) 3 4)", a, b)
			v.at(body + "\n" + src)
			vEval(env, src)
			if bad != "" {
				v.fail("expansion state", bad, fmt.Sprintf("(defmac mac [a b & r] %s)\n%s", body, src))
			} else {
				v.tally("state compared")
			}
		}
	}
}
