package zygo

import (
	"fmt"
	"strings"
	"testing"
)

// high-water marks of the stacks over a run
type vHigh struct{ data, scope, addr, loop, nest int }

func vHighOf(src string, env *Zlisp) (h vHigh, o vOut) {
	up := func(p *int, n int) {
		if n > *p {
			*p = n
		}
	}
	prev := VerifStepHook
	VerifStepHook = func(e *Zlisp) error {
		if e == env {
			up(&h.data, e.datastack.Size())
			up(&h.scope, e.linearstack.Size())
			up(&h.addr, e.addrstack.Size())
			up(&h.loop, e.loopstack.Size())
			up(&h.nest, e.nesting)
		}
		if prev != nil {
			return prev(e)
		}
		return nil
	}
	defer func() { VerifStepHook = prev }()
	o = vGuard(20000000, func() (Sexp, error) { return env.EvalString(src) })
	return
}

func vGrew(a, b vHigh) bool {
	g := func(x, y int) bool { return y > x+20 }
	return g(a.data, b.data) || g(a.scope, b.scope) || g(a.addr, b.addr) || g(a.loop, b.loop) || g(a.nest, b.nest)
}

// tgen builds functions named rec of a counter n that call themselves in tail position.
type tgen struct {
	*sgen
	self  string // how the function refers to itself
	extra string // further arguments of the self call
}

// the tail call, wrapped d times in contexts that keep it in tail position
func (g *tgen) tail(d int) string {
	if d == 0 {
		return fmt.Sprintf("(%s (- n 1)%s)", g.self, g.extra)
	}
	in := g.tail(d - 1)
	e := func() string { return g.e(1) }
	switch g.r.Intn(14) {
	case 0:
		return fmt.Sprintf("(cond (== n -1) %s %s)", e(), in)
	case 1:
		return fmt.Sprintf("(cond false %s true %s %s)", e(), in, e())
	case 2:
		return fmt.Sprintf("(begin %s %s)", e(), in)
	case 3:
		return fmt.Sprintf("(let [%s %s] %s)", g.iv(), e(), in)
	case 4:
		return fmt.Sprintf("(letseq [%s %s %s %s] %s %s)", g.iv(), e(), g.iv(), e(), e(), in)
	case 5:
		return fmt.Sprintf("(newScope (def %s %s) %s)", g.iv(), e(), in)
	case 6:
		return fmt.Sprintf("(and true %s %s)", g.lit(), in)
	case 7:
		return fmt.Sprintf("(or false (< n -1) %s)", in)
	case 8:
		return fmt.Sprintf("(begin (def %s %s) %s)", g.iv(), e(), in)
	case 9:
		return fmt.Sprintf("(begin (for [(def i 0) (< i 2) (set i (+ i 1))] (cond (== i 1) (break) %s)) %s)", e(), in)
	case 10:
		return fmt.Sprintf("(let [%s (fn [%s] %s)] %s)", g.fv(), g.iv(), e(), in)
	case 11:
		return fmt.Sprintf("(begin (defn %s [%s] %s) %s)", g.fv(), g.iv(), e(), in)
	case 12:
		return fmt.Sprintf("(begin (for [(def i 0) (< i 2) (set i (+ i 1))] (let [%s i] (continue))) %s)", g.iv(), in)
	default:
		return fmt.Sprintf("(begin (note n) %s)", in)
	}
}

// vUntail runs f with every tail call about to be made replaced by an ordinary call.
func vUntail(f func() vOut) vOut {
	prev := VerifStepHook
	VerifStepHook = func(env *Zlisp) error {
		if env.curfunc != nil && !env.curfunc.user && env.pc >= 0 && env.pc < len(env.curfunc.fun) {
			if c, ok := env.curfunc.fun[env.pc].(TailCallInstr); ok {
				env.curfunc.fun[env.pc] = CallExprInstr{callee: c.callee, args: c.args}
				vUntailed++
			}
		}
		if prev != nil {
			return prev(env)
		}
		return nil
	}
	defer func() { VerifStepHook = prev }()
	return f()
}

var vUntailed int

// contexts of a call of the function by itself, with and without something left to do
var c09ctx = []string{
	"(+ 1 %s)", "(list %s x)", "(begin %s 5)", "(def w %s)", "(begin (set w %s) w)", "(not %s)", "(assert %s)",
	"(and %s 5)", "(or %s 5)", "(and true %s)", "(or false %s)", "(or nil (and 1 %s))", "(cond %s 1 2)", "(cond (> n 2) %s 0)", "(cond (> n 2) 0 %s)",
	"(let [w %s] w)", "(let [w 1] %s w)", "(let [w 1] %s)", "(letseq [w %s u w] u)", "(letseq [u 1 w u] %s)", "(newScope %s)", "(newScope %s 4)",
	"(return %s)", "(begin (return %s) 6)", "(let [w 2] (return %s))", "(cond (> n 1) (return %s) 3)",
	"(for [(def i 0) (< i 1) (set i (+ i 1))] %s)", "(for [(def i 0) (and (< i 1) %s) (set i (+ i 1))] 1)", "(for [(def i %s) false 0] 1)",
	"(eval (quote %s))", "(map (fn [u] %s) [1])", "(apply (fn [u] %s) [1])", "((fn [] %s))", "(lzy %s)", "(mmid %s)", "(mmtwo 1 (%s 3))",
	"[1 %s]", "(hash a: %s)", "{ %s }", "{ 1 + %s }", "{ w = %s }", "{ w := %s ; w }", "{ %s ; 4 }", "{ if n > 2 { %s } else { 7 } }", "{ [1 2][%s] }",
	"(set lastone %s)", "(mdef w u (list %s 1))", "^(a ~%s)", "^(a ~@(list %s))", "(note %s)", "(kept (fn [] %s))", "(kept (fn [] (list n acc)))",
	"(begin (kept (fn [] (set acc (+ acc 1)) acc)) %s)", "(begin (note n acc) %s)", "(let [acc (+ acc 100)] (kept (fn [] acc)) %s)", "(newScope (def n n) (kept (fn [] n)) %s)",
	"(cond (== n 2) (undefinedthing) %s)", "(begin (def rec2 rec) (rec2 (- n 1) acc))", "(let [g rec] (g (- n 1) acc))", "(begin (defn rec [n acc] (list 77 n acc)) %s)", "(let [rec (fn [n acc] (list 88 n))] %s)",
	"(begin (cond (== n 3) (set rec (fn [n acc] (list 99 n))) 0) %s)", "(begin (def acc %s) acc)", "(- %s 1)", "(str %s)", "(expectError \"x\" %s)", "(deref (& %s))",
}

// c09any is a program with self calls anywhere, in any kind of form
func (g *tgen) any(d int) string {
	if d == 0 {
		return []string{"(rec (- n 1) (+ acc n))", "(rec (- n 1) acc)", "(rec (- n 2) (note acc))", "(rec (- n 1) (rec 0 acc))", "((list rec) (- n 1) acc)", "(rec)", "(rec (- n 1) (fn [] acc))", "(apply rec (list (- n 1) acc))", "(rec (- n 1) n)"}[g.r.Intn(9)]
	}
	c := c09ctx[g.r.Intn(len(c09ctx))]
	if !strings.Contains(c, "%s") {
		return c
	}
	return fmt.Sprintf(c, g.any(d-1))
}

func vTailCompare(src []string) (msg string, ok bool) {
	run := func(un bool) (outs []string) {
		var log []string
		env := vNewEnv()
		env.AddFunction("note", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
			for _, a := range args {
				log = append(log, vCanon(a))
			}
			if len(args) == 0 {
				return SexpNull, nil
			}
			return args[len(args)-1], nil
		})
		var kept []*SexpFunction
		env.AddFunction("kept", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
			if f, ok := args[0].(*SexpFunction); ok {
				kept = append(kept, f)
			}
			return SexpNull, nil
		})
		for _, s := range append([]string{"(def lastone 0) (def w 0) (def x 5)", "(defmac mmid [a] ^(begin ~a))", "(defmac mmtwo [a b] ^(list ~a ~@b))", "(defn lzy [#a] (force #a))"}, src...) {
			f := func() vOut { return vGuard(15000, func() (Sexp, error) { return env.EvalString(s) }) }
			o := vOut{}
			if un {
				o = vUntail(f)
			} else {
				o = f()
			}
			outs = append(outs, vGot(o))
			if o.Over || o.Panic != "" {
				ok = false
				return
			}
		}
		for i := 0; i < len(kept) && i < 20; i++ {
			o := vGuard(20000, func() (Sexp, error) { return env.Apply(kept[i], nil) })
			outs = append(outs, "kept "+vGot(o))
		}
		return append(outs, log...)
	}
	ok = true
	a := run(false)
	b := run(true)
	if !ok {
		return "", false
	}
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("with tail calls %q happens, without it does not", a[i]), true
		}
		if a[i] != b[i] {
			return fmt.Sprintf("with tail calls %s, without %s", a[i], b[i]), true
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("without tail calls %q happens, with them it does not", b[len(a)]), true
	}
	return "", true
}

func TestVerifC09(t *testing.T) {
	v := vBegin(t, "C09", "functions that call themselves in tail position through up to 6 nested tail contexts (cond arms, begin, let, letseq, newScope, and, or, around loops, local definitions and closures), defined by defn, def of fn, func, with strict, lazy and variadic parameters, at top level and inside functions: (1) the highest sizes of the operand, scope, call and loop stacks and the nesting of evaluations over a run must not depend on the depth (20 against 200; some against 20000); (2) value, error or not and ordered effects against the direct reference evaluator, which has no tail calls, for depths 0 to 6, with closures made in every iteration called afterwards. Non-trivial: distinct functions.")
	defer v.finish()
	defs := []struct{ name, def, call, self, extra string }{
		{"defn", "(defn rec [n] (cond (< n 1) %s %s))", "(rec %d)", "rec", ""},
		{"def", "(def rec (fn [n] (cond (< n 1) %s %s)))", "(rec %d)", "rec", ""},
		{"acc", "(defn rec [n acc] (cond (< n 1) (begin %s acc) %s))", "(rec %d 0)", "rec", " (+ acc n)"},
		{"rest", "(defn rec [n & more] (cond (< n 1) (begin %s (note more)) %s))", "(rec %d 1 2)", "rec", " n 7"},
		{"rest0", "(defn rec [n & more] (cond (< n 1) (begin %s (note more)) %s))", "(rec %d)", "rec", ""},
		{"lazy", "(defn rec [n #lz] (cond (< n 1) (begin %s 5) %s))", "(rec %d (note 9))", "rec", " (note n)"},
		{"inner", "(defn outer [x n] (defn rec [n] (cond (< n 1) %s %s)) (rec n))", "(outer 4 %d)", "rec", ""},
		{"shadow", "(defn rec [n] (def z n) (def n n) (cond (< n 1) %s %s))", "(rec %d)", "rec", ""},
	}
	prelude := strings.Join(scopePrelude, "\n")
	for i := 0; v.more(); i++ {
		for k := 0; i%3 == 2 && k < 12; k++ {
			g := &tgen{sgen: &sgen{r: v.rng, budget: 30}}
			def := []string{"(defn rec [n acc] (cond (< n 1) acc %s))", "(def rec (fn [n acc] (cond (< n 1) acc %s)))", "(defn rec [n & r] (let [acc (len r)] (cond (< n 1) acc %s)))", "(defn rec [n #acc] (cond (< n 1) (force #acc) (let [acc 3] %s)))", "(defn rec [n acc] %s)"}[v.rng.Intn(5)]
			src := []string{fmt.Sprintf(def, g.any(1+v.rng.Intn(3))), fmt.Sprintf("(rec %d 10)", v.rng.Intn(5)), "(list w lastone)", "(rec 2 1)"}
			v.at(strings.Join(src, "\n"))
			before := vUntailed
			m, ok := vTailCompare(src)
			if ok && m != "" {
				v.fail("untail", m, strings.Join(src, "\n"))
			} else if ok && vUntailed > before {
				v.count(src[0])
				v.tally("same with tail calls disabled")
			} else {
				v.tally("no tail call made")
			}
		}
		if i%3 == 2 {
			continue
		}
		d := defs[i/3*2%len(defs)]
		if i%3 == 1 {
			d = defs[(i/3*2+1)%len(defs)]
		}
		g := &tgen{sgen: &sgen{r: v.rng, budget: 30}, self: d.self, extra: d.extra}
		body := g.tail(v.rng.Intn(7))
		g.budget = 20
		src := fmt.Sprintf(d.def, g.e(1), body)
		v.at(src)
		// (2) the same as without the optimisation
		depth := v.rng.Intn(7)
		forms := append(append([]string{}, scopePrelude...), src, fmt.Sprintf(d.call, depth), "(note (list x y z))", "(list "+strings.Repeat("(len kept) ", 2)+")", "((old 0) 1)", "((old 2) 3)")
		m, ok := c02forms(forms)
		if ok && m != "" {
			small := c02shrink(forms, func(fs []string) bool { m, ok := c02forms(fs); return ok && m != "" })
			m2, _ := c02forms(small)
			v.fail("transparent:"+d.name, m2, strings.Join(small, "\n"))
			continue
		}
		if ok {
			v.count(src)
		}
		// (1) space
		at := func(depth int) (vHigh, vOut, bool) {
			env := newTwin().env
			if o := vEval(env, prelude+"\n"+src); o.kind() != "VALUE" {
				return vHigh{}, o, false
			}
			h, o := vHighOf(fmt.Sprintf(d.call, depth), env)
			return h, o, true
		}
		h1, o1, ok1 := at(20)
		if !ok1 {
			v.tally("setup fails")
			continue
		}
		if o1.kind() != "VALUE" {
			v.tally("at depth 20: " + o1.kind())
			continue
		}
		big := 200
		if i%60 < 12 {
			big = 3000
		}
		h2, o2, _ := at(big)
		if o2.kind() != "VALUE" {
			v.tally(fmt.Sprintf("value at depth 20, at greater depth: %s", o2.show()))
			continue
		}
		v.tally("space compared")
		if vGrew(h1, h2) {
			// programs may grow for reasons of their own (a chain of closures
			// called one by the other): the body without the call tells
			v.fail("space:"+d.name, fmt.Sprintf("highest sizes {data scope addr loop nesting} %v at depth 20, %v at depth %d", h1, h2, big), src)
		}
	}
}
