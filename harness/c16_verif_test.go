package zygo

import (
	"fmt"
	"strings"
	"testing"
)

// lgen writes programs around functions with lazy and strict parameters. Names
// are few, so that what an argument means depends on where it is evaluated.
type lgen struct {
	r     interface{ Intn(int) int }
	n     int
	lazy  []string // lazy parameters in scope of the text being written
	vars  []string
	funs  []lfun
	depth int
}

type lfun struct {
	name   string
	lazy   []bool
	rest   bool
	params []string
}

func (g *lgen) v() string { return g.vars[g.r.Intn(len(g.vars))] }

func (g *lgen) lz() string {
	if len(g.lazy) == 0 {
		return g.v()
	}
	return g.lazy[g.r.Intn(len(g.lazy))]
}

// arg is an expression as written at a call: its evaluation is seen
func (g *lgen) arg(d int) string {
	g.n++
	switch k := g.r.Intn(16); {
	case k < 4:
		return fmt.Sprintf("(note %d %s)", g.n, g.v())
	case k < 6:
		return fmt.Sprintf("(begin (note %d) (+ %s %s))", g.n, g.v(), g.v())
	case k == 6:
		return fmt.Sprintf("(begin (set %s (+ %s 1)) (note %d %s))", g.vars[0], g.vars[0], g.n, g.vars[0])
	case k == 7:
		return g.v()
	case k == 8 && len(g.lazy) > 0:
		return g.lz()
	case k == 9 && len(g.lazy) > 0:
		return fmt.Sprintf("(note %d (force %s))", g.n, g.lz())
	case k == 10 && d > 0:
		return g.call(d - 1)
	case k == 11:
		return fmt.Sprintf("(let [%s %d] (note %s))", g.v(), g.n, g.v())
	case k == 12:
		return fmt.Sprintf("(cond (> %s 3) (note %d) (note %s))", g.v(), g.n, g.v())
	case k == 13:
		return fmt.Sprintf("[(note %d) %s]", g.n, g.v())
	case k == 14 && g.r.Intn(4) == 0:
		return fmt.Sprintf("(undefinedthing %d)", g.n)
	case k == 15 && len(g.lazy) > 0:
		return fmt.Sprintf("((fn [] %s))", g.lz())
	}
	return fmt.Sprint(g.r.Intn(9))
}

// call writes a call of one of the functions by some route
func (g *lgen) call(d int) string {
	if len(g.funs) == 0 {
		return "5"
	}
	f := g.funs[g.r.Intn(len(g.funs))]
	n := len(f.params)
	if f.rest {
		n += g.r.Intn(3)
	}
	if g.r.Intn(25) == 0 {
		n += g.r.Intn(3) - 1
	}
	var a []string
	for i := 0; i < n; i++ {
		a = append(a, g.arg(d))
	}
	args := strings.Join(a, " ")
	v := g.v()
	switch g.r.Intn(16) {
	case 0, 1, 2:
		return fmt.Sprintf("(%s %s)", f.name, args)
	case 3:
		return fmt.Sprintf("(let [g %s] (g %s))", f.name, args)
	case 4:
		return fmt.Sprintf("(begin (def alias %s) (alias %s))", f.name, args)
	case 5:
		return fmt.Sprintf("((fn [k] (k %s)) %s)", args, f.name)
	case 6:
		return fmt.Sprintf("((cond (> %s 2) %s %s) %s)", v, f.name, f.name, args)
	case 7:
		return fmt.Sprintf("((pick %s) %s)", f.name, args)
	case 8:
		return fmt.Sprintf("(apply %s (list %s))", f.name, args)
	case 9:
		return fmt.Sprintf("(apply %s [%s])", f.name, args)
	case 10:
		return fmt.Sprintf("(callf %s (list %s))", f.name, args)
	case 11:
		if len(f.params) <= 1 {
			return fmt.Sprintf("(map %s (list %s %s))", f.name, g.arg(d), g.arg(d))
		}
		return fmt.Sprintf("((hget funs %s:) %s)", f.name, args)
	case 12:
		return fmt.Sprintf("((aget (list %s) 0) %s)", f.name, args)
	case 13:
		return fmt.Sprintf("((begin (note 77) %s) %s)", f.name, args)
	case 14:
		if len(f.params) <= 1 {
			return fmt.Sprintf("(map %s [%s])", f.name, g.arg(d))
		}
		return fmt.Sprintf("(eval (quote (%s %s)))", f.name, args)
	default:
		return fmt.Sprintf("((let [g %s] g) %s)", f.name, args)
	}
}

// op is a piece of the body of a function
func (g *lgen) op(d int) string {
	g.n++
	p := g.lz()
	switch g.r.Intn(22) {
	case 0, 1, 2:
		return fmt.Sprintf("(note (force %s))", p)
	case 3:
		return fmt.Sprintf("(list (force %s) (force %s) (force %s))", p, g.lz(), p)
	case 4:
		return fmt.Sprintf("(note (substitute %s))", p)
	case 5:
		return fmt.Sprintf("(note (list 1 %s))", p)
	case 6:
		return fmt.Sprintf("(note [%s %s])", p, g.v())
	case 7:
		return fmt.Sprintf("(let [%s %d %s 60] (force %s))", g.v(), g.n, g.v(), p)
	case 8:
		return fmt.Sprintf("(keep (fn [] (force %s)))", p)
	case 9:
		return fmt.Sprintf("(newScope (def %s 70) (force %s))", g.v(), p)
	case 10:
		return fmt.Sprintf("(for [(def i 0) (< i 3) (set i (+ i 1))] (force %s))", p)
	case 11:
		return fmt.Sprintf("(cond (force %s) (note %s) (note (force %s)))", p, g.v(), p)
	case 12:
		return fmt.Sprintf("(let [z %s] (note (force z)) (force z))", p)
	case 13:
		return fmt.Sprintf("(eval (quote (force %s)))", p)
	case 14:
		return fmt.Sprintf("(note %s)", g.v())
	case 15:
		return fmt.Sprintf("(+ %s 1)", p)
	case 16:
		return fmt.Sprintf("(and (force %s) %s)", p, g.v())
	case 17, 18:
		if d > 0 {
			return g.call(d - 1)
		}
		return p
	case 19:
		return fmt.Sprintf("((fn [q] (list q (force %s))) %s)", p, p)
	case 20:
		return fmt.Sprintf("(newScope (def %s 33) (set %s (+ %s 1)) (list (force %s)))", g.v(), g.v(), g.v(), p)
	default:
		return fmt.Sprintf("(note (hget (hash a: %s) a:))", p)
	}
}

func (g *lgen) program() []string {
	g.vars = []string{"a", "b", "c"}
	forms := []string{"(def a 1)", "(def b 2)", "(def c 3)", "(def kept (list 0))", "(defn keep [f] (set kept (cons f kept)) 0)", "(defn pick [f] (note 88) f)", "(defn str1 [x] x)"}
	nf := 1 + g.r.Intn(3)
	for i := 0; i < nf; i++ {
		f := lfun{name: fmt.Sprintf("f%d", i)}
		g.lazy = nil
		np := g.r.Intn(4)
		names := []string{"a", "b", "p", "q", "c"}
		o := g.r.Intn(5)
		ps := []string{}
		for j := 0; j < np; j++ {
			nm := names[(o+j)%5]
			lz := g.r.Intn(2) == 0
			if lz {
				nm = "#" + nm
				g.lazy = append(g.lazy, nm)
			} else if nm == "p" || nm == "q" {
				g.vars = append(g.vars, nm)
			}
			f.lazy = append(f.lazy, lz)
			ps = append(ps, nm)
		}
		f.params = ps
		head := strings.Join(ps, " ")
		var body []string
		if g.r.Intn(3) == 0 {
			f.rest = true
			head += " & more"
			body = append(body, "(note more)")
		}
		for j := 1 + g.r.Intn(3); j > 0; j-- {
			body = append(body, g.op(1+g.r.Intn(2)))
		}
		if len(g.funs) == 0 && strings.Contains(strings.Join(body, " "), "(f0") {
			body = []string{"5"}
		}
		g.vars = g.vars[:3]
		mk := "(defn %s [%s] %s)"
		if g.r.Intn(3) == 0 {
			mk = "(def %s (fn [%s] %s))"
		}
		forms = append(forms, fmt.Sprintf(mk, f.name, head, strings.Join(body, " ")))
		g.funs = append(g.funs, f)
	}
	g.lazy = nil
	h := "(def funs (hash"
	for _, f := range g.funs {
		h += " " + f.name + ": " + f.name
	}
	forms = append(forms, h+"))")
	for i := 0; i < 3; i++ {
		c := g.call(2)
		switch g.r.Intn(4) {
		case 0:
			c = fmt.Sprintf("((fn [a b] (let [c 40] (def r %s) (set a (+ a 1)) (list r a b c))) 10 20)", c)
		case 1:
			c = fmt.Sprintf("(let [a 11 c 12] %s)", c)
		case 2:
			// another lazy function around, whose parameters are part of the arguments
			g.lazy = []string{"#p"}
			c = fmt.Sprintf("((fn [#p b] %s) %s 21)", g.call(2), c)
			g.lazy = nil
		}
		forms = append(forms, c)
	}
	// closures kept by the functions, called after they have returned
	forms = append(forms, "(def a 100)", "(def i 0)", "(for [(def l kept) (> (len l) 1) (set l (rest l))] (note ((first l))))", "(for [(def l kept) (> (len l) 1) (set l (rest l))] (note ((first l))))", "(list a b c)")
	return forms
}

func TestVerifC16(t *testing.T) {
	v := vBegin(t, "C16", "programs around one to three functions with lazy, strict and variadic parameters over few names, called by name, alias, parameter, computed callee, hash or list element, eval, apply, map and from Go, with arguments whose evaluation is recorded, that read and change the caller's variables, pass lazy parameters on, and fail; bodies force any number of times, in other scopes, in loops and in closures called after the function has returned, recover the source, and hand lazy parameters to strict functions and builtins: value, error or not and ordered effects of every form against the reference evaluator. Non-trivial: distinct programs in which every form agreed and something was recorded.")
	defer v.finish()
	for _, src := range c16fixed {
		forms := strings.Split(src.src, "\n")
		v.at(src.src)
		env := newTwin().env
		got := ""
		for _, f := range forms {
			o := vEval(env, f)
			got = vGot(o)
			if o.Err == nil && o.Val != nil {
				got = o.Val.SexpString(nil)
			}
		}
		if got != src.want {
			v.fail("fixed:"+src.src, fmt.Sprintf("gives %s, want %s", got, src.want), src.src)
		} else {
			v.count(src.src)
		}
	}
	for v.more() {
		g := &lgen{r: v.rng}
		forms := g.program()
		v.at(strings.Join(forms, "\n"))
		m, ok := c02forms(forms)
		if !ok {
			v.tally("outside the reference")
			continue
		}
		if m != "" {
			small := c02shrink(forms, func(fs []string) bool { m, ok := c02forms(fs); return ok && m != "" })
			m, _ = c02forms(small)
			v.fail("lazy", m, strings.Join(small, "\n"))
			continue
		}
		v.count(strings.Join(forms, "\n"))
	}
}

var c16fixed = []struct{ src, want string }{
	{"(defn q [#x] (substitute #x))\n(q (+ 1 (undefinedthing 2)))", "(+ 1 (undefinedthing 2))"},
	{"(defn q [#x] (substitute #x))\n(q who)", "who"},
	{"(defn q [#x] 5)\n(q (undefinedthing))", "5"},
	{"(defn q [#x] (substitute #x))\n(q {a + b * 3})", "(infix [a + b * 3])"},
	{"(defn q [#x] (substitute #x))\n(q [1 (f 2)])", "[1 (f 2)]"},
	{"(defn q [#x #y] (list (substitute #y) (force #x)))\n(let [z 4] (q (+ z 1) (+ z 2)))", "((+ z 2) 5)"},
	{"(defn q [#x] (list (force #x) (substitute #x)))\n(q (+ 1 2))", "(3 (+ 1 2))"},
	{"(defmac m [x] ^(quote ~x))\n(defn q [#x] (force #x))\n(q (m (a b)))", "(a b)"},
}
