package zygo

// Random programs of the core language, as text. Names carry their type in
// the first letter, so that most programs run; the same few names are reused
// at every level, so that shadowing, capture and assignment interact.

import (
	"fmt"
	"math/rand"
	"strings"
)

type gOpt struct {
	closures, loops, errs, tails, data, lazy, scopes int // weights 0..10
}

type pgen struct {
	r      *rand.Rand
	o      gOpt
	vars   []map[string]bool // visible names per open scope
	fnbase int
	labels []string // loop labels in reach ("" for an unlabelled loop)
	fns    map[string]int
	k      int
	budget int
	infn   int
	noloop int
}

func newPgen(r *rand.Rand, o gOpt) *pgen {
	return &pgen{r: r, o: o, vars: []map[string]bool{{}}, fns: map[string]int{}}
}

func (g *pgen) push() { g.vars = append(g.vars, map[string]bool{}) }
func (g *pgen) pop()  { g.vars = g.vars[:len(g.vars)-1] }
func (g *pgen) bind(n string) {
	g.vars[len(g.vars)-1][n] = true
}
func (g *pgen) have(typ byte) (out []string) {
	seen := map[string]bool{}
	for _, m := range g.vars {
		for _, n := range vSortedKeys(m) {
			if n[0] == typ && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return
}
func (g *pgen) name(typ byte) string { return fmt.Sprintf("%c%d", typ, g.r.Intn(4)) }
func (g *pgen) one(typ byte) string {
	h := g.have(typ)
	if len(h) == 0 || g.r.Intn(60) < g.o.errs {
		return g.name(typ)
	}
	return h[g.r.Intn(len(h))]
}
func (g *pgen) lit() string { return fmt.Sprint(g.r.Intn(7) - 1) }
func (g *pgen) uniq() string {
	g.k++
	return fmt.Sprint(1000 + g.k)
}

func (g *pgen) sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// weighted choice
func (g *pgen) choose(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := g.r.Intn(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

func (g *pgen) cond(d int) string {
	if d <= 0 {
		return vPick(g.r, []string{"true", "false", "(< " + g.one('i') + " 3)"})
	}
	switch g.r.Intn(9) {
	case 0, 1, 2, 3:
		return g.sprintf("(%s %s %s)", vPick(g.r, []string{"<", ">", "==", "!=", "<=", ">="}), g.int(d-1), g.int(d-1))
	case 4:
		return g.sprintf("(not %s)", g.cond(d-1))
	case 5:
		return g.sprintf("(and %s %s)", g.cond(d-1), g.cond(d-1))
	case 6:
		return g.sprintf("(or %s %s)", g.cond(d-1), g.cond(d-1))
	case 7:
		return g.int(d - 1)
	}
	return vPick(g.r, []string{"true", "false", "nil", "(list)"})
}

// int is an expression that (errors aside) has an integer value.
func (g *pgen) int(d int) string {
	g.budget--
	if d <= 0 || g.budget < 0 {
		if g.r.Intn(3) == 0 {
			return g.lit()
		}
		return g.one('i')
	}
	// an argument is compiled on its own: no jump out of it
	defer func(l []string) { g.labels = l }(g.labels)
	g.labels = nil
	dt := g.o.data
	switch g.choose(6, 8, 10, 12, 6, 3+g.o.scopes, 4, 3, 6+g.o.closures, g.o.closures, 3, 3, dt, dt, dt, dt, 3, g.o.errs, 2, g.o.closures, 2) {
	case 0:
		return g.lit()
	case 1:
		return g.one('i')
	case 2:
		return g.sprintf("(note %s %s)", g.uniq(), g.int(d-1))
	case 3:
		op := vPick(g.r, []string{"+", "+", "-", "*"})
		if g.r.Intn(4) == 0 {
			return g.sprintf("(%s %s %s %s)", op, g.int(d-1), g.int(d-1), g.int(d-1))
		}
		return g.sprintf("(%s %s %s)", op, g.int(d-1), g.int(d-1))
	case 4:
		n := 1 + g.r.Intn(3)
		s := "(cond"
		for i := 0; i < n; i++ {
			s += " " + g.cond(d-1) + " " + g.int(d-1)
		}
		return s + " " + g.int(d-1) + ")"
	case 5:
		return g.let(d, func() string { return g.int(d - 1) })
	case 6:
		return g.sprintf("(begin %s %s)", g.stmt(d-1), g.int(d-1))
	case 7:
		n := g.one('i')
		return g.sprintf("(set %s %s)", n, g.int(d-1))
	case 8:
		return g.call(d)
	case 9:
		// immediate call of a function expression
		return g.sprintf("(%s %s)", g.fn(d-1, 1), g.int(d-1))
	case 10:
		return g.sprintf("(or %s %s)", vPick(g.r, []string{"false", "nil", "0", "(and " + g.cond(d-1) + " nil)"}), g.int(d-1))
	case 11:
		return g.sprintf("(and %s %s)", vPick(g.r, []string{"true", "1", "(or " + g.cond(d-1) + " 5)"}), g.int(d-1))
	case 12:
		if g.r.Intn(3) == 0 {
			return g.sprintf("(aget %s %s %s)", g.arr(d-1), g.int(0), g.int(d-1))
		}
		return g.sprintf("(aget %s %d)", g.arr(d-1), g.r.Intn(2))
	case 13:
		return g.sprintf("(first %s)", g.list(d-1))
	case 14:
		if g.r.Intn(2) == 0 {
			return g.sprintf("(hget %s %s %s)", g.one('h'), g.key(), g.int(d-1))
		}
		return g.sprintf("(hget %s %s)", g.one('h'), g.key())
	case 15:
		return g.sprintf("(len %s)", vPick(g.r, []string{g.arr(d - 1), g.list(d - 1), g.str(d - 1)}))
	case 16:
		return g.sprintf("(mod %s %d)", g.int(d-1), 2+g.r.Intn(4))
	case 17:
		return g.bad(d)
	case 18:
		return g.sprintf("(bump %s)", g.int(d-1))
	case 19:
		return g.sprintf("(%s %s %s)", vPick(g.r, []string{"apply", "callf"}), g.fun1(d-1), vPick(g.r, []string{"[" + g.int(d-1) + "]", "(list " + g.int(d-1) + ")"}))
	default:
		return g.sprintf("(newScope %s %s)", g.scoped(func() string { return g.stmt(d - 1) }), g.int(d-1))
	}
}

func (g *pgen) key() string { return vPick(g.r, []string{"ka:", "kb:", "kc:"}) }

func (g *pgen) scoped(f func() string) string {
	g.push()
	defer g.pop()
	return f()
}

func (g *pgen) let(d int, body func() string) string {
	kw := vPick(g.r, []string{"let", "letseq"})
	n := 1 + g.r.Intn(2)
	var names []string
	s := "(" + kw + " ["
	g.push()
	for i := 0; i < n; i++ {
		nm := g.name('i')
		dup := false
		for _, x := range names {
			dup = dup || x == nm
		}
		if dup {
			continue
		}
		names = append(names, nm)
		s += " " + nm + " " + g.int(d-1)
		if kw == "letseq" {
			g.bind(nm)
		}
	}
	for _, nm := range names {
		g.bind(nm)
	}
	s += "]"
	if g.r.Intn(2) == 0 {
		s += " " + g.stmt(d-1)
	}
	s += " " + body() + ")"
	g.pop()
	return s
}

// bad is an expression that fails.
func (g *pgen) bad(d int) string {
	x := "1"
	if d > 0 {
		x = g.int(d - 1)
	}
	return vPick(g.r, []string{"(/ " + x + " 0)", "(mod " + x + " 0)", "nosuch", "(first " + x + ")", "(aget [" + x + "] 9)", "(hget (hash) ka:)",
		"((fn [i0] i0) " + x + " 2)", "(+ " + x + " \"x\")", "(assert (begin " + x + " false))", "(nosuchfn " + x + ")", "(" + x + " 2)", "(bump 1000)",
		"(map bump [1 1000 " + x + "])", "(apply bump [5000])", "(callf bump [5000])", "(eval (quote (+ 1 nosuch)))", "(bump \"s\")", "(mdef i0 i1 (list 1))"})
}

func (g *pgen) call(d int) string {
	type cand struct {
		n string
		a int
	}
	var cs []cand
	for _, n := range g.have('f') {
		cs = append(cs, cand{n, g.fns[n]})
	}
	if len(cs) == 0 {
		if len(g.have('m')) > 0 {
			return g.sprintf("((%s %s))", g.one('m'), g.int(d-1))
		}
		return g.sprintf("(%s %s)", g.fn(d-1, 1), g.int(d-1))
	}
	if len(g.have('m')) > 0 && g.r.Intn(4) == 0 {
		return g.sprintf("((%s %s))", g.one('m'), g.int(d-1))
	}
	c := cs[g.r.Intn(len(cs))]
	s := "(" + c.n
	n := 1
	if g.r.Intn(80) < g.o.errs {
		n = g.r.Intn(3)
	}
	for i := 0; i < n; i++ {
		s += " " + g.int(d-1)
	}
	return s + ")"
}

// fun1 is an expression for a function of one integer.
func (g *pgen) fun1(d int) string {
	if len(g.have('f')) > 0 && g.r.Intn(3) > 0 {
		return g.one('f')
	}
	if g.r.Intn(4) == 0 {
		return "bump"
	}
	return g.fn(d, 1)
}

func (g *pgen) fn(d, n int) string {
	g.push()
	saved := g.labels
	g.labels = nil
	g.infn++
	defer func() { g.pop(); g.labels = saved; g.infn-- }()
	ps := []string{}
	used := map[string]bool{}
	for len(ps) < n {
		p := g.name('i')
		if !used[p] {
			used[p] = true
			ps = append(ps, p)
			g.bind(p)
		}
	}
	return g.sprintf("(fn [%s] %s)", strings.Join(ps, " "), g.body(d))
}

func (g *pgen) body(d int) string {
	s := ""
	for i := g.r.Intn(3); i > 0; i-- {
		s += g.stmt(d-1) + " "
	}
	return s + g.int(d)
}

func (g *pgen) arr(d int) string {
	g.budget--
	if d <= 0 || g.budget < 0 {
		return vPick(g.r, []string{g.one('a'), "[1 2]", "[" + g.one('i') + "]"})
	}
	switch g.r.Intn(6) {
	case 0, 1:
		return g.one('a')
	case 2:
		s := "["
		for i := g.r.Intn(4); i >= 0; i-- {
			s += g.int(d-1) + " "
		}
		return s + "]"
	case 3:
		return g.sprintf("(append %s %s)", g.arr(d-1), g.int(d-1))
	case 4:
		return g.sprintf("(concat %s %s)", g.arr(d-1), g.arr(d-1))
	default:
		return g.sprintf("(map %s %s)", g.fun1(d-1), g.arr(d-1))
	}
}

func (g *pgen) list(d int) string {
	g.budget--
	if d <= 0 || g.budget < 0 {
		return vPick(g.r, []string{g.one('l'), "(list 1 2)", "(quote (3 4))"})
	}
	switch g.r.Intn(6) {
	case 0, 1:
		return g.one('l')
	case 2:
		s := "(list"
		for i := g.r.Intn(4); i >= 0; i-- {
			s += " " + g.int(d-1)
		}
		return s + ")"
	case 3:
		return g.sprintf("(cons %s %s)", g.int(d-1), g.list(d-1))
	case 4:
		return g.sprintf("(rest (cons 5 %s))", g.list(d-1))
	default:
		return g.sprintf("(map %s %s)", g.fun1(d-1), g.list(d-1))
	}
}

func (g *pgen) str(d int) string {
	if d <= 0 {
		return vPick(g.r, []string{`"ab"`, `""`, `"x"`})
	}
	return g.sprintf("(concat %s %s)", g.str(d-1), g.str(d-1))
}

// stmt is any form, run for its effects.
func (g *pgen) stmt(d int) string {
	g.budget--
	if g.budget < 0 {
		return "(note " + g.uniq() + ")"
	}
	lp := g.o.loops
	if d <= 0 || g.infn > 2 || g.noloop > 0 {
		lp = 0
	}
	if d < 0 {
		d = 0
	}
	br := 0
	if len(g.labels) > 0 {
		br = 6
	}
	dt := g.o.data
	switch g.choose(6, 8, 5, lp, br, 3+g.o.closures, g.o.closures, dt, dt, dt, dt, 3, g.o.errs/2, 3, 2, g.o.closures/2) {
	case 0:
		return g.sprintf("(note %s %s)", g.uniq(), g.int(d))
	case 1:
		n := g.name('i')
		e := g.int(d)
		g.bind(n)
		return g.sprintf("(def %s %s)", n, e)
	case 2:
		return g.sprintf("(set %s %s)", g.one('i'), g.int(d))
	case 3:
		return g.loop(d)
	case 4:
		l := vPick(g.r, g.labels)
		kw := vPick(g.r, []string{"break", "continue"})
		j := "(" + kw + ")"
		if l != "" && g.r.Intn(3) > 0 {
			j = "(" + kw + " " + l + ":)"
		}
		switch g.r.Intn(4) {
		case 0:
			return g.sprintf("(cond %s %s nil)", g.cond(d-1), j)
		case 1:
			return g.sprintf("(cond %s (let [%s %s] %s 7) nil)", g.cond(d-1), g.name('i'), g.int(d-1), j)
		case 2:
			return g.sprintf("(and %s %s)", g.cond(d-1), j)
		}
		return g.sprintf("(cond %s nil (begin (note %s) (newScope %s)))", g.cond(d-1), g.uniq(), j)
	case 5:
		n := g.name('f')
		f := g.fn(d, 1)
		if g.r.Intn(2) == 0 {
			g.fns[n] = 1
			// defn: the function's own name is in scope of its body
			g.bind(n)
			return g.sprintf("(defn %s %s", n, f[4:])
		}
		g.fns[n] = 1
		g.bind(n)
		return g.sprintf("(def %s %s)", n, f)
	case 6:
		n := g.name('m')
		g.push()
		saved := g.labels
		g.labels = nil
		p := g.name('i')
		g.bind(p)
		g.infn++
		inner := g.fn(d-1, 0)
		pre := ""
		if g.r.Intn(2) == 0 {
			pre = g.stmt(d-1) + " "
		}
		g.infn--
		g.labels = saved
		g.pop()
		g.bind(n)
		return g.sprintf("(defn %s [%s] %s%s)", n, p, pre, inner)
	case 7:
		n := g.name('a')
		e := g.arr(d)
		g.bind(n)
		return g.sprintf("(def %s %s)", n, e)
	case 8:
		return g.sprintf("(aset %s %d %s)", g.one('a'), g.r.Intn(2), g.int(d))
	case 9:
		if len(g.have('h')) > 0 && g.r.Intn(4) > 0 {
			if g.r.Intn(4) == 0 {
				return g.sprintf("(hdel %s %s)", g.one('h'), g.key())
			}
			return g.sprintf("(hset %s %s %s)", g.one('h'), g.key(), g.int(d))
		}
		n := g.name('h')
		e := g.sprintf("(hash ka: %s kb: %s)", g.int(d), g.int(d))
		g.bind(n)
		return g.sprintf("(def %s %s)", n, e)
	case 10:
		n := g.name('l')
		e := g.list(d)
		g.bind(n)
		return g.sprintf("(def %s %s)", n, e)
	case 11:
		return g.let(d, func() string { return g.stmt(d - 1) })
	case 12:
		return g.bad(d)
	case 13:
		return g.sprintf("(newScope %s)", g.scoped(func() string { return g.stmt(d-1) + " " + g.stmt(d-1) }))
	case 14:
		return g.sprintf("(cond %s (begin %s %s) %s)", g.cond(d-1), g.quiet(d-1), g.quiet(d-1), g.quiet(d-1))
	default:
		// functions stored in data
		n := g.name('a')
		_ = n
		return g.sprintf("(note %s ((aget [%s %s] %d) %s))", g.uniq(), g.fun1(d-1), g.fun1(d-1), g.r.Intn(2), g.int(d))
	}
}

// quiet is a statement that leaves no binding the generator relies on.
func (g *pgen) quiet(d int) string {
	g.push()
	s := g.stmt(d)
	g.pop()
	return s
}

func (g *pgen) loop(d int) string {
	v := g.name('i')
	label := ""
	head := "(for "
	if g.r.Intn(2) == 0 {
		label = vPick(g.r, []string{"outer", "inner", "mid"})
		for _, l := range g.labels {
			if l == label {
				label += "x"
			}
		}
		head += label + ": "
	}
	g.push()
	g.bind(v)
	g.labels = append(g.labels, label)
	s := g.sprintf("%s[(def %s 0) (< %s %d) (set %s (+ %s 1))]", head, v, v, 1+g.r.Intn(4), v, v)
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		s += " " + g.stmtNot(d-1, v)
	}
	g.labels = g.labels[:len(g.labels)-1]
	g.pop()
	return s + ")"
}

// stmtNot is a statement; programs that spoil the loop variable run into the
// step budget of the reference and are dropped.
func (g *pgen) stmtNot(d int, v string) string { return g.stmt(d) }

// program is a list of top-level forms.
func (g *pgen) program(n, d int) (forms []string) {
	forms = append(forms, "(def i0 1)", "(def i1 2)", "(def a0 [1 2 3])", "(def l0 (list 4 5))", "(def h0 (hash ka: 1 kb: 2))")
	for _, n := range []string{"i0", "i1", "a0", "l0", "h0"} {
		g.bind(n)
	}
	for i := 0; i < n; i++ {
		g.budget = 60
		if g.r.Intn(3) == 0 {
			forms = append(forms, g.int(d))
		} else {
			forms = append(forms, g.stmt(d))
		}
	}
	return
}

var c02mixes = []gOpt{
	{closures: 3, loops: 5, data: 3, scopes: 3},
	{closures: 8, loops: 2, data: 1, scopes: 5},
	{closures: 2, loops: 9, data: 1, scopes: 3},
	{closures: 4, loops: 4, data: 4, scopes: 4, errs: 3},
	{closures: 1, loops: 2, data: 8, scopes: 1},
}
