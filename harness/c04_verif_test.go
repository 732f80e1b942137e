package zygo

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC04(t *testing.T) {
	v := vBegin(t, "C04", "every form of the language (one snippet per form, see vForms) in every context that uses its value (argument, let, function, cond, loop, lazy argument, eval, map, macro ...) evaluated repeatedly in one interpreter: afterwards the operand, scope, call and loop stacks are empty, empty input gives nil, the value in context is the value alone, and the interpreter's own tables stop growing; random sequences of forms, loaded one at a time, together, or in pieces before one run; random core programs. Non-trivial: distinct source texts that evaluated to a value.")
	defer v.finish()

	rest := func(env *Zlisp, what, replay string) {
		if r := vRest(env); r != "" {
			v.fail("rest", what+": after a successful evaluation: "+r, replay)
		}
	}
	empty := func(env *Zlisp, replay string) {
		for _, e := range vEmpty {
			o := vEval(env, e)
			if o.Err != nil || o.Panic != "" || o.Val != SexpNull {
				v.fail("empty-input", fmt.Sprintf("empty input %q gave %s", e, o.show()), replay)
			}
			rest(env, fmt.Sprintf("empty input %q", e), replay)
		}
	}

	// forms in contexts
	plain := map[string]string{}
	for _, f := range vForms {
		env := vNewEnv()
		if o := vEval(env, vSetup); o.kind() != "VALUE" {
			v.fail("setup", "the setup forms fail: "+o.show(), vSetup)
			return
		}
		rest(env, "setup", vSetup)
		v.at(f)
		o := vEval(env, f)
		if o.kind() != "VALUE" {
			v.fail("form", "this form gives "+o.show(), f)
			continue
		}
		want := vPlain(o.Val)
		plain[f] = want
		rest(env, "form", f)
		empty(env, f)
		for round := 0; round < 2; round++ {
			for _, c := range vContexts {
				src := strings.Replace(c.src, "%s", f, 1)
				v.at(src)
				o := vEval(env, src)
				if o.kind() != "VALUE" {
					v.fail("context", c.name+": "+o.show(), src)
					continue
				}
				rest(env, c.name, src)
				if w, g := vPlainText(strings.Replace(c.want, "%s", want, 1)), vPlain(o.Val); g != w {
					v.fail("context", fmt.Sprintf("%s: got %s, want %s", c.name, g, w), src)
				}
				v.count(src)
			}
		}
		empty(env, f)
	}

	// no growth
	for _, f := range vForms {
		if plain[f] == "" || v.frac(0.7) {
			continue
		}
		env := vNewEnv()
		vEval(env, vSetup)
		loop := func(k int) (int, string) {
			for i := 0; i < k; i++ {
				vEval(env, f)
			}
			return vSize(env)
		}
		loop(3)
		n1, w1 := loop(1)
		n2, w2 := loop(12)
		if n2 > n1 {
			v.fail("growth", fmt.Sprintf("evaluating it 12 more times grew the interpreter from %s to %s", w1, w2), f)
		}
	}

	// sequences of forms: alone, together, in pieces
	var fs []string
	for _, f := range vForms {
		if plain[f] != "" {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return
	}
	for i := 0; v.more(); i++ {
		if i%3 != 0 {
			v.c04program(i, rest)
			continue
		}
		var seq []string
		for k := 2 + v.rng.Intn(6); k > 0; k-- {
			f := vPick(v.rng, fs)
			if v.rng.Intn(2) == 0 {
				f = strings.Replace(vPick(v.rng, vContexts).src, "%s", f, 1)
			}
			seq = append(seq, f)
		}
		src := strings.Join(seq, "\n")
		v.at(src)
		a, b, c := vNewEnv(), vNewEnv(), vNewEnv()
		for _, e := range []*Zlisp{a, b, c} {
			vEval(e, vSetup)
		}
		var last vOut
		good := true
		for _, f := range seq {
			if last = vEval(a, f); last.kind() != "VALUE" {
				good = false
				break
			}
		}
		whole := vEval(b, src)
		pieces := vGuard(200000, func() (Sexp, error) {
			for _, f := range seq {
				if err := c.LoadString(f); err != nil {
					return SexpNull, err
				}
			}
			return c.Run()
		})
		if !good {
			v.tally("sequences that end in an error")
			continue
		}
		rest(a, "one at a time", src)
		w := vPlain(last.Val)
		if whole.kind() != "VALUE" || vPlain(whole.Val) != w {
			v.fail("whole", fmt.Sprintf("one at a time: %s; as one text: %s", w, whole.show()), src)
		} else {
			rest(b, "one text", src)
			empty(b, src)
		}
		if pieces.kind() != "VALUE" || vPlain(pieces.Val) != w {
			v.fail("pieces", fmt.Sprintf("one at a time: %s; loaded in pieces, then run: %s", w, pieces.show()), src)
		} else {
			rest(c, "loaded in pieces", src)
			empty(c, src)
		}
		v.count(src)
	}
}

// c04program: a random core program, form by form; a function it defined is
// also applied from Go, and the program is run in a clone and a duplicate.
func (v *vRun) c04program(i int, rest func(env *Zlisp, what, replay string)) {
	g := newPgen(v.rng, c02mixes[i%len(c02mixes)])
	forms := g.program(3+v.rng.Intn(6), 1+v.rng.Intn(4))
	src := strings.Join(forms, "\n")
	v.at(src)
	tw := newTwin()
	env := tw.env
	switch i % 5 {
	case 1:
		env = tw.env.Clone()
	case 2:
		env = tw.env.Duplicate()
	}
	base := vRest(env) // a duplicate works in a scope of its own
	for _, f := range forms {
		o := vGuard(400000, func() (Sexp, error) { return env.EvalString(f) })
		if o.kind() != "VALUE" {
			v.tally("programs that end in an error")
			return
		}
		if r := vRest(env); r != "" && r != base {
			small := c02shrink([]string{f}, func(fs []string) bool {
				e := newTwin().env
				bad := false
				for _, f := range fs {
					o := vGuard(400000, func() (Sexp, error) { return e.EvalString(f) })
					bad = bad || o.kind() == "VALUE" && vRest(e) != ""
				}
				return bad
			})
			v.fail("rest", "after a successful evaluation: "+r, strings.Join(small, "\n"))
			return
		}
		if fn, ok := o.Val.(*SexpFunction); ok && !fn.varargs && fn.nargs <= 2 {
			o := vGuard(400000, func() (Sexp, error) {
				return env.Apply(fn, []Sexp{&SexpInt{Val: 1}, &SexpInt{Val: 2}}[:fn.nargs])
			})
			if o.kind() == "VALUE" {
				if base == "" {
					rest(env, "Apply from Go", src)
				}
				v.tally("functions applied from Go")
			}
		}
	}
	v.count(src)
}
