package zygo

import (
	"fmt"
	"testing"
)

// C19: symbols made in a family of interpreters are equal exactly when their names are equal, and
// a generated symbol is new whatever was interned before.
func TestVerifC19(t *testing.T) {
	v := vBegin(t, "C19", "random interleavings over a family of up to six interpreters (Duplicate, Clone and clones of clones) of MakeSymbol, GenSymbol, reading and evaluating source that interns names, the script-level gensym / str2sym / macro expansion, with names chosen to collide with generated names (prefix + counter); after each step the new symbol is compared, through Go and through (==), with every symbol made so far. Non-trivial: distinct operation histories.")
	defer v.finish()
	type rec struct {
		sym *SexpSymbol
		gen bool
		by  int
	}
	if o := vEval(vNewEnv(), "(== (quote a.b) (quote a.b))"); o.Err != nil || vStr(o.Val) != "true" {
		v.fail("dotted-symbols-are-paths", "(== (quote a.b) (quote a.b)) gave "+o.show(), "")
	}
	for round := 0; v.more() || round < 3; round++ {
		root := vNewEnv()
		envs := []*Zlisp{root}
		var made []rec
		prefixes := []string{"__gensym", "__anon", "pre", "g", "", "x1", "a"}
		hist := ""
		check := func(r rec, op string) {
			for _, o := range made {
				same := o.sym.name == r.sym.name
				if r.gen && same {
					v.fail("generated-collides", fmt.Sprintf("%s in interpreter %d gave %q (number %d), a name that interpreter %d had interned already (number %d)", op, r.by, r.sym.name, r.sym.number, o.by, o.sym.number), hist)
					return
				}
				if same != (o.sym.number == r.sym.number) {
					v.fail("interning", fmt.Sprintf("%s in interpreter %d: symbols %q (number %d) and %q (number %d, interpreter %d)", op, r.by, r.sym.name, r.sym.number, o.sym.name, o.sym.number, o.by), hist)
					return
				}
				if r.sym.isDot || o.sym.isDot {
					continue // see the finding dotted-symbols-are-paths
				}
				e := envs[v.rng.Intn(len(envs))]
				c, err := e.Compare(r.sym, o.sym)
				if err != nil || (c == 0) != same {
					v.fail("compare", fmt.Sprintf("Compare(%q, %q) = %d, %v", r.sym.name, o.sym.name, c, err), hist)
					return
				}
			}
			made = append(made, r)
		}
		name := func() string {
			switch v.rng.Intn(5) {
			case 0: // a name that a later gensym could produce
				p := prefixes[v.rng.Intn(len(prefixes))]
				e := envs[v.rng.Intn(len(envs))]
				return p + fmt.Sprint(e.nextsymbol+v.rng.Intn(6))
			case 1:
				if len(made) > 0 {
					return made[v.rng.Intn(len(made))].sym.name
				}
			case 2:
				return fmt.Sprintf("n%d", v.rng.Intn(12))
			case 3:
				return vPick(v.rng, []string{"a.b", "$q", "if", "+", "ünï", "a", "set", "x1y", "_"})
			}
			return fmt.Sprintf("g%d", v.rng.Intn(900))
		}
		steps := 30
		for s := 0; s < steps; s++ {
			i := v.rng.Intn(len(envs))
			e := envs[i]
			op := ""
			switch k := v.rng.Intn(10); {
			case k < 3:
				n := name()
				op = fmt.Sprintf("%d:MakeSymbol(%q)", i, n)
				hist += op + "; "
				v.at(hist)
				r := e.MakeSymbol(n)
				if r.name != n {
					v.fail("name", fmt.Sprintf("MakeSymbol(%q) is named %q", n, r.name), hist)
				}
				check(rec{r, false, i}, op)
			case k < 5:
				p := prefixes[v.rng.Intn(len(prefixes))]
				op = fmt.Sprintf("%d:GenSymbol(%q)", i, p)
				hist += op + "; "
				v.at(hist)
				check(rec{e.GenSymbol(p), true, i}, op)
			case k < 7:
				src := vPick(v.rng, []string{`(gensym)`, `(gensym "pre")`, `(gensym "g")`})
				op = fmt.Sprintf("%d:%s", i, src)
				hist += op + "; "
				v.at(hist)
				o := vEval(e, src)
				if y, ok := o.Val.(*SexpSymbol); ok && o.Err == nil {
					check(rec{y, true, i}, op)
				} else {
					v.fail("gensym", op+" gave "+o.show(), hist)
				}
			case k < 8:
				n := name()
				if n == "" || n[0] >= '0' && n[0] <= '9' {
					n = "q" + n
				}
				src := fmt.Sprintf(`(str2sym %q)`, n)
				if v.rng.Intn(2) == 0 {
					src = "(quote " + n + ")"
				}
				op = fmt.Sprintf("%d:%s", i, src)
				hist += op + "; "
				v.at(hist)
				o := vEval(e, src)
				if y, ok := o.Val.(*SexpSymbol); ok && o.Err == nil {
					check(rec{y, false, i}, op)
				} else {
					v.tally("unread")
				}
			case k < 9:
				// two symbols compared by the script itself, quoted in one interpreter
				a, b := fmt.Sprintf("n%d", v.rng.Intn(12)), fmt.Sprintf("n%d", v.rng.Intn(12))
				src := fmt.Sprintf("(== (quote %s) (quote %s))", a, b)
				op = fmt.Sprintf("%d:%s", i, src)
				hist += op + "; "
				v.at(hist)
				o := vEval(e, src)
				if o.Err != nil || vStr(o.Val) != fmt.Sprint(a == b) {
					v.fail("script-equal", op+" gave "+o.show(), hist)
				}
			default:
				if len(envs) >= 6 {
					continue
				}
				var n *Zlisp
				if v.rng.Intn(2) == 0 {
					op = fmt.Sprintf("%d:Duplicate -> %d", i, len(envs))
					hist += op + "; "
					v.at(hist)
					n = e.Duplicate()
				} else {
					op = fmt.Sprintf("%d:Clone -> %d", i, len(envs))
					hist += op + "; "
					v.at(hist)
					n = e.Clone()
				}
				envs = append(envs, n)
			}
			v.count(hist)
			// every symbol made so far keeps its identity in every interpreter
			if len(made) > 0 {
				m := made[v.rng.Intn(len(made))]
				j := v.rng.Intn(len(envs))
				if again := envs[j].MakeSymbol(m.sym.name); again.number != m.sym.number {
					v.fail("interning", fmt.Sprintf("%q had number %d; interpreter %d now gives it %d", m.sym.name, m.sym.number, j, again.number), hist)
				}
			}
		}
		// functions, hash keys and dispatch by number: a symbol key is found through any clone
		h, _ := MakeHash(nil, "hash", root)
		for x, m := range made {
			if m.sym.isDot {
				continue
			}
			if err := h.HashSet(m.sym, &SexpInt{Val: int64(x)}); err != nil {
				v.fail("hash", err.Error(), hist)
			}
		}
		last := map[string]int{}
		for x, m := range made {
			if !m.sym.isDot {
				last[m.sym.name] = x
			}
		}
		for nm, x := range last {
			e := envs[v.rng.Intn(len(envs))]
			g, err := h.HashGet(e, e.MakeSymbol(nm))
			if gi, ok := g.(*SexpInt); err != nil || !ok || int(gi.Val) != x {
				v.fail("hash", fmt.Sprintf("key %q: want %d, got %v %v", nm, x, vStr(g), err), hist)
			}
		}
		root.Close()
	}
}
