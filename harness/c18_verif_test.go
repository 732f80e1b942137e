package zygo

import (
	"fmt"
	"strings"
	"testing"
	"unicode"
)

type c18node struct {
	kind string // int, fn, hash, pkg
	val  int
	name string
	kids []*c18node
	key  string // key under which the parent stores it
}

func (n *c18node) kid(k string) *c18node {
	for _, c := range n.kids {
		if c.key == k {
			return c
		}
	}
	return nil
}

func c18public(k string) bool {
	for _, r := range k {
		return unicode.IsUpper(r)
	}
	return false
}

// C18: random trees of nested packages and records, accessed through every kind of dot path.
func TestVerifC18(t *testing.T) {
	v := vBegin(t, "C18", "random trees of packages (depth up to 4, members of both cases incl. non-ASCII letters: integers, functions, records, packages under names of either case), stored in variables, record fields and function parameters; every member read, assigned, incremented, called and dereferenced through dot paths by about 25 syntactic routes, and read and written from inside through exported accessors; the verdict of each access is computed on the tree. Non-trivial: distinct (tree, path, route) triples.")
	defer v.finish()
	uniq := 0
	var build func(depth int, kind string) *c18node
	build = func(depth int, kind string) *c18node {
		uniq++
		n := &c18node{kind: kind, name: fmt.Sprintf("pk%d", uniq)}
		names := []string{"a", "b", "zeta", "ünder", "x1", "A", "Beta", "Ünder", "X1", "_q", "fooBar", "FooBar"}
		v.rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		m := 3 + v.rng.Intn(4)
		for i := 0; i < m; i++ {
			uniq++
			key := fmt.Sprintf("%s%d", names[i], uniq) // unique: an enclosing package never supplies it
			var c *c18node
			switch r := v.rng.Intn(10); {
			case r < 4 || depth >= 4:
				c = &c18node{kind: "int", val: v.rng.Intn(1000)}
			case r < 5 && kind == "pkg":
				c = &c18node{kind: "fn", val: v.rng.Intn(1000)}
			case r < 7:
				c = build(depth+1, "hash")
			default:
				if kind == "hash" && v.rng.Intn(2) == 0 {
					c = &c18node{kind: "int", val: v.rng.Intn(1000)}
				} else {
					c = build(depth+1, "pkg")
				}
			}
			c.key = key
			n.kids = append(n.kids, c)
		}
		return n
	}
	var src func(n *c18node) string
	src = func(n *c18node) string {
		switch n.kind {
		case "int":
			return fmt.Sprint(n.val)
		case "fn":
			return fmt.Sprintf("(fn [] %d)", n.val)
		case "hash":
			s := "(hash"
			for _, k := range n.kids {
				s += " " + k.key + ": " + src(k)
			}
			return s + ")"
		}
		s := "(package \"" + n.name + "\""
		for _, k := range n.kids {
			if k.kind == "fn" {
				s += fmt.Sprintf(" (defn %s [] %d)", k.key, k.val)
			} else {
				s += fmt.Sprintf(" (def %s %s)", k.key, src(k))
			}
			if k.kind == "int" {
				s += fmt.Sprintf(" (defn Get%s [] %s) (defn Set%s [nv] (set %s nv))", k.key, k.key, k.key, k.key)
			}
			if k.kind == "fn" {
				s += fmt.Sprintf(" (defn Call%s [] (%s))", k.key, k.key)
			}
		}
		return s + ")"
	}
	// verdict of a dot path starting at root: "err", "ok"
	walk := func(root *c18node, path []string, set bool) (string, *c18node) {
		cur := root
		for i, k := range path {
			last := i == len(path)-1
			c := cur.kid(k)
			if c == nil {
				return "missing", nil
			}
			if cur.kind == "pkg" {
				if c.kind == "pkg" {
					if last && set && !c18public(k) {
						return "err", c
					}
				} else if !c18public(k) {
					return "err", c
				}
			}
			if last {
				return "ok", c
			}
			if c.kind != "hash" && c.kind != "pkg" {
				return "err", c
			}
			cur = c
		}
		return "ok", cur
	}
	reads := []string{"P", "(+ 0 P)", "(begin (def zz P) zz)", "(begin {zz = P} zz)", "{P}", "((fn [q] q) P)", "(first (list P))", "(let [zz P] zz)", "((fn [] P))",
		"(cond true P 0)", "(eval (quote P))", "(aget [P] 0)", "(and true P)", "{P + 0}", "(hget (hash k: P) (quote k))", "((fn [w] w.R) V)", "(let [w V] w.R)", "(begin (def w V) {w.R})", "((fn [w] (+ 0 w.R)) V)", "(* P)", "(first (map (fn [w] w.R) [V]))", "(begin (defn ff [w] (begin (defn gg [] w.R) gg)) ((ff V)))", "((fn [#q] (force #q)) P)", "`~P`"}
	sets := []string{"(set P N)", "{P = N}", "((fn [w] (set w.R N)) V)", "(let [w V] {w.R = N})", "(begin (def w V) (set w.R N))", "{P := N}", "((fn [] {P = N}))", "(for [(set ii 0) (< ii 1) (set ii (+ ii 1))] (set P N))", "(cond true (set P N) 0)"}
	for round := 0; v.more() || round < 6; round++ {
		env := vNewEnv()
		root := build(0, "pkg")
		setup := "(def p " + src(root) + ")\n"
		o := vEval(env, setup)
		if o.Err != nil || o.Panic != "" {
			v.fail("setup", o.show(), setup)
			env.Close()
			continue
		}
		// every node with its path
		type at struct {
			path []string
			n    *c18node
			pkg  *c18node
		}
		var all []at
		var visit func(n *c18node, p []string)
		visit = func(n *c18node, p []string) {
			for _, k := range n.kids {
				q := append(append([]string{}, p...), k.key)
				all = append(all, at{q, k, n})
				if k.kind == "hash" || k.kind == "pkg" {
					visit(k, q)
				}
			}
		}
		visit(root, nil)
		vals := func(n *c18node) bool { return n.kind == "int" }
		// aliases: variables bound to packages or records that may be obtained from outside
		type alias struct {
			name string
			base *c18node
			path []string
		}
		aliases := []alias{{"p", root, nil}}
		for i := 0; i < 4; i++ {
			x := all[v.rng.Intn(len(all))]
			if x.n.kind != "pkg" && x.n.kind != "hash" {
				continue
			}
			if w, _ := walk(root, x.path, false); w != "ok" {
				continue
			}
			nm := fmt.Sprintf("al%d", i)
			s := fmt.Sprintf("(def %s p.%s)\n", nm, strings.Join(x.path, "."))
			full := nm
			if v.rng.Intn(3) == 0 {
				s = fmt.Sprintf("(def %s (hash in: (hash er: p.%s)))\n", nm, strings.Join(x.path, "."))
				full = nm + ".in.er"
			}
			setup += s
			if o := vEval(env, s); o.Err != nil || o.Panic != "" {
				v.fail("alias", s+" gave "+o.show(), setup)
				continue
			}
			aliases = append(aliases, alias{full, x.n, x.path})
		}
		log := setup
		inside := func(what string) {
			// the members as the package itself sees them
			for _, x := range all {
				if x.pkg.kind != "pkg" || x.n.kind != "int" && x.n.kind != "fn" || v.rng.Intn(3) != 0 {
					continue
				}
				acc := "Get"
				if x.n.kind == "fn" {
					acc = "Call"
				}
				p := append([]string{}, x.path[:len(x.path)-1]...)
				if w, _ := walk(root, append(p, x.path[len(x.path)-1]), false); w == "missing" {
					continue
				}
				if len(p) > 0 {
					if w, _ := walk(root, p, false); w != "ok" {
						continue // the accessor itself lies behind a private record
					}
				}
				s := "(p." + strings.Join(append(p, acc+x.path[len(x.path)-1]), ".") + ")"
				o := vEval(env, s)
				if o.Err != nil || o.Panic != "" || vStr(o.Val) != fmt.Sprint(x.n.val) {
					v.fail("inside", fmt.Sprintf("%s after %s: want %d, got %s", s, what, x.n.val, o.show()), log)
					return
				}
			}
		}
		for step := 0; step < 40; step++ {
			x := all[v.rng.Intn(len(all))]
			al := aliases[v.rng.Intn(len(aliases))]
			// path relative to the alias
			if len(x.path) <= len(al.path) || strings.Join(x.path[:len(al.path)], ".") != strings.Join(al.path, ".") {
				continue
			}
			rel := x.path[len(al.path):]
			P := al.name + "." + strings.Join(rel, ".")
			sub := func(s string, n int) string {
				s = strings.ReplaceAll(s, "P", "\x00")
				s = strings.ReplaceAll(s, ".R", "."+strings.Join(rel, "."))
				s = strings.ReplaceAll(s, "V", al.name)
				s = strings.ReplaceAll(s, "N", fmt.Sprint(n))
				uniq++
				for _, w := range []string{"zz", "ff", "gg"} {
					s = strings.ReplaceAll(s, w, fmt.Sprintf("%s%d", w, uniq)) // variables keep the type of their first value
				}
				s = strings.ReplaceAll(s, "(def w ", fmt.Sprintf("(def w%d ", uniq))
				if strings.Contains(s, "(def w") {
					s = strings.ReplaceAll(s, "w.", fmt.Sprintf("w%d.", uniq))
				}
				return strings.ReplaceAll(s, "\x00", P)
			}
			switch r := v.rng.Intn(4); {
			case r < 2:
				tpl := reads[v.rng.Intn(len(reads))]
				if !vals(x.n) && tpl != "P" {
					// records, packages and functions: only whether they may be obtained
					if tpl == "(+ 0 P)" || tpl == "{P + 0}" || strings.HasPrefix(tpl, "((fn [w] (+") {
						continue
					}
				}
				s := sub(tpl, 0)
				if strings.HasSuffix(tpl, "`") {
					s = "(syntaxQuote (unquote " + P + "))"
				}
				want, n := walk(al.base, rel, false)
				log = setup + s + "\n"
				v.at(log)
				o := vEval(env, s)
				v.count(log)
				if o.Panic != "" {
					v.fail("panic", s+": "+o.show(), log)
				} else if want == "err" && o.Err == nil {
					v.fail("private-read", fmt.Sprintf("%s gave %s though the path is private", s, o.show()), log)
				} else if want == "ok" && o.Err != nil {
					v.fail("public-read", fmt.Sprintf("%s failed: %s", s, o.show()), log)
				} else if want == "ok" && n.kind == "int" && vStr(o.Val) != fmt.Sprint(n.val) {
					v.fail("public-value", fmt.Sprintf("%s: want %d, got %s", s, n.val, o.show()), log)
				}
			case r < 3:
				if !vals(x.n) {
					if x.n.kind != "fn" {
						// a private package or record must not be replaced
						want, _ := walk(al.base, rel, true)
						if want != "err" {
							continue
						}
						s := sub(sets[v.rng.Intn(len(sets))], 5)
						log = setup + s + "\n"
						v.at(log)
						o := vEval(env, s)
						v.count(log)
						if o.Err == nil {
							v.fail("private-set", fmt.Sprintf("%s gave %s though the path is private", s, o.show()), log)
						}
						inside(s)
						continue
					}
					s := "(" + P + ")"
					want, n := walk(al.base, rel, false)
					log = setup + s + "\n"
					v.at(log)
					o := vEval(env, s)
					v.count(log)
					if want == "err" && o.Err == nil {
						v.fail("private-call", fmt.Sprintf("%s gave %s though the path is private", s, o.show()), log)
					} else if want == "ok" && (o.Err != nil || vStr(o.Val) != fmt.Sprint(n.val)) {
						v.fail("public-call", fmt.Sprintf("%s: want %d, got %s", s, n.val, o.show()), log)
					}
					continue
				}
				nv := 1000 + v.rng.Intn(9000)
				s := sub(sets[v.rng.Intn(len(sets))], nv)
				want, n := walk(al.base, rel, true)
				log = setup + s + "\n"
				v.at(log)
				o := vEval(env, s)
				v.count(log)
				if want == "err" && o.Err == nil {
					v.fail("private-set", fmt.Sprintf("%s gave %s though the path is private", s, o.show()), log)
				} else if want == "ok" && o.Err != nil {
					v.fail("public-set", fmt.Sprintf("%s failed: %s", s, o.show()), log)
				} else if want == "ok" {
					n.val = nv
					setup += s + "\n"
				}
				inside(s)
			default:
				// through the package's own code
				if x.pkg.kind != "pkg" || x.n.kind != "int" {
					continue
				}
				if len(rel) > 1 {
					if w, _ := walk(al.base, rel[:len(rel)-1], false); w != "ok" {
						continue
					}
				}
				nv := 1000 + v.rng.Intn(9000)
				acc := append(append([]string{}, rel[:len(rel)-1]...), "Set"+rel[len(rel)-1])
				s := fmt.Sprintf("(%s.%s %d)", al.name, strings.Join(acc, "."), nv)
				log = setup + s + "\n"
				v.at(log)
				o := vEval(env, s)
				v.count(log)
				if o.Err != nil || o.Panic != "" {
					v.fail("inside", s+" failed: "+o.show(), log)
				} else {
					x.n.val = nv
					setup += s + "\n"
				}
				inside(s)
			}
		}
		env.Close()
	}
}
