package zygo

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
)

type c14key struct {
	src  string // source text of the key expression
	eq   string // model identity
	prt  string // printed form in a hash
	jkey string // json name for symbol keys
}

type c14model struct {
	keys []string
	val  map[string]int
	k    map[string]c14key
}

func (m *c14model) set(k c14key, v int) {
	if _, ok := m.val[k.eq]; !ok {
		m.keys = append(m.keys, k.eq)
		m.k[k.eq] = k
	}
	m.val[k.eq] = v
}
func (m *c14model) del(k c14key) {
	if _, ok := m.val[k.eq]; !ok {
		return
	}
	delete(m.val, k.eq)
	for i, x := range m.keys {
		if x == k.eq {
			m.keys = append(append([]string{}, m.keys[:i]...), m.keys[i+1:]...)
		}
	}
}
func (m *c14model) clone() *c14model {
	n := &c14model{keys: append([]string{}, m.keys...), val: map[string]int{}, k: map[string]c14key{}}
	for k, v := range m.val {
		n.val[k] = v
	}
	for k, v := range m.k {
		n.k[k] = v
	}
	return n
}
func c14newModel() *c14model { return &c14model{val: map[string]int{}, k: map[string]c14key{}} }

func c14strip(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' || r == ',' }), " ")
}

func TestVerifC14(t *testing.T) {
	v := vBegin(t, "C14", "random histories of hset / hdel / infix index assignment / dot assignment / copy through a pointer over a pool of int, char, symbol, string and array keys chosen to collide in their hash codes; after every step every observer (hget with and without default, len, keys, hpair at every position, range, for-range, str, json, empty?) is compared with an insertion-ordered map. Non-trivial: distinct history prefixes.")
	defer v.finish()
	var env *Zlisp
	fresh := func() {
		if env != nil {
			env.Close()
		}
		env = vNewEnv()
	}
	fresh()
	symnum := func(s string) int { return env.MakeSymbol(s).number }
	mk := func() (pool []c14key) {
		for _, s := range []string{"ka", "kb", "kc", "kd"} {
			n := symnum(s)
			pool = append(pool, c14key{"(quote " + s + ")", "sym:" + s, s, s})
			pool = append(pool, c14key{fmt.Sprint(n), fmt.Sprintf("int:%d", n), fmt.Sprint(n), ""})
			h, _, _ := hashHelper(&SexpStr{S: s})
			pool = append(pool, c14key{`"` + s + `"`, "str:" + s, `"` + s + `"`, ""})
			pool = append(pool, c14key{fmt.Sprint(h), fmt.Sprintf("int:%d", h), fmt.Sprint(h), ""})
		}
		for _, n := range []int{0, -1, 97, 1 << 40} {
			pool = append(pool, c14key{fmt.Sprint(n), fmt.Sprintf("int:%d", n), fmt.Sprint(n), ""})
		}
		pool = append(pool, c14key{"'a'", "int:97", "'a'", ""})
		pool = append(pool, c14key{"'z'", "int:122", "'z'", ""})
		pool = append(pool, c14key{"[97]", "int:97", "97", ""})
		pool = append(pool, c14key{"[1 2]", "arr:1 2", "[1 2]", ""})
		pool = append(pool, c14key{"[1 2 3]", "arr:1 2 3", "[1 2 3]", ""})
		h, _, _ := hashHelper(&SexpArray{Val: []Sexp{&SexpInt{Val: 1}, &SexpInt{Val: 2}}, Env: env})
		pool = append(pool, c14key{fmt.Sprint(h), fmt.Sprintf("int:%d", h), fmt.Sprint(h), ""})
		return
	}
	hist := func(nops int, symOnly, strct bool) {
		pool := mk()
		if symOnly {
			var p []c14key
			for _, k := range pool {
				if k.jkey != "" {
					p = append(p, k)
				}
			}
			for _, s := range []string{"ke", "kf"} {
				p = append(p, c14key{"(quote " + s + ")", "sym:" + s, s, s})
			}
			pool = p
		}
		// a small working set makes deletes hit and re-inserts happen
		v.rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		if w := 3 + v.rng.Intn(6); w < len(pool) {
			pool = pool[:w]
		}
		ms := []*c14model{c14newModel(), c14newModel()}
		names := []string{"ha", "hb"}
		log := "(def ha (hash)) (def hb (hash))"
		if strct {
			// records: the copy through a pointer is available too
			flds := ""
			for i, f := range []string{"ka", "kb", "kc", "kd", "ke", "kf"} {
				flds += fmt.Sprintf(" (field %s: int64 e:%d)", f, i)
			}
			log = "(struct Krec [" + flds + "]) (def ha nil) (set ha (Krec)) (def hb nil) (set hb (Krec))"
		}
		pre, post := "{", "}"
		if strct {
			pre, post = "(Krec ", ")"
		} else {
			log = "(def ha nil) (set ha (hash)) (def hb nil) (set hb (hash))"
		}
		if o := vEval(env, log); o.kind() != "VALUE" {
			v.fail("setup", o.show(), log)
			return
		}
		bad := func(what, got, want string) {
			v.fail(what, fmt.Sprintf("after the history below, %s gives %s, an ordered map gives %s", what, got, want), log)
		}
		for op := 0; op < nops; op++ {
			w := v.rng.Intn(5) / 4 // mostly ha
			m, h := ms[w], names[w]
			k := vPick(v.rng, pool)
			val := v.rng.Intn(1000)
			var src string
			r := v.rng.Intn(20)
			switch {
			case r < 8:
				src = fmt.Sprintf("(hset %s %s %d)", h, k.src, val)
				m.set(k, val)
			case r < 9 && !strings.HasPrefix(k.src, "(") && !strings.HasPrefix(k.src, "["):
				src = fmt.Sprintf("{%s[%s] = %d}", h, k.src, val)
				m.set(k, val)
			case r < 10 && k.jkey != "":
				src = fmt.Sprintf("{%s.%s = %d}", h, k.jkey, val)
				m.set(k, val)
			case r == 19 && strct:
				src = fmt.Sprintf("(derefSet (& %s) %s)", names[1-w], h)
				ms[1-w] = m.clone()
			case r == 18:
				// lookup of a possibly missing key changes nothing
				src = fmt.Sprintf("(hget %s %s 77)", h, k.src)
			default:
				src = fmt.Sprintf("(hdel %s %s)", h, k.src)
				m.del(k)
			}
			log += "\n" + src
			v.at(log)
			v.count(log)
			if o := vEval(env, src); o.kind() != "VALUE" {
				bad("operation "+strings.SplitN(src, " ", 2)[0], o.show(), "a value")
				fresh()
				return
			}
			for w := range ms {
				m, h := ms[w], names[w]
				ask := func(src string) string {
					v.at(log + "\n" + src)
					return vEval(env, src).show()
				}
				if g, want := ask("(len "+h+")"), fmt.Sprintf("VALUE %d", len(m.keys)); g != want {
					bad("len", g, want)
				}
				if g, want := ask("(empty? "+h+")"), fmt.Sprintf("VALUE %v", len(m.keys) == 0); g != want {
					bad("empty?", g, want)
				}
				var ks, ps []string
				for _, e := range m.keys {
					ks = append(ks, m.k[e].prt)
					ps = append(ps, fmt.Sprintf("%s:%d", m.k[e].prt, m.val[e]))
				}
				if g, want := c14strip(ask("(keys "+h+")")), c14strip("VALUE ["+strings.Join(ks, " ")+"]"); g != want {
					bad("keys", g, want)
				}
				if g, want := c14strip(ask(h)), c14strip("VALUE "+pre+strings.Join(ps, " ")+post); g != want {
					bad("print", g, want)
				}
				for i := -1; i <= len(m.keys)+1; i++ {
					g := ask(fmt.Sprintf("(hpair %s %d)", h, i))
					if i < 0 || i >= len(m.keys) {
						if !strings.HasPrefix(g, "ERROR") || strings.Contains(g, "internal error") || strings.Contains(g, "panic") {
							bad("hpair out of range", g, "an error")
						}
						continue
					}
					want := fmt.Sprintf("VALUE (%s %d)", ks[i], m.val[m.keys[i]])
					if g != want {
						bad("hpair", g, want)
					}
				}
				for _, k := range pool {
					val, ok := m.val[k.eq]
					g := ask(fmt.Sprintf("(hget %s %s 5555)", h, k.src))
					want := "VALUE 5555"
					if ok {
						want = fmt.Sprintf("VALUE %d", val)
					}
					if g != want {
						bad("hget default", g, want)
					}
					g = ask(fmt.Sprintf("(hget %s %s)", h, k.src))
					if ok && g != want || !ok && !strings.HasPrefix(g, "ERROR") {
						bad("hget", g, want)
					}
				}
				if op%4 == 3 {
					src := fmt.Sprintf("(def acc nil) (set acc []) (range kk vv %s (set acc (append acc [kk vv]))) acc", h)
					var qs []string
					for _, e := range m.keys {
						qs = append(qs, fmt.Sprintf("[%s %d]", m.k[e].prt, m.val[e]))
					}
					want := "VALUE [" + strings.Join(qs, " ") + "]"
					if g := ask(src); g != want {
						bad("range", g, want)
					}
					src = fmt.Sprintf("(def acc nil) (set acc []) { for kk, vv := range %s { (set acc (append acc [kk vv])) } } acc", h)
					if g := ask(src); g != want {
						bad("for range", g, want)
					}
					kinds := map[string]bool{}
					for _, e := range m.keys {
						c := m.k[e].prt[:1]
						if c >= "0" && c <= "9" || c == "-" {
							c = "0"
						} else if c >= "a" && c <= "z" {
							c = "sym"
						}
						kinds[c] = true
					}
					src = fmt.Sprintf("(def acc nil) (set acc []) { for kone := range %s { (set acc (append acc kone)) } } acc", h)
					want = "VALUE [" + strings.Join(ks, " ") + "]"
					if g := ask("(newScope " + src + ")"); g != want {
						if len(kinds) > 1 {
							v.fail("for-range-one-target-mixed-keys", fmt.Sprintf("got %s\nwant %s", g, want), src)
						} else {
							bad("for range, one target", g, want)
						}
					}
				}
				if symOnly && !strct && op%3 == 2 {
					o := vEval(env, "(raw2str (json "+h+"))")
					s, _ := o.Val.(*SexpStr)
					if s == nil {
						bad("json", o.show(), "text")
						continue
					}
					var x map[string]interface{}
					if err := json.Unmarshal([]byte(s.S), &x); err != nil {
						bad("json", s.S, "well-formed JSON")
						continue
					}
					var ord []string
					for _, e := range m.keys {
						ord = append(ord, fmt.Sprintf("%q", m.k[e].jkey))
						if f, ok := x[m.k[e].jkey].(float64); !ok || int(f) != m.val[e] {
							bad("json value", s.S, ps[0])
						}
					}
					want := "[" + strings.Join(ord, ",") + "]"
					got := "[]"
					if zk, ok := x["zKeyOrder"]; ok {
						b, _ := json.Marshal(zk)
						got = string(b)
					}
					if got != want || len(x) != len(m.keys)+1 && len(x) != len(m.keys)+2 {
						bad("json keys", s.S, want)
					}
					// the decoded hash keeps content and order
					g := c14strip(ask("(unjson (json " + h + "))"))
					if w := c14strip("VALUE {" + strings.Join(ps, " ") + "}"); g != w {
						bad("unjson", g, w)
					}
				}
			}
		}
	}
	// key order supplied from outside
	for _, c := range [][2]string{
		{`{"Atype":"hash","zKeyOrder":["b","a"],"a":1,"b":2}`, "{b:2 a:1}"},
		{`{"Atype":"hash","zKeyOrder":["b"],"a":1,"b":2}`, "{b:2 a:1}"},
		{`{"Atype":"hash","zKeyOrder":["b","zz","a","b"],"a":1,"b":2}`, "{b:2 a:1}"},
	} {
		env.AddGlobal("jr", &SexpRaw{Val: []byte(c[0])})
		src := "(def hj (unjson jr)) (str hj)"
		desc := src + " with jr=" + c[0]
		v.at(desc)
		v.count(desc)
		o := vEval(env, "(def hj (unjson jr)) hj")
		if g := c14strip(vStr(o.Val)); o.kind() != "VALUE" || g != c14strip(c[1]) {
			v.fail("unjson order", desc+": "+o.show(), desc)
		}
		if o := vEval(env, "(concat (str (len hj)) (str (len (keys hj))))"); o.show() != `VALUE "22"` {
			v.fail("unjson order", desc+": len and keys: "+o.show(), desc)
		}
	}
	n := 250
	if v.thorough {
		n = 1 << 30
	}
	for k := 0; k < n && v.more(); k++ {
		if k%30 == 29 {
			fresh()
		}
		hist(6+v.rng.Intn(20), k%4 >= 2, k%4 == 2)
	}
}
