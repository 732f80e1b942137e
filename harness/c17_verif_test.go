package zygo

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

// The declaration model: types are built independently of the registry.
type c17type struct {
	base string   // int64 string float64 bool char, "" if not a base type
	rec  *c17defn // instance of this declaration
	elem *c17type // slice of
	ptr  *c17type // pointer to
}

type c17defn struct {
	name   string
	gen    int
	fields []string
	types  map[string]*c17type
}

func (t *c17type) src() string {
	switch {
	case t.elem != nil:
		return "([]" + t.elem.src() + ")"
	case t.ptr != nil:
		return "(* " + t.ptr.src() + ")"
	case t.rec != nil:
		return t.rec.name
	}
	return t.base
}

type c17inst struct {
	name string // variable holding it
	defn *c17defn
	h    *SexpHash
}

type c17 struct {
	v     *vRun
	rng   *rand.Rand
	env   *Zlisp
	cur   map[string]*c17defn // declaration in force by name
	names []string
	insts []*c17inst
	log   []string
	n     int
}

var c17bases = []string{"int64", "string", "float64", "bool"}

// elementary says whether x is a value of t, going by the structure of x alone.
func (c *c17) isOf(x Sexp, t *c17type, seen map[*SexpHash]*c17defn) string {
	switch {
	case x == SexpNull:
		return ""
	case t.elem != nil:
		a, ok := x.(*SexpArray)
		if !ok {
			return fmt.Sprintf("%s is no slice", vStr(x))
		}
		for _, e := range a.Val {
			if m := c.isOf(e, t.elem, seen); m != "" {
				return "element: " + m
			}
		}
		return ""
	case t.ptr != nil:
		p, ok := x.(*SexpPointer)
		if !ok {
			return fmt.Sprintf("%s is no pointer", vStr(x))
		}
		return c.isOf(p.Target, t.ptr, seen)
	case t.rec != nil:
		h, ok := x.(*SexpHash)
		if !ok {
			return fmt.Sprintf("%s is no record", vStr(x))
		}
		if seen[h] != t.rec {
			return fmt.Sprintf("%s is not an instance of declaration %d of %s", vStr(x), t.rec.gen, t.rec.name)
		}
		return ""
	}
	ok := false
	switch t.base {
	case "int64":
		_, ok = x.(*SexpInt)
	case "string":
		_, ok = x.(*SexpStr)
	case "float64":
		_, ok = x.(*SexpFloat)
	case "bool":
		_, ok = x.(*SexpBool)
	}
	if !ok {
		return fmt.Sprintf("%s is no %s", vStr(x), t.base)
	}
	return ""
}

// owner maps every instance the program made to the declaration in force then.
func (c *c17) owners() map[*SexpHash]*c17defn {
	m := map[*SexpHash]*c17defn{}
	for _, i := range c.insts {
		m[i.h] = i.defn
	}
	return m
}

func (c *c17) check(after string) {
	m := c.owners()
	for _, i := range c.insts {
		n := 0
		for _, pairs := range i.h.Map {
			for _, p := range pairs {
				n++
				sym, ok := p.Head.(*SexpSymbol)
				if !ok {
					c.fail("undeclared-key", after, fmt.Sprintf("%s has the key %s", i.name, vStr(p.Head)))
					return
				}
				t, ok := i.defn.types[sym.name]
				if !ok {
					c.fail("undeclared", after, fmt.Sprintf("%s has the undeclared field %s", i.name, sym.name))
					return
				}
				if why := c.isOf(p.Tail, t, m); why != "" {
					c.fail("wrong-type", after, fmt.Sprintf("field %s of %s, declared %s: %s", sym.name, i.name, t.src(), why))
					return
				}
			}
		}
		for _, k := range i.h.KeyOrder {
			sym, ok := k.(*SexpSymbol)
			if !ok || i.defn.types[sym.name] == nil {
				c.fail("undeclared-key", after, fmt.Sprintf("%s lists the key %s", i.name, vStr(k)))
				return
			}
		}
		if n != len(i.h.KeyOrder) {
			c.fail("keys", after, fmt.Sprintf("%s holds %d fields and lists %d", i.name, n, len(i.h.KeyOrder)))
		}
	}
}

func (c *c17) fail(key, after, msg string) {
	c.v.fail(key, msg+" after "+after, strings.Join(c.log, "\n"))
}

func (c *c17) shot() string {
	var b strings.Builder
	for _, i := range c.insts {
		b.WriteString(i.name + "=" + c.shotOf(i.h, 0) + "\n")
	}
	return b.String()
}

func (c *c17) shotOf(x Sexp, depth int) string {
	switch e := x.(type) {
	case *SexpHash:
		s := fmt.Sprintf("%p{", e)
		if depth > 0 {
			return s
		}
		for _, k := range e.KeyOrder {
			val, _ := e.HashGetDefault(c.env, k, SexpNull)
			s += vStr(k) + ":" + c.shotOf(val, depth+1) + " "
		}
		return s + "}"
	case *SexpArray:
		s := "["
		for _, el := range e.Val {
			s += c.shotOf(el, depth+1) + " "
		}
		return s + "]"
	case *SexpPointer:
		return fmt.Sprintf("&%p", e.Target)
	}
	return vStr(x)
}

// run evaluates src; want: 1 accepted, -1 rejected, 0 either way.
func (c *c17) run(src string, want int) bool {
	before := c.shot()
	c.log = append(c.log, src)
	c.v.at(strings.Join(c.log, "\n"))
	o := vEval(c.env, src)
	c.v.count(src)
	ok := o.kind() == "VALUE"
	if o.kind() == "PANIC" {
		c.fail("panic", src, o.show())
	}
	if !ok {
		c.env.Clear()
		if after := c.shot(); after != before {
			c.fail("rejected-changed", src, fmt.Sprintf("rejected (%s), but changed\n%s  to\n%s", o.show(), before, after))
		}
		c.v.tally("rejected")
	} else {
		c.v.tally("accepted")
	}
	if want > 0 && !ok {
		c.fail("good-rejected", src, "well-typed, but: "+o.show())
	}
	if want < 0 && ok {
		c.fail("bad-accepted", src, "ill-typed, but accepted with value "+o.show())
	}
	c.check(src)
	return ok
}

func (c *c17) pickDefn() *c17defn { return c.cur[c.names[c.rng.Intn(len(c.names))]] }

func (c *c17) typ(depth int) *c17type {
	switch r := c.rng.Intn(10); {
	case r < 5 || depth > 1:
		return &c17type{base: c17bases[c.rng.Intn(len(c17bases))]}
	case r < 7:
		return &c17type{elem: c.typ(depth + 1)}
	case r < 8 && len(c.cur) > 0:
		return &c17type{rec: c.pickDefnOr()}
	case r < 9 && len(c.cur) > 0:
		return &c17type{ptr: &c17type{rec: c.pickDefnOr()}}
	}
	return &c17type{ptr: &c17type{base: c17bases[c.rng.Intn(len(c17bases))]}}
}

func (c *c17) pickDefnOr() *c17defn { return c.pickDefn() }

func (c *c17) declare(name string) {
	d := &c17defn{name: name, types: map[string]*c17type{}}
	if old := c.cur[name]; old != nil {
		d.gen = old.gen + 1
	}
	all := []string{"a", "b", "cc", "Dd", "e_f", "ünf", "g1"}
	c.rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	d.fields = all[:c.rng.Intn(6)+1]
	known := c.cur[name] != nil
	old := c.cur[name]
	c.cur[name] = d // a struct may refer to itself
	if !known {
		c.names = append(c.names, name)
	}
	var fs []string
	for i, f := range d.fields {
		t := c.typ(0)
		if t.rec == d { // by value: allowed by the language, but no instance could be complete; fine
		}
		d.types[f] = t
		fs = append(fs, fmt.Sprintf("(field %s: %s e:%d)", f, t.src(), i))
	}
	src := fmt.Sprintf("(struct %s [%s])", name, strings.Join(fs, " "))
	if c.rng.Intn(12) == 0 {
		// a declaration that fails leaves the old one in force
		c.run(strings.Replace(src, "])", " 17])", 1), -1)
		c.cur[name] = old
		if old == nil {
			delete(c.cur, name)
			c.names = c.names[:len(c.names)-1]
		}
		return
	}
	c.run(src, 1)
}

func (c *c17) base(b string) string {
	switch b {
	case "int64":
		return vPick(c.rng, []string{"0", "7", "-3", "(+ 1 2)", "(len [1 2])", "9223372036854775807"})
	case "string":
		return vPick(c.rng, []string{`""`, `"x"`, "`raw`", `(str 3)`, `(concat "a" "b")`})
	case "float64":
		return vPick(c.rng, []string{"1.5", "-0.0", "(/ 1.0 2)", "(* 2.0 3)"})
	}
	return vPick(c.rng, []string{"true", "false", "(== 1 1)"})
}

// value gives the text of a value of type t; "" if none can be made now.
func (c *c17) value(t *c17type, depth int) string {
	switch {
	case t.elem != nil:
		if c.rng.Intn(5) == 0 {
			return "[]"
		}
		n := 1 + c.rng.Intn(3)
		var es []string
		for i := 0; i < n; i++ {
			e := c.value(t.elem, depth+1)
			if e == "" || e == "nil" || (e == "[]" && i == 0) {
				return "[]"
			}
			es = append(es, e)
		}
		return "[" + strings.Join(es, " ") + "]"
	case t.ptr != nil:
		e := c.value(t.ptr, depth+1)
		if e == "" || e == "nil" || e == "[]" {
			return "nil"
		}
		return "(& " + e + ")"
	case t.rec != nil:
		var have []string
		for _, i := range c.insts {
			if i.defn == t.rec {
				have = append(have, i.name)
			}
		}
		if len(have) == 0 {
			return "nil"
		}
		return have[c.rng.Intn(len(have))]
	}
	return c.base(t.base)
}

// wrong gives the text of a value that is not of type t.
func (c *c17) wrong(t *c17type) string {
	for try := 0; ; try++ {
		o := c.typ(0)
		if try > 20 {
			o = &c17type{base: "char"}
		}
		switch c.rng.Intn(9) {
		case 0:
			return vPick(c.rng, []string{"(hash a:1)", "(list 1 2)", "(quote sym)", "'c'", "(raw \"r\")", "(fn [x] x)", "int64", "println"})
		case 1:
			if t.elem != nil && t.elem.base != "" { // right first element, wrong one later
				w := t.elem.base
				for w == t.elem.base {
					w = c17bases[c.rng.Intn(len(c17bases))]
				}
				return "[" + c.base(t.elem.base) + " " + c.base(w) + "]"
			}
		case 2:
			if t.rec != nil { // an instance of another, or an earlier, declaration
				for _, i := range c.insts {
					if i.defn != t.rec {
						return i.name
					}
				}
			}
		case 3:
			if t.rec != nil && (t.rec.name == "hash") {
				continue
			}
			return "(hash)"
		}
		if c.same(o, t) {
			continue
		}
		s := c.value(o, 0)
		if s == "" || s == "nil" || s == "[]" || strings.Contains(s, "[]") {
			continue
		}
		return s
	}
}

func (c *c17) same(a, b *c17type) bool {
	switch {
	case a.elem != nil || b.elem != nil:
		return a.elem != nil && b.elem != nil && c.same(a.elem, b.elem)
	case a.ptr != nil || b.ptr != nil:
		return a.ptr != nil && b.ptr != nil && c.same(a.ptr, b.ptr)
	case a.rec != nil || b.rec != nil:
		return a.rec == b.rec
	}
	return a.base == b.base
}

// rhs picks a field of d and a value for it; want as for run.
func (c *c17) rhs(d *c17defn) (field, val string, want int) {
	switch r := c.rng.Intn(10); {
	case r == 0:
		return vPick(c.rng, []string{"nope", "A", "aa", "zz9"}), c.base("int64"), -1
	case r < 5:
		f := d.fields[c.rng.Intn(len(d.fields))]
		return f, c.wrong(d.types[f]), -1
	case r == 5:
		return d.fields[c.rng.Intn(len(d.fields))], "nil", 1
	}
	f := d.fields[c.rng.Intn(len(d.fields))]
	return f, c.value(d.types[f], 0), 1
}

func (c *c17) construct() {
	d := c.pickDefn()
	c.n++
	name := fmt.Sprintf("i%d", c.n)
	want := 1
	var kv []string
	used := map[string]bool{}
	for k := c.rng.Intn(4); k > 0; k-- {
		f, val, w := c.rhs(d)
		if used[f] || (w < 0 && c.rng.Intn(3) > 0) {
			continue
		}
		used[f] = true
		if w < 0 {
			want = -1
		}
		kv = append(kv, f+":"+val)
	}
	src := fmt.Sprintf("(%s %s)", d.name, strings.Join(kv, " "))
	switch c.rng.Intn(5) {
	case 0:
		src = fmt.Sprintf("(let [mk %s] (mk %s))", d.name, strings.Join(kv, " "))
	case 1:
		src = fmt.Sprintf("((fn [] %s))", src)
	}
	if c.run(fmt.Sprintf("(def %s %s)", name, src), want) {
		c.adopt(name, d)
	}
}

func (c *c17) adopt(name string, d *c17defn) {
	x, err, _ := c.env.LexicalLookupSymbol(c.env.MakeSymbol(name), nil)
	h, ok := x.(*SexpHash)
	if err != nil || !ok {
		c.fail("no-instance", name, "the constructor returned "+vStr(x))
		return
	}
	c.insts = append(c.insts, &c17inst{name: name, defn: d, h: h})
	c.check("constructing " + name)
}

func (c *c17) write() {
	if len(c.insts) == 0 {
		return
	}
	i := c.insts[c.rng.Intn(len(c.insts))]
	f, val, want := c.rhs(i.defn)
	x := i.name
	forms := []string{
		"(hset X (quote F) V)", "{X.F = V}", "(set X.F V)", "{X[%F] = V}",
		"(let [pq (& X)] (hset (* pq) (quote F) V))", "((fn [r w] (hset r (quote F) w)) X V)",
		"(let [q X] (set q.F V))", "{h0 := (hash in: X); h0.in.F = V}",
		"(for [(def k 0) (< k 1) (set k (+ k 1))] (hset X (quote F) V))",
		"(map (fn [r] (hset r (quote F) V)) [X])", "{ar := [X]; ar0 := ar[0]; ar0.F = V}",
		"(apply hset [X (quote F) V])", "((fn [] (hset X %F V)))",
	}
	form := forms[c.rng.Intn(len(forms))]
	if strings.Contains(form, "{") && (strings.HasPrefix(val, "-") || strings.Contains(val, "(raw") || strings.Contains(val, "println") || strings.Contains(val, "int64")) {
		form = forms[0]
	}
	src := strings.NewReplacer("X", x, "F", f, "V", val).Replace(form)
	// definitions made on the way must not clash with the types of earlier ones
	src = strings.NewReplacer("h0", fmt.Sprintf("h%d", c.bump()), "ar0", fmt.Sprintf("s%d", c.n), "ar ", fmt.Sprintf("t%d ", c.n), "ar[", fmt.Sprintf("t%d[", c.n), "p :=", fmt.Sprintf("p%d :=", c.n), "(* p)", fmt.Sprintf("(* p%d)", c.n)).Replace(src)
	c.run(src, want)
}

func (c *c17) bump() int { c.n++; return c.n }

// other writes: wrong keys, pointers, decoders, elements
func (c *c17) odd() {
	if len(c.insts) == 0 {
		return
	}
	i := c.insts[c.rng.Intn(len(c.insts))]
	f := i.defn.fields[c.rng.Intn(len(i.defn.fields))]
	t := i.defn.types[f]
	switch c.rng.Intn(12) {
	case 0:
		c.run(fmt.Sprintf("(hset %s %s %s)", i.name, vPick(c.rng, []string{`"` + f + `"`, "3", "'a'", "1.5", "[1]"}), c.value(t, 0)), -1)
	case 1:
		c.run(fmt.Sprintf("{%s[%s] = %s}", i.name, vPick(c.rng, []string{`"` + f + `"`, "3"}), vPick(c.rng, []string{"1", `"s"`})), -1)
	case 2: // whole record through a pointer
		j := c.insts[c.rng.Intn(len(c.insts))]
		want := -1
		if j.defn == i.defn {
			want = 1
		}
		c.run(fmt.Sprintf("(derefSet (& %s) %s)", i.name, j.name), want)
	case 3: // a field through a pointer to it
		if c.field(i.h, f) != SexpNull {
			c.run(fmt.Sprintf("(derefSet (& %s.%s) %s)", i.name, f, c.wrong(t)), -1)
		}
	case 4:
		c.run(fmt.Sprintf("(derefSet (& %s.%s) %s)", i.name, f, c.value(t, 0)), 0)
	case 5:
		if t.elem != nil {
			w := c.wrong(t.elem)
			form := vPick(c.rng, []string{"(aset %s.%s 0 %s)", "{%s.%s[0] = %s}", "((fn [r w] (aset r 0 w)) %s.%s %s)"})
			if strings.HasPrefix(w, "-") || strings.Contains(w, "(raw") || strings.Contains(w, "println") || strings.Contains(w, "int64") {
				form = "(aset %s.%s 0 %s)"
			}
			c.run(fmt.Sprintf(form, i.name, f, w), -1)
		}
	case 6:
		if t.elem != nil {
			if a, ok := c.field(i.h, f).(*SexpArray); ok && len(a.Val) > 0 {
				if w := c.value(t.elem, 0); w != "nil" && !strings.Contains(w, "[]") {
					c.run(fmt.Sprintf("(aset %s.%s %d %s)", i.name, f, c.rng.Intn(len(a.Val)), w), 1)
				}
			}
		}
	case 7: // an array written after it was stored, through the name it had before
		if t.elem != nil && t.elem.base != "" {
			w := t.elem.base
			for w == t.elem.base {
				w = c17bases[c.rng.Intn(len(c17bases))]
			}
			n := c.bump()
			c.run(fmt.Sprintf("(def arr%d [%s %s])", n, c.base(t.elem.base), c.base(t.elem.base)), 1)
			c.run(fmt.Sprintf("(hset %s (quote %s) arr%d)", i.name, f, n), 1)
			c.run(fmt.Sprintf("(aset arr%d %d %s)", n, c.rng.Intn(2), c.base(w)), -1)
			c.run(fmt.Sprintf("(aset arr%d %d %s)", n, c.rng.Intn(2), c.base(t.elem.base)), 1)
		}
	case 8: // JSON
		d := c.pickDefn()
		c.decode(d, "unjson")
	case 9:
		d := c.pickDefn()
		c.decode(d, "unmsgpack")
	case 10:
		c.run(fmt.Sprintf("(hdel %s (quote %s))", i.name, f), 0)
	case 11: // appended to, then stored
		if t.elem != nil && t.elem.base != "" {
			w := t.elem.base
			for w == t.elem.base {
				w = c17bases[c.rng.Intn(len(c17bases))]
			}
			n := c.bump()
			c.run(fmt.Sprintf("(def arr%d [%s])", n, c.base(t.elem.base)), 1)
			c.run(fmt.Sprintf("(hset %s (quote %s) arr%d)", i.name, f, n), 1)
			c.run(fmt.Sprintf("(set %s.%s (append %s.%s %s))", i.name, f, i.name, f, c.base(w)), -1)
			c.run(fmt.Sprintf("(set %s.%s (append %s.%s %s))", i.name, f, i.name, f, c.base(t.elem.base)), 1)
		}
	}
}

func (c *c17) field(h *SexpHash, f string) Sexp {
	x, _ := h.HashGetDefault(c.env, c.env.MakeSymbol(f), SexpNull)
	return x
}

func (c *c17) decode(d *c17defn, how string) {
	m := map[string]interface{}{"Atype": d.name}
	want := 1
	j := `{"Atype":"` + d.name + `"`
	for _, f := range d.fields {
		t := d.types[f]
		if t.base == "" && !(t.elem != nil && t.elem.base != "") || c.rng.Intn(2) == 0 {
			continue
		}
		b := t.base
		if t.elem != nil {
			b = t.elem.base
		}
		if c.rng.Intn(4) == 0 {
			want = -1
			for o := b; b == o; {
				b = c17bases[c.rng.Intn(len(c17bases))]
			}
		}
		var gv interface{}
		var js string
		switch b {
		case "int64":
			gv, js = int64(5), "5"
		case "string":
			gv, js = "s", `"s"`
		case "float64":
			gv, js = 2.5, "2.5"
		default:
			gv, js = true, "true"
		}
		if t.elem != nil {
			gv, js = []interface{}{gv, gv}, "["+js+","+js+"]"
		}
		m[f] = gv
		j += `,"` + f + `":` + js
	}
	if c.rng.Intn(6) == 0 {
		m["nope"], want = int64(1), -1
		j += `,"nope":1`
	}
	j += "}"
	var raw []byte
	if how == "unjson" {
		raw = []byte(j)
	} else {
		var err error
		raw, err = GoToMsgpack(m)
		if err != nil {
			c.fail("encode", how, err.Error())
			return
		}
	}
	n := c.bump()
	c.env.AddGlobal(fmt.Sprintf("raw%d", n), &SexpRaw{Val: raw})
	c.log = append(c.log, fmt.Sprintf("; raw%d = %s", n, j))
	name := fmt.Sprintf("i%d", n)
	if c.run(fmt.Sprintf("(def %s (%s raw%d))", name, how, n), want) {
		c.adopt(name, d)
	}
}

// C17: random histories of struct declarations, constructions and writes.
func TestVerifC17(t *testing.T) {
	v := vBegin(t, "C17", "random histories of struct declarations and redeclarations (fields of base types, slices, pointers, other structs, self references; failing declarations), constructions, writes through hset, dot paths, infix assignment, indexing, pointers, closures, map, apply, loops, element writes, JSON and msgpack decoding, with well-typed and ill-typed values and unknown fields; after every step the structure of each live instance is compared with the declaration that was in force when it was made, every ill-typed operation must have been rejected without any change, every well-typed one accepted. Non-trivial: distinct operations.")
	defer v.finish()
	for v.more() {
		c := &c17{v: v, rng: v.rng, env: vNewEnv(), cur: map[string]*c17defn{}}
		c.declare("Car")
		if len(c.names) == 0 {
			continue
		}
		if v.rng.Intn(2) == 0 {
			c.declare("Door")
		}
		steps := 10 + v.rng.Intn(50)
		for s := 0; s < steps && v.more(); s++ {
			switch r := v.rng.Intn(20); {
			case r < 1:
				c.declare(vPick(v.rng, []string{"Car", "Door", "Wheel"}))
			case r < 6:
				c.construct()
			case r < 13:
				c.write()
			default:
				c.odd()
			}
		}
		c.env.Close()
	}
}
