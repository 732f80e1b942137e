package zygo

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
)

// forms that fail while they run (the forms before them have run) ...
var vRunFails = []string{
	`(boom)`, `(kaboom)`, `nosuchname`, `(nosuchname 1)`, `(idf)`, `(idf 1 2)`, `(+ 1 "x")`, `(/ 1 0)`, `(mod 1 0)`, `(5 1)`,
	`(aget garr 99)`, `(hget ghash zz:)`, `(assert false)`, `(car 5)`, `(deepboom 20)`, `(tailboom 60)`, `(loopboom 3)`, `(letboom 2)`,
	`(boomarg (boom) 1)`, `((fn [a b] (boom)) 1 2)`, `((boom) 1)`, `(map (fn [zx] (boom)) [1 2])`, `(map (fn [zx] (cond (== zx 2) (boom) zx)) (list 1 2 3))`,
	`(apply boom [])`, `(apply idf [1 2 3])`, `(map boom [1])`, `(lzy (boom))`, `(lzy nosuchname)`, `(lzy (lzy (boom)))`,
	`(eval (quote (boom)))`, `(eval (quote (let [a] 1)))`, `(eval (quote (eval (quote (boom)))))`, `(eval (quote (def)))`,
	`(hosteval "(boom)")`, `(hosteval "(begin 1 2")`, `(hosteval "(let [a] 1)")`, `(hosteval "(mbad)")`, `(hostapply (fn [] (boom)))`, `(hostapply boom)`,
	`(struct Foo9 [(boom)])`, `(struct Rec [(boom)])`, `(struct Rec 7)`, `(Rec A: "s")`, `(Rec Z: 1)`, `(set grec.A "s")`, `{grec.A = "s"}`, `{grec.Z = 1}`, `{garr[99]}`, `{garr[99] = 1}`,
	`gpkg.inv`, `(gpkg.Nope)`, `{gpkg.inv = 3}`, `(unjson (raw "{bad"))`, `(unjson (raw "{\"Atype\":\"Rec\",\"A\":\"s\",\"zKeyOrder\":[\"A\"]}"))`,
	"(expectError \"x\" (boom))", `(expectError "x" 3)`, `^(a ~(boom))`, `^[1 ~@(boom)]`, `^(a ~@5)`, `(package px { A := 1; (boom) })`,
	`(interface ifc [(boom)])`, `(var zv int64 "x")`, `(func zf [a:nosuchtype] [n:int64])`, `(hash a: (boom))`, `(hset ghash [1 (boom)] 1)`, `(array 3 (boom))`,
	`(for [(def i 0) (boom) (def i (+ i 1))] i)`, `(for [(boom) true 1] 1)`, `(for [(def i 0) (< i 3) (boom)] i)`, `{for k, v := range ghash { (boom) } }`, `{for k := range garr { (boom) } }`,
	`(return (boom))`, `(let [a 1 b (boom)] a)`, `(letseq [a 1 b (boom)] a)`, `(def zq (boom))`, `(set gnum (boom))`, `(mdef za zb (list 1))`, `(mdef za zb (boom))`, `{za, zb = 1, (boom)}`,
	`(and 1 (boom))`, `(or 0 (boom))`, `(cond (boom) 1 2)`, `(cond false 1 (boom))`, `(newScope (boom))`, `(let [] (newScope (let [q 1] (boom))))`,
	`(regexpCompile "(")`, `(str2sym 5)`, `(slice garr 5 9)`, `(derefSet (& grec) 5)`, `(hdel ghash)`, `(-> ghash zz:)`, `(concat [1] 2)`, `(append 1 2)`, `(sprintf)`, `(timeit (fn [] (boom)) 1)`,
}

// ... and forms that do not compile, or do not expand: nothing of the text runs.
var vCompileFails = []string{
	`(let [a] 1)`, `(let 5 1)`, `(letseq [a 1 b] 1)`, `(def)`, `(def 5 5)`, `(fn)`, `(fn 5)`, `(defn)`, `(defn 5 [] 1)`, `(for 1 2)`, `(for [1 2] 3)`, `(cond)`,
	`(break nosuchlabel:)`, `(mbad)`, `(mbad2 1)`, `(mbad3)`, `(mmid)`, `(defmac)`, `(defmac mq)`, `(macexpand (mbad))`, `(mdef)`, `(quote)`, `(fn [5] 1)`,
}

// texts that do not parse
var vParseFails = []string{
	`(begin 1`, `[1 2`, `{1 + `, `"abc`, "`raw", `(a b]`, `(a))`, `{ 1 + 2 ) }`, `/* open`, `(quote`, `'a`, `(1 \ 2 3)`, `(]`, `"bad\q"`, `(+ 1 2) (`, `(def zz9 1) )`, `{ ] }`, `(^`, `(~@`, `0x`, `(hash a: ]`, `(list 1 #`,
}

const vBoomSetup = `
(defn deepboom [n] (cond (== n 0) (boom) (+ 1 (deepboom (- n 1)))))
(defn tailboom [n] (cond (== n 0) (boom) (let [m (- n 1)] (tailboom m))))
(defn loopboom [n] (for [(def i 0) (< i 9) (def i (+ i 1))] (for [(def j 0) (< j 9) (def j (+ j 1))] (cond (== (+ i j) n) (boom) nil))))
(defn letboom [n] (let [a n] (letseq [b a c (+ b 1)] (newScope (def d 1) (boom)))))
(defn boomarg [a b] a)
(defmac mbad [] (boom))
(defmac mbad2 [x] (let [y 1] (newScope (nosuchname x))))
(defmac mbad3 [] ^(let [a] 1))
(def gcount 0)
`

// vBoomEnv has everything the failing forms name.
func vBoomEnv() *Zlisp {
	env := vNewEnv()
	env.AddFunction("boom", func(env *Zlisp, name string, args []Sexp) (Sexp, error) { return SexpNull, errors.New("boom!") })
	env.AddFunction("kaboom", func(env *Zlisp, name string, args []Sexp) (Sexp, error) { panic("kaboom!") })
	env.AddFunction("hosteval", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		return env.EvalString(args[0].(*SexpStr).S)
	})
	env.AddFunction("hostapply", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		return env.Apply(args[0].(*SexpFunction), args[1:])
	})
	// a host function that carries on after the failure
	env.AddFunction("hosttry", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		if s, ok := args[0].(*SexpStr); ok {
			if _, err := env.EvalString(s.S); err == nil {
				return &SexpStr{S: "swallowed"}, nil
			}
			return &SexpInt{Val: -1}, nil
		}
		if _, err := env.Apply(args[0].(*SexpFunction), []Sexp{}); err == nil {
			return &SexpStr{S: "swallowed"}, nil
		}
		return &SexpInt{Val: -1}, nil
	})
	for _, s := range []string{vSetup, vBoomSetup} {
		if o := vEval(env, s); o.kind() != "VALUE" {
			panic("setup: " + o.show())
		}
	}
	return env
}

// vGlobals describes every binding of the outermost scope, types apart.
func vGlobals(env *Zlisp) map[string]string {
	m := map[string]string{}
	sc, ok := env.linearstack.elements[0].(*Scope)
	if !ok {
		return m
	}
	for num, x := range sc.Map {
		name := env.revsymtable[num]
		switch y := x.(type) {
		case *RegisteredType:
			m[name] = "type " + y.DisplayAs
			if y.UserStructDefn != nil {
				m[name] = "struct " + vPlain(y.UserStructDefn)
			}
		case *SexpFunction:
			m[name] = fmt.Sprintf("fn %p", y)
		default:
			m[name] = vPlain(x)
		}
	}
	return m
}

func vDiff(a, b map[string]string, skip func(string) bool) string {
	var out []string
	for k, x := range a {
		if y, ok := b[k]; !skip(k) && (!ok || x != y) {
			if !ok {
				y = "(gone)"
			}
			out = append(out, fmt.Sprintf("%s was %.80s, is %.80s", k, x, y))
		}
	}
	for k, y := range b {
		if _, ok := a[k]; !ok && !skip(k) {
			out = append(out, fmt.Sprintf("%s is new: %.80s", k, y))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func noSkip(string) bool { return false }

func TestVerifC05(t *testing.T) {
	v := vBegin(t, "C05", "every failing form (run time, compile time, expansion, parse; see vRunFails, vCompileFails, vParseFails) in every context of vContexts, evaluated as text, as loaded text, from inside a host function that reports or absorbs the failure, in clones and duplicates; and an error injected before the k-th instruction of forms in contexts and of random core programs. After each: the error came back, the interpreter is at rest, empty input is nil, every definition made before is intact and none made after it exists, random other forms give what they give in a fresh interpreter, and failing again does not grow the interpreter")
	defer v.finish()

	// what the forms give in an interpreter where nothing failed
	plain := map[string]string{}
	{
		env := vBoomEnv()
		for _, f := range vForms {
			if o := vEval(env, f); o.kind() == "VALUE" {
				plain[f] = vPlain(o.Val)
			}
		}
	}
	if len(plain) < len(vForms)*3/4 {
		v.fail("setup", fmt.Sprintf("only %d of %d forms evaluate", len(plain), len(vForms)), "")
		return
	}
	var good []string
	for _, f := range vForms {
		if _, ok := plain[f]; ok {
			good = append(good, f)
		}
	}
	base := map[*Zlisp]string{}
	after := func(env *Zlisp, n int, replay string) {
		if r := vRest(env); r != "" && r != base[env] {
			v.fail("rest", "after the failure: "+r, replay)
			return
		}
		o := vEval(env, vPick(v.rng, vEmpty))
		if o.Err != nil || o.Panic != "" || o.Val != SexpNull {
			v.fail("empty-input", "empty input after the failure gave "+o.show(), replay)
		}
		for ; n > 0; n-- {
			f := vPick(v.rng, good)
			o := vEval(env, f)
			if o.kind() != "VALUE" || vPlain(o.Val) != plain[f] {
				v.fail("later", fmt.Sprintf("after the failure %s gives %s, not %s", f, o.show(), plain[f]), replay+"\n"+f)
			}
		}
		if r := vRest(env); r != "" && r != base[env] {
			v.fail("rest", "after the failure and more forms: "+r, replay)
		}
	}
	check := func(env *Zlisp, o vOut, src string, n int) bool {
		v.count(src)
		switch o.kind() {
		case "ERROR":
		case "BUDGET", "HANG":
			v.fail("hang", o.show(), src)
			return false
		case "PANIC":
			v.fail("panic", o.show(), src)
			return false
		default:
			v.fail("swallowed", "the failure gave "+o.show(), src)
			return false
		}
		after(env, n, src)
		return true
	}

	// 1. failing forms in contexts
	var envs [3]*Zlisp
	remake := func() {
		envs[0] = vBoomEnv()
		envs[1] = envs[0].Clone()
		envs[2] = vBoomEnv()
		base = map[*Zlisp]string{envs[1]: vRest(envs[1])} // a clone works in a scope of its own
	}
	remake()
	one := func(i int, f string, c struct{ name, src, want string }, runs bool) {
		if i%40 == 0 {
			remake()
		}
		env := envs[i%3]
		ctx := strings.Replace(c.src, "%s", f, 1)
		src := fmt.Sprintf("(def gcount %d)\n%s\n(def gcount (quote after))", i+1, ctx)
		v.at(src)
		before := vGlobals(env)
		var o vOut
		switch i % 4 {
		case 0, 1:
			o = vEval(env, src)
		case 2:
			o = vGuard(200000, func() (Sexp, error) {
				if err := env.LoadString(src); err != nil {
					return SexpNull, err
				}
				return env.Run()
			})
		case 3:
			o = vGuard(200000, func() (Sexp, error) {
				env.parser.ResetAddText(strings.NewReader(src))
				xs, err := env.parser.ParseTokens()
				if err != nil {
					return SexpNull, err
				}
				return env.EvalExpressions(xs)
			})
		}
		if !check(env, o, src, 2) {
			remake()
			return
		}
		now := vGlobals(env)
		want := before["gcount"]
		if runs {
			want = fmt.Sprint(i + 1)
		}
		// an argument may be compiled only when the call is made
		if now["gcount"] != want && (runs || now["gcount"] != fmt.Sprint(i+1)) {
			v.fail("definitions", fmt.Sprintf("gcount should be %s and is %s", want, now["gcount"]), src)
		}
		probes := func(k string) bool {
			// what the failing form or the probes define themselves
			return k == "gcount" || before[k] == "" || strings.HasPrefix(k, "zz") || len(k) <= 3 || strings.HasPrefix(k, "loc")
		}
		if d := vDiff(before, now, probes); d != "" && !vRedefines(d) {
			v.fail("definitions", "after the failure "+d, src)
		}
	}
	i := 0
	for _, f := range vRunFails {
		for _, c := range vContexts {
			if !v.frac(0.45) && c.name != "top" && v.rng.Intn(2) == 0 {
				continue
			}
			one(i, f, c, true)
			i++
		}
	}
	for _, f := range vCompileFails {
		for _, c := range vContexts {
			if c.name == "eval" || c.name == "infix" {
				continue
			}
			one(i, f, c, false)
			i++
		}
	}

	// 2. a host function that carries on: the evaluation it is part of is untouched
	env := vBoomEnv()
	for _, f := range append(append([]string{}, vRunFails...), vCompileFails...) {
		if strings.HasPrefix(f, "(return") || strings.HasPrefix(f, "(break") {
			continue
		}
		for k, c := range vContexts {
			if v.frac(0.6) && v.rng.Intn(3) > 0 {
				continue
			}
			call := fmt.Sprintf("(hosttry %q)", f)
			if k%2 == 0 {
				call = fmt.Sprintf("(hosttry (fn [] (eval (quote %s))))", f)
			}
			src := strings.Replace(c.src, "%s", call, 1)
			v.at(src)
			o := vEval(env, src)
			want := vPlainText(strings.Replace(c.want, "%s", "-1", 1))
			if o.kind() != "VALUE" || vPlain(o.Val) != want {
				v.fail("absorbed", fmt.Sprintf("%s: got %s, want %s", c.name, o.show(), want), src)
				env = vBoomEnv()
			} else if r := vRest(env); r != "" {
				v.fail("rest", "after the absorbed failure: "+r, src)
				env = vBoomEnv()
			}
			v.count(src)
		}
	}

	// 3. parse errors
	env = vBoomEnv()
	parse := func(src string) {
		v.at(src)
		before := vGlobals(env)
		o := vEval(env, src)
		if !check(env, o, src, 1) {
			env = vBoomEnv()
			return
		}
		if d := vDiff(before, vGlobals(env), func(k string) bool { return before[k] == "" || len(k) <= 3 || strings.HasPrefix(k, "loc") }); d != "" && !vRedefines(d) {
			v.fail("definitions", "after a parse error "+d, src)
		}
	}
	for _, p := range vParseFails {
		parse(p)
		parse("(def gcount 77) " + p)
		parse("(list 1 2)\n" + p + "\n(list 3 4)")
	}
	for _, f := range good {
		if !strings.ContainsAny(f[:1], "([{\"`") || !strings.ContainsAny(f[len(f)-1:], ")]}\"`") || len(f) < 3 {
			continue
		}
		n := 1 + v.rng.Intn(len(f)-1)
		if strings.Count(f[:n], "\"")%2 == 0 && strings.Count(f[:n], "`")%2 == 0 && strings.Count(f[:n], "(")+strings.Count(f[:n], "[")+strings.Count(f[:n], "{") > strings.Count(f[:n], ")")+strings.Count(f[:n], "]")+strings.Count(f[:n], "}") {
			parse("(def gcount 78) " + f[:n])
		}
	}

	// 4. no growth
	for _, f := range append(append(append([]string{}, vRunFails...), vCompileFails...), vParseFails...) {
		if v.frac(0.8) {
			break
		}
		env := vBoomEnv()
		loop := func(k int) (int, string) {
			for i := 0; i < k; i++ {
				vEval(env, f)
			}
			return vSize(env)
		}
		loop(3)
		n1, w1 := loop(1)
		n2, w2 := loop(10)
		if n2 > n1 {
			v.fail("growth", fmt.Sprintf("failing 10 more times grew the interpreter from %s to %s", w1, w2), f)
		}
	}

	// 5. an error at any instruction
	for i := 0; v.more(); i++ {
		if i%2 == 0 {
			v.c05inject(good, after)
		} else {
			v.c05program(i)
		}
	}
}

// vRedefines: a form of its own accord gives these another value.
func vRedefines(d string) bool {
	for _, x := range strings.Split(d, "; ") {
		ok := false
		for _, n := range []string{"gnum", "ghash", "grec", "garr", "Rec2", "Rec3", "pk3", "fdecl"} {
			ok = ok || strings.HasPrefix(x, n+" ")
		}
		if !ok {
			return false
		}
	}
	return true
}

type vInjected struct{ k int }

func (e vInjected) Error() string { return fmt.Sprintf("injected at step %d", e.k) }

// vInject runs f and fails its k-th instruction; at is called just before.
func vInject(k int, at func(), f func() (Sexp, error)) (o vOut, steps int) {
	old := VerifStepHook
	defer func() { VerifStepHook = old }()
	func() {
		defer func() {
			if p := recover(); p != nil {
				o.Panic = fmt.Sprint(p)
			}
		}()
		VerifStepHook = func(*Zlisp) error {
			steps++
			if steps == k {
				at()
				return vInjected{k}
			}
			if steps > 400000 {
				return vBudget{}
			}
			return nil
		}
		o.Val, o.Err = f()
	}()
	return
}

func (v *vRun) c05inject(good []string, after func(*Zlisp, int, string)) {
	f := vPick(v.rng, good)
	c := vPick(v.rng, vContexts)
	src := fmt.Sprintf("(def gcount 5)\n%s\n(def gcount 6)\n%s", strings.Replace(c.src, "%s", f, 1), f)
	v.at(src)
	_, total := vInject(0, func() {}, func() (Sexp, error) { return vBoomEnv().EvalString(src) })
	_, setup := vInject(0, func() {}, func() (Sexp, error) { vBoomEnv(); return SexpNull, nil })
	total -= setup
	if total <= 0 {
		return
	}
	env := vBoomEnv()
	for n := 0; n < 12; n++ {
		k := 1 + v.rng.Intn(total)
		if n%3 == 2 {
			k = total - v.rng.Intn(1+total/4)
		}
		var at map[string]string
		replay := fmt.Sprintf("%s\n;; error injected before instruction %d of %d", src, k, total)
		o, steps := vInject(k, func() { at = vGlobals(env) }, func() (Sexp, error) { return env.EvalString(src) })
		v.count(replay)
		if o.Panic != "" {
			v.fail("panic", o.Panic, replay)
			return
		}
		if steps < k {
			continue
		}
		if o.Err == nil {
			v.fail("swallowed", "the injected error gave "+o.show(), replay)
			return
		}
		if !strings.Contains(o.Err.Error(), "injected at step") {
			v.fail("error", "the injected error came back as "+o.Err.Error(), replay)
		}
		if d := vDiff(at, vGlobals(env), func(k string) bool { return strings.HasPrefix(k, "Rec") && len(k) == 4 || k == "loc1" }); d != "" {
			v.fail("definitions", "the failure itself changed bindings: "+d, replay)
		}
		after(env, 2, replay)
	}
}

// c05program: an error at any instruction of a random core program, which then
// runs again in the same interpreter, form by form, as in a fresh one.
func (v *vRun) c05program(i int) {
	g := newPgen(v.rng, c02mixes[i%len(c02mixes)])
	forms := g.program(3+v.rng.Intn(5), 1+v.rng.Intn(4))
	src := strings.Join(forms, "\n")
	v.at(src)
	tw := newTwin()
	o, total := vInject(0, func() {}, func() (Sexp, error) { return tw.env.EvalString(src) })
	if o.Panic != "" || total == 0 {
		return
	}
	for n := 0; n < 4; n++ {
		k := 1 + v.rng.Intn(total)
		tw := newTwin()
		var at map[string]string
		replay := fmt.Sprintf("%s\n;; error injected before instruction %d of %d", src, k, total)
		o, steps := vInject(k, func() { at = vGlobals(tw.env) }, func() (Sexp, error) { return tw.env.EvalString(src) })
		v.count(replay)
		if o.Panic != "" {
			v.fail("panic", o.Panic, replay)
			return
		}
		if steps < k {
			continue
		}
		if o.Err == nil || !strings.Contains(o.Err.Error(), "injected at step") {
			v.fail("swallowed", "the injected error gave "+o.show(), replay)
			return
		}
		if d := vDiff(at, vGlobals(tw.env), noSkip); d != "" {
			v.fail("definitions", "the failure itself changed bindings: "+d, replay)
		}
		if r := vRest(tw.env); r != "" {
			v.fail("rest", "after the injected error: "+r, replay)
			return
		}
		if o := vEval(tw.env, ""); o.Err != nil || o.Val != SexpNull {
			v.fail("empty-input", "empty input after the failure gave "+o.show(), replay)
		}
		// programs define before they use: another program, against the reference
		tw2 := newTwin()
		forms2 := newPgen(v.rng, c02mixes[(i+n)%len(c02mixes)]).program(3, 3)
		all := append([]string{src}, forms2...)
		_, _ = vInject(1+v.rng.Intn(total), func() {}, func() (Sexp, error) { return tw2.env.EvalString("(begin " + src + ")") })
		tw2 = c05fresh(tw2)
		for _, f := range forms2 {
			o, want, ok := tw2.step(f)
			if !ok {
				break
			}
			if msg := tw2.compare(o, want); msg != "" {
				v.fail("later", "after an injected failure: "+msg, strings.Join(all, "\n"))
				return
			}
		}
	}
}

// c05fresh clears the outermost bindings the failed program made, so that the
// reference may start from nothing.
func c05fresh(t *vTwin) *vTwin {
	f := newTwin()
	have := vGlobals(f.env)
	sc := t.env.linearstack.elements[0].(*Scope)
	for num := range sc.Map {
		if _, ok := have[t.env.revsymtable[num]]; !ok {
			delete(sc.Map, num)
		}
	}
	f.env = t.env
	f.install(t.env)
	return f
}
