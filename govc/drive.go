package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (w *World) effOf(fn *ssa.Function) map[string]bool { return w.eff[fn] }

func (w *World) noteHeap(h string, t types.Type) {
	if _, ok := heapTypes[h]; !ok {
		heapTypes[h] = t
	}
}

func (w *World) evalPos() token.Pos { return token.NoPos }

var recCache = map[*ssa.Function]bool{}

func (w *World) recursive(fn *ssa.Function) bool {
	if r, ok := recCache[fn]; ok {
		return r
	}
	r := false
	for _, c := range w.calls[fn] {
		if w.reach(c)[fn] {
			r = true
		}
	}
	recCache[fn] = r
	return r
}

// heapNames resolves a heap designator used in contracts: T.f, []T, map[K]V, *T (cells), or a global.
func (w *World) heapNames(d string) []string {
	d = strings.TrimSpace(d)
	s := &Session{w: w}
	if strings.HasPrefix(d, "[]") {
		t := s.parseType(d).Underlying().(*types.Slice)
		return []string{w.elemHeap(t.Elem())}
	}
	if strings.HasPrefix(d, "map[") {
		a, b, c := w.mapHeaps(s.parseType(d))
		return []string{a, b, c}
	}
	if strings.HasPrefix(d, "*") {
		t := s.parseType(d).Underlying().(*types.Pointer)
		return []string{w.cellHeap(t.Elem())}
	}
	if i := strings.LastIndex(d, "."); i > 0 {
		t := s.parseType(d[:i])
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(serr("not a struct: %s", d))
		}
		for j := 0; j < st.NumFields(); j++ {
			if d[i+1:] == "*" {
				continue
			}
			if st.Field(j).Name() == d[i+1:] {
				return []string{w.fieldHeap(t, j)}
			}
		}
		if d[i+1:] == "*" {
			var out []string
			for j := 0; j < st.NumFields(); j++ {
				out = append(out, w.fieldHeap(t, j))
			}
			return out
		}
		panic(serr("no field %s", d))
	}
	if g := w.pkg.Var(d); g != nil {
		w.noteHeap("G!"+d, deref(g.Type()))
		return []string{"G!" + d}
	}
	panic(serr("bad heap designator %q", d))
}

// ---------- ghost error propagation ----------

func lastErr(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	t := sig.Results().At(n - 1).Type()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return n - 1
	}
	return -1
}

func (s *Session) ghostCall(f *Frame, st *State, c *ssa.CallCommon, key string, callee *ssa.Function, args []Val, res Val, in ssa.Instruction) {
	if !s.errProp || !f.top {
		return
	}
	i := lastErr(c.Signature())
	if i < 0 || res == nil {
		return
	}
	if s.errOnly != nil && !s.errOnly[key] {
		return
	}
	if s.errExcept[key] {
		s.trusted["the error of "+key+" is not a failure in "+s.curName] = true
		return
	}
	if s.spec.NoFail[key] {
		s.trusted["the error of "+key+" is never a failure"] = true
		return
	}
	if key == "fmt.Errorf" || key == "errors.New" {
		return
	}
	var ev Term
	if t, ok := res.(Tuple); ok {
		ev = s.term(t[i])
	} else {
		ev = s.term(res)
	}
	cur := s.heapGet(st, "L!errflag", "Bool")
	s.heapSet(st, "L!errflag", Or(cur, Not(Eq(itag(ev), IntLit(0)))))
	s.errCalls++
}

// ---------- verification of one function ----------

type FnResult struct {
	Name  string
	Sess  *Session
	Err   string
	Obs   []*Oblig
	Genms int64
	Spec  *FnSpec
}

func (w *World) verify(sp *Spec, fs *FnSpec) (r *FnResult) {
	t0 := time.Now()
	s := NewSession(w, sp, fs.Name, fs.BV)
	r = &FnResult{Name: fs.Name, Sess: s, Spec: fs}
	defer func() {
		r.Genms = time.Since(t0).Milliseconds()
		if e := recover(); e != nil {
			switch x := e.(type) {
			case unsupported:
				r.Err = "outside the verifier's subset: " + x.msg
			case specErr:
				r.Err = "contract cannot be interpreted: " + x.msg
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(e)
				}
				r.Err = fmt.Sprintf("internal: %v", e)
			}
		}
		r.Obs = s.obs
	}()
	fn := w.fns[fs.Name]
	if fs.Fn != nil {
		fn = fs.Fn
	}
	if fn == nil {
		r.Err = "function under contract not found in the source"
		return
	}
	s.curName, s.swept, s.guard = fs.Name, fs.Swept, fs.Guard
	s.safe, s.safeDeep, s.safeNoNil = fs.Safe, fs.SafeDeep, fs.SafeNoNil
	s.errProp, s.errExcept, s.errOnly = fs.ErrProp, fs.ErrExcept, fs.ErrOnly
	s.inlineSize, s.inlineDepth = fs.InlineSize, fs.InlineDepth
	s.noInline = map[string]bool{}
	for _, n := range fs.NoInline {
		s.noInline[n] = true
	}
	s.forceInline = map[string]bool{}
	for _, n := range fs.ForceInline {
		s.forceInline[n] = true
	}
	s.curTop = fn
	st := &State{pc: True, heap: map[string]Term{}, ep: s.newEpoch()}
	st.alloc = s.fresh("alloc", "Int")
	s.alloc0 = st.alloc
	s.startAlloc = st.alloc
	s.lines = append(s.lines, fmt.Sprintf("(assert (>= %s 1000000))", st.alloc.S))
	if len(fs.Params) != len(fn.Params) {
		r.Err = fmt.Sprintf("contract binds %d parameters, function has %d", len(fs.Params), len(fn.Params))
		return
	}
	var args []Val
	env := &specEnv{s: s, vars: map[string]SVal{}, cur: st, old: st}
	for i, p := range fn.Params {
		v := s.fresh("arg:"+fs.Params[i], s.sort(p.Type()))
		s.wf(st, p.Type(), v)
		args = append(args, v)
		env.vars[fs.Params[i]] = SVal{v, p.Type()}
		if i == 0 && fs.Iface != nil {
			env.vars[fs.Params[i]] = SVal{s.makeIface(p.Type(), v), fs.Iface}
		}
	}
	var binds []Val
	for i, fv := range fn.FreeVars {
		v := s.fresh("fv:"+fv.Name(), s.sort(fv.Type()))
		s.wf(st, fv.Type(), v)
		if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
			s.assume(st, Not(Eq(v, IntLit(0))))
		}
		binds = append(binds, v)
		if p, ok := fv.Type().Underlying().(*types.Pointer); ok {
			// free variable: readable in contracts as its current content
			if _, isS := p.Elem().Underlying().(*types.Struct); !isS {
				a := Addr{kind: 'C', heap: w.varCell(fv, p.Elem()), ref: v, root: p.Elem(), typ: p.Elem()}
				env.vars[fv.Name()] = SVal{s.load(st, a), p.Elem()}
			} else {
				env.vars[fv.Name()] = SVal{v, fv.Type()}
			}
		} else {
			env.vars[fv.Name()] = SVal{v, fv.Type()}
		}
		_ = i
	}
	for _, a := range sp.Axioms {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(specErr); ok {
						return // not applicable in this mode
					}
					if _, ok := e.(unsupported); ok {
						return
					}
					panic(e)
				}
			}()
			s.assume(st, s.evalBool(env, a.Expr))
		}()
	}
	for _, c := range fs.Requires {
		s.assume(st, s.evalBool(env, c.Expr))
	}
	for _, c := range fs.Assumes {
		s.assume(st, s.evalBool(env, c.Expr))
		s.trusted["assumed in "+fs.Name+": "+c.Text] = true
	}
	for _, c := range fs.Shows {
		s.shows = append(s.shows, c.Label+"\x00"+env.eval(c.Expr).T.S)
	}
	s.obs = append(s.obs, &Oblig{Fn: fs.Name, Kind: "cover", Name: "cover:requires", Line: len(s.lines), Cover: true, Goal: True})
	if s.errProp {
		st.heap["L!errflag"] = False
		s.heapSort["L!errflag"] = "Bool"
	}
	s.guardEnv = env
	s.atCalls = append([]AtCall{}, fs.AtCalls...)
	f := s.run(fn, st, args, binds, true, fs, nil)
	for _, ac := range s.atCalls {
		if ac.hits == 0 {
			r.Err = "no call of " + ac.Callee + " (atcall " + ac.Label + ")"
			return
		}
	}
	if len(f.rets) == 0 && len(fs.Ensures) > 0 {
		r.Err = "no return is reachable"
		return
	}
	var live []Term
	for ri, rt := range f.rets {
		live = append(live, rt.st.pc)
		e2 := &specEnv{s: s, vars: map[string]SVal{}, cur: rt.st, old: f.entry, post: true}
		for k, v := range env.vars {
			e2.vars[k] = v
		}
		for i, n := range fs.Results {
			if i < len(rt.vals) {
				e2.vars[n] = SVal{s.term(rt.vals[i]), fn.Signature.Results().At(i).Type()}
			}
		}
		for _, c := range fs.Ensures {
			g := s.evalBool(e2, c.Expr)
			// do not accumulate postconditions as assumptions between returns
			goal := Imp(rt.st.pc, g)
			o := &Oblig{Fn: fs.Name, Kind: "postcondition", Name: fmt.Sprintf("ensures:%s@return%d", c.Label, ri), Line: len(s.lines), Goal: goal, Shows: s.shows}
			if goal.S == "true" {
				o.Result, o.Solver = "unsat", "simplifier"
			}
			s.obs = append(s.obs, o)
		}
		if fs.Modifies != nil {
			w.frameObligations(s, fs, f, rt, ri)
		}
		if s.errProp {
			i := lastErr(fn.Signature)
			if i < 0 {
				r.Err = "errprop on a function that returns no error"
				return
			}
			ev := s.term(rt.vals[i])
			fl := s.heapGet(rt.st, "L!errflag", "Bool")
			goal := Imp(rt.st.pc, Imp(fl, Not(Eq(itag(ev), IntLit(0)))))
			o := &Oblig{Fn: fs.Name, Kind: "errprop", Name: fmt.Sprintf("error-propagated@return%d", ri), Line: len(s.lines), Goal: goal}
			if goal.S == "true" {
				o.Result, o.Solver = "unsat", "simplifier"
			}
			s.obs = append(s.obs, o)
		}
	}
	s.obs = append(s.obs, &Oblig{Fn: fs.Name, Kind: "cover", Name: "cover:returns", Line: len(s.lines), Cover: true, Goal: Or(live...)})
	return
}

// instances: one contract per function that a call under the dynamic contract can reach.
func (w *World) instances(sp *Spec, fs *FnSpec) ([]*FnSpec, error) {
	var fns []*ssa.Function
	var iface types.Type
	if strings.HasPrefix(fs.Name, "func:") {
		tn, ok := w.tpkg.Scope().Lookup(strings.TrimPrefix(fs.Name, "func:")).(*types.TypeName)
		if !ok {
			return nil, fmt.Errorf("no such function type")
		}
		fns = w.taken[w.ts(tn.Type().Underlying())]
	} else {
		k := strings.LastIndex(fs.Name, ").")
		if k < 0 || fs.Name[0] != '(' {
			return nil, fmt.Errorf("a dynamic contract is for (Interface).Method or func:Type")
		}
		tn, ok := w.tpkg.Scope().Lookup(fs.Name[1:k]).(*types.TypeName)
		if !ok {
			return nil, fmt.Errorf("no such interface")
		}
		iface = tn.Type()
		it, ok := iface.Underlying().(*types.Interface)
		if !ok {
			return nil, fmt.Errorf("no such interface")
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == fs.Name[k+2:] {
				fns = w.implementations(iface, it.Method(i))
			}
		}
	}
	if len(fns) == 0 {
		return nil, fmt.Errorf("no implementation")
	}
	var out []*FnSpec
	for _, fn := range fns {
		c := *fs
		c.Fn, c.Iface, c.Dynamic = fn, iface, false
		c.Name = w.shortName(fn)
		c.Loops = map[int][]Clause{}
		if own := sp.Funcs[c.Name]; own != nil && !own.Trusted {
			c.Loops, c.NoInline, c.ForceInline = own.Loops, own.NoInline, own.ForceInline
			c.InlineSize, c.InlineDepth, c.Timeout = own.InlineSize, own.InlineDepth, own.Timeout
		}
		out = append(out, &c)
	}
	return out, nil
}

// frameObligations: heaps outside the modifies clause keep their value at every object allocated on entry.
func (w *World) frameObligations(s *Session, fs *FnSpec, f *Frame, rt retInfo, ri int) {
	allowed := map[string]bool{}
	for _, m := range fs.Modifies {
		for _, h := range w.heapNames(m) {
			allowed[h] = true
		}
	}
	var hs []string
	for h := range rt.st.heap {
		if strings.HasPrefix(h, "L!") || strings.HasPrefix(h, "IT!") || allowed[h] {
			continue
		}
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		srt := s.sortOfHeapName(h)
		if srt == "" {
			continue
		}
		c, o := s.heapGet(rt.st, h, srt), s.heapGet(f.entry, h, srt)
		if c.S == o.S {
			continue
		}
		g := Eq(c, o)
		if strings.HasPrefix(srt, "(Array Int ") {
			g = T("Bool", "(forall ((r!fr Int)) (! (=> (< r!fr %s) (= (select %s r!fr) (select %s r!fr))) :pattern ((select %s r!fr))))", f.entry.alloc.S, c.S, o.S, c.S)
		}
		goal := Imp(rt.st.pc, g)
		ob := &Oblig{Fn: fs.Name, Kind: "frame", Name: fmt.Sprintf("modifies:%s@return%d", h, ri), Line: len(s.lines), Goal: goal}
		if goal.S == "true" {
			ob.Result, ob.Solver = "unsat", "simplifier"
		}
		s.obs = append(s.obs, ob)
	}
}

// contractEffects replaces the computed effects of functions whose contract states a frame.
func (w *World) contractEffects(sp *Spec) {
	fixed := map[*ssa.Function]bool{}
	for n, fs := range sp.Funcs {
		fn := w.fns[n]
		if fn == nil || fs.Modifies == nil || fs.InlineOnly {
			continue
		}
		e := map[string]bool{}
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			for _, m := range fs.Modifies {
				for _, h := range w.heapNames(m) {
					e[h] = true
				}
			}
		}()
		if ok {
			fixed[fn] = true
			w.eff[fn] = e
		}
	}
	for n, fs := range sp.Funcs {
		if !fs.Dynamic || fs.Modifies == nil {
			continue
		}
		insts, err := w.instances(sp, fs)
		if err != nil {
			continue
		}
		e := map[string]bool{}
		for _, m := range fs.Modifies {
			for _, h := range w.heapNames(m) {
				e[h] = true
			}
		}
		for _, inst := range insts {
			if !fixed[inst.Fn] {
				fixed[inst.Fn] = true
				w.eff[inst.Fn] = e
			}
		}
		_ = n
	}
	for fn := range w.eff {
		if sp.Printers[fn.Name()] {
			fixed[fn] = true
			w.eff[fn] = map[string]bool{}
		}
	}
	if len(fixed) == 0 {
		return
	}
	for fn := range w.eff {
		if !fixed[fn] {
			d := map[string]bool{}
			for k := range w.direct[fn] {
				d[k] = true
			}
			w.eff[fn] = d
		}
	}
	for changed := true; changed; {
		changed = false
		for fn, e := range w.eff {
			if fixed[fn] {
				continue
			}
			n := len(e)
			for _, c := range w.calls[fn] {
				for k := range w.eff[c] {
					e[k] = true
				}
			}
			if len(e) != n {
				changed = true
			}
		}
	}
}

func (w *World) lemma(sp *Spec, i int) (r *FnResult) {
	l := sp.Lemmas[i]
	s := NewSession(w, sp, "lemma:"+l.Name, l.BV)
	r = &FnResult{Name: "lemma:" + l.Name, Sess: s}
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(specErr); ok {
				r.Err = x.msg
			} else if x, ok := e.(unsupported); ok {
				r.Err = x.msg
			} else {
				panic(e)
			}
		}
		r.Obs = s.obs
	}()
	st := &State{pc: True, heap: map[string]Term{}, ep: s.newEpoch()}
	st.alloc = s.fresh("alloc", "Int")
	s.alloc0 = st.alloc
	s.startAlloc = st.alloc
	s.lines = append(s.lines, fmt.Sprintf("(assert (>= %s 1000000))", st.alloc.S))
	env := &specEnv{s: s, vars: map[string]SVal{}, cur: st, old: st}
	for _, a := range sp.Axioms {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(specErr); ok {
						return
					}
					if _, ok := e.(unsupported); ok {
						return
					}
					panic(e)
				}
			}()
			s.assume(st, s.evalBool(env, a.Expr))
		}()
	}
	g := s.evalBool(env, l.Expr)
	s.obs = append(s.obs, &Oblig{Fn: s.fnName, Kind: "cover", Name: "cover:axioms", Line: len(s.lines), Cover: true, Goal: True})
	s.obs = append(s.obs, &Oblig{Fn: s.fnName, Kind: "lemma", Name: "lemma:" + l.Name, Line: len(s.lines), Goal: g})
	return
}

// ---------- solving ----------

type solverCfg struct {
	name string
	args func(file string, sec int) []string
}

var solvers = []solverCfg{
	{"z3-new", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", t), f} }},
	{"cvc5", func(f string, t int) []string {
		return []string{"cvc5", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", t*1000), f}
	}},
	{"z3", func(f string, t int) []string { return []string{"z3", fmt.Sprintf("-T:%d", t), f} }},
}

func (s *Session) smt(o *Oblig, abstract bool) string {
	var b bytes.Buffer
	b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, l := range s.sorts {
		if l[0] == 0 {
			p := strings.Split(l, "\x00")
			if abstract {
				l = p[1]
			} else {
				l = p[2]
			}
		}
		b.WriteString(l + "\n")
	}
	for _, l := range s.lines[:o.Line] {
		b.WriteString(l + "\n")
	}
	if o.Cover {
		b.WriteString("(assert " + o.Goal.S + ")\n")
	} else {
		b.WriteString("(assert (not " + o.Goal.S + "))\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func runSolver(sc solverCfg, file string, sec int) (string, string, float64) {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	a := sc.args(file, sec)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	txt := out.String()
	res := "unknown"
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			res = "error"
			break
		}
		if l == "timeout" {
			res = "timeout"
		}
	}
	return res, txt, time.Since(t0).Seconds()
}

func (s *Session) solve(o *Oblig, dir string, id int, timeout int) {
	if o.Result != "" {
		return
	}
	if s.bv && !o.Cover {
		f := filepath.Join(dir, fmt.Sprintf("a%d.smt2", id))
		os.WriteFile(f, []byte(s.smt(o, true)), 0o644)
		res, _, secs := runSolver(solvers[0], f, 20)
		if os.Getenv("GOVC_KEEP") == "" {
			os.Remove(f)
		}
		o.Secs += secs
		if res == "unsat" {
			o.Result, o.Solver = res, solvers[0].name
			return
		}
	}
	body := s.smt(o, false)
	file := filepath.Join(dir, fmt.Sprintf("o%d.smt2", id))
	os.WriteFile(file, []byte(body), 0o644)
	var outs []string
	stages := []struct {
		sc solverCfg
		t  int
	}{{solvers[0], 5}, {solvers[1], 5}, {solvers[0], timeout}, {solvers[1], timeout}, {solvers[2], timeout}}
	if o.Cover {
		stages = stages[:2]
		stages[0].t, stages[1].t = 3, 3
	}
	for _, sg := range stages {
		res, txt, secs := runSolver(sg.sc, file, sg.t)
		o.Secs += secs
		o.Result, o.Solver = res, sg.sc.name
		outs = append(outs, fmt.Sprintf("%s: %s", sg.sc.name, firstLines(txt, 3)))
		if res == "unsat" || res == "sat" {
			break
		}
	}
	if o.Result == "sat" && !o.Cover {
		q := body + "(get-model)\n"
		if len(o.Shows) > 0 {
			q = body
			for _, sh := range o.Shows {
				p := strings.SplitN(sh, "\x00", 2)
				q += fmt.Sprintf("(echo \"%s\")\n(get-value (%s))\n", p[0], p[1])
			}
		}
		mf := filepath.Join(dir, fmt.Sprintf("m%d.smt2", id))
		os.WriteFile(mf, []byte(q), 0o644)
		for _, sc := range solvers {
			if sc.name == o.Solver {
				_, txt, _ := runSolver(sc, mf, timeout)
				o.Model = txt
			}
		}
		if len(o.Model) > 20000 {
			o.Model = o.Model[:20000] + "\n...\n"
		}
		os.Remove(mf)
	} else if o.Result != "unsat" {
		o.Model = strings.Join(outs, "\n")
	}
	if os.Getenv("GOVC_KEEP") == "" {
		os.Remove(file)
	}
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " / ")
}

// sweep gives every function the sweep clauses range over a contract.
func (w *World) sweep(sp *Spec) {
	for _, sw := range sp.Panicless {
		names := sw.Names
		if len(names) == 1 && names[0] == "*" {
			names = nil
			for _, fn := range w.all {
				if len(fn.Blocks) > 0 && fn.Synthetic == "" {
					names = append(names, w.names[fn])
				}
			}
		}
		byName := map[string]*ssa.Function{}
		for _, fn := range w.all {
			byName[w.names[fn]] = fn
		}
		for _, n := range names {
			if fs := sp.Funcs[n]; fs != nil {
				if !fs.Safe {
					fs.Safe, fs.SafeNoNil = true, true
				}
				continue
			}
			fn := byName[n]
			if fn == nil || len(fn.Blocks) == 0 {
				continue // renamed or gone: nothing to prove
			}
			fs := &FnSpec{Name: n, File: "panicless", Loops: map[int][]Clause{}, InlineSize: 40, InlineDepth: 4, Props: sw.Props, Swept: true, Safe: true, SafeNoNil: true}
			for _, p := range fn.Params {
				fs.Params = append(fs.Params, p.Name())
			}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				fs.Results = append(fs.Results, fmt.Sprintf("result%d", i))
			}
			sp.Funcs[n] = fs
			sp.Order = append(sp.Order, n)
		}
	}
	for _, sw := range sp.Sweeps {
		for _, fn := range w.all {
			n := w.names[fn]
			i := lastErr(fn.Signature)
			if i < 0 || len(fn.Blocks) == 0 || fn.Synthetic != "" {
				continue
			}
			if sw.Except[filepath.Base(w.prog.Fset.Position(fn.Pos()).Filename)] {
				continue
			}
			if fs := sp.Funcs[n]; fs != nil {
				if !fs.ErrProp {
					fs.ErrProp, fs.ErrExcept = true, map[string]bool{}
				}
				if len(fs.Requires)+len(fs.Ensures) == 0 {
					fs.Swept = true
				}
				continue
			}
			fs := &FnSpec{Name: n, File: "sweep", Loops: map[int][]Clause{}, InlineSize: 40, InlineDepth: 4, Props: sw.Props, Swept: true, ErrProp: true, ErrExcept: map[string]bool{}}
			for _, p := range fn.Params {
				fs.Params = append(fs.Params, p.Name())
			}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				fs.Results = append(fs.Results, fmt.Sprintf("result%d", i))
			}
			sp.Funcs[n] = fs
			sp.Order = append(sp.Order, n)
		}
	}
}

// ---------- main ----------

type obReport struct {
	Fn     string  `json:"fn"`
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Pos    string  `json:"pos,omitempty"`
	Result string  `json:"result"`
	Solver string  `json:"solver"`
	Secs   float64 `json:"secs"`
	Model  string  `json:"model,omitempty"`
	OK     bool    `json:"ok"`
}

type report struct {
	Property    string            `json:"property"`
	Functions   []string          `json:"functions"`
	Lemmas      []string          `json:"lemmas"`
	Trusted     []string          `json:"trusted"`
	Assumptions []string          `json:"assumptions"`
	Inlined     []string          `json:"inlined"`
	Externs     []string          `json:"externs"`
	Errors      map[string]string `json:"errors"`
	Obligations []obReport        `json:"obligations"`
	Total       int               `json:"total"`
	Discharged  int               `json:"discharged"`
	Covers      int               `json:"covers"`
	BySolver    map[string]int    `json:"by_solver"`
	SolverSecs  float64           `json:"solver_secs"`
	LoadSecs    float64           `json:"load_secs"`
	WallSecs    float64           `json:"wall_secs"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	pat := flag.String("pkg", "./zygo", "")
	specDir := flag.String("specs", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id")
	only := flag.String("fn", "", "verify only this function")
	out := flag.String("out", "", "json report")
	jobs := flag.Int("j", runtime.NumCPU(), "")
	timeout := flag.Int("t", 30, "solver timeout")
	dump := flag.String("dump", "", "dump ssa of function")
	list := flag.Bool("list", false, "list functions")
	effs := flag.String("eff", "", "effects of function")
	keep := flag.String("keep", "", "directory for smt files")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	t0 := time.Now()
	w := LoadWorld(*repo, *pat)
	load := time.Since(t0).Seconds()
	if *dump != "" {
		fn := w.fns[*dump]
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(3)
		}
		fn.WriteTo(os.Stdout)
		fr := &Frame{s: &Session{w: w}, fn: fn}
		fr.findLoops()
		for h, l := range fr.loops {
			fmt.Printf("loop %d header %d (%s)\n", l.ord, h.Index, h.Comment)
		}
		return
	}
	if *list {
		for _, f := range w.all {
			n := 0
			for _, b := range f.Blocks {
				n += len(b.Instrs)
			}
			fmt.Println(w.names[f], n)
		}
		return
	}
	sp := NewSpec()
	sp.OnlyProp = *prop
	files, _ := filepath.Glob(filepath.Join(*specDir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.Load(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	w.sweep(sp)
	w.contractEffects(sp)
	if *effs != "" {
		var ks []string
		for k := range w.eff[w.fns[*effs]] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	dir := *keep
	if dir == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		dir = d
		defer os.RemoveAll(d)
	} else {
		os.MkdirAll(dir, 0o755)
		os.Setenv("GOVC_KEEP", "1")
	}
	rep := &report{Property: *prop, Errors: map[string]string{}, BySolver: map[string]int{}}
	has := func(ps []string) bool {
		for _, p := range ps {
			if p == *prop {
				return true
			}
		}
		return false
	}
	var queue []string
	for _, n := range sp.Order {
		fs := sp.Funcs[n]
		if fs.InlineOnly {
			continue
		}
		if *only != "" {
			if n == *only {
				queue = append(queue, n)
			}
		} else if has(fs.Props) || *prop == "" {
			queue = append(queue, n)
		}
	}
	done := map[string]bool{}
	trusted, inl, ext, asm := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	type job struct {
		r *FnResult
		o *Oblig
		t int
	}
	var jobsL []job
	var results []*FnResult
	add := func(r *FnResult, t int) {
		results = append(results, r)
		if r.Err != "" {
			rep.Errors[r.Name] = r.Err
		}
		for _, o := range r.Obs {
			jobsL = append(jobsL, job{r, o, t})
		}
		for k := range r.Sess.trusted {
			asm[k] = true
		}
		for k := range r.Sess.inlined {
			inl[k] = true
		}
		for k := range r.Sess.externs {
			ext[k] = true
		}
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if done[n] {
			continue
		}
		done[n] = true
		fs := sp.Funcs[n]
		if fs.Trusted {
			trusted[n+" -- "+fs.TrustWhy] = true
			continue
		}
		t := *timeout
		if fs.Timeout > 0 {
			t = fs.Timeout
		}
		if fs.Dynamic {
			insts, err := w.instances(sp, fs)
			if err != nil {
				rep.Errors[n] = err.Error()
				continue
			}
			for _, inst := range insts {
				r := w.verify(sp, inst)
				if *verbose {
					fmt.Printf("gen %s: %d obligations, %d lines, %d ms %s\n", inst.Name, len(r.Obs), len(r.Sess.lines), r.Genms, r.Err)
				}
				add(r, t)
				rep.Functions = append(rep.Functions, inst.Name)
				if *only == "" {
					for u := range r.Sess.used {
						if !done[u] {
							queue = append(queue, u)
						}
					}
				}
			}
			asm["implementations of "+n+" outside package zygo keep its contract"] = true
			continue
		}
		r := w.verify(sp, fs)
		if *verbose {
			fmt.Printf("gen %s: %d obligations, %d lines, %d ms %s\n", n, len(r.Obs), len(r.Sess.lines), r.Genms, r.Err)
		}
		add(r, t)
		rep.Functions = append(rep.Functions, n)
		if *only == "" {
			for u := range r.Sess.used {
				if !done[u] {
					queue = append(queue, u)
				}
			}
		}
	}
	if *only == "" || strings.HasPrefix(*only, "lemma:") {
		for i, l := range sp.Lemmas {
			if *only != "" && *only != "lemma:"+l.Name {
				continue
			}
			if *only == "" && *prop != "" && !has(l.Props) {
				continue
			}
			r := w.lemma(sp, i)
			add(r, *timeout)
			rep.Lemmas = append(rep.Lemmas, l.Name)
		}
	}
	if *only == "" {
		for _, g := range sp.Guards {
			if *prop != "" && !has(g.Props) {
				continue
			}
			obs, fns, err := w.guards(sp, g, dir, *timeout)
			if err != nil {
				rep.Errors["guarded by "+g.Text] = err.Error()
			}
			for _, o := range obs {
				jobsL = append(jobsL, job{nil, o, 0})
			}
			rep.Functions = append(rep.Functions, fns...)
			if *verbose {
				fmt.Println("guarded:", strings.Join(fns, "\n   "))
			}
		}
		for _, c := range sp.Wholes {
			if *prop != "" && !has(c.Props) {
				continue
			}
			obs, err := w.whole(c)
			if err != nil {
				rep.Errors[c.Kind+" "+c.What] = err.Error()
			}
			for _, o := range obs {
				jobsL = append(jobsL, job{nil, o, 0})
			}
		}
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < *jobs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if jobsL[i].r != nil {
					jobsL[i].r.Sess.solve(jobsL[i].o, dir, i, jobsL[i].t)
				}
			}
		}()
	}
	for i := range jobsL {
		ch <- i
	}
	close(ch)
	wg.Wait()
	// undecided obligations get a second attempt with less contention and more time
	sem := make(chan struct{}, (*jobs+3)/4)
	var wg2 sync.WaitGroup
	retry := 0
	for i := range jobsL {
		o := jobsL[i].o
		if jobsL[i].r == nil || o.Cover || o.Result == "unsat" || o.Result == "sat" || o.Result == "error" || retry >= 12 {
			continue
		}
		retry++
		i := i
		wg2.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg2.Done()
			o.Result = ""
			jobsL[i].r.Sess.solve(o, dir, i, jobsL[i].t*2)
			<-sem
		}()
	}
	wg2.Wait()
	fails := 0
	for _, j := range jobsL {
		o := j.o
		ok := o.Result == "unsat"
		if o.Cover {
			ok = o.Result != "unsat" && o.Result != "error"
			rep.Covers++
		} else {
			rep.Total++
			if ok {
				rep.Discharged++
				rep.BySolver[o.Solver]++
			}
		}
		rep.SolverSecs += o.Secs
		rep.Obligations = append(rep.Obligations, obReport{o.Fn, o.Name, o.Kind, o.Pos, o.Result, o.Solver, o.Secs, o.Model, ok})
		if !ok {
			fails++
			fmt.Printf("FAIL %s %s [%s] %s %s %.1fs\n", o.Fn, o.Name, o.Kind, o.Pos, o.Result, o.Secs)
			if *verbose {
				fmt.Println(firstLines(o.Model, 40))
			}
		} else if *verbose {
			fmt.Printf("ok   %s %s %s %.2fs\n", o.Fn, o.Name, o.Solver, o.Secs)
		}
	}
	for n, e := range rep.Errors {
		fmt.Printf("ERROR %s: %s\n", n, e)
		fails++
	}
	keys := func(m map[string]bool) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	rep.Trusted, rep.Inlined, rep.Externs, rep.Assumptions = keys(trusted), keys(inl), keys(ext), keys(asm)
	rep.LoadSecs = load
	rep.WallSecs = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("govc: property=%s functions=%d obligations=%d discharged=%d covers=%d wall=%.1fs solver=%.1fs\n", *prop, len(rep.Functions), rep.Total, rep.Discharged, rep.Covers, rep.WallSecs, rep.SolverSecs)
	if fails > 0 {
		os.Exit(1)
	}
}
