package main

// Guarded calls. Some functions (everything outside the package that is not on a list
// of harmless ones, and a few of the package itself) may be called only where a
// condition on the interpreter at hand holds. Each function of the package that calls
// one is verified: every such call is an obligation, discharged for all inputs. A
// function where that fails (or that has no interpreter at hand) counts as one that
// must itself be called under the condition, unless it is used as a value or through
// an interface; then nothing can hold its callers to it, and the obligation fails.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Guard struct {
	Cond     *Ex
	Text     string
	Harmless []*regexp.Regexp
	Also     []string
	Props    []string
	out      map[*ssa.Function]bool
	why      map[*ssa.Function]string
	safe     map[string]bool
}

func (g *Guard) harmless(name string) bool {
	if r, ok := g.safe[name]; ok {
		return r
	}
	r := false
	for _, re := range g.Harmless {
		if re.MatchString(name) {
			r = true
			break
		}
	}
	g.safe[name] = r
	return r
}

// guarded: must fn be called under the condition?
func (g *Guard) guarded(w *World, fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if g.out[fn] {
		return true
	}
	if fn.Pkg == w.pkg || fn.Parent() != nil {
		return false
	}
	if o := fn.Origin(); o != nil && o.Pkg == w.pkg {
		return g.out[o]
	}
	if fn.Pkg == nil && fn.Synthetic != "" { // wrapper
		if o, ok := fn.Object().(*types.Func); ok {
			if h := w.prog.FuncValue(o); h != nil && h != fn {
				return g.guarded(w, h)
			}
			if o.Pkg() == nil || o.Pkg() == w.tpkg {
				return false // an interface method promoted by embedding
			}
		}
	}
	return !g.harmless(fn.String())
}

// mentions: the guarded calls of fn, and the guarded functions and variables it
// refers to in any other way.
func (g *Guard) mentions(w *World, fn *ssa.Function) (calls int, other []string) {
	live := liveBlocks(fn)
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			if _, dbg := in.(*ssa.DebugRef); dbg {
				continue
			}
			var called ssa.Value
			if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
				called = c.Call.Value
			}
			for i, op := range in.Operands(ops) {
				if op == nil || *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					if !g.guarded(w, v) {
						continue
					}
					if i == 0 && called == v {
						calls++
					} else {
						other = append(other, w.nameOf(v))
					}
				case *ssa.Global:
					if v.Pkg != w.pkg && !g.harmless(v.String()) {
						other = append(other, "variable "+v.String())
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				for _, f := range w.implementations(c.Common().Value.Type(), c.Common().Method) {
					if g.guarded(w, f) {
						other = append(other, w.nameOf(f)+" through an interface")
					}
				}
			}
		}
	}
	return
}

func (w *World) nameOf(f *ssa.Function) string {
	if n := w.names[f]; n != "" {
		return n
	}
	return f.String()
}

// guardCond is the condition, for any interpreter that the running function has at hand.
func (s *Session) guardCond(env *specEnv) (Term, bool) {
	var alts []Term
	var names []string
	for n := range env.vars {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := env.vars[n]
		cand := []SVal{}
		if s.w.ts(v.typ) == "*Zlisp" {
			cand = append(cand, v)
		} else if p, ok := v.typ.Underlying().(*types.Pointer); ok {
			if st, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if s.w.ts(st.Field(i).Type()) == "*Zlisp" {
						cand = append(cand, env.fieldOf(v, st.Field(i).Name()))
					}
				}
			}
		}
		for _, c := range cand {
			e := &specEnv{s: s, vars: map[string]SVal{"env": c}, cur: env.cur, old: env.old}
			alts = append(alts, s.evalBool(e, s.guard.Cond))
		}
	}
	if len(alts) == 0 {
		return False, false
	}
	return Or(alts...), true
}

// guards decides one guarded clause.
func (w *World) guards(sp *Spec, g *Guard, dir string, timeout int) (obs []*Oblig, fns []string, err error) {
	g.why, g.out, g.safe = map[*ssa.Function]string{}, map[*ssa.Function]bool{}, map[string]bool{}
	for _, n := range g.Also {
		f := w.fns[n]
		if f == nil {
			return nil, nil, fmt.Errorf("guarded also: no such function %s", n)
		}
		g.out[f] = true
	}
	var all []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range w.all {
		if !seen[fn] && len(fn.Blocks) > 0 && fn.Synthetic == "" || fn.Name() == "init" {
			seen[fn] = true
			all = append(all, fn)
		}
	}
	sort.Slice(all, func(i, j int) bool { return w.names[all[i]] < w.names[all[j]] })
	type res struct {
		obs []*Oblig
		sig string
	}
	memo := map[*ssa.Function]res{}
	for round := 0; ; round++ {
		changed := false
		obs, fns = nil, nil
		for _, fn := range all {
			if g.out[fn] {
				continue
			}
			calls, other := g.mentions(w, fn)
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
				calls = 0 // runs before there is any interpreter
			}
			if calls == 0 && len(other) == 0 {
				continue
			}
			name := w.nameOf(fn)
			sig := fmt.Sprint(calls, other)
			r, have := memo[fn]
			if !have || r.sig != sig {
				r = res{sig: sig}
				for _, o := range other {
					r.obs = append(r.obs, &Oblig{Fn: name, Kind: "guard", Name: "guard:mentions " + o, Solver: "callgraph", Result: "sat", Model: "not a plain call: it may run without " + g.Text})
				}
				if len(other) == 0 {
					fs := &FnSpec{Name: name, File: "guard", Loops: map[int][]Clause{}, InlineSize: 40, InlineDepth: 4, Props: g.Props, Swept: true, Guard: g}
					if c := sp.Funcs[name]; c != nil && !c.Swept && !c.Trusted && len(c.Params) == len(fn.Params) {
						fs.Params, fs.Results = c.Params, c.Results
					} else {
						for i, p := range fn.Params {
							n := p.Name()
							if n == "" || n == "_" {
								n = fmt.Sprintf("param%d", i)
							}
							fs.Params = append(fs.Params, n)
						}
					}
					v := w.verify(sp, fs)
					n := 0
					for k, o := range v.Obs {
						if o.Kind != "guard" {
							continue
						}
						n++
						if o.Result == "" {
							v.Sess.solve(o, dir, 900000+k, timeout)
						}
						r.obs = append(r.obs, o)
					}
					if v.Err != "" || n < calls {
						// (calls in code that cannot run are not counted against it)
						r.obs = append(r.obs, &Oblig{Fn: name, Kind: "guard", Name: "guard:all calls", Solver: "govc", Result: "unknown", Model: fmt.Sprintf("%d of %d guarded calls seen %s", n, calls, v.Err)})
					}
				}
				memo[fn] = r
			}
			ok := true
			for _, o := range r.obs {
				if o.Result != "unsat" {
					ok = false
				}
			}
			if !ok && w.heldByCallers(fn) {
				why := ""
				for _, o := range r.obs {
					if o.Result != "unsat" {
						why += " " + strings.TrimPrefix(o.Name, "guard:")
					}
				}
				g.why[fn] = why
				g.out[fn] = true
				changed = true
				continue
			}
			obs = append(obs, r.obs...)
			fns = append(fns, name)
		}
		if !changed || round > 40 {
			break
		}
	}
	for f := range g.out {
		fns = append(fns, "only for callers under the condition: "+w.nameOf(f)+" ("+strings.TrimSpace(g.why[f])+")")
	}
	sort.Strings(fns)
	return obs, fns, nil
}

// heldByCallers: every use of fn is a plain call from the package, so that the
// callers can be held to the condition (or there is none: only the host calls it).
func (w *World) heldByCallers(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	for _, by := range w.all {
		for _, b := range by.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				if _, dbg := in.(*ssa.DebugRef); dbg {
					continue
				}
				var called ssa.Value
				if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
					called = c.Call.Value
				}
				for i, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok || f != fn && (f.Object() == nil || f.Object() != fn.Object()) {
						continue
					}
					if f == fn && i == 0 && called == f {
						continue
					}
					return false
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, f := range w.implementations(c.Common().Value.Type(), c.Common().Method) {
						if f == fn {
							return false
						}
					}
				}
			}
		}
	}
	return !strings.HasPrefix(fn.Name(), "init")
}

// liveBlocks: the blocks reached, where conditions that are constants (such as one on
// the operating system) go one way only.
func liveBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if b == nil || live[b] {
			return
		}
		live[b] = true
		if n := len(b.Instrs); n > 0 {
			if i, ok := b.Instrs[n-1].(*ssa.If); ok {
				if v, ok := constBool(i.Cond); ok {
					if v {
						walk(b.Succs[0])
					} else {
						walk(b.Succs[1])
					}
					return
				}
			}
		}
		for _, x := range b.Succs {
			walk(x)
		}
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
		walk(fn.Recover)
	}
	return live
}

func constBool(v ssa.Value) (bool, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.BinOp:
		a, ok1 := x.X.(*ssa.Const)
		b, ok2 := x.Y.(*ssa.Const)
		if ok1 && ok2 && a.Value != nil && b.Value != nil && (x.Op == token.EQL || x.Op == token.NEQ) {
			return constant.Compare(a.Value, x.Op, b.Value), true
		}
	}
	return false, false
}
