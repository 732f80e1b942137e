package main

// "recursion GUARD, ...: fn, ...": Go's stack cannot run out. Every call that can close a
// recursion stands behind a successful call of one of the guards (which count the depth and
// fail beyond a limit), except inside the listed functions, whose recursion goes down
// a structure of bounded depth.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func usesCall(v ssa.Value, guards map[*ssa.Function]bool, depth int) bool {
	if depth == 0 {
		return false
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && guards[f] {
			return true
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	switch in.(type) {
	case *ssa.BinOp, *ssa.Extract, *ssa.UnOp, *ssa.ChangeInterface:
	default:
		return false
	}
	var ops []*ssa.Value
	for _, op := range in.Operands(ops) {
		if op != nil && *op != nil {
			if usesCall(*op, guards, depth-1) {
				return true
			}
			// a named result: the guard's value stored in a local
			if a, ok := (*op).(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Block() == in.Block() && usesCall(st.Val, guards, depth-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// behind: the block is reached only when a guard has let it.
func behind(fn *ssa.Function, guards map[*ssa.Function]bool) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !usesCall(i.Cond, guards, 4) {
			continue
		}
		for _, s := range b.Succs {
			if len(s.Preds) != 1 {
				continue
			}
			// a side that only returns is the refusal
			if _, ret := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ret {
				continue
			}
			for _, x := range fn.Blocks {
				if s.Dominates(x) {
					out[x] = true
				}
			}
		}
	}
	// the short form: the refusal returns, and what follows is the other side
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !usesCall(i.Cond, guards, 4) {
			continue
		}
		for _, s := range b.Succs {
			if _, ret := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ret && len(s.Preds) == 1 {
				for _, x := range fn.Blocks {
					if x != b && x != s && b.Dominates(x) {
						out[x] = true
					}
				}
			}
		}
	}
	return out
}

func (w *World) recursion(c *Whole) (obs []*Oblig, err error) {
	guards, except := map[*ssa.Function]bool{}, map[string]bool{}
	for _, n := range splitList(c.What) {
		f := w.fns[n]
		if f == nil {
			return nil, fmt.Errorf("recursion: no such function %s", n)
		}
		guards[f] = true
	}
	for _, n := range c.Fns {
		except[n] = true
	}
	mine := map[*ssa.Function]bool{}
	for _, f := range w.all {
		mine[f] = true
	}
	// functions whose value is taken, by signature
	taken := map[string]map[*ssa.Function]bool{}
	sig := func(s *types.Signature) string {
		return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
	}
	note := func(f *ssa.Function) {
		k := sig(f.Signature)
		if taken[k] == nil {
			taken[k] = map[*ssa.Function]bool{}
		}
		taken[k][f] = true
	}
	for _, fn := range w.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				var ops []*ssa.Value
				first := true
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if callee == f && first {
							first = false
							continue
						}
						note(f)
					}
				}
			}
		}
	}
	type edge struct {
		to      *ssa.Function
		guarded bool
		in      ssa.Instruction
	}
	g := map[*ssa.Function][]edge{}
	for _, fn := range w.all {
		bh := behind(fn, guards)
		// a closure runs where the function that makes it stands
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				add := func(f *ssa.Function) {
					if mine[f] {
						g[fn] = append(g[fn], edge{f, bh[b], in})
					}
				}
				if cc.IsInvoke() {
					for _, f := range w.implementations(cc.Value.Type(), cc.Method) {
						add(f)
					}
				} else if f := cc.StaticCallee(); f != nil {
					if mine[f] {
						add(f)
					} else {
						for _, a := range cc.Args {
							switch y := a.(type) {
							case *ssa.Function:
								add(y)
							case *ssa.MakeClosure:
								add(y.Fn.(*ssa.Function))
							}
						}
					}
				} else if _, isB := cc.Value.(*ssa.Builtin); !isB {
					if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					} else if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
						for f := range taken[sig(s)] {
							add(f)
						}
					}
				}
			}
		}
	}
	scc := func(cut bool) map[*ssa.Function]int {
		index, low, on := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]bool{}
		comp := map[*ssa.Function]int{}
		var stack []*ssa.Function
		n, cn := 0, 0
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			n++
			index[f], low[f] = n, n
			stack = append(stack, f)
			on[f] = true
			self := false
			for _, e := range g[f] {
				if cut && (e.guarded || except[w.names[f]]) {
					continue
				}
				if e.to == f {
					self = true
				}
				if index[e.to] == 0 {
					visit(e.to)
					low[f] = min(low[f], low[e.to])
				} else if on[e.to] {
					low[f] = min(low[f], index[e.to])
				}
			}
			if low[f] == index[f] {
				var m []*ssa.Function
				for {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[x] = false
					m = append(m, x)
					if x == f {
						break
					}
				}
				if len(m) > 1 || self {
					cn++
					for _, x := range m {
						comp[x] = cn
					}
				}
			}
		}
		for _, f := range w.all {
			if index[f] == 0 {
				visit(f)
			}
		}
		return comp
	}
	full, rest := scc(false), scc(true)
	var fns []*ssa.Function
	for f := range full {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return w.names[fns[i]] < w.names[fns[j]] })
	if os.Getenv("GOVC_SCC") != "" {
		for k := 1; k < 1000; k++ {
			for _, f := range fns {
				if rest[f] != k {
					continue
				}
				fmt.Fprintf(os.Stderr, "SCC %d %s:", k, w.names[f])
				for _, e := range g[f] {
					if rest[e.to] == k && !e.guarded {
						fmt.Fprintf(os.Stderr, " %s", w.names[e.to])
					}
				}
				fmt.Fprintln(os.Stderr)
			}
		}
	}
	for _, f := range fns {
		o := &Oblig{Fn: w.names[f], Kind: "recursion", Name: "recursion:bounded", Pos: w.prog.Fset.Position(f.Pos()).String(), Solver: "callgraph", Result: "unsat"}
		if k := rest[f]; k != 0 {
			o.Result = "sat"
			var path []string
			for _, e := range g[f] {
				if rest[e.to] == k && !e.guarded {
					path = append(path, fmt.Sprintf("calls %s at %s", w.names[e.to], w.prog.Fset.Position(e.in.Pos())))
				}
			}
			o.Model = w.names[f] + " can call itself without a bound on the depth: " + strings.Join(path, "; ")
		}
		obs = append(obs, o)
	}
	return obs, nil
}
