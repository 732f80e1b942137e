package main

// Whole-program clauses: which functions of the package may write a heap, or call an external
// function. They close the gap between per-function contracts and a global invariant: the
// contract of each listed function is proved, and nothing else can break the invariant.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole is a "writers HEAP: fns" or "callers REGEXP: fns" clause.
type Whole struct {
	Kind, What string
	Fns        []string
	Props      []string
}

func (w *World) writesHeap(fn *ssa.Function, hs map[string]bool) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			e := map[string]bool{}
			switch x := in.(type) {
			case *ssa.Store:
				if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
					if a, ok := x.Addr.(*ssa.Alloc); ok && a != nil {
						continue // zero value of a fresh object
					}
				}
				if r := rootAlloc(x.Addr); r != nil && w.localAlloc(r) {
					continue // a private variable (a copy of the object)
				}
				w.addrHeaps(x.Addr, e)
			case *ssa.MapUpdate:
				a, b, c := w.mapHeaps(x.Map.Type())
				e[a], e[b], e[c] = true, true, true
			case *ssa.Call:
				w.builtinEffects(&x.Call, e)
				w.externEffects(&x.Call, e)
			case *ssa.Defer:
				w.builtinEffects(&x.Call, e)
			case *ssa.FieldAddr:
				// the address of the field escapes
				h := w.fieldHeap(deref(x.X.Type()), x.Field)
				if hs[h] && x.Referrers() != nil {
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp:
							if y.Op == token.MUL {
								continue
							}
						case *ssa.Store:
							if y.Addr == x && y.Val != x {
								continue
							}
						case *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
							continue
						}
						e[h] = true
					}
				}
			}
			for h := range e {
				if hs[h] {
					return in
				}
			}
		}
	}
	return nil
}

func (w *World) callsExternal(fn *ssa.Function, re *regexp.Regexp) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			for _, op := range in.Operands(ops) {
				if op == nil || *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					if v.Pkg != w.pkg && re.MatchString(v.String()) {
						return in
					}
				case *ssa.Global:
					if v.Pkg != w.pkg && re.MatchString(v.String()) {
						return in
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				m := c.Common().Method
				if m.Pkg() != nil && m.Pkg() != w.tpkg && re.MatchString(m.FullName()) {
					return in
				}
			}
		}
	}
	return nil
}

// referrers: the functions of the package that mention f (call it or take its value).
func (w *World) referrers() map[*ssa.Function]map[*ssa.Function]bool {
	out := map[*ssa.Function]map[*ssa.Function]bool{}
	put := func(f, by *ssa.Function) {
		if out[f] == nil {
			out[f] = map[*ssa.Function]bool{}
		}
		out[f][by] = true
	}
	for _, fn := range w.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						put(f, fn)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, f := range w.implementations(c.Common().Value.Type(), c.Common().Method) {
						put(f, fn)
					}
				}
			}
		}
	}
	return out
}

// permitted: f is listed, or is an unexported helper used by permitted functions only.
func (w *World) permitted(list map[string]bool) func(f *ssa.Function) bool {
	refs := w.referrers()
	memo := map[*ssa.Function]int{}
	var ok func(f *ssa.Function) bool
	ok = func(f *ssa.Function) bool {
		if list[w.shortName(f)] || list[w.names[f]] {
			return true
		}
		switch memo[f] {
		case 1:
			return true // recursion among helpers
		case 2:
			return true
		case 3:
			return false
		}
		memo[f] = 1
		r := true
		if f.Parent() != nil {
			r = ok(f.Parent())
		} else if token.IsExported(f.Name()) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || len(refs[f]) == 0 {
			r = false
		} else {
			for g := range refs[f] {
				if g != f && !ok(g) {
					r = false
					break
				}
			}
		}
		if r {
			memo[f] = 2
		} else {
			memo[f] = 3
		}
		return r
	}
	return ok
}

// whole decides one clause; every writing (calling) function is one obligation.
func (w *World) whole(c *Whole) (obs []*Oblig, err error) {
	if c.Kind == "recursion" {
		return w.recursion(c)
	}
	list := map[string]bool{}
	for _, n := range c.Fns {
		list[n] = true
		if w.fns[n] == nil {
			return nil, fmt.Errorf("%s %s: no such function %s", c.Kind, c.What, n)
		}
	}
	var touch func(fn *ssa.Function) ssa.Instruction
	if c.Kind == "writers" {
		hs := map[string]bool{}
		for _, h := range w.heapNames(c.What) {
			hs[h] = true
		}
		touch = func(fn *ssa.Function) ssa.Instruction { return w.writesHeap(fn, hs) }
	} else {
		re, e := regexp.Compile("^(?:" + c.What + ")$")
		if e != nil {
			return nil, e
		}
		touch = func(fn *ssa.Function) ssa.Instruction { return w.callsExternal(fn, re) }
	}
	ok := w.permitted(list)
	var fns []*ssa.Function
	fns = append(fns, w.all...)
	sort.Slice(fns, func(i, j int) bool { return w.names[fns[i]] < w.names[fns[j]] })
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] || fn.Synthetic != "" && fn.Pkg == nil {
			continue
		}
		seen[fn] = true
		in := touch(fn)
		if in == nil {
			continue
		}
		o := &Oblig{Fn: w.names[fn], Kind: c.Kind, Name: c.Kind + ":" + c.What, Pos: w.prog.Fset.Position(in.Pos()).String(), Solver: "callgraph", Result: "unsat"}
		if !ok(fn) {
			o.Result = "sat"
			o.Model = fmt.Sprintf("%s is not one of %s, and is not a helper used by those only", w.names[fn], strings.Join(c.Fns, ", "))
		}
		obs = append(obs, o)
	}
	_ = types.Typ
	return obs, nil
}
