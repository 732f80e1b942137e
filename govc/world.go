package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded package under verification.
type World struct {
	pkg        *ssa.Package
	tpkg       *types.Package
	prog       *ssa.Program
	fns        map[string]*ssa.Function // short name -> function
	names      map[*ssa.Function]string
	all        []*ssa.Function
	eff        map[*ssa.Function]map[string]bool // transitive effects
	calls      map[*ssa.Function][]*ssa.Function // may-call edges
	taken      map[string][]*ssa.Function        // signature -> address-taken fns
	impls      map[string][]*ssa.Function        // iface method -> implementations (cache)
	ginit      map[*ssa.Global]ginfo
	direct     map[*ssa.Function]map[string]bool
	stackAlloc map[*ssa.Alloc]bool
	constCells map[ssa.Value]bool
}

type ginfo struct {
	stores  int
	nonInit bool
	val     ssa.Value
}

func LoadWorld(dir, pat string) *World {
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
		packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedTypesSizes | packages.NeedModule}
	ps, err := packages.Load(cfg, pat)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if len(ps) != 1 || len(ps[0].Errors) > 0 {
		fmt.Fprintln(os.Stderr, "load errors:", len(ps), ps[0].Errors)
		os.Exit(3)
	}
	prog, pkgs := ssautil.Packages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	w := &World{pkg: pkgs[0], tpkg: ps[0].Types, prog: prog, fns: map[string]*ssa.Function{}, names: map[*ssa.Function]string{},
		taken: map[string][]*ssa.Function{}, impls: map[string][]*ssa.Function{}, ginit: map[*ssa.Global]ginfo{}, stackAlloc: map[*ssa.Alloc]bool{}, constCells: map[ssa.Value]bool{}}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Package() != w.pkg && !(fn.Package() == nil && fn.Synthetic != "") {
			continue
		}
		if fn.Package() == w.pkg || strings.Contains(fn.String(), w.tpkg.Path()) {
			n := w.shortName(fn)
			w.fns[n] = fn
			w.names[fn] = n
			if len(fn.Blocks) > 0 {
				w.all = append(w.all, fn)
			}
		}
	}
	sort.Slice(w.all, func(i, j int) bool { return w.names[w.all[i]] < w.names[w.all[j]] })
	w.scan()
	w.effects()
	return w
}

func (w *World) shortName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, w.tpkg.Path()+".", "")
	return s
}

func (w *World) qual(p *types.Package) string {
	if p == w.tpkg {
		return ""
	}
	return p.Name()
}

func (w *World) ts(t types.Type) string { return types.TypeString(t, w.qual) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- heap names ----

func (w *World) fieldHeap(structT types.Type, i int) string {
	st := structT.Underlying().(*types.Struct)
	h := "H!" + w.ts(structT) + "!" + st.Field(i).Name()
	w.noteHeap(h, st.Field(i).Type())
	return h
}
func (w *World) elemHeap(t types.Type) string {
	w.noteHeap("E!"+w.ts(t), t)
	return "E!" + w.ts(t)
}
func (w *World) cellHeap(t types.Type) string {
	w.noteHeap("C!"+w.ts(t), t)
	return "C!" + w.ts(t)
}
func (w *World) mapHeaps(t types.Type) (string, string, string) {
	m := t.Underlying().(*types.Map)
	k := w.ts(m.Key()) + "!" + w.ts(m.Elem())
	w.noteHeap("MD!"+k, t)
	w.noteHeap("MV!"+k, t)
	w.noteHeap("ML!"+k, t)
	return "MD!" + k, "MV!" + k, "ML!" + k
}

// addrHeap gives the heap variables that a store through v may write.
func (w *World) addrHeaps(v ssa.Value, out map[string]bool) {
	elem := deref(v.Type())
	switch x := v.(type) {
	case *ssa.FieldAddr:
		base := deref(x.X.Type())
		switch x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			// nested inside another object: root heap
			if _, ok := x.X.(*ssa.FieldAddr); ok || isNestedElem(x.X) {
				w.addrHeaps(x.X, out)
				out[w.fieldHeap(base, x.Field)] = true
				return
			}
		}
		out[w.fieldHeap(base, x.Field)] = true
		return
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			out[w.elemHeap(elem)] = true
			return
		}
		// pointer to array
		if _, ok := x.X.(*ssa.FieldAddr); ok {
			w.addrHeaps(x.X, out)
		}
		if _, ok := x.X.(*ssa.Global); ok {
			w.addrHeaps(x.X, out)
		}
		out[w.elemHeap(elem)] = true
		return
	case *ssa.Global:
		w.noteHeap("G!"+x.Name(), deref(x.Type()))
		out["G!"+x.Name()] = true
		return
	}
	if st, ok := elem.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			out[w.fieldHeap(elem, i)] = true
		}
		return
	}
	if w.constCell(v) {
		return
	}
	out[w.cellHeap(elem)] = true
}

func isNestedElem(v ssa.Value) bool {
	_, ok := v.(*ssa.IndexAddr)
	return ok
}

// instrEffects: direct heap effects of one instruction (calls excluded).
func (w *World) instrEffects(in ssa.Instruction, out map[string]bool) {
	switch x := in.(type) {
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok && w.localAlloc(a) {
			out["L!"+allocID(a)] = true
			return
		}
		if r := rootAlloc(x.Addr); r != nil && w.localAlloc(r) {
			out["L!"+allocID(r)] = true
			return
		}
		if w.freshBase(x.Addr) {
			return
		}
		w.addrHeaps(x.Addr, out)
	case *ssa.MapUpdate:
		a, b, c := w.mapHeaps(x.Map.Type())
		out[a], out[b], out[c] = true, true, true
	case *ssa.Alloc:
		// Initialising a fresh object is no effect on objects that existed before: heap
		// arrays are unconstrained at references that are not allocated yet.
		if w.localAlloc(x) {
			out["L!"+allocID(x)] = true
		}
	case *ssa.Next, *ssa.Range:
		out["IT!"] = true
	case *ssa.Call:
		w.builtinEffects(&x.Call, out)
	case *ssa.Defer:
		w.builtinEffects(&x.Call, out)
	case *ssa.Go:
		w.builtinEffects(&x.Call, out)
	}
}

// freshBase: the address lies inside an object allocated by this very function.
func (w *World) freshBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return w.freshBase(x.X)
	case *ssa.IndexAddr:
		return w.freshBase(x.X)
	case *ssa.Alloc:
		return true
	case *ssa.MakeSlice:
		return true
	}
	return false
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return rootAlloc(x.X)
	case *ssa.IndexAddr:
		return rootAlloc(x.X)
	case *ssa.Alloc:
		return x
	}
	return nil
}

func allocID(a *ssa.Alloc) string { return fmt.Sprintf("%s@%p", a.Comment, a) }

func (w *World) builtinEffects(c *ssa.CallCommon, out map[string]bool) {
	b, ok := c.Value.(*ssa.Builtin)
	if !ok {
		return
	}
	switch b.Name() {
	case "append", "copy":
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			out[w.elemHeap(s.Elem())] = true
		}
	case "delete", "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			a, b, c := w.mapHeaps(c.Args[0].Type())
			out[a], out[b], out[c] = true, true, true
		}
	}
}

// localAlloc: the address never escapes except via direct load/store/field access (so it is
// a private variable), or is captured only... (captures count as escape).
func (w *World) localAlloc(a *ssa.Alloc) bool {
	if r, ok := w.stackAlloc[a]; ok {
		return r
	}
	res := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					res = false
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					res = false
				}
			case *ssa.FieldAddr:
				visit(x)
			case *ssa.IndexAddr:
				visit(x)
			case *ssa.DebugRef:
			default:
				res = false
			}
		}
	}
	visit(a)
	w.stackAlloc[a] = res
	return res
}

func (w *World) scan() {
	w.calls = map[*ssa.Function][]*ssa.Function{}
	w.direct = map[*ssa.Function]map[string]bool{}
	// address-taken functions by signature
	note := func(f *ssa.Function) {
		k := w.ts(f.Signature)
		// strip receiver: Signature of method value thunks has none
		for _, g := range w.taken[k] {
			if g == f {
				return
			}
		}
		w.taken[k] = append(w.taken[k], f)
	}
	for _, fn := range w.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range ops {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						note(f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					note(mc.Fn.(*ssa.Function))
				}
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg == w.pkg {
						gi := w.ginit[g]
						gi.stores++
						gi.val = st.Val
						if fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
							gi.nonInit = true
						}
						w.ginit[g] = gi
					}
				}
				// address of a global taken other than load/store
				for _, op := range ops {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg == w.pkg {
						ok2 := false
						switch x := in.(type) {
						case *ssa.UnOp:
							ok2 = x.Op == token.MUL
						case *ssa.Store:
							ok2 = x.Addr == g
						case *ssa.DebugRef:
							ok2 = true
						case *ssa.FieldAddr, *ssa.IndexAddr:
							ok2 = true // may write inside; treated as mutable
							gi := w.ginit[g]
							gi.nonInit = true
							w.ginit[g] = gi
						}
						if !ok2 {
							gi := w.ginit[g]
							gi.nonInit = true
							w.ginit[g] = gi
						}
					}
				}
			}
		}
	}
}

// immutableGlobal: stored at most once, in package init.
func (w *World) immutableGlobal(g *ssa.Global) bool {
	gi, ok := w.ginit[g]
	if !ok {
		return true // never stored
	}
	return !gi.nonInit && gi.stores <= 1
}

// callees: possible in-package targets of a call (CHA).
func (w *World) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return w.implementations(c.Value.Type(), c.Method)
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{f}
	case *ssa.MakeClosure:
		return []*ssa.Function{f.Fn.(*ssa.Function)}
	case *ssa.Builtin:
		return nil
	}
	return w.taken[w.ts(c.Value.Type().Underlying())]
}

func (w *World) implementations(it types.Type, m *types.Func) []*ssa.Function {
	key := w.ts(it) + "." + m.Name()
	if r, ok := w.impls[key]; ok {
		return r
	}
	iface, ok := it.Underlying().(*types.Interface)
	var out []*ssa.Function
	if ok {
		sc := w.tpkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(t) || !types.Implements(t, iface) {
					continue
				}
				sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if f := w.prog.MethodValue(sel); f != nil {
					if _, known := w.names[f]; !known {
						w.names[f] = w.shortName(f)
						w.fns[w.names[f]] = f
					}
					out = append(out, f)
				}
			}
		}
	}
	w.impls[key] = out
	return out
}

func (w *World) effects() {
	w.eff = map[*ssa.Function]map[string]bool{}
	done := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if done[fn] {
			return
		}
		done[fn] = true
		e := map[string]bool{}
		var cs []*ssa.Function
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				w.instrEffects(in, e)
				if c, ok := in.(ssa.CallInstruction); ok {
					cs = append(cs, w.callees(c.Common())...)
					w.externEffects(c.Common(), e)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					_ = mc
				}
			}
		}
		for k := range e {
			if strings.HasPrefix(k, "L!") {
				delete(e, k)
			}
		}
		w.eff[fn] = e
		w.calls[fn] = cs
		order = append(order, fn)
		for _, c := range cs {
			visit(c)
		}
	}
	for _, fn := range w.all {
		visit(fn)
	}
	for fn, e := range w.eff {
		d := map[string]bool{}
		for k := range e {
			d[k] = true
		}
		w.direct[fn] = d
	}
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			fn := order[i]
			e := w.eff[fn]
			n := len(e)
			for _, c := range w.calls[fn] {
				for k := range w.eff[c] {
					e[k] = true
				}
			}
			if len(e) != n {
				changed = true
			}
		}
	}
}

// reach: functions reachable from fn in the call graph.
func (w *World) reach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var v func(f *ssa.Function)
	v = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, c := range w.calls[f] {
			v(c)
		}
	}
	v(fn)
	return seen
}
