package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A variable captured by closures, stored to once before any of them exists and
// only read afterwards, is a constant cell. Its contents live in a heap of their
// own ("K!"): no other code holds its address, so no call changes them.

func (w *World) varCell(v ssa.Value, elem types.Type) string {
	if w.constCell(v) {
		n := "K!" + w.ts(elem)
		w.noteHeap(n, elem)
		return n
	}
	return w.cellHeap(elem)
}

func (w *World) constCell(v ssa.Value) bool {
	if r, ok := w.constCells[v]; ok {
		return r
	}
	w.constCells[v] = false // recursion
	r := false
	switch x := v.(type) {
	case *ssa.Alloc:
		r = w.constAlloc(x)
	case *ssa.FreeVar:
		r = w.constFree(x)
	}
	w.constCells[v] = r
	return r
}

func plainCell(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch p.Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func (w *World) constAlloc(a *ssa.Alloc) bool {
	if !a.Heap || !plainCell(a.Type()) {
		return false
	}
	captured := false
	var st *ssa.Store
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == a || st != nil || x.Block() != a.Block() {
				return false
			}
			st = x
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			captured = true
			if !w.readOnlyBinding(x, a) {
				return false
			}
		default:
			return false
		}
	}
	if st == nil || !captured {
		return false
	}
	// the store comes before every closure
	pos := func(in ssa.Instruction) int {
		for i, y := range in.Block().Instrs {
			if y == in {
				return i
			}
		}
		return -1
	}
	for _, r := range *a.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok {
			if mc.Block() == st.Block() {
				if pos(mc) < pos(st) {
					return false
				}
			} else if !st.Block().Dominates(mc.Block()) {
				return false
			}
		}
	}
	return true
}

func (w *World) readOnlyBinding(mc *ssa.MakeClosure, v ssa.Value) bool {
	fn, ok := mc.Fn.(*ssa.Function)
	if !ok {
		return false
	}
	for i, b := range mc.Bindings {
		if b == v && !w.readOnlyVar(fn.FreeVars[i]) {
			return false
		}
	}
	return true
}

func (w *World) readOnlyVar(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if !w.readOnlyBinding(x, fv) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (w *World) constFree(fv *ssa.FreeVar) bool {
	if !plainCell(fv.Type()) {
		return false
	}
	fn := fv.Parent()
	par := fn.Parent()
	if par == nil {
		return false
	}
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	found := false
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			found = true
			if !w.constCell(mc.Bindings[idx]) {
				return false
			}
		}
	}
	return found
}
