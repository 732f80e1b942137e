package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- frames ----------

type retInfo struct {
	st   *State
	vals []Val
}

type deferRec struct {
	in *ssa.Defer
	pc Term
}

type Frame struct {
	s      *Session
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	top    bool
	entry  *State
	spec   *FnSpec
	stack  []*ssa.Function
	rets   []retInfo
	defers []deferRec
	loops  map[*ssa.BasicBlock]*loopInfo
	curBlk *ssa.BasicBlock
	edges  map[*ssa.BasicBlock][]edgeIn
}

type edgeIn struct {
	pred *ssa.BasicBlock
	st   *State
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
	phiVal map[*ssa.Phi]Val
	havSt  *State
	preSt  *State
}

func (f *Frame) findLoops() {
	f.loops = map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.fn.Blocks {
		for _, su := range b.Succs {
			if su.Dominates(b) {
				li := f.loops[su]
				if li == nil {
					li = &loopInfo{header: su, body: map[*ssa.BasicBlock]bool{su: true}}
					f.loops[su] = li
				}
				var st []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !li.body[p] {
							li.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	var hs []*loopInfo
	for _, l := range f.loops {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool { return loopPos(hs[i]) < loopPos(hs[j]) })
	for i, l := range hs {
		l.ord = i + 1
	}
}

func loopPos(l *loopInfo) int {
	best := 1 << 60
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := int(in.Pos()); p > 0 && p < best {
				best = p
			}
		}
	}
	return best*1 + l.header.Index%1
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var v func(b *ssa.BasicBlock)
	v = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			v(b.Succs[i])
		}
		out = append(out, b)
	}
	v(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// run executes fn symbolically from st.
func (s *Session) run(fn *ssa.Function, st *State, args []Val, binds []Val, top bool, fs *FnSpec, stack []*ssa.Function) *Frame {
	f := &Frame{s: s, fn: fn, vals: map[ssa.Value]Val{}, top: top, spec: fs, stack: append(append([]*ssa.Function{}, stack...), fn),
		edges: map[*ssa.BasicBlock][]edgeIn{}}
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: %s", s.w.names[fn]))
	}
	for i, p := range fn.Params {
		f.vals[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		f.vals[b] = binds[i]
	}
	f.entry = st.clone()
	f.findLoops()
	if fs != nil && top {
		for n := range fs.Loops {
			if n < 1 || n > len(f.loops) {
				panic(serr("no loop %d (the function has %d)", n, len(f.loops)))
			}
		}
	}
	for _, b := range rpo(fn) {
		f.block(b, st)
	}
	return f
}

func (f *Frame) block(b *ssa.BasicBlock, entry *State) {
	s := f.s
	f.curBlk = b
	var st *State
	li := f.loops[b]
	if b.Index == 0 {
		if li != nil {
			panic(unsup("loop at function entry"))
		}
		st = entry.clone()
	} else {
		ins := f.edges[b]
		var live []edgeIn
		for _, e := range ins {
			if e.st.pc.S != "false" {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			return
		}
		var sts []*State
		for _, e := range live {
			sts = append(sts, e.st)
		}
		st = s.merge(sts)
		phis := map[*ssa.Phi]Val{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis[ph] = f.phi(ph, b, live)
		}
		for p, v := range phis {
			f.vals[p] = v
		}
		if li != nil {
			st = f.loopEntry(li, st)
		}
	}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if !f.instr(st, in, b) {
			return
		}
		if st.pc.S == "false" {
			return
		}
	}
}

func (f *Frame) phi(ph *ssa.Phi, b *ssa.BasicBlock, live []edgeIn) Val {
	var out Val
	for i := len(live) - 1; i >= 0; i-- {
		e := live[i]
		var v Val
		for k, p := range b.Preds {
			if p == e.pred {
				v = f.get(e.st, ph.Edges[k])
				break
			}
		}
		if out == nil {
			out = v
		} else {
			out = f.s.mergeVal(e.st.pc, v, out, ph.Type())
		}
	}
	if t, ok := out.(Term); ok {
		return f.s.name(ph.Comment, t)
	}
	return out
}

func (s *Session) mergeVal(c Term, a, b Val, t types.Type) Val {
	switch x := a.(type) {
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			panic(unsup("merge tuple"))
		}
		r := make(Tuple, len(x))
		for i := range x {
			r[i] = s.mergeVal(c, x[i], y[i], t.(*types.Tuple).At(i).Type())
		}
		return r
	case Addr:
		if y, ok := b.(Addr); ok && fmt.Sprint(x) == fmt.Sprint(y) {
			return a
		}
	case Clo:
		if y, ok := b.(Clo); ok && x.fn == y.fn && x.t == y.t {
			return a
		}
	case mapIter:
		return a
	}
	return Ite(c, s.term(a), s.term(b))
}

// term converts a value to a term.
func (s *Session) term(v Val) Term {
	switch x := v.(type) {
	case Term:
		return x
	case Clo:
		return x.t
	case Addr:
		if x.kind == 'C' && len(x.path) == 0 {
			return x.ref
		}
		if x.kind == 'E' && len(x.path) == 0 {
			// interior pointer to a slice element
			fn := s.declFun("iptr!"+x.heap, "Int Int", "Int")
			return T("Int", "(%s %s %s)", fn, x.ref.S, x.idx.S)
		}
		if x.kind == 'F' && len(x.path) == 0 {
			fn := s.declFun("iptr!"+x.heap, "Int", "Int")
			return T("Int", "(%s %s)", fn, x.ref.S)
		}
		if s.swept {
			s.trusted["an interior pointer ("+x.heap+") is an unknown pointer in the error propagation of "+s.curName] = true
			return s.fresh("iptr", "Int")
		}
		panic(unsup("interior pointer used as a value: %s", x.heap))
	case Tuple:
		if len(x) == 0 {
			return IntLit(0)
		}
		panic(unsup("tuple as term"))
	}
	panic(unsup("value %T as term", v))
}

// ---------- loops ----------

func (f *Frame) loopEffects(li *loopInfo) map[string]bool {
	w := f.s.w
	e := map[string]bool{}
	for b := range li.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if r := rootAlloc(x.Addr); r != nil && w.localAlloc(r) {
					e["L!"+allocID(r)] = true
				} else {
					f.addrHeaps(x.Addr, e)
				}
				continue
			case *ssa.Alloc:
				if w.localAlloc(x) {
					e["L!"+allocID(x)] = true
				}
				continue
			case *ssa.Next:
				e["IT!"+f.iterID(x.Iter)] = true
				continue
			case *ssa.Range:
				e["IT!"+f.iterID(x)] = true
				continue
			}
			w.instrEffects(in, e)
			if c, ok := in.(ssa.CallInstruction); ok {
				f.callEffects(c.Common(), e)
			}
		}
	}
	delete(e, "IT!")
	if f.s.errProp && f.top {
		e["L!errflag"] = true
	}
	return e
}

func (f *Frame) addrHeaps(v ssa.Value, e map[string]bool) {
	f.s.w.addrHeaps(v, e)
}

func (f *Frame) callEffects(c *ssa.CallCommon, e map[string]bool) {
	w := f.s.w
	w.builtinEffects(c, e)
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return
	}
	var cs []*ssa.Function
	if clo, ok := f.vals[c.Value].(Clo); ok && !c.IsInvoke() {
		cs = []*ssa.Function{clo.fn}
	} else {
		cs = w.callees(c)
	}
	for _, g := range cs {
		for k := range w.effOf(g) {
			e[k] = true
		}
	}
	w.externEffects(c, e)
	if f.s.ghostEff != nil {
		f.s.ghostEff(c, e)
	}
}

func (f *Frame) iterID(v ssa.Value) string { return fmt.Sprintf("%p", v) }

func (f *Frame) loopEntry(li *loopInfo, st *State) *State {
	s := f.s
	if f.top {
		s.curLoop = li
		f.checkInvs(li, st, "entry")
	}
	pre := st.clone()
	li.preSt = pre
	eff := f.loopEffects(li)
	var ks []string
	for k := range eff {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "L!") || strings.HasPrefix(k, "IT!") {
			if _, ok := st.heap[k]; !ok {
				continue
			}
		}
		s.havocHeap(st, k)
	}
	na := s.fresh("alloc", "Int")
	s.assume(st, T("Bool", "(>= %s %s)", na.S, st.alloc.S))
	st.alloc = na
	for _, k := range ks {
		if h, ok := st.heap[k]; ok {
			s.origin[h.S] = rootHeap{h, na}
		}
	}
	for _, in := range li.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := f.vals[ph]
		switch init.(type) {
		case Addr, mapIter, Clo:
			// loop-invariant if all back edges carry the phi itself; otherwise unsupported
			for k, p := range li.header.Preds {
				if li.body[p] && ph.Edges[k] != ssa.Value(ph) {
					panic(unsup("loop-carried address"))
				}
			}
			continue
		}
		v := s.fresh("phi:"+ph.Comment, s.sort(ph.Type()))
		f.vals[ph] = v
		s.wf(st, ph.Type(), v)
		f.autoInv(li, ph, s.term(init), v, st)
	}
	// loop-carried named values are visible to the invariants
	if f.top {
		f.assumeInvs(li, st)
	}
	li.havSt = st.clone()
	return st
}

// autoInv adds bounds that hold by construction for counting loops.
func (f *Frame) autoInv(li *loopInfo, ph *ssa.Phi, init, v Term, st *State) {
	s := f.s
	if v.Sort != "Int" {
		return
	}
	up, down := true, true
	for k, p := range li.header.Preds {
		if !li.body[p] {
			continue
		}
		bo, ok := ph.Edges[k].(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(ph) {
			if ph.Edges[k] == ssa.Value(ph) {
				continue
			}
			return
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return
		}
		n, _ := constant.Int64Val(c.Value)
		if bo.Op == token.SUB {
			n = -n
		} else if bo.Op != token.ADD {
			return
		}
		if n < 0 {
			up = false
		}
		if n > 0 {
			down = false
		}
		// range pattern: phi+1 < len
		if n == 1 && ph.Comment == "rangeindex" {
			for _, in := range li.header.Instrs {
				if cmp, ok := in.(*ssa.BinOp); ok && cmp.Op == token.LSS && cmp.X == ssa.Value(bo) {
					if _, isPhi := cmp.Y.(*ssa.Phi); !isPhi {
						if lt, ok := f.vals[cmp.Y]; ok {
							s.assume(st, T("Bool", "(or (= %s (- 1)) (< %s %s))", v.S, v.S, s.term(lt).S))
						} else if cc, ok := cmp.Y.(*ssa.Const); ok {
							s.assume(st, T("Bool", "(or (= %s (- 1)) (< %s %s))", v.S, v.S, s.constant(cc).S))
						}
					}
				}
			}
		}
	}
	if up {
		s.assume(st, T("Bool", "(>= %s %s)", v.S, init.S))
	}
	if down {
		s.assume(st, T("Bool", "(<= %s %s)", v.S, init.S))
	}
}

func (f *Frame) backEdge(li *loopInfo, from *ssa.BasicBlock, st *State) {
	if !f.top {
		return
	}
	saved := map[*ssa.Phi]Val{}
	var k int
	for i, p := range li.header.Preds {
		if p == from {
			k = i
		}
	}
	nv := map[*ssa.Phi]Val{}
	for _, in := range li.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nv[ph] = f.get(st, ph.Edges[k])
	}
	for ph, v := range nv {
		saved[ph] = f.vals[ph]
		f.vals[ph] = v
	}
	f.s.curLoop = li
	f.checkInvs(li, st, "preserved")
	for ph, v := range saved {
		f.vals[ph] = v
	}
}

// ---------- instructions ----------

func (f *Frame) get(st *State, v ssa.Value) Val {
	if r, ok := f.vals[v]; ok {
		return r
	}
	s := f.s
	switch x := v.(type) {
	case *ssa.Const:
		return s.constant(x)
	case *ssa.Function:
		return Clo{fn: x, t: s.fnConst(x)}
	case *ssa.Global:
		return Addr{kind: 'G', heap: "G!" + x.Name(), root: deref(x.Type()), typ: deref(x.Type())}
	case *ssa.Builtin:
		return nil
	}
	panic(unsup("value %s (%T) not computed", v.Name(), v))
}

// noteClosure: which function the closure value r runs and what it captured.
func (s *Session) noteClosure(st *State, fn *ssa.Function, r Term, binds []Val) {
	s.assume(st, T("Bool", "(= (%s %s) %s)", s.declFun("clo!fn", "Int", "Int"), r.S, s.fnConst(fn).S))
	for i, b := range binds {
		bt := s.term(b)
		s.assume(st, T("Bool", "(= (%s %s) %s)", s.declFun(fmt.Sprintf("clo!bind%d!%s", i, bt.Sort), "Int", bt.Sort), r.S, bt.S))
	}
}

// runs: the function value v is fn, plain or as a closure.
func (s *Session) runs(v Term, fn *ssa.Function) Term {
	return T("Bool", "(or (= %s %s) (= (%s %s) %s))", v.S, s.fnConst(fn).S, s.declFun("clo!fn", "Int", "Int"), v.S, s.fnConst(fn).S)
}

// captured: what the variable name of the closure v, made from fn, holds.
func (s *Session) captured(st *State, v Term, fn *ssa.Function, name string) SVal {
	for i, fv := range fn.FreeVars {
		if fv.Name() != name {
			continue
		}
		srt := s.sort(fv.Type())
		b := T(srt, "(%s %s)", s.declFun(fmt.Sprintf("clo!bind%d!%s", i, srt), "Int", srt), v.S)
		if p, ok := fv.Type().Underlying().(*types.Pointer); ok {
			if _, isS := p.Elem().Underlying().(*types.Struct); !isS {
				a := Addr{kind: 'C', heap: s.w.varCell(fv, p.Elem()), ref: b, root: p.Elem(), typ: p.Elem()}
				return SVal{s.load(st, a), p.Elem()}
			}
		}
		return SVal{b, fv.Type()}
	}
	panic(serr("%s captures no %s", fn.Name(), name))
}

func (w *World) named(name string) *ssa.Function {
	for fn, n := range w.names {
		if n == name {
			return fn
		}
	}
	panic(serr("no function %s", name))
}

func (s *Session) fnConst(fn *ssa.Function) Term {
	n := "fn!" + s.w.shortName(fn)
	if !s.sortSet[n] {
		s.sortSet[n] = true
		s.nfn++
		s.sorts = append(s.sorts, fmt.Sprintf("(define-fun %s () Int (- %d))", q(n), 1000+s.nfn))
	}
	return Term{q(n), "Int"}
}

func (s *Session) constant(c *ssa.Const) Term {
	srt := s.sort(c.Type())
	if c.Value == nil {
		return s.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return True
		}
		return False
	case constant.String:
		return smtString(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if strings.HasPrefix(srt, "(_ Float") {
			return s.floatConst(c.Value, srt)
		}
		if srt == "Iface" {
			return s.zero(c.Type())
		}
		v := constant.ToInt(c.Value)
		return s.intConst(v.ExactString(), srt)
	}
	nm := q("const!" + c.String())
	if !s.sortSet[nm] {
		s.sortSet[nm] = true
		s.sorts = append(s.sorts, fmt.Sprintf("(declare-const %s %s)", nm, srt))
	}
	return Term{nm, srt}
}

func (f *Frame) addr(st *State, v ssa.Value) Addr {
	s := f.s
	x := f.get(st, v)
	if a, ok := x.(Addr); ok {
		return a
	}
	t := s.term(x)
	elem := deref(v.Type())
	switch elem.Underlying().(type) {
	case *types.Struct:
		return Addr{kind: 'S', ref: t, root: elem, typ: elem}
	case *types.Array:
		return Addr{kind: 'A', ref: t, root: elem, typ: elem}
	}
	return Addr{kind: 'C', heap: s.w.varCell(v, elem), ref: t, root: elem, typ: elem}
}

func (s *Session) loadAny(st *State, a Addr) Term {
	switch a.kind {
	case 'S':
		return s.loadStruct(st, a.typ, a.ref)
	case 'A':
		_, h := s.elemArr(st, a.typ.Underlying().(*types.Array).Elem())
		return Select(h, a.ref)
	}
	return s.load(st, a)
}

func (s *Session) storeAny(st *State, a Addr, v Term) {
	switch a.kind {
	case 'S':
		s.storeStruct(st, a.typ, a.ref, v)
	case 'A':
		n, h := s.elemArr(st, a.typ.Underlying().(*types.Array).Elem())
		s.heapSet(st, n, Store(h, a.ref, v))
	default:
		s.store(st, a, v)
	}
}

func (f *Frame) safety(st *State, kind string, pos token.Pos, ok Term) {
	s := f.s
	if s.safe && (f.top || s.safeDeep) && !(s.safeNoNil && kind == "nil") {
		s.check(st, "safety", fmt.Sprintf("safe:%s@%s", kind, s.siteName(f, kind)), s.posStr(pos), ok)
	} else {
		s.assume(st, ok)
		if kind != "nil" {
			s.trusted["panic-freedom of "+s.w.names[f.fn]+" ("+kind+")"] = true
		}
	}
}

func (s *Session) siteName(f *Frame, kind string) string {
	return s.w.shortName(f.fn)
}

func (f *Frame) set(in ssa.Value, v Val) {
	if t, ok := v.(Term); ok {
		nm := in.Name()
		v = f.s.name(nm, t)
	}
	f.vals[in] = v
}

func (f *Frame) branch(st *State, from, to *ssa.BasicBlock, cond Term) {
	ns := st.clone()
	ns.pc = f.s.name("pc", And(st.pc, cond))
	if ns.pc.S == "false" {
		return
	}
	if to.Dominates(from) {
		if li := f.loops[to]; li != nil {
			f.backEdge(li, from, ns)
			return
		}
	}
	f.edges[to] = append(f.edges[to], edgeIn{from, ns})
}

// instr executes one instruction; false = block ends.
func (f *Frame) instr(st *State, in ssa.Instruction, b *ssa.BasicBlock) bool {
	s := f.s
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.alloc(st, x)
	case *ssa.BinOp:
		f.set(x, f.binop(st, x))
	case *ssa.UnOp:
		f.unop(st, x)
	case *ssa.ChangeType:
		f.vals[x] = f.get(st, x.X)
	case *ssa.ChangeInterface:
		v := s.term(f.get(st, x.X))
		f.vals[x] = v
		if types.IsInterface(x.Type()) && x.Type().Underlying().(*types.Interface).NumMethods() > 0 {
			tg := s.tag(x.Type())
			s.assume(st, T("Bool", "(=> (not (= (itag %s) 0)) (implements (itag %s) %s))", v.S, v.S, tg.S))
		}
	case *ssa.Convert:
		f.set(x, f.convert(st, x))
	case *ssa.MakeInterface:
		f.set(x, s.makeIface(x.X.Type(), s.term(f.get(st, x.X))))
	case *ssa.MakeClosure:
		var binds []Val
		for _, bv := range x.Bindings {
			binds = append(binds, f.get(st, bv))
		}
		r := s.newRef(st)
		f.vals[x] = Clo{fn: x.Fn.(*ssa.Function), binds: binds, t: r}
		s.noteClosure(st, x.Fn.(*ssa.Function), r, binds)
	case *ssa.MakeMap:
		r := s.newRef(st)
		m := x.Type().Underlying().(*types.Map)
		ns, dom, _, ln := s.mapArrs(st, x.Type())
		s.heapSet(st, ns[0], Store(dom, r, T(fmt.Sprintf("(Array %s Bool)", s.sort(m.Key())), "((as const (Array %s Bool)) false)", s.sort(m.Key()))))
		s.heapSet(st, ns[2], Store(ln, r, IntLit(0)))
		f.vals[x] = r
	case *ssa.MakeChan:
		f.vals[x] = s.newRef(st)
	case *ssa.MakeSlice:
		r := s.newRef(st)
		el := x.Type().Underlying().(*types.Slice).Elem()
		n, h := s.elemArr(st, el)
		s.heapSet(st, n, Store(h, r, T("(Array Int "+s.sort(el)+")", "((as const (Array Int %s)) %s)", s.sort(el), s.zero(el).S)))
		ln := s.toInt(s.term(f.get(st, x.Len)), x.Len.Type())
		cp := s.toInt(s.term(f.get(st, x.Cap)), x.Cap.Type())
		f.safety(st, "makeslice", x.Pos(), T("Bool", "(and (<= 0 %s) (<= %s %s))", ln.S, ln.S, cp.S))
		f.set(x, T("Slice", "(mkSlice %s 0 %s %s)", r.S, ln.S, cp.S))
	case *ssa.Slice:
		f.slice(st, x)
	case *ssa.FieldAddr:
		f.fieldAddr(st, x)
	case *ssa.Field:
		v := s.term(f.get(st, x.X))
		f.set(x, s.field(x.X.Type(), v, x.Field))
	case *ssa.IndexAddr:
		f.indexAddr(st, x)
	case *ssa.Index:
		i := s.toInt(s.term(f.get(st, x.Index)), x.Index.Type())
		v := s.term(f.get(st, x.X))
		if v.Sort == "String" {
			f.safety(st, "index", x.Pos(), T("Bool", "(and (<= 0 %s) (< %s (str.len %s)))", i.S, i.S, v.S))
			f.set(x, s.byteAt(v, i))
			break
		}
		at := x.X.Type().Underlying().(*types.Array)
		f.safety(st, "index", x.Pos(), T("Bool", "(and (<= 0 %s) (< %s %d))", i.S, i.S, at.Len()))
		f.set(x, Select(v, i))
	case *ssa.Lookup:
		f.lookup(st, x)
	case *ssa.MapUpdate:
		m := s.term(f.get(st, x.Map))
		k := s.term(f.get(st, x.Key))
		v := s.term(f.get(st, x.Value))
		f.safety(st, "nilmap", x.Pos(), Not(Eq(m, IntLit(0))))
		s.mapSet(st, x.Map.Type(), m, k, v)
	case *ssa.Range:
		id := f.iterID(x)
		v := s.term(f.get(st, x.X))
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			ks := s.sort(mt.Key())
			srt := fmt.Sprintf("(Array %s Bool)", ks)
			h := "IT!" + id
			s.heapSort[h] = srt
			st.heap[h] = T(srt, "((as const %s) false)", srt)
			f.vals[x] = mapIter{m: v, mt: x.X.Type(), id: id}
		} else {
			f.vals[x] = mapIter{str: true, strT: v, id: id}
		}
	case *ssa.Next:
		f.next(st, x)
	case *ssa.TypeAssert:
		f.typeAssert(st, x)
	case *ssa.Extract:
		t := f.get(st, x.Tuple).(Tuple)
		f.vals[x] = t[x.Index]
	case *ssa.Store:
		v := f.get(st, x.Val)
		a := f.addr(st, x.Addr)
		if a.kind == 'S' || a.kind == 'A' || a.kind == 'C' || a.kind == 'F' {
			f.safety(st, "nil", x.Pos(), Not(Eq(a.ref, IntLit(0))))
		}
		s.storeAny(st, a, s.term(v))
	case *ssa.Call:
		r := f.call(st, x.Common(), x, x.Type())
		f.setRes(x, r)
	case *ssa.Defer:
		f.defers = append(f.defers, deferRec{x, st.pc})
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			if !d.in.Block().Dominates(b) {
				// conditionally registered: over-approximate by havoc of its effects
				e := map[string]bool{}
				f.callEffects(&d.in.Call, e)
				f.havocAll(st, e)
				continue
			}
			f.call(st, &d.in.Call, d.in, nil)
		}
	case *ssa.Go:
		e := map[string]bool{}
		f.callEffects(&x.Call, e)
		f.havocAll(st, e)
		s.trusted["goroutine started in "+s.w.names[f.fn]+" treated as an immediate havoc of its effects"] = true
	case *ssa.Send:
	case *ssa.Select:
		tt := x.Type().(*types.Tuple)
		var r Tuple
		for i := 0; i < tt.Len(); i++ {
			v := s.fresh("sel", s.sort(tt.At(i).Type()))
			s.wf(st, tt.At(i).Type(), v)
			r = append(r, v)
		}
		f.vals[x] = r
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	case *ssa.If:
		c := s.term(f.get(st, x.Cond))
		f.branch(st, b, b.Succs[0], c)
		f.branch(st, b, b.Succs[1], Not(c))
		return false
	case *ssa.Jump:
		f.branch(st, b, b.Succs[0], True)
		return false
	case *ssa.Return:
		var vs []Val
		for _, r := range x.Results {
			vs = append(vs, f.get(st, r))
		}
		f.rets = append(f.rets, retInfo{st.clone(), vs})
		return false
	case *ssa.Panic:
		f.safety(st, "panic", x.Pos(), False)
		return false
	default:
		panic(unsup("instruction %T", in))
	}
	return true
}

func (f *Frame) setRes(x *ssa.Call, r Val) {
	if r == nil {
		return
	}
	f.set(x, r)
}

func (f *Frame) havocAll(st *State, e map[string]bool) {
	var ks []string
	for k := range e {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "IT!") || strings.HasPrefix(k, "L!") {
			continue
		}
		f.s.havocHeap(st, k)
	}
	na := f.s.fresh("alloc", "Int")
	f.s.assume(st, T("Bool", "(>= %s %s)", na.S, st.alloc.S))
	st.alloc = na
	for _, k := range ks {
		if h, ok := st.heap[k]; ok && !strings.HasPrefix(k, "L!") {
			f.s.origin[h.S] = rootHeap{h, na}
		}
	}
}

func (f *Frame) alloc(st *State, x *ssa.Alloc) {
	s := f.s
	t := deref(x.Type())
	if s.w.localAlloc(x) {
		h := "L!" + allocID(x)
		s.heapSort[h] = s.sort(t)
		st.heap[h] = s.zero(t)
		f.vals[x] = Addr{kind: 'L', heap: h, root: t, typ: t}
		return
	}
	r := s.newRef(st)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if s.isOpaqueStruct(t) {
			s.storeStruct(st, t, r, s.zero(t))
		} else {
			for i := 0; i < u.NumFields(); i++ {
				n, h := s.fieldArr(st, t, i)
				s.heapSet(st, n, Store(h, r, s.zero(u.Field(i).Type())))
			}
		}
		f.vals[x] = r
	case *types.Array:
		n, h := s.elemArr(st, u.Elem())
		s.heapSet(st, n, Store(h, r, s.zero(t)))
		f.vals[x] = r
	default:
		a := Addr{kind: 'C', heap: s.w.varCell(x, t), ref: r, root: t, typ: t}
		s.store(st, a, s.zero(t))
		f.vals[x] = a
	}
}

func (f *Frame) fieldAddr(st *State, x *ssa.FieldAddr) {
	s := f.s
	bt := deref(x.X.Type())
	ft := bt.Underlying().(*types.Struct).Field(x.Field).Type()
	a := f.addr(st, x.X)
	switch a.kind {
	case 'S':
		f.safety(st, "nil", x.Pos(), Not(Eq(a.ref, IntLit(0))))
		if s.isOpaqueStruct(bt) {
			fn := s.declFun("iptr!"+s.w.ts(bt)+"!"+fmt.Sprint(x.Field), "Int", "Int")
			r := T("Int", "(%s %s)", fn, a.ref.S)
			f.vals[x] = Addr{kind: 'C', heap: s.w.cellHeap(ft), ref: r, root: ft, typ: ft}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				f.vals[x] = r
			}
			return
		}
		f.vals[x] = Addr{kind: 'F', heap: s.w.fieldHeap(bt, x.Field), ref: a.ref, root: ft, typ: ft}
	default:
		if s.isOpaqueStruct(bt) {
			if s.swept {
				s.trusted["a field of an opaque struct is an unknown cell in the error propagation of "+s.curName] = true
				r := s.fresh("iptr", "Int")
				f.vals[x] = Addr{kind: 'C', heap: s.w.cellHeap(ft), ref: r, root: ft, typ: ft}
				if _, ok := ft.Underlying().(*types.Struct); ok {
					f.vals[x] = r
				}
				return
			}
			panic(unsup("field of opaque struct value"))
		}
		na := a
		na.path = append(append([]pathEl{}, a.path...), pathEl{field: x.Field, styp: bt})
		na.typ = ft
		f.vals[x] = na
	}
}

func (f *Frame) indexAddr(st *State, x *ssa.IndexAddr) {
	s := f.s
	i := s.toInt(s.term(f.get(st, x.Index)), x.Index.Type())
	if sl, ok := x.X.Type().Underlying().(*types.Slice); ok {
		v := s.term(f.get(st, x.X))
		f.safety(st, "index", x.Pos(), T("Bool", "(and (<= 0 %s) (< %s (sl!len %s)))", i.S, i.S, v.S))
		idx := T("Int", "(sl!at (sl!off %s) %s)", v.S, i.S)
		f.vals[x] = Addr{kind: 'E', heap: s.w.elemHeap(sl.Elem()), ref: s.name("ar", T("Int", "(sl!arr %s)", v.S)), idx: idx, root: sl.Elem(), typ: sl.Elem()}
		return
	}
	at := deref(x.X.Type()).Underlying().(*types.Array)
	f.safety(st, "index", x.Pos(), T("Bool", "(and (<= 0 %s) (< %s %d))", i.S, i.S, at.Len()))
	a := f.addr(st, x.X)
	if a.kind == 'A' {
		f.vals[x] = Addr{kind: 'E', heap: s.w.elemHeap(at.Elem()), ref: a.ref, idx: i, root: at.Elem(), typ: at.Elem()}
		return
	}
	na := a
	na.path = append(append([]pathEl{}, a.path...), pathEl{field: -1, idx: i})
	na.typ = at.Elem()
	f.vals[x] = na
}

func (f *Frame) unop(st *State, x *ssa.UnOp) {
	s := f.s
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			f.vals[x] = s.globalVal(st, g)
			return
		}
		a := f.addr(st, x.X)
		if a.kind == 'S' || a.kind == 'A' || a.kind == 'C' || a.kind == 'F' {
			f.safety(st, "nil", x.Pos(), Not(Eq(a.ref, IntLit(0))))
		}
		v := s.name(x.Name(), s.loadAny(st, a))
		f.vals[x] = v
		s.wf(st, x.Type(), v)
		s.oldWf(st, a, x.Type())
	case token.NOT:
		f.set(x, Not(s.term(f.get(st, x.X))))
	case token.SUB:
		v := s.term(f.get(st, x.X))
		switch {
		case bvWidth(v.Sort) > 0:
			f.set(x, T(v.Sort, "(bvneg %s)", v.S))
		case v.Sort == "Int":
			f.set(x, T("Int", "(- %s)", v.S))
		case strings.HasPrefix(v.Sort, "(_ Fl"):
			f.set(x, T(v.Sort, "(fp.neg %s)", v.S))
		default:
			f.set(x, s.fresh("neg", v.Sort))
		}
	case token.XOR:
		v := s.term(f.get(st, x.X))
		if bvWidth(v.Sort) > 0 {
			f.set(x, T(v.Sort, "(bvnot %s)", v.S))
		} else {
			f.set(x, T("Int", "(- (- %s) 1)", v.S))
		}
	case token.ARROW:
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			v := s.fresh("recv", s.sort(tt.At(0).Type()))
			f.vals[x] = Tuple{v, s.fresh("recvok", "Bool")}
		} else {
			v := s.fresh("recv", s.sort(x.Type()))
			s.wf(st, x.Type(), v)
			f.vals[x] = v
		}
	default:
		panic(unsup("unop %s", x.Op))
	}
}

// globalVal reads a package-level variable.
func (s *Session) globalVal(st *State, g *ssa.Global) Term {
	t := deref(g.Type())
	name := "G!" + g.Name()
	if g.Pkg != s.w.pkg {
		name = "G!" + g.Pkg.Pkg.Path() + "." + g.Name()
	}
	srt := s.sort(t)
	if g.Pkg != s.w.pkg || s.w.immutableGlobal(g) {
		nm := q("const" + name)
		if !s.sortSet[nm] {
			s.sortSet[nm] = true
			s.sorts = append(s.sorts, fmt.Sprintf("(declare-const %s %s)", nm, srt))
			s.globalFact(g, Term{nm, srt}, t)
		}
		return Term{nm, srt}
	}
	v := s.heapGet(st, name, srt)
	s.wf(st, t, v)
	return v
}

// globalFact records what package initialisation guarantees about an immutable global.
func (s *Session) globalFact(g *ssa.Global, v Term, t types.Type) {
	if s.startAlloc.S == "" {
		return
	}
	s.nglob++
	gi := s.w.ginit[g]
	idx := s.nglob
	add := func(f string) { s.sorts = append(s.sorts, "(assert "+f+")") }
	val := gi.val
	mi, isMI := val.(*ssa.MakeInterface)
	if isMI {
		val = mi.X
	}
	switch x := val.(type) {
	case *ssa.Alloc:
		if isMI {
			tg := s.tag(mi.X.Type())
			add(fmt.Sprintf("(= %s (mkI %s %d))", v.S, tg.S, idx))
		} else if v.Sort == "Int" {
			add(fmt.Sprintf("(= %s %d)", v.S, idx))
		}
		return
	case *ssa.MakeMap:
		if v.Sort == "Int" {
			add(fmt.Sprintf("(= %s %d)", v.S, idx))
		}
		return
	case *ssa.Const:
		if !isMI && x.Value != nil {
			add(fmt.Sprintf("(= %s %s)", v.S, s.constant(x).S))
		}
		return
	case *ssa.Call:
		if cf := x.Call.StaticCallee(); cf != nil {
			n := cf.String()
			if n == "errors.New" || n == "fmt.Errorf" {
				tg := s.tag(types.Universe.Lookup("error").Type())
				_ = tg
				add(fmt.Sprintf("(and (= (ival %s) %d) (> (itag %s) 0))", v.S, idx, v.S))
				return
			}
		}
	}
	if g.Pkg != s.w.pkg && v.Sort == "Iface" && s.w.ts(t) == "error" {
		add(fmt.Sprintf("(and (= (ival %s) %d) (> (itag %s) 0))", v.S, idx, v.S))
		return
	}
	// no fact beyond well-formedness
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		add(fmt.Sprintf("(and (<= 0 %s) (< %s 100000))", v.S, v.S))
	case *types.Interface:
		add(fmt.Sprintf("(and (< (ival %s) 100000) (<= 0 (itag %s)))", v.S, v.S))
	case *types.Slice:
		add(fmt.Sprintf("(and (<= 0 (sl!off %s)) (<= 0 (sl!len %s)) (<= (sl!len %s) (sl!cap %s)) (<= 0 (sl!arr %s)) (< (sl!arr %s) 100000))", v.S, v.S, v.S, v.S, v.S, v.S))
	}
}

func (s *Session) toInt(t Term, ty types.Type) Term {
	if w := bvWidth(t.Sort); w > 0 {
		if isUnsigned(ty) {
			return T("Int", "(bv2nat %s)", t.S)
		}
		return T("Int", "(let ((x!b %s)) (ite (bvslt x!b (_ bv0 %d)) (- (bv2nat x!b) %s) (bv2nat x!b)))", t.S, w, pow2(w))
	}
	return t
}

func pow2(w int) string {
	switch w {
	case 64:
		return "18446744073709551616"
	case 32:
		return "4294967296"
	case 16:
		return "65536"
	case 8:
		return "256"
	}
	panic("pow2")
}

func (s *Session) byteAt(str, i Term) Term {
	t := T("Int", "(str.to_code (str.at %s %s))", str.S, i.S)
	if s.bv {
		return T("(_ BitVec 8)", "((_ int2bv 8) %s)", t.S)
	}
	return t
}

func (f *Frame) slice(st *State, x *ssa.Slice) {
	s := f.s
	geti := func(v ssa.Value, d Term) Term {
		if v == nil {
			return d
		}
		return s.toInt(s.term(f.get(st, v)), v.Type())
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		v := s.term(f.get(st, x.X))
		lo := geti(x.Low, IntLit(0))
		hi := geti(x.High, T("Int", "(str.len %s)", v.S))
		f.safety(st, "slice", x.Pos(), T("Bool", "(and (<= 0 %s) (<= %s %s) (<= %s (str.len %s)))", lo.S, lo.S, hi.S, hi.S, v.S))
		f.set(x, T("String", "(str.substr %s %s (- %s %s))", v.S, lo.S, hi.S, lo.S))
	case *types.Slice:
		v := s.term(f.get(st, x.X))
		lo := geti(x.Low, IntLit(0))
		hi := geti(x.High, T("Int", "(sl!len %s)", v.S))
		mx := geti(x.Max, T("Int", "(sl!cap %s)", v.S))
		f.safety(st, "slice", x.Pos(), T("Bool", "(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s (sl!cap %s)))", lo.S, lo.S, hi.S, hi.S, mx.S, mx.S, v.S))
		f.set(x, T("Slice", "(mkSlice (sl!arr %s) (+ (sl!off %s) %s) (- %s %s) (- %s %s))", v.S, v.S, lo.S, hi.S, lo.S, mx.S, lo.S))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := f.addr(st, x.X)
		if a.kind != 'A' {
			panic(unsup("slice of embedded array"))
		}
		n := IntLit(at.Len())
		lo := geti(x.Low, IntLit(0))
		hi := geti(x.High, n)
		mx := geti(x.Max, n)
		f.safety(st, "slice", x.Pos(), T("Bool", "(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo.S, lo.S, hi.S, hi.S, mx.S))
		f.set(x, T("Slice", "(mkSlice %s %s (- %s %s) (- %s %s))", a.ref.S, lo.S, hi.S, lo.S, mx.S, lo.S))
	default:
		panic(unsup("slice of %T", u))
	}
}

func (s *Session) mapSet(st *State, mt types.Type, m, k, v Term) {
	ns, dom, val, ln := s.mapArrs(st, mt)
	had := s.name("had", Select(Select(dom, m), k))
	s.heapSet(st, ns[2], Store(ln, m, Ite(had, Select(ln, m), T("Int", "(+ 1 %s)", Select(ln, m).S))))
	s.heapSet(st, ns[0], Store(dom, m, Store(Select(dom, m), k, True)))
	s.heapSet(st, ns[1], Store(val, m, Store(Select(val, m), k, v)))
}

func (s *Session) mapDel(st *State, mt types.Type, m, k Term) {
	ns, dom, _, ln := s.mapArrs(st, mt)
	had := s.name("had", And(Not(Eq(m, IntLit(0))), Select(Select(dom, m), k)))
	s.heapSet(st, ns[2], Store(ln, m, Ite(had, T("Int", "(- %s 1)", Select(ln, m).S), Select(ln, m))))
	s.heapSet(st, ns[0], Store(dom, m, Store(Select(dom, m), k, False)))
}

func (s *Session) mapHas(st *State, mt types.Type, m, k Term) Term {
	_, dom, _, _ := s.mapArrs(st, mt)
	return And(Not(Eq(m, IntLit(0))), Select(Select(dom, m), k))
}

func (f *Frame) lookup(st *State, x *ssa.Lookup) {
	s := f.s
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		m := s.term(f.get(st, x.X))
		k := s.term(f.get(st, x.Index))
		_, _, val, ln := s.mapArrs(st, x.X.Type())
		has := s.name("has", s.mapHas(st, x.X.Type(), m, k))
		raw := s.name("mv", Select(Select(val, m), k))
		s.wf(st, mt.Elem(), raw)
		s.assume(st, T("Bool", "(and (>= %s 0) (=> %s (>= %s 1)))", Select(ln, m).S, has.S, Select(ln, m).S))
		v := s.name("mv", Ite(has, raw, s.zero(mt.Elem())))
		if x.CommaOk {
			f.vals[x] = Tuple{v, has}
		} else {
			f.vals[x] = v
		}
		return
	}
	i := s.toInt(s.term(f.get(st, x.Index)), x.Index.Type())
	v := s.term(f.get(st, x.X))
	f.safety(st, "index", x.Pos(), T("Bool", "(and (<= 0 %s) (< %s (str.len %s)))", i.S, i.S, v.S))
	f.set(x, s.byteAt(v, i))
}

func (f *Frame) next(st *State, x *ssa.Next) {
	s := f.s
	it := f.get(st, x.Iter).(mapIter)
	ok := s.fresh("next.ok", "Bool")
	if it.str {
		i := s.fresh("next.i", s.sort(types.Typ[types.Int]))
		r := s.fresh("next.r", s.sort(types.Typ[types.Rune]))
		s.assume(st, Imp(ok, T("Bool", "(and (<= 0 %s) (< %s (str.len %s)))", i.S, i.S, it.strT.S)))
		if r.Sort == "Int" {
			s.assume(st, Imp(ok, T("Bool", "(and (<= 0 %s) (<= %s 1114111))", r.S, r.S)))
			s.assume(st, Imp(ok, T("Bool", "(=> (< (str.to_code (str.at %s %s)) 128) (= %s (str.to_code (str.at %s %s))))", it.strT.S, i.S, r.S, it.strT.S, i.S)))
		}
		f.vals[x] = Tuple{ok, i, r}
		return
	}
	mt := it.mt.Underlying().(*types.Map)
	k := s.fresh("next.k", s.sort(mt.Key()))
	s.wf(st, mt.Key(), k)
	h := "IT!" + it.id
	vis := s.heapGet(st, h, fmt.Sprintf("(Array %s Bool)", s.sort(mt.Key())))
	_, dom, val, _ := s.mapArrs(st, it.mt)
	has := s.mapHas(st, it.mt, it.m, k)
	s.assume(st, Imp(ok, And(has, Not(Select(vis, k)))))
	v := s.name("next.v", Select(Select(val, it.m), k))
	s.wf(st, mt.Elem(), v)
	// completeness, when the loop does not write this kind of map
	dn, _, _ := s.w.mapHeaps(it.mt)
	writes := false
	for _, li := range f.loops {
		if li.body[x.Block()] {
			if f.loopEffects(li)[dn] {
				writes = true
			}
		}
	}
	if !writes {
		ks := s.sort(mt.Key())
		s.assume(st, Imp(Not(ok), T("Bool", "(forall ((k!q %s)) (=> (and (not (= %s 0)) (select (select %s %s) k!q)) (select %s k!q)))", ks, it.m.S, dom.S, it.m.S, vis.S)))
	}
	nv := Ite(ok, Store(vis, k, True), vis)
	s.heapSet(st, h, nv)
	f.vals[x] = Tuple{ok, k, v}
}

func (f *Frame) typeAssert(st *State, x *ssa.TypeAssert) {
	s := f.s
	v := s.term(f.get(st, x.X))
	c := s.name("is", s.hasType(v, x.AssertedType))
	var r Term
	if types.IsInterface(x.AssertedType) {
		r = v
	} else {
		r = s.asConcrete(v, x.AssertedType)
	}
	if x.CommaOk {
		rr := s.name(x.Name(), Ite(c, r, s.zero(x.AssertedType)))
		f.vals[x] = Tuple{rr, c}
		ns := *st
		ns.pc = And(st.pc, c)
		s.wfIface(&ns, x.AssertedType, r)
		return
	}
	f.safety(st, "typeassert", x.Pos(), c)
	f.set(x, r)
	s.wfIface(st, x.AssertedType, r)
}

func (s *Session) wfIface(st *State, t types.Type, v Term) {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		s.assume(st, T("Bool", "(and (<= 0 %s) (< %s %s))", v.S, v.S, st.alloc.S))
	case *types.Slice, *types.Basic:
		s.wf(st, t, v)
	}
}
