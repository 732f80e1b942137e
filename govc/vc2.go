package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *Frame) binop(st *State, x *ssa.BinOp) Val {
	s := f.s
	a := s.term(f.get(st, x.X))
	b := s.term(f.get(st, x.Y))
	// interface vs concrete comparison
	if a.Sort != b.Sort && (x.Op == token.EQL || x.Op == token.NEQ) {
		if a.Sort == "Iface" {
			b = s.makeIface(x.Y.Type(), b)
		} else if b.Sort == "Iface" {
			a = s.makeIface(x.X.Type(), a)
		}
	}
	if x.Op == token.QUO || x.Op == token.REM {
		if a.Sort == "Int" {
			f.safety(st, "div", x.Pos(), Not(Eq(b, IntLit(0))))
		} else if w := bvWidth(a.Sort); w > 0 {
			f.safety(st, "div", x.Pos(), Not(Eq(b, T(b.Sort, "(_ bv0 %d)", w))))
		}
	}
	return s.arith(x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type())
}

// heavy operations are named functions, so that a first attempt can leave them uninterpreted
// (sound for a proof: whatever holds for every function holds for this one).
func (s *Session) heavy(op, sort, pre string) string {
	n := q("op!" + op + "!" + sort)
	if !s.sortSet["heavy:"+n] {
		s.sortSet["heavy:"+n] = true
		s.sorts = append(s.sorts, "\x00"+fmt.Sprintf("(declare-fun %s (%s %s) %s)\x00(define-fun %s ((a %s) (b %s)) %s (%s %sa b))", n, sort, sort, sort, n, sort, sort, sort, op, pre))
	}
	return n
}

func (s *Session) arith(op token.Token, a, b Term, ta, tb, tr types.Type) Term {
	bin := func(f string, sort string) Term { return T(sort, "(%s %s %s)", f, a.S, b.S) }
	switch op {
	case token.EQL, token.NEQ:
		var r Term
		switch {
		case strings.HasPrefix(a.Sort, "(_ Fl"):
			r = bin("fp.eq", "Bool")
		case a.Sort == "Slice" && (a.S == "(mkSlice 0 0 0 0)" || b.S == "(mkSlice 0 0 0 0)"):
			// comparison with nil
			v := a
			if a.S == "(mkSlice 0 0 0 0)" {
				v = b
			}
			r = T("Bool", "(= (sl!arr %s) 0)", v.S)
		default:
			r = Eq(a, b)
		}
		if op == token.NEQ {
			return Not(r)
		}
		return r
	}
	if w := bvWidth(a.Sort); w > 0 {
		u := isUnsigned(ta)
		if op == token.SHL || op == token.SHR {
			// shift count may have another width
			if bw := bvWidth(b.Sort); bw == 0 {
				b = T(a.Sort, "((_ int2bv %d) %s)", w, b.S)
			} else if bw < w {
				b = T(a.Sort, "((_ zero_extend %d) %s)", w-bw, b.S)
			} else if bw > w {
				b = T(a.Sort, "(ite (bvuge %s (_ bv%d %d)) (_ bv%d %d) ((_ extract %d 0) %s))", b.S, w, bw, w, w, w-1, b.S)
			}
		}
		m := map[token.Token][2]string{token.ADD: {"bvadd", "bvadd"}, token.SUB: {"bvsub", "bvsub"}, token.MUL: {"bvmul", "bvmul"},
			token.QUO: {"bvsdiv", "bvudiv"}, token.REM: {"bvsrem", "bvurem"}, token.AND: {"bvand", "bvand"}, token.OR: {"bvor", "bvor"},
			token.XOR: {"bvxor", "bvxor"}, token.SHL: {"bvshl", "bvshl"}, token.SHR: {"bvashr", "bvlshr"}}
		c := map[token.Token][2]string{token.LSS: {"bvslt", "bvult"}, token.LEQ: {"bvsle", "bvule"}, token.GTR: {"bvsgt", "bvugt"}, token.GEQ: {"bvsge", "bvuge"}}
		k := 0
		if u {
			k = 1
		}
		if f, ok := c[op]; ok {
			return bin(f[k], "Bool")
		}
		if f, ok := m[op]; ok {
			if op == token.MUL || op == token.QUO || op == token.REM {
				return bin(s.heavy(f[k], a.Sort, ""), a.Sort)
			}
			return bin(f[k], a.Sort)
		}
		if op == token.AND_NOT {
			return T(a.Sort, "(bvand %s (bvnot %s))", a.S, b.S)
		}
	}
	if strings.HasPrefix(a.Sort, "(_ Fl") {
		c := map[token.Token]string{token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq"}
		if f, ok := c[op]; ok {
			return bin(f, "Bool")
		}
		m := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}
		if f, ok := m[op]; ok {
			return bin(s.heavy(f, a.Sort, "RNE "), a.Sort)
		}
	}
	if a.Sort == "String" {
		switch op {
		case token.ADD:
			return bin("str.++", "String")
		case token.LSS:
			return bin("str.<", "Bool")
		case token.LEQ:
			return bin("str.<=", "Bool")
		case token.GTR:
			return T("Bool", "(str.< %s %s)", b.S, a.S)
		case token.GEQ:
			return T("Bool", "(str.<= %s %s)", b.S, a.S)
		}
	}
	if a.Sort == "Int" {
		switch op {
		case token.ADD:
			return bin("+", "Int")
		case token.SUB:
			return bin("-", "Int")
		case token.MUL:
			return bin("*", "Int")
		case token.QUO:
			return bin("go!div", "Int")
		case token.REM:
			return bin("go!rem", "Int")
		case token.LSS:
			return bin("<", "Bool")
		case token.LEQ:
			return bin("<=", "Bool")
		case token.GTR:
			return bin(">", "Bool")
		case token.GEQ:
			return bin(">=", "Bool")
		default:
			fn := s.declFun("bit!"+op.String(), "Int Int", "Int")
			return bin(fn, "Int")
		}
	}
	if a.Sort == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	panic(unsup("binop %s on %s", op, a.Sort))
}

// conv converts between numeric/string types.
func (s *Session) conv(v Term, from, to types.Type) Term {
	ts := s.sort(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			fw, tw := bvWidth(v.Sort), bvWidth(ts)
			switch {
			case fw > 0 && tw > 0:
				switch {
				case fw == tw:
					return v
				case fw > tw:
					return T(ts, "((_ extract %d 0) %s)", tw-1, v.S)
				case isUnsigned(from):
					return T(ts, "((_ zero_extend %d) %s)", tw-fw, v.S)
				default:
					return T(ts, "((_ sign_extend %d) %s)", tw-fw, v.S)
				}
			case fw > 0:
				return s.toInt(v, from)
			case tw > 0:
				return T(ts, "((_ int2bv %d) %s)", tw, v.S)
			}
			return v
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			p := "11 53"
			if strings.Contains(ts, "8 24") {
				p = "8 24"
			}
			if bvWidth(v.Sort) > 0 {
				if isUnsigned(from) {
					return T(ts, "((_ to_fp_unsigned %s) RNE %s)", p, v.S)
				}
				return T(ts, "((_ to_fp %s) RNE %s)", p, v.S)
			}
			return T(ts, "((_ to_fp %s) RNE (to_real %s))", p, v.S)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if v.Sort == ts {
				return v
			}
			p := "11 53"
			if strings.Contains(ts, "8 24") {
				p = "8 24"
			}
			return T(ts, "((_ to_fp %s) RNE %s)", p, v.S)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			fn := s.declFun("f2i!"+v.Sort+ts, v.Sort, ts)
			return T(ts, "(%s %s)", fn, v.S)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			fn := s.declFun("rune2str!"+v.Sort, v.Sort, "String")
			return T(ts, "(%s %s)", fn, v.S)
		}
	}
	if v.Sort == ts && !types.IsInterface(to) {
		return v
	}
	panic(unsup("conversion %s -> %s", s.w.ts(from), s.w.ts(to)))
}

func (f *Frame) convert(st *State, x *ssa.Convert) Val {
	s := f.s
	v := s.term(f.get(st, x.X))
	from, to := x.X.Type(), x.Type()
	if sl, ok := to.Underlying().(*types.Slice); ok && v.Sort == "String" {
		r := s.newRef(st)
		c := s.fresh("bytes", "(Array Int "+s.sort(sl.Elem())+")")
		n, h := s.elemArr(st, sl.Elem())
		s.heapSet(st, n, Store(h, r, c))
		ln := s.fresh("n", "Int")
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s.assume(st, T("Bool", "(= %s (str.len %s))", ln.S, v.S))
			if !s.bv {
				s.assume(st, T("Bool", "(forall ((i!q Int)) (=> (and (<= 0 i!q) (< i!q %s)) (= (select %s i!q) (str.to_code (str.at %s i!q)))))", ln.S, c.S, v.S))
			}
		} else {
			s.assume(st, T("Bool", "(and (<= 0 %s) (<= %s (str.len %s)) (=> (> (str.len %s) 0) (> %s 0)))", ln.S, ln.S, v.S, v.S, ln.S))
			if !s.bv {
				s.assume(st, T("Bool", "(= %s (%s %s))", ln.S, s.declFun("rune!len", "String", "Int"), v.S))
				s.assume(st, T("Bool", "(forall ((i!q Int)) (! (= (select %s i!q) (%s %s i!q)) :pattern ((select %s i!q))))", c.S, s.declFun("rune!at", "String Int", "Int"), v.S, c.S))
			}
		}
		return T("Slice", "(mkSlice %s 0 %s %s)", r.S, ln.S, ln.S)
	}
	if v.Sort == "Slice" {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			r := s.fresh("str", "String")
			s.assume(st, T("Bool", "(= (= (str.len %s) 0) (= (sl!len %s) 0))", r.S, v.S))
			return r
		}
		return v
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	return s.conv(v, from, to)
}

// ---------- calls ----------

func (f *Frame) call(st *State, c *ssa.CallCommon, in ssa.Instruction, rt types.Type) Val {
	s := f.s
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(st, b, c, in, rt)
	}
	pos := in.Pos()
	var args []Val
	var callee *ssa.Function
	var binds []Val
	var key string
	sig := c.Signature()
	if c.IsInvoke() {
		recv := f.get(st, c.Value)
		f.safety(st, "nil", pos, Not(Eq(itag(s.term(recv)), IntLit(0))))
		key = "(" + s.w.ts(c.Value.Type()) + ")." + c.Method.Name()
		args = append(args, recv)
	} else {
		switch fv := f.get(st, c.Value).(type) {
		case Clo:
			callee = fv.fn
			binds = fv.binds
			key = s.w.shortName(callee)
		case Term:
			f.safety(st, "nil", pos, Not(Eq(fv, IntLit(0))))
			key = "func:" + s.w.ts(c.Value.Type())
		}
	}
	for _, a := range c.Args {
		args = append(args, f.get(st, a))
	}
	if s.guard != nil && f.top && callee != nil && s.guard.guarded(s.w, callee) {
		e := &specEnv{s: s, vars: s.guardEnv.vars, cur: st, old: s.guardEnv.old}
		g, _ := s.guardCond(e)
		s.check(st, "guard", "guard:"+s.w.nameOf(callee), s.posStr(pos), g)
	}
	for i := range s.atCalls {
		ac := &s.atCalls[i]
		if ac.Callee != key {
			continue
		}
		ac.hits++
		e := &specEnv{s: s, vars: map[string]SVal{}, cur: st, old: s.guardEnv.old}
		for n, v := range s.guardEnv.vars {
			e.vars[n] = v
		}
		ptypes := paramTypes(sig, c, callee)
		for j, a := range args {
			if j < len(ptypes) {
				if a, ok := a.(Term); ok {
					e.vars[fmt.Sprintf("arg%d", j)] = SVal{a, ptypes[j]}
				}
			}
		}
		s.check(st, "atcall", "call:"+key+"/"+ac.Label, s.posStr(pos), s.evalBool(e, ac.Expr))
	}
	var res Val
	switch {
	case s.spec.Funcs[key] != nil && !s.spec.Funcs[key].InlineOnly && !s.spec.Funcs[key].Swept:
		res = f.applyContract(st, s.spec.Funcs[key], callee, key, args, sig, pos, c)
	case callee != nil && callee.Package() == s.w.pkg || callee != nil && callee.Parent() != nil || callee != nil && callee.Synthetic != "" && len(callee.Blocks) > 0:
		if f.canInline(callee) {
			res = f.inline(st, callee, args, binds)
		} else {
			res = f.havocCall(st, c, key, sig)
		}
	case callee != nil:
		res = f.external(st, callee, args, c, sig, pos)
	default:
		res = f.havocCall(st, c, key, sig)
	}
	s.ghostCall(f, st, c, key, callee, args, res, in)
	return res
}

func (f *Frame) canInline(fn *ssa.Function) bool {
	s := f.s
	if len(fn.Blocks) == 0 || len(f.stack) > s.inlineDepth {
		return false
	}
	for _, g := range f.stack {
		if g == fn {
			return false
		}
	}
	nm := s.w.shortName(fn)
	if s.noInline[nm] || s.spec.Printers[fn.Name()] {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.DebugRef:
			default:
				n++
			}
		}
	}
	if c := s.spec.Funcs[nm]; c != nil && c.InlineOnly || s.forceInline[nm] {
		return true
	}
	if fn.Parent() != nil && fn.Parent() == s.curTop {
		return n <= 3*s.inlineSize
	}
	if n > s.inlineSize {
		return false
	}
	// recursive functions are not inlined
	if s.w.recursive(fn) {
		return false
	}
	return true
}

func (f *Frame) inline(st *State, fn *ssa.Function, args, binds []Val) (res Val) {
	s := f.s
	// keep the state to fall back on when the body is outside the subset
	save := st.clone()
	no := len(s.obs)
	func() {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(unsupported)
				if !ok {
					panic(r)
				}
				s.obs = s.obs[:no]
				*st = *save
				e := map[string]bool{}
				for k := range s.w.effOf(fn) {
					e[k] = true
				}
				f.havocAll(st, e)
				res = f.freshResults(st, fn.Signature, s.w.shortName(fn))
				s.trusted["not inlined ("+u.msg+"): "+s.w.shortName(fn)] = true
			}
		}()
		fr := s.run(fn, st, args, binds, false, nil, f.stack)
		s.inlined[s.w.shortName(fn)] = true
		if len(fr.rets) == 0 {
			st.pc = False
			res = f.freshResults(st, fn.Signature, s.w.shortName(fn))
			return
		}
		var sts []*State
		for _, r := range fr.rets {
			sts = append(sts, r.st)
		}
		m := s.merge(sts)
		*st = *m
		nres := fn.Signature.Results().Len()
		vals := make([]Val, nres)
		for i := 0; i < nres; i++ {
			v := fr.rets[len(fr.rets)-1].vals[i]
			for j := len(fr.rets) - 2; j >= 0; j-- {
				v = s.mergeVal(fr.rets[j].st.pc, fr.rets[j].vals[i], v, fn.Signature.Results().At(i).Type())
			}
			if t, ok := v.(Term); ok {
				v = s.name("r", t)
			}
			vals[i] = v
		}
		res = packResults(vals)
	}()
	return res
}

func packResults(v []Val) Val {
	switch len(v) {
	case 0:
		return nil
	case 1:
		return v[0]
	}
	return Tuple(v)
}

func (f *Frame) freshResults(st *State, sig *types.Signature, name string) Val {
	s := f.s
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := s.fresh("res:"+name, s.sort(t))
		s.wf(st, t, v)
		vs = append(vs, v)
	}
	return packResults(vs)
}

// notePrinter records the assumption behind a call to a printer.
func (f *Frame) notePrinter(key string) {
	i := strings.LastIndex(key, ".")
	if f.s.spec.Printers[key[i+1:]] {
		f.s.trusted["printing functions ("+key[i+1:]+") write nothing"] = true
	}
}

func (f *Frame) havocCall(st *State, c *ssa.CallCommon, key string, sig *types.Signature) Val {
	e := map[string]bool{}
	f.notePrinter(key)
	f.callEffects(c, e)
	f.havocAll(st, e)
	return f.freshResults(st, sig, key)
}

func (f *Frame) applyContract(st *State, fs *FnSpec, callee *ssa.Function, key string, args []Val, sig *types.Signature, pos token.Pos, c *ssa.CallCommon) Val {
	s := f.s
	env := &specEnv{s: s, vars: map[string]SVal{}, cur: st, old: st, fr: nil}
	ptypes := paramTypes(sig, c, callee)
	for i, n := range fs.Params {
		if i < len(args) && n != "_" && n != "" {
			env.vars[n] = SVal{s.term(args[i]), ptypes[i]}
		}
	}
	for _, r := range fs.Requires {
		g := s.evalBool(env, r.Expr)
		if f.top || s.safeDeep || r.Deep {
			if !s.swept {
				s.check(st, "precondition", fmt.Sprintf("call:%s/requires:%s", key, r.Label), s.posStr(pos), g)
			}
		} else {
			s.assume(st, g)
		}
	}
	pre := st.clone()
	e := map[string]bool{}
	if fs.Modifies != nil {
		for _, m := range fs.Modifies {
			for _, h := range s.w.heapNames(m) {
				e[h] = true
			}
		}
	} else {
		f.callEffects(c, e)
	}
	f.havocAll(st, e)
	var vs []Val
	env2 := &specEnv{s: s, vars: map[string]SVal{}, cur: st, old: pre}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := s.fresh("res:"+key, s.sort(t))
		s.wf(st, t, v)
		vs = append(vs, v)
		if i < len(fs.Results) {
			env2.vars[fs.Results[i]] = SVal{v, t}
		}
	}
	for _, en := range fs.Ensures {
		s.assume(st, s.evalBool(env2, en.Expr))
	}
	if fs.Trusted {
		s.trusted["contract of "+key+" (assumed, body not verified)"] = true
	} else {
		s.used[key] = true
	}
	return packResults(vs)
}

func paramTypes(sig *types.Signature, c *ssa.CallCommon, callee *ssa.Function) []types.Type {
	var ts []types.Type
	if callee != nil {
		for _, p := range callee.Params {
			ts = append(ts, p.Type())
		}
		if len(ts) > 0 || sig.Params().Len() == 0 {
			return ts
		}
	}
	if c != nil && c.IsInvoke() {
		ts = append(ts, c.Value.Type())
	} else if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

// constLen: varargs slice literal of known length.
func constLen(v ssa.Value) (int, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0, false
	}
	p, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return 0, false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return int(a.Len()), true
}

func (f *Frame) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, in ssa.Instruction, rt types.Type) Val {
	s := f.s
	arg := func(i int) Term { return s.term(f.get(st, c.Args[i])) }
	switch b.Name() {
	case "len", "cap":
		v := arg(0)
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return T("Int", "(sl!%s %s)", b.Name(), v.S)
		case *types.Basic:
			return T("Int", "(str.len %s)", v.S)
		case *types.Map:
			_, _, _, ln := s.mapArrs(st, c.Args[0].Type())
			r := s.name("maplen", Ite(Eq(v, IntLit(0)), IntLit(0), Select(ln, v)))
			s.assume(st, T("Bool", "(>= %s 0)", r.S))
			return r
		case *types.Array:
			return IntLit(u.Len())
		case *types.Pointer:
			return IntLit(u.Elem().Underlying().(*types.Array).Len())
		default:
			r := s.fresh("len", "Int")
			s.assume(st, T("Bool", "(>= %s 0)", r.S))
			return r
		}
	case "append":
		return f.appendB(st, c)
	case "copy":
		d := arg(0)
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n, h := s.elemArr(st, el)
		cnt := s.fresh("copied", "Int")
		src := arg(1)
		if src.Sort == "Slice" {
			s.assume(st, T("Bool", "(= %s (ite (< (sl!len %s) (sl!len %s)) (sl!len %s) (sl!len %s)))", cnt.S, d.S, src.S, d.S, src.S))
			as := "(Array Int " + s.sort(el) + ")"
			nc := s.fresh("copy", as)
			od := s.name("od", T(as, "(select %s (sl!arr %s))", h.S, d.S))
			os := s.name("os", T(as, "(select %s (sl!arr %s))", h.S, src.S))
			s.assume(st, T("Bool", "(forall ((i!q Int)) (! (= (select %s i!q) (ite (and (<= (sl!off %s) i!q) (< i!q (+ (sl!off %s) %s))) (select %s (+ (- i!q (sl!off %s)) (sl!off %s))) (select %s i!q))) :pattern ((select %s i!q))))",
				nc.S, d.S, d.S, cnt.S, os.S, d.S, src.S, od.S, nc.S))
			s.heapSet(st, n, Store(h, T("Int", "(sl!arr %s)", d.S), nc))
		} else {
			s.assume(st, T("Bool", "(and (<= 0 %s) (<= %s (sl!len %s)))", cnt.S, cnt.S, d.S))
			s.havocHeap(st, n)
		}
		return cnt
	case "delete":
		s.mapDel(st, c.Args[0].Type(), arg(0), arg(1))
		return nil
	case "print", "println":
		return nil
	case "close":
		return nil
	case "recover":
		r := s.fresh("recover", "Iface")
		s.assume(st, Eq(r, T("Iface", "(mkI 0 0)")))
		return r
	case "min", "max":
		a := arg(0)
		for i := 1; i < len(c.Args); i++ {
			bb := arg(i)
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			a = Ite(s.arith(op, a, bb, c.Args[0].Type(), c.Args[i].Type(), types.Typ[types.Bool]), a, bb)
		}
		return a
	case "ssa:wrapnilchk":
		return f.get(st, c.Args[0])
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			a, bb, cc := s.w.mapHeaps(c.Args[0].Type())
			for _, h := range []string{a, bb, cc} {
				s.havocHeap(st, h)
			}
			return nil
		}
	}
	panic(unsup("builtin %s", b.Name()))
}

func (f *Frame) appendB(st *State, c *ssa.CallCommon) Val {
	s := f.s
	base := s.name("ap", s.term(f.get(st, c.Args[0])))
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := s.sort(el)
	as := "(Array Int " + es + ")"
	n, h := s.elemArr(st, el)
	add := s.term(f.get(st, c.Args[1]))
	fr := s.newRef(st)
	var k Term
	if add.Sort == "Slice" {
		k = T("Int", "(sl!len %s)", add.S)
	} else {
		k = T("Int", "(str.len %s)", add.S)
	}
	cl, isConst := constLen(c.Args[1])
	if isConst {
		k = IntLit(int64(cl))
	}
	if isConst && cl == 0 {
		return base
	}
	nl := s.name("nl", T("Int", "(+ (sl!len %s) %s)", base.S, k.S))
	inpl := s.name("inplace", T("Bool", "(<= %s (sl!cap %s))", nl.S, base.S))
	arr := s.name("arr", Ite(inpl, T("Int", "(sl!arr %s)", base.S), fr))
	cp := s.fresh("cap", "Int")
	s.assume(st, T("Bool", "(and (>= %s %s) (=> %s (= %s (sl!cap %s))))", cp.S, nl.S, inpl.S, cp.S, base.S))
	oldc := s.name("oldc", T(as, "(select %s (sl!arr %s))", h.S, base.S))
	var nc Term
	if isConst {
		// elementwise
		nc = oldc
		addArr := s.name("addArr", T(as, "(select %s (sl!arr %s))", h.S, add.S))
		for i := 0; i < cl; i++ {
			nc = Store(nc, T("Int", "(sl!at (sl!off %s) (+ (sl!len %s) %d))", base.S, base.S, i), Select(addArr, T("Int", "(sl!at (sl!off %s) %d)", add.S, i)))
		}
		nc = s.name("nc", nc)
	} else {
		nc = s.fresh("appended", as)
		start := s.name("st", T("Int", "(+ (sl!off %s) (sl!len %s))", base.S, base.S))
		var srcEl string
		if add.Sort == "Slice" {
			srcEl = fmt.Sprintf("(select (select %s (sl!arr %s)) (sl!at (sl!off %s) (- i!q %s)))", h.S, add.S, add.S, start.S)
		} else if !s.bv {
			srcEl = fmt.Sprintf("(str.to_code (str.at %s (- i!q %s)))", add.S, start.S)
		} else {
			srcEl = fmt.Sprintf("((_ int2bv 8) (str.to_code (str.at %s (- i!q %s))))", add.S, start.S)
		}
		s.assume(st, T("Bool", "(forall ((i!q Int)) (! (= (select %s i!q) (ite (and (<= %s i!q) (< i!q (+ %s %s))) %s (select %s i!q))) :pattern ((select %s i!q))))",
			nc.S, start.S, start.S, k.S, srcEl, oldc.S, nc.S))
	}
	r := T("Slice", "(mkSlice %s (sl!off %s) %s %s)", arr.S, base.S, nl.S, cp.S)
	if !isConst {
		// append of nothing returns the base unchanged
		noop := s.name("noop", T("Bool", "(= %s 0)", k.S))
		s.heapSet(st, n, Ite(noop, h, Store(h, arr, nc)))
		return Ite(noop, base, r)
	}
	s.heapSet(st, n, Store(h, arr, nc))
	return r
}

// ---------- external functions ----------

// pureExternals are functions of other packages whose result depends on the (scalar) arguments
// only; they are uninterpreted functions unless modelled below.
func (f *Frame) external(st *State, fn *ssa.Function, args []Val, c *ssa.CallCommon, sig *types.Signature, pos token.Pos) Val {
	s := f.s
	name := fn.String()
	s.externs[name] = true
	t := func(i int) Term { return s.term(args[i]) }
	switch name {
	case "errors.New", "fmt.Errorf":
		v := s.newRef(st)
		return T("Iface", "(mkI %s %s)", s.errTag().S, v.S)
	case "strings.HasPrefix":
		return T("Bool", "(str.prefixof %s %s)", t(1).S, t(0).S)
	case "strings.HasSuffix":
		return T("Bool", "(str.suffixof %s %s)", t(1).S, t(0).S)
	case "strings.Contains":
		return T("Bool", "(str.contains %s %s)", t(0).S, t(1).S)
	case "strings.Index":
		if !s.bv {
			return T("Int", "(str.indexof %s %s 0)", t(0).S, t(1).S)
		}
	case "strings.TrimPrefix":
		return T("String", "(ite (str.prefixof %[2]s %[1]s) (str.substr %[1]s (str.len %[2]s) (- (str.len %[1]s) (str.len %[2]s))) %[1]s)", t(0).S, t(1).S)
	case "math.IsNaN":
		return T("Bool", "(fp.isNaN %s)", t(0).S)
	case "math.Float64bits":
		if s.bv {
			// any bit pattern whose reinterpretation is the argument
			b := s.fresh("f64bits", "(_ BitVec 64)")
			s.assume(st, T("Bool", "(= ((_ to_fp 11 53) %s) %s)", b.S, t(0).S))
			return b
		}
	case "math.Float64frombits":
		if s.bv {
			return T("(_ FloatingPoint 11 53)", "((_ to_fp 11 53) %s)", t(0).S)
		}
	case "math.Signbit":
		return T("Bool", "(fp.isNegative %s)", t(0).S)
	case "math.Trunc":
		return T("(_ FloatingPoint 11 53)", "(fp.roundToIntegral RTZ %s)", t(0).S)
	case "math.Floor":
		return T("(_ FloatingPoint 11 53)", "(fp.roundToIntegral RTN %s)", t(0).S)
	case "os.Exit":
		st.pc = False
		return nil
	}
	// deterministic scalar functions
	if isPureExtern(name) && sig.Results().Len() >= 1 {
		var as, ss []string
		ok := true
		for _, a := range args {
			tt, isT := a.(Term)
			if !isT || tt.Sort == "Slice" || tt.Sort == "Iface" {
				ok = false
				break
			}
			as = append(as, tt.S)
			ss = append(ss, tt.Sort)
		}
		if ok {
			var vs []Val
			for i := 0; i < sig.Results().Len(); i++ {
				rt := sig.Results().At(i).Type()
				u := s.declFun(fmt.Sprintf("ext!%s!%d", name, i), strings.Join(ss, " "), s.sort(rt))
				var v Term
				if len(as) == 0 {
					v = Term{u, s.sort(rt)}
				} else {
					v = T(s.sort(rt), "(%s %s)", u, strings.Join(as, " "))
				}
				v = s.name("ext", v)
				s.wf(st, rt, v)
				vs = append(vs, v)
			}
			return packResults(vs)
		}
	}
	return f.havocCall(st, c, name, sig)
}

// errTag is the dynamic type of values made by errors.New and fmt.Errorf.
func (s *Session) errTag() Term {
	n := "tag!*errors.errorString"
	if !s.sortSet[n] {
		s.sortSet[n] = true
		e := s.tag(types.Universe.Lookup("error").Type())
		s.sorts = append(s.sorts, fmt.Sprintf("(define-fun %s () Int 999999)", q(n)))
		s.sorts = append(s.sorts, fmt.Sprintf("(assert (implements %s %s))", q(n), e.S))
	}
	return Term{q(n), "Int"}
}

func isPureExtern(n string) bool {
	for _, p := range []string{"strings.", "strconv.", "math.", "unicode.", "unicode/utf8.", "path.", "path/filepath."} {
		if strings.HasPrefix(n, p) && !strings.Contains(n, "Join") {
			return true
		}
	}
	return false
}

// externEffects: heaps an external callee may write through its arguments.
func (w *World) externEffects(c *ssa.CallCommon, e map[string]bool) {
	if c.IsInvoke() {
		// method of an external interface or external implementation of an internal one
		return
	}
	fn, ok := c.Value.(*ssa.Function)
	if !ok || fn.Package() == w.pkg || fn.Parent() != nil || len(fn.Blocks) > 0 {
		return
	}
	name := fn.String()
	if readOnlyExtern(name) {
		return
	}
	for _, a := range c.Args {
		switch u := a.Type().Underlying().(type) {
		case *types.Slice:
			h := w.elemHeap(u.Elem())
			if _, isI := u.Elem().Underlying().(*types.Interface); isI && strings.HasPrefix(name, "fmt.") {
				continue
			}
			w.noteHeap(h, u.Elem())
			e[h] = true
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				n, isN := types.Unalias(u.Elem()).(*types.Named)
				if isN && n.Obj().Pkg() != w.tpkg {
					h := w.cellHeap(u.Elem())
					w.noteHeap(h, u.Elem())
					e[h] = true
					continue
				}
			}
			w.addrHeaps(a, e)
		case *types.Map:
			x, y, z := w.mapHeaps(a.Type())
			e[x], e[y], e[z] = true, true, true
		case *types.Signature:
			for _, g := range w.callees(&ssa.CallCommon{Value: a}) {
				for k := range w.effOf(g) {
					e[k] = true
				}
			}
		case *types.Interface:
			// sort.Sort(x), json decoders etc. reach the concrete argument
			if mi, ok := a.(*ssa.MakeInterface); ok {
				if strings.HasPrefix(name, "sort.") {
					ms := w.prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if g := w.prog.MethodValue(ms.At(i)); g != nil {
							for k := range w.effOf(g) {
								e[k] = true
							}
						}
					}
				} else if strings.Contains(name, "Decode") || strings.Contains(name, "Unmarshal") {
					w.addrHeaps(mi.X, e)
				}
			}
		}
	}
}

func readOnlyExtern(n string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Sprint", "fmt.Errorf", "fmt.Fprint", "strings.", "strconv.", "errors.", "math.", "reflect.", "unicode", "bytes.Equal", "bytes.Compare", "bytes.Contains", "(*regexp.Regexp)", "regexp.", "hash/", "(hash"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
