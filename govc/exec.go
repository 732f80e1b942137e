package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- values ----------

type Val interface{}

type Tuple []Val

type pathEl struct {
	field int // >=0 field of struct typ
	styp  types.Type
	idx   Term // array index when field<0
}

type Addr struct {
	kind byte // F field heap, E elem heap, C cell, G global, L local
	heap string
	ref  Term
	idx  Term
	root types.Type // type of the root location
	path []pathEl
	typ  types.Type // type stored at the address
}

type Clo struct {
	fn    *ssa.Function
	binds []Val
	t     Term
}

type mapIter struct {
	m    Term
	mt   types.Type
	id   string
	str  bool
	strT Term
}

// ---------- state ----------

type epPart struct {
	pc Term
	st *State
}
type Epoch struct {
	id    int
	parts []epPart
	vals  map[string]Term
}

type State struct {
	pc    Term
	heap  map[string]Term
	ep    *Epoch
	alloc Term
}

func (s *State) clone() *State {
	h := make(map[string]Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{s.pc, h, s.ep, s.alloc}
}

type Oblig struct {
	Fn, Name string
	Kind     string
	Pos      string
	Line     int // number of session lines visible
	Goal     Term
	Cover    bool // must be satisfiable (vacuity guard)
	Result   string
	Solver   string
	Secs     float64
	Model    string
	Shows    []string
}

// Session generates the obligations of one function (or lemma).
type Session struct {
	liveSeen                map[string]bool
	w                       *World
	spec                    *Spec
	bv                      bool
	fnName                  string
	sorts                   []string // prelude declarations
	sortSet                 map[string]bool
	lines                   []string
	obs                     []*Oblig
	n                       int
	epN                     int
	safe                    bool // generate safety obligations for code of the function under contract
	heapSort                map[string]string
	trusted                 map[string]bool // assumptions used
	inlined                 map[string]bool
	nameCnt                 map[string]int
	tags                    map[string]types.Type
	curTop                  *ssa.Function
	globFacts               map[string]bool
	depth                   int
	shows                   []string
	started                 map[string]bool
	errProp                 bool
	errExcept               map[string]bool
	errOnly                 map[string]bool
	curName                 string
	swept                   bool
	guard                   *Guard
	atCalls                 []AtCall
	guardEnv                *specEnv
	errCalls                int
	curLoop                 *loopInfo
	safeDeep                bool
	safeNoNil               bool
	ghostEff                func(*ssa.CallCommon, map[string]bool)
	nfn, nglob              int
	startAlloc              Term
	inlineSize, inlineDepth int
	noInline, forceInline   map[string]bool
	used                    map[string]bool
	externs                 map[string]bool
	origin                  map[string]rootHeap
	alloc0                  Term
}

func NewSession(w *World, sp *Spec, name string, bv bool) *Session {
	s := &Session{w: w, spec: sp, bv: bv, fnName: name, sortSet: map[string]bool{}, heapSort: map[string]string{},
		trusted: map[string]bool{}, inlined: map[string]bool{}, nameCnt: map[string]int{}, tags: map[string]types.Type{}, globFacts: map[string]bool{}, started: map[string]bool{}, used: map[string]bool{}, externs: map[string]bool{}, origin: map[string]rootHeap{}}
	s.sorts = append(s.sorts,
		"(declare-datatypes ((Slice 0)) (((mkSlice (sl!arr Int) (sl!off Int) (sl!len Int) (sl!cap Int)))))",
		"(declare-fun sl!at (Int Int) Int)",
		"(assert (forall ((o Int) (i Int)) (! (= (sl!at o i) (+ o i)) :pattern ((sl!at o i)))))",
		"(declare-datatypes ((Iface 0)) (((mkI (itag Int) (ival Int)))))",
		"(define-fun go!div ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))",
		"(define-fun go!rem ((a Int) (b Int)) Int (- a (* b (go!div a b))))",
		"(declare-fun implements (Int Int) Bool)",
	)
	return s
}

func q(s string) string { return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|" }

func (s *Session) fresh(prefix, sort string) Term {
	s.n++
	n := q(fmt.Sprintf("%s#%d", prefix, s.n))
	s.lines = append(s.lines, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return Term{n, sort}
}

// name gives a term a short name if it is large.
func (s *Session) name(prefix string, t Term) Term {
	if len(t.S) < 24 {
		return t
	}
	s.n++
	n := q(fmt.Sprintf("%s#%d", prefix, s.n))
	s.lines = append(s.lines, fmt.Sprintf("(define-fun %s () %s %s)", n, t.Sort, t.S))
	return Term{n, t.Sort}
}

func (s *Session) assume(st *State, t Term) {
	t = Imp(st.pc, t)
	if t.S != "true" {
		s.lines = append(s.lines, "(assert "+t.S+")")
	}
}

func (s *Session) check(st *State, kind, name, pos string, goal Term) {
	if goal.S == "true" || st.pc.S == "false" {
		// discharged by simplification; still counted
		s.obs = append(s.obs, &Oblig{Fn: s.fnName, Kind: kind, Name: s.obName(name), Pos: pos, Line: len(s.lines), Goal: True, Result: "unsat", Solver: "simplifier"})
		return
	}
	s.obs = append(s.obs, &Oblig{Fn: s.fnName, Kind: kind, Name: s.obName(name), Pos: pos, Line: len(s.lines), Goal: Imp(st.pc, goal), Shows: s.shows})
	s.assume(st, goal)
}

func (s *Session) obName(n string) string {
	s.nameCnt[n]++
	if c := s.nameCnt[n]; c > 1 {
		return fmt.Sprintf("%s~%d", n, c)
	}
	return n
}

func (s *Session) newEpoch() *Epoch {
	s.epN++
	return &Epoch{id: s.epN, vals: map[string]Term{}}
}

// ---------- sorts ----------

func (s *Session) sort(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			if s.bv {
				switch u.Kind() {
				case types.Int64, types.Uint64:
					return "(_ BitVec 64)"
				case types.Int32, types.Uint32:
					return "(_ BitVec 32)"
				case types.Int16, types.Uint16:
					return "(_ BitVec 16)"
				case types.Int8, types.Uint8:
					return "(_ BitVec 8)"
				case types.Uint, types.Uintptr:
					return "(_ BitVec 64)"
				}
			}
			return "Int"
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return "(_ FloatingPoint 8 24)"
			}
			return "(_ FloatingPoint 11 53)"
		case u.Info()&types.IsString != 0:
			return "String"
		case u.Info()&types.IsComplex != 0:
			return s.opaque("complex")
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return "(Array Int " + s.sort(u.Elem()) + ")"
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != s.w.tpkg && n.Obj().Pkg() != nil {
			return s.opaque(s.w.ts(t))
		}
		nm := q("S!" + s.w.ts(t))
		if !s.sortSet[nm] {
			s.sortSet[nm] = true
			var fs []string
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, fmt.Sprintf("(%s %s)", s.sel(t, i), s.sort(u.Field(i).Type())))
			}
			s.sorts = append(s.sorts, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", nm, q("mk!"+s.w.ts(t)), strings.Join(fs, " ")))
		}
		return nm
	case *types.Tuple:
		return "Int"
	}
	return s.opaque(s.w.ts(t))
}

func (s *Session) opaque(n string) string {
	nm := q("Opq!" + n)
	if !s.sortSet[nm] {
		s.sortSet[nm] = true
		s.sorts = append(s.sorts, fmt.Sprintf("(declare-sort %s 0)", nm))
	}
	return nm
}

func (s *Session) isOpaqueStruct(t types.Type) bool {
	return strings.HasPrefix(s.sort(t), "|Opq!")
}

func (s *Session) sel(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return q(fmt.Sprintf("f!%s!%d!%s", s.w.ts(t), i, st.Field(i).Name()))
}

func (s *Session) mkStruct(t types.Type, fs []Term) Term {
	srt := s.sort(t)
	if len(fs) == 0 {
		return Term{q("mk!" + s.w.ts(t)), srt}
	}
	var b []string
	for _, f := range fs {
		b = append(b, f.S)
	}
	return Term{"(" + q("mk!"+s.w.ts(t)) + " " + strings.Join(b, " ") + ")", srt}
}

func (s *Session) field(t types.Type, v Term, i int) Term {
	st := t.Underlying().(*types.Struct)
	return Term{"(" + s.sel(t, i) + " " + v.S + ")", s.sort(st.Field(i).Type())}
}

func (s *Session) updField(t types.Type, v Term, i int, x Term) Term {
	st := t.Underlying().(*types.Struct)
	fs := make([]Term, st.NumFields())
	for j := range fs {
		if j == i {
			fs[j] = x
		} else {
			fs[j] = s.field(t, v, j)
		}
	}
	return s.mkStruct(t, fs)
}

func (s *Session) declFun(name, args, ret string) string {
	nm := q(name)
	if !s.sortSet["fun:"+nm] {
		s.sortSet["fun:"+nm] = true
		s.sorts = append(s.sorts, fmt.Sprintf("(declare-fun %s (%s) %s)", nm, args, ret))
	}
	return nm
}

func bvWidth(sort string) int {
	if !strings.HasPrefix(sort, "(_ BitVec ") {
		return 0
	}
	var w int
	fmt.Sscanf(sort, "(_ BitVec %d)", &w)
	return w
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (s *Session) intConst(n string, sort string) Term {
	if w := bvWidth(sort); w > 0 {
		neg := strings.HasPrefix(n, "-")
		if neg {
			return Term{fmt.Sprintf("(bvneg (_ bv%s %d))", n[1:], w), sort}
		}
		return Term{fmt.Sprintf("(_ bv%s %d)", n, w), sort}
	}
	if strings.HasPrefix(n, "-") {
		return Term{"(- " + n[1:] + ")", "Int"}
	}
	return Term{n, "Int"}
}

func (s *Session) floatConst(v constant.Value, sort string) Term {
	f, _ := constant.Float64Val(v)
	return fpLit(f, sort)
}

func fpLit(f float64, sort string) Term {
	// exact decimal rendering through to_fp of a real
	r := constant.MakeFloat64(f)
	num, den := constant.Num(r), constant.Denom(r)
	ns, ds := num.ExactString(), den.ExactString()
	neg := strings.HasPrefix(ns, "-")
	if neg {
		ns = ns[1:]
	}
	e, m := 11, 53
	if strings.Contains(sort, " 8 24") {
		e, m = 8, 24
	}
	t := fmt.Sprintf("((_ to_fp %d %d) RNE (/ %s.0 %s.0))", e, m, ns, ds)
	if neg {
		t = "(fp.neg " + t + ")"
	}
	return Term{t, sort}
}

func (s *Session) zero(t types.Type) Term {
	srt := s.sort(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case srt == "Bool":
			return False
		case srt == "String":
			return Term{`""`, "String"}
		case strings.HasPrefix(srt, "(_ FloatingPoint"):
			if strings.Contains(srt, "8 24") {
				return Term{"(_ +zero 8 24)", srt}
			}
			return Term{"(_ +zero 11 53)", srt}
		case bvWidth(srt) > 0, srt == "Int":
			return s.intConst("0", srt)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return IntLit(0)
	case *types.Slice:
		return Term{"(mkSlice 0 0 0 0)", "Slice"}
	case *types.Interface:
		return Term{"(mkI 0 0)", "Iface"}
	case *types.Array:
		return Term{"((as const " + srt + ") " + s.zero(u.Elem()).S + ")", srt}
	case *types.Struct:
		if !s.isOpaqueStruct(t) {
			fs := make([]Term, u.NumFields())
			for i := range fs {
				fs[i] = s.zero(u.Field(i).Type())
			}
			return s.mkStruct(t, fs)
		}
	}
	nm := "zero!" + strings.Trim(srt, "|")
	if !s.sortSet[nm] {
		s.sortSet[nm] = true
		s.sorts = append(s.sorts, fmt.Sprintf("(declare-const %s %s)", q(nm), srt))
	}
	return Term{q(nm), srt}
}

// ---------- type tags / interfaces ----------

func (s *Session) tag(t types.Type) Term {
	k := "tag!" + s.w.ts(t)
	if _, ok := s.tags[k]; !ok {
		s.tags[k] = t
		// distinct positive integers by order of first use
		s.sorts = append(s.sorts, fmt.Sprintf("(define-fun %s () Int %d)", q(k), len(s.tags)))
		// known implements facts
		for ik, it := range s.tags {
			_ = ik
			s.implFact(it, t)
			if it != t {
				s.implFact(t, it)
			}
		}
	}
	return Term{q(k), "Int"}
}

// implFact states whether concrete type c implements interface it.
func (s *Session) implFact(it, c types.Type) {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok || types.IsInterface(c) {
		return
	}
	key := "impl:" + s.w.ts(it) + ":" + s.w.ts(c)
	if s.sortSet[key] {
		return
	}
	s.sortSet[key] = true
	f := fmt.Sprintf("(implements %s %s)", q("tag!"+s.w.ts(c)), q("tag!"+s.w.ts(it)))
	if !types.Implements(c, iface) {
		f = "(not " + f + ")"
	}
	s.sorts = append(s.sorts, "(assert "+f+")")
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (s *Session) makeIface(t types.Type, v Term) Term {
	tg := s.tag(t)
	if isPtrLike(t) {
		return T("Iface", "(mkI %s %s)", tg.S, v.S)
	}
	srt := s.sort(t)
	box := s.declFun("box!"+s.w.ts(t), srt, "Int")
	unbox := s.declFun("unbox!"+s.w.ts(t), "Int", srt)
	b := fmt.Sprintf("(%s %s)", box, v.S)
	s.lines = append(s.lines, fmt.Sprintf("(assert (and (= (%s %s) %s) (< %s 0)))", unbox, b, v.S, b))
	return T("Iface", "(mkI %s %s)", tg.S, b)
}

func itag(i Term) Term { return Term{"(itag " + i.S + ")", "Int"} }
func ival(i Term) Term { return Term{"(ival " + i.S + ")", "Int"} }

// asConcrete extracts the dynamic value of concrete type t.
func (s *Session) asConcrete(i Term, t types.Type) Term {
	if isPtrLike(t) {
		return ival(i)
	}
	srt := s.sort(t)
	unbox := s.declFun("unbox!"+s.w.ts(t), "Int", srt)
	s.declFun("box!"+s.w.ts(t), srt, "Int")
	return Term{fmt.Sprintf("(%s (ival %s))", unbox, i.S), srt}
}

func (s *Session) hasType(i Term, t types.Type) Term {
	if types.IsInterface(t) {
		tg := s.tag(t)
		return And(Not(Eq(itag(i), IntLit(0))), T("Bool", "(implements (itag %s) %s)", i.S, tg.S))
	}
	return Eq(itag(i), s.tag(t))
}

// ---------- heap access ----------

func (s *Session) heapSortOf(name string, mk func() string) string {
	if h, ok := s.heapSort[name]; ok {
		return h
	}
	h := mk()
	s.heapSort[name] = h
	return h
}

func (s *Session) epochVal(e *Epoch, name, sort string) Term {
	if v, ok := e.vals[name]; ok {
		return v
	}
	var v Term
	if len(e.parts) == 0 {
		n := q(fmt.Sprintf("%s@%d", name, e.id))
		s.lines = append(s.lines, fmt.Sprintf("(declare-const %s %s)", n, sort))
		v = Term{n, sort}
		if s.alloc0.S != "" {
			s.origin[n] = rootHeap{v, s.alloc0}
		}
	} else {
		v = s.heapGet(e.parts[len(e.parts)-1].st, name, sort)
		for i := len(e.parts) - 2; i >= 0; i-- {
			v = Ite(e.parts[i].pc, s.heapGet(e.parts[i].st, name, sort), v)
		}
		v = s.name("hm", v)
	}
	e.vals[name] = v
	return v
}

func (s *Session) heapGet(st *State, name, sort string) Term {
	s.heapSort[name] = sort
	if v, ok := st.heap[name]; ok {
		return v
	}
	return s.epochVal(st.ep, name, sort)
}

func (s *Session) heapSet(st *State, name string, v Term) {
	s.heapSort[name] = v.Sort
	old := s.heapGet(st, name, v.Sort)
	st.heap[name] = s.name(name, v)
	if r, ok := s.origin[old.S]; ok {
		if _, have := s.origin[st.heap[name].S]; !have {
			s.origin[st.heap[name].S] = r
		}
	}
}

// rootHeap: the unconstrained heap a heap term was built from by stores, and the allocation
// frontier at the time it was introduced; everything it holds for older objects is older than that.
type rootHeap struct{ term, alloc Term }

// oldWf assumes well-formedness of what the root heap holds at ref, relative to its own frontier.
func (s *Session) oldWf(st *State, a Addr, t types.Type) {
	if len(a.path) > 0 {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
	default:
		return
	}
	h, ok := st.heap[a.heap]
	if !ok {
		if h, ok = st.ep.vals[a.heap]; !ok {
			return
		}
	}
	r, ok := s.origin[h.S]
	if !ok || r.alloc.S == st.alloc.S {
		return
	}
	var v Term
	switch a.kind {
	case 'F', 'C':
		v = Select(r.term, a.ref)
	case 'E':
		v = Select(Select(r.term, a.ref), a.idx)
	default:
		return
	}
	s.wf(&State{pc: And(st.pc, T("Bool", "(< %s %s)", a.ref.S, r.alloc.S)), alloc: r.alloc}, t, v)
}

func (s *Session) fieldArr(st *State, t types.Type, i int) (string, Term) {
	n := s.w.fieldHeap(t, i)
	f := t.Underlying().(*types.Struct).Field(i)
	return n, s.heapGet(st, n, "(Array Int "+s.sort(f.Type())+")")
}

func (s *Session) elemArr(st *State, elem types.Type) (string, Term) {
	n := s.w.elemHeap(elem)
	return n, s.heapGet(st, n, "(Array Int (Array Int "+s.sort(elem)+"))")
}

func (s *Session) cellArr(st *State, elem types.Type) (string, Term) {
	n := s.w.cellHeap(elem)
	return n, s.heapGet(st, n, "(Array Int "+s.sort(elem)+")")
}

func (s *Session) mapArrs(st *State, t types.Type) (names [3]string, dom, val, ln Term) {
	m := t.Underlying().(*types.Map)
	a, b, c := s.w.mapHeaps(t)
	k, v := s.sort(m.Key()), s.sort(m.Elem())
	dom = s.heapGet(st, a, fmt.Sprintf("(Array Int (Array %s Bool))", k))
	val = s.heapGet(st, b, fmt.Sprintf("(Array Int (Array %s %s))", k, v))
	ln = s.heapGet(st, c, "(Array Int Int)")
	return [3]string{a, b, c}, dom, val, ln
}

// wf assumes well-formedness of a loaded/parameter value (Go memory safety facts).
func (s *Session) wf(st *State, t types.Type, v Term) {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		s.assume(st, T("Bool", "(and (<= 0 %s) (< %s %s))", v.S, v.S, st.alloc.S))
	case *types.Slice:
		s.assume(st, T("Bool", "(and (<= 0 (sl!off %s)) (<= 0 (sl!len %s)) (<= (sl!len %s) (sl!cap %s)) (<= 0 (sl!arr %s)) (< (sl!arr %s) %s) (=> (= (sl!arr %s) 0) (= (sl!cap %s) 0)))", v.S, v.S, v.S, v.S, v.S, v.S, st.alloc.S, v.S, v.S))
	case *types.Interface:
		s.assume(st, T("Bool", "(and (< (ival %s) %s) (<= 0 (itag %s)) (= (= (itag %s) 0) (= (ival %s) 0)))", v.S, st.alloc.S, v.S, v.S, v.S))
		s.trusted["an interface value never holds a typed nil pointer"] = true
		if u.NumMethods() > 0 {
			tg := s.tag(t)
			s.assume(st, T("Bool", "(=> (not (= (itag %s) 0)) (implements (itag %s) %s))", v.S, v.S, tg.S))
		}
	case *types.Basic:
		if v.Sort == "Int" {
			switch u.Kind() {
			case types.Uint8:
				s.assume(st, T("Bool", "(and (<= 0 %s) (<= %s 255))", v.S, v.S))
			case types.Uint, types.Uint64, types.Uint32, types.Uint16:
				s.assume(st, T("Bool", "(<= 0 %s)", v.S))
			}
		}
	case *types.Struct:
		if s.isOpaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Struct:
				s.wf(st, u.Field(i).Type(), s.field(t, v, i))
			}
		}
	}
}

func (s *Session) loadRoot(st *State, a Addr) Term {
	switch a.kind {
	case 'F', 'C':
		return Select(s.heapGet(st, a.heap, "(Array Int "+s.sort(a.root)+")"), a.ref)
	case 'E':
		return Select(Select(s.heapGet(st, a.heap, "(Array Int (Array Int "+s.sort(a.root)+"))"), a.ref), a.idx)
	case 'G', 'L':
		return s.heapGet(st, a.heap, s.sort(a.root))
	}
	panic("loadRoot")
}

func (s *Session) load(st *State, a Addr) Term {
	v := s.loadRoot(st, a)
	for _, p := range a.path {
		if p.field >= 0 {
			v = s.field(p.styp, v, p.field)
		} else {
			v = Select(v, p.idx)
		}
	}
	return v
}

func (s *Session) setPath(v Term, path []pathEl, x Term) Term {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	if p.field >= 0 {
		return s.updField(p.styp, v, p.field, s.setPath(s.field(p.styp, v, p.field), path[1:], x))
	}
	return Store(v, p.idx, s.setPath(Select(v, p.idx), path[1:], x))
}

func (s *Session) store(st *State, a Addr, x Term) {
	nv := x
	if len(a.path) > 0 {
		nv = s.name("nv", s.setPath(s.loadRoot(st, a), a.path, x))
	}
	switch a.kind {
	case 'F', 'C':
		h := s.heapGet(st, a.heap, "(Array Int "+s.sort(a.root)+")")
		s.heapSet(st, a.heap, Store(h, a.ref, nv))
	case 'E':
		h := s.heapGet(st, a.heap, "(Array Int (Array Int "+s.sort(a.root)+"))")
		s.heapSet(st, a.heap, Store(h, a.ref, Store(Select(h, a.ref), a.idx, nv)))
	case 'G', 'L':
		s.heapSet(st, a.heap, nv)
	}
}

func (s *Session) loadStruct(st *State, t types.Type, ref Term) Term {
	if s.isOpaqueStruct(t) {
		_, h := s.cellArr(st, t)
		return Select(h, ref)
	}
	u := t.Underlying().(*types.Struct)
	fs := make([]Term, u.NumFields())
	for i := range fs {
		_, h := s.fieldArr(st, t, i)
		fs[i] = Select(h, ref)
	}
	return s.mkStruct(t, fs)
}

func (s *Session) storeStruct(st *State, t types.Type, ref, v Term) {
	if s.isOpaqueStruct(t) {
		n, h := s.cellArr(st, t)
		s.heapSet(st, n, Store(h, ref, v))
		return
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		n, h := s.fieldArr(st, t, i)
		s.heapSet(st, n, Store(h, ref, s.field(t, v, i)))
	}
}

func (s *Session) newRef(st *State) Term {
	r := s.name("ref", st.alloc)
	// make sure the watermark has a name
	na := s.fresh("alloc", "Int")
	s.lines = append(s.lines, fmt.Sprintf("(assert (= %s (+ %s 1)))", na.S, st.alloc.S))
	st.alloc = na
	return r
}

// merge joins states at a control-flow join.
func (s *Session) merge(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0].clone()
	}
	var pcs []Term
	for _, x := range ss {
		pcs = append(pcs, x.pc)
	}
	pc := s.name("pc", Or(pcs...))
	out := &State{pc: pc, heap: map[string]Term{}}
	same := true
	for _, x := range ss[1:] {
		if x.ep != ss[0].ep {
			same = false
		}
	}
	if same {
		out.ep = ss[0].ep
	} else {
		ep := s.newEpoch()
		for _, x := range ss {
			ep.parts = append(ep.parts, epPart{x.pc, x})
		}
		out.ep = ep
	}
	keys := map[string]bool{}
	for _, x := range ss {
		for k := range x.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		srt := s.heapSort[k]
		v := s.heapGet(ss[len(ss)-1], k, srt)
		ok := true
		for i := len(ss) - 2; i >= 0; i-- {
			w := s.heapGet(ss[i], k, srt)
			if w.Sort != v.Sort {
				ok = false
				break
			}
			v = Ite(ss[i].pc, w, v)
		}
		if ok {
			out.heap[k] = s.name(k, v)
			r0, have := s.origin[s.heapGet(ss[0], k, srt).S]
			for _, x := range ss[1:] {
				r, ok := s.origin[s.heapGet(x, k, srt).S]
				if !ok || r.term.S != r0.term.S {
					have = false
				}
			}
			if _, known := s.origin[out.heap[k].S]; have && !known {
				s.origin[out.heap[k].S] = r0
			}
		}
	}
	v := ss[len(ss)-1].alloc
	for i := len(ss) - 2; i >= 0; i-- {
		v = Ite(ss[i].pc, ss[i].alloc, v)
	}
	out.alloc = s.name("alloc", v)
	return out
}

func (s *Session) havocHeap(st *State, name string) {
	srt, ok := s.heapSort[name]
	if !ok {
		srt = s.sortOfHeapName(name)
		if srt == "" {
			return
		}
	}
	s.heapSort[name] = srt
	st.heap[name] = s.fresh(name, srt)
}

// sortOfHeapName computes the sort for a heap variable not seen yet in this session.
func (s *Session) sortOfHeapName(name string) string {
	if srt, ok := s.heapSort[name]; ok {
		return srt
	}
	p := strings.SplitN(name, "!", 2)
	if t, ok := heapTypes[name]; ok {
		switch p[0] {
		case "H", "C":
			return "(Array Int " + s.sort(t) + ")"
		case "E":
			return "(Array Int (Array Int " + s.sort(t) + "))"
		case "G", "L":
			return s.sort(t)
		case "MD":
			m := t.Underlying().(*types.Map)
			return fmt.Sprintf("(Array Int (Array %s Bool))", s.sort(m.Key()))
		case "MV":
			m := t.Underlying().(*types.Map)
			return fmt.Sprintf("(Array Int (Array %s %s))", s.sort(m.Key()), s.sort(m.Elem()))
		case "ML":
			return "(Array Int Int)"
		}
	}
	return ""
}

var heapTypes = map[string]types.Type{}

func (s *Session) posStr(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	ps := s.w.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
