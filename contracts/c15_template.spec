// Building the value of a template out of the pieces above the marker, and the
// place where macros expand.
props C15

pred piece(e StackElem) = as(e, DataStackElem).expr
pred mark(e StackElem) = is(e, DataStackElem) && is(as(e, DataStackElem).expr, *SexpSentinel) && as(as(e, DataStackElem).expr, *SexpSentinel) == SexpMarker
pred nomark(env *Zlisp, k int) = forall j int :: k < j && j <= env.datastack.tos ==> !mark(env.datastack.elements[j])

func Cons(a, b) (r)
  modifies nothing
  ensures fresh: fresh(r) && r != nil && r.Head == a && r.Tail == b

// (the array of a template) the pieces above the innermost marker, in order, in place of it
func (VectorizeInstr).Execute(s, env) (err)
  requires vm(env)
  loop 1 invariant down: vm(env) && env.datastack == pre(env.datastack) && env.datastack.tos <= old(env.datastack.tos) && env.pc == old(env.pc) + 1 && sameExcept(Stack.tos, env.datastack)
  loop 1 invariant kept: forall j int :: 0 <= j && j <= env.datastack.tos ==> env.datastack.elements[j] == old(env.datastack.elements[j])
  loop 1 invariant none: forall j int :: env.datastack.tos < j && j <= old(env.datastack.tos) ==> !old(mark(env.datastack.elements[j]))
  loop 1 invariant many: len(vec) == old(env.datastack.tos) - env.datastack.tos
  loop 1 invariant order: forall j int :: 0 <= j && j < len(vec) ==> vec[j] == old(piece(env.datastack.elements[env.datastack.tos - len(vec) + 1 + j]))
  ensures step: err == nil ==> env.pc == old(env.pc) + 1
  ensures in.place: err == nil ==> (exists k int :: k == env.datastack.tos && k >= 0 && old(mark(env.datastack.elements[k])) && (forall j int :: k < j && j <= old(env.datastack.tos) ==> !old(mark(env.datastack.elements[j]))))
  ensures below: err == nil ==> (forall j int :: 0 <= j && j < env.datastack.tos ==> env.datastack.elements[j] == old(env.datastack.elements[j]))
  ensures frame: sameExcept(Stack.tos, env.datastack) && env.datastack == old(env.datastack) && same(Zlisp.linearstack) && same(Zlisp.addrstack) && same(Zlisp.curfunc)
  ensures array: err == nil ==> is(topv(env, 0), *SexpArray) && fresh(as(topv(env, 0), *SexpArray)) && len(as(topv(env, 0), *SexpArray).Val) == old(env.datastack.tos) - env.datastack.tos
  ensures elems: err == nil ==> (forall n int, v *SexpArray, j int :: v == as(topv(env, 0), *SexpArray) && n == len(v.Val) && 0 <= j && j < n ==> v.Val[j] == old(piece(env.datastack.elements[env.datastack.tos - n + 1 + j])))

// (the list of a template) nothing above the marker makes nil; else a new list that
// begins with the piece just above the marker
func (SquashInstr).Execute(s, env) (err)
  requires vm(env)
  loop 1 invariant down: vm(env) && env.datastack == pre(env.datastack) && env.datastack.tos <= old(env.datastack.tos) && env.pc == old(env.pc) && sameExcept(Stack.tos, env.datastack)
  loop 1 invariant kept: forall j int :: 0 <= j && j <= env.datastack.tos ==> env.datastack.elements[j] == old(env.datastack.elements[j])
  loop 1 invariant none: forall j int :: env.datastack.tos < j && j <= old(env.datastack.tos) ==> !old(mark(env.datastack.elements[j]))
  loop 1 invariant empty: env.datastack.tos == old(env.datastack.tos) <==> is(list, *SexpSentinel) && as(list, *SexpSentinel) == SexpNull
  loop 1 invariant first: env.datastack.tos < old(env.datastack.tos) ==> is(list, *SexpPair) && fresh(as(list, *SexpPair)) && (exists k int :: k == env.datastack.tos + 1 && as(list, *SexpPair).Head == old(piece(env.datastack.elements[k])))
  ensures step: err == nil ==> env.pc == old(env.pc) + 1
  ensures in.place: err == nil ==> (exists k int :: k == env.datastack.tos && k >= 0 && old(mark(env.datastack.elements[k])) && (forall j int :: k < j && j <= old(env.datastack.tos) ==> !old(mark(env.datastack.elements[j]))))
  ensures below: err == nil ==> (forall j int :: 0 <= j && j < env.datastack.tos ==> env.datastack.elements[j] == old(env.datastack.elements[j]))
  ensures frame: sameExcept(Stack.tos, env.datastack) && env.datastack == old(env.datastack) && same(Zlisp.linearstack) && same(Zlisp.addrstack) && same(Zlisp.curfunc)
  ensures empty: err == nil ==> (env.datastack.tos == old(env.datastack.tos) <==> is(topv(env, 0), *SexpSentinel) && as(topv(env, 0), *SexpSentinel) == SexpNull)
  ensures first: err == nil && env.datastack.tos < old(env.datastack.tos) ==> is(topv(env, 0), *SexpPair) && fresh(as(topv(env, 0), *SexpPair)) && (exists k int :: k == env.datastack.tos + 1 && as(topv(env, 0), *SexpPair).Head == old(piece(env.datastack.elements[k])))

func IsList(list1) (r)
  modifies nothing
  loop 1 invariant start: !is(list1, *SexpPair) ==> expr == list1
  ensures nil: is(list1, *SexpSentinel) && as(list1, *SexpSentinel) == SexpNull ==> r
  ensures other: !is(list1, *SexpPair) && !is(list1, *SexpSentinel) ==> !r

func ListToArray(list0) (r, err)
  modifies nothing
  loop 1 invariant own: len(arr) >= 0 && fresh(arr) && sameExcept([]Sexp, arr)
  loop 1 invariant at.nil: is(list0, *SexpSentinel) && as(list0, *SexpSentinel) == SexpNull ==> expr == list0 && len(arr) == 0
  ensures nil: is(list0, *SexpSentinel) && as(list0, *SexpSentinel) == SexpNull ==> err == nil && len(r) == 0
  ensures other: !is(list0, *SexpPair) && !is(list0, *SexpSentinel) ==> err != nil

// (a splice) what is below the spliced list stays; the list goes
func (ExplodeInstr).Execute(e, env) (err)
  requires vm(env)
  loop 1 invariant up: vm(env) && env.datastack == pre(env.datastack) && env.datastack.tos == old(env.datastack.tos) - 1 + $i && env.pc == old(env.pc) && sameExcept(Stack.tos, env.datastack)
  loop 1 invariant kept: forall j int :: 0 <= j && j < old(env.datastack.tos) ==> env.datastack.elements[j] == old(env.datastack.elements[j])
  loop 1 invariant elems: forall j int :: 0 <= j && j < $i ==> operand(env.datastack.elements[old(env.datastack.tos) + j]) && piece(env.datastack.elements[old(env.datastack.tos) + j]) == arr[j]
  ensures step: err == nil ==> env.pc == old(env.pc) + 1
  ensures below: forall j int :: 0 <= j && j < old(env.datastack.tos) ==> env.datastack.elements[j] == old(env.datastack.elements[j])
  ensures size: err == nil ==> env.datastack.tos >= old(env.datastack.tos) - 1
  ensures empty: err == nil && old(is(topv(env, 0), *SexpSentinel) && as(topv(env, 0), *SexpSentinel) == SexpNull) ==> env.datastack.tos == old(env.datastack.tos) - 1
  ensures frame: sameExcept(Stack.tos, env.datastack) && env.datastack == old(env.datastack) && same(Zlisp.linearstack) && same(Zlisp.addrstack) && same(Zlisp.curfunc)

func (*Zlisp).MakeFunction(env, name, nargs, varargs, fun, orig) (r)
  requires env != nil && scoped(env.linearstack)
  modifies nothing
  ensures fresh: r != nil && fresh(r) && !r.user && r.fun == fun && r.name == name

// a macro runs off to the side: on stacks of its own over the shared global scope
func (*Zlisp).Duplicate(env) (d)
  requires env != nil && scoped(env.linearstack) && env.linearstack.tos >= 0
  ensures fresh: d != nil && fresh(d) && d != env
  ensures tables: d.symtable == env.symtable && d.revsymtable == env.revsymtable && d.macros == env.macros && d.builtins == env.builtins
  ensures aside: fresh(d.datastack) && fresh(d.linearstack) && fresh(d.addrstack) && fresh(d.loopstack) && d.pc == 0 && fresh(d.mainfunc) && d.curfunc == d.mainfunc
  ensures global: d.linearstack.tos == 0 && d.linearstack.elements[0] == env.linearstack.elements[0] && d.datastack.tos == 0 - 1
