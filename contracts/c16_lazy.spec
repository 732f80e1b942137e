// Lazy arguments.
props C09, C16

// an argument kept for later: its source, and where it was written
func NewSourceLazyArg(env, expr) (r)
  requires env != nil ==> scoped(env.linearstack) && env.linearstack.tos >= 0
  modifies nothing
  loop 1 invariant copy0: whole != nil
  loop 1 invariant copy1: fresh(whole)
  loop 1 invariant copy2: whole != scopes
  loop 1 invariant copy3: arr(whole.elements) != arr(scopes.elements)
  loop 1 invariant copy4: whole.tos == $i
  loop 1 invariant copy5: len(whole.elements) == $i + 1
  loop 1 invariant copy6: fresh(whole.elements)
  loop 1 invariant copy7: whole.elements[0] == env.linearstack.elements[0]
  loop 1 invariant copy8: (forall j int :: 1 <= j && j <= $i ==> whole.elements[j] == scopes.elements[j - 1])
  loop 1 invariant captured: scopes.elements == pre(scopes.elements) && scopes.tos == pre(scopes.tos) && (forall j int :: 0 <= j && j <= scopes.tos ==> scopes.elements[j] == pre(scopes.elements[j]))
  loop 1 invariant frame: sameExcept(Stack.tos) && sameExcept(Stack.elements) && sameExcept([]StackElem)
  ensures source: r != nil && fresh(r) && r.Expr == expr && !r.Forced
  ensures global: env != nil ==> r.CurFunc == env.curfunc && r.Stack != nil && fresh(r.Stack) && r.Stack.tos >= 0 && r.Stack.elements[0] == env.linearstack.elements[0]
  ensures scopes: env != nil ==> (exists f int :: 0 <= f && r.Stack.tos - env.linearstack.tos + f >= 0 && r.Stack.tos - env.linearstack.tos + f <= 1 && (f == 0 || isFn(env.linearstack.elements[f])) && (forall j int :: f < j && j <= env.linearstack.tos ==> !isFn(env.linearstack.elements[j])) && (forall j int :: f <= j && j <= env.linearstack.tos ==> r.Stack.elements[r.Stack.tos - env.linearstack.tos + j] == env.linearstack.elements[j]))

func NewValueLazyArg(value) (r)
  modifies nothing
  ensures forced: r != nil && fresh(r) && r.Expr == value && r.Forced && r.Value == value

func (*SexpFunction).IsLazyFormal(sf, i) (r)
  requires sf != nil
  modifies nothing
  ensures which: r <==> i >= 0 && i < len(sf.lazyFormals) && sf.lazyFormals[i]

func (*SexpFunction).IsLazyCallArg(sf, i) (r)
  requires sf != nil
  modifies nothing
  ensures which: r <==> !(sf.varargs && i >= sf.nargs) && i >= 0 && i < len(sf.lazyFormals) && sf.lazyFormals[i]

func (*SexpFunction).HasLazyFormals(sf) (r)
  modifies nothing
  ensures has: r <==> sf != nil && sf.hasLazyFormals
