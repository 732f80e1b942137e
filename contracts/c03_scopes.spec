// C03: a free variable is looked up where the function was made.
props C03

pred captures(f *SexpFunction) = f.closingOverScopes == nil || scoped(f.closingOverScopes.Stack)
// one of the scopes f captured when it was made
pred captured(f *SexpFunction, s *Scope) = f.closingOverScopes != nil && (exists k int :: 0 <= k && k <= f.closingOverScopes.Stack.tos && is(f.closingOverScopes.Stack.elements[k], *Scope) && as(f.closingOverScopes.Stack.elements[k], *Scope) == s)

func (*Scope).UpdateSymbolInScope(scope, sym, expr) (err)
  requires scope != nil && sym != nil
  modifies map[int]Sexp
  ensures found: err == nil <==> old(has(scope.Map, sym.number))
  ensures set: err == nil ==> scope.Map[sym.number] == expr && has(scope.Map, sym.number)
  ensures others: sameExcept(map[int]Sexp, ref(scope.Map)) && (forall n int :: n != sym.number ==> (has(scope.Map, n) <==> old(has(scope.Map, n))) && scope.Map[n] == old(scope.Map[n]))

func (*Stack).lookupSymbol(stack, sym, minFrame, setVal) (r, err, scope)
  requires scoped(stack) && sym != nil && minFrame >= 0
  modifies map[int]Sexp
  loop 1 invariant range: i >= 0 && i <= stack.tos + 1
  loop 1 invariant none: forall j int :: stack.tos - i < j && j <= stack.tos ==> !binds(stack.elements[j], sym.number)
  loop 1 invariant untouched: same(map[int]Sexp)
  ensures where: err == nil ==> scope != nil && (exists k int :: old(topmost(stack, sym.number, k)) && k >= minFrame && as(stack.elements[k], *Scope) == scope)
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> scope == nil && same(map[int]Sexp) && (forall j int :: minFrame <= j && j <= stack.tos ==> !binds(stack.elements[j], sym.number))
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

func (*Stack).LookupSymbol(stack, sym, setVal) (r, err, scope)
  requires scoped(stack) && sym != nil
  modifies map[int]Sexp
  ensures where: err == nil ==> scope != nil && (exists k int :: old(topmost(stack, sym.number, k)) && as(stack.elements[k], *Scope) == scope)
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> scope == nil && same(map[int]Sexp) && (forall j int :: 0 <= j && j <= stack.tos ==> !binds(stack.elements[j], sym.number))
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

// The search that stops at the innermost function: in its scopes, or (checkCaptures) in what that
// function captured; never in a scope beyond it.
func (*Stack).LookupSymbolUntilFunction(stack, sym, setVal, maximumFuncToSearch, checkCaptures) (r, err, scope)
  requires scoped(stack) && sym != nil && maximumFuncToSearch <= 1
  requires owners: checkCaptures ==> (forall j int :: 0 <= j && j <= stack.tos && isFn(stack.elements[j]) ==> as(stack.elements[j], *Scope).MyFunction != nil && captures(as(stack.elements[j], *Scope).MyFunction))
  modifies map[int]Sexp
  loop 1 invariant range: i >= 0 && i <= stack.tos + 1 && funcCount == 0
  loop 1 invariant none: forall j int :: stack.tos - i < j && j <= stack.tos ==> !binds(stack.elements[j], sym.number) && !isFn(stack.elements[j])
  loop 1 invariant untouched: same(map[int]Sexp)
  ensures where: err == nil ==> scope != nil && ((exists k int :: old(nearest(stack, sym.number, k)) && as(stack.elements[k], *Scope) == scope) || (checkCaptures && (exists k int :: innerFn(stack, k) && captured(as(stack.elements[k], *Scope).MyFunction, scope))))
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> scope == nil && same(map[int]Sexp) && (forall k int :: !nearest(stack, sym.number, k))
  ensures which: err != nil ==> err == SymNotFound
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))
  ensures prefers.live: (exists k int :: old(nearest(stack, sym.number, k))) ==> err == nil && (exists k int :: old(nearest(stack, sym.number, k)) && as(stack.elements[k], *Scope) == scope)

func (*Closing).LookupSymbolUntilFunction(c, sym, setVal, maximumFuncToSearch, checkCaptures) (r, err, scope)
  requires c != nil && scoped(c.Stack) && sym != nil && maximumFuncToSearch <= 1 && !checkCaptures
  modifies map[int]Sexp
  ensures where: err == nil ==> scope != nil && (exists k int :: old(nearest(c.Stack, sym.number, k)) && as(c.Stack.elements[k], *Scope) == scope)
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> err == SymNotFound && scope == nil && same(map[int]Sexp) && (forall k int :: !nearest(c.Stack, sym.number, k))
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

func (*Closing).LookupSymbol(c, sym, setVal) (r, err, scope)
  requires c != nil && scoped(c.Stack) && sym != nil
  modifies map[int]Sexp
  ensures where: err == nil ==> scope != nil && (exists k int :: old(topmost(c.Stack, sym.number, k)) && as(c.Stack.elements[k], *Scope) == scope)
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> scope == nil && same(map[int]Sexp)
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

func (*SexpFunction).ClosingLookupSymbol(sf, sym, setVal) (r, err, scope)
  requires sf != nil && captures(sf) && sym != nil
  modifies map[int]Sexp
  ensures where: err == nil ==> scope != nil && captured(sf, scope)
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> same(map[int]Sexp)
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

func (*SexpFunction).ClosingLookupSymbolUntilFunc(sf, sym, setVal, maximumFuncToSearch, checkCaptures) (r, err, scope)
  requires sf != nil && captures(sf) && sym != nil && maximumFuncToSearch <= 1 && !checkCaptures
  modifies map[int]Sexp
  ensures where: err == nil ==> scope != nil && captured(sf, scope)
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> same(map[int]Sexp)
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

// outer(f, g): g is f or lexically encloses it: any relation closed under parent
ufun outer(*SexpFunction, *SexpFunction) bool

func (*SexpFunction).LookupSymbolInParentChainOfClosures(sf, sym, setVal, env) (r, err, scope)
  requires sf != nil && sym != nil && env != nil
  requires chain: outer(sf, sf) && (forall g *SexpFunction :: outer(sf, g) && g.parent != nil ==> outer(sf, g.parent))
  requires closed: forall g *SexpFunction :: outer(sf, g) ==> g != nil && captures(g)
  modifies map[int]Sexp
  loop 1 invariant walk: cur != nil && outer(sf, cur) && par == cur.parent
  loop 1 invariant untouched: same(map[int]Sexp)
  ensures where: err == nil ==> scope != nil && (exists g *SexpFunction :: outer(sf, g) && captured(g, scope))
  ensures value: err == nil ==> r == old(scope.Map[sym.number])
  ensures absent: err != nil ==> same(map[int]Sexp)
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

// A name that is not a label means: the nearest scope of the running function that binds it;
// failing that, a scope captured by the function, by one it was made in, or by the owner of the
// innermost function scope. Scopes of callers are in none of these.
func (*Zlisp).LexicalLookupSymbol(env, sym, setVal) (r, err, scope)
  requires env != nil && env.curfunc != nil && scoped(env.linearstack) && sym != nil
  requires chain: outer(env.curfunc, env.curfunc) && (forall g *SexpFunction :: outer(env.curfunc, g) && g.parent != nil ==> outer(env.curfunc, g.parent))
  requires closed: forall g *SexpFunction :: outer(env.curfunc, g) ==> g != nil && captures(g)
  requires owners: forall j int :: 0 <= j && j <= env.linearstack.tos && isFn(env.linearstack.elements[j]) ==> as(env.linearstack.elements[j], *Scope).MyFunction != nil && captures(as(env.linearstack.elements[j], *Scope).MyFunction)
  modifies map[int]Sexp
  ensures label: sym.isDot || sym.colonTail || (sym.isSigil && sym.sigil == "?") ==> err == nil && is(r, *SexpSymbol) && as(r, *SexpSymbol) == sym && same(map[int]Sexp)
  ensures where: err == nil && scope != nil ==> (exists k int :: old(nearest(env.linearstack, sym.number, k)) && as(env.linearstack.elements[k], *Scope) == scope) || (exists g *SexpFunction :: outer(env.curfunc, g) && captured(g, scope)) || (exists k int :: innerFn(env.linearstack, k) && captured(as(env.linearstack.elements[k], *Scope).MyFunction, scope))
  ensures value: err == nil && scope != nil ==> r == old(scope.Map[sym.number])
  ensures live.first: !(sym.isDot || sym.colonTail || (sym.isSigil && sym.sigil == "?")) && (exists k int :: old(nearest(env.linearstack, sym.number, k))) ==> err == nil && (exists k int :: old(nearest(env.linearstack, sym.number, k)) && as(env.linearstack.elements[k], *Scope) == scope)
  ensures absent: err != nil ==> same(map[int]Sexp)
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures set: err == nil && scope != nil && setVal != nil ==> scope.Map[sym.number] == old(deref(setVal)) && sameExcept(map[int]Sexp, ref(scope.Map))

// defining binds in the innermost scope and touches no other
func (*RegisteredType).Init(e)
  trusted "assumed: making the zero Go value of a registered type touches nothing of the interpreter"
  modifies RegisteredType.Aliases, RegisteredType.ValueCache, RegisteredType.TypeCache, RegisteredType.PointerName, RegisteredType.ReflectName, RegisteredType.DisplayAs, RegisteredType.initDone

func (*Stack).BindSymbol(stack, sym, expr) (err)
  requires scoped(stack) && sym != nil && stack.tos >= 0
  ensures innermost: sameExcept(map[int]Sexp, ref(as(stack.elements[stack.tos], *Scope).Map))
  ensures bound: err == nil ==> has(as(stack.elements[stack.tos], *Scope).Map, sym.number) && as(stack.elements[stack.tos], *Scope).Map[sym.number] == expr
  ensures others: forall n int :: n != sym.number ==> (has(as(stack.elements[stack.tos], *Scope).Map, n) <==> old(has(as(stack.elements[stack.tos], *Scope).Map, n))) && as(stack.elements[stack.tos], *Scope).Map[n] == old(as(stack.elements[stack.tos], *Scope).Map[n])
  ensures refused: err != nil ==> same(map[int]Sexp)
  ensures new: !old(has(as(stack.elements[stack.tos], *Scope).Map, sym.number)) ==> err == nil

func (*Stack).DefineSymbol(stack, sym, expr) (err)
  requires scoped(stack) && sym != nil
  modifies map[int]Sexp
  ensures empty: err != nil <==> stack.tos < 0
  ensures bound: err == nil ==> has(as(stack.elements[stack.tos], *Scope).Map, sym.number) && as(stack.elements[stack.tos], *Scope).Map[sym.number] == expr && sameExcept(map[int]Sexp, ref(as(stack.elements[stack.tos], *Scope).Map))

func (*SexpFunction).Copy(sf) (r)
  requires sf != nil
  modifies nothing
  ensures copy: r != nil && fresh(r)
  ensures same: r.name == sf.name && r.nargs == sf.nargs && r.varargs == sf.varargs && arr(r.fun) == arr(sf.fun) && len(r.fun) == len(sf.fun)

func (CreateClosureInstr).Execute(a, env) (err)
  requires vm(env) && scoped(env.linearstack) && a.sfun != nil && arr(env.datastack.elements) != arr(env.linearstack.elements)
  ensures ok: err == nil && env.pc == old(env.pc) + 1 && env.datastack.tos == old(env.datastack.tos) + 1
  ensures closure: is(topv(env, 0), *SexpFunction) && as(topv(env, 0), *SexpFunction) != nil && fresh(as(topv(env, 0), *SexpFunction))
  ensures own: as(topv(env, 0), *SexpFunction).parent == env.curfunc && fresh(as(topv(env, 0), *SexpFunction).closingOverScopes)
  ensures scopes: (exists f int :: 0 <= f && (f == 0 || isFn(env.linearstack.elements[f])) && (forall j int :: f < j && j <= env.linearstack.tos ==> !isFn(env.linearstack.elements[j]))
       && as(topv(env, 0), *SexpFunction).closingOverScopes.Stack.tos == env.linearstack.tos - f && (forall j int :: 0 <= j && j <= env.linearstack.tos - f ==> as(topv(env, 0), *SexpFunction).closingOverScopes.Stack.elements[j] == env.linearstack.elements[f + j]))
  ensures untouched: sameExcept(Stack.tos, env.datastack) && same(map[int]Sexp)

func (*Zlisp).LexicalBindSymbol(env, sym, expr) (err)
  requires env != nil && scoped(env.linearstack) && sym != nil && env.linearstack.tos >= 0
  ensures innermost: sameExcept(map[int]Sexp, ref(as(env.linearstack.elements[env.linearstack.tos], *Scope).Map))
  ensures bound: err == nil ==> has(as(env.linearstack.elements[env.linearstack.tos], *Scope).Map, sym.number) && as(env.linearstack.elements[env.linearstack.tos], *Scope).Map[sym.number] == expr
  ensures refused: err != nil ==> same(map[int]Sexp)
  ensures new: !old(has(as(env.linearstack.elements[env.linearstack.tos], *Scope).Map, sym.number)) ==> err == nil

pred plain(e Sexp) = !is(e, Selector)

func (*Zlisp).RValue(env, expr) (r, err)
  requires env != nil
  ensures plain: plain(expr) ==> r == expr && err == nil && same(map[int]Sexp) && same(Stack.tos) && same(Stack.elements) && same([]StackElem) && same(Zlisp.pc) && same(Zlisp.linearstack) && same(Zlisp.datastack) && same(Zlisp.curfunc) && same(Scope.IsFunction) && same(Scope.MyFunction) && same(SexpFunction.parent) && same(SexpFunction.closingOverScopes)

// def (an index expression as operand is read first, which is not the subject here)
func (PopStackPutEnvInstr).Execute(p, env) (err)
  requires vm(env) && scoped(env.linearstack) && env.linearstack.tos >= 0 && p.sym != nil && arr(env.datastack.elements) != arr(env.linearstack.elements)
  requires env.datastack.tos >= 0 && plain(topv(env, 0))
  ensures innermost: sameExcept(map[int]Sexp, ref(as(env.linearstack.elements[env.linearstack.tos], *Scope).Map))
  ensures bound: err == nil ==> as(env.linearstack.elements[env.linearstack.tos], *Scope).Map[p.sym.number] == old(topv(env, 0))

writers Scope.IsFunction: (AddFuncScopeInstr).Execute, (*Zlisp).showStackHelper
writers Scope.MyFunction: (AddFuncScopeInstr).Execute, (*Zlisp).showStackHelper
writers Closing.Stack: NewClosing, NewEmptyClosing
