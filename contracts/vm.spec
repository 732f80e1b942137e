// The VM's stacks and instructions: exact effect of each on the program counter,
// the operand stack and the depth of the scope stack.
props C02, C03, C04, C09, C15, C16

pred wfs(s *Stack) = s != nil && s.tos >= 0 - 1 && s.tos == len(s.elements) - 1
pred vm(env *Zlisp) = env != nil && env.curfunc != nil && wfs(env.datastack) && wfs(env.linearstack) && wfs(env.addrstack) && env.datastack != env.linearstack && env.datastack != env.addrstack && env.linearstack != env.addrstack
pred operand(e StackElem) = is(e, DataStackElem)
pred operands(env *Zlisp) = forall j int :: 0 <= j && j <= env.datastack.tos ==> operand(env.datastack.elements[j])
pred topv(env *Zlisp, k int) = as(env.datastack.elements[env.datastack.tos - k], DataStackElem).expr

func (*Stack).Get(stack, n) (r, err)
  requires wfs(stack) && n >= 0
  modifies nothing
  ensures under: err != nil <==> stack.tos - n < 0
  ensures which: err != nil ==> err == StackUnderFlowErr
  ensures elem: err == nil ==> r == stack.elements[stack.tos - n]

func (*Stack).Pop(stack) (r, err)
  requires wfs(stack)
  modifies Stack.tos, Stack.elements, []StackElem
  ensures under: err != nil <==> old(stack.tos) < 0
  ensures which: err != nil ==> err == StackUnderFlowErr
  ensures unchanged: err != nil ==> same(Stack.tos) && same(Stack.elements) && same([]StackElem)
  ensures size: err == nil ==> stack.tos == old(stack.tos) - 1 && len(stack.elements) == old(len(stack.elements)) - 1
  ensures top: err == nil ==> r == old(stack.elements[stack.tos])
  ensures kept: forall j int :: 0 <= j && j <= stack.tos ==> stack.elements[j] == old(stack.elements[j])
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

func (*Stack).Size(stack) (n)
  requires wfs(stack)
  modifies nothing
  ensures n == stack.tos + 1

func (*Stack).IsEmpty(stack) (r)
  requires wfs(stack)
  modifies nothing
  ensures r <==> stack.tos < 0

func (*Stack).PushExpr(stack, expr)
  requires wfs(stack)
  modifies Stack.tos, Stack.elements, []StackElem
  ensures size: stack.tos == old(stack.tos) + 1 && wfs(stack)
  ensures top: is(stack.elements[stack.tos], DataStackElem) && as(stack.elements[stack.tos], DataStackElem).expr == expr
  ensures kept: forall j int :: 0 <= j && j <= old(stack.tos) ==> stack.elements[j] == old(stack.elements[j])
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

func (*Stack).PopExpr(stack) (r, err)
  requires wfs(stack)
  modifies Stack.tos, Stack.elements, []StackElem
  ensures under: err != nil <==> old(stack.tos) < 0
  ensures which: err != nil ==> err == StackUnderFlowErr
  ensures size: err == nil ==> stack.tos == old(stack.tos) - 1 && wfs(stack)
  ensures top: err == nil ==> operand(old(stack.elements[stack.tos])) && r == old(as(stack.elements[stack.tos], DataStackElem).expr)
  ensures kept: forall j int :: 0 <= j && j <= stack.tos ==> stack.elements[j] == old(stack.elements[j])
  ensures unchanged: err != nil ==> same(Stack.tos) && same(Stack.elements) && same([]StackElem)
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

func (*Stack).GetExpr(stack, n) (r, err)
  requires wfs(stack) && n >= 0
  modifies nothing
  ensures under: err != nil <==> stack.tos - n < 0
  ensures elem: err == nil ==> r == as(stack.elements[stack.tos - n], DataStackElem).expr

func (*Stack).GetExpressions(stack, n) (r, err)
  requires wfs(stack) && n >= 0
  modifies nothing
  loop 1 invariant got: i >= 0 && i <= n && len(arr) == n && fresh(arr) && sameExcept([]Sexp, arr) && (forall j int :: 0 <= j && j < i ==> arr[j] == as(stack.elements[stack.tos + 1 - n + j], DataStackElem).expr)
  ensures under: err != nil <==> n > stack.tos + 1
  ensures many: err == nil ==> len(r) == n && (forall j int :: 0 <= j && j < n ==> r[j] == as(stack.elements[stack.tos + 1 - n + j], DataStackElem).expr)

func (*Stack).PopExpressions(stack, n) (r, err)
  requires wfs(stack) && n >= 0
  modifies Stack.tos, Stack.elements, []StackElem
  ensures under: err != nil <==> n > old(stack.tos) + 1
  ensures unchanged: err != nil ==> same(Stack.tos) && same(Stack.elements) && same([]StackElem)
  ensures many: err == nil ==> len(r) == n && (forall j int :: 0 <= j && j < n ==> r[j] == old(as(stack.elements[stack.tos + 1 - n + j], DataStackElem).expr))
  ensures size: err == nil ==> stack.tos == old(stack.tos) - n && wfs(stack)
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack)

func (*Stack).PopScope(stack) (err)
  requires wfs(stack)
  modifies Stack.tos, Stack.elements, []StackElem
  ensures under: err != nil <==> old(stack.tos) < 0
  ensures size: err == nil ==> stack.tos == old(stack.tos) - 1 && wfs(stack)
  ensures kept: forall j int :: 0 <= j && j <= stack.tos ==> stack.elements[j] == old(stack.elements[j])
  ensures unchanged: err != nil ==> same(Stack.tos) && same(Stack.elements) && same([]StackElem)
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

func (*Stack).PushAddr(stack, function, pc)
  requires wfs(stack)
  modifies Stack.tos, Stack.elements, []StackElem
  ensures size: stack.tos == old(stack.tos) + 1 && wfs(stack)
  ensures top: is(stack.elements[stack.tos], Address) && as(stack.elements[stack.tos], Address).function == function && as(stack.elements[stack.tos], Address).position == pc
  ensures kept: forall j int :: 0 <= j && j <= old(stack.tos) ==> stack.elements[j] == old(stack.elements[j])
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

func (*Stack).PopAddr(stack) (f, pc, err)
  requires wfs(stack)
  modifies Stack.tos, Stack.elements, []StackElem
  ensures under: err != nil <==> old(stack.tos) < 0
  ensures size: err == nil ==> stack.tos == old(stack.tos) - 1 && wfs(stack)
  ensures top: err == nil ==> f == old(as(stack.elements[stack.tos], Address).function) && pc == old(as(stack.elements[stack.tos], Address).position)
  ensures kept: forall j int :: 0 <= j && j <= stack.tos ==> stack.elements[j] == old(stack.elements[j])
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

// ---- truth ----

func IsTruthy(expr) (r)
  modifies nothing
  requires is(expr, *SexpBool) ==> as(expr, *SexpBool) != nil
  requires is(expr, *SexpInt) ==> as(expr, *SexpInt) != nil
  requires is(expr, *SexpUint64) ==> as(expr, *SexpUint64) != nil
  requires is(expr, *SexpChar) ==> as(expr, *SexpChar) != nil
  ensures bool: is(expr, *SexpBool) ==> (r <==> as(expr, *SexpBool).Val)
  ensures int: is(expr, *SexpInt) ==> (r <==> as(expr, *SexpInt).Val != 0)
  ensures uint: is(expr, *SexpUint64) ==> (r <==> as(expr, *SexpUint64).Val != 0)
  ensures char: is(expr, *SexpChar) ==> (r <==> as(expr, *SexpChar).Val != 0)
  ensures null: is(expr, *SexpSentinel) ==> (r <==> as(expr, *SexpSentinel) != SexpNull)
  ensures other: !is(expr, *SexpBool) && !is(expr, *SexpInt) && !is(expr, *SexpUint64) && !is(expr, *SexpChar) && !is(expr, *SexpSentinel) ==> r

pred selector(e Sexp) = is(e, *SexpArraySelector) || is(e, *SexpHashSelector)

func (*Zlisp).selected(env, val) (r, err)
  requires vm(env)
  ensures plain: !selector(val) ==> r == val && err == nil && same(Stack.tos) && same(Stack.elements) && same(Zlisp.pc) && same([]StackElem) && same(map[int]Sexp) && same(Zlisp.linearstack) && same(Zlisp.datastack) && same(Zlisp.curfunc) && same(Scope.IsFunction) && same(Scope.MyFunction) && same(SexpFunction.parent) && same(SexpFunction.closingOverScopes)

// ---- instructions ----

func (*Zlisp).CurrentFunctionSize(env) (n)
  requires env != nil
  modifies nothing
  ensures size: n == ite(env.curfunc.user, 0, len(env.curfunc.fun))

func (JumpInstr).Execute(j, env) (err)
  requires env != nil
  modifies Zlisp.pc
  ensures jump: err == nil ==> env.pc == old(env.pc) + j.addpc
  ensures inside: err == nil ==> env.pc >= 0 && env.pc <= ite(env.curfunc.user, 0, len(env.curfunc.fun))
  ensures fail: err != nil ==> env.pc == old(env.pc)
  ensures frame: sameExcept(Zlisp.pc, env)

func (BranchInstr).Execute(b, env) (err)
  requires vm(env)
  ensures popped: err == nil && !selector(old(topv(env, 0))) ==> env.datastack.tos == old(env.datastack.tos) - 1
  ensures taken: err == nil && !selector(old(topv(env, 0))) && is(old(topv(env, 0)), *SexpBool) && old(as(topv(env, 0), *SexpBool).Val) == b.direction ==> env.pc == old(env.pc) + b.location
  ensures fallthrough: err == nil && !selector(old(topv(env, 0))) && is(old(topv(env, 0)), *SexpBool) && old(as(topv(env, 0), *SexpBool).Val) != b.direction ==> env.pc == old(env.pc) + 1
  ensures int.taken: err == nil && is(old(topv(env, 0)), *SexpInt) && (old(as(topv(env, 0), *SexpInt).Val) != 0) == b.direction ==> env.pc == old(env.pc) + b.location
  ensures int.fallthrough: err == nil && is(old(topv(env, 0)), *SexpInt) && (old(as(topv(env, 0), *SexpInt).Val) != 0) != b.direction ==> env.pc == old(env.pc) + 1
  ensures other.taken: err == nil && (is(old(topv(env, 0)), *SexpStr) || is(old(topv(env, 0)), *SexpPair) || is(old(topv(env, 0)), *SexpArray) || is(old(topv(env, 0)), *SexpHash) || is(old(topv(env, 0)), *SexpFloat)) ==> env.pc == old(env.pc) + ite(b.direction, b.location, 1)

func (PushInstr).Execute(p, env) (err)
  requires vm(env)
  ensures ok: err == nil && env.pc == old(env.pc) + 1 && env.datastack.tos == old(env.datastack.tos) + 1 && topv(env, 0) == p.expr
  ensures frame: sameExcept(Stack.tos, env.datastack) && sameExcept(Zlisp.pc, env)

func (PopInstr).Execute(p, env) (err)
  requires vm(env)
  ensures ok: err == nil && env.pc == old(env.pc) + 1
  ensures popped: old(env.datastack.tos) >= 0 ==> env.datastack.tos == old(env.datastack.tos) - 1
  ensures frame: sameExcept(Stack.tos, env.datastack) && sameExcept(Zlisp.pc, env)

func (DupInstr).Execute(d, env) (err)
  requires vm(env)
  ensures dup: err == nil ==> env.pc == old(env.pc) + 1 && env.datastack.tos == old(env.datastack.tos) + 1 && topv(env, 0) == old(topv(env, 0))
  ensures under: err != nil <==> old(env.datastack.tos) < 0
  ensures frame: sameExcept(Stack.tos, env.datastack) && sameExcept(Zlisp.pc, env)

func (LabelInstr).Execute(s, env) (err)
  requires env != nil
  ensures err == nil && env.pc == old(env.pc) + 1 && same(Stack.tos)

func (LoopStartInstr).Execute(s, env) (err)
  requires env != nil
  ensures err == nil && env.pc == old(env.pc) + 1 && same(Stack.tos)

func (AddScopeInstr).Execute(a, env) (err)
  requires vm(env)
  ensures ok: err == nil && env.pc == old(env.pc) + 1 && env.linearstack.tos == old(env.linearstack.tos) + 1
  ensures fresh: is(env.linearstack.elements[env.linearstack.tos], *Scope) && fresh(as(env.linearstack.elements[env.linearstack.tos], *Scope)) && !as(env.linearstack.elements[env.linearstack.tos], *Scope).IsFunction
  ensures kept: forall j int :: 0 <= j && j <= old(env.linearstack.tos) ==> env.linearstack.elements[j] == old(env.linearstack.elements[j])
  ensures frame: sameExcept(Stack.tos, env.linearstack) && sameExcept(Zlisp.pc, env)

func (AddFuncScopeInstr).Execute(a, env) (err)
  requires vm(env) && a.Helper != nil
  ensures ok: err == nil && env.pc == old(env.pc) + 1 && env.linearstack.tos == old(env.linearstack.tos) + 1
  ensures fresh: is(env.linearstack.elements[env.linearstack.tos], *Scope) && fresh(as(env.linearstack.elements[env.linearstack.tos], *Scope)) && as(env.linearstack.elements[env.linearstack.tos], *Scope).IsFunction
  ensures kept: forall j int :: 0 <= j && j <= old(env.linearstack.tos) ==> env.linearstack.elements[j] == old(env.linearstack.elements[j])
  ensures frame: sameExcept(Stack.tos, env.linearstack) && sameExcept(Zlisp.pc, env)

func (RemoveScopeInstr).Execute(a, env) (err)
  requires vm(env)
  ensures ok: err == nil ==> env.pc == old(env.pc) + 1 && env.linearstack.tos == old(env.linearstack.tos) - 1
  ensures under: err != nil <==> old(env.linearstack.tos) < 0
  ensures frame: sameExcept(Stack.tos, env.linearstack)

func (*BreakInstr).Execute(s, env) (err)
  requires vm(env) && s != nil && s.loop != nil && s.scopesToPop >= 0
  loop 1 invariant pops: i >= 0 && i <= s.scopesToPop && env.linearstack.tos == pre(env.linearstack.tos) - i && sameExcept(Stack.tos, env.linearstack) && wfs(env.linearstack) && same(Zlisp.linearstack)
  ensures scopes: err == nil ==> env.linearstack.tos == old(env.linearstack.tos) - s.scopesToPop
  ensures target: err == nil ==> env.pc == s.pos + s.loop.breakOffset
  ensures frame: sameExcept(Stack.tos, env.linearstack)

func (*ContinueInstr).Execute(s, env) (err)
  requires vm(env) && s != nil && s.loop != nil && s.scopesToPop >= 0
  loop 1 invariant pops: i >= 0 && i <= s.scopesToPop && env.linearstack.tos == pre(env.linearstack.tos) - i && sameExcept(Stack.tos, env.linearstack) && wfs(env.linearstack) && same(Zlisp.linearstack)
  ensures scopes: err == nil ==> env.linearstack.tos == old(env.linearstack.tos) - s.scopesToPop
  ensures target: err == nil ==> env.pc == s.pos + s.loop.continueOffset
  ensures frame: sameExcept(Stack.tos, env.linearstack)

func (*Zlisp).FindLoop(env, target) (pos, err)
  requires env != nil && env.curfunc != nil
  modifies nothing

func (PushStackmarkInstr).Execute(s, env) (err)
  requires vm(env)
  ensures ok: err == nil && env.pc == old(env.pc) + 1 && env.datastack.tos == old(env.datastack.tos) + 1
  ensures mark: is(topv(env, 0), *SexpStackmark) && as(topv(env, 0), *SexpStackmark).sym == s.sym
  ensures frame: sameExcept(Stack.tos, env.datastack)

// a stack mark of this symbol
pred marked(e StackElem, n int) = is(e, DataStackElem) && is(as(e, DataStackElem).expr, *SexpStackmark) && as(as(e, DataStackElem).expr, *SexpStackmark).sym.number == n

func (PopUntilStackmarkInstr).Execute(s, env) (err)
  requires vm(env) && s.sym != nil
  loop 1 invariant down: vm(env) && env.datastack == pre(env.datastack) && env.datastack.tos <= old(env.datastack.tos) && env.pc == old(env.pc) + 1 && sameExcept(Stack.tos, env.datastack) && same(SexpStackmark.sym) && same(SexpSymbol.number)
  loop 1 invariant kept: forall j int :: 0 <= j && j <= env.datastack.tos ==> env.datastack.elements[j] == old(env.datastack.elements[j])
  loop 1 invariant none: forall j int :: env.datastack.tos < j && j <= old(env.datastack.tos) ==> !old(marked(env.datastack.elements[j], s.sym.number))
  ensures step: err == nil ==> env.pc == old(env.pc) + 1
  ensures at.mark: err == nil ==> env.datastack.tos >= 0 && (exists k int :: k == env.datastack.tos && old(marked(env.datastack.elements[k], s.sym.number)) && (forall j int :: k < j && j <= old(env.datastack.tos) ==> !old(marked(env.datastack.elements[j], s.sym.number))))
  ensures frame: sameExcept(Stack.tos, env.datastack)

func (ClearStackmarkInstr).Execute(s, env) (err)
  requires vm(env) && s.sym != nil
  loop 1 invariant a: vm(env)
  loop 1 invariant b: env.datastack == pre(env.datastack) && env.datastack.tos <= old(env.datastack.tos)
  loop 1 invariant c: sameExcept(Stack.tos, env.datastack)
  loop 1 invariant d: same(SexpStackmark.sym) && same(SexpSymbol.number)
  loop 1 invariant e: env.pc == old(env.pc)
  loop 1 invariant kept: forall j int :: 0 <= j && j <= env.datastack.tos ==> env.datastack.elements[j] == old(env.datastack.elements[j])
  loop 1 invariant none: forall j int :: env.datastack.tos < j && j <= old(env.datastack.tos) ==> !old(marked(env.datastack.elements[j], s.sym.number))
  ensures step: err == nil ==> env.pc == old(env.pc) + 1
  ensures past.mark: err == nil ==> (exists k int :: k == env.datastack.tos + 1 && old(marked(env.datastack.elements[k], s.sym.number)) && (forall j int :: k < j && j <= old(env.datastack.tos) ==> !old(marked(env.datastack.elements[j], s.sym.number))))
  ensures frame: sameExcept(Stack.tos, env.datastack)

func (ReturnInstr).Execute(r, env) (err)
  requires vm(env) && (forall j int :: 0 <= j && j <= env.addrstack.tos ==> is(env.addrstack.elements[j], Address))
  ensures fails: r.err != nil ==> err == r.err

// ---- arrays ----

func joinElements(front, back) (r)
  modifies nothing
  ensures len: len(r) == len(front) + len(back)
  ensures front: forall i int :: 0 <= i && i < len(front) ==> r[i] == front[i]
  ensures back: forall i int :: 0 <= i && i < len(back) ==> r[len(front) + i] == back[i]
  ensures own: fresh(r)

// ---- control state: what an evaluation nested in another restores ----

func (*Zlisp).captureControlState(env) (s)
  requires vm(env)
  modifies nothing
  ensures control: s.curfunc == env.curfunc && s.pc == env.pc && s.nesting == env.nesting && s.linearstack == env.linearstack
  ensures sizes: s.addrstackSize == env.addrstack.tos + 1 && s.linearstackSize == env.linearstack.tos + 1 && s.datastackSize == env.datastack.tos + 1

pred below(env *Zlisp, s vmControlState) = s.addrstackSize >= 0 && s.linearstackSize >= 0 && s.datastackSize >= 0 && s.linearstack != nil && s.addrstackSize <= env.addrstack.tos + 1 && s.linearstackSize <= s.linearstack.tos + 1 && s.datastackSize <= env.datastack.tos + 1

func (*Zlisp).restoreControlState(env, s)
  requires vm(env) && wfs(s.linearstack) && s.linearstack != env.datastack && s.linearstack != env.addrstack && below(env, s)
  ensures control: env.curfunc == s.curfunc && env.pc == s.pc && env.nesting == s.nesting && env.linearstack == s.linearstack
  ensures sizes: env.addrstack.tos + 1 == s.addrstackSize && env.linearstack.tos + 1 == s.linearstackSize && env.datastack.tos + 1 == s.datastackSize
  ensures same.stacks: env.addrstack == old(env.addrstack) && env.datastack == old(env.datastack)
