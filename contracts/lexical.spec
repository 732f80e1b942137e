// What a function or a lazy argument made now captures.
props C03, C09, C15, C16

pred isScope(e StackElem) = is(e, *Scope) && as(e, *Scope) != nil
pred binds(e StackElem, n int) = isScope(e) && has(as(e, *Scope).Map, n)
pred isFn(e StackElem) = isScope(e) && as(e, *Scope).IsFunction
// a stack of scopes: every element is one
pred scoped(s *Stack) = wfs(s) && (forall j int :: 0 <= j && j <= s.tos ==> isScope(s.elements[j]))

// where a name is found from the top of s without leaving the innermost function: at k, nothing
// nearer binds it, and no function begins between
pred nearest(s *Stack, n int, k int) = 0 <= k && k <= s.tos && binds(s.elements[k], n) && (forall j int :: k < j && j <= s.tos ==> !binds(s.elements[j], n) && !isFn(s.elements[j]))
// where a name is found from the top of s, functions or not
pred topmost(s *Stack, n int, k int) = 0 <= k && k <= s.tos && binds(s.elements[k], n) && (forall j int :: k < j && j <= s.tos ==> !binds(s.elements[j], n))
pred innerFn(s *Stack, k int) = 0 <= k && k <= s.tos && isFn(s.elements[k]) && (forall j int :: k < j && j <= s.tos ==> !isFn(s.elements[j]))

// A new function captures the scopes of the running function, from its own outermost on, by
// reference and in order; below the innermost function scope nothing.
func NewClosing(name, env) (r)
  requires env != nil && scoped(env.linearstack)
  modifies nothing
  loop 1 invariant down: i <= env.linearstack.tos && i >= 0 - 1 && first == 0 && (i < 0 ==> env.linearstack.tos < 0)
  loop 1 invariant none: forall j int :: i < j && j <= env.linearstack.tos ==> !isFn(env.linearstack.elements[j])
  loop 2 invariant copy: stk != nil && fresh(stk) && stk.tos == $i - 1 && len(stk.elements) == $i && fresh(stk.elements) && (forall j int :: 0 <= j && j < $i ==> stk.elements[j] == env.linearstack.elements[first + j])
  loop 2 invariant frame: sameExcept(Stack.tos, stk) && sameExcept(Stack.elements, stk) && sameExcept([]StackElem)
  loop 2 invariant start: 0 <= first && (first == 0 || isFn(env.linearstack.elements[first])) && (forall j int :: first < j && j <= env.linearstack.tos ==> !isFn(env.linearstack.elements[j]))
  ensures made: r != nil && fresh(r) && wfs(r.Stack) && fresh(r.Stack) && fresh(r.Stack.elements)
  ensures which: (exists f int :: 0 <= f && (f == 0 || isFn(env.linearstack.elements[f])) && (forall j int :: f < j && j <= env.linearstack.tos ==> !isFn(env.linearstack.elements[j]))
       && r.Stack.tos == env.linearstack.tos - f && (forall j int :: 0 <= j && j <= r.Stack.tos ==> r.Stack.elements[j] == env.linearstack.elements[f + j]))

