// Tail calls: the call of the running function by itself adds no frame, leaves the
// scopes of the activation it replaces, and starts the function over.
props C09

// what an evaluation nested in this one leaves as it was
pred still(env *Zlisp) = vm(env) && env.curfunc == old(env.curfunc) && env.pc == old(env.pc) && env.nesting == old(env.nesting) && env.linearstack == old(env.linearstack) && env.addrstack == old(env.addrstack) && env.datastack == old(env.datastack) && env.linearstack.tos == old(env.linearstack.tos) && env.addrstack.tos == old(env.addrstack.tos)

func (*Zlisp).EvalCallExpression(env, expr) (r, err)
  requires vm(env)
  trusted "a nested evaluation restores the control state: bounded by the harnesses of C04 and C05"
  ensures still: still(env) && env.datastack.tos == old(env.datastack.tos)

func (*Zlisp).ResolveCallable(env, callee) (r, name, err)
  requires vm(env)
  trusted "a nested evaluation restores the control state: bounded by the harnesses of C04 and C05"
  ensures still: still(env) && env.datastack.tos == old(env.datastack.tos)

func (*Zlisp).PrepareCallExprArgs(env, function, args) (err)
  requires vm(env)
  trusted "evaluates the arguments one by one in nested evaluations: bounded by the harnesses of C04 and C05"
  ensures still: still(env)
  ensures operands: err == nil ==> env.datastack.tos == old(env.datastack.tos) + len(args)
  ensures kept: env.datastack.tos >= old(env.datastack.tos)

func (*Zlisp).matchFormals(env, function, nargs) (err)
  requires vm(env) && function != nil
  trusted "rearranges the operands only"
  ensures still: still(env)

func (*Zlisp).CallResolved(env, funcobj, callName, args) (err)
  requires vm(env)
  trusted "bounded by the harness of C09"
  ensures frame: err == nil && env.pc == 0 ==> env.addrstack.tos == old(env.addrstack.tos) + 1

func (TailCallInstr).Execute(c, env) (err)
  requires vm(env) && c.scopes >= 0
  loop 1 invariant leave: i >= 0 && i <= c.scopes + 1 && vm(env) && env.linearstack == old(env.linearstack) && env.linearstack.tos == old(env.linearstack.tos) - i && env.addrstack == old(env.addrstack) && env.addrstack.tos == old(env.addrstack.tos) && env.curfunc == old(env.curfunc) && env.nesting == old(env.nesting) && env.datastack == old(env.datastack)
  ensures restart: err == nil && env.pc == 0 && env.addrstack.tos == old(env.addrstack.tos) && env.addrstack == old(env.addrstack) ==> env.curfunc == old(env.curfunc) && env.linearstack.tos == old(env.linearstack.tos) - c.scopes - 1 && env.nesting == old(env.nesting)
