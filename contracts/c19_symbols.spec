// C19: symbols are interned consistently across interpreters sharing a table.
props C19

pred SymInv(env *Zlisp) = env.symtable != nil && env.revsymtable != nil && (forall s string :: has(env.symtable, s) ==> has(env.revsymtable, env.symtable[s]) && env.revsymtable[env.symtable[s]] == s) && (forall n int :: has(env.revsymtable, n) ==> has(env.symtable, env.revsymtable[n]) && env.symtable[env.revsymtable[n]] == n)
pred interned(env *Zlisp, s *SexpSymbol) = has(env.symtable, s.name) && env.symtable[s.name] == s.number

func (*Zlisp).DetectSigils(env, sym)
  modifies SexpSymbol.isSigil, SexpSymbol.sigil

func (*Zlisp).MakeSymbol(env, name) (r)
  requires env != nil && SymInv(env)
  modifies SexpSymbol.name, SexpSymbol.number, SexpSymbol.isDot, SexpSymbol.isSigil, SexpSymbol.sigil, map[string]int, map[int]string, Zlisp.nextsymbol
  loop 1 invariant same(map[string]int) && same(map[int]string) && same(SexpSymbol.name) && same(SexpSymbol.number)
  ensures inv: SymInv(env)
  ensures result: r != nil && fresh(r) && r.name == name && interned(env, r)
  ensures known: old(has(env.symtable, name)) ==> r.number == old(env.symtable[name]) && same(map[string]int) && same(map[int]string)
  ensures kept: forall s string :: old(has(env.symtable, s)) ==> has(env.symtable, s) && env.symtable[s] == old(env.symtable[s])
  ensures only: forall s string :: s != name && has(env.symtable, s) ==> old(has(env.symtable, s))
  ensures distinct: forall s string :: s != name && has(env.symtable, s) ==> env.symtable[s] != r.number
  ensures symbols: sameExcept(SexpSymbol.name) && sameExcept(SexpSymbol.number) && sameExcept(map[string]int, ref(env.symtable)) && sameExcept(map[int]string, ref(env.revsymtable))

func (*Zlisp).GenSymbol(env, prefix) (r)
  requires env != nil && SymInv(env)
  loop 1 invariant same(map[string]int) && same(map[int]string) && same(SexpSymbol.name) && same(SexpSymbol.number)
  ensures inv: SymInv(env)
  ensures made: r != nil && interned(env, r)
  ensures new: (forall s string :: s == r.name ==> !old(has(env.symtable, s)))
  ensures kept: forall s string :: old(has(env.symtable, s)) ==> has(env.symtable, s) && env.symtable[s] == old(env.symtable[s]) && env.symtable[s] != r.number
  ensures symbols: sameExcept(SexpSymbol.name) && sameExcept(SexpSymbol.number)

func GensymFunction(env, name, args) (r, err)
  requires env != nil && SymInv(env)
  ensures inv: SymInv(env)
  ensures new: err == nil ==> is(r, *SexpSymbol) && as(r, *SexpSymbol) != nil && (forall s string :: s == as(r, *SexpSymbol).name ==> !old(has(env.symtable, s))) && interned(env, as(r, *SexpSymbol))
  ensures kept: forall s string :: old(has(env.symtable, s)) ==> has(env.symtable, s) && env.symtable[s] == old(env.symtable[s])

func (*Zlisp).compareSymbol(env, sym, expr) (r, err)
  requires sym != nil
  ensures eq: is(expr, *SexpSymbol) && as(expr, *SexpSymbol) != nil ==> err == nil && (r == 0 <==> sym.number == as(expr, *SexpSymbol).number)
  ensures other: err == nil && r == 0 ==> is(expr, *SexpSymbol)

lemma equality.by.number: forall e1 *Zlisp, e2 *Zlisp, a *SexpSymbol, b *SexpSymbol :: SymInv(e1) && e1.symtable == e2.symtable && interned(e1, a) && interned(e2, b) ==> (a.number == b.number <==> a.name == b.name)

func (*Zlisp).Duplicate(env) (d)
  requires env != nil && SymInv(env) && env.linearstack != nil && len(env.linearstack.elements) > 0 && env.linearstack.tos == len(env.linearstack.elements) - 1
  ensures shared: d != nil && d.symtable == env.symtable && d.revsymtable == env.revsymtable && sameExcept(Zlisp.nextsymbol)
  ensures tables: same(map[string]int) && same(map[int]string) && SymInv(d)
  ensures parent: env.symtable == old(env.symtable) && env.revsymtable == old(env.revsymtable)

func (*Zlisp).MakeFunction(env, name, nargs, varargs, fun, orig) (r)
  requires env != nil && env.linearstack != nil && env.linearstack.tos == len(env.linearstack.elements) - 1
  modifies SexpFunction.name, SexpFunction.closingOverScopes

func NewClosing(name, env) (r)
  requires env != nil && env.linearstack != nil && env.linearstack.tos == len(env.linearstack.elements) - 1
  loop 1 invariant i <= env.linearstack.tos && first == 0
  loop 2 invariant sameExcept(Stack.tos, stk) && sameExcept(Stack.elements, stk) && sameExcept([]StackElem) && stk != nil && fresh(stk) && stk.tos == $i - 1 && len(stk.elements) == $i && fresh(stk.elements)
  modifies nothing
  ensures r != nil && fresh(r)

func (*Zlisp).Clone(env) (d)
  requires env != nil && SymInv(env) && env.datastack != nil && env.addrstack != nil && env.linearstack != nil && env.linearstack.tos == len(env.linearstack.elements) - 1 && len(env.linearstack.elements) > 0
  ensures shared: d != nil && d.symtable == env.symtable && d.revsymtable == env.revsymtable && sameExcept(Zlisp.nextsymbol)
  ensures tables: same(map[string]int) && same(map[int]string) && SymInv(d)
  ensures parent: env.symtable == old(env.symtable) && env.revsymtable == old(env.revsymtable)

writers Zlisp.symtable: (*Zlisp).Clone, (*Zlisp).Duplicate, NewZlispWithFuncs
writers Zlisp.revsymtable: (*Zlisp).Clone, (*Zlisp).Duplicate, NewZlispWithFuncs
writers SexpSymbol.number: (*Zlisp).MakeSymbol
writers SexpSymbol.name: (*Zlisp).MakeSymbol
writers map[int]string: (*Zlisp).MakeSymbol
