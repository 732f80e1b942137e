// C18: package members are private unless capitalised.
props C18

// a name is public when its first rune is an upper-case letter
pred stripped(s string) = ite(len(s) > 0 && s[0] == 46, substr(s, 1, len(s) - 1), s)
pred public(s string) = runelen(stripped(stripped(s))) > 0 && extern(bool, unicode.IsUpper, runeat(stripped(stripped(s)), 0))

func stripAnyDotPrefix(s) (r)
  modifies nothing
  ensures one.dot: r == stripped(s)

func errIfPrivate(pathPart, pkg) (err)
  requires pkg != nil
  modifies nothing
  ensures rule: err == nil <==> runelen(stripped(pathPart)) > 0 && extern(bool, unicode.IsUpper, runeat(stripped(pathPart), 0))

func (*Zlisp).MakeSymbol(env, name) (r)
  requires env != nil
  modifies SexpSymbol.name, SexpSymbol.number, SexpSymbol.isDot, SexpSymbol.isSigil, SexpSymbol.sigil, map[string]int, map[int]string, Zlisp.nextsymbol
  ensures named: r != nil && r.name == name && sameExcept(SexpSymbol.name)

func (*Stack).lookupSymbol(stack, sym, minFrame, setVal) (r, err, scope)
  requires stack != nil && sym != nil
  modifies map[int]Sexp
  loop 1 invariant same(map[int]Sexp)
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures found: err == nil ==> scope != nil && scope.Map != nil && has(scope.Map, sym.number) && (setVal == nil ==> r == scope.Map[sym.number])

func (*Stack).LookupSymbol(stack, sym, setVal) (r, err, scope)
  requires stack != nil && sym != nil
  modifies map[int]Sexp
  ensures read: setVal == nil ==> same(map[int]Sexp)
  ensures found: err == nil ==> scope != nil && scope.Map != nil && has(scope.Map, sym.number) && (setVal == nil ==> r == scope.Map[sym.number])

// Reaching a member through packages: on success the last name is public, or is a nested package
// that is only read, or the path went on into a public record of a package on the way.
func (*Stack).nestedPathGetSet(s, env, dotpaths, setVal) (r, err)
  requires s != nil && env != nil
  loop 1 invariant step: $i < len(dotpaths) && ($i == 0 ==> curStack == s) && lenpath == len(dotpaths)
  loop 1 invariant walk: curStack != nil && same(map[int]Sexp) && same([]string)
  ensures private: err == nil ==> len(dotpaths) > 0 && (public(old(dotpaths[len(dotpaths)-1])) || (setVal == nil && is(r, *Stack)) || (exists i int :: 0 <= i && i < len(dotpaths) - 1 && public(old(dotpaths[i]))))
  ensures one: err == nil && len(dotpaths) == 1 ==> public(old(dotpaths[0])) || (setVal == nil && is(r, *Stack))
  ensures untouched: (forall i int :: 0 <= i && i < len(dotpaths) ==> !public(old(dotpaths[i]))) ==> same(map[int]Sexp)
  ensures packages.only: err == nil && len(dotpaths) == 1 ==> s.IsPackage

// A path is resolved from its first part; nothing but these two functions walks into a package.
func dotGetSetHelper(env, name, setVal) (r, err)
  requires env != nil && env.linearstack != nil && env.curfunc != nil
  errprop
