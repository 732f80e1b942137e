// C07: numbers compare and compute exactly as specified.
// Machine integers are bit vectors (mode bv), float64 is the IEEE-754 sort; nothing is idealised.
props C07

pred sgnI(a int64, b int64) = ite(a < b, -1, ite(a > b, 1, 0))
pred sgnU(a uint64, b uint64) = ite(a < b, -1, ite(a > b, 1, 0))
// order of two float64 values; any result above 1 encodes "unordered"
pred ordF(a float64, b float64, r int) = ite(isNaN(a) || isNaN(b), r > 1, r == ite(a < b, -1, ite(a > b, 1, 0)))

func signumFloat(f) (r)
  mode bv
  ensures sign: r == ite(f > conv(float64, 0), 1, ite(f < conv(float64, 0), -1, 0))

func compareInt(i, expr) (r, err)
  mode bv
  requires i != nil
  show a: i.Val
  ensures int: is(expr, *SexpInt) ==> err == nil && r == sgnI(i.Val, as(expr, *SexpInt).Val)
  ensures char: is(expr, *SexpChar) ==> err == nil && r == sgnI(i.Val, conv(int64, as(expr, *SexpChar).Val))
  ensures float: is(expr, *SexpFloat) ==> err == nil && ordF(conv(float64, i.Val), as(expr, *SexpFloat).Val, r)

func compareChar(c, expr) (r, err)
  mode bv
  requires c != nil
  ensures int: is(expr, *SexpInt) ==> err == nil && r == sgnI(conv(int64, c.Val), as(expr, *SexpInt).Val)
  ensures char: is(expr, *SexpChar) ==> err == nil && r == sgnI(conv(int64, c.Val), conv(int64, as(expr, *SexpChar).Val))
  ensures float: is(expr, *SexpFloat) ==> err == nil && ordF(conv(float64, c.Val), as(expr, *SexpFloat).Val, r)

func compareFloat(f, expr) (r, err)
  mode bv
  requires f != nil
  ensures int: is(expr, *SexpInt) ==> err == nil && ordF(f.Val, conv(float64, as(expr, *SexpInt).Val), r)
  ensures char: is(expr, *SexpChar) ==> err == nil && ordF(f.Val, conv(float64, as(expr, *SexpChar).Val), r)
  ensures float: is(expr, *SexpFloat) ==> err == nil && ordF(f.Val, as(expr, *SexpFloat).Val, r)

func compareUint64(i, expr) (r, err)
  mode bv
  requires i != nil
  ensures uint: is(expr, *SexpUint64) ==> err == nil && r == sgnU(i.Val, as(expr, *SexpUint64).Val)

func (*Zlisp).selectedValue(env, x) (r, err)
  mode bv
  ensures itself: !is(x, Selector) ==> r == x && err == nil
  ensures untouched: !is(x, Selector) ==> same(SexpInt.Val) && same(SexpFloat.Val) && same(SexpChar.Val) && same(SexpUint64.Val)

// the dispatcher: every numeric pair reaches the right comparison with its operands in order
func (*Zlisp).Compare(env, a, b) (r, err)
  mode bv
  noinline (*Zlisp).compareSymbol, (*Zlisp).comparePair, (*Zlisp).compareArray
  ensures ii: is(a, *SexpInt) && is(b, *SexpInt) ==> err == nil && r == sgnI(old(as(a, *SexpInt).Val), old(as(b, *SexpInt).Val))
  ensures ic: is(a, *SexpInt) && is(b, *SexpChar) ==> err == nil && r == sgnI(old(as(a, *SexpInt).Val), conv(int64, old(as(b, *SexpChar).Val)))
  ensures if: is(a, *SexpInt) && is(b, *SexpFloat) ==> err == nil && ordF(conv(float64, old(as(a, *SexpInt).Val)), old(as(b, *SexpFloat).Val), r)
  ensures ci: is(a, *SexpChar) && is(b, *SexpInt) ==> err == nil && r == sgnI(conv(int64, old(as(a, *SexpChar).Val)), old(as(b, *SexpInt).Val))
  ensures cc: is(a, *SexpChar) && is(b, *SexpChar) ==> err == nil && r == sgnI(conv(int64, old(as(a, *SexpChar).Val)), conv(int64, old(as(b, *SexpChar).Val)))
  ensures cf: is(a, *SexpChar) && is(b, *SexpFloat) ==> err == nil && ordF(conv(float64, old(as(a, *SexpChar).Val)), old(as(b, *SexpFloat).Val), r)
  ensures fi: is(a, *SexpFloat) && is(b, *SexpInt) ==> err == nil && ordF(old(as(a, *SexpFloat).Val), conv(float64, old(as(b, *SexpInt).Val)), r)
  ensures fc: is(a, *SexpFloat) && is(b, *SexpChar) ==> err == nil && ordF(old(as(a, *SexpFloat).Val), conv(float64, old(as(b, *SexpChar).Val)), r)
  ensures ff: is(a, *SexpFloat) && is(b, *SexpFloat) ==> err == nil && ordF(old(as(a, *SexpFloat).Val), old(as(b, *SexpFloat).Val), r)
  ensures uu: is(a, *SexpUint64) && is(b, *SexpUint64) ==> err == nil && r == sgnU(old(as(a, *SexpUint64).Val), old(as(b, *SexpUint64).Val))

// the operators: what each name answers given the exact order of its operands
pred opres(name string, lt bool, eq bool, gt bool) = ite(name == "<", lt, ite(name == ">", gt, ite(name == "<=", lt || eq, ite(name == ">=", gt || eq, ite(name == "==", eq, !eq)))))
pred isop(name string) = name == "<" || name == ">" || name == "<=" || name == ">=" || name == "==" || name == "!="

func CompareFunction$1(env, nm, args) (r, err)
  mode bv
  requires isop(name)
  ensures nargs: len(args) != 2 ==> err != nil
  ensures ii: len(args) == 2 && is(old(args[0]), *SexpInt) && is(old(args[1]), *SexpInt) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(as(args[0], *SexpInt).Val < as(args[1], *SexpInt).Val), old(as(args[0], *SexpInt).Val == as(args[1], *SexpInt).Val), old(as(args[0], *SexpInt).Val > as(args[1], *SexpInt).Val))
  ensures uu: len(args) == 2 && is(old(args[0]), *SexpUint64) && is(old(args[1]), *SexpUint64) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(as(args[0], *SexpUint64).Val < as(args[1], *SexpUint64).Val), old(as(args[0], *SexpUint64).Val == as(args[1], *SexpUint64).Val), old(as(args[0], *SexpUint64).Val > as(args[1], *SexpUint64).Val))
  ensures cc: len(args) == 2 && is(old(args[0]), *SexpChar) && is(old(args[1]), *SexpChar) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(as(args[0], *SexpChar).Val < as(args[1], *SexpChar).Val), old(as(args[0], *SexpChar).Val == as(args[1], *SexpChar).Val), old(as(args[0], *SexpChar).Val > as(args[1], *SexpChar).Val))
  ensures ff: len(args) == 2 && is(old(args[0]), *SexpFloat) && is(old(args[1]), *SexpFloat) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(as(args[0], *SexpFloat).Val < as(args[1], *SexpFloat).Val), old(as(args[0], *SexpFloat).Val == as(args[1], *SexpFloat).Val), old(as(args[0], *SexpFloat).Val > as(args[1], *SexpFloat).Val))
  ensures if: len(args) == 2 && is(old(args[0]), *SexpInt) && is(old(args[1]), *SexpFloat) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(conv(float64, as(args[0], *SexpInt).Val) < as(args[1], *SexpFloat).Val), old(conv(float64, as(args[0], *SexpInt).Val) == as(args[1], *SexpFloat).Val), old(conv(float64, as(args[0], *SexpInt).Val) > as(args[1], *SexpFloat).Val))
  ensures fi: len(args) == 2 && is(old(args[0]), *SexpFloat) && is(old(args[1]), *SexpInt) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(as(args[0], *SexpFloat).Val < conv(float64, as(args[1], *SexpInt).Val)), old(as(args[0], *SexpFloat).Val == conv(float64, as(args[1], *SexpInt).Val)), old(as(args[0], *SexpFloat).Val > conv(float64, as(args[1], *SexpInt).Val)))
  ensures ic: len(args) == 2 && is(old(args[0]), *SexpInt) && is(old(args[1]), *SexpChar) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(as(args[0], *SexpInt).Val < conv(int64, as(args[1], *SexpChar).Val)), old(as(args[0], *SexpInt).Val == conv(int64, as(args[1], *SexpChar).Val)), old(as(args[0], *SexpInt).Val > conv(int64, as(args[1], *SexpChar).Val)))
  ensures ci: len(args) == 2 && is(old(args[0]), *SexpChar) && is(old(args[1]), *SexpInt) ==> err == nil && is(r, *SexpBool)
       && as(r, *SexpBool).Val == opres(name, old(conv(int64, as(args[0], *SexpChar).Val) < as(args[1], *SexpInt).Val), old(conv(int64, as(args[0], *SexpChar).Val) == as(args[1], *SexpInt).Val), old(conv(int64, as(args[0], *SexpChar).Val) > as(args[1], *SexpInt).Val))

// ---- arithmetic ----
// IEEE operations are the Go operations on float64; ** goes through math.Pow and is left open.
pred fop(op NumericOp, a float64, b float64) = ite(op == Add, a + b, ite(op == Sub, a - b, ite(op == Mult, a * b, a / b)))
pred basic(op NumericOp) = op == Add || op == Sub || op == Mult || op == Div

func NumericFloatDo(op, a, b) (r)
  mode bv
  requires a != nil && b != nil
  ensures val: basic(op) ==> is(r, *SexpFloat) && fpsame(as(r, *SexpFloat).Val, fop(op, old(a.Val), old(b.Val)))

func NumericIntDo(op, a, b) (r)
  mode bv
  requires a != nil && b != nil
  ensures add: op == Add ==> is(r, *SexpInt) && as(r, *SexpInt).Val == old(a.Val) + old(b.Val)
  ensures sub: op == Sub ==> is(r, *SexpInt) && as(r, *SexpInt).Val == old(a.Val) - old(b.Val)
  ensures mul: op == Mult ==> is(r, *SexpInt) && as(r, *SexpInt).Val == old(a.Val) * old(b.Val)
  ensures exact: op == Div && old(b.Val) != 0 && old(a.Val) % old(b.Val) == 0 ==> is(r, *SexpInt) && as(r, *SexpInt).Val == old(a.Val) / old(b.Val)
  ensures inexact: op == Div && old(b.Val) != 0 && old(a.Val) % old(b.Val) != 0 ==> is(r, *SexpFloat) && fpsame(as(r, *SexpFloat).Val, conv(float64, old(a.Val)) / conv(float64, old(b.Val)))
  ensures nozero: !(op == Div && old(b.Val) == 0)

func NumericUint64Do(op, a, b) (r)
  mode bv
  requires a != nil && b != nil
  ensures add: op == Add ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == old(a.Val) + old(b.Val)
  ensures sub: op == Sub ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == old(a.Val) - old(b.Val)
  ensures mul: op == Mult ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == old(a.Val) * old(b.Val)
  ensures exact: op == Div && old(b.Val) != 0 && old(a.Val) % old(b.Val) == 0 ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == old(a.Val) / old(b.Val)
  ensures inexact: op == Div && old(b.Val) != 0 && old(a.Val) % old(b.Val) != 0 ==> is(r, *SexpFloat) && fpsame(as(r, *SexpFloat).Val, conv(float64, old(a.Val)) / conv(float64, old(b.Val)))
  ensures nozero: !(op == Div && old(b.Val) == 0)

// the result of an int64 operation, as a predicate on the answer
pred iop(op NumericOp, a int64, b int64, r Sexp) = (op == Add ==> is(r, *SexpInt) && as(r, *SexpInt).Val == a + b)
   && (op == Sub ==> is(r, *SexpInt) && as(r, *SexpInt).Val == a - b)
   && (op == Mult ==> is(r, *SexpInt) && as(r, *SexpInt).Val == a * b)
   && (op == Div && b != 0 && a % b == 0 ==> is(r, *SexpInt) && as(r, *SexpInt).Val == a / b)
   && (op == Div && b != 0 && a % b != 0 ==> is(r, *SexpFloat) && fpsame(as(r, *SexpFloat).Val, conv(float64, a) / conv(float64, b)))
   && !(op == Div && b == 0)
pred uop(op NumericOp, a uint64, b uint64, r Sexp) = (op == Add ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == a + b)
   && (op == Sub ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == a - b)
   && (op == Mult ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == a * b)
   && (op == Div && b != 0 && a % b == 0 ==> is(r, *SexpUint64) && as(r, *SexpUint64).Val == a / b)
   && (op == Div && b != 0 && a % b != 0 ==> is(r, *SexpFloat) && fpsame(as(r, *SexpFloat).Val, conv(float64, a) / conv(float64, b)))
   && !(op == Div && b == 0)
pred flop(op NumericOp, a float64, b float64, r Sexp) = is(r, *SexpFloat) && fpsame(as(r, *SexpFloat).Val, fop(op, a, b))

func NumericMatchFloat(op, a, b) (r, err)
  mode bv
  requires a != nil
  ensures ff: basic(op) && is(b, *SexpFloat) ==> err == nil && flop(op, old(a.Val), old(as(b, *SexpFloat).Val), r)
  ensures fi: basic(op) && is(b, *SexpInt) ==> err == nil && flop(op, old(a.Val), conv(float64, old(as(b, *SexpInt).Val)), r)
  ensures fu: basic(op) && is(b, *SexpUint64) ==> err == nil && flop(op, old(a.Val), conv(float64, old(as(b, *SexpUint64).Val)), r)
  ensures fc: basic(op) && is(b, *SexpChar) ==> err == nil && flop(op, old(a.Val), conv(float64, old(as(b, *SexpChar).Val)), r)

func NumericMatchInt(op, a, b) (r, err)
  mode bv
  requires a != nil
  ensures if: basic(op) && is(b, *SexpFloat) ==> err == nil && flop(op, conv(float64, old(a.Val)), old(as(b, *SexpFloat).Val), r)
  ensures ii: basic(op) && is(b, *SexpInt) ==> err == nil && iop(op, old(a.Val), old(as(b, *SexpInt).Val), r)
  ensures iu: basic(op) && is(b, *SexpUint64) ==> err == nil && uop(op, conv(uint64, old(a.Val)), old(as(b, *SexpUint64).Val), r)
  ensures ic: basic(op) && is(b, *SexpChar) ==> err == nil && iop(op, old(a.Val), conv(int64, old(as(b, *SexpChar).Val)), r)

func NumericMatchUint64(op, a, b) (r, err)
  mode bv
  requires a != nil
  ensures uf: basic(op) && is(b, *SexpFloat) ==> err == nil && flop(op, conv(float64, old(a.Val)), old(as(b, *SexpFloat).Val), r)
  ensures ui: basic(op) && is(b, *SexpInt) ==> err == nil && uop(op, old(a.Val), conv(uint64, old(as(b, *SexpInt).Val)), r)
  ensures uu: basic(op) && is(b, *SexpUint64) ==> err == nil && uop(op, old(a.Val), old(as(b, *SexpUint64).Val), r)

func NumericMatchChar(op, a, b) (r, err)
  mode bv
  requires a != nil
  ensures cf: basic(op) && is(b, *SexpFloat) ==> err == nil && flop(op, conv(float64, old(a.Val)), old(as(b, *SexpFloat).Val), r)

func NumericDo(op, a, b) (r, err)
  mode bv
  noinline NumericMatchTime
  ensures ff: basic(op) && is(a, *SexpFloat) && is(b, *SexpFloat) ==> err == nil && flop(op, old(as(a, *SexpFloat).Val), old(as(b, *SexpFloat).Val), r)
  ensures fi: basic(op) && is(a, *SexpFloat) && is(b, *SexpInt) ==> err == nil && flop(op, old(as(a, *SexpFloat).Val), conv(float64, old(as(b, *SexpInt).Val)), r)
  ensures if: basic(op) && is(a, *SexpInt) && is(b, *SexpFloat) ==> err == nil && flop(op, conv(float64, old(as(a, *SexpInt).Val)), old(as(b, *SexpFloat).Val), r)
  ensures ii: basic(op) && is(a, *SexpInt) && is(b, *SexpInt) ==> err == nil && iop(op, old(as(a, *SexpInt).Val), old(as(b, *SexpInt).Val), r)
  ensures uu: basic(op) && is(a, *SexpUint64) && is(b, *SexpUint64) ==> err == nil && uop(op, old(as(a, *SexpUint64).Val), old(as(b, *SexpUint64).Val), r)
  ensures uf: basic(op) && is(a, *SexpUint64) && is(b, *SexpFloat) ==> err == nil && flop(op, conv(float64, old(as(a, *SexpUint64).Val)), old(as(b, *SexpFloat).Val), r)
  ensures fu: basic(op) && is(a, *SexpFloat) && is(b, *SexpUint64) ==> err == nil && flop(op, old(as(a, *SexpFloat).Val), conv(float64, old(as(b, *SexpUint64).Val)), r)
  ensures cf: basic(op) && is(a, *SexpChar) && is(b, *SexpFloat) ==> err == nil && flop(op, conv(float64, old(as(a, *SexpChar).Val)), old(as(b, *SexpFloat).Val), r)
  ensures fc: basic(op) && is(a, *SexpFloat) && is(b, *SexpChar) ==> err == nil && flop(op, old(as(a, *SexpFloat).Val), conv(float64, old(as(b, *SexpChar).Val)), r)
  ensures ic: basic(op) && is(a, *SexpInt) && is(b, *SexpChar) ==> err == nil && iop(op, old(as(a, *SexpInt).Val), conv(int64, old(as(b, *SexpChar).Val)), r)

// the operator closure: one step of the fold for the binary case
func NumericFunction$1(env, nm, args) (r, err)
  mode bv
  requires name == "+" || name == "-" || name == "*" || name == "/"
  ensures none: len(args) < 1 ==> err != nil

func IntegerDo(op, a, b) (r, err)
  mode bv
  ensures mod: op == Modulo && is(a, *SexpInt) && is(b, *SexpInt) ==> err == nil && old(as(b, *SexpInt).Val) != 0 && is(r, *SexpInt) && as(r, *SexpInt).Val == old(as(a, *SexpInt).Val) % old(as(b, *SexpInt).Val)
  ensures and: op == BitAnd && is(a, *SexpInt) && is(b, *SexpInt) ==> err == nil && is(r, *SexpInt) && as(r, *SexpInt).Val == old(as(a, *SexpInt).Val) & old(as(b, *SexpInt).Val)
  ensures or: op == BitOr && is(a, *SexpInt) && is(b, *SexpInt) ==> err == nil && is(r, *SexpInt) && as(r, *SexpInt).Val == old(as(a, *SexpInt).Val) | old(as(b, *SexpInt).Val)
  ensures xor: op == BitXor && is(a, *SexpInt) && is(b, *SexpInt) ==> err == nil && is(r, *SexpInt) && as(r, *SexpInt).Val == old(as(a, *SexpInt).Val) ^ old(as(b, *SexpInt).Val)
  ensures type: !is(a, *SexpInt) && !is(a, *SexpUint64) && !is(a, *SexpChar) ==> err != nil

// ordering facts the property states, as lemmas over the contract of Compare
lemma bv trichotomyI: forall a int64, b int64 :: (a < b ==> !(a == b) && !(a > b)) && (a < b || a == b || a > b) && (sgnI(a, b) == 0 - sgnI(b, a))
lemma bv trichotomyU: forall a uint64, b uint64 :: (a < b || a == b || a > b) && (sgnU(a, b) == 0 - sgnU(b, a))
lemma bv trichotomyF: forall a float64, b float64 :: !isNaN(a) && !isNaN(b) ==> (a < b || a == b || a > b) && !(a < b && a == b) && !(a < b && a > b) && !(a == b && a > b) && ((a < b) <==> (b > a))
lemma bv nanUnordered: forall a float64, b float64 :: isNaN(a) || isNaN(b) ==> !(a < b) && !(a == b) && !(a > b)
