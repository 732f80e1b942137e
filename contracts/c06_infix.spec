// C06: infix blocks mean what the precedence table says.
props C06

// ---- lists

pred isnull(x Sexp) = is(x, *SexpSentinel) && as(x, *SexpSentinel) == SexpNull
pred ispair(x Sexp) = is(x, *SexpPair) && as(x, *SexpPair) != nil
// the list (a b), (a b c), (a b c d)
pred list2(x Sexp, a Sexp, b Sexp) = ispair(x) && as(x, *SexpPair).Head == a && ispair(as(x, *SexpPair).Tail) && as(as(x, *SexpPair).Tail, *SexpPair).Head == b && isnull(as(as(x, *SexpPair).Tail, *SexpPair).Tail)
pred list1(x Sexp, a Sexp) = ispair(x) && as(x, *SexpPair).Head == a && isnull(as(x, *SexpPair).Tail)
pred list3(x Sexp, a Sexp, b Sexp, c Sexp) = ispair(x) && as(x, *SexpPair).Head == a && list2(as(x, *SexpPair).Tail, b, c)
pred list4(x Sexp, a Sexp, b Sexp, c Sexp, d Sexp) = ispair(x) && as(x, *SexpPair).Head == a && list3(as(x, *SexpPair).Tail, b, c, d)
pred symbolic(x Sexp, n string) = is(x, *SexpSymbol) && as(x, *SexpSymbol) != nil && as(x, *SexpSymbol).name == n

func Cons(a, b) (r)
  modifies SexpPair.Head, SexpPair.Tail
  ensures pair: r != nil && fresh(r) && r.Head == a && r.Tail == b
  ensures frame: sameExcept(SexpPair.Head) && sameExcept(SexpPair.Tail)

func MakeList(expressions) (r)
  modifies SexpPair.Head, SexpPair.Tail
  loop 1 invariant sameExcept(SexpPair.Head) && sameExcept(SexpPair.Tail) && 0 - 1 <= i && i < len(expressions)
  loop 1 invariant i == len(expressions) - 1 ==> isnull(list)
  loop 1 invariant i == len(expressions) - 2 ==> list1(list, expressions[i + 1])
  loop 1 invariant i == len(expressions) - 3 ==> list2(list, expressions[i + 1], expressions[i + 2])
  loop 1 invariant i == len(expressions) - 4 ==> list3(list, expressions[i + 1], expressions[i + 2], expressions[i + 3])
  loop 1 invariant i == len(expressions) - 5 ==> list4(list, expressions[i + 1], expressions[i + 2], expressions[i + 3], expressions[i + 4])
  loop 1 invariant i < len(expressions) - 1 ==> allocated(as(list, *SexpPair))
  loop 1 invariant i < len(expressions) - 2 ==> allocated(as(as(list, *SexpPair).Tail, *SexpPair))
  loop 1 invariant i < len(expressions) - 3 ==> allocated(as(as(as(list, *SexpPair).Tail, *SexpPair).Tail, *SexpPair))
  loop 1 invariant i < len(expressions) - 4 ==> allocated(as(as(as(as(list, *SexpPair).Tail, *SexpPair).Tail, *SexpPair).Tail, *SexpPair))
  loop 1 invariant i < len(expressions) - 1 ==> ispair(list) && as(list, *SexpPair).Head == expressions[i + 1]
  ensures frame: sameExcept(SexpPair.Head) && sameExcept(SexpPair.Tail)
  ensures none: len(expressions) == 0 ==> isnull(r)
  ensures one: len(expressions) == 1 ==> list1(r, expressions[0])
  ensures two: len(expressions) == 2 ==> list2(r, expressions[0], expressions[1])
  ensures three: len(expressions) == 3 ==> list3(r, expressions[0], expressions[1], expressions[2])
  ensures four: len(expressions) == 4 ==> list4(r, expressions[0], expressions[1], expressions[2], expressions[3])
  ensures pair: len(expressions) > 0 ==> ispair(r) && as(r, *SexpPair).Head == expressions[0]

func (*Zlisp).MakeSymbol(env, name) (r)
  requires env != nil
  modifies SexpSymbol.name, SexpSymbol.number, SexpSymbol.isDot, SexpSymbol.isSigil, SexpSymbol.sigil, map[string]int, map[int]string, Zlisp.nextsymbol
  ensures named: r != nil && fresh(r) && r.name == name
  ensures frame: sameExcept(SexpSymbol.name) && sameExcept(SexpSymbol.isDot)

// ---- the token stream

// the cursor is inside the stream and NextToken is the token under it; what
// has been pushed on the node stack is not kept in the stream's own array.
pred cursor(p *Pratt) = p != nil && 0 <= p.Pos && (p.Pos < len(p.Stream) ==> p.NextToken == p.Stream[p.Pos])

func NewPratt(stream) (p)
  modifies Pratt.NextToken, Pratt.CnodeStack, Pratt.AccumTree, Pratt.Pos, Pratt.Stream
  ensures start: cursor(p) && fresh(p) && p.Pos == 0 && p.Stream == stream
  ensures frame: sameExcept(Pratt.NextToken) && sameExcept(Pratt.Pos) && sameExcept(Pratt.Stream) && sameExcept(Pratt.CnodeStack) && sameExcept(Pratt.AccumTree)

func (*Pratt).Advance(p) (err)
  requires p != nil && 0 <= p.Pos
  modifies Pratt.NextToken, Pratt.Pos
  ensures next: cursor(p) && p.Pos == old(p.Pos) + 1
  ensures frame: sameExcept(Pratt.NextToken, p) && sameExcept(Pratt.Pos, p)

func (*Pratt).IsEOF(p) (r)
  requires p != nil
  modifies nothing
  ensures end: r <==> p.Pos >= len(p.Stream)

// ---- binding powers

// how tightly a token binds to what stands on its left
pred lbp(env *Zlisp, x Sexp) = ite(is(x, *SexpArray), 80, ite(is(x, *SexpComma), 15, ite(!is(x, *SexpSymbol), 0, ite(as(x, *SexpSymbol).name == "if", 0, ite(has(env.infixOps, as(x, *SexpSymbol).name), ite(env.infixOps[as(x, *SexpSymbol).name].MunchLeft == nil, 0, env.infixOps[as(x, *SexpSymbol).name].Bp), ite(as(x, *SexpSymbol).isDot && substr(as(x, *SexpSymbol).name, 0, 1) == ".", 80, 0))))))

func (*Zlisp).LeftBindingPower(env, sx) (r, err)
  requires env != nil
  modifies nothing
  ensures power: err == nil ==> r == lbp(env, sx)
  ensures literals: is(sx, *SexpInt) || is(sx, *SexpUint64) || is(sx, *SexpFloat) || is(sx, *SexpChar) || is(sx, *SexpBool) || is(sx, *SexpSentinel) || is(sx, *SexpStr) || is(sx, *SexpSymbol) || is(sx, *SexpArray) || is(sx, *SexpComma) || is(sx, *SexpSemicolon) || is(sx, *SexpComment) || is(sx, *SexpPair) || is(sx, *SexpHash) ==> err == nil

// ---- the precedence climbing loop

func (*Zlisp).enter(env) (err)
  requires env != nil
  modifies Zlisp.nesting

func (*Zlisp).leave(env)
  requires env != nil
  modifies Zlisp.nesting

// what every operator's handler does to the stream: it moves on, and leaves
// the stream and the bindings of the table as they were.
func func:LeftMuncher(env, pr, left) (r, err)
  dynamic
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  ensures cursor: err == nil ==> cursor(pr) && pr.Pos >= old(pr.Pos) && pr.Stream == old(pr.Stream) && len(pr.CnodeStack) == old(len(pr.CnodeStack))
  ensures frame: sameExcept(Pratt.Pos, pr) && sameExcept(Pratt.NextToken, pr) && sameExcept(Pratt.Stream, pr) && sameExcept(Pratt.CnodeStack, pr)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures stack: err == nil ==> arr(pr.CnodeStack) == old(arr(pr.CnodeStack)) || fresh(pr.CnodeStack)

func func:RightMuncher(env, pr) (r, err)
  dynamic
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  ensures cursor: err == nil ==> cursor(pr) && pr.Pos >= old(pr.Pos) && pr.Stream == old(pr.Stream) && len(pr.CnodeStack) == old(len(pr.CnodeStack))
  ensures frame: sameExcept(Pratt.Pos, pr) && sameExcept(Pratt.NextToken, pr) && sameExcept(Pratt.Stream, pr) && sameExcept(Pratt.CnodeStack, pr)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures stack: err == nil ==> arr(pr.CnodeStack) == old(arr(pr.CnodeStack)) || fresh(pr.CnodeStack)

func (*Pratt).Expression(p, env, rbp) (ret, err)
  requires env != nil && cursor(p)
  errprop except (*Pratt).Advance
  atcall func:LeftMuncher tighter: rbp < lbp(env, arg1.CnodeStack[0]) && arg1 == p && arg0 == env
  atcall func:LeftMuncher left: arg2 == p.AccumTree
  atcall func:RightMuncher here: arg1 == p && arg0 == env
  loop 1 invariant cursor(p) && p.Pos > old(p.Pos) && p.Stream == old(p.Stream) && len(p.CnodeStack) == old(len(p.CnodeStack)) + 1
  loop 1 invariant fresh(p.CnodeStack) && sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  loop 1 invariant sameExcept(Pratt.Pos, p) && sameExcept(Pratt.NextToken, p) && sameExcept(Pratt.Stream, p) && sameExcept(Pratt.CnodeStack, p)
  ensures cursor: err == nil ==> cursor(p) && p.Pos >= old(p.Pos) && p.Stream == old(p.Stream) && len(p.CnodeStack) == old(len(p.CnodeStack))
  ensures tree: err == nil ==> ret == ite(old(p.Pos) < len(old(p.Stream)), p.AccumTree, old(p.NextToken))
  ensures moves: err == nil && old(p.Pos) < len(old(p.Stream)) ==> p.Pos > old(p.Pos)
  ensures stops: err == nil && p.Pos < len(p.Stream) ==> lbp(env, p.NextToken) <= rbp
  ensures frame: sameExcept(Pratt.Pos, p) && sameExcept(Pratt.NextToken, p) && sameExcept(Pratt.Stream, p) && sameExcept(Pratt.CnodeStack, p)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures stack: err == nil ==> arr(p.CnodeStack) == old(arr(p.CnodeStack)) || fresh(p.CnodeStack)

// ---- the operators' handlers

pred head(x Sexp) = as(x, *SexpPair).Head
pred second(x Sexp) = as(as(x, *SexpPair).Tail, *SexpPair).Head
pred third(x Sexp) = as(as(as(x, *SexpPair).Tail, *SexpPair).Tail, *SexpPair).Head
pred fourth(x Sexp) = as(as(as(as(x, *SexpPair).Tail, *SexpPair).Tail, *SexpPair).Tail, *SexpPair).Head
// what Expression read last, from the position it was called at
pred read(pr *Pratt, at int, last Sexp) = ite(at < len(pr.Stream), pr.AccumTree, last)
pred headsym(x Sexp, s *SexpSymbol) = is(head(x), *SexpSymbol) && as(head(x), *SexpSymbol) == s

// left associative: the right operand holds only what binds tighter
func (*Zlisp).Infix$1(env, pr, left) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop
  atcall (*Pratt).Expression power: arg2 == bp && arg0 == pr
  ensures tree: err == nil ==> list3(r, head(r), left, read(pr, old(pr.Pos), old(pr.NextToken))) && headsym(r, oper)

// right associative: the right operand takes in the same level too
func (*Zlisp).Infixr$1(env, pr, left) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop
  atcall (*Pratt).Expression power: arg2 == bp - 1 && arg0 == pr
  ensures tree: err == nil ==> list3(r, head(r), left, read(pr, old(pr.Pos), old(pr.NextToken))) && headsym(r, oper)

func (*Zlisp).Prefix$1(env, pr) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop
  atcall (*Pratt).Expression power: arg2 == bp && arg0 == pr
  ensures tree: err == nil ==> list2(r, head(r), read(pr, old(pr.Pos), old(pr.NextToken))) && headsym(r, oper)

func (*Zlisp).Assignment$1(env, pr, left) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop
  atcall (*Pratt).Expression power: arg2 == bp - 1 && arg0 == pr
  ensures tree: err == nil ==> list3(r, head(r), left, read(pr, old(pr.Pos), old(pr.NextToken)))
  ensures set: err == nil && (op == "=" || op == ":=") ==> headsym(r, operSet)

func (*Zlisp).PostfixAssign$1(env, pr, left) (r, err)
  requires env != nil && cursor(pr)
  errprop
  ensures tree: err == nil && list2(r, head(r), left) && headsym(r, oper)
  ensures stays: pr.Pos == old(pr.Pos)

func starOpMunchRight(env, pr) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop
  atcall (*Pratt).Expression power: arg2 == 70 && arg0 == pr
  ensures tree: err == nil ==> list2(r, head(r), read(pr, old(pr.Pos), old(pr.NextToken))) && symbolic(head(r), "*")

func dotOpMunchLeft(env, pr, left) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop
  ensures tree: err == nil && list3(r, head(r), left, old(pr.CnodeStack[0])) && symbolic(head(r), "hashidx")
  ensures stays: pr.Pos == old(pr.Pos)

func arrayOpMunchLeft(env, pr, left) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop
  atcall normalizeArraySelector selector: arg1 == old(pr.CnodeStack[0])
  ensures tree: err == nil ==> list3(r, head(r), left, third(r)) && symbolic(head(r), "arrayidx")
  ensures other: err == nil && !old(is(pr.CnodeStack[0], *SexpArray)) ==> third(r) == old(pr.CnodeStack[0])
  ensures stays: pr.Pos == old(pr.Pos)

func (*Zlisp).InitInfixOps$1(env, pr) (r, err)
  requires env != nil && cursor(pr) && len(pr.CnodeStack) > 0
  errprop except (*Pratt).Advance
  atcall (*Pratt).Expression test: arg0 == pr && (pr.Pos == old(pr.Pos) && pr.Pos < len(pr.Stream) ==> arg2 == 5 || arg2 == 0)
  atcall (*Pratt).Expression branches: arg0 == pr && (pr.Pos > old(pr.Pos) ==> arg2 == 0)
  ensures tree: err == nil ==> list4(r, head(r), second(r), third(r), fourth(r)) && symbolic(head(r), "cond")

func loopControlOpMunchRight$1(env, pr) (r, err)
  requires env != nil && cursor(pr)
  ensures done: err == nil && ispair(r) && symbolic(head(r), name)

// ---- for, in its three forms: what it reads

func splitColonTailSelectorSymbols(env, tokens) (r)
  requires env != nil
  loop 1 invariant fresh(out) && sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures elems: fresh(r) && sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func splitOnSemicolons(tokens) (r)
  loop 1 invariant fresh(segments) && len(segments) > 0 && sameExcept([]Sexp) && sameExcept([][]Sexp)
  loop 1 invariant forall k int :: 0 <= k && k < len(segments) ==> fresh(segments[k])
  ensures elems: sameExcept([]Sexp)

func prattCall(env, name, args) (r)
  requires env != nil
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures call: ispair(r) && symbolic(head(r), name)

func prattForList(env, label, control, body) (r)
  requires env != nil
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures call: ispair(r) && symbolic(head(r), "for")

func lowerRangeBinding(env, targets, define, sourceSym, indexSym, body) (r)
  requires env != nil
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func parsePrattOne(env, tokens, context) (r, err)
  requires env != nil
  atcall (*Pratt).Expression whole: arg2 == 0 && arg0.Pos == 0 && arg0.Stream == tokens
  errprop
  ensures frame: sameExcept(Pratt.Pos) && sameExcept(Pratt.NextToken) && sameExcept(Pratt.Stream) && sameExcept(Pratt.CnodeStack)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func parseArraySelectorSegment(env, tokens, context) (r, err)
  requires env != nil
  errprop
  ensures frame: sameExcept(Pratt.Pos) && sameExcept(Pratt.NextToken) && sameExcept(Pratt.Stream) && sameExcept(Pratt.CnodeStack)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func parseArraySelectorIndex(env, tokens) (r, ok, err)
  requires env != nil
  errprop
  ensures frame: sameExcept(Pratt.Pos) && sameExcept(Pratt.NextToken) && sameExcept(Pratt.Stream) && sameExcept(Pratt.CnodeStack)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func normalizeArraySelector(env, selector) (r, err)
  requires env != nil
  errprop
  loop 1 invariant sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures other: !is(selector, *SexpArray) ==> err == nil && r == selector
  ensures frame: sameExcept(Pratt.Pos) && sameExcept(Pratt.NextToken) && sameExcept(Pratt.Stream) && sameExcept(Pratt.CnodeStack)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func lowerRangeFor(env, label, header, body) (r, ok, err)
  requires env != nil
  errprop
  ensures frame: sameExcept(Pratt.Pos) && sameExcept(Pratt.NextToken) && sameExcept(Pratt.Stream) && sameExcept(Pratt.CnodeStack)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func lowerGoFor(env, label, header, bodyBlock) (r, err)
  requires env != nil
  errprop
  ensures frame: sameExcept(Pratt.Pos) && sameExcept(Pratt.NextToken) && sameExcept(Pratt.Stream) && sameExcept(Pratt.CnodeStack)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)

func forOpMunchRightWithLabel(env, pr, label) (r, err)
  requires env != nil && cursor(pr)
  errprop except (*Pratt).Advance
  loop 1 invariant i >= pr.Pos && pr.Pos == old(pr.Pos) && bodyPos == 0 - 1
  atcall lowerGoFor header: arg1 == label && len(arg2) == pr.Pos - 1 - old(pr.Pos) && arg3 == old(pr.Stream)[pr.Pos - 1]
  ensures cursor: err == nil ==> cursor(pr) && pr.Pos >= old(pr.Pos) && pr.Stream == old(pr.Stream) && len(pr.CnodeStack) == old(len(pr.CnodeStack))
  ensures moves: err == nil ==> pr.Pos > old(pr.Pos)
  ensures frame: sameExcept(Pratt.Pos, pr) && sameExcept(Pratt.NextToken, pr) && sameExcept(Pratt.Stream, pr) && sameExcept(Pratt.CnodeStack, pr)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures stack: err == nil ==> arr(pr.CnodeStack) == old(arr(pr.CnodeStack)) || fresh(pr.CnodeStack)

func forOpMunchRight(env, pr) (r, err)
  requires env != nil && cursor(pr)
  errprop
  atcall forOpMunchRightWithLabel nolabel: arg1 == pr && arg2 == nil
  ensures cursor: err == nil ==> cursor(pr) && pr.Pos >= old(pr.Pos) && pr.Stream == old(pr.Stream) && len(pr.CnodeStack) == old(len(pr.CnodeStack))
  ensures frame: sameExcept(Pratt.Pos, pr) && sameExcept(Pratt.NextToken, pr) && sameExcept(Pratt.Stream, pr) && sameExcept(Pratt.CnodeStack, pr)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures stack: err == nil ==> arr(pr.CnodeStack) == old(arr(pr.CnodeStack)) || fresh(pr.CnodeStack)

func (*Pratt).LabeledFor(p, env) (r, ok, err)
  requires env != nil && cursor(p)
  errprop except (*Pratt).Advance
  ensures valid: err == nil ==> cursor(p)
  ensures cursor: err == nil && ok ==> cursor(p) && p.Pos > old(p.Pos) && p.Stream == old(p.Stream)
  ensures none: err == nil && !ok ==> p.Pos == old(p.Pos) && p.NextToken == old(p.NextToken) && p.Stream == old(p.Stream) && p.CnodeStack == old(p.CnodeStack)
  ensures label: ok ==> old(is(p.NextToken, *SexpSymbol) && as(p.NextToken, *SexpSymbol).colonTail)
  ensures elems: sameExcept([]Sexp) && sameExcept(SexpSymbol.name)
  ensures stack: err == nil ==> arr(p.CnodeStack) == old(arr(p.CnodeStack)) || fresh(p.CnodeStack)

// ---- statements: every statement of the block, in order

func InfixExpandArray(env, arr) (xs, err)
  requires env != nil && arr != nil
  errprop except (*Pratt).Advance
  atcall (*Pratt).Expression statement: arg2 == 0
  loop 1 invariant cursor(pr) && fresh(pr) && fresh(xs) && pr.Stream == old(arr.Val) && sameExcept([]Sexp)

// ---- the table

pred others(env *Zlisp, op string) = forall s string :: s != op ==> (has(env.infixOps, s) <==> old(has(env.infixOps, s))) && env.infixOps[s] == old(env.infixOps[s])
pred made(env *Zlisp, op string, r *InfixOp, bp int) = r != nil && fresh(r) && r.Bp == bp && has(env.infixOps, op) && env.infixOps[op] == r

func (*Zlisp).Infix(env, op, bp) (r)
  requires env != nil
  ensures made: made(env, op, r, bp) && r.MunchRight == nil && others(env, op)
  ensures handler: runsfn(r.MunchLeft, (*Zlisp).Infix$1) && capturedvar(r.MunchLeft, (*Zlisp).Infix$1, bp) == bp && capturedvar(r.MunchLeft, (*Zlisp).Infix$1, oper).name == op
  ensures frame: sameExcept(InfixOp.Bp) && sameExcept(InfixOp.MunchLeft) && sameExcept(InfixOp.MunchRight)

func (*Zlisp).Infixr(env, op, bp) (r)
  requires env != nil
  ensures made: made(env, op, r, bp) && r.MunchRight == nil && others(env, op)
  ensures handler: runsfn(r.MunchLeft, (*Zlisp).Infixr$1) && capturedvar(r.MunchLeft, (*Zlisp).Infixr$1, bp) == bp && capturedvar(r.MunchLeft, (*Zlisp).Infixr$1, oper).name == op
  ensures frame: sameExcept(InfixOp.Bp) && sameExcept(InfixOp.MunchLeft) && sameExcept(InfixOp.MunchRight)

func (*Zlisp).Prefix(env, op, bp) (r)
  requires env != nil
  ensures made: made(env, op, r, bp) && r.MunchLeft == nil && others(env, op)
  ensures handler: runsfn(r.MunchRight, (*Zlisp).Prefix$1) && capturedvar(r.MunchRight, (*Zlisp).Prefix$1, bp) == bp && capturedvar(r.MunchRight, (*Zlisp).Prefix$1, oper).name == op
  ensures frame: sameExcept(InfixOp.Bp) && sameExcept(InfixOp.MunchLeft) && sameExcept(InfixOp.MunchRight)

func (*Zlisp).Assignment(env, op, bp) (r)
  requires env != nil
  ensures made: made(env, op, r, bp) && r.MunchRight == nil && others(env, op)
  ensures handler: runsfn(r.MunchLeft, (*Zlisp).Assignment$1) && capturedvar(r.MunchLeft, (*Zlisp).Assignment$1, bp) == bp && capturedvar(r.MunchLeft, (*Zlisp).Assignment$1, oper).name == op && capturedvar(r.MunchLeft, (*Zlisp).Assignment$1, op) == op && capturedvar(r.MunchLeft, (*Zlisp).Assignment$1, operSet).name == "set"
  ensures frame: sameExcept(InfixOp.Bp) && sameExcept(InfixOp.MunchLeft) && sameExcept(InfixOp.MunchRight)

func (*Zlisp).PostfixAssign(env, op, bp) (r)
  requires env != nil
  ensures made: made(env, op, r, bp) && r.MunchRight == nil && others(env, op)
  ensures handler: runsfn(r.MunchLeft, (*Zlisp).PostfixAssign$1) && capturedvar(r.MunchLeft, (*Zlisp).PostfixAssign$1, oper).name == op
  ensures frame: sameExcept(InfixOp.Bp) && sameExcept(InfixOp.MunchLeft) && sameExcept(InfixOp.MunchRight)

// the operator is left (right) associative at the given level
pred leftop(env *Zlisp, op string, bp int) = has(env.infixOps, op) && env.infixOps[op].Bp == bp && runsfn(env.infixOps[op].MunchLeft, (*Zlisp).Infix$1)
pred rightop(env *Zlisp, op string, bp int) = has(env.infixOps, op) && env.infixOps[op].Bp == bp && runsfn(env.infixOps[op].MunchLeft, (*Zlisp).Infixr$1)
pred assignop(env *Zlisp, op string) = has(env.infixOps, op) && env.infixOps[op].Bp == 10 && runsfn(env.infixOps[op].MunchLeft, (*Zlisp).Assignment$1)
pred postop(env *Zlisp, op string) = has(env.infixOps, op) && env.infixOps[op].Bp == 10 && runsfn(env.infixOps[op].MunchLeft, (*Zlisp).PostfixAssign$1)

func (*Zlisp).InitInfixOps(env)
  requires env != nil
  ensures opplus: leftop(env, "+", 50)
  ensures opminus: leftop(env, "-", 50)
  ensures opdiv: leftop(env, "/", 60)
  ensures opmod: leftop(env, "mod", 60)
  ensures optimes: leftop(env, "*", 60)
  ensures opeq: leftop(env, "==", 40)
  ensures opne: leftop(env, "!=", 40)
  ensures opgt: leftop(env, ">", 40)
  ensures opge: leftop(env, ">=", 40)
  ensures oplt: leftop(env, "<", 40)
  ensures ople: leftop(env, "<=", 40)
  ensures opcomma: leftop(env, "comma", 15)
  ensures oppow: rightop(env, "**", 65)
  ensures opand: rightop(env, "and", 30)
  ensures opor: rightop(env, "or", 30)
  ensures opset: assignop(env, "=")
  ensures opdefine: assignop(env, ":=")
  ensures opadd: assignop(env, "+=")
  ensures opsub: assignop(env, "-=")
  ensures opinc: postop(env, "++")
  ensures opdec: postop(env, "--")
  ensures opnot: has(env.infixOps, "not") && env.infixOps["not"].Bp == 70 && env.infixOps["not"].MunchLeft == nil && runsfn(env.infixOps["not"].MunchRight, (*Zlisp).Prefix$1)
  ensures opderef: runsfn(env.infixOps["*"].MunchRight, starOpMunchRight)
  ensures opdot: has(env.infixOps, ".") && env.infixOps["."].Bp == 80 && runsfn(env.infixOps["."].MunchLeft, dotOpMunchLeft)
  ensures opindex: arrayOp != nil && arrayOp.Bp == 80 && runsfn(arrayOp.MunchLeft, arrayOpMunchLeft)
  ensures opif: has(env.infixOps, "if") && env.infixOps["if"].MunchLeft == nil && runsfn(env.infixOps["if"].MunchRight, (*Zlisp).InitInfixOps$1)
  ensures opfor: has(env.infixOps, "for") && env.infixOps["for"].MunchLeft == nil && runsfn(env.infixOps["for"].MunchRight, forOpMunchRight)

// nobody else changes the table
writers InfixOp.Bp: (*Zlisp).Infix, (*Zlisp).Infixr, (*Zlisp).Prefix, (*Zlisp).Assignment, (*Zlisp).PostfixAssign, (*Zlisp).InitInfixOps
writers InfixOp.MunchLeft: (*Zlisp).Infix, (*Zlisp).Infixr, (*Zlisp).Prefix, (*Zlisp).Assignment, (*Zlisp).PostfixAssign, (*Zlisp).InitInfixOps
writers InfixOp.MunchRight: (*Zlisp).Infix, (*Zlisp).Infixr, (*Zlisp).Prefix, (*Zlisp).Assignment, (*Zlisp).PostfixAssign, (*Zlisp).InitInfixOps
writers map[string]*InfixOp: (*Zlisp).Infix, (*Zlisp).Infixr, (*Zlisp).Prefix, (*Zlisp).Assignment, (*Zlisp).PostfixAssign
