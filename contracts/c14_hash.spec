// C14: hashes behave as insertion-ordered maps.
// Key equality is Compare == 0 (its exactness for numbers is C07); hash codes are those of hashHelper.
props C14

ufun keyEq(Sexp, Sexp) bool
ufun hcode(Sexp) int

func (*Zlisp).Compare(env, a, b) (r, err)
  trusted "assumed: Compare decides key equality and writes nothing (numbers: proved in C07)"
  modifies nothing
  ensures eq: (err == nil && r == 0) <==> keyEq(a, b)

func hashHelper(expr) (h, isList, err)
  trusted "assumed: the hash code is a function of the key, computing it writes nothing, and only pairs are reported as lists"
  modifies nothing
  ensures code: err == nil && !isList ==> h == hcode(expr)
  ensures list: isList ==> is(expr, *SexpPair)

pred solo(key Sexp) = is(key, *SexpArray) && len(as(key, *SexpArray).Val) == 1
pred theKey(key Sexp) = ite(solo(key), as(key, *SexpArray).Val[0], key)
pred okKey(key Sexp) = is(key, *SexpArray) ==> as(key, *SexpArray) != nil
pred inBucket(hash *SexpHash, c int, k Sexp) = has(hash.Map, c) && (exists i int :: 0 <= i && i < len(hash.Map[c]) && keyEq(hash.Map[c][i].Head, k))
pred bucketsOk(hash *SexpHash) = hash.Map != nil && (forall c int, i int :: has(hash.Map, c) && 0 <= i && i < len(hash.Map[c]) ==> hash.Map[c][i] != nil)

func soleElementKey(key) (r)
  requires okKey(key)
  modifies nothing
  ensures one: solo(key) ==> r == as(key, *SexpArray).Val[0]
  ensures other: !solo(key) ==> r == key

func HashExpression(env, expr) (h, err)
  requires env == nil || !is(expr, *SexpPair)
  modifies nothing
  ensures code: err == nil ==> h == hcode(expr)
  ensures error: err != nil ==> h == 0

func Cons(a, b) (r)
  ensures pair: r != nil && r.Head == a && r.Tail == b && fresh(r)
  ensures frame: sameExcept(SexpPair.Head, r) && sameExcept(SexpPair.Tail, r)

func (*SexpHash).removeFromKeyOrder(hash, key)
  requires hash != nil
  loop 1 invariant same(SexpHash.KeyOrder) && same([]Sexp)
  loop 1 invariant forall j int :: 0 <= j && j < $i ==> hash.KeyOrder[j] != key
  ensures absent: (forall k int :: 0 <= k && k < old(len(hash.KeyOrder)) ==> old(hash.KeyOrder[k]) != key) ==> same(SexpHash.KeyOrder) && same([]Sexp)
  ensures len: forall k int :: 0 <= k && k < old(len(hash.KeyOrder)) && old(hash.KeyOrder[k]) == key ==> len(hash.KeyOrder) == old(len(hash.KeyOrder)) - 1
  ensures before: forall k int :: 0 <= k && k < old(len(hash.KeyOrder)) && old(hash.KeyOrder[k]) == key && (forall j int :: 0 <= j && j < k ==> old(hash.KeyOrder[j]) != key) ==> (forall i int :: 0 <= i && i < k ==> hash.KeyOrder[i] == old(hash.KeyOrder[i]))
  ensures after: forall k int :: 0 <= k && k < old(len(hash.KeyOrder)) && old(hash.KeyOrder[k]) == key && (forall j int :: 0 <= j && j < k ==> old(hash.KeyOrder[j]) != key) ==> (forall i int :: k <= i && i < len(hash.KeyOrder) ==> hash.KeyOrder[i] == old(hash.KeyOrder[i+1]))
  ensures frame: sameExcept(SexpHash.KeyOrder, hash)
  ensures elems: sameExcept([]Sexp, old(hash.KeyOrder))

func (*SexpHash).HashGetDefault(hash, env, key, defaultval) (r, err)
  requires hash != nil && bucketsOk(hash) && okKey(key)
  requires env == nil || !is(theKey(key), *SexpPair)
  modifies nothing
  loop 1 invariant forall j int :: 0 <= j && j < $i ==> !keyEq(hash.Map[hcode(theKey(key))][j].Head, theKey(key))
  ensures hit: err == nil ==> (forall i int :: has(hash.Map, hcode(theKey(key))) && 0 <= i && i < len(hash.Map[hcode(theKey(key))]) && keyEq(hash.Map[hcode(theKey(key))][i].Head, theKey(key)) && (forall j int :: 0 <= j && j < i ==> !keyEq(hash.Map[hcode(theKey(key))][j].Head, theKey(key))) ==> r == hash.Map[hcode(theKey(key))][i].Tail)
  ensures miss: err == nil && !inBucket(hash, hcode(theKey(key)), theKey(key)) ==> r == defaultval

func (*SexpHash).HashSet(hash, key, val) (err)
  requires hash != nil && bucketsOk(hash) && okKey(key)
  loop 1 invariant same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && same(SexpHash.Map) && sameExcept([]Sexp) && same([]*SexpPair) && same(map[int][]*SexpPair) && same(SexpPair.Head) && same(SexpPair.Tail)
  loop 1 invariant forall j int :: 0 <= j && j < $i ==> !keyEq(old(hash.Map[hcode(theKey(key))][j].Head), old(theKey(key)))
  ensures error: err != nil ==> same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && same(SexpHash.Map) && same([]Sexp) && same([]*SexpPair) && same(map[int][]*SexpPair) && same(SexpPair.Head) && same(SexpPair.Tail)
  ensures update.order: err == nil && old(inBucket(hash, hcode(theKey(key)), theKey(key))) ==> same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && sameExcept([]Sexp)
  ensures update.len: err == nil && old(inBucket(hash, hcode(theKey(key)), theKey(key))) ==> has(hash.Map, hcode(old(theKey(key)))) && len(hash.Map[hcode(old(theKey(key)))]) == old(len(hash.Map[hcode(theKey(key))]))
  ensures insert.count: err == nil && old(!inBucket(hash, hcode(theKey(key)), theKey(key))) ==> hash.NumKeys == old(hash.NumKeys) + 1 && len(hash.KeyOrder) == old(len(hash.KeyOrder)) + 1
  ensures insert.last: err == nil && old(!inBucket(hash, hcode(theKey(key)), theKey(key))) ==> hash.KeyOrder[len(hash.KeyOrder) - 1] == old(theKey(key))
  ensures insert.prefix: err == nil && old(!inBucket(hash, hcode(theKey(key)), theKey(key))) ==> (forall i int :: 0 <= i && i < old(len(hash.KeyOrder)) ==> hash.KeyOrder[i] == old(hash.KeyOrder[i]))
  ensures stored: err == nil ==> has(hash.Map, hcode(old(theKey(key)))) && (exists i int :: 0 <= i && i < len(hash.Map[hcode(old(theKey(key)))]) && hash.Map[hcode(old(theKey(key)))][i].Tail == val)
  ensures others.map: err == nil ==> hash.Map == old(hash.Map) && (forall c int :: c != hcode(old(theKey(key))) ==> (has(hash.Map, c) <==> old(has(hash.Map, c))) && hash.Map[c] == old(hash.Map[c]))
  ensures others.elems: sameExcept([]*SexpPair, old(hash.Map[hcode(theKey(key))]))
  ensures others.hashes: sameExcept(SexpHash.KeyOrder, hash) && sameExcept(SexpHash.NumKeys, hash)
  ensures pairs: forall p *SexpPair :: old(allocated(p)) ==> p.Head == old(p.Head) && p.Tail == old(p.Tail)

func (*SexpHash).HashDelete(hash, key) (err)
  requires hash != nil && bucketsOk(hash) && okKey(key)
  loop 1 invariant same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && same(SexpHash.Map) && same([]Sexp) && same([]*SexpPair) && same(map[int][]*SexpPair)
  loop 1 invariant forall j int :: 0 <= j && j < $i ==> !keyEq(old(hash.Map[hcode(theKey(key))][j].Head), old(theKey(key)))
  ensures error: err != nil ==> same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && same(SexpHash.Map) && same([]Sexp) && same([]*SexpPair) && same(map[int][]*SexpPair)
  ensures missing: old(!inBucket(hash, hcode(theKey(key)), theKey(key))) ==> same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && same(SexpHash.Map) && same([]Sexp) && same([]*SexpPair) && same(map[int][]*SexpPair)
  ensures count: err == nil && old(inBucket(hash, hcode(theKey(key)), theKey(key))) ==> hash.NumKeys == old(hash.NumKeys) - 1
  ensures bucket: err == nil && old(inBucket(hash, hcode(theKey(key)), theKey(key))) ==> (has(hash.Map, hcode(old(theKey(key)))) <==> old(len(hash.Map[hcode(theKey(key))])) != 1) && (old(len(hash.Map[hcode(theKey(key))])) > 1 ==> len(hash.Map[hcode(old(theKey(key)))]) == old(len(hash.Map[hcode(theKey(key))])) - 1)
  ensures others.map: hash.Map == old(hash.Map) && (forall c int :: c != hcode(old(theKey(key))) ==> (has(hash.Map, c) <==> old(has(hash.Map, c))) && hash.Map[c] == old(hash.Map[c]))
  ensures others.hashes: sameExcept(SexpHash.KeyOrder, hash) && sameExcept(SexpHash.NumKeys, hash)
  ensures others.elems: sameExcept([]*SexpPair, old(hash.Map[hcode(theKey(key))]))

func HashIsEmpty(hash) (r)
  requires hash != nil && hash.Map != nil
  modifies nothing
  loop 1 invariant forall c int :: visited(c) ==> len(hash.Map[c]) == 0
  ensures empty: r <==> (forall c int :: has(hash.Map, c) ==> len(hash.Map[c]) == 0)

func (*SexpHash).HashPairi(hash, pos) (p, err)
  requires hash != nil && bucketsOk(hash)
  requires forall i int :: 0 <= i && i < len(hash.KeyOrder) ==> okKey(hash.KeyOrder[i])
  ensures range: pos < 0 || pos >= len(hash.KeyOrder) ==> err != nil
  ensures key: err == nil ==> p != nil && p.Head == hash.KeyOrder[pos]
  ensures frame: same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && same(SexpHash.Map) && same([]Sexp) && same([]*SexpPair) && same(map[int][]*SexpPair)

func SetHashKeyOrder(hash, keyOrd) (err)
  requires hash != nil
  loop 1 invariant len(rest) + len(ordered) == old(len(hash.KeyOrder)) && same(SexpHash.KeyOrder)
  loop 2 invariant len(rest) + len(ordered) == old(len(hash.KeyOrder)) && same(SexpHash.KeyOrder)
  ensures error: err != nil ==> same(SexpHash.KeyOrder)
  ensures count: len(hash.KeyOrder) == old(len(hash.KeyOrder))
  ensures others: sameExcept(SexpHash.KeyOrder, hash) && same(SexpHash.NumKeys) && same(map[int][]*SexpPair)

func (*SexpHash).CopyMap(p) (cp)
  requires p != nil && p.Map != nil
  loop 1 invariant sameExcept([]*SexpPair) && sameExcept(map[int][]*SexpPair)
  ensures fresh: cp != nil && fresh(cp)
  ensures others: same(SexpHash.KeyOrder) && same(SexpHash.NumKeys) && same(SexpHash.Map)
  ensures elems: sameExcept([]*SexpPair) && sameExcept(map[int][]*SexpPair)

func (*SexpHash).CloneFrom(p, src)
  requires p != nil && src != nil && src.Map != nil && p != src
  loop 1 invariant p.KeyOrder == pre(p.KeyOrder)
  ensures count: p.NumKeys == old(src.NumKeys) && len(p.KeyOrder) == old(len(src.KeyOrder))
  ensures order: (forall i int :: 0 <= i && i < old(len(src.KeyOrder)) ==> p.KeyOrder[i] == old(src.KeyOrder[i]))
  ensures apart: len(p.KeyOrder) > 0 ==> fresh(p.KeyOrder)
  ensures source: src.KeyOrder == old(src.KeyOrder) && src.NumKeys == old(src.NumKeys) && src.Map == old(src.Map) && sameExcept([]Sexp) && sameExcept([]*SexpPair) && sameExcept(map[int][]*SexpPair)
  ensures type: p.TypeName == old(src.TypeName)
