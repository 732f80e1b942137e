// C11: JSON and msgpack encodings.
props C11

// the name a key is encoded under, for the keys that occur in data
pred named(key Sexp, name string) = (is(key, *SexpStr) ==> name == as(key, *SexpStr).S) && (is(key, *SexpSymbol) ==> name == as(key, *SexpSymbol).name)

// v, if it is a scalar, is the go value g
pred plainScalar(v Sexp, g any) = (is(v, *SexpStr) ==> is(g, string) && as(g, string) == as(v, *SexpStr).S) && (is(v, *SexpSymbol) ==> is(g, string) && as(g, string) == as(v, *SexpSymbol).name) && (is(v, *SexpInt) ==> is(g, int64) && as(g, int64) == as(v, *SexpInt).Val) && (is(v, *SexpUint64) ==> is(g, uint64) && as(g, uint64) == as(v, *SexpUint64).Val) && (is(v, *SexpFloat) ==> is(g, float64) && (as(g, float64) == as(v, *SexpFloat).Val || as(v, *SexpFloat).Val != as(v, *SexpFloat).Val)) && (is(v, *SexpBool) ==> is(g, bool) && as(g, bool) == as(v, *SexpBool).Val) && (is(v, *SexpSentinel) && as(v, *SexpSentinel) == SexpNull ==> g == nil) && (is(v, *SexpHash) ==> is(g, map[string]interface{})) && (is(v, *SexpArray) ==> is(g, []interface{}))

func (*Zlisp).Compare(env, a, b) (r, err)
  trusted "assumed: comparing writes nothing"
  modifies nothing

func Blake2bUint64(raw) (h)
  trusted "hashes its argument with blake2b and writes nothing that was there before"
  modifies nothing

func hashHelper(expr) (h, isList, err)
  modifies nothing
  ensures list: isList ==> is(expr, *SexpPair)

func HashExpression(env, expr) (h, err)
  requires env == nil || !is(expr, *SexpPair)
  modifies nothing

func (*SexpHash).HashGetDefault(hash, env, key, defaultval) (r, err)
  requires hash != nil
  requires env == nil
  modifies nothing

func ListToArray(list0) (r, err)
  modifies nothing
  loop 1 invariant len(arr) >= 0 && fresh(arr) && sameExcept([]Sexp, arr)

func jsonEscape(c) (r)
  modifies nothing
  ensures quote: c == 34 ==> r == "\\\""
  ensures backslash: c == 92 ==> r == "\\\\"
  ensures newline: c == 10 ==> r == "\\n"
  ensures return: c == 13 ==> r == "\\r"
  ensures tab: c == 9 ==> r == "\\t"
  ensures plain: c >= 32 && c != 34 && c != 92 && c != 127 ==> r == conv(string, c)

// every key's own name, in order, none reserved, none twice
func (*SexpHash).fieldNames(hash) (names, err)
  requires hash != nil
  errprop
  modifies nothing
  loop 1 invariant sameExcept([]string) && sameExcept(map[string]bool)
  loop 1 invariant len(names) == $i && fresh(names) && fresh(seen)
  loop 1 invariant forall j int :: 0 <= j && j < $i ==> named(hash.KeyOrder[j], names[j]) && names[j] != "Atype" && names[j] != "zKeyOrder" && has(seen, names[j]) && seen[names[j]]
  loop 1 invariant forall j int, k int :: 0 <= j && j < k && k < $i ==> names[j] != names[k]
  ensures all: err == nil ==> len(names) == len(hash.KeyOrder) && (forall j int :: 0 <= j && j < len(names) ==> named(hash.KeyOrder[j], names[j]))
  ensures free: err == nil ==> (forall j int :: 0 <= j && j < len(names) ==> names[j] != "Atype" && names[j] != "zKeyOrder")
  ensures distinct: err == nil ==> (forall j int, k int :: 0 <= j && j < k && k < len(names) ==> names[j] != names[k])

func sexpToPlainGo(exp) (r, err)
  errprop
  modifies nothing
  loop 1 invariant fresh(m) && len(order) == $i && fresh(order) && sameExcept([]interface{}) && sameExcept(map[string]interface{})
  loop 1 invariant forall j int :: 0 <= j && j < $i ==> is(order[j], string) && as(order[j], string) == names[j] && has(m, names[j])
  loop 1 invariant has(m, "Atype") && is(m["Atype"], string) && as(m["Atype"], string) == as(exp, *SexpHash).TypeName && !has(m, "zKeyOrder")
  ensures typename: err == nil && is(exp, *SexpHash) ==> has(as(r, map[string]interface{}), "Atype") && is(as(r, map[string]interface{})["Atype"], string) && as(as(r, map[string]interface{})["Atype"], string) == as(exp, *SexpHash).TypeName
  ensures keyorder: err == nil && is(exp, *SexpHash) && len(as(exp, *SexpHash).KeyOrder) > 0 ==> is(as(r, map[string]interface{})["zKeyOrder"], []interface{}) && len(as(as(r, map[string]interface{})["zKeyOrder"], []interface{})) == len(as(exp, *SexpHash).KeyOrder)
  ensures fields: err == nil && is(exp, *SexpHash) ==> (forall i int :: 0 <= i && i < len(as(exp, *SexpHash).KeyOrder) && is(as(exp, *SexpHash).KeyOrder[i], *SexpSymbol) ==> has(as(r, map[string]interface{}), as(as(exp, *SexpHash).KeyOrder[i], *SexpSymbol).name) && is(as(as(r, map[string]interface{})["zKeyOrder"], []interface{})[i], string) && as(as(as(r, map[string]interface{})["zKeyOrder"], []interface{})[i], string) == as(as(exp, *SexpHash).KeyOrder[i], *SexpSymbol).name)
  ensures scalar: err == nil ==> plainScalar(exp, r)
  ensures array: err == nil && is(exp, *SexpArray) ==> len(as(r, []interface{})) == len(as(exp, *SexpArray).Val) && (forall i int :: 0 <= i && i < len(as(exp, *SexpArray).Val) ==> plainScalar(as(exp, *SexpArray).Val[i], as(r, []interface{})[i]))

func arrayToPlainGo(items) (r, err)
  errprop
  modifies nothing
  loop 1 invariant fresh(arr) && len(arr) == len(items) && sameExcept([]Sexp) && sameExcept([]interface{})
  loop 1 invariant forall j int :: 0 <= j && j < $i ==> plainScalar(items[j], arr[j])
  ensures array: err == nil ==> is(r, []interface{}) && len(as(r, []interface{})) == len(items)
  ensures elements: err == nil ==> (forall i int :: 0 <= i && i < len(items) ==> plainScalar(items[i], as(r, []interface{})[i]))

func writeJson(out, exp, meta) (err)
  errprop except (*strings.Builder).WriteString, (*strings.Builder).WriteByte, (*strings.Builder).Write

func writeJsonString(out, s) (err)
  errprop except (*strings.Builder).WriteString, (*strings.Builder).WriteByte, (*strings.Builder).Write

func writeJsonArray(out, items, meta) (err)
  errprop except (*strings.Builder).WriteString, (*strings.Builder).WriteByte, (*strings.Builder).Write

func (*SexpHash).writeJson(hash, out, meta) (err)
  requires hash != nil
  errprop except (*strings.Builder).WriteString, (*strings.Builder).WriteByte, (*strings.Builder).Write

// decoding

func makeSortedSlicesFromMap(m) (keys, vals)
  trusted "sort.Sort permutes; the slices list the map's entries"
  modifies nothing
  ensures length: len(keys) == len(m) && len(vals) == len(m)
  ensures entry: forall i int :: 0 <= i && i < len(keys) ==> has(m, keys[i]) && vals[i] == m[keys[i]]
  ensures distinct: forall i int, j int :: 0 <= i && i < j && j < len(keys) ==> keys[i] != keys[j]
  ensures every: forall k string :: has(m, k) ==> (exists i int :: 0 <= i && i < len(keys) && keys[i] == k)

func numbersToGo(iface) (r, err)
  errprop except strconv.ParseInt, strconv.ParseUint
  modifies []interface{}, map[string]interface{}
  ensures number: err == nil && is(iface, uint64) && as(iface, uint64) <= 9223372036854775807 ==> is(r, int64) && as(r, int64) == as(iface, uint64)
  ensures larger: err == nil && is(iface, uint64) && as(iface, uint64) > 9223372036854775807 ==> r == iface
  ensures other: err == nil && (is(iface, string) || is(iface, bool) || is(iface, int64) || is(iface, float64) || iface == nil || is(iface, []interface{}) || is(iface, map[string]interface{})) ==> r == iface

func JsonToGo(text) (r, err)
  errprop

func JsonToSexp(text, env) (r, err)
  errprop

func MsgpackToSexp(text, env) (r, err)
  errprop

func sexpToMsgpack(exp) (by, r, err)
  errprop

func sexpToJson(exp, meta) (r, err)
  errprop

// the value that a decoded scalar stands for
pred decodedScalar(g any, v Sexp) = (is(g, int64) ==> is(v, *SexpInt) && as(v, *SexpInt).Val == as(g, int64)) && (is(g, uint64) && as(g, uint64) <= 9223372036854775807 ==> is(v, *SexpInt) && as(v, *SexpInt).Val == as(g, uint64)) && (is(g, uint64) && as(g, uint64) > 9223372036854775807 ==> is(v, *SexpUint64) && as(v, *SexpUint64).Val == as(g, uint64)) && (is(g, float64) ==> is(v, *SexpFloat) && (as(v, *SexpFloat).Val == as(g, float64) || as(g, float64) != as(g, float64))) && (is(g, bool) ==> is(v, *SexpBool) && as(v, *SexpBool).Val == as(g, bool)) && (g == nil ==> is(v, *SexpSentinel) && as(v, *SexpSentinel) == SexpNull) && (is(g, []interface{}) ==> is(v, *SexpArray)) && (is(g, map[string]interface{}) ==> is(v, *SexpHash))

func decodeGoToSexpHelper(g, depth, env, preferSym) (v, err)
  requires env != nil
  errprop except fmt.Printf
  ensures scalar: err == nil ==> decodedScalar(g, v)
  ensures string: err == nil && is(g, string) && !preferSym ==> is(v, *SexpStr) && as(v, *SexpStr).S == as(g, string)
  ensures symbol: err == nil && is(g, string) && preferSym ==> is(v, *SexpSymbol)
  ensures array: err == nil && is(g, []interface{}) ==> len(as(v, *SexpArray).Val) == len(as(g, []interface{}))
  loop 1 invariant len(slice) == $i

func makeRecord(args, typename, factory, env) (hash, err)
  ensures typename: err == nil ==> hash != nil && hash.TypeName == typename && hash.Env == env && fresh(hash)

func MakeHash(args, typename, env) (hash, err)
  ensures typename: err == nil ==> hash != nil && hash.TypeName == typename && hash.Env == env && fresh(hash)

// the order only permutes: no key is lost or added
func SetHashKeyOrder(hash, keyOrd) (err)
  requires hash != nil && hash.Env != nil
  ensures length: err == nil ==> len(hash.KeyOrder) == old(len(hash.KeyOrder))
  ensures unchanged: err != nil ==> same(SexpHash.KeyOrder)
  loop 1 invariant len(ordered) + len(rest) == len(hash.KeyOrder)

// what decides the type name and the order of the fields is written nowhere else
writers SexpHash.TypeName: makeRecord, (*SexpHash).CloneFrom
writers SexpHash.KeyOrder: makeRecord, (*SexpHash).HashSet, (*SexpHash).removeFromKeyOrder, (*SexpHash).CloneFrom, SetHashKeyOrder
