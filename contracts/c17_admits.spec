// C17: a record's fields hold only what their declaration admits.
props C14, C17

pred reg(n string) = ite(has(GoStructRegistry.Registry, n), GoStructRegistry.Registry[n], nil)

// what every value held under a declared type t is, one level deep
pred isTypeThing(x Sexp) = is(x, *RegisteredType) || is(x, *RecordDefn) || is(x, *SexpInterfaceDecl) || is(x, *SexpField)
pred scalarFits(t *RegisteredType, x Sexp) = (is(x, *SexpInt) ==> t == reg("int64")) && (is(x, *SexpFloat) ==> t == reg("float64")) && (is(x, *SexpStr) ==> t == reg("string")) && (is(x, *SexpBool) ==> t == reg("bool")) && (is(x, *SexpChar) ==> t == reg("int32")) && (is(x, *SexpUint64) ==> t == reg("uint64")) && (is(x, *SexpSymbol) ==> t == reg("symbol")) && (is(x, *SexpRaw) ==> t == as(x, *SexpRaw).Typ) && (is(x, *SexpPointer) ==> t == as(x, *SexpPointer).MyType && !isTypeThing(as(x, *SexpPointer).Target)) && (is(x, *SexpHash) && as(x, *SexpHash).GoStructFactory != nil ==> t == as(x, *SexpHash).GoStructFactory) && !isTypeThing(x) && !is(x, *SexpFunction) && !is(x, *SexpPair) && !is(x, *SexpTime)

// what a value says its type is
func (Sexp).Type(x) (t)
  dynamic
  modifies RegisteredType.sliceType
  ensures int: is(x, *SexpInt) ==> t == reg("int64")
  ensures float: is(x, *SexpFloat) ==> t == reg("float64")
  ensures str: is(x, *SexpStr) ==> t == reg("string")
  ensures bool: is(x, *SexpBool) ==> t == reg("bool")
  ensures char: is(x, *SexpChar) ==> t == reg("int32")
  ensures uint: is(x, *SexpUint64) ==> t == reg("uint64")
  ensures symbol: is(x, *SexpSymbol) ==> t == reg("symbol")
  ensures raw: is(x, *SexpRaw) ==> t == as(x, *SexpRaw).Typ
  ensures pointer: is(x, *SexpPointer) ==> t == as(x, *SexpPointer).MyType
  ensures record: is(x, *SexpHash) && as(x, *SexpHash).GoStructFactory != nil ==> t == as(x, *SexpHash).GoStructFactory
  ensures untyped: is(x, *SexpFunction) || is(x, *SexpPair) || is(x, *SexpTime) ==> t == nil
  ensures slice: is(x, *SexpArray) && as(x, *SexpArray).Typ != nil ==> t == as(x, *SexpArray).Typ

func (*SexpArray).Type(x) (t)
  inline
  loop 1 invariant nest >= 0 && (as(x, *SexpArray).Typ != nil ==> r == as(x, *SexpArray) && nest == 0)

func sliceType(ty, nest) (r)
  trusted "makes and memoises Go slice types: the Factory of a registered type builds a Go value and touches no zygo value"
  modifies RegisteredType.sliceType
  ensures none: nest <= 0 ==> r == ty

func (*RegisteredType).admits(p, val) (ok)
  modifies RegisteredType.sliceType
  ensures fits: ok && p != nil ==> scalarFits(p, val)
  ensures elems: ok && p != nil && is(val, *SexpArray) && p.elem != nil && (as(val, *SexpArray).Typ == nil || as(val, *SexpArray).Typ == p) ==> (forall i int :: 0 <= i && i < len(as(val, *SexpArray).Val) ==> scalarFits(p.elem, as(val, *SexpArray).Val[i]))
  ensures slice: ok && is(val, *SexpArray) && as(val, *SexpArray).Typ != nil && len(as(val, *SexpArray).Val) > 0 ==> as(val, *SexpArray).Typ == p
  loop 1 invariant forall j int :: 0 <= j && j < $i && p.elem != nil ==> scalarFits(p.elem, as(val, *SexpArray).Val[j])

func (*SexpHash).declaration(h) (d)
  requires h != nil
  ensures made: h.GoStructFactory != nil ==> d == h.GoStructFactory.UserStructDefn
  ensures none: h.GoStructFactory == nil ==> d == nil

func (*SexpHash).TypeCheckField(h, key, val) (err)
  requires h != nil
  modifies RegisteredType.sliceType
  ensures declared: err == nil && h.GoStructFactory != nil && h.GoStructFactory.UserStructDefn != nil ==> is(key, *SexpSymbol) && has(h.GoStructFactory.UserStructDefn.FieldType, as(key, *SexpSymbol).name)
  ensures sentinel: err != nil && err == KeyNotSymbol ==> h.GoStructFactory == nil || h.GoStructFactory.UserStructDefn == nil
  ensures admitted: err == nil && h.GoStructFactory != nil && h.GoStructFactory.UserStructDefn != nil && h.GoStructFactory.UserStructDefn.FieldType[as(key, *SexpSymbol).name] != nil ==> scalarFits(h.GoStructFactory.UserStructDefn.FieldType[as(key, *SexpSymbol).name], val)


// holding a value to its type touches nothing but the arrays in it
func (*RegisteredType).hold(p, val)
  modifies SexpArray.Typ, SexpArray.Val, []Sexp
  ensures elems: sameExcept([]Sexp)
  loop 1 invariant sameExcept([]Sexp)
