// C17: a record's fields hold only what their declaration admits (see also c17_admits.spec).
props C17

func Blake2bUint64(raw) (h)
  trusted "hashes its argument with blake2b and writes nothing that was there before"
  modifies nothing

func hashHelper(expr) (h, isList, err)
  modifies nothing
  ensures list: isList ==> is(expr, *SexpPair)

func HashExpression(env, expr) (h, err)
  requires env == nil || !is(expr, *SexpPair)
  modifies nothing

func (*SexpHash).HashSet(hash, key, val) (err)
  requires hash != nil
  noinline HashExpression, (*Zlisp).Compare
  ensures declared: err == nil && old(hash.GoStructFactory != nil && hash.GoStructFactory.UserStructDefn != nil && !is(key, *SexpArray)) ==> is(key, *SexpSymbol)
  ensures unchanged: err != nil ==> same(SexpHash.Map) && same(map[int][]*SexpPair) && same([]*SexpPair) && same(SexpPair.Tail) && same(SexpHash.KeyOrder) && same(SexpArray.Typ)

// a declared slice takes only elements that its type admits
func (*SexpArray).setElem(arr, i, val) (err)
  requires arr != nil && 0 <= i && i < len(arr.Val)
  ensures admitted: err == nil && old(arr.Typ != nil && arr.Typ.elem != nil) ==> scalarFits(old(arr.Typ.elem), val)
  ensures stored: err == nil ==> arr.Val[i] == val
  ensures unchanged: err != nil ==> same([]Sexp) && same(SexpArray.Val) && same(SexpArray.Typ)

// the rest of the argument: what holds the fields, the declarations and the types of values is
// written nowhere else
writers SexpHash.Map: makeRecord, (*SexpHash).CloneFrom
writers map[int][]*SexpPair: (*SexpHash).HashSet, (*SexpHash).HashDelete, (*SexpHash).CopyMap
writers []*SexpPair: (*SexpHash).HashSet, (*SexpHash).HashDelete, (*SexpHash).CopyMap
writers SexpPair.Tail: Cons, (*Parser).ParseInfix, (*SexpHash).HashPairi
writers SexpHash.GoStructFactory: makeRecord, (*SexpHash).CloneFrom, (*SexpHash).SetGoStructFactory
callers .*SetGoStructFactory: makeRecord
callers .*CloneFrom: DerefFunction$1
writers RegisteredType.UserStructDefn: StructBuilder, (*GoStructRegistryType).RegisterUserdef
writers RegisteredType.elem: (*GoStructRegistryType).GetOrCreateSliceType, (*GoStructRegistryType).RegisterUserdef
writers RecordDefn.FieldType: NewRecordDefn
writers map[string]*RegisteredType: (*RecordDefn).SetFields, (*GoStructRegistryType).register, (*declaredTypes).set, (*declaredTypes).remove, init#2
writers SexpArray.Typ: (*RegisteredType).hold, (*SexpArraySelector).RHS, (*filtering).any, RestFunction, SliceFunction
writers SexpPointer.Target: NewSexpPointer, (*SexpPointer).SexpString
writers SexpPointer.MyType: NewSexpPointer
