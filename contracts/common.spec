// Contracts shared by several properties.
printers SexpString, ShowClosing, ShowClosures, Show, String, Dump, ShowStack, ShowGlobalScope, Error, DumpEnvironment, DumpFunctionByName, showStackHelper, ClosedOverString

func (*Zlisp).NewStack(env, size) (r)
  modifies nothing
  ensures empty: r != nil && fresh(r) && r.tos == 0 - 1 && len(r.elements) == 0 && r.env == env
  ensures apart: fresh(r.elements)

func (*Stack).TruncateToSize(stack, newsize)
  requires stack != nil
  modifies Stack.tos, Stack.elements, []StackElem
  loop 1 invariant i >= ite(newsize < 0, 0, newsize) && same(Stack.tos) && same(Stack.elements) && sameExcept([]StackElem, stack.elements)
  loop 1 invariant forall j int :: 0 <= j && j < newsize ==> stack.elements[j] == old(stack.elements[j])
  ensures size: stack.tos == ite(newsize < 0, 0, newsize) - 1 && len(stack.elements) == ite(newsize < 0, 0, newsize)
  ensures inplace: newsize <= old(len(stack.elements)) ==> arr(stack.elements) == old(arr(stack.elements))
  ensures kept: forall j int :: 0 <= j && j < newsize && j < old(len(stack.elements)) ==> stack.elements[j] == old(stack.elements[j])
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

func (*Stack).Push(stack, elem)
  requires stack != nil && stack.tos >= 0 - 1
  modifies Stack.tos, Stack.elements, []StackElem
  ensures size: stack.tos == old(stack.tos) + 1 && len(stack.elements) == stack.tos + 1
  ensures top: stack.elements[stack.tos] == elem
  ensures where: arr(stack.elements) == old(arr(stack.elements)) || fresh(stack.elements)
  ensures kept: forall j int :: 0 <= j && j <= old(stack.tos) ==> stack.elements[j] == old(stack.elements[j])
  ensures frame: sameExcept(Stack.tos, stack) && sameExcept(Stack.elements, stack) && sameExcept([]StackElem, old(stack.elements))

func (*Stack).Clone(stack) (r)
  requires stack != nil
  modifies nothing
  loop 1 invariant sameExcept(Stack.tos) && sameExcept(Stack.elements) && sameExcept([]StackElem) && ret.tos == stack.tos && len(ret.elements) == len(stack.elements) && (forall j int :: 0 <= j && j < $i ==> ret.elements[j] == stack.elements[j])
  ensures copy: r != nil && fresh(r) && r.tos == stack.tos && r.env == stack.env && len(r.elements) == len(stack.elements)
  ensures elems: forall j int :: 0 <= j && j < len(stack.elements) ==> r.elements[j] == stack.elements[j]
  ensures apart: len(r.elements) > 0 ==> fresh(r.elements)
