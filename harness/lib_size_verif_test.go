package zygo

import (
	"fmt"
	"reflect"
	"strings"
)

// vSize sums the lengths of everything an interpreter keeps in its own fields
// (slices, maps, stacks, the parser's buffers), apart from the symbol table.
func vSize(env *Zlisp) (n int, what string) {
	var parts []string
	add := func(name string, k int) {
		n += k
		if k > 0 {
			parts = append(parts, fmt.Sprintf("%s:%d", name, k))
		}
	}
	var walk func(name string, v reflect.Value, d int)
	walk = func(name string, v reflect.Value, d int) {
		for i := 0; i < v.NumField(); i++ {
			f, fn := v.Field(i), name+v.Type().Field(i).Name
			switch f.Kind() {
			case reflect.Slice, reflect.Map:
				if fn != "symtable" && fn != "revsymtable" {
					add(fn, f.Len())
				}
			case reflect.Ptr:
				if f.IsNil() || d > 1 {
					continue
				}
				if f.Type().Elem() == reflect.TypeOf(Stack{}) || f.Type().Elem() == reflect.TypeOf(Parser{}) || f.Type().Elem() == reflect.TypeOf(Lexer{}) || (fn == "mainfunc") {
					walk(fn+".", f.Elem(), d+1)
				}
			}
		}
	}
	walk("", reflect.ValueOf(env).Elem(), 0)
	return n, strings.Join(parts, " ")
}

var vEmpty = []string{"", " \n\t ", "// only a comment", "/* block */", "\n// a\n\n"}
