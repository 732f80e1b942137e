package main

import (
	"fmt"
	"strings"
)

// Term is an SMT-LIB term with its sort.
type Term struct {
	S    string
	Sort string
}

func T(sort, f string, a ...interface{}) Term { return Term{fmt.Sprintf(f, a...), sort} }

var (
	True  = Term{"true", "Bool"}
	False = Term{"false", "Bool"}
)

func IntLit(n int64) Term {
	if n < 0 {
		if n == -1<<63 {
			return Term{"(- 9223372036854775808)", "Int"}
		}
		return Term{fmt.Sprintf("(- %d)", -n), "Int"}
	}
	return Term{fmt.Sprintf("%d", n), "Int"}
}

func And(ts ...Term) Term {
	var out []string
	for _, t := range ts {
		if t.S == "true" {
			continue
		}
		if t.S == "false" {
			return False
		}
		out = append(out, t.S)
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return Term{out[0], "Bool"}
	}
	return Term{"(and " + strings.Join(out, " ") + ")", "Bool"}
}

func Or(ts ...Term) Term {
	var out []string
	for _, t := range ts {
		if t.S == "false" {
			continue
		}
		if t.S == "true" {
			return True
		}
		out = append(out, t.S)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return Term{out[0], "Bool"}
	}
	return Term{"(or " + strings.Join(out, " ") + ")", "Bool"}
}

func Not(t Term) Term {
	switch t.S {
	case "true":
		return False
	case "false":
		return True
	}
	if strings.HasPrefix(t.S, "(not ") {
		return Term{t.S[5 : len(t.S)-1], "Bool"}
	}
	return Term{"(not " + t.S + ")", "Bool"}
}

func Imp(a, b Term) Term {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return True
	}
	return Term{"(=> " + a.S + " " + b.S + ")", "Bool"}
}

func Eq(a, b Term) Term {
	if a.S == b.S {
		return True
	}
	if a.Sort != b.Sort {
		panic(unsup("sort mismatch in =: %s:%s vs %s:%s", a.S, a.Sort, b.S, b.Sort))
	}
	return Term{"(= " + a.S + " " + b.S + ")", "Bool"}
}

func Ite(c, a, b Term) Term {
	if c.S == "true" || a.S == b.S {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.Sort != b.Sort {
		panic(unsup("sort mismatch in ite: %s vs %s", a.Sort, b.Sort))
	}
	return Term{"(ite " + c.S + " " + a.S + " " + b.S + ")", a.Sort}
}

// arraySorts splits "(Array K V)".
func arraySorts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad sort " + s)
}

func Select(a, i Term) Term {
	_, v := arraySorts(a.Sort)
	return Term{"(select " + a.S + " " + i.S + ")", v}
}

func Store(a, i, v Term) Term {
	_, vs := arraySorts(a.Sort)
	if vs != v.Sort {
		panic(unsup("store sort mismatch: %s into %s", v.Sort, a.Sort))
	}
	return Term{"(store " + a.S + " " + i.S + " " + v.S + ")", a.Sort}
}

// smtString renders a Go string (bytes) as an SMT-LIB string literal.
func smtString(s string) Term {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return Term{b.String(), "String"}
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }
