package zygo

import "strings"

// c02shrink drops forms, then arguments, while the two evaluators still disagree.
func c02shrink(forms []string, bad func([]string) bool) []string {
	good := bad
	bad = func(fs []string) bool {
		for _, f := range fs {
			for _, x := range rRead(f) {
				if !rValid(x) {
					return false
				}
			}
		}
		return good(fs)
	}
	for changed, n := true, 0; changed && n < 40; n++ {
		changed = false
		for i := 0; i < len(forms); i++ {
			t := append(append([]string{}, forms[:i]...), forms[i+1:]...)
			if len(t) > 0 && bad(t) {
				forms, changed = t, true
				i--
			}
		}
	}
	for i := range forms {
		for again, n := true, 0; again && n < 30; n++ {
			again = false
			for _, cand := range rSmaller(forms[i]) {
				t := append([]string{}, forms...)
				t[i] = cand
				if bad(t) {
					forms, again = t, true
					break
				}
			}
		}
	}
	return forms
}

// rSmaller lists texts with one subform replaced by one of its children or by 1.
func rSmaller(src string) (out []string) {
	fs := rRead(src)
	if len(fs) != 1 {
		return nil
	}
	var walk func(x any, put func(any) string)
	walk = func(x any, put func(any) string) {
		var kids []any
		switch f := x.(type) {
		case rList:
			kids = f
		case rArrLit:
			kids = f
		default:
			return
		}
		if len(out) > 400 {
			return
		}
		for i, k := range kids {
			switch k.(type) {
			case rList:
				out = append(out, put(k))
			}
			i := i
			re := func(y any) any {
				n := append([]any{}, kids...)
				n[i] = y
				if _, ok := x.(rList); ok {
					return rList(n)
				}
				return rArrLit(n)
			}
			if i > 0 && len(kids) > 2 {
				n := append(append([]any{}, kids[:i]...), kids[i+1:]...)
				if _, ok := x.(rList); ok {
					out = append(out, put(rList(n)))
				}
			}
			walk(k, func(y any) string { return put(re(y)) })
		}
	}
	walk(fs[0], func(y any) string { return rSrc(y) })
	return
}

func rSrc(x any) string {
	join := func(xs []any) string {
		s := make([]string, len(xs))
		for i := range xs {
			s[i] = rSrc(xs[i])
		}
		return strings.Join(s, " ")
	}
	switch f := x.(type) {
	case rList:
		return "(" + join(f) + ")"
	case rArrLit:
		return "[" + join(f) + "]"
	case rSym:
		return string(f)
	}
	return rShow(x)
}

// runForms evaluates the forms one at a time in a new twin; the first disagreement is described.
func c02forms(forms []string) (msg string, ok bool) {
	ok = true
	defer func() {
		if r := recover(); r != nil {
			msg, ok = "", false // shrunk to something the reference reader rejects
		}
	}()
	t := newTwin()
	for _, f := range forms {
		o, want, ok := t.step(f)
		if !ok {
			return "", false
		}
		if m := t.compare(o, want); m != "" {
			return f + ": " + m, true
		}
	}
	return "", true
}

// rValid: the special forms of x have their proper shape.
func rValid(x any) bool {
	var f []any
	switch y := x.(type) {
	case rArrLit:
		f = y
	case rList:
		f = y
		if len(f) == 0 {
			return false
		}
		if _, ok := f[0].(rArrLit); ok {
			return false
		}
		s, ok := f[0].(rSym)
		if !ok {
			break
		}
		n := len(f)
		arr := func(i int) []any {
			if i < n {
				if a, ok := f[i].(rArrLit); ok {
					return append([]any{}, a...)
				}
			}
			return nil
		}
		sym := func(i int) bool {
			if i >= n {
				return false
			}
			t, ok := f[i].(rSym)
			return ok && t != "&" && !strings.HasSuffix(string(t), ":") && !rPrims[string(t)]
		}
		params := func(i int) bool {
			if i >= n {
				return false
			}
			if _, ok := f[i].(rArrLit); !ok {
				return false
			}
			for _, p := range arr(i) {
				if _, ok := p.(rSym); !ok {
					return false
				}
			}
			return n > i+1
		}
		rest := f[1:]
		switch s {
		case "quote":
			return n == 2
		case "fn":
			if !params(1) {
				return false
			}
			rest = f[2:]
		case "defn":
			if !sym(1) || !params(2) {
				return false
			}
			rest = f[3:]
		case "def", "set":
			if !sym(1) || n != 3 {
				return false
			}
			rest = f[2:]
		case "mdef":
			return n > 2
		case "let", "letseq":
			b := arr(1)
			if n < 3 || len(b)%2 != 0 || len(b) == 0 {
				return false
			}
			for i := range b {
				if _, ok := b[i].(rSym); i%2 == 0 && !ok {
					return false
				}
				if !rValid(b[i]) {
					return false
				}
			}
			rest = f[2:]
		case "cond":
			if n%2 != 0 {
				return false
			}
		case "and", "or":
			if n < 2 {
				return false
			}
		case "for":
			i := 1
			if sym, ok := f[1].(rSym); ok && strings.HasSuffix(string(sym), ":") {
				i = 2
			}
			if len(arr(i)) != 3 || n <= i+1 {
				return false
			}
			for _, y := range arr(i) {
				if !rValid(y) {
					return false
				}
			}
			rest = f[i+1:]
		case "break", "continue":
			return true
		default:
			// calls of builtins keep their number of arguments
			if k, ok := map[string]int{"<": 3, ">": 3, "==": 3, "!=": 3, "<=": 3, ">=": 3, "not": 2, "first": 2, "rest": 2, "cons": 3, "map": 3, "apply": 3, "callf": 3, "append": 3, "hset": 4, "aset": 4, "len": 2, "mod": 3, "bump": 2, "eval": 2, "assert": 2, "force": 2, "substitute": 2, "hdel": 3}[string(s)]; ok && n != k {
				return false
			}
			if s == "hash" && n%2 == 0 || n < 3 && (s == "+" || s == "*" || s == "-" || s == "/" || s == "concat") {
				return false
			}
		}
		f = rest
	}
	for _, k := range f {
		if !rValid(k) {
			return false
		}
	}
	return true
}
