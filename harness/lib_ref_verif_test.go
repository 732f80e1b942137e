package zygo

// The direct reference evaluator: a tree walker for the core language that
// shares no code with the library. It reads the program text with its own
// reader, so a text is the common input of both evaluators.

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ---- source ----

type rSym string
type rList []any   // ( ... )
type rArrLit []any // [ ... ]

func rRead(src string) (forms []any) {
	toks := []string{}
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case strings.IndexByte("()[]", c) >= 0:
			toks = append(toks, string(c))
			i++
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			toks = append(toks, src[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(src) && strings.IndexByte(" \n\t()[]\"", src[j]) < 0 {
				j++
			}
			toks = append(toks, src[i:j])
			i = j
		}
	}
	pos := 0
	var rd func() any
	rd = func() any {
		t := toks[pos]
		pos++
		switch {
		case t == "(" || t == "[":
			close := map[string]string{"(": ")", "[": "]"}[t]
			xs := []any{}
			for toks[pos] != close {
				xs = append(xs, rd())
			}
			pos++
			if t == "(" {
				return rList(xs)
			}
			return rArrLit(xs)
		case t[0] == '"':
			return t[1 : len(t)-1]
		case t == "true" || t == "false":
			return t == "true"
		case t == "nil":
			return nil
		}
		if n, err := strconv.ParseInt(t, 10, 64); err == nil {
			return n
		}
		if t[0] >= '0' && t[0] <= '9' || t[0] == '-' && len(t) > 1 {
			if f, err := strconv.ParseFloat(t, 64); err == nil {
				return f
			}
		}
		return rSym(t)
	}
	for pos < len(toks) {
		forms = append(forms, rd())
	}
	return
}

// ---- values: nil, bool, int64, float64, string, rSym, *rPair, *rArr, *rHash, *rFn, rPrim, *rLazy ----

type rPair struct{ h, t any }
type rArr struct{ v []any }
type rHash struct {
	keys []string
	vals map[string]any
}
type rFn struct {
	name   string
	params []string
	lazy   []bool
	rest   string
	body   []any
	env    *rEnv
}
type rPrim string
type rLazy struct {
	expr any
	env  *rEnv
	done bool
	val  any
}

type rEnv struct {
	vars map[string]any
	up   *rEnv
}

func (e *rEnv) find(n string) *rEnv {
	for ; e != nil; e = e.up {
		if _, ok := e.vars[n]; ok {
			return e
		}
	}
	return nil
}
func (e *rEnv) sub() *rEnv { return &rEnv{vars: map[string]any{}, up: e} }

var rErr = errors.New("error")
var rTooMuch = errors.New("reference budget")

type rJump struct {
	brk   bool
	label string
}

func (rJump) Error() string { return "jump" }

type ref struct {
	glob  *rEnv
	log   []string
	steps int
	max   int
	depth int
	calls int
	macs  map[string]*rFn
}

func newRef() *ref {
	return &ref{glob: (*rEnv)(nil).sub(), max: 60000, macs: map[string]*rFn{}}
}

func rTruthy(v any) bool {
	switch x := v.(type) {
	case nil:
		return false
	case bool:
		return x
	case int64:
		return x != 0
	}
	return true
}

func rType(v any) string {
	switch v.(type) {
	case bool:
		return "bool"
	case int64:
		return "int"
	case float64:
		return "float"
	case string:
		return "string"
	case rSym:
		return "symbol"
	case *rHash:
		return "hash"
	}
	return "" // untyped
}

func (r *ref) def(e *rEnv, n string, v any) error {
	if cur, ok := e.vars[n]; ok {
		a, b := rType(cur), rType(v)
		if a != "" && b != "" && a != b {
			return rErr
		}
	}
	e.vars[n] = v
	return nil
}

func rListOf(xs []any) any {
	var l any
	for i := len(xs) - 1; i >= 0; i-- {
		l = &rPair{xs[i], l}
	}
	return l
}

func rElems(v any) ([]any, bool) {
	switch x := v.(type) {
	case nil:
		return nil, true
	case *rArr:
		return x.v, true
	case *rPair:
		var out []any
		var l any = x
		for {
			p, ok := l.(*rPair)
			if !ok {
				return out, l == nil
			}
			out = append(out, p.h)
			l = p.t
		}
	}
	return nil, false
}

func rQuote(x any) any {
	switch f := x.(type) {
	case rList:
		ys := make([]any, len(f))
		for i := range f {
			ys[i] = rQuote(f[i])
		}
		return rListOf(ys)
	case rArrLit:
		ys := make([]any, len(f))
		for i := range f {
			ys[i] = rQuote(f[i])
		}
		return &rArr{ys}
	}
	return x
}

// rUnquote turns data back into source, for eval and macro expansion.
func rUnquote(v any) any {
	switch x := v.(type) {
	case *rPair:
		xs, ok := rElems(x)
		if !ok {
			return x
		}
		out := rList{}
		for _, y := range xs {
			out = append(out, rUnquote(y))
		}
		return out
	case *rArr:
		out := rArrLit{}
		for _, y := range x.v {
			out = append(out, rUnquote(y))
		}
		return out
	}
	return v
}

var rPrims = map[string]bool{}

func init() {
	for _, p := range strings.Fields("+ - * / mod < > <= >= == != not list array cons first rest second len append concat aget aset hget hset hdel hash keys map apply note eval force substitute str null? empty? bump slice callf evals") {
		rPrims[p] = true
	}
}

func (r *ref) seq(forms []any, e *rEnv) (v any, err error) {
	for _, f := range forms {
		if v, err = r.eval(f, e); err != nil {
			return nil, err
		}
	}
	return v, nil
}

func (r *ref) eval(x any, e *rEnv) (any, error) {
	r.steps++
	if r.steps > r.max || r.depth > 2500 {
		return nil, rTooMuch
	}
	switch f := x.(type) {
	case rSym:
		if strings.HasSuffix(string(f), ":") {
			return f, nil
		}
		if s := e.find(string(f)); s != nil {
			return s.vars[string(f)], nil
		}
		if rPrims[string(f)] {
			return rPrim(f), nil
		}
		return nil, rErr
	case rArrLit:
		out := []any{}
		for _, y := range f {
			v, err := r.eval(y, e)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return &rArr{out}, nil
	case rList:
		if len(f) == 0 {
			return nil, nil
		}
		return r.form(f, e)
	}
	return x, nil
}

func (r *ref) form(f rList, e *rEnv) (any, error) {
	a := []any(f[1:])
	if s, ok := f[0].(rSym); ok {
		switch s {
		case "quote":
			return rQuote(a[0]), nil
		case "begin":
			return r.seq(a, e)
		case "newScope":
			return r.seq(a, e.sub())
		case "def", "set":
			v, err := r.eval(a[1], e)
			if err != nil {
				return nil, err
			}
			n := string(a[0].(rSym))
			t := e
			if s == "set" {
				if t = e.find(n); t != nil {
					t.vars[n] = v
					return v, nil
				}
				t = e
			}
			return v, r.def(t, n, v)
		case "mdef":
			v, err := r.eval(a[len(a)-1], e)
			if err != nil {
				return nil, err
			}
			p, ok := v.(*rPair)
			if !ok {
				return nil, rErr
			}
			xs, ok := rElems(p)
			if !ok || len(xs) < len(a)-1 {
				return nil, rErr
			}
			for i := range a[:len(a)-1] {
				if err := r.def(e, string(a[i].(rSym)), xs[i]); err != nil {
					return nil, err
				}
			}
			return v, nil
		case "let", "letseq":
			if len(a) < 2 {
				panic("not a program")
			}
			b := []any(a[0].(rArrLit))
			in := e.sub()
			var vals []any
			for i := 0; i < len(b); i += 2 {
				v, err := r.eval(b[i+1], in)
				if err != nil {
					return nil, err
				}
				if s == "letseq" {
					if err := r.def(in, string(b[i].(rSym)), v); err != nil {
						return nil, err
					}
				}
				vals = append(vals, v)
			}
			if s == "let" {
				for i := len(vals) - 1; i >= 0; i-- {
					if err := r.def(in, string(b[2*i].(rSym)), vals[i]); err != nil {
						return nil, err
					}
				}
			}
			return r.seq(a[1:], in)
		case "cond":
			if len(a)%2 == 0 {
				panic("not a program")
			}
			for i := 0; i+1 < len(a); i += 2 {
				v, err := r.eval(a[i], e)
				if err != nil {
					return nil, err
				}
				if rTruthy(v) {
					return r.eval(a[i+1], e)
				}
			}
			return r.eval(a[len(a)-1], e)
		case "and", "or":
			for i := 0; ; i++ {
				v, err := r.eval(a[i], e)
				if err != nil || i == len(a)-1 || rTruthy(v) == (s == "or") {
					return v, err
				}
			}
		case "assert":
			v, err := r.eval(a[0], e)
			if err == nil && !rTruthy(v) {
				err = rErr
			}
			return nil, err
		case "fn":
			return r.mkfn("", a, e), nil
		case "defn":
			n := string(a[0].(rSym))
			fn := r.mkfn(n, a[1:], e)
			return nil, r.def(e, n, fn)
		case "for":
			return nil, r.loop(a, e)
		case "break", "continue":
			j := rJump{brk: s == "break"}
			if len(a) == 1 {
				j.label = strings.TrimSuffix(string(a[0].(rSym)), ":")
			}
			return nil, j
		}
	}
	// a call: the callee first, then the arguments from left to right
	c, err := r.eval(f[0], e)
	if err != nil {
		return nil, err
	}
	var args []any
	switch fn := c.(type) {
	case *rFn:
		for i, y := range a {
			if i < len(fn.params) && fn.lazy[i] {
				args = append(args, &rLazy{expr: y, env: e})
				continue
			}
			v, err := r.eval(y, e) // a bare lazy parameter denotes the promise
			if err != nil {
				return nil, err
			}
			args = append(args, v)
		}
	case rPrim:
		for _, y := range a {
			v, err := r.eval(y, e)
			if err != nil {
				return nil, err
			}
			args = append(args, v)
		}
	default:
		return nil, rErr
	}
	return r.call(c, args, e)
}

func (r *ref) force(l *rLazy) (any, error) {
	if l.done {
		return l.val, nil
	}
	v, err := r.eval(l.expr, l.env)
	if err != nil {
		return nil, err
	}
	l.done, l.val = true, v
	return v, nil
}

func (r *ref) mkfn(n string, a []any, e *rEnv) *rFn {
	if len(a) < 2 {
		panic("not a program")
	}
	fn := &rFn{name: n, body: a[1:], env: e}
	ps := []any(a[0].(rArrLit))
	for i := 0; i < len(ps); i++ {
		p := string(ps[i].(rSym))
		if p == "&" {
			fn.rest = string(ps[i+1].(rSym))
			break
		}
		fn.lazy = append(fn.lazy, p[0] == '#')
		fn.params = append(fn.params, p)
	}
	return fn
}

func (r *ref) loop(a []any, e *rEnv) error {
	label := ""
	if s, ok := a[0].(rSym); ok {
		label = strings.TrimSuffix(string(s), ":")
		a = a[1:]
	}
	c := []any(a[0].(rArrLit))
	in := e.sub()
	if _, err := r.eval(c[0], in); err != nil {
		return err
	}
	for {
		v, err := r.eval(c[1], in)
		if err != nil {
			return err
		}
		if !rTruthy(v) {
			return nil
		}
		_, err = r.seq(a[1:], in)
		if j, ok := err.(rJump); ok && (j.label == "" || j.label == label) {
			if j.brk {
				return nil
			}
			err = nil
		}
		if err != nil {
			return err
		}
		if _, err := r.eval(c[2], in); err != nil {
			return err
		}
	}
}

func (r *ref) call(c any, args []any, e *rEnv) (any, error) {
	switch fn := c.(type) {
	case *rFn:
		r.calls++
		if len(args) < len(fn.params) || fn.rest == "" && len(args) > len(fn.params) {
			return nil, rErr
		}
		in := fn.env.sub()
		for i, p := range fn.params {
			in.vars[p] = args[i]
		}
		if fn.rest != "" {
			in.vars[fn.rest] = rListOf(args[len(fn.params):])
		}
		r.depth++
		v, err := r.seq(fn.body, in)
		r.depth--
		if _, ok := err.(rJump); ok {
			err = rErr
		}
		return v, err
	case rPrim:
		return r.prim(string(fn), args, e)
	}
	return nil, rErr
}

func (r *ref) prim(n string, a []any, e *rEnv) (any, error) {
	ints := func() (x, y int64, ok bool) {
		if len(a) != 2 {
			return
		}
		x, ok = a[0].(int64)
		y, ok2 := a[1].(int64)
		return x, y, ok && ok2
	}
	switch n {
	case "+", "-", "*", "/":
		if len(a) == 0 {
			return nil, rErr
		}
		acc := a[0]
		if len(a) == 1 {
			if n == "*" {
				return nil, rErr
			}
			return acc, nil
		}
		for _, y := range a[1:] {
			x1, i1 := acc.(int64)
			y1, i2 := y.(int64)
			f1, g1 := acc.(float64)
			f2, g2 := y.(float64)
			switch {
			case i1 && i2:
				switch n {
				case "+":
					acc = x1 + y1
				case "-":
					acc = x1 - y1
				case "*":
					acc = x1 * y1
				case "/":
					if y1 == 0 {
						return nil, rErr
					}
					if x1%y1 == 0 {
						acc = x1 / y1
					} else {
						acc = float64(x1) / float64(y1)
					}
				}
			case (i1 || g1) && (i2 || g2):
				if i1 {
					f1 = float64(x1)
				}
				if i2 {
					f2 = float64(y1)
				}
				switch n {
				case "+":
					acc = f1 + f2
				case "-":
					acc = f1 - f2
				case "*":
					acc = f1 * f2
				case "/":
					if f2 == 0 {
						return nil, rErr
					}
					acc = f1 / f2
				}
			default:
				return nil, rErr
			}
		}
		return acc, nil
	case "mod":
		x, y, ok := ints()
		if !ok || y == 0 {
			return nil, rErr
		}
		return x % y, nil
	case "<", ">", "<=", ">=", "==", "!=":
		if len(a) != 2 {
			return nil, rErr
		}
		var c int
		if x, y, ok := ints(); ok {
			switch {
			case x < y:
				c = -1
			case x > y:
				c = 1
			}
		} else if s, ok := a[0].(string); ok {
			t, ok := a[1].(string)
			if !ok {
				return nil, rErr
			}
			c = strings.Compare(s, t)
		} else {
			return nil, rErr
		}
		return map[string]bool{"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[n], nil
	case "not":
		if len(a) != 1 {
			return nil, rErr
		}
		return !rTruthy(a[0]), nil
	case "list":
		return rListOf(a), nil
	case "array":
		return &rArr{append([]any{}, a...)}, nil
	case "cons":
		if len(a) != 2 {
			return nil, rErr
		}
		return &rPair{a[0], a[1]}, nil
	case "first", "second", "rest":
		if len(a) != 1 || a[0] == nil && n != "rest" {
			return nil, rErr
		}
		xs, ok := rElems(a[0])
		if !ok {
			return nil, rErr
		}
		switch n {
		case "first":
			if len(xs) < 1 {
				return nil, rErr
			}
			return xs[0], nil
		case "second":
			if len(xs) < 2 {
				return nil, rErr
			}
			return xs[1], nil
		}
		if p, ok := a[0].(*rPair); ok {
			return p.t, nil
		}
		if len(xs) == 0 {
			return a[0], nil
		}
		return &rArr{append([]any{}, xs[1:]...)}, nil
	case "null?", "empty?":
		if len(a) != 1 {
			return nil, rErr
		}
		return a[0] == nil, nil
	case "len":
		if len(a) != 1 {
			return nil, rErr
		}
		switch x := a[0].(type) {
		case string:
			return int64(len(x)), nil
		case *rHash:
			return int64(len(x.keys)), nil
		}
		xs, ok := rElems(a[0])
		if !ok {
			return nil, rErr
		}
		return int64(len(xs)), nil
	case "append":
		x, ok := a[0].(*rArr)
		if !ok || len(a) < 2 {
			return nil, rErr
		}
		return &rArr{append(append([]any{}, x.v...), a[1:]...)}, nil
	case "concat":
		if x, ok := a[0].(string); ok {
			for _, y := range a[1:] {
				s, ok := y.(string)
				if !ok {
					return nil, rErr
				}
				x += s
			}
			return x, nil
		}
		x, ok := a[0].(*rArr)
		if !ok {
			return nil, rErr
		}
		out := append([]any{}, x.v...)
		for _, y := range a[1:] {
			z, ok := y.(*rArr)
			if !ok {
				return nil, rErr
			}
			out = append(out, z.v...)
		}
		return &rArr{out}, nil
	case "aget", "aset":
		if n == "aset" && len(a) != 3 || n == "aget" && len(a) != 2 && len(a) != 3 {
			return nil, rErr
		}
		x, ok := a[0].(*rArr)
		i, ok2 := a[1].(int64)
		if !ok || !ok2 {
			return nil, rErr
		}
		if i < 0 || i >= int64(len(x.v)) {
			if n == "aget" && len(a) == 3 {
				return a[2], nil
			}
			return nil, rErr
		}
		if n == "aset" {
			x.v[i] = a[2]
			return nil, nil
		}
		return x.v[i], nil
	case "hash":
		h := &rHash{vals: map[string]any{}}
		if len(a)%2 == 1 {
			return nil, rErr
		}
		for i := 0; i+1 < len(a); i += 2 {
			k, ok := a[i].(rSym)
			if !ok {
				return nil, rErr
			}
			h.set(strings.TrimSuffix(string(k), ":"), a[i+1])
		}
		return h, nil
	case "hget", "hset", "hdel", "keys":
		h, ok := a[0].(*rHash)
		if !ok {
			return nil, rErr
		}
		if n == "keys" {
			out := []any{}
			for _, k := range h.keys {
				out = append(out, rSym(k))
			}
			return &rArr{out}, nil
		}
		ks, ok := a[1].(rSym)
		if !ok {
			return nil, rErr
		}
		k := strings.TrimSuffix(string(ks), ":")
		switch n {
		case "hset":
			h.set(k, a[2])
		case "hdel":
			if _, ok := h.vals[k]; ok {
				delete(h.vals, k)
				for i := range h.keys {
					if h.keys[i] == k {
						h.keys = append(h.keys[:i:i], h.keys[i+1:]...)
						break
					}
				}
			}
		case "hget":
			v, ok := h.vals[k]
			if !ok {
				if len(a) == 3 {
					return a[2], nil
				}
				return nil, rErr
			}
			return v, nil
		}
		return nil, nil
	case "map":
		if len(a) != 2 {
			return nil, rErr
		}
		xs, ok := rElems(a[1])
		if !ok || a[1] == nil {
			return nil, rErr
		}
		out := []any{}
		for _, x := range xs {
			v, err := r.call(a[0], r.viaApply(a[0], []any{x}), e)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		if _, ok := a[1].(*rArr); ok {
			return &rArr{out}, nil
		}
		return rListOf(out), nil
	case "apply", "callf":
		if len(a) != 2 {
			return nil, rErr
		}
		xs, ok := rElems(a[1])
		if !ok || a[1] == nil {
			return nil, rErr
		}
		return r.call(a[0], r.viaApply(a[0], xs), e)
	case "note":
		s := make([]string, len(a))
		for i := range a {
			s[i] = rShow(a[i])
		}
		r.log = append(r.log, strings.Join(s, " "))
		if len(a) == 0 {
			return nil, nil
		}
		return a[len(a)-1], nil
	case "bump": // a Go builtin that fails when its argument is not an integer
		x, ok := a[0].(int64)
		if !ok || x > 900 {
			return nil, rErr
		}
		return x + 1, nil
	case "eval":
		if len(a) != 1 {
			return nil, rErr
		}
		return r.eval(rUnquote(a[0]), e)
	case "force":
		if len(a) != 1 {
			return nil, rErr
		}
		if l, ok := a[0].(*rLazy); ok {
			return r.force(l)
		}
		return a[0], nil
	case "substitute":
		if l, ok := a[0].(*rLazy); ok {
			return rQuote(l.expr), nil
		}
		return a[0], nil
	}
	return nil, rErr
}

// viaApply: arguments handed over by apply and map are already values; a lazy
// parameter holds them as forced arguments.
func (r *ref) viaApply(f any, xs []any) []any {
	fn, ok := f.(*rFn)
	if !ok {
		return xs
	}
	out := append([]any{}, xs...)
	for i := range out {
		if i < len(fn.params) && fn.lazy[i] {
			out[i] = &rLazy{done: true, val: out[i], expr: rUnquote(out[i])}
		}
	}
	return out
}

func (h *rHash) set(k string, v any) {
	if _, ok := h.vals[k]; !ok {
		h.keys = append(h.keys, k)
	}
	h.vals[k] = v
}

// ---- one canonical rendering for both sides ----

func rShow(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return "f" + strconv.FormatFloat(x, 'x', -1, 64)
	case string:
		return strconv.Quote(x)
	case rSym:
		return "'" + strings.TrimSuffix(string(x), ":")
	case rList:
		return rShow(rQuote(x))
	case rArrLit:
		return rShow(rQuote(x))
	case *rPair:
		var b strings.Builder
		b.WriteString("(")
		var l any = x
		for i := 0; ; i++ {
			p, ok := l.(*rPair)
			if !ok {
				if l != nil {
					b.WriteString(" . " + rShow(l))
				}
				break
			}
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(rShow(p.h))
			l = p.t
		}
		return b.String() + ")"
	case *rArr:
		s := make([]string, len(x.v))
		for i := range x.v {
			s[i] = rShow(x.v[i])
		}
		return "[" + strings.Join(s, " ") + "]"
	case *rHash:
		s := make([]string, len(x.keys))
		for i, k := range x.keys {
			s[i] = k + ":" + rShow(x.vals[k])
		}
		return "{" + strings.Join(s, " ") + "}"
	case *rFn, rPrim:
		return "<fn>"
	case *rLazy:
		return "<lazy>"
	}
	return fmt.Sprintf("?%T", v)
}

func vCanon(x Sexp) string { return vCanonD(x, 0) }
func vCanonD(x Sexp, d int) string {
	if d > 200 {
		return "<deep>"
	}
	switch e := x.(type) {
	case nil:
		return "<go nil>"
	case *SexpSentinel:
		if e == SexpNull {
			return "nil"
		}
		return "<sentinel>"
	case *SexpBool:
		return strconv.FormatBool(e.Val)
	case *SexpInt:
		return strconv.FormatInt(e.Val, 10)
	case *SexpUint64:
		return "u" + strconv.FormatUint(e.Val, 10)
	case *SexpFloat:
		if math.IsNaN(e.Val) {
			return "fNaN"
		}
		return "f" + strconv.FormatFloat(e.Val, 'x', -1, 64)
	case *SexpChar:
		return "c" + strconv.Itoa(int(e.Val))
	case *SexpStr:
		return strconv.Quote(e.S)
	case *SexpSymbol:
		return "'" + e.name
	case *SexpPair:
		var b strings.Builder
		b.WriteString("(")
		var l Sexp = e
		for i := 0; ; i++ {
			p, ok := l.(*SexpPair)
			if !ok {
				if l != SexpNull {
					b.WriteString(" . " + vCanonD(l, d+1))
				}
				break
			}
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(vCanonD(p.Head, d+1))
			l = p.Tail
		}
		return b.String() + ")"
	case *SexpArray:
		s := make([]string, len(e.Val))
		for i := range e.Val {
			s[i] = vCanonD(e.Val[i], d+1)
		}
		return "[" + strings.Join(s, " ") + "]"
	case *SexpHash:
		s := make([]string, 0, len(e.KeyOrder))
		for _, k := range e.KeyOrder {
			v, err := e.HashGet(nil, k)
			if err != nil {
				s = append(s, "<missing>")
				continue
			}
			ks := vCanonD(k, d+1)
			if sym, ok := k.(*SexpSymbol); ok {
				ks = sym.name
			}
			s = append(s, ks+":"+vCanonD(v, d+1))
		}
		tn := e.TypeName
		if tn == "hash" {
			tn = ""
		}
		return tn + "{" + strings.Join(s, " ") + "}"
	case *SexpFunction:
		return "<fn>"
	case *SexpLazyArg:
		return "<lazy>"
	}
	return fmt.Sprintf("?%T", x)
}

// vTwin is a real interpreter and the reference evaluator fed the same forms.
type vTwin struct {
	env  *Zlisp
	ref  *ref
	log  []string
	hook func() // called at each note
}

func newTwin() *vTwin {
	t := &vTwin{env: NewZlisp(), ref: newRef()}
	t.env.ImportEval()
	t.install(t.env)
	return t
}

func (t *vTwin) install(env *Zlisp) {
	env.AddFunction("note", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		s := make([]string, len(args))
		for i := range args {
			s[i] = vCanon(args[i])
		}
		t.log = append(t.log, strings.Join(s, " "))
		if t.hook != nil {
			t.hook()
		}
		if len(args) == 0 {
			return SexpNull, nil
		}
		return args[len(args)-1], nil
	})
	env.AddFunction("bump", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		if x, ok := args[0].(*SexpInt); ok && x.Val <= 900 {
			return &SexpInt{Val: x.Val + 1}, nil
		}
		return SexpNull, errors.New("bump")
	})
	env.AddFunction("callf", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		if len(args) != 2 {
			return SexpNull, WrongNargs
		}
		f, ok := args[0].(*SexpFunction)
		if !ok {
			return SexpNull, errors.New("callf")
		}
		xs := []Sexp{}
		switch a := args[1].(type) {
		case *SexpArray:
			xs = a.Val
		case *SexpPair:
			xs, _ = ListToArray(a)
		default:
			return SexpNull, errors.New("callf")
		}
		return env.Apply(f, xs)
	})
}

// step evaluates src in both; ok is false when the reference gave up (budget).
func (t *vTwin) step(src string) (o vOut, want string, ok bool) {
	t.ref.steps, t.ref.depth = 0, 0
	t.ref.log, t.log = nil, nil
	rv, err := t.ref.seq(rRead(src), t.ref.glob)
	if err == rTooMuch {
		return vOut{}, "", false
	}
	if err != nil {
		want = "ERROR"
	} else {
		want = "VALUE " + rShow(rv)
	}
	o = vGuard(4000000, func() (Sexp, error) { return t.env.EvalString(src) })
	return o, want, true
}

func vGot(o vOut) string {
	switch {
	case o.Panic != "":
		return "PANIC " + strings.SplitN(o.Panic, "\n", 2)[0]
	case o.Over:
		return "BUDGET"
	case o.Err != nil:
		return "ERROR"
	}
	return "VALUE " + vCanon(o.Val)
}

// compare returns "" when the real outcome and effects are the reference's.
func (t *vTwin) compare(o vOut, want string) string {
	got := vGot(o)
	if got != want {
		extra := ""
		if o.Err != nil {
			extra = " (" + o.show() + ")"
		}
		return "got " + got + extra + ", reference " + want
	}
	a, b := strings.Join(t.log, "; "), strings.Join(t.ref.log, "; ")
	if a != b {
		return "effects differ: got [" + a + "], reference [" + b + "]"
	}
	return ""
}
