package zygo

// Programs over a deliberately tiny pool of names: x, y, z hold integers, f,
// g, h functions of one argument. Every construct that opens a scope or makes a
// function is nested in every other, so names collide nearly everywhere.

import (
	"fmt"
	"math/rand"
)

type sgen struct {
	r      *rand.Rand
	tails  bool
	lazy   bool
	budget int
	fn     []string // names of the enclosing named functions
	k      int
}

func (s *sgen) iv() string { return string("xyz"[s.r.Intn(3)]) }
func (s *sgen) fv() string { return string("fgh"[s.r.Intn(3)]) }
func (s *sgen) lit() string {
	s.k++
	return fmt.Sprint(s.k % 97)
}

// an integer expression
func (s *sgen) e(d int) string {
	s.budget--
	if d <= 0 || s.budget < 0 {
		if s.r.Intn(4) == 0 {
			return s.lit()
		}
		return s.iv()
	}
	switch s.r.Intn(23) {
	case 0:
		return s.iv()
	case 1, 2:
		return fmt.Sprintf("(+ %s %s)", s.e(d-1), s.e(d-1))
	case 3, 4, 5:
		return fmt.Sprintf("(%s %s)", s.fv(), s.e(d-1))
	case 6:
		return fmt.Sprintf("(let [%s %s %s %s] %s)", s.iv(), s.e(d-1), s.iv(), s.e(d-1), s.body(d-1))
	case 7:
		return fmt.Sprintf("(let [%s %s] %s)", s.fv(), s.f(d-1), s.body(d-1))
	case 8:
		return fmt.Sprintf("(letseq [%s %s %s %s %s %s] %s)", s.iv(), s.e(d-1), s.fv(), s.f(d-1), s.iv(), s.e(d-1), s.body(d-1))
	case 9:
		return fmt.Sprintf("(newScope %s)", s.body(d-1))
	case 10:
		return fmt.Sprintf("(begin %s)", s.body(d-1))
	case 11:
		return fmt.Sprintf("(%s %s)", s.f(d-1), s.e(d-1))
	case 12:
		return fmt.Sprintf("(cond (< %s %s) %s %s)", s.e(d-2), s.e(d-2), s.e(d-1), s.e(d-1))
	case 13, 14:
		return fmt.Sprintf("(note (begin (set %s %s)))", s.iv(), s.e(d-1))
	case 15:
		return fmt.Sprintf("(begin (def %s %s) %s)", s.iv(), s.e(d-1), s.e(d-1))
	case 16:
		return fmt.Sprintf("(call %s %s)", s.f(d-1), s.e(d-1))
	case 17:
		return fmt.Sprintf("((keep %s) %s)", s.f(d-1), s.e(d-1))
	case 18:
		return fmt.Sprintf("((old %d) %s)", s.r.Intn(4), s.e(d-1))
	case 19:
		v := s.iv()
		return fmt.Sprintf("(begin (for [(def i 0) (< i %d) (set i (+ i 1))] (def %s (+ i %s)) %s) %s)", 1+s.r.Intn(3), v, s.e(d-2), s.body(d-1), s.e(d-2))
	case 20:
		return fmt.Sprintf("(first (map %s [%s %s]))", s.f(d-1), s.e(d-2), s.e(d-2))
	case 21:
		return fmt.Sprintf("(apply %s [%s])", s.f(d-1), s.e(d-2))
	default:
		return fmt.Sprintf("(or false (and true %s))", s.e(d-1))
	}
}

// a function-valued expression
func (s *sgen) f(d int) string {
	s.budget--
	if d <= 0 || s.budget < 0 {
		if s.r.Intn(2) == 0 {
			return s.fv()
		}
		return fmt.Sprintf("(fn [%s] %s)", s.iv(), s.e(0))
	}
	switch s.r.Intn(10) {
	case 0, 1:
		return s.fv()
	case 2, 3, 4:
		return fmt.Sprintf("(fn [%s] %s)", s.iv(), s.body(d-1))
	case 5:
		return fmt.Sprintf("(let [%s %s] (fn [%s] %s))", s.iv(), s.e(d-1), s.iv(), s.body(d-1))
	case 6:
		return fmt.Sprintf("(begin (defn %s [%s] %s) %s)", s.fv(), s.iv(), s.body(d-1), s.fv())
	case 7:
		return fmt.Sprintf("((fn [%s] (fn [%s] %s)) %s)", s.iv(), s.iv(), s.body(d-1), s.e(d-1))
	case 8:
		return fmt.Sprintf("(old %d)", s.r.Intn(4))
	default:
		return fmt.Sprintf("(keep (fn [%s] %s))", s.iv(), s.body(d-1))
	}
}

func (s *sgen) stmt(d int) string {
	switch s.r.Intn(9) {
	case 0, 1:
		return fmt.Sprintf("(def %s %s)", s.iv(), s.e(d-1))
	case 2, 3:
		return fmt.Sprintf("(set %s %s)", s.iv(), s.e(d-1))
	case 4:
		return fmt.Sprintf("(defn %s [%s] %s)", s.fv(), s.iv(), s.body(d-1))
	case 5:
		return fmt.Sprintf("(def %s %s)", s.fv(), s.f(d-1))
	case 6:
		return fmt.Sprintf("(set %s %s)", s.fv(), s.f(d-1))
	case 7:
		return fmt.Sprintf("(keep %s)", s.f(d-1))
	default:
		return fmt.Sprintf("(note %s)", s.e(d-1))
	}
}

func (s *sgen) body(d int) string {
	out := ""
	for i := s.r.Intn(3); i > 0 && s.budget > 0; i-- {
		out += s.stmt(d) + " "
	}
	return out + s.e(d-1)
}

// a self-recursive function whose call is in tail position, counting x down
func (s *sgen) rec(d int) string {
	f, v := s.fv(), s.iv()
	body := fmt.Sprintf("(%s (+ -1 %s))", f, v)
	for i := s.r.Intn(4); i >= 0; i-- {
		switch s.r.Intn(6) {
		case 0:
			body = fmt.Sprintf("(let [%s %s] %s)", s.other(v), s.e(d-1), body)
		case 1:
			body = fmt.Sprintf("(begin %s %s)", s.stmtOther(d, v), body)
		case 2:
			body = fmt.Sprintf("(newScope (keep (fn [%s] (set %s (+ 1 %s)) (+ %s %s))) %s)", s.other(v), v, v, v, s.iv(), body)
		case 3:
			body = fmt.Sprintf("(begin (keep (fn [%s] (+ %s %s))) %s)", s.iv(), v, s.iv(), body)
		case 4:
			body = fmt.Sprintf("(and true %s)", body)
		default:
			body = fmt.Sprintf("(letseq [%s %s] (cond (< %s -50) 0 %s))", s.other(v), s.e(d-1), s.iv(), body)
		}
	}
	if s.r.Intn(4) == 0 {
		return fmt.Sprintf("(begin (set %s (fn [%s] (cond (< %s 1) %s %s))) (%s %d))", f, v, v, s.e(1), body, f, s.r.Intn(4))
	}
	return fmt.Sprintf("(begin (defn %s [%s] (cond (< %s 1) %s %s)) (%s %d))", f, v, v, s.e(1), body, f, s.r.Intn(4))
}

func (s *sgen) other(v string) string {
	for {
		if w := s.iv(); w != v {
			return w
		}
	}
}

func (s *sgen) stmtOther(d int, v string) string {
	if s.r.Intn(2) == 0 {
		return fmt.Sprintf("(def %s %s)", s.other(v), s.e(d-1))
	}
	return fmt.Sprintf("(keep (fn [%s] %s))", s.iv(), s.e(d-1))
}

// a function that makes a function that ... : applied level by level, several
// activations of each level alive at once, the innermost called in any order
func (s *sgen) maker() (out []string) {
	levels := 1 + s.r.Intn(4)
	var level func(i int) string
	level = func(i int) string {
		s.budget = 6
		if i == levels {
			switch s.r.Intn(4) {
			case 0:
				return fmt.Sprintf("(fn [%s] (list x y z))", s.iv())
			case 1:
				v := s.iv()
				return fmt.Sprintf("(fn [%s] (set %s (+ 1 %s)) (list x y z))", s.iv(), v, v)
			default:
				return fmt.Sprintf("(fn [%s] %s (list x y z))", s.iv(), s.stmt(1+s.r.Intn(2)))
			}
		}
		in := level(i + 1)
		switch s.r.Intn(7) {
		case 0:
			in = fmt.Sprintf("(let [%s (+ %s 100)] %s)", s.iv(), s.iv(), in)
		case 1:
			in = fmt.Sprintf("(begin (def %s (+ %s 100)) %s)", s.iv(), s.iv(), in)
		case 2:
			in = fmt.Sprintf("(newScope (def %s (+ %s 100)) %s)", s.iv(), s.iv(), in)
		case 3:
			f := s.fv()
			in = fmt.Sprintf("(begin (def %s %s) %s)", f, in, f)
		case 4:
			in = fmt.Sprintf("(letseq [%s (* %s 2) %s (+ %s 100)] %s)", s.iv(), s.iv(), s.iv(), s.iv(), in)
		}
		if s.r.Intn(3) == 0 {
			v := s.iv()
			in = fmt.Sprintf("(set %s (+ 1000 %s)) %s", v, v, in)
		}
		return fmt.Sprintf("(fn [%s] %s)", s.iv(), in)
	}
	made := []int{0}
	at := map[int]int{0: 0} // level of each function made
	out = append(out, "(def k0 "+level(0)+")")
	n := 4 + s.r.Intn(10)
	for i := 1; i <= n; i++ {
		j := made[s.r.Intn(len(made))]
		call := fmt.Sprintf("(k%d %d)", j, 10*i)
		if s.r.Intn(3) == 0 {
			call = fmt.Sprintf("(let [%s %d %s %d] (call k%d %d))", s.iv(), -i, s.iv(), -10*i, j, 10*i)
		}
		if at[j] == levels {
			out = append(out, "(note "+call+")")
			continue
		}
		out = append(out, fmt.Sprintf("(def k%d %s)", i, call))
		at[i] = at[j] + 1
		made = append(made, i)
	}
	for _, j := range made {
		if at[j] == levels {
			out = append(out, fmt.Sprintf("(note (k%d %d))", j, j))
		}
	}
	return out
}

// what every such program starts from
var scopePrelude = []string{
	"(def x 1)", "(def y 2)", "(def z 3)",
	"(defn f [x] (note (+ x 10)))", "(defn g [y] (note (+ y 20)))", "(defn h [z] (note (+ z 30)))",
	"(def kept (list f g h f))",
	// hand a function over, keep it for later, and call it from elsewhere
	"(defn call [f y] (let [x 70 z 80] (f y)))",
	"(defn keep [h] (let [x 50 y 60] (set kept (cons h kept)) h))",
	"(defn old [n] (let [y 90 l kept] (for [(def i 0) (< i n) (set i (+ i 1))] (set l (rest l))) (first l)))",
}

func (s *sgen) program(n, d int) []string {
	out := append([]string{}, scopePrelude...)
	for i := 0; i < n; i++ {
		s.budget = 60
		if s.r.Intn(4) == 0 {
			out = append(out, s.maker()...)
			continue
		}
		switch {
		case s.tails && s.r.Intn(2) == 0:
			out = append(out, s.rec(d))
		case s.r.Intn(3) == 0:
			out = append(out, s.stmt(d))
		default:
			out = append(out, s.e(d))
		}
	}
	// every function kept, called once more after everything that made it has returned
	out = append(out, "(note (list x y z (len kept)))", "(for [(def i 0) (< i 4) (set i (+ i 1))] (let [x 7 y 8 z 9] (note ((old i) i))))")
	return out
}
