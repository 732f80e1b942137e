package zygo

import (
	"strings"
	"testing"
)

var c03directed = []string{
	`(defn f [] x) (defn g [] (def x 5) (f)) (def x 1) (list (g) (let [x 9] (f)) (newScope (def x 8) (f)) ((fn [x] (f)) 7))`,
	`(defn mk [x] (fn [] (set x (+ x 1)) x)) (def a (mk 1)) (def b (mk 10)) (list (a) (a) (b) (a) (b))`,
	`(defn mk [x] (list (fn [] (set x (+ x 1)) x) (fn [] x))) (def p (mk 1)) ((first p)) ((first p)) (list ((second p)) ((first p)))`,
	`(defn o [x] (defn i [] x) (let [x 9] (i))) (list (o 1) (o 2))`,
	`(defn o [] (def x 1) (defn i [] (defn j [] x) (def x 2) (j)) (i)) (o)`,
	`(defn o [] (def x 1) (defn j [] x) (defn i [] (def x 2) (j)) (i)) (o)`,
	`(def x 0) (defn o [] (let [x 1] (newScope (def x 2) (for [(def i 0) (< i 1) (set i (+ i 1))] (def x 3) (def g (fn [] x))))) 0) (o) x`,
	`(def fs (list)) (for [(def i 0) (< i 3) (set i (+ i 1))] (newScope (def j i) (set fs (cons (fn [] j) fs)))) (map (fn [f] (f)) fs)`,
	`(def fs (list)) (defn t [n] (cond (== n 0) 0 (begin (set fs (cons (fn [] n) fs)) (t (- n 1))))) (t 3) (map (fn [f] (f)) fs)`,
	`(def fs (list)) (defn t [n] (def m (* n 10)) (cond (== n 0) 0 (begin (set fs (cons (fn [] (set m (+ m 1)) m) fs)) (t (- n 1))))) (t 3) (list (map (fn [f] (f)) fs) (map (fn [f] (f)) fs))`,
	`(def h (hash)) (defn st [x] (hset h k: (fn [] x))) (st 5) (let [x 6] ((hget h k:)))`,
	`(defn app [f x] (f)) (defn g [x] (app (fn [] x) 99)) (g 3)`,
	`(defn app [f x] (let [y 1] (f 2))) (defn g [x] (let [y 50] (app (fn [z] (list x y z)) 99))) (g 3)`,
	`(defn a [x] (fn [y] (fn [z] (fn [w] (list x y z w))))) (def x 100) (def y 200) ((((a 1) 2) 3) 4)`,
	`(defn a [x] (let [f (fn [] (set x (+ x 1)))] (f) (f) x)) (a 1)`,
	`(def x 1) (let [x 2 y x] (list x y)) `,
	`(def x 1) (letseq [x 2 y x] (list x y))`,
	`(def x 1) (let [f (fn [] x)] (let [x 2] (f)))`,
	`(defn rec [n f] (cond (== n 0) (f) (rec (- n 1) (fn [] (+ n (f)))))) (rec 4 (fn [] 0))`,
	`(defn ev [n] (cond (== n 0) true (od (- n 1)))) (defn od [n] (cond (== n 0) false (ev (- n 1)))) (let [n 100] (ev 7))`,
	`(defn f [] (set q 5)) (f) (let [q 6] (f) q)`,
	`(defn f [x] (set x 5) x) (def x 1) (f 2) x`,
	`(defn f [& x] (fn [] x)) (def g (f 1 2)) (def k (f 3)) (list (g) (k))`,
	`(defn f [x] (map (fn [y] (map (fn [z] (+ x (+ y z))) [1 2])) [10 20])) (let [x 5 y 6 z 7] (f 100))`,
}

func TestVerifC03(t *testing.T) {
	v := vBegin(t, "C03", "random programs over three integer and three function names (so that shadowing and capture collide at every level): fn, defn, let, letseq, newScope, for, begin, def and set nested up to depth 6, functions passed, returned, stored in lists and called later from scopes that bind the same names, tail recursion that makes closures; form by form and as one text against the direct reference evaluator (value, error or not, ordered log of effects); and directed programs. Non-trivial: distinct programs both evaluators ran to the end.")
	defer v.finish()
	run := func(key string, forms []string) {
		src := strings.Join(forms, "\n")
		v.at(src)
		m, ok := c02forms(forms)
		if !ok {
			v.tally("reference budget")
			return
		}
		v.count(src)
		if m != "" {
			small := c02shrink(forms, func(fs []string) bool { m, ok := c02forms(fs); return ok && m != "" })
			m2, _ := c02forms(small)
			v.fail(key, m2, strings.Join(small, "\n"))
			return
		}
		tw := newTwin()
		o, want, ok := tw.step(src)
		if ok {
			if m := tw.compare(o, want); m != "" {
				v.fail(key+"-text", m, src)
			}
			if want == "ERROR" {
				v.tally("programs ending in an error")
			}
		}
	}
	for _, d := range c03directed {
		forms := []string{}
		for _, f := range rRead(d) {
			forms = append(forms, rSrc(f))
		}
		run("directed", forms)
	}
	for i := 0; v.more(); i++ {
		s := &sgen{r: v.rng, tails: i%3 == 0}
		if i%2 == 0 {
			run("maker", append(append([]string{}, scopePrelude...), s.maker()...))
			continue
		}
		run("differs", s.program(1+v.rng.Intn(6), 2+i%5))
	}
}
