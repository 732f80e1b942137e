package zygo

// Directed programs for the reference comparison.
var c02directed = []string{
	`(def f (fn [x] (note 1 x))) ((begin (note 0) f) (note 2 3))`,
	`(+ (note 1 1) (note 2 2) (note 3 3))`,
	`[(note 1 1) (note 2 2) (note 3 3)]`,
	`(hash ka: (note 1 1) kb: (note 2 2))`,
	`(def i0 0) (+ i0 (begin (set i0 5) i0) i0)`,
	`(let [a (note 1 1) b (note 2 2)] (note 3 (+ a b)))`,
	`(cond (note 1 false) (note 2 2) (note 3 0) (note 4 4) (note 5 nil) (note 6 6) (note 7 7))`,
	`(and (note 1 1) (note 2 0) (note 3 3))`,
	`(or (note 1 0) (note 2 nil) (note 3 false))`,
	`(or (note 1 0) (note 2 5) (note 3 false))`,
	`(and 1 2 3) (or nil 0 false 7) (and (list) 1)`,
	`(for outer: [(def i 0) (< i 3) (set i (+ i 1))] (for inner: [(def j 0) (< j 3) (set j (+ j 1))] (cond (== j 1) (continue outer:) nil) (note i j)))`,
	`(for outer: [(def i 0) (< i 3) (set i (+ i 1))] (for [(def j 0) (< j 3) (set j (+ j 1))] (cond (== i 1) (break outer:) (== j 2) (break) nil) (note i j)))`,
	`(for [(def i 0) (< i 5) (set i (+ i 1))] (let [x i] (newScope (cond (== x 2) (continue) (== x 4) (break) nil)) (note x)))`,
	`(def s 0) (for [(def i 0) (< i 5) (set i (+ i 1))] (for [(def i 10) (< i 12) (set i (+ i 1))] (set s (+ s i)))) s`,
	`(def fs []) (for [(def i 0) (< i 3) (set i (+ i 1))] (let [k i] (set fs (append fs (fn [] (set k (+ k 10)) k))))) (list ((aget fs 0)) ((aget fs 1)) ((aget fs 0)) ((aget fs 2)))`,
	`(def fs []) (for [(def i 0) (< i 3) (set i (+ i 1))] (set fs (append fs (fn [] i)))) (map (fn [f] (f)) fs)`,
	`(defn mk [n] (def c n) (list (fn [] (set c (+ c 1)) c) (fn [] c))) (def p (mk 5)) ((first p)) ((first p)) (def q (mk 7)) ((first q)) (list ((second p)) ((second q)))`,
	`(defn f [n] (cond (== n 0) 0 (+ n (f (- n 1))))) (f 20)`,
	`(defn f [n acc] (cond (== n 0) acc (f (- n 1) (+ acc n)))) (f 200 0)`,
	`(defn ev [n] (cond (== n 0) true (od (- n 1)))) (defn od [n] (cond (== n 0) false (ev (- n 1)))) (list (ev 10) (ev 7))`,
	`(defn f [a & r] (list a r)) (list (f 1) (f 1 2) (f 1 2 3))`,
	`(defn f [& r] (len r)) (list (f) (f 1) (f nil nil))`,
	`(map (fn [x] (note x)) [3 1 2]) (map (fn [x] (note x)) (list 3 1 2))`,
	`(apply (fn [a b c] (- a b c)) [10 3 2]) (apply + (list 1 2 3))`,
	`(defn g [x] (set i0 (+ i0 x)) i0) (def i0 0) (list (g 1) (g 2) i0)`,
	`(def i0 1) (defn f [] i0) (defn h [i0] (f)) (h 9)`,
	`(def i0 1) (defn f [] (def i0 2) (fn [] i0)) (def g (f)) (let [i0 3] (g))`,
	`(def i0 1) (let [i0 2] (set i0 3) (note i0)) i0`,
	`(def i0 1) (newScope (def i0 2) (newScope (set i0 3)) (note i0)) i0`,
	`(def a [1 2]) (def b a) (aset b 0 9) a`,
	`(def h (hash ka: 1)) (def g h) (hset g kb: 2) h`,
	`(def a [1]) (def b (append a 2)) (def c (append b 3)) (def d (append b 4)) (list a b c d)`,
	`(def a [1 2 3]) (def b (concat a [])) (aset b 0 9) (list a b)`,
	`(defn f [] (g)) (defn g [] nosuch) (f)`,
	`(note 1) (+ (note 2 1) nosuch (note 3 1))`,
	`((fn [a b] a) (note 1 1))`,
	`(nosuchfn (note 1 1))`,
	`(def x (cond false 1 (note 1 2))) x`,
	`(begin) (def y (begin 1 2 3)) y`,
	`(def x 1) (def x 2) (set x 3) x`,
	`(let [x 1] (def y 2) (+ x y)) y`,
	`(newScope (def zz 2)) zz`,
	`(set nw 3) nw`,
	`(newScope (set nw 3)) nw`,
	`(mdef p q (list 1 2)) (list q p)`,
	`(letseq [a 1 b (+ a 1) c (* b 3)] (list a b c))`,
	`(letseq [a 1 a (+ a 1)] a)`,
	`(def f (fn [n] (cond (< n 1) (list) (cons n (f (- n 1)))))) (f 4)`,
	`(defn f [n] (let [k n] (cond (== k 0) (list) (cons (fn [] k) (f (- k 1)))))) (map (fn [g] (g)) (f 4))`,
	`(defn f [n acc] (let [k n] (cond (== k 0) acc (f (- k 1) (cons (fn [] k) acc))))) (map (fn [g] (g)) (f 4 (list)))`,
	`(defn f [n acc] (cond (== n 0) acc (begin (def z (* n 2)) (f (- n 1) (cons (fn [] (set z (+ z 1)) z) acc))))) (def fs (f 3 (list))) (list ((first fs)) ((first fs)) ((second fs)))`,
	`(defn outer [] (defn inner [x] (* x 2)) (inner 4)) (outer)`,
	`(defn f [x] (for [(def i 0) (< i x) (set i (+ i 1))] (cond (== i 2) (break) nil)) x) (list (f 1) (f 5))`,
	`(defn f [x] (for [(def i 0) (< i 3) (set i (+ i 1))] (def x (+ x i))) x) (f 5)`,
	`(defn f [n] (for [(def i 0) (< i n) (set i (+ i 1))] (cond (== n 1) nil (f (- n 1))) (note n i))) (f 3)`,
	`(def f (fn [g n] (cond (== n 0) (g n) (f (fn [y] (+ 1 (g y))) (- n 1))))) (f (fn [z] z) 5)`,
	`(def fact (fn [n] (cond (<= n 1) 1 (* n (fact (- n 1)))))) (def other fact) (def fact (fn [n] 7)) (other 3)`,
	`(eval (quote (+ 1 (note 1 2))))`,
	`(def i0 5) (let [i0 6] (eval (quote (+ i0 1))))`,
	`(map (fn [x] (cond (== x 2) nosuch (note x))) [1 2 3])`,
	`(first (rest (list 1 2 3))) (rest (list 1)) (rest [1 2]) (cons 1 2)`,
	`(/ 7 2) (/ 6 3) (/ 7 0)`,
	`(mod 7 0)`,
	`(+ 1 2.5) (* 2 0.5) (- 1 0.25 2)`,
	`(< "a" "b") (== "a" "a") (concat "a" "b" "c") (len "hello")`,
	`(hget (hash ka: 1) kb: 7) (hget (hash ka: 1) kb:)`,
	`(def h (hash ka: 1 kb: 2)) (hdel h ka:) (hset h ka: 3) (keys h)`,
	`(assert (== 1 1)) (assert (== 1 2))`,
	`(cond nil 1 (list) 2 "" 3 4)`,
	`(def acc []) (for [(def i 0) (< i 3) (set i (+ i 1))] (set acc (append acc (cond (== i 1) (let [q 5] q) i)))) acc`,
	`(for lab: [(def i 0) (< i 2) (set i (+ i 1))] (let [a 1 b 2] (letseq [c 3] (for [(def j 0) (< j 2) (set j (+ j 1))] (newScope (cond (== j 1) (continue lab:) (note i j)))))))`,
	`(def i0 3) (defn f [] (set i0 (- i0 1)) i0) (for [nil (f) nil] (note i0))`,
	`(defn f [] (let [x 1] (let [y 2] (fn [] (set x (+ x y)) x)))) (def g (f)) (list (g) (g) (g))`,
	`(defn f [x] (let [x (+ x 1)] (let [x (* x 2)] (fn [] x)))) ((f 3))`,
	`(def tot 0) (map (fn [x] (map (fn [y] (set tot (+ tot (* x y)))) [1 2])) [3 4]) tot`,
	`(defn cnt [] (def n 0) (fn [] (set n (+ n 1)) n)) (def a (cnt)) (def b (cnt)) (list (a) (a) (b) (a) (b))`,
	`(defn f [k] (cond (== k 0) (note 0) (begin (f (- k 1)) (note k)))) (f 3)`,
	`(and (note 1 true) (or (note 2 false) (and (note 3 1) (note 4 nil))) (note 5 1))`,
	`(not (and 1 0)) (not (or 0 nil))`,
	`(let [f (fn [x] (* x x))] (list (f 2) (apply f [3]) (map f [4])))`,
	`(defn comp [f g] (fn [x] (f (g x)))) ((comp (fn [a] (+ a 1)) (fn [b] (* b 10))) 4)`,
	`(def h (hash ka: (fn [x] (+ x 1)))) ((hget h ka:) 4)`,
	`(defn f [a b] (- a b)) (f (begin (note 1) 5) (begin (note 2) 3))`,
	`(defn f [x] (set x (+ x 1)) x) (def x 10) (list (f x) x)`,
	`(def x 10) (defn f [] (def x 20) (set x 30) x) (list (f) x)`,
	`(def x 10) (defn f [] (set x 30) (def x 20) x) (list (f) x)`,
	`(for [(def i 0) (< i 2) (set i (+ i 1))] (def t i) (note t)) t`,
}
