package zygo

import (
	"regexp"
	"strings"
)

// vForms: one self-contained expression for every kind of form of the whole
// language; each can be evaluated any number of times in one interpreter with
// the same value. vSetup is evaluated once before them.
const vSetup = `
(defmac mmid [a] ^(begin ~a))
(defmac mmtwo [a b] ^(list ~a ~@b))
(defn lzy [#a] (force #a))
(defn lzsub [#a] (substitute #a))
(defn idf [x] x)
(defn va [a & r] (list a r))
(defn ffact [n] (cond (<= n 1) 1 (* n (ffact (- n 1)))))
(defn ttail [n acc] (cond (== n 0) acc (ttail (- n 1) (+ acc n))))
(struct Rec [(field A: int64) (field B: string)])
(def garr [10 20 30])
(def ghash (hash ka: 1 kb: (hash kc: [7 8 9])))
(def gsym (quote someName))
(def gstr "hey")
(def grec (Rec A: 5 B: "bee"))
(def gpkg (package pp { Vis := 4; inv := 5; (defn Get [] inv) ; Sub := (package qq { Deep := 6 }) }))
(def gfn (fn [a] (+ a 1)))
(def gnum 40)
`

var vForms = []string{
	`1`, `-2.5`, `"str"`, `'c'`, `nil`, `true`, `sym:`, `()`, `[]`, `%q1`, `(quote (a b [c]))`, `0x1f`, "`raw`",
	`gnum`, `garr`, `ghash`, `grec`, `gstr`,
	`(+ 1 2)`, `(- 10 2 3)`, `(* 2 3.5)`, `(/ 9 3)`, `(mod 9 4)`, `(** 2 5)`, `(bitAnd 6 3)`, `(sll 1 4)`, `(< 1 2)`, `(== "a" "a")`, `(not 0)`,
	`(begin)`, `(begin 1 2 3)`, `(cond true 1 2)`, `(cond false 1 2)`, `(cond (== 1 2) 1 (== 1 1) 5 9)`, `(and 1 2)`, `(or 0 nil 3)`, `(and 1 0 (idf 3))`,
	`(let [a 1] a)`, `(let [a 1 b 2] (+ a b))`, `(let [] 3)`, `(let [a 1] a (begin) 7)`, `(letseq [a 1 b (+ a 1)] (* a b))`, `(letseq [a 1] (let [a 2 c a] (list a c)))`,
	`(newScope)`, `(newScope 1 2)`, `(newScope (def w 3) (+ w 1))`, `(let [a 1] (newScope (def a 2)) a)`,
	`(def dd1 5)`, `(set gnum 40)`, `(mdef m1 m2 (list 1 2))`, `{dm3, dm4 = 3, 4}`, `{dm5 := 7}`, `{gnum = 40}`,
	`(fn [x] x)`, `((fn [x] (+ x 1)) 4)`, `((fn [] 1 2 3))`, `(defn loc1 [x] x)`, `(begin (defn loc2 [x] (* x x)) (loc2 7))`, `(va 1)`, `(va 1 2 3)`, `(ffact 10)`, `(ttail 30 0)`, `(idf (idf 3))`, `(gfn 3)`,
	`((begin (def hh (fn [a b] (- a b))) hh) 9 4)`, `((fn [n] (cond (== n 0) (return 5) (begin (return 6) 7))) 0)`, `((fn [n] (let [q 1] (for [(def i 0) (< i 5) (def i (+ i 1))] (cond (== i n) (return (+ i 100)) nil))) 3) 2)`,
	`(for [(def i 0) (< i 3) (def i (+ i 1))] i)`, `(for [(def i 0) (< i 0) (def i (+ i 1))] i)`, `(for [(def i 0) (< i 3) (def i (+ i 1))] (idf i) (cond (== i 1) (break) nil) (list i))`, `(for outer: [(def i 0) (< i 3) (def i (+ i 1))] (let [z i] (for [(def j 0) (< j 3) (def j (+ j 1))] (newScope (cond (== j 1) (continue outer:) (== i 2) (break outer:) nil)) j)))`,
	`(for [(def i 0) (< i 3) (def i (+ i 1))])`, `(let [acc []] (for [(def i 0) (< i 3) (def i (+ i 1))] (set acc (append acc i))) acc)`,
	`{for k := range garr { k } }`, `{for k, v := range ghash { k; v } }`, `{ i := 0; for i < 3 { i = i + 1 } }`, `{for i := 0; i < 4; i++ { if i == 2 { break } ; i } }`, `{ if gnum > 3 { 1 } else { 2 } }`, `{ if gnum < 3 { 1 } }`,
	`{ 1 + 2 * 3 }`, `{ garr[1] }`, `{ ghash.kb.kc[0] }`, `{ gnum == 40 and true }`, `{ -gnum }`, `{ not true }`, `{ 2 ** 3 ** 1 }`, `{ garr[0:2] }`, `{ x1 = [1 2]; x1[0] = 5; x1 }`, `{ 1; 2; 3 }`, `{}`, `{ (idf 3) + (idf 4) }`, `{ q7 := 3; q7++; q7 }`, `{ q8 := 3; q8 += 4; q8 }`,
	`(infix [1 + 2])`, `(infixExpand {1 + 2})`,
	`(aget garr 1)`, `(:1 garr)`, `(aset [1 2] 0 3)`, `(hget ghash ka:)`, `(hset (hash) a: 1)`, `(hdel (hash a: 1) a:)`, `(keys ghash)`, `(hpair ghash 0)`, `(-> ghash kb: kc:)`, `(slice garr 0 2)`, `(len garr)`, `(append garr 4)`, `(appendslice garr [5])`, `(concat "a" "b")`, `(cons 1 (list 2))`, `(first garr)`, `(rest (list 1 2))`, `(list 1 "a" [2])`, `(array 1 2)`, `(makeArray 3 0)`, `(hash a: 1 b: [2])`, `{a: 1 "b": 2}`,
	`(apply + [1 2 3])`, `(apply (fn [& r] r) (list 1 2))`, `(map (fn [x] (* x x)) [1 2 3])`, `(map gfn (list 1 2))`, `(map car (list (list 1 2)))`,
	`(eval (quote (+ 1 2)))`, `(eval (quote (begin)))`, `(eval 5)`, `(eval (quote (for [(def i 0) (< i 2) (def i (+ i 1))] i)))`,
	`^(a b)`, `^(a ~gnum ~@(list 1 2))`, `^[1 ~gnum ~@(list 2 3)]`, `^~gnum`, `(mmid 3)`, `(mmid (begin 1 2))`, `(mmtwo 1 (2 3))`, `(macexpand (mmid 3))`, `(defmac mloc [a] ^(list ~a ~a))`, `(begin (defmac mloc2 [a] ^(list ~a ~a)) (quote done))`, `(syntaxQuote (a b))`,
	`(lzy 3)`, `(lzy (+ 1 (idf 2)))`, `(lzsub (+ 1 2))`, `(lzy (for [(def i 0) (< i 2) (def i (+ i 1))] i))`, `(apply lzy (list 3))`, `(map lzy [1 2])`,
	`(assert true)`, "(expectError \"symbol `nosuchname` not found\" (idf nosuchname))", `(type? 1)`, `(str 12)`, `(sprintf "%d-%s" 1 "x")`, `(raw2str (json (hash a: 1)))`, `(unjson (json (hash a: 1)))`, `(unmsgpack (msgpack (hash a: 1)))`, `(read "(a b)")`, `(base64 (raw "hi"))`, `(raw2str (raw "hi"))`, `(nsplit "a b")`, `(trim " a ")`, `(chomp "a")`, `(str2sym "abc")`, `(sym2str (quote abc))`, `(joinsym (quote a) (quote b))`,
	`(struct Rec2 [(field X: int64)])`, `(begin (struct Rec3 [(field X: int64)]) (Rec3 X: 4))`, `(Rec A: 1 B: "x")`, `grec.A`, `{grec.A = 5}`, `(set grec.A 5)`, `(hget grec A:)`, `(func fdecl [a:int64] [r:int64])`, `(interface Ifc [])`, `(var vv1 int64)`, `(sliceOf int64)`, `(ptr int64)`,
	`gpkg.Vis`, `(gpkg.Get)`, `gpkg.Sub.Deep`, `(begin (def pk3 (package pk2 { A := 1 })) pk3.A)`, `(begin (& grec) 4)`, `(deref (& grec))`, `(* (& grec))`, `(derefSet (& grec) (Rec A: 5 B: "bee"))`,
	`(regexpMatch (regexpCompile "a+") "caat")`, `(quotelist (list 1 2))`, `(arrayidx garr [1])`, `(: 1 garr)`, `(comma 1 2)`, `(field A: int64)`, `(isnan NaN)`, `(type? (fn [] 1))`, `(symnum (quote car))`,
}

var vNoise = regexp.MustCompile(` /\*\((array|hash)Selector[^*]*\*/|0x[0-9a-f]+|\s+`)

// vPlain is the printed form without addresses, selector comments and layout.
func vPlain(x Sexp) string {
	return vPlainText(vStr(x))
}

func vPlainText(s string) string {
	s = strings.TrimSpace(vNoise.ReplaceAllString(s, " "))
	return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "( ", "("), "[ ", "["), " )", ")"), " ]", "]"), "\n", "")
}

// vContexts place a form where its value is used; each gives back that value
// (as the one printed by the want format).
var vContexts = []struct{ name, src, want string }{
	{"top", `%s`, `%s`},
	{"argument", `(list 11 %s 22)`, `(11 %s 22)`},
	{"array", `[11 %s 22]`, `[11 %s 22]`},
	{"nested argument", `(list 1 (list 2 %s) 3)`, `(1 (2 %s) 3)`},
	{"let value", `(list 7 (let [zz1 %s zz2 8] (list zz1 zz2)))`, `(7 (%s 8))`},
	{"let body", `(list 7 (let [zz1 3] (list zz1) %s))`, `(7 %s)`},
	{"letseq body", `(list 7 (letseq [zz1 3 zz2 zz1] %s))`, `(7 %s)`},
	{"newScope", `(list 7 (newScope (def zz1 1) %s))`, `(7 %s)`},
	{"function", `(list 7 ((fn [] %s)) 8)`, `(7 %s 8)`},
	{"function middle", `(list 7 ((fn [] %s 5)) 8)`, `(7 5 8)`},
	{"named function", `(begin (defn zzf [zz1] (list zz1 %s)) (list (zzf 1) 2))`, `((1 %s) 2)`},
	{"begin", `(list 7 (begin 1 %s))`, `(7 %s)`},
	{"begin middle", `(list 7 (begin 1 %s 9))`, `(7 9)`},
	{"cond arm", `(list 7 (cond false 1 true %s 0) 8)`, `(7 %s 8)`},
	{"cond default", `(list 7 (cond false 1 %s) 8)`, `(7 %s 8)`},
	{"and last", `(list 7 (and 1 %s) 8)`, `(7 %s 8)`},
	{"or last", `(list 7 (or false %s) 8)`, `(7 %s 8)`},
	{"loop body", `(list 7 (begin (def zzr 0) (for [(def zzi 0) (< zzi 3) (def zzi (+ zzi 1))] %s (set zzr (+ zzr 1))) zzr) 8)`, `(7 3 8)`},
	{"loop value", `(list 7 (let [zzr []] (for [(def zzi 0) (< zzi 2) (def zzi (+ zzi 1))] (set zzr (list zzr %s))) (second zzr)) 8)`, `(7 %s 8)`},
	{"lazy argument", `(list 7 (lzy %s) 8)`, `(7 %s 8)`},
	{"eval", `(list 7 (eval (quote %s)) 8)`, `(7 %s 8)`},
	{"mapped", `(list 7 (map (fn [zzu] %s) (list 1)) 8)`, `(7 (%s) 8)`},
	{"applied", `(list 7 (apply (fn [zzu] %s) [1]) 8)`, `(7 %s 8)`},
	{"macro argument", `(list 7 (mmid %s) 8)`, `(7 %s 8)`},
	{"returned", `(list 7 ((fn [] (let [zz1 1] (return %s)))) 8)`, `(7 %s 8)`},
	{"infix", `(list 7 {zz9 := 1; %s} 8)`, `(7 %s 8)`},
}
