package zygo

// C01: any source text through the script-facing entry points gives a value or an
// error: no panic out of the library, no death of the process, and a return whenever
// the number of evaluation steps is bounded. Programs run in child processes of an
// unprivileged user in a scratch directory, so that a dying process is a finding
// and not the end of the check.

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

var c01Forms = []string{"and", "or", "assert", "begin", "break", "continue", "cond", "def", "defmac", "defn", "func", "fn", "for", "let", "letseq", "mdef", "macexpand", "newScope", "package", "quote", "return", "set", "syntaxQuote", "unquote", "unquote-splicing", "struct", "field", "interface", "method", "var", "infix", "infixExpand", "_ls", "hash", "defmap", "expectError", "force", "delay", "import", "include", "range", "->", "while", "if", "else", "comma", "colon", "++", "+=", ":=", "=", "**", "not", "mod", "array", "list", "apply", "map", "eval", "hget", "hset", "hdel", "aget", "aset", "slice", "append", "concat", "foldr", "json", "json2", "unjson", "msgpack", "unmsgpack", "togo", "fromgo", "str", "println", "printf", "sprintf", "type?", "source", "read", "str2sym", "sym2str", "joinsym", "gensym", "&", "*", "deref", "derefSet", "sliceOf", "ptr", "pointer", "arrayOf", "asUint64", "raw", "raw64", "regexp-compile", "regexp-find", "substr", "chomp", "split", "nsplit", "flatten", "hpair", "keys", "_method", "methodls", "_closdump", "dump", "undefined?", "defined?", "symnum", "macro?", "zero?", "first", "rest", "car", "cdr", "cons", "second", "third", "sll", "sra", "srl", "bitAnd", "bitNot", ".dot", "a.b", "__gensym1"}

// not run: they end the process or wait by their very purpose
var c01Skip = map[string]bool{"exit": true, "<!": true, "send": true, "makeChan": true, "sleep": true, "stop": true, "system": true, "sys": true, "sh": true, "setenv": true, "millis": true, "_quit": true}

var c01Vals = []string{
	"1", "0", "-1", "9223372036854775807", "-9223372036854775808", "1.5", "1e308", "NaN", "Inf", "18446744073709551615ULL", "0xff", "'a'", "'\\n'", `""`, `"abc"`, `"a.b"`, "`raw`", `"\xff"`, "true", "false", "nil", "()", "[]", "[1 2 3]", "[[1] [2 [3]]]", "{}", "(hash a:1 b:[2])", `{"k":1}`, "%a", "%(a b)", "%(a \\ b)", "(quote (1 2))", "(quote quote)", "(quote (quote))", "%()", "%.a", "%a.b.c", "%x:", "(fn [] 1)", "(fn [a & r] a)", "(fn [~x #y] x)", "+", "def", "vv", "vv.x", "aa", "aa[0]", "hh.x", "hh", "{aa[1]}", "{aa[0:1]}", "{hh.x}", "(& vv)", "(& aa)", "(* (& vv))", "pp", "cyc", "cych", "rec", "Rec", "(Rec x:1)", "(gensym)", "(raw \"ab\")", "(raw64 \"YWI=\")", "(regexp-compile \"a\")", "(now)", "int64", "string", "(sliceOf int64)", "(ptr int64)", ":", "$", ",", ";", "...", "_", "#lz", "(list 1 (list 2))", "(quote ((((()))))", "unknownSym", "(begin)", "(macroo 1)", "~x", "^(a ~x)", "@x", "(comma 1 2)", "(aget aa 1)", "(eventdemo id:1)", "(snoopy chld: (hellcat speed:1))", "(def q 1)", "{a:b}", "{1 + }", "{+}", "{a = }", "{:}", "{,}", "[,]", "(,)", "// c", "/* c */", "(/* c */)", "[:]", "[1:2]", "(:x)", "(hash 1 2 3)", "(hash [1] 2)", "(hash (quote a) 2)", "__defer", "\\", "(\\ 1)", "(1 \\ 2)", "?", "#", "%", "^", "~", "~@x", "%%%a", "^^a", "- Inf", "-5", "a-b", "a -b", "1:2", "..", ".", ".a.", "a..b", "a.", "$a.b", "0x", "0b2", "1_000", "1__", "1e", "1e999", "'", "''", "'ab'", `"`, "`", "(", ")", "[", "]", "{", "}", "/*", "*/", "\x00", "\xff\xfe", "é", "日本", "\u202e", "a:b:c", "::", ":=", "==", "!", "!=", "<-", "<!", "&&", "||", "++", "--", "**", "**=",
}

const c01Setup = `(def vv 5) (def aa [1 2 3]) (def hh (hash x:1 y:(hash z:2))) (def pp (& vv)) (def cyc [1 2]) (aset cyc 0 cyc) (def cych (hash a:1)) (hset cych a: cych) (struct Rec [(field x: int64) (field y: string)]) (def rec (Rec x:1)) (defmac macroo [x] ^(+ ~x 1)) (defn lz [#x] (fn [] #x)) (def s8 "str")`

func c01Names(env *Zlisp) []string {
	var r []string
	for _, n := range sbNames(env) {
		if !c01Skip[n] {
			r = append(r, n)
		}
	}
	for _, n := range c01Forms {
		if !c01Skip[n] {
			r = append(r, n)
		}
	}
	return r
}

type c01Gen struct {
	r      *rand.Rand
	names  []string
	corpus []string
}

func (g *c01Gen) val() string {
	switch g.r.Intn(12) {
	case 0:
		return g.call(1)
	case 1:
		return vPick(g.r, g.names)
	}
	return vPick(g.r, c01Vals)
}

func (g *c01Gen) call(d int) string {
	n := g.r.Intn(5)
	as := []string{vPick(g.r, g.names)}
	for i := 0; i < n; i++ {
		if d < 3 && g.r.Intn(6) == 0 {
			as = append(as, g.call(d+1))
		} else if g.r.Intn(9) == 0 {
			as = append(as, "["+strings.Join([]string{g.val(), g.val()}, " ")+"]")
		} else {
			as = append(as, g.val())
		}
	}
	switch g.r.Intn(14) {
	case 0:
		return "[" + strings.Join(as, " ") + "]"
	case 1:
		return "{" + strings.Join(as, " ") + "}"
	}
	return "(" + strings.Join(as, " ") + ")"
}

var c01Toks = strings.Fields("( ) [ ] { } ( ) [ ] { } + - * / ** mod not and or == != < > <= >= = := += ++ -- , ; : . .a .b a b aa hh vv x: y: 1 2 0 \"s\" 'c' ` ` /* */ // % ^ ~ ~@ ~x & $ @ # ? ! \\ for if else func fn def set let quote hash begin return break continue range package struct in label: true nil NaN Inf 1.5 1e5 0x1f 1ULL aa[0] hh.x aa[1:2] <- -> => ...")

func (g *c01Gen) soup() string {
	n := 1 + g.r.Intn(14)
	ts := make([]string, n)
	for i := range ts {
		ts[i] = vPick(g.r, c01Toks)
	}
	sep := vPick(g.r, []string{" ", "", " ", "\n"})
	s := strings.Join(ts, sep)
	switch g.r.Intn(4) {
	case 0:
		return "{" + s + "}"
	case 1:
		return "(" + s + ")"
	}
	return s
}

// braced makes an infix block of plausible shape.
func (g *c01Gen) braced(d int) string {
	atom := func() string {
		if d < 2 && g.r.Intn(5) == 0 {
			return g.braced(d + 1)
		}
		return vPick(g.r, []string{"a", "aa", "vv", "hh.x", "aa[0]", "aa[1:]", "hh.y.z", "(+ 1 2)", "3", "2.5", `"s"`, "f(1)", "(1 + 2)", "x", "nil", "true", "aa[vv]", "[1 2]", "{x:1}", "-1", "not true", "& vv", "* pp", "rec.x"})
	}
	op := func() string {
		return vPick(g.r, []string{" + ", " - ", "*", "/", " ** ", " mod ", " and ", " or ", " == ", " < ", " >= ", " != ", " = ", " := ", " += ", " -= ", ", ", "; ", "\n", "-", "+", " ++ ", ".", ":", " "})
	}
	switch g.r.Intn(8) {
	case 0:
		return "{for " + atom() + op() + atom() + "; " + atom() + op() + atom() + "; " + atom() + op() + " {" + atom() + op() + atom() + "}}"
	case 1:
		return "{if " + atom() + op() + atom() + " {" + atom() + "} else {" + atom() + op() + atom() + "}}"
	case 2:
		return "{for " + atom() + ", " + atom() + " " + vPick(g.r, []string{":=", "=", "in", ""}) + " range " + atom() + " {" + atom() + "}}"
	case 3:
		return "(func " + vPick(g.r, []string{"f", "", "g2"}) + " [" + vPick(g.r, []string{"a:int64", "a", "", "a:int64 b:string", "1"}) + "] [" + vPick(g.r, []string{"n:int64", "", "int64", "err:error"}) + "] " + atom() + ")"
	}
	s := "{" + atom()
	for i := g.r.Intn(6); i >= 0; i-- {
		s += op() + atom()
	}
	return s + "}"
}

func (g *c01Gen) mutant() string {
	s := []byte(vPick(g.r, g.corpus))
	for k := g.r.Intn(4); k >= 0 && len(s) > 0; k-- {
		i := g.r.Intn(len(s))
		switch g.r.Intn(6) {
		case 0:
			s = append(s[:i:i], s[i+1:]...)
		case 1:
			s = append(s[:i:i], append([]byte(vPick(g.r, c01Toks)), s[i:]...)...)
		case 2:
			s[i] = byte(g.r.Intn(256))
		case 3:
			j := i + g.r.Intn(min(20, len(s)-i))
			s = append(s[:i:i], s[j:]...)
		case 4:
			j := i + g.r.Intn(min(30, len(s)-i))
			s = append(s[:j:j], append(append([]byte{}, s[i:j]...), s[j:]...)...)
		case 5:
			v := g.val()
			s = append(s[:i:i], append([]byte(" "+v+" "), s[i:]...)...)
		}
	}
	return string(s)
}

func c01Monster(r *rand.Rand, n int) string {
	rep := strings.Repeat
	ms := []string{
		rep("(", n) + rep(")", n), rep("(", n), rep("[", n) + rep("]", n), rep("{", n) + rep("}", n), rep("%", n) + "a", rep("^", n) + "a", rep("~", n), rep("(begin ", n) + "1" + rep(")", n), "{" + rep("1+", n) + "1}", "{" + rep("(", n) + "1" + rep(")", n) + "}", "{" + rep("not ", n/4) + "true}", "{" + rep("2 ** ", n/4) + "1}", rep("(fn [] ", n) + "1" + rep(")", n), "{aa" + rep("[0]", n/4) + "}", "hh" + rep(".x", n), rep("{a:", n) + "1" + rep("}", n), "(cond " + rep("false 1 ", n/8) + "2)", rep("(and ", n) + "true" + rep(")", n), rep("/*", n), rep(`"`, n), "{" + rep("a = ", n/4) + "1}", "(defmac m9 [] ^(m9)) (m9)", "(defmac m9 [x] ^(begin (m9 ~x) (m9 ~x))) (m9 1)", "^" + rep("(a ", n) + rep(")", n), rep("`", n), rep("(quote ", n) + "1" + rep(")", n), rep("(let [a 1] ", n) + "1" + rep(")", n), "{" + rep("if true {", n/4) + "1" + rep("}", n/4) + "}",
		"(list " + rep("1 ", n) + ")", rep("a ", n), rep("(+ 1 2)", n/4), "(str " + rep("[", n) + rep("]", n) + ")", "{" + rep("1,", n/8) + "2}", rep("a:", n), rep(".", n), rep("-", n), rep("1", n), rep("'", n), "(defn rr [n] (rr (+ n 1))) (rr 0)", "(defn rr [n] (+ 1 (rr n))) (rr 0)", "(defn r1 [n] (r2 n)) (defn r2 [n] (+ 1 (r1 n))) (r1 0)", "(def zz []) (for [(def i 0) (< i " + fmt.Sprint(n) + ") (set i (+ i 1))] (set zz [zz])) (str zz) (type? zz) (== zz zz) (json zz)",
		"(def zz (list)) (for [(def i 0) (< i " + fmt.Sprint(n) + ") (set i (+ i 1))] (set zz (list zz))) (str zz) (== zz zz) (json zz) (eval zz)", "(def zz [1]) (for [(def i 0) (< i 60) (set i (+ i 1))] (set zz [zz zz])) (type? zz)", "(def hq (hash)) (for [(def i 0) (< i " + fmt.Sprint(n) + ") (set i (+ i 1))] (set hq (hash a: hq))) (str hq) (json hq) (msgpack hq)", "(unjson (raw \"" + rep("[", n) + rep("]", n) + "\"))", "(unmsgpack (raw \"" + rep("\x91", min(n, 3000)) + "\"))", "(read \"" + rep("(", n) + rep(")", n) + "\")", "(eval (read \"" + rep("(begin ", n) + rep(")", n) + "\"))", "(defn ev [] (eval (quote (ev)))) (ev)", "(defn ev [] (map (fn [x] (ev)) [1])) (ev)", "(defn ev [] (apply ev [])) (ev)", "(defn lzz [#x] (lzz #x)) (lzz 1)", "(defn lzz [#x] (lzz (+ 1 (force #x)))) (lzz 1)", "(defn lzz [n #x] (cond (== n 0) (force #x) (lzz (- n 1) (+ 1 (force #x))))) (lzz " + fmt.Sprint(n) + " 1)", "(def cc []) (set cc (append cc cc)) (def ff (fn [] (ff))) (ff)",
	}
	return vPick(r, ms)
}

func (g *c01Gen) program() string {
	switch k := g.r.Intn(40); {
	case k == 0:
		return c01Monster(g.r, vPick(g.r, []int{10, 200, 3000}))
	case k < 16:
		return g.call(0)
	case k < 22:
		return g.soup()
	case k < 30:
		return g.braced(0)
	case k < 33:
		return g.call(0) + "\n" + g.call(0)
	}
	return g.mutant()
}

// the ways a text gets to an interpreter
var c01Routes = []string{"EvalString", "LoadString+Run", "ParseTokens+EvalExpressions", "EvalExpressions(infix)", "macexpand", "pieces", "ReplLine", "SourceStream", "EvalString after an error", "read+eval"}

func c01Run(env *Zlisp, route int, src string) (Sexp, error) {
	switch c01Routes[route] {
	case "LoadString+Run":
		if err := env.LoadString(src); err != nil {
			return nil, err
		}
		return env.Run()
	case "ParseTokens+EvalExpressions":
		env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(src + "\n")))
		xs, err := env.parser.ParseTokens()
		if err != nil {
			return nil, err
		}
		return env.EvalExpressions(xs)
	case "EvalExpressions(infix)":
		env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(src + "\n")))
		xs, err := env.parser.ParseTokens()
		if err != nil {
			return nil, err
		}
		return env.EvalExpressions([]Sexp{MakeList([]Sexp{env.MakeSymbol("infix"), &SexpArray{Val: xs, Env: env}})})
	case "macexpand":
		return env.EvalString("(macexpand " + src + ")")
	case "pieces":
		p := env.NewParser()
		var xs []Sexp
		var err error
		for i := 0; i < len(src); i += 7 {
			p.NewInput(strings.NewReader(src[i:min(i+7, len(src))]))
			xs, err = p.ParseTokens()
			if err != nil && err != ErrMoreInputNeeded {
				return nil, err
			}
		}
		p.NewInput(strings.NewReader("\n"))
		xs, err = p.ParseTokens()
		p.Stop()
		if err != nil {
			return nil, err
		}
		return env.EvalExpressions(xs)
	case "ReplLine":
		return env.EvalString(env.ReplLineInfixWrap(src) + " ")
	case "SourceStream":
		return env.SourceStream(bytes.NewBuffer([]byte(src)))
	case "EvalString after an error":
		env.EvalString(src)
		return env.EvalString(src)
	case "read+eval":
		return env.EvalString("(eval (read " + strconv.Quote(src) + "))")
	}
	return env.EvalString(src)
}

func c01Corpus() []string {
	var r []string
	fs, _ := filepath.Glob(os.Getenv("VERIF_C01_CORPUS") + "/*.zy")
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, part := range strings.Split(string(b), "\n\n") {
			if len(part) < 1500 && !strings.Contains(part, "exit") && !strings.Contains(part, "<!") && !strings.Contains(part, "system") && !strings.Contains(part, "Chan") {
				r = append(r, part)
			}
		}
	}
	return append(r, "(def a 1)", "{a = 1 + 2}")
}

// TestVerifC01Child runs programs; it is started by TestVerifC01 in a process of its own.
func TestVerifC01Child(t *testing.T) {
	dir := os.Getenv("VERIF_C01_DIR")
	if dir == "" {
		t.Skip()
	}
	debug.SetMemoryLimit(700 << 20)
	corpus := c01Corpus()
	os.Chdir(dir)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_C01_SEED"), 10, 64)
	sec, _ := strconv.Atoi(os.Getenv("VERIF_C01_SECONDS"))
	r := rand.New(rand.NewSource(seed))
	prog, _ := os.Create(dir + "/progress")
	rep, _ := os.Create(dir + "/report")
	w := bufio.NewWriter(rep)
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	var began atomic.Int64
	mem := func() {
		for {
			time.Sleep(30 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 1500<<20 {
				os.WriteFile(dir+"/memory", nil, 0o644)
				os.Exit(9)
			}
			if at := began.Load(); at != 0 && time.Now().Unix()-at > 22 {
				b := make([]byte, 1<<20)
				os.WriteFile(dir+"/stuck", b[:runtime.Stack(b, true)], 0o644)
				os.Exit(10)
			}
		}
	}
	go mem()
	if b, err := os.ReadFile(dir + "/one"); err == nil {
		one := string(b)
		began.Store(time.Now().Unix())
		env := vNewEnv()
		vEval(env, c01Setup)
		o := vGuard(200000, func() (Sexp, error) { return env.EvalString(one) })
		if o.Panic != "" {
			fmt.Fprintf(w, "V\t%s\t%s\t%s\n", strconv.Quote(vPanicSite(o.Panic)), strconv.Quote(o.Panic), strconv.Quote(one))
		} else {
			vStr(o.Val)
		}
		fmt.Fprintf(w, "N\t1\n")
		w.Flush()
		os.Exit(3)
	}
	end := time.Now().Add(time.Duration(sec) * time.Second)
	n := 0
	for time.Now().Before(end) {
		var env *Zlisp
		if r.Intn(8) == 0 {
			env = NewZlispSandbox()
			env.StandardSetup()
		} else {
			env = vNewEnv()
		}
		vEval(env, c01Setup)
		g := &c01Gen{r: r, names: c01Names(env), corpus: corpus}
		for k := 0; k < 60 && time.Now().Before(end); k++ {
			src := g.program()
			route := 0
			if r.Intn(3) == 0 {
				route = r.Intn(len(c01Routes))
			}
			if env.sandboxed == false && strings.Contains(src, "exit") {
				continue
			}
			prog.Truncate(0)
			prog.WriteAt([]byte(fmt.Sprintf("// by %s, after: %s\n%s", c01Routes[route], c01Setup, src)), 0)
			began.Store(time.Now().Unix())
			o := vGuard(100000, func() (Sexp, error) {
				x, err := c01Run(env, route, src)
				if err != nil {
					_ = err.Error()
				} else if x != nil {
					_ = x.SexpString(nil)
				}
				return x, err
			})
			n++
			if n%13 == 0 {
				fmt.Fprintf(w, "S\t%s\t%s\n", strconv.Quote(src), o.kindOnly())
			}
			if o.Panic != "" {
				fmt.Fprintf(w, "V\t%s\t%s\t%s\n", strconv.Quote(vPanicSite(o.Panic)), strconv.Quote(o.Panic), strconv.Quote(fmt.Sprintf("// by %s\n%s", c01Routes[route], src)))
				break
			}
			if o.Err == nil && o.Val == nil && route != 7 {
				fmt.Fprintf(w, "V\t%s\t%s\t%s\n", strconv.Quote("nil"), strconv.Quote("neither a value nor an error came back"), strconv.Quote(fmt.Sprintf("// by %s\n%s", c01Routes[route], src)))
			}
			if o.Err != nil {
				env.Clear()
			}
			if o.Over {
				break
			}
		}
	}
	fmt.Fprintf(w, "N\t%d\n", n)
	w.Flush()
	os.Exit(3)
}

func (o vOut) kindOnly() string {
	switch {
	case o.Panic != "":
		return "panic"
	case o.Over:
		return "budget"
	case o.Err != nil:
		return "error"
	}
	return "value"
}

type c01Result struct {
	viol    [][3]string
	n       int
	samples [][2]string
	mem     bool
}

// c01Frames picks the library's own functions out of a stack dump.
func c01Frames(dump []byte) (string, string) {
	var fr []string
	key := ""
	for _, l := range strings.Split(string(dump), "\n") {
		if !strings.HasPrefix(l, "github.com/glycerine/zygomys") || strings.Contains(l, "TestVerif") || strings.Contains(l, "vGuard") || strings.Contains(l, "c01Run") {
			continue
		}
		f := l[strings.LastIndexByte(l[:max(0, strings.IndexByte(l, '('))+1], '/')+1:]
		if i := strings.LastIndexByte(l, '('); i > 0 {
			f = l[strings.LastIndexByte(l[:i], '/')+1 : i]
		}
		if key == "" {
			key = f
		}
		if len(fr) < 20 {
			fr = append(fr, f)
		}
	}
	return key, strings.Join(fr, " < ")
}

// c01Child runs one child process; stdin, if set, goes to the command line's own main.
func c01Child(bin, corpus string, seed int64, sec int, cli []string, stdin, one string) (res c01Result) {
	dir, err := os.MkdirTemp("", "c01-")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	log, _ := os.Create(filepath.Join(dir, "child.log"))
	if one != "" {
		os.WriteFile(dir+"/one", []byte(one), 0o644)
	}
	defer log.Close()
	var c *exec.Cmd
	if cli != nil {
		c = exec.Command(bin, append([]string{"-test.run", "^TestVerifC01Main$", "--"}, cli...)...)
	} else {
		c = exec.Command(bin, "-test.run", "^TestVerifC01Child$")
	}
	c.Dir = dir
	c.Env = []string{"VERIF_C01_DIR=" + dir, "VERIF_C01_CORPUS=" + corpus, "VERIF_C01_SEED=" + fmt.Sprint(seed), fmt.Sprintf("VERIF_C01_SECONDS=%d", sec), "PATH=/nonexistent", "HOME=" + dir, "GOMAXPROCS=2"}
	c.Stdin = strings.NewReader(stdin)
	c.Stdout, c.Stderr = log, log
	if os.Getuid() == 0 {
		os.Chown(dir, 65534, 65534)
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	if err := c.Start(); err != nil {
		res.viol = append(res.viol, [3]string{"setup", err.Error(), ""})
		return
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	timeout := false
	select {
	case <-done:
	case <-time.After(time.Duration(sec+30) * time.Second):
		timeout = true
		c.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			c.Process.Kill()
			<-done
		}
	}
	cur, _ := os.ReadFile(dir + "/progress")
	out, _ := os.ReadFile(dir + "/child.log")
	tail := string(out[:min(len(out), 2500)])
	if _, err := os.Stat(dir + "/memory"); err == nil {
		res.mem = true
	}
	code := c.ProcessState.ExitCode()
	if cli != nil {
		res.n = 1
		if timeout {
			return // bounded steps cannot be told here
		}
		if bytes.Contains(out, []byte("goroutine 1 [")) || bytes.Contains(out, []byte("panic: ")) || code == 2 {
			res.viol = append(res.viol, [3]string{"main", "the command line ended by a Go panic\n" + tail, strings.Join(cli, " ") + "\n" + stdin})
		}
		return
	}
	switch {
	case timeout || code == 10:
		if st, err := os.ReadFile(dir + "/stuck"); err == nil {
			out = st
		}
		k, fr := c01Frames(out)
		res.viol = append(res.viol, [3]string{"no-return " + k, "the call did not return within 22 s although the number of evaluation steps is bounded\n" + fr, string(cur)})
	case code == 3 || res.mem:
	default:
		k, fr := c01Frames(out)
		res.viol = append(res.viol, [3]string{"death " + k, fmt.Sprintf("the process ended (exit code %d)\n%s\n%s", code, tail[:min(400, len(tail))], fr), string(cur)})
	}
	rep, _ := os.ReadFile(dir + "/report")
	for _, l := range strings.Split(string(rep), "\n") {
		f := strings.Split(l, "\t")
		switch {
		case f[0] == "V" && len(f) == 4:
			var x [3]string
			for i := range x {
				x[i], _ = strconv.Unquote(f[i+1])
			}
			res.viol = append(res.viol, x)
		case f[0] == "N" && len(f) == 2:
			res.n, _ = strconv.Atoi(f[1])
		case f[0] == "S" && len(f) == 3:
			s, _ := strconv.Unquote(f[1])
			res.samples = append(res.samples, [2]string{s, f[2]})
		}
	}
	return
}

// TestVerifC01Main is the command line's main, in a child process.
func TestVerifC01Main(t *testing.T) {
	if os.Getenv("VERIF_C01_DIR") == "" {
		t.Skip()
	}
	var args []string
	for i, a := range os.Args {
		if a == "--" {
			args = os.Args[i+1:]
		}
	}
	VerifStepHook = func() func(env *Zlisp) error {
		n := 0
		return func(env *Zlisp) error {
			n++
			if n > 100000 {
				return vBudget{}
			}
			return nil
		}
	}()
	cfg := NewZlispConfig("zygo")
	cfg.DefineFlags()
	cfg.Flags.Parse(args)
	cfg.ValidateConfig()
	ReplMain(cfg)
}

func TestVerifC01(t *testing.T) {
	v := vBegin(t, "C01", "source texts: every bound name, reserved word and special form with 0 to 4 arguments out of 150 (values of every kind, cyclic ones, malformed ones), token soup, infix blocks, mutations of the repository's own scripts (bytes, tokens, spans), 60 shapes of deep nesting and unbounded recursion at sizes 10 to 200000; by ten routes (EvalString, LoadString+Run, ParseTokens+EvalExpressions, infix wrapping, macexpand, in pieces, REPL line, SourceStream, again after an error, read+eval), and the command line's main with -c and with the text on the REPL's stdin; in child processes of an unprivileged user in a scratch directory, with a step budget. A Go panic out of a call or while printing its result or error, the death of the process, neither a value nor an error, or no return within 22 s under the step budget is a violation. Non-trivial: distinct programs (one in thirteen is recorded).")
	v.caseMax = 80 * time.Second
	defer v.finish()
	self, _ := os.Executable()
	b, _ := os.ReadFile(self)
	bdir, err := os.MkdirTemp("", "c01bin-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(bdir)
	os.Chmod(bdir, 0o755)
	bin := filepath.Join(bdir, "child")
	os.WriteFile(bin, b, 0o755)
	corpus := filepath.Join(bdir, "corpus")
	os.Mkdir(corpus, 0o755)
	fs, _ := filepath.Glob(os.Getenv("VERIF_REPO") + "/tests/*.zy")
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		os.WriteFile(filepath.Join(corpus, filepath.Base(f)), b, 0o644)
	}
	total, memn := 0, 0
	collect := func(x c01Result) {
		total += x.n
		if x.mem {
			memn++
		}
		for _, f := range x.viol {
			v.fail(f[0], f[1], f[2])
		}
		for _, s := range x.samples {
			v.count(s[0])
			v.tally("outcome " + s[1])
		}
	}
	// the deep ones, one process each
	seed := v.seed * 100000
	type job struct {
		cli        []string
		stdin, one string
		sec        int
	}
	run := func(js []job) {
		ch := make(chan c01Result, len(js))
		sem := make(chan bool, 7)
		for _, j := range js {
			seed++
			go func(j job, seed int64) {
				sem <- true
				ch <- c01Child(bin, corpus, seed, j.sec, j.cli, j.stdin, j.one)
				<-sem
			}(j, seed)
		}
		for range js {
			collect(<-ch)
		}
	}
	r := v.rng
	env := vNewEnv()
	g := &c01Gen{r: r, names: c01Names(env), corpus: []string{"(def a 1)"}}
	for round := 0; v.more(); round++ {
		v.at(fmt.Sprintf("round %d", round))
		var js []job
		for k := 0; k < 7; k++ {
			js = append(js, job{sec: 3})
		}
		for k := 0; k < 6; k++ {
			js = append(js, job{one: c01Monster(r, 20000)})
		}
		for k := 0; k < 3; k++ {
			var lines []string
			for i := 0; i < 25; i++ {
				l := g.program()
				if strings.Contains(l, "exit") || strings.Contains(l, "\x00") {
					continue
				}
				lines = append(lines, vPick(r, []string{"", "", "", "", "", "", "& ", "* ", ".dump ", ".ls ", ".gls ", ".debug ", ".verb "})+l)
				if i%8 == 7 {
					lines = append(lines, ")", "]", "}", "`", "*/")
				}
			}
			js = append(js, job{cli: []string{"-no-liner", "-quiet"}, stdin: strings.Join(lines, "\n") + "\n"})
			src := g.program()
			if !strings.Contains(src, "exit") && !strings.Contains(src, "\x00") {
				js = append(js, job{cli: []string{"-exitonfail", "-c", src}})
			}
		}
		run(js)
	}
	v.mu.Lock()
	v.res.Evals = max(v.res.Evals, total)
	v.res.Counts["programs run"] = total
	v.res.Counts["children ended for using too much memory (doubling data; not judged)"] = memn
	v.mu.Unlock()
}
