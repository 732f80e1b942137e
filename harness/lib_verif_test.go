package zygo

// Shared part of the in-package replay / witness-search harness. It is put
// into the package with 'go test -overlay'; nothing of it lives in /repo.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vViol struct {
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Replay string `json:"replay"`
}

type vResult struct {
	Property string            `json:"property"`
	Evals    int               `json:"evaluations"`
	Distinct int               `json:"distinct_nontrivial"`
	Rule     string            `json:"rule"`
	Samples  []string          `json:"samples"`
	Viol     []vViol           `json:"violations"`
	Counts   map[string]int    `json:"counts"`
	Notes    map[string]string `json:"notes"`
	Done     bool              `json:"done"`
}

type vRun struct {
	t        *testing.T
	mu       sync.Mutex
	res      vResult
	rng      *rand.Rand
	seed     int64
	thorough bool
	start    time.Time
	budget   time.Duration
	distinct map[uint64]struct{}
	dir      string
	cur      string
	curStart time.Time
	caseMax  time.Duration
	perKey   map[string]int
	stop     chan struct{}
}

func vBegin(t *testing.T, prop, rule string) *vRun {
	if os.Getenv("VERIF_PROP") != prop {
		t.Skip("not selected")
	}
	v := &vRun{t: t, start: time.Now(), distinct: map[uint64]struct{}{}, perKey: map[string]int{}, caseMax: 25 * time.Second, stop: make(chan struct{})}
	v.res = vResult{Property: prop, Rule: rule, Counts: map[string]int{}, Notes: map[string]string{}}
	v.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v.rng = rand.New(rand.NewSource(v.seed*7919 + 13))
	v.thorough = os.Getenv("VERIF_TIER") == "thorough"
	sec, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if sec == 0 {
		sec = 30
	}
	v.budget = time.Duration(sec) * time.Second
	v.dir = os.Getenv("VERIF_OUT")
	debug.SetMemoryLimit(6 << 30)
	go v.watchdog()
	return v
}

func (v *vRun) watchdog() {
	for {
		select {
		case <-v.stop:
			return
		case <-time.After(500 * time.Millisecond):
		}
		v.mu.Lock()
		if v.cur != "" && time.Since(v.curStart) > v.caseMax {
			cur := v.cur
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			v.res.Viol = append(v.res.Viol, vViol{"no-return", "the call did not return within " + v.caseMax.String() + "\n" + string(buf[:min(n, 6000)]), cur})
			v.write(true)
			os.Exit(0)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 8<<30 {
			v.res.Viol = append(v.res.Viol, vViol{"memory", "more than 8 GB of live heap while running this case", v.cur})
			v.write(true)
			os.Exit(0)
		}
		v.mu.Unlock()
	}
}

// at records the case about to run, so that a crash of the process can be
// attributed to it.
func (v *vRun) at(desc string) {
	v.mu.Lock()
	v.cur, v.curStart = desc, time.Now()
	v.mu.Unlock()
	if v.dir != "" {
		os.WriteFile(filepath.Join(v.dir, "current"), []byte(desc), 0o644)
	}
}

// count records one evaluated case; key identifies it for distinctness.
func (v *vRun) count(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	v.mu.Lock()
	v.res.Evals++
	v.distinct[h.Sum64()] = struct{}{}
	if len(v.res.Samples) < 12 && (v.res.Evals < 4 || v.rng.Intn(200) == 0) {
		v.res.Samples = append(v.res.Samples, key)
	}
	v.mu.Unlock()
}

func (v *vRun) tally(k string) { v.mu.Lock(); v.res.Counts[k]++; v.mu.Unlock() }

// fail reports a violation; at most 3 per key are kept.
func (v *vRun) fail(key, msg, replay string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.perKey[key]++
	if v.perKey[key] > 3 || len(v.res.Viol) > 60 {
		return
	}
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	v.res.Viol = append(v.res.Viol, vViol{key, msg, replay})
}

func (v *vRun) more() bool { return time.Since(v.start) < v.budget }

// frac reports whether the given fraction of the time budget is still unused.
func (v *vRun) frac(f float64) bool {
	return time.Since(v.start) < time.Duration(float64(v.budget)*f)
}

func (v *vRun) write(done bool) {
	v.res.Distinct = len(v.distinct)
	v.res.Done = done
	b, _ := json.MarshalIndent(v.res, "", " ")
	if v.dir != "" {
		os.WriteFile(filepath.Join(v.dir, "result.json"), b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

// finish is deferred: a panic that reaches it comes out of a direct call of the code under test.
func (v *vRun) finish() {
	if r := recover(); r != nil {
		v.fail("panic", fmt.Sprintf("panic: %v; running %s\n%s", r, v.cur, vTrimStack(string(debug.Stack()))), v.cur)
	}
	close(v.stop)
	v.mu.Lock()
	v.cur = ""
	v.write(true)
	v.mu.Unlock()
}

// ---- running programs ----

type vBudget struct{}

func (vBudget) Error() string { return "verif: step budget exhausted" }

type vOut struct {
	Val   Sexp
	Err   error
	Panic string // non-empty: a Go panic came out of the library
	Over  bool   // step budget exhausted
}

var vSteps int

// vGuard runs f under the step budget and turns a panic into vOut.Panic.
func vGuard(budget int, f func() (Sexp, error)) (o vOut) {
	n := 0
	over := false
	prev := VerifStepHook
	VerifStepHook = func(env *Zlisp) error {
		n++
		if n > budget {
			over = true
			return vBudget{}
		}
		if prev != nil {
			return prev(env)
		}
		return nil
	}
	defer func() {
		VerifStepHook = prev
		vSteps = n
		o.Over = over
		if r := recover(); r != nil {
			o.Panic = fmt.Sprintf("%v\n%s", r, vTrimStack(string(debug.Stack())))
		}
	}()
	o.Val, o.Err = f()
	return
}

// vTrimStack keeps the function names of the panicking frames.
func vTrimStack(s string) string {
	ls := strings.Split(s, "\n")
	i := 0
	for k, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			i = k
		}
	}
	ls = ls[i:]
	if len(ls) > 24 {
		ls = ls[:24]
	}
	return strings.Join(ls, "\n")
}

// vPanicSite names the innermost non-test library function of a panic stack.
func vPanicSite(p string) string {
	ls := strings.Split(p, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.Contains(ls[i], "zygo.") && strings.HasPrefix(ls[i+1], "\t") &&
			!strings.Contains(ls[i+1], "_verif_test.go") && !strings.Contains(ls[i], "panicOn") {
			f := ls[i]
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			if k := strings.Index(f, "zygo."); k >= 0 {
				f = f[k+5:]
			}
			return f
		}
	}
	return "unknown"
}

func vEval(env *Zlisp, src string) vOut {
	return vGuard(200000, func() (Sexp, error) { return env.EvalString(src) })
}

func vNewEnv() *Zlisp {
	env := NewZlisp()
	env.StandardSetup()
	return env
}

func vStr(x Sexp) string {
	if x == nil {
		return "<nil>"
	}
	var s string
	func() {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("<panic printing %T: %v>", x, r)
			}
		}()
		s = x.SexpString(nil)
	}()
	return s
}

// show renders an outcome compactly.
func (o vOut) show() string {
	switch {
	case o.Panic != "":
		return "PANIC " + strings.SplitN(o.Panic, "\n", 2)[0]
	case o.Over:
		return "BUDGET"
	case o.Err != nil:
		return "ERROR " + strings.SplitN(o.Err.Error(), "\n", 2)[0]
	}
	return "VALUE " + vStr(o.Val)
}

// kind: value, error, panic, budget
func (o vOut) kind() string { return strings.SplitN(o.show(), " ", 2)[0] }

// rest describes how far env is from rest; "" means at rest.
func vRest(env *Zlisp) string {
	var bad []string
	if n := env.datastack.tos + 1; n != 0 {
		bad = append(bad, fmt.Sprintf("datastack depth %d", n))
	}
	if n := env.linearstack.tos + 1; n != 1 {
		bad = append(bad, fmt.Sprintf("scope stack depth %d", n))
	}
	if n := env.addrstack.tos + 1; n != 0 {
		bad = append(bad, fmt.Sprintf("address stack depth %d", n))
	}
	if n := env.loopstack.tos + 1; n != 0 {
		bad = append(bad, fmt.Sprintf("loop stack depth %d", n))
	}
	if env.curfunc != env.mainfunc {
		bad = append(bad, "curfunc is not the main function")
	}
	return strings.Join(bad, ", ")
}

func vPick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func vSortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
