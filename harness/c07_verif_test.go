package zygo

import (
	"fmt"
	"math"
	"math/big"
	"testing"
)

// exact value of a numeric operand
type c07num struct {
	kind byte // i u c f
	i    int64
	u    uint64
	c    rune
	f    float64
}

func (n c07num) sexp() Sexp {
	switch n.kind {
	case 'i':
		return &SexpInt{Val: n.i}
	case 'u':
		return &SexpUint64{Val: n.u}
	case 'c':
		return &SexpChar{Val: n.c}
	}
	return &SexpFloat{Val: n.f}
}
func (n c07num) float() float64 {
	switch n.kind {
	case 'i':
		return float64(n.i)
	case 'u':
		return float64(n.u)
	case 'c':
		return float64(n.c)
	}
	return n.f
}
func (n c07num) big() *big.Int {
	switch n.kind {
	case 'i':
		return big.NewInt(n.i)
	case 'u':
		return new(big.Int).SetUint64(n.u)
	}
	return big.NewInt(int64(n.c))
}
func (n c07num) String() string {
	switch n.kind {
	case 'i':
		return fmt.Sprintf("int(%d)", n.i)
	case 'u':
		return fmt.Sprintf("uint64(%d)", n.u)
	case 'c':
		return fmt.Sprintf("char(%d)", n.c)
	}
	return fmt.Sprintf("float(%v=%x)", n.f, math.Float64bits(n.f))
}

// c07cmp: three-way order; unord for NaN; ok=false when the property does not fix it
func c07cmp(a, b c07num) (r int, unord, ok bool) {
	if a.kind == 'f' || b.kind == 'f' {
		if a.kind == 'u' || b.kind == 'u' {
			return 0, false, false
		}
		x, y := a.float(), b.float()
		if math.IsNaN(x) || math.IsNaN(y) {
			return 0, true, true
		}
		switch {
		case x < y:
			return -1, false, true
		case x > y:
			return 1, false, true
		}
		return 0, false, true
	}
	if (a.kind == 'u') != (b.kind == 'u') {
		return 0, false, false
	}
	return a.big().Cmp(b.big()), false, true
}

func c07wantCmp(op string, r int, unord bool) bool {
	if unord {
		return op == "!="
	}
	switch op {
	case "<":
		return r < 0
	case ">":
		return r > 0
	case "<=":
		return r <= 0
	case ">=":
		return r >= 0
	case "==":
		return r == 0
	}
	return r != 0
}

func c07wrapI(x *big.Int) int64 {
	m := new(big.Int).And(x, new(big.Int).SetUint64(math.MaxUint64))
	return int64(m.Uint64())
}

// c07arith: expected result; mode "int","uint","float","err","free"
func c07arith(op string, a, b c07num) (mode string, i int64, u uint64, f float64) {
	if a.kind == 'f' || b.kind == 'f' {
		if op == "mod" {
			return "free", 0, 0, 0
		}
		x, y := a.float(), b.float()
		switch op {
		case "+":
			return "float", 0, 0, x + y
		case "-":
			return "float", 0, 0, x - y
		case "*":
			return "float", 0, 0, x * y
		case "/":
			if y == 0 {
				return "free", 0, 0, 0
			}
			return "float", 0, 0, x / y
		}
	}
	if a.kind == 'c' && b.kind == 'c' && op != "/" && op != "mod" {
		return "free", 0, 0, 0
	}
	x, y := a.big(), b.big()
	uns := a.kind == 'u' || b.kind == 'u'
	if (op == "/" || op == "mod") && y.Sign() == 0 {
		return "err", 0, 0, 0
	}
	if a.kind != b.kind || a.kind == 'c' {
		return "free", 0, 0, 0
	}
	z := new(big.Int)
	switch op {
	case "+":
		z.Add(x, y)
	case "-":
		z.Sub(x, y)
	case "*":
		z.Mul(x, y)
	case "/":
		q, m := new(big.Int).QuoRem(x, y, new(big.Int))
		if m.Sign() != 0 {
			return "float", 0, 0, a.float() / b.float()
		}
		z = q
	case "mod":
		z.Rem(x, y)
	}
	if uns {
		return "uint", 0, uint64(c07wrapI(z)), 0
	}
	return "int", c07wrapI(z), 0, 0
}

func c07eq(mode string, i int64, u uint64, f float64, got Sexp) bool {
	switch mode {
	case "int":
		x, ok := got.(*SexpInt)
		return ok && x.Val == i
	case "uint":
		x, ok := got.(*SexpUint64)
		return ok && x.Val == u
	case "float":
		x, ok := got.(*SexpFloat)
		return ok && (x.Val == f && math.Signbit(x.Val) == math.Signbit(f) || math.IsNaN(x.Val) && math.IsNaN(f))
	}
	return true
}

func TestVerifC07(t *testing.T) {
	v := vBegin(t, "C07", "all ordered pairs of boundary values (int, uint64, char, float incl. NaN/Inf/denormals/2^53 and 2^63 neighbourhood) x 6 comparison and 5 arithmetic operators through EvalString, prefix and infix, plus hash lookups; then random bit patterns. Non-trivial: distinct (op,a,b).")
	defer v.finish()
	var nums []c07num
	ints := []int64{0, 1, -1, 2, -2, 3, 7, 10, -10, 97, 255, 256, 1000, 1 << 31, -(1 << 31), 1<<32 + 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1 << 62, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 4607182418800017408}
	for _, i := range ints {
		nums = append(nums, c07num{kind: 'i', i: i})
	}
	for _, u := range []uint64{0, 1, 2, 3, 10, 1 << 53, 1 << 63, 1<<63 - 1, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1} {
		nums = append(nums, c07num{kind: 'u', u: u})
	}
	for _, c := range []rune{0, 1, 'a', 'b', 0xff, 0x10ffff, math.MaxInt32} {
		nums = append(nums, c07num{kind: 'c', c: c})
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 2, 97, 1e300, -1e300, 5e-324, -5e-324, 1 << 53, 1<<53 + 2, 1 << 63, -(1 << 63), 1 << 64, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 9223372036854774784.0} {
		nums = append(nums, c07num{kind: 'f', f: f})
	}
	env := vNewEnv()
	defer env.Close()
	pair := func(a, b c07num) {
		env.AddGlobal("va", a.sexp())
		env.AddGlobal("vb", b.sexp())
		r, unord, ok := c07cmp(a, b)
		if ok {
			for _, op := range []string{"<", ">", "<=", ">=", "==", "!="} {
				want := c07wantCmp(op, r, unord)
				for form := 0; form < 2; form++ {
					src := "(" + op + " va vb)"
					if form == 1 {
						src = "{va " + op + " vb}"
					}
					desc := fmt.Sprintf("%s with va=%v vb=%v", src, a, b)
					v.at(desc)
					o := vEval(env, src)
					v.count(desc)
					g, isb := o.Val.(*SexpBool)
					if o.kind() != "VALUE" || !isb || g.Val != want {
						v.fail("cmp "+op, fmt.Sprintf("%s: got %s, the exact order gives %v", desc, o.show(), want), desc)
					}
				}
			}
		}
		for _, op := range []string{"+", "-", "*", "/", "mod"} {
			mode, wi, wu, wf := c07arith(op, a, b)
			if mode == "free" {
				src := "(" + op + " va vb)"
				desc := fmt.Sprintf("%s with va=%v vb=%v", src, a, b)
				v.at(desc)
				if o := vEval(env, src); o.Panic != "" {
					v.fail("arith "+op, desc+": "+o.show(), desc)
				}
				continue
			}
			for form := 0; form < 2; form++ {
				src := "(" + op + " va vb)"
				if form == 1 {
					src = "{va " + op + " vb}"
				}
				desc := fmt.Sprintf("%s with va=%v vb=%v", src, a, b)
				v.at(desc)
				o := vEval(env, src)
				v.count(desc)
				if mode == "err" {
					if o.kind() != "ERROR" {
						v.fail("arith zero "+op, desc+": want an error, got "+o.show(), desc)
					}
				} else if o.kind() != "VALUE" || !c07eq(mode, wi, wu, wf, o.Val) {
					v.fail("arith "+op, fmt.Sprintf("%s: got %s (%T), want %s %d/%d/%v", desc, o.show(), o.Val, mode, wi, wu, wf), desc)
				}
			}
		}
		// a hash lookup finds a key of the same kind exactly when it is equal
		if a.kind == b.kind && (a.kind == 'i' || a.kind == 'c') {
			desc := fmt.Sprintf("hash lookup with key %v probed by %v", a, b)
			v.at(desc)
			o := vEval(env, "(def vh (hash)) (hset vh va 7) (hget vh vb 8)")
			g, isi := o.Val.(*SexpInt)
			want := int64(8)
			if r == 0 {
				want = 7
			}
			v.count(desc)
			if !isi || g.Val != want {
				v.fail("hash", fmt.Sprintf("%s: got %s want %d", desc, o.show(), want), desc)
			}
		}
	}
	for _, a := range nums {
		for _, b := range nums {
			pair(a, b)
		}
	}
	// n-ary folding
	for k := 0; k < 300; k++ {
		xs := make([]c07num, 2+v.rng.Intn(4))
		acc := int64(0)
		src := "(%s"
		op := vPick(v.rng, []string{"+", "-", "*"})
		for j := range xs {
			xs[j] = c07num{kind: 'i', i: vPick(v.rng, ints)}
			nm := fmt.Sprintf("vx%d", j)
			env.AddGlobal(nm, xs[j].sexp())
			src += " " + nm
			switch {
			case j == 0:
				acc = xs[j].i
			case op == "+":
				acc += xs[j].i
			case op == "-":
				acc -= xs[j].i
			default:
				acc *= xs[j].i
			}
		}
		src = fmt.Sprintf(src, op) + ")"
		desc := fmt.Sprintf("%s over %v", src, xs)
		v.at(desc)
		o := vEval(env, src)
		v.count(desc)
		if g, ok := o.Val.(*SexpInt); !ok || g.Val != acc {
			v.fail("nary "+op, fmt.Sprintf("%s: got %s want %d", desc, o.show(), acc), desc)
		}
	}
	rnd := func() c07num {
		x := v.rng.Uint64()
		switch v.rng.Intn(3) {
		case 0: // a neighbour of a boundary value
			n := nums[v.rng.Intn(len(nums))]
			d := int64(v.rng.Intn(5) - 2)
			n.i += d
			n.u += uint64(d)
			if n.kind == 'f' {
				n.f = math.Float64frombits(math.Float64bits(n.f) + uint64(d))
			}
			return n
		case 1:
			x >>= uint(v.rng.Intn(64))
		}
		switch v.rng.Intn(4) {
		case 0:
			return c07num{kind: 'i', i: int64(x)}
		case 1:
			return c07num{kind: 'u', u: x}
		case 2:
			return c07num{kind: 'c', c: rune(x & 0x7fffffff)}
		}
		return c07num{kind: 'f', f: math.Float64frombits(x)}
	}
	n := 1500
	if v.thorough {
		n = 1 << 30
	}
	for k := 0; k < n && v.more(); k++ {
		pair(rnd(), rnd())
	}
}
