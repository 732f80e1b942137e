package zygo

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/ugorji/go/codec"
)

// c11v is a data value, kept apart from the interpreter's own.
type c11v struct {
	kind  byte // n nil, b bool, i int64, u uint64, f float, s string, a array, h hash or record
	b     bool
	i     int64
	u     uint64
	f     float64
	s     string // or the type name
	keys  []string
	strk  bool // keys are strings (from a literal), else symbols
	items []*c11v
}

var c11strings = []string{"", "a", "plain words", `"`, `\`, `\\`, `\"`, `a"b\c`, "\n", "\r\n", "\t", "\x00", "\x01\x1f", "\x7f", "\u0080\u009f", "\u2028\u2029",
	"é", "日本語", "𝄞", "\U0010FFFF", "\uFFFD", "\uFEFFx", "</script>&", "'", "`", "{\"a\":1}", "[1, 2]", "null", "true", "12", "1e5", "Atype", "zKeyOrder", "%s%d", "/", "\\u0041", "\a\b\f\v", "a:b", "x y", "ÿ\u00a0"}

var c11ints = []int64{0, 1, -1, 7, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MaxUint32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1}
var c11uints = []uint64{0, 1, 255, 65536, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1}
var c11floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, 0.1, 1e21, 1e20, 123456789012345680000, 1e-7, 1e-6, 5e-324, 1e-310, math.MaxFloat64, -math.MaxFloat64, 1 << 53, 1<<53 + 2, 1 << 63, 1 << 62, 9007199254740993, 3.141592653589793, 1e15, 1e16, 1e17, 1e22, 1e23, 2.5e-8, 100, 4503599627370496.5}

func c11string(r *rand.Rand) string {
	switch r.Intn(3) {
	case 0:
		return vPick(r, c11strings)
	case 1:
		return vPick(r, c11strings) + vPick(r, c11strings)
	}
	var b strings.Builder
	for n := r.Intn(8); n >= 0; n-- {
		switch r.Intn(4) {
		case 0:
			b.WriteRune(rune(r.Intn(0x20)))
		case 1:
			b.WriteRune(rune(0x20 + r.Intn(0x60)))
		case 2:
			b.WriteRune(rune(r.Intn(0xd800)))
		default:
			b.WriteRune(rune(0xe000 + r.Intn(0x110000-0xe000)))
		}
	}
	return b.String()
}

func c11keyname(r *rand.Rand) string {
	for {
		k := vPick(r, []string{"a", "b", "c", "z", "A", "name", "speed", "x1", "y2", "", ""})
		if k == "" {
			k = c11string(r)
		}
		if k != typeNameKey && k != keyOrderKey {
			return k
		}
	}
}

func c11gen(r *rand.Rand, depth int) *c11v {
	n := 8
	if depth <= 0 {
		n = 6
	}
	switch r.Intn(n) {
	case 0:
		return &c11v{kind: 'n'}
	case 1:
		return &c11v{kind: 'b', b: r.Intn(2) == 0}
	case 2:
		if r.Intn(2) == 0 {
			return &c11v{kind: 'i', i: vPick(r, c11ints)}
		}
		return &c11v{kind: 'i', i: int64(r.Uint64()) >> uint(r.Intn(64))}
	case 3:
		if r.Intn(2) == 0 {
			return &c11v{kind: 'u', u: vPick(r, c11uints)}
		}
		return &c11v{kind: 'u', u: r.Uint64() >> uint(r.Intn(64))}
	case 4:
		if r.Intn(2) == 0 {
			return &c11v{kind: 'f', f: vPick(r, c11floats)}
		}
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return &c11v{kind: 'f', f: f}
			}
		}
	case 5:
		return &c11v{kind: 's', s: c11string(r)}
	case 6:
		v := &c11v{kind: 'a'}
		for n := r.Intn(5); n > 0; n-- {
			v.items = append(v.items, c11gen(r, depth-1))
		}
		return v
	}
	v := &c11v{kind: 'h', s: "hash"}
	if r.Intn(2) == 0 {
		v.s = vPick(r, []string{"ranch", "cowboy", "C11open", "thing"})
	}
	seen := map[string]bool{}
	for n := r.Intn(6); n > 0; n-- {
		if k := c11keyname(r); !seen[k] {
			seen[k] = true
			v.keys = append(v.keys, k)
			v.items = append(v.items, c11gen(r, depth-1))
		}
	}
	return v
}

// strkeys makes every hash of v one with string keys and no type.
func (v *c11v) strkeys() {
	if v.kind == 'h' {
		v.s, v.strk = "hash", true
	}
	for _, x := range v.items {
		x.strkeys()
	}
}

// build makes the value in env. Hashes take shape through a history of insertions,
// replacements and deletions that leaves v's keys in v's order.
func (v *c11v) build(r *rand.Rand, env *Zlisp) Sexp {
	switch v.kind {
	case 'n':
		return SexpNull
	case 'b':
		return &SexpBool{Val: v.b}
	case 'i':
		return &SexpInt{Val: v.i}
	case 'u':
		return &SexpUint64{Val: v.u}
	case 'f':
		return &SexpFloat{Val: v.f}
	case 's':
		return &SexpStr{S: v.s}
	case 'a':
		xs := make([]Sexp, 0, len(v.items))
		for _, x := range v.items {
			xs = append(xs, x.build(r, env))
		}
		return &SexpArray{Val: xs, Env: env}
	}
	key := func(k string) Sexp {
		if v.strk {
			return &SexpStr{S: k}
		}
		return env.MakeSymbol(k)
	}
	h, err := MakeHash(nil, v.s, env)
	if err != nil {
		panic(err)
	}
	set := func(k string, x Sexp) {
		if err := h.HashSet(key(k), x); err != nil {
			panic(err)
		}
	}
	for i, k := range v.keys {
		switch r.Intn(6) {
		case 0: // an earlier value
			set(k, &SexpInt{Val: 99})
		case 1: // a key that goes again
			set("gone"+k, SexpNull)
			if err := h.HashDelete(key("gone" + k)); err != nil {
				panic(err)
			}
		}
		set(k, v.items[i].build(r, env))
	}
	return h
}

func c11rat(v *c11v) *big.Rat {
	switch v.kind {
	case 'i':
		return new(big.Rat).SetInt64(v.i)
	case 'u':
		return new(big.Rat).SetInt(new(big.Int).SetUint64(v.u))
	}
	return new(big.Rat).SetFloat64(v.f)
}

func c11type(v *c11v) string {
	switch v.kind {
	case 'i', 'u', 'f':
		return c11rat(v).RatString()
	}
	return fmt.Sprintf("%c", v.kind)
}

// same compares what came back with what went in: "" or where they differ.
func (v *c11v) same(got Sexp) string {
	bad := func() string { return fmt.Sprintf("want %s, got %T %s", v.show(), got, c11show(got)) }
	switch v.kind {
	case 'n':
		if got != SexpNull {
			return bad()
		}
	case 'b':
		if x, ok := got.(*SexpBool); !ok || x.Val != v.b {
			return bad()
		}
	case 'i', 'u', 'f':
		var have *big.Rat
		switch x := got.(type) {
		case *SexpInt:
			have = new(big.Rat).SetInt64(x.Val)
		case *SexpUint64:
			have = new(big.Rat).SetInt(new(big.Int).SetUint64(x.Val))
		case *SexpFloat:
			have = new(big.Rat).SetFloat64(x.Val)
		}
		if have == nil || have.Cmp(c11rat(v)) != 0 {
			return bad()
		}
		// a float stays one
		if _, isF := got.(*SexpFloat); isF != (v.kind == 'f') {
			return bad()
		}
	case 's':
		if x, ok := got.(*SexpStr); !ok || x.S != v.s {
			return bad()
		}
	case 'a':
		x, ok := got.(*SexpArray)
		if !ok || len(x.Val) != len(v.items) {
			return bad()
		}
		for i := range v.items {
			if d := v.items[i].same(x.Val[i]); d != "" {
				return d
			}
		}
	case 'h':
		x, ok := got.(*SexpHash)
		if !ok {
			return bad()
		}
		if x.TypeName != v.s {
			return fmt.Sprintf("type name %q became %q", v.s, x.TypeName)
		}
		var order []string
		for _, k := range x.KeyOrder {
			s, ok := k.(*SexpSymbol)
			if !ok {
				return fmt.Sprintf("key %s is a %T", k.SexpString(nil), k)
			}
			order = append(order, s.name)
		}
		if strings.Join(order, "\x00|") != strings.Join(v.keys, "\x00|") || len(order) != len(v.keys) {
			return fmt.Sprintf("fields %q became %q", v.keys, order)
		}
		n := 0
		for _, b := range x.Map {
			n += len(b)
		}
		if n != len(v.keys) {
			return fmt.Sprintf("%d keys, %d entries", len(v.keys), n)
		}
		for i, k := range x.KeyOrder {
			val, err := x.HashGetDefault(nil, k, SexpEnd)
			if err != nil || val == SexpEnd {
				return fmt.Sprintf("field %q has no value", v.keys[i])
			}
			if d := v.items[i].same(val); d != "" {
				return d
			}
		}
	}
	return ""
}

// denotes compares v with what a standard decoder made of the encoding.
func (v *c11v) denotes(got interface{}, meta bool) string {
	bad := func() string { return fmt.Sprintf("want %s, decoder gave %T %.100q", v.show(), got, fmt.Sprint(got)) }
	switch v.kind {
	case 'n':
		if got != nil {
			return bad()
		}
	case 'b':
		if got != v.b {
			return bad()
		}
	case 'i', 'u', 'f':
		var have *big.Rat
		switch x := got.(type) {
		case json.Number:
			// a float is denoted by its shortest digits: compare as float64
			if v.kind == 'f' {
				f, err := strconv.ParseFloat(string(x), 64)
				if err != nil || f != v.f || math.Signbit(f) != math.Signbit(v.f) {
					return bad()
				}
				return ""
			}
			have, _ = new(big.Rat).SetString(string(x))
		case int64:
			have = new(big.Rat).SetInt64(x)
		case uint64:
			have = new(big.Rat).SetInt(new(big.Int).SetUint64(x))
		case float64:
			have = new(big.Rat).SetFloat64(x)
		}
		if have == nil || have.Cmp(c11rat(v)) != 0 {
			return bad()
		}
	case 's':
		if got != v.s {
			return bad()
		}
	case 'a':
		x, ok := got.([]interface{})
		if !ok || len(x) != len(v.items) {
			return bad()
		}
		for i := range v.items {
			if d := v.items[i].denotes(x[i], meta); d != "" {
				return d
			}
		}
	case 'h':
		x, ok := got.(map[string]interface{})
		if !ok {
			return bad()
		}
		for i, k := range v.keys {
			val, have := x[k]
			if !have {
				return fmt.Sprintf("key %q is not in the encoding", k)
			}
			if d := v.items[i].denotes(val, meta); d != "" {
				return d
			}
		}
		for k := range x {
			if k != typeNameKey && k != keyOrderKey && !c11in(v.keys, k) {
				return fmt.Sprintf("key %q was never set", k)
			}
		}
		if meta {
			if x[typeNameKey] != v.s {
				return fmt.Sprintf("type name %q is encoded as %v", v.s, x[typeNameKey])
			}
			order, _ := x[keyOrderKey].([]interface{})
			if len(order) != len(v.keys) {
				return fmt.Sprintf("key order of %q is encoded as %v", v.keys, order)
			}
			for i := range order {
				if order[i] != v.keys[i] {
					return fmt.Sprintf("key order of %q is encoded as %v", v.keys, order)
				}
			}
		}
	}
	return ""
}

func c11in(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func c11show(x Sexp) string {
	if x == nil {
		return "no value"
	}
	s := x.SexpString(nil)
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

func (v *c11v) show() string {
	switch v.kind {
	case 'n':
		return "nil"
	case 'b':
		return fmt.Sprint(v.b)
	case 'i':
		return fmt.Sprint(v.i)
	case 'u':
		return fmt.Sprintf("%dULL", v.u)
	case 'f':
		return "float " + strconv.FormatFloat(v.f, 'g', -1, 64)
	case 's':
		return fmt.Sprintf("%+q", v.s)
	case 'a':
		var xs []string
		for _, x := range v.items {
			xs = append(xs, x.show())
		}
		return "[" + strings.Join(xs, " ") + "]"
	}
	xs := []string{v.s}
	if v.strk {
		xs[0] = "strkeys"
	}
	for i, x := range v.items {
		xs = append(xs, fmt.Sprintf("%+q: %s", v.keys[i], x.show()))
	}
	return "{" + strings.Join(xs, " ") + "}"
}

// shrunk gives smaller values that may still fail.
func (v *c11v) shrunk() (out []*c11v) {
	out = append(out, v.items...)
	for i := range v.items {
		w := *v
		w.items = append(append([]*c11v{}, v.items[:i]...), v.items[i+1:]...)
		if v.kind == 'h' {
			w.keys = append(append([]string{}, v.keys[:i]...), v.keys[i+1:]...)
		}
		out = append(out, &w)
		for _, x := range v.items[i].shrunk() {
			w := *v
			w.items = append([]*c11v{}, v.items...)
			w.items[i] = x
			out = append(out, &w)
		}
	}
	if v.kind == 's' {
		for i, c := range v.s {
			w := *v
			w.s = v.s[:i] + v.s[i+utf8.RuneLen(c):]
			if len(w.s) < len(v.s) {
				out = append(out, &w)
			}
		}
	}
	return out
}

type c11 struct {
	v   *vRun
	env *Zlisp
	n   int
}

func (c *c11) call(f string, x Sexp) vOut {
	c.env.AddGlobal("c11x", x)
	return vEval(c.env, "("+f+" c11x)")
}

// problem runs one value through every encoding; "" or key and what is wrong.
func (c *c11) problem(v *c11v, seed int64) (key, msg string) {
	r := rand.New(rand.NewSource(seed))
	x := v.build(r, c.env)
	for _, form := range []string{"json", "msgpack", "json2"} {
		o := c.call(form, x)
		if o.kind() != "VALUE" {
			return form + "-fails", fmt.Sprintf("(%s v) gave %s for v = %s", form, o.show(), v.show())
		}
		var text []byte
		switch e := o.Val.(type) {
		case *SexpRaw:
			text = e.Val
		case *SexpStr:
			text = []byte(e.S)
		default:
			return form + "-kind", fmt.Sprintf("(%s v) gave a %T", form, o.Val)
		}
		if form != "msgpack" {
			if !json.Valid(text) {
				return form + "-malformed", fmt.Sprintf("(%s v) is not JSON for v = %s: %+q", form, v.show(), text)
			}
			if !utf8.Valid(text) {
				return form + "-not-utf8", fmt.Sprintf("(%s v) is not UTF-8 for v = %s: %+q", form, v.show(), text)
			}
			d := json.NewDecoder(bytes.NewReader(text))
			d.UseNumber()
			var got interface{}
			if err := d.Decode(&got); err != nil {
				return form + "-undecodable", fmt.Sprintf("(%s v): %v for v = %s: %+q", form, err, v.show(), text)
			}
			if diff := v.denotes(got, form == "json"); diff != "" {
				return form + "-denotes", fmt.Sprintf("(%s v) = %+q denotes something else: %s; v = %s", form, text, diff, v.show())
			}
			if k := c11twice(text); k != "" {
				return form + "-duplicate", fmt.Sprintf("(%s v) = %+q has the key %s twice; v = %s", form, text, k, v.show())
			}
		} else {
			var mh codec.MsgpackHandle
			mh.RawToString = true
			mh.MapType = msgpHelper.mh.MapType
			var got interface{}
			if err := codec.NewDecoderBytes(text, &mh).Decode(&got); err != nil {
				return form + "-undecodable", fmt.Sprintf("(msgpack v): %v for v = %s", err, v.show())
			}
			if diff := v.denotes(got, true); diff != "" {
				return form + "-denotes", fmt.Sprintf("(msgpack v) = %x denotes something else: %s; v = %s", text, diff, v.show())
			}
		}
		if form == "json2" {
			continue
		}
		back := c.call("un"+form, o.Val)
		if back.kind() != "VALUE" {
			return "un" + form + "-fails", fmt.Sprintf("(un%s (%s v)) gave %s for v = %s", form, form, back.show(), v.show())
		}
		if diff := v.same(back.Val); diff != "" {
			return "un" + form, fmt.Sprintf("(un%s (%s v)) differs: %s; v = %s", form, form, diff, v.show())
		}
		// the value encoded is untouched, and encodes the same again
		if again := c.call(form, x); again.show() != o.show() {
			return form + "-again", fmt.Sprintf("(%s v) twice: %s then %s; v = %s", form, o.show(), again.show(), v.show())
		}
		if re := c.call(form, back.Val); !v.anyuint() && re.show() != o.show() {
			return form + "-reencode", fmt.Sprintf("(%s (un%s (%s v))) = %s, (%s v) = %s; v = %s", form, form, form, re.show(), form, o.show(), v.show())
		}
	}
	return "", ""
}

func (v *c11v) anyuint() bool {
	if v.kind == 'u' {
		return true
	}
	for _, x := range v.items {
		if x.anyuint() {
			return true
		}
	}
	return false
}

// c11twice gives a key that an object of the JSON text holds twice.
func c11twice(text []byte) string {
	d := json.NewDecoder(bytes.NewReader(text))
	var walk func() string
	walk = func() string {
		t, err := d.Token()
		if err != nil {
			return err.Error()
		}
		switch t {
		case json.Delim('['):
			for d.More() {
				if k := walk(); k != "" {
					return k
				}
			}
			d.Token()
		case json.Delim('{'):
			seen := map[string]bool{}
			for d.More() {
				k, _ := d.Token()
				s, _ := k.(string)
				if seen[s] {
					return fmt.Sprintf("%q", s)
				}
				seen[s] = true
				if k := walk(); k != "" {
					return k
				}
			}
			d.Token()
		}
		return ""
	}
	return walk()
}

func (c *c11) check(v *c11v, seed int64) {
	c.v.at(v.show())
	c.n++
	c.v.count(v.show())
	key, msg := c.problem(v, seed)
	if key == "" {
		return
	}
	for more := true; more; {
		more = false
		for _, w := range v.shrunk() {
			if k, m := c.problem(w, seed); k == key {
				v, msg, more = w, m, true
				break
			}
		}
	}
	c.v.fail(key, msg, v.show())
}

// literal is JSON-style source for v, with string keys.
func (v *c11v) literal() (string, bool) {
	switch v.kind {
	case 'n', 'b', 'i':
		return v.show(), true
	case 's':
		for _, c := range v.s {
			if c < ' ' || c == '"' || c == '\\' || c > 0x7e {
				return "", false
			}
		}
		return `"` + v.s + `"`, true
	case 'f':
		return strconv.FormatFloat(v.f, 'e', -1, 64), true
	case 'a', 'h':
		var parts []string
		for i, x := range v.items {
			s, ok := x.literal()
			if !ok {
				return "", false
			}
			if v.kind == 'h' {
				k, ok := (&c11v{kind: 's', s: v.keys[i]}).literal()
				if !ok {
					return "", false
				}
				s = k + ":" + s
			}
			parts = append(parts, s)
		}
		if v.kind == 'a' {
			return "[" + strings.Join(parts, ", ") + "]", true
		}
		return "{" + strings.Join(parts, ", ") + "}", len(v.items) > 0
	}
	return "", false
}

func TestVerifC11(t *testing.T) {
	v := vBegin(t, "C11", "encode then decode gives the value back; JSON is well-formed and denotes it")
	defer v.finish()
	c := &c11{v: v, env: vNewEnv()}
	c.env.StandardSetup()

	// every scalar of the grid, alone and as a field
	var grid []*c11v
	for _, s := range c11strings {
		grid = append(grid, &c11v{kind: 's', s: s})
	}
	for c := rune(0); c < 0x180; c++ {
		grid = append(grid, &c11v{kind: 's', s: string(c)}, &c11v{kind: 's', s: "x" + string(c) + "1"})
	}
	for _, i := range c11ints {
		grid = append(grid, &c11v{kind: 'i', i: i})
	}
	for _, u := range c11uints {
		grid = append(grid, &c11v{kind: 'u', u: u})
	}
	for _, f := range c11floats {
		grid = append(grid, &c11v{kind: 'f', f: f}, &c11v{kind: 'f', f: -f})
	}
	grid = append(grid, &c11v{kind: 'n'}, &c11v{kind: 'b'}, &c11v{kind: 'b', b: true}, &c11v{kind: 'a'}, &c11v{kind: 'h', s: "hash"}, &c11v{kind: 'h', s: "ranch"})
	for _, g := range grid {
		c.check(g, 1)
		c.check(&c11v{kind: 'a', items: []*c11v{g, {kind: 'i', i: 1}}}, 1)
		c.check(&c11v{kind: 'h', s: "thing", keys: []string{"z", "a"}, items: []*c11v{{kind: 'h', s: "cowboy", keys: []string{"y", "b"}, items: []*c11v{g, g}}, g}}, 1)
		if g.kind == 's' && g.s != typeNameKey && g.s != keyOrderKey {
			c.check(&c11v{kind: 'h', s: "hash", keys: []string{g.s}, items: []*c11v{{kind: 'i', i: 5}}}, 1)
			c.check(&c11v{kind: 'h', s: g.s, keys: []string{"k"}, items: []*c11v{g}}, 1)
		}
	}
	// a key named like the reserved ones
	for _, k := range []string{typeNameKey, keyOrderKey} {
		w := &c11v{kind: 'h', s: "hash", keys: []string{k}, items: []*c11v{{kind: 'i', i: 5}}}
		v.count("reserved")
		if key, msg := c.problem(w, 1); key != "" {
			v.fail("reserved-key-name", msg, w.show())
		}
	}
	c.records()
	depthText := 60
	deep := &c11v{kind: 'i', i: 3}
	for i := 0; i < depthText; i++ {
		if i%2 == 0 {
			deep = &c11v{kind: 'a', items: []*c11v{deep}}
		} else {
			deep = &c11v{kind: 'h', s: "ranch", keys: []string{"q", "b"}, items: []*c11v{deep, {kind: 'n'}}}
		}
	}
	c.check(deep, 1)

	for v.more() {
		seed := v.rng.Int63()
		d := c11gen(v.rng, 1+v.rng.Intn(4))
		c.check(d, seed)
		if d.kind == 'a' || d.kind == 'h' {
			d.strkeys()
			c.checkText(d, seed)
		}
		if c.n%2000 == 0 {
			c.env = vNewEnv()
			c.env.StandardSetup()
			c.records()
		}
	}
}

// checkText: hashes with string keys, built and from a literal: their JSON is well-formed and denotes them.
func (c *c11) checkText(d *c11v, seed int64) {
	xs := map[string]Sexp{"built": d.build(rand.New(rand.NewSource(seed)), c.env)}
	if src, ok := d.literal(); ok {
		var o vOut
		if d.kind == 'h' {
			o = vEval(c.env, "(begin "+src+")")
		} else {
			o = vEval(c.env, src)
		}
		c.v.count("literal")
		if o.kind() == "VALUE" {
			if _, ok := o.Val.(*SexpHash); ok || d.kind == 'a' {
				xs["from the literal "+src] = o.Val
			}
		} else {
			c.v.tally("literal-rejected")
		}
	}
	for _, how := range vSortedKeys(xs) {
		c.v.at(how + d.show())
		for _, form := range []string{"json", "json2"} {
			o := c.call(form, xs[how])
			var text []byte
			switch e := o.Val.(type) {
			case *SexpRaw:
				text = e.Val
			case *SexpStr:
				text = []byte(e.S)
			}
			c.v.count("text")
			var got interface{}
			dec := json.NewDecoder(bytes.NewReader(text))
			dec.UseNumber()
			switch {
			case o.kind() != "VALUE":
				c.v.fail(form+"-string-keys-fails", fmt.Sprintf("(%s v) gave %s for v (%s) = %s", form, o.show(), how, d.show()), d.show())
			case !json.Valid(text) || dec.Decode(&got) != nil:
				c.v.fail(form+"-string-keys-malformed", fmt.Sprintf("(%s v) is not JSON for v (%s) = %s: %+q", form, how, d.show(), text), d.show())
			default:
				if diff := d.denotes(got, form == "json"); diff != "" {
					c.v.fail(form+"-string-keys-denotes", fmt.Sprintf("(%s v) = %+q denotes something else: %s; v (%s) = %s", form, text, diff, how, d.show()), d.show())
				}
			}
		}
	}
}

// records: declared record types, written in the language, nested, with field order of construction.
func (c *c11) records() {
	c.v.count("records")
	pre := `(struct C11Inner [(field num: int64) (field txt: string)])
(struct C11Outer [(field zed: int64) (field inner: C11Inner) (field f: float64) (field ok: bool) (field alpha: string)])
(defmap c11ranch) (defmap c11cowboy)`
	if o := vEval(c.env, pre); o.kind() != "VALUE" {
		c.v.fail("declare", "record declarations gave "+o.show(), pre)
		return
	}
	for _, src := range []string{
		`(C11Inner num: 3 txt: "a\"b\\c")`,
		`(C11Outer alpha: "q\n\t" zed: -7 ok: true inner: (C11Inner txt: "x" num: 9223372036854775807) f: 1.5)`,
		`(C11Outer)`,
		`(C11Outer zed: 1 inner: nil)`,
		`(c11ranch z: (c11cowboy first: "Jim" last: "Smith") a: [(c11cowboy last: "x" first: 2.0) (c11ranch)] m: (hash b:1 a:2))`,
		`(c11cowboy)`,
		`(hash z:1 a:(hash) m:[] q:[[] [(hash x:nil)]])`,
		`(hash)`,
		`(let [h (hash z:1 a:2 b:3)] (hdel h a:) (hset h a: 9) (hset h z: "new") h)`,
	} {
		o := vEval(c.env, src)
		if o.kind() != "VALUE" {
			c.v.fail("record-source", src+" gave "+o.show(), src)
			continue
		}
		want, ok := c11of(o.Val)
		if !ok {
			c.v.fail("record-source", src+" gave a value outside the domain", src)
			continue
		}
		c.v.at(src)
		for _, form := range []string{"json", "msgpack"} {
			c.v.count("record")
			enc := c.call(form, o.Val)
			back := vOut{}
			if enc.kind() == "VALUE" {
				back = c.call("un"+form, enc.Val)
			}
			if enc.kind() != "VALUE" || back.kind() != "VALUE" {
				c.v.fail("record-"+form, fmt.Sprintf("(un%s (%s %s)): %s / %s", form, form, src, enc.show(), back.show()), src)
			} else if diff := want.same(back.Val); diff != "" {
				c.v.fail("record-"+form, fmt.Sprintf("(un%s (%s %s)) differs: %s", form, form, src, diff), src)
			} else if eq := vEval(c.env, fmt.Sprintf("(let [v %s] (== v (un%s (%s v))))", src, form, form)); eq.show() != "VALUE true" && !strings.Contains(src, "ranch") {
				c.v.tally("not-equal-by-==")
			}
		}
	}
}

// c11of reads a value of the interpreter by its structure.
func c11of(x Sexp) (*c11v, bool) {
	switch e := x.(type) {
	case *SexpBool:
		return &c11v{kind: 'b', b: e.Val}, true
	case *SexpInt:
		return &c11v{kind: 'i', i: e.Val}, true
	case *SexpUint64:
		return &c11v{kind: 'u', u: e.Val}, true
	case *SexpFloat:
		return &c11v{kind: 'f', f: e.Val}, true
	case *SexpStr:
		return &c11v{kind: 's', s: e.S}, true
	case *SexpArray:
		v := &c11v{kind: 'a'}
		for _, y := range e.Val {
			w, ok := c11of(y)
			if !ok {
				return nil, false
			}
			v.items = append(v.items, w)
		}
		return v, true
	case *SexpHash:
		v := &c11v{kind: 'h', s: e.TypeName}
		for _, k := range e.KeyOrder {
			s, ok := k.(*SexpSymbol)
			if !ok {
				return nil, false
			}
			val, err := e.HashGetDefault(nil, k, SexpEnd)
			w, ok := c11of(val)
			if err != nil || !ok {
				return nil, false
			}
			v.keys, v.items = append(v.keys, s.name), append(v.items, w)
		}
		return v, true
	}
	return &c11v{kind: 'n'}, x == SexpNull
}
