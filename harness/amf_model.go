package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/moggle-mog/goav/amf"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- expected values

// Exp is an expected decoded value; graphs may share nodes and be cyclic.
type Exp struct {
	K     string // nil bool num int str bytes date obj typed arr ecma any
	B     bool
	F     float64
	I     int64
	S     string
	T     time.Time
	Keys  []string
	Vals  []*Exp // of Keys
	Elems []*Exp
	Loose bool // obj: other keys than Keys are allowed
}

type pair struct {
	e *Exp
	p uintptr
}

func (e *Exp) String() string {
	if e == nil {
		return "?"
	}
	switch e.K {
	case "nil":
		return "nil"
	case "bool":
		return fmt.Sprint(e.B)
	case "num":
		return fmt.Sprintf("float64(%v)", e.F)
	case "int":
		return fmt.Sprintf("integer(%d)", e.I)
	case "str":
		return fmt.Sprintf("%q", clip(e.S, 80))
	case "bytes":
		return fmt.Sprintf("bytes(%x)", clip(e.S, 40))
	case "date":
		return fmt.Sprintf("time(%v)", e.T)
	case "typed":
		return fmt.Sprintf("typed(%q)", e.S)
	}
	return fmt.Sprintf("%s(%d keys, %d elements)", e.K, len(e.Keys), len(e.Elems))
}

// matchExp compares a decoded value with the expected one.
func matchExp(e *Exp, got interface{}) error { return matchAt(e, got, "value", map[pair]bool{}) }

func matchAt(e *Exp, got interface{}, path string, seen map[pair]bool) error {
	bad := func() error {
		return fmt.Errorf("%s: want %s, got %s", path, e, clip(safeSprint(got), 200))
	}
	switch e.K {
	case "nil":
		if got != nil {
			return bad()
		}
	case "bool":
		if b, ok := got.(bool); !ok || b != e.B {
			return bad()
		}
	case "num":
		f, ok := got.(float64)
		if !ok || (math.IsNaN(f) != math.IsNaN(e.F)) || (!math.IsNaN(f) && math.Float64bits(f) != math.Float64bits(e.F)) {
			return bad()
		}
	case "int":
		v := reflect.ValueOf(got)
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.Int() != e.I {
				return bad()
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if e.I < 0 || v.Uint() != uint64(e.I) {
				return bad()
			}
		default:
			return bad()
		}
	case "str":
		if s, ok := got.(string); !ok || s != e.S {
			return bad()
		}
	case "bytes":
		if b, ok := got.([]byte); !ok || string(b) != e.S {
			return bad()
		}
	case "date":
		if d, ok := got.(time.Time); !ok || !d.Equal(e.T) {
			return bad()
		}
	case "obj":
		o, ok := got.(amf.Object)
		if !ok || o == nil {
			return bad()
		}
		return matchObj(e, o, path, seen)
	case "typed":
		o, ok := got.(amf.TypedObject)
		if !ok || o.Type != e.S || o.Object == nil {
			return bad()
		}
		return matchObj(e, o.Object, path, seen)
	case "arr":
		a, ok := got.(amf.Array)
		if !ok || len(a) != len(e.Elems) {
			return bad()
		}
		for i := range a {
			if err := matchAt(e.Elems[i], a[i], fmt.Sprintf("%s[%d]", path, i), seen); err != nil {
				return err
			}
		}
	case "ecma":
		dense, assoc, ok := ecmaParts(got)
		if !ok || len(dense) != len(e.Elems) {
			return bad()
		}
		for i := range dense {
			if err := matchAt(e.Elems[i], dense[i], fmt.Sprintf("%s[%d]", path, i), seen); err != nil {
				return err
			}
		}
		if len(assoc) != len(e.Keys) {
			return fmt.Errorf("%s: want %d associative values, got %d", path, len(e.Keys), len(assoc))
		}
		return matchObj(e, assoc, path, seen)
	case "alias":
		return matchAt(e.Vals[0], got, path, seen)
	case "any":
	default:
		panic("bad expectation " + e.K)
	}
	return nil
}

func matchObj(e *Exp, o amf.Object, path string, seen map[pair]bool) error {
	p := pair{e, reflect.ValueOf(o).Pointer()}
	if seen[p] {
		return nil
	}
	seen[p] = true
	if !e.Loose && len(o) != len(e.Keys) {
		return fmt.Errorf("%s: want %d members, got %d", path, len(e.Keys), len(o))
	}
	for i, k := range e.Keys {
		v, ok := o[k]
		if !ok {
			return fmt.Errorf("%s: member %q is missing", path, clip(k, 60))
		}
		if err := matchAt(e.Vals[i], v, path+"."+clip(k, 30), seen); err != nil {
			return err
		}
	}
	return nil
}

func safeSprint(v interface{}) (s string) {
	switch x := v.(type) {
	case amf.Object:
		return fmt.Sprintf("Object with %d members", len(x))
	case amf.Array:
		return fmt.Sprintf("Array with %d elements", len(x))
	case amf.TypedObject:
		return fmt.Sprintf("TypedObject %q with %d members", clip(x.Type, 30), len(x.Object))
	case string:
		return fmt.Sprintf("%T %q", v, clip(x, 80))
	}
	k := reflect.ValueOf(v).Kind()
	if k == reflect.Map || k == reflect.Struct || k == reflect.Slice {
		return fmt.Sprintf("%T", v)
	}
	return fmt.Sprintf("%T %v", v, v)
}

// ecmaParts reads the dense and associative parts of a decoded AMF3 array.
func ecmaParts(got interface{}) (dense amf.Array, assoc amf.Object, ok bool) {
	a, isEcma := got.(amf.EcmaArrayAMF3)
	if !isEcma {
		return nil, nil, false
	}
	v := reflect.ValueOf(&a).Elem()
	found := 0
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		x := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
		switch y := x.(type) {
		case amf.Array:
			dense = y
			found++
		case amf.Object:
			assoc = y
			found++
		}
	}
	return dense, assoc, found == 2
}

func matchAll(exps []*Exp, got []interface{}) error {
	if len(exps) != len(got) {
		return fmt.Errorf("want %d values, got %d", len(exps), len(got))
	}
	for i := range exps {
		if err := matchExp(exps[i], got[i]); err != nil {
			return fmt.Errorf("value %d: %w", i, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- Go values (A01, A03, A07)

// Val is a Go value handed to an encoder.
type Val struct {
	K    string `json:"k"`
	I    int64  `json:"i,omitempty"`
	U    uint64 `json:"u,omitempty"`
	S    Str    `json:"s,omitempty"`
	L    int    `json:"l,omitempty"` // strings and bytes: S repeated to this length
	Keys []Val  `json:"keys,omitempty"`
	E    []Val  `json:"e,omitempty"`
	Rep  int    `json:"rep,omitempty"` // at top level: stands for so many members
	Mem  int    `json:"mem,omitempty"` // the kind of these members
}

func (v Val) str() string {
	if v.L == 0 {
		return string(v.S)
	}
	s := string(v.S)
	if s == "" {
		s = "x"
	}
	return strings.Repeat(s, v.L/len(s)+1)[:v.L]
}

type (
	namedInt    int32
	namedUint   uint16
	namedFloat  float32
	namedString string
	namedBool   bool
	namedSlice  []string
	someStruct  struct{ A int }
)

// goVal builds the Go value.
func goVal(v Val) interface{} {
	switch v.K {
	case "nil", "undef", "unsup":
		return nil
	case "bool":
		return v.I != 0
	case "nbool":
		return namedBool(v.I != 0)
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.U)
	case "uint8":
		return uint8(v.U)
	case "uint16":
		return uint16(v.U)
	case "uint32":
		return uint32(v.U)
	case "uint64":
		return v.U
	case "nint":
		return namedInt(v.I)
	case "nuint":
		return namedUint(v.U)
	case "float32":
		return math.Float32frombits(uint32(v.U))
	case "nfloat":
		return namedFloat(math.Float32frombits(uint32(v.U)))
	case "float64":
		return math.Float64frombits(v.U)
	case "str", "xml":
		return v.str()
	case "nstr":
		return namedString(v.str())
	case "bytes":
		if v.I == 1 && v.str() == "" {
			return []byte(nil)
		}
		return []byte(v.str())
	case "date":
		t := time.Unix(v.I, int64(v.U%1e9))
		switch v.L % 3 {
		case 0:
			return t.UTC()
		case 1:
			return t.In(time.FixedZone("x", 5*3600+1800))
		}
		return t.In(time.FixedZone("y", -9*3600))
	case "obj", "ecma":
		return goObj(v)
	case "nilobj":
		return amf.Object(nil)
	case "typed":
		return amf.TypedObject{Type: v.str(), Object: goObj(v)}
	case "arr":
		a := amf.Array{}
		for _, e := range v.E {
			a = append(a, goVal(e))
		}
		return a
	case "ifaces":
		a := []interface{}{}
		for _, e := range v.E {
			a = append(a, goVal(e))
		}
		return a
	case "ints":
		return v.ints()
	case "floats":
		return [2]float64{float64(v.I), math.Float64frombits(v.U)}
	case "strs":
		return namedSlice{v.str(), string(v.S)}
	case "objs":
		a := []amf.Object{}
		for _, e := range v.E {
			a = append(a, goObj(e))
		}
		return a
	case "nilarr":
		return amf.Array(nil)
	// values no encoder supports
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "complex":
		return complex(1, 2)
	case "struct":
		return someStruct{1}
	case "ptr":
		x := 5
		return &x
	case "cycle": // a value that contains itself
		o := amf.Object{"a": 1.0}
		o["self"] = o
		return o
	case "cyclearr":
		a := amf.Array{nil, true}
		a[0] = a
		return a
	case "cycletyped":
		o := amf.Object{}
		o["t"] = amf.TypedObject{Type: "T", Object: o}
		return o
	case "cyclefar":
		a := make([]interface{}, 1)
		a[0] = amf.Object{"x": amf.Array{amf.TypedObject{Object: amf.Object{"y": a}}}}
		return a
	case "nilptr":
		return (*int)(nil)
	case "map":
		return map[int]int{1: 2}
	}
	panic("bad value kind " + v.K)
}

func goObj(v Val) amf.Object {
	o := amf.Object{}
	for i, k := range v.Keys {
		o[k.str()] = goVal(v.E[i])
	}
	return o
}

// exp0 is what AMF0 decoding yields.
func exp0(v Val) *Exp {
	num := func(f float64) *Exp { return &Exp{K: "num", F: f} }
	switch v.K {
	case "nil", "undef", "unsup":
		return &Exp{K: "nil"}
	case "bool", "nbool":
		return &Exp{K: "bool", B: v.I != 0}
	case "int", "int8", "int16", "int32", "int64", "nint":
		return num(float64(reflect.ValueOf(goVal(v)).Int()))
	case "uint", "uint8", "uint16", "uint32", "uint64", "nuint":
		return num(float64(reflect.ValueOf(goVal(v)).Uint()))
	case "float32", "nfloat", "float64":
		return num(reflect.ValueOf(goVal(v)).Float())
	case "str", "xml", "nstr":
		return &Exp{K: "str", S: v.str()}
	case "date":
		return num(float64(v.I) * 1000)
	case "obj", "ecma", "nilobj":
		return expObj("obj", v, exp0)
	case "typed":
		e := expObj("typed", v, exp0)
		e.S = v.str()
		return e
	case "arr", "ifaces", "nilarr":
		e := &Exp{K: "arr"}
		for _, x := range v.E {
			e.Elems = append(e.Elems, exp0(x))
		}
		return e
	case "objs":
		e := &Exp{K: "arr"}
		for _, x := range v.E {
			e.Elems = append(e.Elems, expObj("obj", x, exp0))
		}
		return e
	case "bytes":
		e := &Exp{K: "arr"}
		for _, b := range []byte(v.str()) {
			e.Elems = append(e.Elems, num(float64(b)))
		}
		return e
	case "ints":
		e := &Exp{K: "arr"}
		for _, i := range v.ints() {
			e.Elems = append(e.Elems, num(float64(i)))
		}
		return e
	case "floats":
		return &Exp{K: "arr", Elems: []*Exp{num(float64(v.I)), num(math.Float64frombits(v.U))}}
	case "strs":
		return &Exp{K: "arr", Elems: []*Exp{{K: "str", S: v.str()}, {K: "str", S: string(v.S)}}}
	}
	panic("no AMF0 expectation for " + v.K)
}

// exp3 is what AMF3 decoding yields.
func exp3(v Val) *Exp {
	num := func(f float64) *Exp { return &Exp{K: "num", F: f} }
	integer := func(i int64) *Exp {
		if i >= -(1<<28) && i < 1<<28 {
			return &Exp{K: "int", I: i}
		}
		return num(float64(i))
	}
	switch v.K {
	case "int", "int8", "int16", "int32", "nint":
		return integer(reflect.ValueOf(goVal(v)).Int())
	case "uint8", "uint16", "uint32", "nuint":
		return integer(int64(reflect.ValueOf(goVal(v)).Uint()))
	case "uint":
		if v.U < 1<<28 {
			return integer(int64(v.U))
		}
		return num(float64(v.U))
	case "int64", "uint64":
		// 64-bit kinds may come back as integers or as doubles; this is resolved by the caller
		e := exp0(v)
		return e
	case "date":
		return &Exp{K: "date", T: time.Unix(v.I, 0)}
	case "bytes":
		return &Exp{K: "bytes", S: v.str()}
	case "obj", "nilobj", "typed":
		return expObj("obj", v, exp3)
	case "arr", "ifaces", "nilarr":
		e := &Exp{K: "ecma"}
		for _, x := range v.E {
			e.Elems = append(e.Elems, exp3(x))
		}
		return e
	case "objs":
		e := &Exp{K: "ecma"}
		for _, x := range v.E {
			e.Elems = append(e.Elems, expObj("obj", x, exp3))
		}
		return e
	case "ints":
		e := &Exp{K: "ecma"}
		for _, i := range v.ints() {
			e.Elems = append(e.Elems, integer(int64(i)))
		}
		return e
	case "floats":
		return &Exp{K: "ecma", Elems: []*Exp{num(float64(v.I)), num(math.Float64frombits(v.U))}}
	case "strs":
		return &Exp{K: "ecma", Elems: []*Exp{{K: "str", S: v.str()}, {K: "str", S: string(v.S)}}}
	}
	return exp0(v)
}

func expObj(kind string, v Val, f func(Val) *Exp) *Exp {
	e := &Exp{K: kind}
	for i, k := range v.Keys {
		e.Keys = append(e.Keys, k.str())
		e.Vals = append(e.Vals, f(v.E[i]))
	}
	return e
}

// ints are two numbers and L more.
func (v Val) ints() []int16 {
	a := []int16{int16(v.I), int16(v.U)}
	for i := 0; i < v.L; i++ {
		a = append(a, int16(i*31^i>>12))
	}
	return a
}

// complexCount counts the values of v that take a place in the AMF0 reference table.
func complexCount(v Val) int {
	n := 0
	switch v.K {
	case "obj", "ecma", "typed", "nilobj", "arr", "ifaces", "objs", "nilarr", "ints", "floats", "strs", "bytes":
		n = 1
	}
	for _, e := range v.E {
		n += complexCount(e)
	}
	return n
}

// depth of nesting
func valDepth(v Val) int {
	d := 0
	for _, e := range v.E {
		if x := valDepth(e) + 1; x > d {
			d = x
		}
	}
	return d
}

// ---------------------------------------------------------------- generators of Go values

var interestingLens = []int{0, 1, 2, 62, 63, 64, 127, 128, 255, 256, 8191, 8192, 16383, 16384, 65534, 65535, 65536, 65537, 131072}

func genStrVal(t *rapid.T, kind string, maxLen int) Val {
	v := Val{K: kind}
	v.S = Str(genText(t))
	if chance(t, 12) {
		v.L = pick(t, interestingLens...)
		if v.L > maxLen {
			v.L = maxLen
		}
	}
	return v
}

func genText(t *rapid.T) string {
	switch intn(t, 0, 5) {
	case 0, 1:
		return rapid.StringMatching(`[a-zA-Z@_]{0,8}`).Draw(t, "s")
	case 2:
		return rapid.StringN(0, 6, -1).Draw(t, "s")
	case 3:
		return string(genBytes(t, 8))
	case 4:
		return pick(t, "", "\x00", "\x00\x00\x09", "@setDataFrame", "onMetaData", "值", "\xff\xfe")
	}
	return rapid.StringMatching(`[a-c]{0,3}`).Draw(t, "s")
}

var interestingInts = []int64{0, 1, -1, 127, 128, -128, 255, 256, 16383, 16384, 32767, -32768, 65535, 2097151, 2097152,
	1<<28 - 1, 1 << 28, -(1 << 28), -(1 << 28) - 1, 1<<29 - 1, 1 << 29, math.MaxInt32, math.MinInt32, math.MaxUint32, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}

func genInt64(t *rapid.T) int64 {
	if boolean(t) {
		return pick(t, interestingInts...)
	}
	return rapid.Int64().Draw(t, "i64")
}

var interestingFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-310, 268435455, 268435456, -268435456, 1 << 53}

func genFloatBits(t *rapid.T) uint64 {
	if boolean(t) {
		return math.Float64bits(pick(t, interestingFloats...))
	}
	return rapid.Uint64().Draw(t, "bits")
}

// genVal draws a value; amf3 selects the kinds of the AMF3 encoder.
func genVal(t *rapid.T, depth int, amf3 bool) Val {
	kinds := []string{"nil", "bool", "num", "num", "str", "str", "date", "misc"}
	if depth > 0 {
		kinds = append(kinds, "obj", "obj", "arr", "typed", "slices")
	}
	switch pick(t, kinds...) {
	case "nil":
		return Val{K: "nil"}
	case "bool":
		return Val{K: pick(t, "bool", "nbool"), I: int64(intn(t, 0, 1))}
	case "num":
		k := pick(t, "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "nint", "nuint", "float32", "nfloat", "float64", "float64")
		v := Val{K: k}
		switch {
		case k == "float32" || k == "nfloat":
			v.U = uint64(math.Float32bits(float32(math.Float64frombits(genFloatBits(t)))))
		case k == "float64":
			v.U = genFloatBits(t)
		case strings.Contains(k, "uint"):
			v.U = uint64(genInt64(t))
		default:
			v.I = genInt64(t)
		}
		return v
	case "str":
		return genStrVal(t, pick(t, "str", "str", "nstr"), 1<<20)
	case "date":
		return Val{K: "date", I: rapid.Int64Range(-62135596800, 253402300799).Draw(t, "sec"), U: uint64(intn(t, 0, 999999999)), L: intn(t, 0, 2)}
	case "obj":
		v := Val{K: "obj"}
		genMembers(t, &v, depth, amf3)
		return v
	case "typed":
		v := genStrVal(t, "typed", 65535)
		genMembers(t, &v, depth, amf3)
		return v
	case "arr":
		v := Val{K: pick(t, "arr", "ifaces")}
		n := intn(t, 0, 4)
		for i := 0; i < n; i++ {
			v.E = append(v.E, genVal(t, depth-1, amf3))
		}
		return v
	case "slices":
		k := pick(t, "ints", "floats", "strs", "nilarr", "nilobj", "objs", "bytes")
		v := Val{K: k}
		switch k {
		case "ints":
			v.I, v.U = genInt64(t), uint64(genInt64(t))
		case "floats":
			v.I, v.U = int64(intn(t, -5, 5)), genFloatBits(t)
		case "strs", "bytes":
			v.S = Str(genText(t))
			if k == "bytes" && v.S == "" {
				v.I = int64(intn(t, 0, 1))
			}
			if k == "bytes" && chance(t, 10) {
				v.L = pick(t, interestingLens...)
				if !amf3 && v.L > 300 {
					v.L = 300
				}
			}
		case "objs":
			n := intn(t, 0, 3)
			for i := 0; i < n; i++ {
				o := Val{K: "obj"}
				genMembers(t, &o, depth-1, amf3)
				v.E = append(v.E, o)
			}
		}
		return v
	}
	// misc: values only one of the encoders has
	if amf3 {
		return genStrVal(t, "bytes", 1<<20)
	}
	return genStrVal(t, "str", 1<<20)
}

func genMembers(t *rapid.T, v *Val, depth int, amf3 bool) {
	n := intn(t, 0, 4)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := genStrVal(t, "str", 65535)
		if k.str() == "" && !amf3 {
			k.S, k.L = "k", 0
		}
		if seen[k.str()] {
			continue
		}
		seen[k.str()] = true
		v.Keys = append(v.Keys, k)
		if depth <= 0 {
			v.E = append(v.E, Val{K: "nil"})
		} else {
			v.E = append(v.E, genVal(t, depth-1, amf3))
		}
	}
}

// deepVal nests containers n levels deep.
func deepVal(n int, kind string) Val {
	v := Val{K: "bool", I: 1}
	for i := 0; i < n; i++ {
		w := Val{K: kind, E: []Val{v}}
		if kind == "obj" || kind == "typed" {
			w.Keys = []Val{{K: "str", S: "k"}}
			w.S = "T"
			if kind == "obj" {
				w.S = ""
			}
		}
		v = w
	}
	return v
}

// ---------------------------------------------------------------- wire writers

type wire struct{ bytes.Buffer }

func (w *wire) u16(v int)     { binary.Write(w, binary.BigEndian, uint16(v)) }
func (w *wire) u32(v uint32)  { binary.Write(w, binary.BigEndian, v) }
func (w *wire) u64(v uint64)  { binary.Write(w, binary.BigEndian, v) }
func (w *wire) b(v ...byte)   { w.Write(v) }
func (w *wire) utf8(s string) { w.u16(len(s)); w.WriteString(s) }

// u29 writes a variable length 29-bit integer.
func (w *wire) u29(v uint32) {
	switch {
	case v < 1<<7:
		w.b(byte(v))
	case v < 1<<14:
		w.b(byte(v>>7)|0x80, byte(v)&0x7f)
	case v < 1<<21:
		w.b(byte(v>>14)|0x80, byte(v>>7)|0x80, byte(v)&0x7f)
	case v < 1<<29:
		w.b(byte(v>>22)|0x80, byte(v>>15)|0x80, byte(v>>8)|0x80, byte(v))
	default:
		panic("u29 out of range")
	}
}

// Node is a value on the wire, of AMF0 or AMF3.
type Node struct {
	K    string `json:"k"`
	U    uint64 `json:"u,omitempty"`
	I    int64  `json:"i,omitempty"`
	S    Str    `json:"s,omitempty"`
	L    int    `json:"l,omitempty"`
	Keys []Node `json:"keys,omitempty"` // names (kind "str"; in AMF3 possibly references)
	E    []Node `json:"e,omitempty"`
	D    []Node `json:"d,omitempty"` // AMF3 arrays: dense part; objects: dynamic members' values
	DK   []Node `json:"dk,omitempty"`
	Fl   []int  `json:"fl,omitempty"` // flags of external messages
	// Rep, at top level, stands for so many members; I tells which part of an AMF3 value has them
	Rep int `json:"rep,omitempty"`
	Mem int `json:"mem,omitempty"` // the kind of these members
}

// wideNodes and wideKinds are the kinds of members.
var wideNodes = []Node{{K: "bool"}, {K: "nil"}, {K: "undef"}, {K: "num", U: 5}, {K: "str"}, {K: "str", S: "x"}, {K: "obj"}, {K: "arr"}, {K: "date"}, {K: "typed", S: "T"}, {K: "xml", S: "y"}}
var wideKinds = []Val{{K: "bool"}, {K: "nil"}, {K: "int", I: 5}, {K: "float64", U: 5}, {K: "str"}, {K: "str", S: "x"}, {K: "obj"}, {K: "nilobj"}, {K: "nilarr"}, {K: "date"}, {K: "typed", S: "T"}, {K: "ints"}, {K: "nstr", S: "z"}, {K: "bytes", S: "b"}}

// wide spells out the members of the nodes with a Rep.
func wide(ns []Node, amf3 bool) []Node {
	out := append([]Node(nil), ns...)
	for i, n := range out {
		if n.Rep == 0 {
			continue
		}
		v := make([]Node, n.Rep)
		var keys []Node
		for j := range v {
			if v[j] = wideNodes[n.Mem%len(wideNodes)]; amf3 && v[j].K == "typed" {
				v[j].K, v[j].S = "bytes", "b"
			}
			if v[j].K == "bool" {
				v[j].I = int64(j>>3^j) & 1
			}
		}
		if n.K != "arr" || amf3 && n.I == 1 {
			keys = make([]Node, n.Rep)
			for j := range keys {
				keys[j] = Node{K: "str", S: Str("k" + strconv.Itoa(j))}
			}
		}
		switch {
		case !amf3:
			n.Keys, n.E = keys, v
		case n.K == "arr" && n.I == 0:
			n.D = v
		case n.K == "arr" || n.I == 0:
			n.Keys, n.E = keys, v
		default:
			n.U, n.DK, n.D = 1, keys, v
		}
		n.I, n.Rep, n.Mem = 0, 0, 0
		out[i] = n
	}
	return out
}

// wideVals does the same for values.
func wideVals(vs []Val) []Val {
	out := append([]Val(nil), vs...)
	for i, v := range out {
		if v.Rep == 0 {
			continue
		}
		v.E = make([]Val, v.Rep)
		for j := range v.E {
			if v.E[j] = wideKinds[v.Mem%len(wideKinds)]; v.Mem == 0 {
				v.E[j].I = int64(j>>3^j) & 1
			}
			if v.K != "arr" {
				v.Keys = append(v.Keys, Val{K: "str", S: Str("k" + strconv.Itoa(j))})
			}
		}
		v.Rep, v.Mem = 0, 0
		out[i] = v
	}
	return out
}

func (n Node) str() string { return Val{S: n.S, L: n.L}.str() }

// enc0 writes AMF0 and keeps the reference tables a conforming peer would.
type enc0 struct {
	w    wire
	refs []*Exp
	done []bool // the value is complete
	e3   enc3
	bad  bool // wrote a reference past the end
	nref int
	n3   int // switched values so far
}

// badMarks0 are the AMF0 markers without a value: movie clip, object end, record set and the undefined ones.
var badMarks0 = func() []byte {
	b := []byte{4, 9, 14}
	for i := 18; i < 256; i++ {
		b = append(b, byte(i))
	}
	return b
}()

func (e *enc0) value(n Node) *Exp {
	w := &e.w
	switch n.K {
	case "num":
		w.b(0)
		w.u64(n.U)
		return &Exp{K: "num", F: math.Float64frombits(n.U)}
	case "bool":
		w.b(1, byte(n.I))
		return &Exp{K: "bool", B: byte(n.I) != 0}
	case "str":
		w.b(2)
		w.utf8(n.str())
		return &Exp{K: "str", S: n.str()}
	case "long":
		w.b(12)
		w.u32(uint32(len(n.str())))
		w.WriteString(n.str())
		return &Exp{K: "str", S: n.str()}
	case "xml":
		w.b(15)
		w.u32(uint32(len(n.str())))
		w.WriteString(n.str())
		return &Exp{K: "str", S: n.str()}
	case "nil":
		w.b(5)
		return &Exp{K: "nil"}
	case "undef":
		w.b(6)
		return &Exp{K: "nil"}
	case "unsup":
		w.b(13)
		return &Exp{K: "nil"}
	case "date":
		w.b(11)
		w.u64(n.U)
		w.u16(int(n.I))
		return &Exp{K: "num", F: math.Float64frombits(n.U)}
	case "obj", "ecma", "typed":
		x := &Exp{K: "obj"}
		switch n.K {
		case "obj":
			w.b(3)
		case "ecma":
			w.b(8)
			w.u32(uint32(n.U))
		case "typed":
			w.b(16)
			w.utf8(n.str())
			x.K, x.S = "typed", n.str()
		}
		at := len(e.refs)
		e.refs, e.done = append(e.refs, x), append(e.done, n.K != "typed")
		for i, k := range n.Keys {
			w.utf8(k.str())
			v := e.value(n.E[i])
			x.Keys, x.Vals = append(x.Keys, k.str()), append(x.Vals, v)
		}
		w.b(0, 0, 9)
		e.done[at] = true
		return x
	case "arr":
		w.b(10)
		w.u32(uint32(len(n.E)))
		x := &Exp{K: "arr"}
		at := len(e.refs)
		e.refs, e.done = append(e.refs, x), append(e.done, false)
		for _, c := range n.E {
			x.Elems = append(x.Elems, e.value(c))
		}
		e.done[at] = true
		return x
	case "ref":
		var ok []int
		for i := range e.refs {
			if e.done[i] && i < 65536 {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 {
			return e.value(Node{K: "nil"})
		}
		i := ok[int(n.I)%len(ok)]
		w.b(7)
		w.u16(i)
		e.nref++
		return e.refs[i]
	case "badref":
		w.b(7)
		w.u16(len(e.refs) + int(n.I))
		e.bad = true
		return &Exp{K: "any"}
	case "badend": // an object of kind U whose empty name is not followed by the end marker
		switch n.U % 3 {
		case 0:
			w.b(3)
		case 1:
			w.b(8, 0, 0, 0, 1)
		case 2:
			w.b(16)
			w.utf8(n.str())
		}
		e.refs, e.done = append(e.refs, nil), append(e.done, false)
		m := byte(n.I)
		if m == 9 {
			m = 5
		}
		w.b(0, 1, 'k', 5, 0, 0, m, 0, 0, 9)
		e.bad = true
		return &Exp{K: "any"}
	case "badmark": // a type that is not defined or not implemented
		w.b(badMarks0[int(n.I)%len(badMarks0)])
		w.WriteString(n.str())
		e.bad = true
		return &Exp{K: "any"}
	case "amf3":
		w.b(17)
		// whether the AMF3 tables survive from one switched value to the next is left open: only
		// the first one uses references
		e.e3.noRefs = e.n3 > 0
		e.n3++
		e.e3.w.Reset()
		x := e.e3.value(n.E[0])
		w.Write(e.e3.w.Bytes())
		e.bad = e.bad || e.e3.bad
		return x
	}
	panic("bad AMF0 node " + n.K)
}

// enc3 writes AMF3.
type enc3 struct {
	w      wire
	strs   []string
	strAt  map[string]int // where a string stands first in strs
	objs   []*Exp
	kinds  []string // of objs: obj, array, date, xml, xmldoc, bytes
	done   []bool
	traits []trait3
	noRefs bool // write everything inline
	bad    bool
	nref   int // references written
}

type trait3 struct {
	typ     string
	ext     bool
	dynamic bool
	props   []string
}

// str writes a string (without marker): inline, or as a reference if asked to and possible.
func (e *enc3) str(n Node) string {
	if n.K == "sref" && len(e.strs) > 0 && !e.noRefs {
		i := int(n.I) % len(e.strs)
		e.w.u29(uint32(i) << 1)
		e.nref++
		return e.strs[i]
	}
	s := n.str()
	e.w.u29(uint32(len(s))<<1 | 1)
	e.w.WriteString(s)
	if s != "" {
		if _, ok := e.strAt[s]; !ok {
			if e.strAt == nil {
				e.strAt = map[string]int{}
			}
			e.strAt[s] = len(e.strs)
		}
		e.strs = append(e.strs, s)
	}
	return s
}

func (e *enc3) key(n Node, used map[string]bool) (string, bool) {
	// keys must be non-empty and new: look at what would be written first
	s := n.str()
	if n.K == "sref" && len(e.strs) > 0 && !e.noRefs {
		s = e.strs[int(n.I)%len(e.strs)]
	}
	if s == "" || used[s] {
		return "", false
	}
	used[s] = true
	return e.str(n), true
}

func (e *enc3) slot(x *Exp, kind string, done bool) int {
	e.objs, e.kinds, e.done = append(e.objs, x), append(e.kinds, kind), append(e.done, done)
	return len(e.objs) - 1
}

// objRef writes a reference to an earlier value of the kind, if there is one.
func (e *enc3) objRef(marker byte, kind string, i int64) *Exp {
	if e.noRefs {
		return nil
	}
	var ok []int
	for j := range e.objs {
		if e.done[j] && (e.kinds[j] == kind || kind == "obj" && (e.kinds[j] == "ext" || e.kinds[j] == "col")) {
			ok = append(ok, j)
		}
	}
	if len(ok) == 0 {
		return nil
	}
	j := ok[int(i)%len(ok)]
	e.w.b(marker)
	e.w.u29(uint32(j) << 1)
	e.nref++
	return e.objs[j]
}

var extNames = [][]string{{"body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive"}, {"clientIdBytes", "messageIdBytes"}}
var asyncNames = [][]string{{"correlationId", "correlationIdBytes"}}

// external writes one flag block of an external message; vals supplies the member values in turn.
func (e *enc3) external(x *Exp, names [][]string, flags []int, next func() Node) {
	if len(flags) == 0 {
		flags = []int{0}
	}
	for i, f := range flags {
		b := byte(f) & 0x7f
		if i < len(flags)-1 {
			b |= 0x80
		}
		e.w.b(b)
	}
	// values follow all flags
	for i, f := range flags {
		for bit := 0; bit < 7; bit++ {
			if f>>uint(bit)&1 == 0 {
				continue
			}
			v := e.value(next())
			if i < len(names) && bit < len(names[i]) {
				x.Keys, x.Vals = append(x.Keys, names[i][bit]), append(x.Vals, v)
			}
		}
	}
}

func (e *enc3) value(n Node) *Exp {
	w := &e.w
	switch n.K {
	case "undef":
		w.b(0)
		return &Exp{K: "nil"}
	case "nil":
		w.b(1)
		return &Exp{K: "nil"}
	case "bool":
		w.b(2 + byte(n.I&1))
		return &Exp{K: "bool", B: n.I&1 == 1}
	case "int":
		w.b(4)
		w.u29(uint32(n.I) & 0x1fffffff)
		v := int64(int32(uint32(n.I)<<3) >> 3)
		return &Exp{K: "int", I: v}
	case "num":
		w.b(5)
		w.u64(n.U)
		return &Exp{K: "num", F: math.Float64frombits(n.U)}
	case "str", "sref":
		w.b(6)
		return &Exp{K: "str", S: e.str(n)}
	case "xml", "xmldoc":
		m := byte(7)
		if n.K == "xml" {
			m = 11
		}
		if n.U == 1 {
			if x := e.objRef(m, n.K, n.I); x != nil {
				return x
			}
		}
		w.b(m)
		w.u29(uint32(len(n.str()))<<1 | 1)
		w.WriteString(n.str())
		x := &Exp{K: "str", S: n.str()}
		e.slot(x, n.K, true)
		return x
	case "bytes":
		if n.U == 1 {
			if x := e.objRef(12, "bytes", n.I); x != nil {
				return x
			}
		}
		w.b(12)
		w.u29(uint32(len(n.str()))<<1 | 1)
		w.WriteString(n.str())
		x := &Exp{K: "bytes", S: n.str()}
		e.slot(x, "bytes", true)
		return x
	case "date":
		if n.U == 1 {
			if x := e.objRef(8, "date", n.I); x != nil {
				return x
			}
		}
		w.b(8, 1)
		w.u64(math.Float64bits(float64(n.I) * 1000))
		x := &Exp{K: "date", T: time.Unix(n.I, 0)}
		e.slot(x, "date", true)
		return x
	case "arr":
		if n.U == 1 {
			if x := e.objRef(9, "array", n.I); x != nil {
				return x
			}
		}
		w.b(9)
		w.u29(uint32(len(n.D))<<1 | 1)
		x := &Exp{K: "ecma"}
		at := e.slot(x, "array", false)
		used := map[string]bool{}
		for i, k := range n.Keys {
			s, ok := e.key(k, used)
			if !ok {
				continue
			}
			v := e.value(n.E[i])
			x.Keys, x.Vals = append(x.Keys, s), append(x.Vals, v)
		}
		w.b(1)
		for _, c := range n.D {
			x.Elems = append(x.Elems, e.value(c))
		}
		e.done[at] = true
		return x
	case "objref":
		if x := e.objRef(10, "obj", n.I); x != nil {
			return x
		}
		return e.value(Node{K: "nil"})
	case "obj": // inline traits: S type name, Keys sealed, U&1 dynamic
		w.b(10)
		tr := trait3{dynamic: n.U&1 == 1}
		used := map[string]bool{}
		// the number of sealed names comes first: find those that can be written
		var keys []Node
		probe := map[string]bool{}
		for _, k := range n.Keys {
			s := k.str() // names are written inline unless the peer refers to them; see below
			if s == "" || probe[s] {
				continue
			}
			probe[s] = true
			keys = append(keys, k)
		}
		u := uint32(3) | uint32(len(keys))<<4
		if tr.dynamic {
			u |= 8
		}
		w.u29(u)
		tr.typ = e.strAuto(n.str(), n.Fl)
		for i, k := range keys {
			s := e.strAuto(k.str(), append([]int{i}, n.Fl...))
			used[s] = true
			tr.props = append(tr.props, s)
		}
		e.traits = append(e.traits, tr)
		return e.members(tr, n, used)
	case "tobj": // an object with a reference to earlier traits
		var ok []int
		for i, tr := range e.traits {
			if !tr.ext {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 || e.noRefs {
			m := n
			m.K = "obj"
			return e.value(m)
		}
		i := ok[int(n.I)%len(ok)]
		w.b(10)
		w.u29(uint32(i)<<2 | 1)
		e.nref++
		tr := e.traits[i]
		used := map[string]bool{}
		for _, p := range tr.props {
			used[p] = true
		}
		return e.members(tr, n, used)
	case "ext": // S: DSA, DSK, collection or a registered class
		w.b(10)
		name := n.str()
		idx := -1
		for i, tr := range e.traits {
			if tr.ext && tr.typ == name && !e.noRefs {
				idx = i
			}
		}
		if idx >= 0 && n.U&1 == 1 {
			w.u29(uint32(idx)<<2 | 1)
			e.nref++
		} else {
			w.u29(7)
			e.strAuto(name, n.Fl)
			e.traits = append(e.traits, trait3{typ: name, ext: true})
		}
		x := &Exp{K: "obj", Loose: true}
		kind := "ext"
		if name == "flex.messaging.io.ArrayCollection" {
			kind = "col"
		}
		at := e.slot(x, kind, false)
		j := 0
		next := func() Node {
			j++
			if len(n.E) == 0 {
				return Node{K: "int", I: int64(j)}
			}
			return n.E[(j-1)%len(n.E)]
		}
		part := func(i int) []int { // flag bytes of block i
			var out []int
			for k := i; k < len(n.Fl); k += 3 {
				out = append(out, n.Fl[k])
			}
			return out
		}
		switch name {
		case "DSA", "DSK":
			e.external(x, extNames, part(0), next)
			e.external(x, asyncNames, part(1), next)
			if name == "DSK" {
				e.external(x, nil, part(2), next)
			}
		case "flex.messaging.io.ArrayCollection":
			y := e.value(next())
			*x = Exp{K: "alias", Vals: []*Exp{y}} // y may be an object still being written
		case "verif.Pair": // two values and a raw byte
			a := e.value(next())
			w.b(byte(n.I))
			b := e.value(next())
			*x = Exp{K: "obj", Keys: []string{"first", "raw", "second"}, Vals: []*Exp{a, {K: "num", F: float64(byte(n.I))}, b}}
		default:
			panic("bad external class " + name)
		}
		e.done[at] = true
		return x
	case "badstr": // a string reference past the end
		w.b(6)
		w.u29(uint32(len(e.strs)+int(n.I)) << 1)
		e.bad = true
		return &Exp{K: "any"}
	case "badobj": // an object reference past the end, under the marker of U
		m := []byte{7, 8, 9, 10, 11, 12}[n.U%6]
		w.b(m)
		w.u29(uint32(len(e.objs)+int(n.I)) << 1)
		e.bad = true
		return &Exp{K: "any"}
	case "badmark":
		w.b(13 + byte(n.I%243))
		w.WriteString(n.str())
		e.bad = true
		return &Exp{K: "any"}
	case "badkind": // a reference to an entry of another type
		want := []string{"xmldoc", "date", "array", "xml", "bytes"}[n.U%5]
		i := len(e.objs) + int(n.I)
		for j := range e.objs {
			k := e.kinds[(j+int(n.I))%len(e.objs)]
			if k == "col" { // it stands for its value
				if y := e.objs[(j+int(n.I))%len(e.objs)]; y.K != "alias" || y.Vals[0].K != "nil" {
					continue
				}
			}
			if k != want && !(k == "xml" && want == "xmldoc") && !(k == "xmldoc" && want == "xml") {
				i = (j + int(n.I)) % len(e.objs)
				break
			}
		}
		w.b([]byte{7, 8, 9, 11, 12}[n.U%5])
		w.u29(uint32(i) << 1)
		e.bad = true
		return &Exp{K: "any"}
	case "badclass": // an externalizable object of a class nobody registered
		w.b(10)
		w.u29(7)
		w.u29(uint32(len(n.str()))<<1 | 1)
		w.WriteString(n.str())
		w.b(1, 1, 1, 1, 1, 1, 1, 1)
		e.bad = true
		return &Exp{K: "any"}
	case "badtrait":
		w.b(10)
		w.u29(uint32(len(e.traits)+int(n.I))<<2 | 1)
		e.bad = true
		return &Exp{K: "any"}
	}
	panic("bad AMF3 node " + n.K)
}

// strAuto writes a name, as a reference when the string is in the table and fl asks for it.
func (e *enc3) strAuto(s string, fl []int) string {
	want := 0
	for _, f := range fl {
		want += f
	}
	if s != "" && want%2 == 1 && !e.noRefs {
		if i, ok := e.strAt[s]; ok {
			e.w.u29(uint32(i) << 1)
			e.nref++
			return s
		}
	}
	return e.str(Node{S: Str(s)})
}

func (e *enc3) members(tr trait3, n Node, used map[string]bool) *Exp {
	x := &Exp{K: "obj"}
	e.slot(x, "obj", true)
	for i, p := range tr.props {
		v := Node{K: "int", I: int64(i)}
		if len(n.E) > 0 {
			v = n.E[i%len(n.E)]
			if i >= len(n.E) && containsRefOrDeep(v) {
				v = Node{K: "int", I: int64(i)}
			}
		}
		xv := e.value(v)
		x.Keys, x.Vals = append(x.Keys, p), append(x.Vals, xv)
	}
	if tr.dynamic {
		for i, k := range n.DK {
			s, ok := e.key(k, used)
			if !ok {
				continue
			}
			v := e.value(n.D[i])
			x.Keys, x.Vals = append(x.Keys, s), append(x.Vals, v)
		}
		e.w.b(1)
	}
	return x
}

func containsRefOrDeep(n Node) bool { return len(n.E) > 0 || len(n.D) > 0 || n.L > 0 }

// pairHandler is the registered external class.
func pairHandler(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
	a, err := ed.Decode(r)
	if err != nil {
		return nil, err
	}
	raw := make([]byte, 1)
	if _, err := io.ReadFull(r, raw); err != nil {
		return nil, err
	}
	b, err := ed.Decode(r)
	if err != nil {
		return nil, err
	}
	return amf.Object{"first": a, "raw": float64(raw[0]), "second": b}, nil
}

// ---------------------------------------------------------------- generators of wire values

func genName(t *rapid.T) Node {
	if chance(t, 30) {
		return Node{K: "sref", I: int64(intn(t, 0, 20)), S: Str(pick(t, "a", "b", "key"))}
	}
	n := Node{K: "str", S: Str(pick(t, "a", "b", "c", "key", "name", "\x00", "é", "duration"))}
	if chance(t, 4) {
		n.L = pick(t, interestingLens...)
		if n.L > 65535 {
			n.L = 65535
		}
	}
	return n
}

func genStrNode(t *rapid.T, kind string, maxLen int) Node {
	v := genStrVal(t, kind, maxLen)
	return Node{K: kind, S: v.S, L: v.L}
}

func genNode0(t *rapid.T, depth int, amf3 *int) Node {
	kinds := []string{"num", "bool", "str", "nil", "undef", "unsup", "date", "long", "xml", "ref", "ref"}
	if depth > 0 {
		kinds = append(kinds, "obj", "obj", "obj", "ecma", "ecma", "typed", "typed", "arr", "arr", "amf3")
	}
	k := pick(t, kinds...)
	n := Node{K: k}
	switch k {
	case "num":
		n.U = genFloatBits(t)
	case "bool":
		n.I = int64(pick(t, 0, 1, 2, 255, 128))
	case "str":
		return genStrNode(t, k, 65535)
	case "long", "xml":
		return genStrNode(t, k, 1<<20)
	case "date":
		n.U, n.I = genFloatBits(t), int64(pick(t, 0, 1, 60, 0xffff, 0xfda8, 0x8000))
	case "ref":
		n.I = int64(intn(t, 0, 40))
	case "obj", "ecma", "typed":
		if k == "typed" {
			n = genStrNode(t, k, 65535)
		}
		if k == "ecma" {
			n.U = uint64(pick(t, 0, 1, 2, 3, 100, 1<<31, 1<<32-1))
		}
		c := intn(t, 0, 4)
		used := map[string]bool{}
		for i := 0; i < c; i++ {
			key := genName(t)
			key.K = "str"
			s := key.str()
			if s == "" || used[s] {
				continue
			}
			used[s] = true
			n.Keys = append(n.Keys, key)
			n.E = append(n.E, genNode0(t, depth-1, amf3))
		}
	case "arr":
		c := intn(t, 0, 4)
		for i := 0; i < c; i++ {
			n.E = append(n.E, genNode0(t, depth-1, amf3))
		}
	case "amf3":
		*amf3++
		n.E = []Node{genNode3(t, depth-1, *amf3 == 1)}
	}
	return n
}

func genNode3(t *rapid.T, depth int, refs bool) Node {
	kinds := []string{"undef", "nil", "bool", "int", "int", "num", "str", "str", "xml", "xmldoc", "bytes", "date"}
	if refs {
		kinds = append(kinds, "sref", "sref", "objref", "objref", "rxml", "rbytes", "rdate", "rarr")
	}
	if depth > 0 {
		kinds = append(kinds, "arr", "arr", "obj", "obj", "obj", "ext", "ext")
		if refs {
			kinds = append(kinds, "tobj", "tobj")
		}
	}
	k := pick(t, kinds...)
	n := Node{K: k}
	if len(k) > 1 && k[0] == 'r' {
		n = Node{K: k[1:], U: 1, I: int64(intn(t, 0, 9))}
		if n.K == "xml" {
			n.K = pick(t, "xml", "xmldoc")
		}
		return n
	}
	switch k {
	case "bool":
		n.I = int64(intn(t, 0, 1))
	case "int":
		n.I = genInt64(t)
	case "num":
		n.U = genFloatBits(t)
	case "str", "xml", "xmldoc", "bytes":
		return genStrNode(t, k, 1<<20)
	case "date":
		n.I = rapid.Int64Range(-62135596800, 253402300799).Draw(t, "sec")
	case "sref", "objref":
		n.I = int64(intn(t, 0, 20))
		n.S = "x"
	case "arr":
		c := intn(t, 0, 3)
		for i := 0; i < c; i++ {
			n.Keys = append(n.Keys, name3(t, refs))
			n.E = append(n.E, genNode3(t, depth-1, refs))
		}
		c = intn(t, 0, 4)
		for i := 0; i < c; i++ {
			n.D = append(n.D, genNode3(t, depth-1, refs))
		}
	case "obj", "tobj":
		n.I = int64(intn(t, 0, 9))
		n.U = uint64(intn(t, 0, 1))
		n.S = Str(pick(t, "", "", "T", "com.example.Type", "a"))
		n.Fl = []int{intn(t, 0, 1)}
		c := intn(t, 0, 4)
		for i := 0; i < c; i++ {
			key := name3(t, false)
			n.Keys = append(n.Keys, key)
			n.E = append(n.E, genNode3(t, depth-1, refs))
		}
		c = intn(t, 0, 3)
		for i := 0; i < c; i++ {
			n.DK = append(n.DK, name3(t, refs))
			n.D = append(n.D, genNode3(t, depth-1, refs))
		}
	case "ext":
		n.S = Str(pick(t, "DSA", "DSK", "flex.messaging.io.ArrayCollection", "verif.Pair"))
		n.I = int64(intn(t, 0, 255))
		n.U = uint64(intn(t, 0, 1))
		c := pick(t, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 18)
		for i := 0; i < c; i++ {
			n.Fl = append(n.Fl, pick(t, 0, 1, 2, intn(t, 0, 127)))
		}
		c = intn(t, 0, 3)
		for i := 0; i < c; i++ {
			n.E = append(n.E, genNode3(t, depth-1, refs))
		}
	}
	return n
}

func name3(t *rapid.T, refs bool) Node {
	n := genName(t)
	if !refs {
		n.K = "str"
	}
	return n
}

// oldHandler is a handler that is registered and then replaced.
func oldHandler(*amf.EnDecAMF3, io.Reader) (interface{}, error) {
	return nil, fmt.Errorf("the handler of the class has been replaced")
}

// decoder0 and decoder3 are decoders with the external class registered.
func decoder0() *amf.EnDecAMF0 {
	d := amf.NewEnDecAMF0()
	d.RegisterExternalHandler("verif.Pair", oldHandler) // replaced
	d.RegisterExternalHandler("verif.Pair", pairHandler)
	return d
}

func decoder3() *amf.EnDecAMF3 {
	d := amf.NewEnDecAMF3()
	d.RegisterExternalHandler("verif.Pair", oldHandler) // replaced
	d.RegisterExternalHandler("verif.Pair", pairHandler)
	return d
}
