package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/moggle-mog/goav/amf"
	"pgregory.net/rapid"
)

const techRapid = "property-based testing (rapid generators with shrinking) against "

// ---------------------------------------------------------------- A01 and A03

// EncCase is a sequence of values for an encoder.
type EncCase struct {
	Vals  []Val `json:"vals"`
	Batch bool  `json:"batch,omitempty"` // EncodeBatch instead of single calls
	Reuse bool  `json:"reuse,omitempty"` // one encoder/decoder object for both directions
	Chunk []int `json:"chunk,omitempty"`
	Plain bool  `json:"plain,omitempty"` // the writer has no methods but Write
}

// out is the buffer as the writer the case asks for.
func (c EncCase) out(w *bytes.Buffer) io.Writer {
	if c.Plain {
		return struct{ io.Writer }{w}
	}
	return w
}

// plan0 builds the expectations of a sequence and the references that are possible.
func encode0(c EncCase, ed *amf.EnDecAMF0, w *bytes.Buffer) (exps []*Exp, marks []int, err error) {
	type slot struct {
		exp *Exp
		idx int
	}
	var slots []slot // values whose place in the reference table is known
	total := 0
	var plain []interface{}
	for i, v := range c.Vals {
		before := w.Len()
		var n int
		var e error
		var x *Exp
		simple := false
		switch v.K {
		case "ref":
			if len(slots) == 0 {
				n, e = ed.Encode(c.out(w), nil)
				x = &Exp{K: "nil"}
			} else {
				s := slots[int(v.I)%len(slots)]
				n, e = ed.EncodeReference(c.out(w), uint16(s.idx))
				x = s.exp
			}
		case "undef":
			n, e = ed.EncodeUndefined(w)
			x = exp0(v)
		case "unsup":
			n, e = ed.EncodeUnsupported(w)
			x = exp0(v)
		case "xml":
			n, e = ed.EncodeXmlDocument(c.out(w), v.str())
			x = exp0(v)
		case "ecma":
			n, e = ed.EncodeEcmaArray(c.out(w), goObj(v))
			x = exp0(v)
		case "amf3":
			n, e = ed.EncodeWithAMF3(c.out(w), goVal(v.E[0]))
			x = exp3(v.E[0])
		default:
			simple = true
			x = exp0(v)
			if c.Batch {
				plain = append(plain, goVal(v))
				if i+1 < len(c.Vals) && isPlain(c.Vals[i+1]) {
					break
				}
				e = ed.EncodeBatch(c.out(w), plain...)
				plain = nil
				n = w.Len() - before
			} else {
				n, e = ed.Encode(c.out(w), goVal(v))
			}
		}
		if e != nil {
			return nil, nil, fmt.Errorf("encoding value %d: %w", i, e)
		}
		if !(simple && c.Batch) && n != w.Len()-before {
			return nil, nil, fmt.Errorf("encoding value %d reports %d bytes, wrote %d", i, n, w.Len()-before)
		}
		exps = append(exps, x)
		marks = append(marks, w.Len())
		if v.K != "amf3" && v.K != "ref" {
			// the value itself, and what lies inside at a known place
			var walk func(v Val, x *Exp, idx int)
			walk = func(v Val, x *Exp, idx int) {
				if complexCount(v) == 0 {
					return
				}
				slots = append(slots, slot{x, idx})
				switch v.K {
				case "arr", "ifaces", "objs":
					at := idx + 1
					for j, c := range v.E {
						walk(c, x.Elems[j], at)
						at += complexCount(c)
					}
				case "obj", "ecma", "typed":
					// map order is not fixed: only a single complex member has a known place
					k, one := 0, -1
					for j, c := range v.E {
						if complexCount(c) > 0 {
							k++
							one = j
						}
					}
					if k == 1 {
						walk(v.E[one], x.Vals[one], idx+1)
					}
				}
			}
			walk(v, x, total)
			total += complexCount(v)
		}
	}
	return exps, marks, nil
}

func isPlain(v Val) bool {
	switch v.K {
	case "ref", "undef", "unsup", "xml", "ecma", "amf3":
		return false
	}
	return true
}

// decodeAll decodes with single calls; exact checks that every value ends where it should.
func decodeAll(d amf.Decoder, r *bytes.Reader, data []byte, ends []int) ([]interface{}, error) {
	var out []interface{}
	for i, end := range ends {
		v, err := d.Decode(r)
		if err != nil {
			return out, fmt.Errorf("decoding value %d: %w", i, err)
		}
		if at := len(data) - r.Len(); at != end {
			return out, fmt.Errorf("decoding value %d ends at byte %d instead of %d", i, at, end)
		}
		out = append(out, v)
	}
	return out, nil
}

func classVals(vs []Val, o *Obs) {
	for _, v := range vs {
		o.Class("kind:" + v.K)
		if v.L >= 65535 {
			o.Class("long string")
		}
		d := valDepth(v)
		if d >= 1 {
			o.Class("nested")
			o.NonTrivial()
		}
		if d >= 3 {
			o.Class("nested 3 or more deep")
		}
	}
	if len(vs) > 1 {
		o.Class("several values")
		o.NonTrivial()
	}
}

func checkA01(c EncCase, o *Obs) error {
	c.Vals = wideVals(c.Vals)
	classVals(c.Vals, o)
	ed := amf.NewEnDecAMF0()
	var w bytes.Buffer
	exps, ends, err := encode0(c, ed, &w)
	if err != nil {
		return err
	}
	data := w.Bytes()
	dec := func() *amf.EnDecAMF0 {
		if c.Reuse {
			return ed
		}
		return amf.NewEnDecAMF0()
	}
	if c.Batch && len(c.Vals) > 1 {
		got, err := amf.NewEnDecAMF0().DecodeBatch(bytes.NewReader(data))
		if err != nil {
			return fmt.Errorf("DecodeBatch: %w", err)
		}
		return matchAll(exps, got)
	}
	got, err := decodeAll(dec(), bytes.NewReader(data), data, ends)
	if err != nil {
		return err
	}
	if err := matchAll(exps, got); err != nil {
		return err
	}
	r := bytes.NewReader(data)
	got, err = amf.NewEnDecAMF0().DecodeBatch(r)
	if err != nil {
		return fmt.Errorf("DecodeBatch: %w", err)
	}
	if r.Len() != 0 {
		return fmt.Errorf("DecodeBatch leaves %d bytes", r.Len())
	}
	if err := matchAll(exps, got); err != nil {
		return fmt.Errorf("DecodeBatch: %w", err)
	}
	return nil
}

func genA01(t *rapid.T) EncCase {
	c := EncCase{Batch: chance(t, 25), Reuse: chance(t, 25), Plain: chance(t, 30)}
	n := intn(t, 1, 6)
	for i := 0; i < n; i++ {
		switch {
		case chance(t, 12) && i > 0:
			c.Vals = append(c.Vals, Val{K: "ref", I: int64(intn(t, 0, 30))})
		case chance(t, 20):
			k := pick(t, "undef", "unsup", "xml", "ecma", "ecma", "amf3", "amf3")
			v := Val{K: k}
			switch k {
			case "xml":
				v = genStrVal(t, k, 1<<20)
			case "ecma":
				genMembers(t, &v, 2, false)
			case "amf3":
				v.E = []Val{no64(genVal(t, 2, true))}
			}
			c.Vals = append(c.Vals, v)
		default:
			c.Vals = append(c.Vals, genVal(t, intn(t, 0, 3), false))
		}
	}
	return c
}

// no64 keeps values as they are; 64-bit integer kinds have one accepted form, see A03.
func no64(v Val) Val { return v }

// wideReps are member counts around the ends of 16 bit counters and the length forms of AMF3.
func wideReps(thorough bool) []int {
	if thorough {
		return []int{16383, 16384, 32768, 65535, 65536, 70000, 131071, 131072, 300000}
	}
	return []int{16384, 65536, 131072}
}

func sweepA01(thorough bool, yield func(EncCase)) {
	for _, k := range []string{"arr", "obj", "typed"} {
		for _, n := range wideReps(thorough) {
			yield(EncCase{Vals: []Val{{K: k, S: "T", Rep: n}, {K: "int", I: 7}}})
		}
		for m := range wideKinds {
			yield(EncCase{Vals: []Val{{K: k, S: "T", Rep: 12000, Mem: m}, {K: "int", I: 7}}})
		}
	}
	yield(EncCase{Vals: []Val{{K: "arr", Rep: 1<<20 + 1}, {K: "int", I: 7}}})
	for _, n := range wideReps(thorough) {
		yield(EncCase{Vals: []Val{{K: "ints", I: -1, U: 2, L: n}, {K: "int", I: 7}}})
	}
	for _, n := range []int{1<<24 - 1, 1 << 24, 1<<24 + 1} {
		yield(EncCase{Vals: []Val{{K: "str", S: "xyz", L: n}, {K: "int", I: 7}}})
	}
	for _, l := range interestingLens {
		for _, s := range []Str{"x", "\xff", "é"} {
			yield(EncCase{Vals: []Val{{K: "str", S: s, L: l}, {K: "int", I: 7}}})
			yield(EncCase{Vals: []Val{{K: "xml", S: s, L: l}}})
			if l > 0 && l <= 65535 {
				yield(EncCase{Vals: []Val{{K: "obj", Keys: []Val{{K: "str", S: s, L: l}}, E: []Val{{K: "nil"}}}}})
			}
			if l <= 65535 {
				yield(EncCase{Vals: []Val{{K: "typed", S: s, L: l, Keys: []Val{{K: "str", S: "k"}}, E: []Val{{K: "nil"}}}, {K: "ref", I: 0}}})
			}
		}
	}
	yield(EncCase{Vals: []Val{{K: "bytes", I: 1}, {K: "int", I: 7}}})
	for _, i := range interestingInts {
		for _, k := range []string{"int", "int8", "int16", "int32", "int64", "nint"} {
			yield(EncCase{Vals: []Val{{K: k, I: i}}})
		}
		for _, k := range []string{"uint", "uint8", "uint16", "uint32", "uint64", "nuint"} {
			yield(EncCase{Vals: []Val{{K: k, U: uint64(i)}}})
		}
	}
	for _, f := range interestingFloats {
		yield(EncCase{Vals: []Val{{K: "float64", U: math.Float64bits(f)}}})
		yield(EncCase{Vals: []Val{{K: "float32", U: uint64(math.Float32bits(float32(f)))}}})
	}
	for _, k := range []string{"arr", "obj", "typed"} {
		for _, n := range []int{10, 100, 1000} {
			yield(EncCase{Vals: []Val{deepVal(n, k), {K: "ref", I: int64(n / 2)}}})
		}
	}
	// many elements, and references beyond 255
	var many Val
	many.K = "arr"
	for i := 0; i < 700; i++ {
		many.E = append(many.E, Val{K: "obj", Keys: []Val{{K: "str", S: "i"}}, E: []Val{{K: "int", I: int64(i)}}})
	}
	for _, i := range []int64{0, 1, 255, 256, 257, 300, 699} {
		yield(EncCase{Vals: []Val{many, {K: "ref", I: i}, {K: "ref", I: 700 - i}}})
	}
	for n := 0; n < 33500; n++ {
		if n >= 700 {
			many.E = append(many.E, Val{K: "objs"})
		}
	}
	for _, i := range []int64{4095, 4096, 32766, 32767, 32768, 33000} {
		yield(EncCase{Vals: []Val{many, {K: "ref", I: i}, {K: "ref", I: 33500 - i}, {K: "int", I: i}}})
	}
	big := Val{K: "bytes", S: "ab", L: 70000}
	yield(EncCase{Vals: []Val{big, {K: "ref"}}})
}

func checkA03(c EncCase, o *Obs) error {
	c.Vals = wideVals(c.Vals)
	classVals(c.Vals, o)
	ed := amf.NewEnDecAMF3()
	var w bytes.Buffer
	var exps []*Exp
	var ends []int
	for i, v := range c.Vals {
		before := w.Len()
		x := goVal(v)
		var n int
		var err error
		if c.Batch {
			err = ed.EncodeBatch(c.out(&w), x)
			n = w.Len() - before
		} else {
			n, err = ed.Encode(c.out(&w), x)
		}
		if err != nil {
			return fmt.Errorf("encoding value %d: %w", i, err)
		}
		if n != w.Len()-before {
			return fmt.Errorf("encoding value %d reports %d bytes, wrote %d", i, n, w.Len()-before)
		}
		exps = append(exps, exp3(v))
		ends = append(ends, w.Len())
	}
	data := w.Bytes()
	d := ed
	if !c.Reuse {
		d = amf.NewEnDecAMF3()
	}
	got, err := decodeAll(d, bytes.NewReader(data), data, ends)
	if err != nil {
		return err
	}
	if err := matchAll(exps, got); err != nil {
		return err
	}
	r := bytes.NewReader(data)
	got, err = amf.NewEnDecAMF3().DecodeBatch(r)
	if err != nil {
		return fmt.Errorf("DecodeBatch: %w", err)
	}
	if r.Len() != 0 {
		return fmt.Errorf("DecodeBatch leaves %d bytes", r.Len())
	}
	if err := matchAll(exps, got); err != nil {
		return fmt.Errorf("DecodeBatch: %w", err)
	}
	// the same values in one batch call
	var gos []interface{}
	for _, v := range c.Vals {
		gos = append(gos, goVal(v))
	}
	var w2 bytes.Buffer
	if err := amf.NewEnDecAMF3().EncodeBatch(&w2, gos...); err != nil {
		return fmt.Errorf("EncodeBatch: %w", err)
	}
	got, err = amf.NewEnDecAMF3().DecodeBatch(&w2)
	if err != nil {
		return fmt.Errorf("DecodeBatch after EncodeBatch: %w", err)
	}
	return matchAll(exps, got)
}

func genA03(t *rapid.T) EncCase {
	c := EncCase{Batch: chance(t, 25), Reuse: chance(t, 25), Plain: chance(t, 30)}
	n := intn(t, 1, 5)
	for i := 0; i < n; i++ {
		c.Vals = append(c.Vals, genVal(t, intn(t, 0, 3), true))
	}
	return c
}

func sweepA03(thorough bool, yield func(EncCase)) {
	for _, k := range []string{"arr", "obj", "typed"} {
		for _, n := range wideReps(thorough) {
			yield(EncCase{Vals: []Val{{K: k, S: "T", Rep: n}, {K: "int", I: 7}}})
		}
		for m := range wideKinds {
			yield(EncCase{Vals: []Val{{K: k, S: "T", Rep: 12000, Mem: m}, {K: "int", I: 7}}})
		}
	}
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1} {
		yield(EncCase{Vals: []Val{{K: "arr", Rep: n}, {K: "int", I: 7}}})
	}
	for _, n := range wideReps(thorough) {
		yield(EncCase{Vals: []Val{{K: "ints", I: -1, U: 2, L: n}, {K: "int", I: 7}}})
	}
	for _, n := range []int{1<<24 - 1, 1 << 24, 1<<24 + 1} {
		yield(EncCase{Vals: []Val{{K: "str", S: "xyz", L: n}, {K: "int", I: 7}}})
		yield(EncCase{Vals: []Val{{K: "bytes", S: "xyz", L: n}, {K: "int", I: 7}}})
	}
	for _, l := range append([]int{1<<20 - 1, 1 << 20, 1<<20 + 1, 2097151, 2097152}, interestingLens...) {
		for _, k := range []string{"str", "bytes"} {
			yield(EncCase{Vals: []Val{{K: k, S: "xyz", L: l}, {K: "int", I: 7}}})
		}
		if l <= 1<<20 {
			yield(EncCase{Vals: []Val{{K: "obj", Keys: []Val{{K: "str", S: "q", L: l}}, E: []Val{{K: "nil"}}}, {K: "bool", I: 1}}})
			yield(EncCase{Vals: []Val{{K: "typed", S: "q", L: l, Keys: []Val{{K: "str", S: "k"}}, E: []Val{{K: "nil"}}}, {K: "bool", I: 1}}})
		}
	}
	ints := append([]int64(nil), interestingInts...)
	for b := uint(0); b < 64; b++ {
		ints = append(ints, 1<<b, 1<<b-1, -(1 << b), -(1<<b)-1)
	}
	for _, i := range ints {
		for _, k := range []string{"int", "int8", "int16", "int32", "int64", "nint"} {
			yield(EncCase{Vals: []Val{{K: k, I: i}, {K: "bool", I: 1}}})
		}
		for _, k := range []string{"uint", "uint8", "uint16", "uint32", "uint64", "nuint"} {
			yield(EncCase{Vals: []Val{{K: k, U: uint64(i)}, {K: "bool", I: 1}}})
		}
	}
	for _, f := range interestingFloats {
		yield(EncCase{Vals: []Val{{K: "float64", U: math.Float64bits(f)}}})
		yield(EncCase{Vals: []Val{{K: "float32", U: uint64(math.Float32bits(float32(f)))}}})
	}
	for _, k := range []string{"arr", "obj", "typed"} {
		for _, n := range []int{10, 100, 1000} {
			yield(EncCase{Vals: []Val{deepVal(n, k), {K: "int", I: 3}}})
		}
	}
	for _, n := range []int{7, 8, 15, 16, 63, 64, 127, 128, 1023, 1024, 3000} {
		arr := Val{K: "arr"}
		obj := Val{K: "obj"}
		for i := 0; i < n; i++ {
			arr.E = append(arr.E, Val{K: "int", I: int64(i)})
			obj.Keys = append(obj.Keys, Val{K: "str", S: Str(fmt.Sprintf("k%d", i))})
			obj.E = append(obj.E, Val{K: "int", I: int64(-i)})
		}
		yield(EncCase{Vals: []Val{arr, obj, {K: "bool", I: 1}}})
	}
}

// ---------------------------------------------------------------- A02 and A04

// WireCase is a message written by the reference peer.
type WireCase struct {
	Nodes []Node `json:"nodes"`
	// Deep nests a null value this many levels deep in containers of the kinds DeepK, in turn.
	Deep  int   `json:"deep,omitempty"`
	DeepK []int `json:"deep_kinds,omitempty"`
	// Many puts an array of this many values in front, which fills the reference tables.
	Many  int `json:"many,omitempty"`
	ManyK int `json:"many_kind,omitempty"`
	// Again decodes an invalid message this many times on one decoder, which has to stay usable.
	Again int `json:"again,omitempty"`
}

// again decodes what cannot be decoded, cut off behind its invalid part too, and then something else.
func (c WireCase) again(d amf.Decoder, v3 int, data []byte) error {
	for i := 0; i < c.Again; i++ {
		if v, err := d.Decode(bytes.NewReader(data)); err == nil {
			return fmt.Errorf("an invalid value decodes to %s", safeSprint(v))
		}
		if _, err := d.DecodeBatch(bytes.NewReader(data)); err == nil {
			return fmt.Errorf("DecodeBatch accepts an invalid value")
		}
		if i >= 3 && i < c.Again-1 {
			continue
		}
		for _, k := range [][]int{{0, 1, 2, 3}, {3, 2}} {
			v, err := d.Decode(bytes.NewReader(deepWire(v3, 300, k)))
			if err != nil {
				return fmt.Errorf("after %d invalid messages: %w", 2*i+2, err)
			}
			if n, err := deepOf(v); err != nil || n != 300 {
				return fmt.Errorf("after %d invalid messages 300 nested containers have %d levels, %v", 2*i+2, n, err)
			}
		}
	}
	return nil
}

// many0 is an array of n values that take a place in the AMF0 table; k > 0 makes them all of one kind.
func many0(n, k int) Node {
	kinds := []string{"obj", "ecma", "typed", "arr"}
	m := Node{K: "arr", E: make([]Node, 0, n)}
	for i := 0; i < n; i++ {
		x := Node{K: kinds[i%4], E: []Node{{K: "num", U: math.Float64bits(float64(i))}}}
		if k > 0 {
			x.K = kinds[k%4]
		}
		if x.K != "arr" {
			x.Keys = []Node{{K: "str", S: "i"}}
			x.S = "Type"
		}
		m.E = append(m.E, x)
	}
	return m
}

// many3 is an array of n values that fill the AMF3 tables; k > 0 makes them all of one kind.
func many3(n, k int) Node {
	m := Node{K: "arr", D: make([]Node, 0, n)}
	for i := 0; i < n; i++ {
		j := i % 6
		if k > 0 {
			j = (k - 1) % 6
		}
		switch j {
		case 0:
			m.D = append(m.D, Node{K: "str", S: Str(fmt.Sprintf("s%d", i))})
		case 1:
			m.D = append(m.D, Node{K: "bytes", S: Str(fmt.Sprintf("b%d", i))})
		case 2:
			m.D = append(m.D, Node{K: "date", I: int64(i)})
		case 3:
			m.D = append(m.D, Node{K: "xml", S: Str(fmt.Sprintf("x%d", i))})
		case 4:
			m.D = append(m.D, Node{K: "obj", S: Str(fmt.Sprintf("T%d", i)), Keys: []Node{{K: "str", S: Str(fmt.Sprintf("p%d", i))}}})
		case 5:
			m.D = append(m.D, Node{K: "arr", D: []Node{{K: "int", I: int64(i)}}})
		}
	}
	return m
}

func classNodes(ns []Node, o *Obs) {
	var walk func(n Node, d int)
	walk = func(n Node, d int) {
		o.Class("node:" + n.K)
		for _, l := range [][]Node{n.E, n.D} {
			for _, c := range l {
				walk(c, d+1)
			}
		}
	}
	for _, n := range ns {
		walk(n, 0)
	}
}

// write0 writes an AMF0 message with its expected values and the ends of the values.
func write0(ns []Node) (data []byte, exps []*Exp, ends []int, e *enc0) {
	e = &enc0{}
	for _, n := range ns {
		x := e.value(n)
		exps = append(exps, x)
		ends = append(ends, e.w.Len())
		if e.bad {
			break
		}
	}
	return e.w.Bytes(), exps, ends, e
}

func write3(ns []Node) (data []byte, exps []*Exp, ends []int, e *enc3) {
	e = &enc3{}
	for _, n := range ns {
		x := e.value(n)
		exps = append(exps, x)
		ends = append(ends, e.w.Len())
		if e.bad {
			break
		}
	}
	return e.w.Bytes(), exps, ends, e
}

// judge checks both ways of decoding a message, and again after the caller has overwritten the values.
func judge(mk func() amf.Decoder, data []byte, exps []*Exp, ends []int, bad bool) error {
	var k owned
	defer k.restore()
	passes := 4
	if len(data) > 400 {
		passes = 2
	}
	for pass := 0; pass < passes; pass++ {
		d := mk()
		if pass == 2 {
			if err := k.scrubAll(); err != nil {
				return err
			}
		}
		var got []interface{}
		var err error
		if pass%2 == 0 {
			r := bytes.NewReader(data)
			good := ends
			if bad {
				good = ends[:len(ends)-1]
			}
			got, err = decodeAll(d, r, data, good)
			if err != nil {
				return err
			}
			if bad {
				v, err := d.Decode(r)
				if err == nil {
					return fmt.Errorf("an invalid value (reference past the end, undefined or unimplemented type) decodes to %s", safeSprint(v))
				}
			}
		} else {
			got, err = d.DecodeBatch(bytes.NewReader(data))
			if bad && err == nil {
				return fmt.Errorf("DecodeBatch accepts an invalid value (reference past the end, undefined or unimplemented type)")
			}
			if !bad && err != nil {
				return fmt.Errorf("DecodeBatch: %w", err)
			}
		}
		want := exps
		if bad {
			want = exps[:len(exps)-1]
		}
		if err := matchAll(want, got); err != nil {
			if pass > 1 {
				err = fmt.Errorf("after the caller has overwritten the values that were decoded before: %w", err)
			}
			return err
		}
		if pass < 2 && passes > 2 {
			for _, v := range got {
				k.add("decoding", v)
			}
		}
	}
	return nil
}

// deepUnits are the openings and endings of containers with one member, of AMF0 and AMF3.
var deepUnits = [2][][2]string{
	{{"\x0a\x00\x00\x00\x01", ""}, {"\x03\x00\x01k", "\x00\x00\x09"}, {"\x08\x00\x00\x00\x01\x00\x01k", "\x00\x00\x09"}, {"\x10\x00\x01T\x00\x01k", "\x00\x00\x09"}},
	{{"\x09\x03\x01", ""}, {"\x09\x01\x03k", "\x01"}, {"\x0a\x0b\x01\x03k", "\x01"}, {"\x0a\x13\x01\x03k", ""}},
}

func deepWire(v3, n int, kinds []int) []byte {
	u := deepUnits[v3]
	if len(kinds) == 0 {
		kinds = []int{0}
	}
	var head, tail bytes.Buffer
	for i := 0; i < n; i++ {
		head.WriteString(u[kinds[i%len(kinds)]%len(u)][0])
		tail.WriteString(u[kinds[(n-1-i)%len(kinds)]%len(u)][1])
	}
	head.WriteByte([]byte{5, 1}[v3])
	head.Write(tail.Bytes())
	return head.Bytes()
}

// deepOf counts the levels of a value that has one member on each.
func deepOf(v interface{}) (int, error) {
	for n := 0; ; n++ {
		var d amf.Array
		var o amf.Object
		switch x := v.(type) {
		case nil:
			return n, nil
		case amf.Array:
			d = x
		case amf.Object:
			o = x
		case amf.TypedObject:
			o = x.Object
		case *amf.TypedObject:
			o = x.Object
		default:
			var ok bool
			if d, o, ok = ecmaParts(v); !ok {
				return n, fmt.Errorf("a %T at level %d", v, n)
			}
		}
		if len(d)+len(o) != 1 {
			return n, fmt.Errorf("%d members at level %d", len(d)+len(o), n)
		}
		if len(d) == 1 {
			v = d[0]
		} else {
			v = o["k"]
		}
	}
}

// checkDeep: a value nested however deep is decoded in full or refused, and the decoder stays usable.
func checkDeep(v3 int, c WireCase, mk func() amf.Decoder, o *Obs) error {
	o.NonTrivial()
	data := deepWire(v3, c.Deep, c.DeepK)
	d := mk()
	for i := 0; i < 3; i++ {
		v, err := d.Decode(bytes.NewReader(data))
		if err == nil {
			n, err := deepOf(v)
			if err == nil && n != c.Deep {
				err = fmt.Errorf("%d levels", n)
			}
			if err != nil {
				return fmt.Errorf("%d nested containers are decoded without error to %v", c.Deep, err)
			}
			o.Class("deep nesting decoded")
		} else {
			o.Class("deep nesting refused")
			if c.Deep <= 1000 {
				return fmt.Errorf("%d nested containers: %w", c.Deep, err)
			}
		}
		vs, err := d.DecodeBatch(bytes.NewReader(data))
		if err == nil {
			if len(vs) != 1 {
				return fmt.Errorf("%d nested containers are decoded as %d values", c.Deep, len(vs))
			}
			if n, err := deepOf(vs[0]); err != nil || n != c.Deep {
				return fmt.Errorf("%d nested containers are decoded without error to %d levels, %v", c.Deep, n, err)
			}
		}
		v, err = d.Decode(bytes.NewReader(deepWire(v3, 200, c.DeepK)))
		if err != nil {
			return fmt.Errorf("200 nested containers after %d nested ones: %w", c.Deep, err)
		}
		if n, err := deepOf(v); err != nil || n != 200 {
			return fmt.Errorf("200 nested containers after %d nested ones: %d levels, %v", c.Deep, n, err)
		}
	}
	return nil
}

func sweepDeep(thorough bool, yield func(WireCase)) {
	depths := []int{1, 2, 10, 100, 999, 1000, 1001, 2000, 4095, 4096, 5000, 8192, 9998, 9999, 10000, 10001, 10002, 16384, 32767, 65536, 100000}
	if thorough {
		depths = append(depths, 300000, 1000000)
	}
	for _, n := range depths {
		for _, k := range [][]int{{0}, {1}, {2}, {3}, {0, 1}, {1, 2, 3}, {0, 0, 3, 2}} {
			yield(WireCase{Deep: n, DeepK: k})
		}
	}
}

func checkA02(c WireCase, o *Obs) error {
	if c.Deep > 0 {
		return checkDeep(0, c, func() amf.Decoder { return decoder0() }, o)
	}
	c.Nodes = wide(c.Nodes, false)
	nodes := c.Nodes
	if c.Many > 0 {
		nodes = append([]Node{many0(c.Many, c.ManyK)}, nodes...)
		o.ClassIf(c.Many >= 32768, "table of 32768 and more entries")
	}
	data, exps, ends, e := write0(nodes)
	classNodes(c.Nodes, o)
	if e.nref > 0 || e.e3.nref > 0 {
		o.Class("with references")
		o.NonTrivial()
	}
	if len(e.refs) > 1 {
		o.NonTrivial()
	}
	o.ClassIf(e.bad, "reference past the end or invalid type")
	if e.bad && len(nodes) == 1 && c.Again > 0 {
		o.Class("again after an error")
		if err := c.again(decoder0(), 0, data); err != nil {
			return err
		}
	}
	return judge(func() amf.Decoder { return decoder0() }, data, exps, ends, e.bad)
}

func genA02(t *rapid.T) WireCase {
	var c WireCase
	n := intn(t, 1, 6)
	amf3 := 0
	for i := 0; i < n; i++ {
		if i > 0 && chance(t, 25) {
			c.Nodes = append(c.Nodes, Node{K: "ref", I: int64(intn(t, 0, 40))})
			continue
		}
		c.Nodes = append(c.Nodes, genNode0(t, intn(t, 0, 3), &amf3))
	}
	if chance(t, 15) {
		bad := Node{K: "badref", I: int64(pick(t, 0, 0, 1, 5, 30000))}
		if boolean(t) {
			bad = Node{K: "badmark", I: int64(pick(t, 0, 1, 2, intn(t, 3, 240))), S: Str(pick(t, "", "\x00\x00", "\x00\x01\x00\x00\x00\x00"))}
		}
		if chance(t, 20) {
			bad = Node{K: "badend", U: uint64(intn(t, 0, 2)), I: int64(genByte(t)), S: "T"}
		}
		for chance(t, 60) { // inside a value
			w := around0(bad)
			bad = w[intn(t, 0, len(w)-1)]
		}
		if chance(t, 10) {
			bad = genBad3(t)
			for chance(t, 60) {
				w := around3(bad)
				bad = w[intn(t, 0, len(w)-1)]
			}
			bad = Node{K: "amf3", E: []Node{bad}}
		}
		if again(bad) && chance(t, 30) {
			c.Nodes, c.Again = nil, intn(t, 1, 3)
		}
		c.Nodes = append(c.Nodes, bad)
	}
	return c
}

// again tells whether a value stays invalid when it is decoded again: what a reference means
// depends on what the decoder has read before.
func again(bad Node) bool {
	for _, l := range [][]Node{bad.E, bad.D} {
		for _, c := range l {
			if c.K != "nil" {
				return again(c)
			}
		}
	}
	return bad.K == "badmark" || bad.K == "badclass" || bad.K == "badend"
}

// around0 is the value at every place of every AMF0 container.
func around0(bad Node) []Node {
	k := func(s string) Node { return Node{K: "str", S: Str(s)} }
	nl := Node{K: "nil"}
	out := []Node{{K: "arr", E: []Node{bad}}, {K: "arr", E: []Node{nl, bad, nl}}}
	for _, kind := range []string{"obj", "ecma", "typed"} {
		out = append(out,
			Node{K: kind, S: "T", U: 1, Keys: []Node{k("k")}, E: []Node{bad}},
			Node{K: kind, S: "T", U: 3, Keys: []Node{k("a"), k("b"), k("c")}, E: []Node{nl, bad, nl}})
	}
	return out
}

// genBad3 is an AMF3 value that cannot be decoded.
func genBad3(t *rapid.T) Node {
	bad := Node{K: pick(t, "badstr", "badobj", "badtrait", "badmark", "badclass", "badkind", "badkind"), I: int64(pick(t, 0, 0, 1, 5, 1000)), U: uint64(intn(t, 0, 5))}
	switch bad.K {
	case "badmark":
		bad.I, bad.S = int64(pick(t, 0, 1, 2, 3, 4, intn(t, 5, 241))), Str(pick(t, "", "\x01\x00", "\x01"))
	case "badclass":
		bad.S = Str(pick(t, "x", "DS", "DSa", "DSAA", "flex.messaging.io.ArrayCollections", "flex.messaging.io.ObjectProxy", "flex.messaging.io"))
	}
	return bad
}

// around3 is the value at every place of every AMF3 container.
func around3(bad Node) []Node {
	k := func(s string) Node { return Node{K: "str", S: Str(s)} }
	nl := Node{K: "nil"}
	out := []Node{
		{K: "arr", D: []Node{bad}},
		{K: "arr", D: []Node{nl, bad, nl}},
		{K: "arr", Keys: []Node{k("k")}, E: []Node{bad}},
		{K: "arr", Keys: []Node{k("a"), k("b"), k("c")}, E: []Node{nl, bad, nl}, D: []Node{nl}},
		{K: "obj", Keys: []Node{k("s")}, E: []Node{bad}},
		{K: "obj", S: "T", U: 1, Keys: []Node{k("s"), k("t"), k("u")}, E: []Node{nl, bad, nl}, DK: []Node{k("d")}, D: []Node{nl}},
		{K: "obj", U: 1, DK: []Node{k("d")}, D: []Node{bad}},
		{K: "obj", S: "T", U: 1, Keys: []Node{k("s")}, E: []Node{nl}, DK: []Node{k("d"), k("e"), k("f")}, D: []Node{nl, bad, nl}},
		{K: "ext", S: "flex.messaging.io.ArrayCollection", E: []Node{bad}},
		{K: "ext", S: "verif.Pair", E: []Node{bad, nl}},
		{K: "ext", S: "verif.Pair", E: []Node{nl, bad}},
	}
	for _, fl := range [][]int{{0x02}, {0x40}, {0, 0x01}, {0x83, 0, 0, 0x01}, {0, 0x02}} { // known members and unknown ones
		out = append(out,
			Node{K: "ext", S: "DSA", Fl: fl, E: []Node{bad}},
			Node{K: "ext", S: "DSK", Fl: fl, E: []Node{nl, bad}},
			Node{K: "ext", S: "DSK", Fl: append(append([]int{}, fl...), 0, 0, 0x01), E: []Node{nl, nl, bad}})
	}
	return out
}

func sweepA02(thorough bool, yield func(WireCase)) {
	sweepDeep(thorough, yield)
	for _, k := range []string{"arr", "obj", "ecma", "typed"} {
		for _, n := range wideReps(thorough) {
			yield(WireCase{Nodes: []Node{{K: k, S: "T", Rep: n, U: uint64(n)}, {K: "nil"}}})
		}
		for m := range wideNodes {
			yield(WireCase{Nodes: []Node{{K: k, S: "T", Rep: 12000, Mem: m, U: 12000}, {K: "nil"}}})
		}
	}
	yield(WireCase{Nodes: []Node{{K: "arr", Rep: 1<<20 + 1}, {K: "nil"}}})
	for _, n := range []int{1<<20 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<26 + 1} {
		yield(WireCase{Nodes: []Node{{K: "long", S: "xyz", L: n}, {K: "nil"}}})
		yield(WireCase{Nodes: []Node{{K: "xml", S: "xyz", L: n}, {K: "nil"}}})
	}
	for i := int64(0); i < 256; i++ {
		yield(WireCase{Nodes: []Node{{K: "bool", I: i}}})
	}
	for _, l := range interestingLens {
		if l <= 65535 {
			yield(WireCase{Nodes: []Node{{K: "str", S: "q", L: l}, {K: "nil"}}})
		}
		yield(WireCase{Nodes: []Node{{K: "long", S: "q", L: l}, {K: "nil"}}})
		yield(WireCase{Nodes: []Node{{K: "xml", S: "q", L: l}, {K: "nil"}}})
	}
	kinds := []string{"obj", "ecma", "typed", "arr"}
	obj := func(k string, i int) Node {
		n := Node{K: k, E: []Node{{K: "num", U: math.Float64bits(float64(i))}}}
		if k != "arr" {
			n.Keys = []Node{{K: "str", S: "i"}}
			n.S = "Type"
		}
		return n
	}
	// every kind at every place of a small table, referred to at top level and from inside
	for a := range kinds {
		for b := range kinds {
			for r := int64(0); r < 3; r++ {
				x, y := obj(kinds[a], 1), obj(kinds[b], 2)
				y.E = append(y.E, x)
				if kinds[b] != "arr" {
					y.Keys = append(y.Keys, Node{K: "str", S: "x"})
				}
				yield(WireCase{Nodes: []Node{y, x, {K: "ref", I: r}}})
				yield(WireCase{Nodes: []Node{x, {K: "arr", E: []Node{y, {K: "ref", I: r}}}, {K: "ref", I: r + 1}}})
				yield(WireCase{Nodes: []Node{x, {K: "obj", Keys: []Node{{K: "str", S: "a"}, {K: "str", S: "b"}}, E: []Node{y, {K: "ref", I: r}}}, {K: "badref", I: 0}}})
			}
		}
	}
	// an object that contains itself
	yield(WireCase{Nodes: []Node{{K: "obj", Keys: []Node{{K: "str", S: "self"}}, E: []Node{{K: "ref", I: 0}}}}})
	yield(WireCase{Nodes: []Node{{K: "ecma", Keys: []Node{{K: "str", S: "self"}}, E: []Node{{K: "ref", I: 0}}}}})
	// big tables: what lies beyond 255 and 32767 entries, up to the last a reference can name
	for _, r := range []int64{0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 599, 600} {
		yield(WireCase{Many: 600, Nodes: []Node{{K: "ref", I: r}}})
	}
	yield(WireCase{Many: 600, Nodes: []Node{{K: "badref"}}})
	for k := 0; k < 5; k++ {
		for _, n := range []int{4097, 32766, 33000, 65535, 66000} {
			c := WireCase{Many: n, ManyK: k}
			for _, r := range []int64{0, 1, 255, 256, 4095, 4096, 16383, 16384, 32766, 32767, 32768, 32769, 49152, 65533, 65534, 65535} {
				if r < int64(n) {
					c.Nodes = append(c.Nodes, Node{K: "ref", I: r})
				}
			}
			if n < 65535 {
				c.Nodes = append(c.Nodes, Node{K: "badref", I: int64(n % 2)})
			}
			yield(c)
		}
	}
	yield(WireCase{Nodes: []Node{{K: "badref"}}})
	var bads []Node
	for u := uint64(0); u < 3; u++ {
		for _, m := range []int64{0, 1, 2, 5, 8, 10, 41, 137, 255} {
			bads = append(bads, Node{K: "badend", U: u, I: m, S: "T"})
		}
	}
	bads = append(bads, Node{K: "badref"}, Node{K: "badmark", I: 0}, Node{K: "badmark", I: 1}, Node{K: "badmark", I: 3, S: "\x00\x00"}, Node{K: "amf3", E: []Node{{K: "badobj"}}})
	for _, bad := range bads {
		if again(bad) {
			for i := 0; i < 8; i += 2 { // in 200 containers of one kind
				n := bad
				for j := 0; j < 200; j++ {
					n = around0(n)[i]
				}
				yield(WireCase{Nodes: []Node{n}, Again: 30})
			}
			yield(WireCase{Nodes: []Node{bad}, Again: 2000})
		}
		yield(WireCase{Nodes: []Node{bad}})
		for _, x := range around0(bad) {
			yield(WireCase{Nodes: []Node{{K: "nil"}, x}})
			for _, y := range around0(x) {
				yield(WireCase{Nodes: []Node{y}})
			}
		}
	}
	for i := range badMarks0 {
		for _, rest := range []string{"", "\x00\x00\x00\x00\x00\x00\x00\x00"} {
			bad := Node{K: "badmark", I: int64(i), S: Str(rest)}
			yield(WireCase{Nodes: []Node{bad}})
			yield(WireCase{Nodes: []Node{{K: "arr", E: []Node{bad}}}})
			yield(WireCase{Nodes: []Node{{K: "nil"}, {K: "typed", S: "T", Keys: []Node{{K: "str", S: "k"}}, E: []Node{bad}}}})
			if bad.I != 1 {
				yield(WireCase{Nodes: []Node{{K: "ecma", Keys: []Node{{K: "str", S: "k"}}, E: []Node{bad}}}})
			}
		}
	}
}

func checkA04(c WireCase, o *Obs) error {
	if c.Deep > 0 {
		return checkDeep(1, c, func() amf.Decoder { return decoder3() }, o)
	}
	c.Nodes = wide(c.Nodes, true)
	nodes := c.Nodes
	if c.Many > 0 {
		nodes = append([]Node{many3(c.Many, c.ManyK)}, nodes...)
		o.ClassIf(c.Many >= 8192, "table of 8192 and more entries")
	}
	data, exps, ends, e := write3(nodes)
	classNodes(c.Nodes, o)
	if e.nref > 0 {
		o.Class("with references")
		o.NonTrivial()
	}
	if len(e.objs) > 1 {
		o.NonTrivial()
	}
	o.ClassIf(e.bad, "reference past the end or invalid type")
	if e.bad && len(nodes) == 1 && c.Again > 0 {
		o.Class("again after an error")
		if err := c.again(decoder3(), 1, data); err != nil {
			return err
		}
	}
	if err := judge(func() amf.Decoder { return decoder3() }, data, exps, ends, e.bad); err != nil {
		return err
	}
	if len(nodes) == 1 {
		// the same value switched to from AMF0
		d0 := append([]byte{17}, data...)
		if err := judge(func() amf.Decoder { return decoder0() }, d0, exps, []int{ends[0] + 1}, e.bad); err != nil {
			return fmt.Errorf("inside AMF0: %w", err)
		}
	}
	return nil
}

func genA04(t *rapid.T) WireCase {
	var c WireCase
	n := intn(t, 1, 6)
	for i := 0; i < n; i++ {
		c.Nodes = append(c.Nodes, genNode3(t, intn(t, 0, 3), true))
	}
	if chance(t, 15) {
		bad := genBad3(t)
		for chance(t, 50) { // inside a value
			w := around3(bad)
			bad = w[intn(t, 0, len(w)-1)]
		}
		if again(bad) && chance(t, 30) {
			c.Nodes, c.Again = nil, intn(t, 1, 3)
		}
		c.Nodes = append(c.Nodes, bad)
	}
	return c
}

func sweepA04(thorough bool, yield func(WireCase)) {
	sweepDeep(thorough, yield)
	for _, k := range []string{"arr", "obj"} {
		for part := int64(0); part < 2; part++ {
			for _, n := range wideReps(thorough) {
				yield(WireCase{Nodes: []Node{{K: k, S: "T", I: part, Rep: n}, {K: "nil"}}})
			}
			for m := range wideNodes {
				yield(WireCase{Nodes: []Node{{K: k, S: "T", I: part, Rep: 12000, Mem: m}, {K: "nil"}}})
			}
		}
	}
	for _, n := range []int{1 << 20} {
		yield(WireCase{Nodes: []Node{{K: "arr", Rep: n}, {K: "nil"}}})
	}
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<26 + 1} {
		for _, k := range []string{"str", "bytes", "xml", "xmldoc"} {
			if !thorough && n > 1<<20 && (n&1 == 0 || k == "xmldoc") {
				continue
			}
			yield(WireCase{Nodes: []Node{{K: k, S: "xyz", L: n}, {K: "nil"}}})
		}
	}
	seenInt := map[int64]bool{}
	for b := uint(0); b < 29; b++ {
		for d := int64(-2); d <= 2; d++ {
			v := (int64(1)<<b + d) & 0x1fffffff
			if !seenInt[v] {
				seenInt[v] = true
				yield(WireCase{Nodes: []Node{{K: "int", I: v}, {K: "bool", I: 1}}})
			}
		}
	}
	for _, l := range interestingLens {
		for _, k := range []string{"str", "bytes", "xml", "xmldoc"} {
			yield(WireCase{Nodes: []Node{{K: k, S: "pq", L: l}, {K: "nil"}}})
			if k != "str" { // empty ones take a place too
				yield(WireCase{Nodes: []Node{{K: k}, {K: k, S: "pq", L: l}, {K: k, U: 1, I: 0}, {K: k, U: 1, I: 1}}})
			} else {
				yield(WireCase{Nodes: []Node{{K: k}, {K: k, S: "pq", L: l}, {K: k, S: "z"}, {K: "sref", I: 0}, {K: "sref", I: 1}}})
			}
		}
	}
	// long tables: references of one to three bytes, and of four when thorough
	type tab struct{ n, k int }
	tabs := []tab{{300, 0}, {9000, 0}, {60000, 0}, {70000, 1}, {70000, 2}, {70000, 3}, {70000, 4}, {70000, 5}, {70000, 6}}
	if thorough {
		tabs = append(tabs, tab{1<<20 + 100, 1}, tab{1<<20 + 100, 3}, tab{1<<19 + 100, 5}, tab{1<<20 + 1000, 0})
	}
	for _, m := range tabs {
		edges := []int64{0, 1, 31, 32, 63, 64, 127, 128, 129, 1000}
		if m.n > 9000 {
			edges = []int64{31, 32, 63, 64, 4095, 4096, 8191, 8192, 9999, 16383, 16384, 1<<16 - 1, 1 << 16, 1<<16 + 1, 69999, 1<<19 - 1, 1 << 19, 1<<20 - 1, 1 << 20}
		}
		var all []Node
		for _, r := range edges {
			if r >= int64(m.n) {
				break
			}
			ns := []Node{{K: "sref", I: r}, {K: "objref", I: r}, {K: "tobj", I: r}, {K: "bytes", U: 1, I: r}, {K: "date", U: 1, I: r}, {K: "xml", U: 1, I: r}, {K: "arr", U: 1, I: r}}
			if m.n <= 9000 {
				yield(WireCase{Many: m.n, ManyK: m.k, Nodes: ns})
			}
			all = append(all, ns...)
		}
		yield(WireCase{Many: m.n, ManyK: m.k, Nodes: all})
	}
	// sealed and dynamic members in all combinations, reused through trait references
	names := []Node{{K: "str", S: "a"}, {K: "str", S: "b"}, {K: "str", S: "c"}}
	vals := []Node{{K: "int", I: 1}, {K: "str", S: "v"}, {K: "nil"}}
	for s := 0; s <= 3; s++ {
		for d := 0; d <= 2; d++ {
			for u := uint64(0); u < 2; u++ {
				n := Node{K: "obj", U: u, S: "Cls", Keys: names[:s], E: vals[:s], DK: []Node{{K: "str", S: "x"}, {K: "sref", I: 0, S: "y"}}[:d], D: vals[:d]}
				m := n
				m.K = "tobj"
				yield(WireCase{Nodes: []Node{n, m, n, {K: "objref", I: 1}, {K: "objref", I: 0}, {K: "sref", I: 1}}})
			}
		}
	}
	// external classes with every flag, and with continued flags
	for _, cls := range []Str{"DSA", "DSK"} {
		for f := 0; f < 128; f++ {
			for blk := 0; blk < 3; blk++ {
				fl := make([]int, 6)
				fl[blk] = f
				fl[blk+3] = f / 3
				yield(WireCase{Nodes: []Node{{K: "ext", S: cls, Fl: fl, E: []Node{{K: "str", S: "v"}, {K: "int", I: 9}}}, {K: "ext", S: cls, U: 1, Fl: fl[:3]}, {K: "objref"}, {K: "bool", I: 1}}})
			}
		}
	}
	for n := 1; n <= 30; n++ { // up to ten flag bytes a block
		fl := make([]int, n)
		fl[n-1] = 1
		full := make([]int, n)
		for i := range full {
			full[i] = 127
		}
		for _, f := range [][]int{fl, full} {
			for _, cls := range []Str{"DSA", "DSK"} {
				yield(WireCase{Nodes: []Node{{K: "ext", S: cls, Fl: f, E: []Node{{K: "str", S: "v"}, {K: "int", I: 9}}}, {K: "objref"}, {K: "bool", I: 1}}})
			}
		}
	}
	for _, cls := range []Str{"DSA", "DSK", "verif.Pair", "flex.messaging.io.ArrayCollection"} { // references of another kind
		for u := uint64(0); u < 5; u++ {
			ext := Node{K: "ext", S: cls, Fl: []int{1}, E: []Node{{K: "nil"}}}
			yield(WireCase{Nodes: []Node{ext, {K: "badkind", U: u}}})
			ext.E = []Node{{K: "badkind", U: u}}
			yield(WireCase{Nodes: []Node{ext}})
		}
	}
	yield(WireCase{Nodes: []Node{{K: "obj", DK: []Node{{K: "str", S: "self"}}, D: []Node{{K: "objref", I: 0}}, U: 1}}})
	for m := int64(0); m < 243; m++ {
		for _, rest := range []string{"", "\x01\x00"} {
			bad := Node{K: "badmark", I: m, S: Str(rest)}
			yield(WireCase{Nodes: []Node{bad}})
			yield(WireCase{Nodes: []Node{{K: "arr", D: []Node{bad}}}})
			yield(WireCase{Nodes: []Node{{K: "obj", U: 1, DK: []Node{{K: "str", S: "x"}}, D: []Node{bad}}}})
		}
	}
	for _, bad := range []Node{{K: "badstr"}, {K: "badobj", U: 3}, {K: "badobj", U: 1}, {K: "badtrait"}, {K: "badmark", I: 2}, {K: "badmark", I: 200, S: "\x01"}, {K: "badclass", S: "x"}} {
		if again(bad) {
			yield(WireCase{Nodes: []Node{bad}, Again: 2000})
		}
		for i, x := range around3(bad) {
			if i < 11 && bad.K == "badmark" && bad.I == 2 { // in many containers of one kind
				n := bad
				for j := 0; j < 200; j++ {
					n = around3(n)[i]
				}
				yield(WireCase{Nodes: []Node{n}, Again: 20})
			}
			yield(WireCase{Nodes: []Node{{K: "nil"}, x}})
			for _, y := range around3(x) {
				yield(WireCase{Nodes: []Node{y}})
			}
		}
	}
	for _, cls := range []string{"", "x", "DS", "DSA ", "dsa", "DSL", "flex.messaging.io.ObjectProxy"} {
		yield(WireCase{Nodes: []Node{{K: "badclass", S: Str(cls)}}})
	}
	for m := uint64(0); m < 5; m++ {
		for i := int64(0); i < 7; i++ {
			yield(WireCase{Nodes: []Node{{K: "xml", S: "<a/>"}, {K: "date", I: 5}, {K: "arr", D: []Node{{K: "nil"}}}, {K: "bytes", S: "ab"}, {K: "obj"}, {K: "xmldoc"}, {K: "tobj", S: "T"}, {K: "badkind", U: m, I: i}}})
		}
	}
	for _, k := range []string{"badstr", "badobj", "badtrait"} {
		for u := uint64(0); u < 6; u++ {
			yield(WireCase{Nodes: []Node{{K: k, U: u}}})
			yield(WireCase{Nodes: []Node{{K: "str", S: "x"}, {K: "date"}, {K: "obj"}, {K: k, U: u}}})
		}
	}
}

// ---------------------------------------------------------------- A05

// BombCase is hostile input: a well-formed message with edits, or repeated parts.
type BombCase struct {
	V3     bool   `json:"v3,omitempty"`
	Nodes  []Node `json:"nodes,omitempty"`
	Edits  []Edit `json:"edits,omitempty"`
	Prefix Hex    `json:"prefix,omitempty"`
	Unit   Hex    `json:"unit,omitempty"`
	Times  int    `json:"times,omitempty"`
	Suffix Hex    `json:"suffix,omitempty"`
}

// Edit changes bytes: at a position, replace del bytes.
type Edit struct {
	At  int `json:"at"`
	Del int `json:"del"`
	Ins Hex `json:"ins"`
}

func applyEdits(b []byte, es []Edit) []byte {
	for _, e := range es {
		at := 0
		if len(b) > 0 {
			at = e.At % (len(b) + 1)
		}
		end := at + e.Del
		if end > len(b) {
			end = len(b)
		}
		nb := append([]byte(nil), b[:at]...)
		nb = append(nb, e.Ins...)
		nb = append(nb, b[end:]...)
		b = nb
	}
	return b
}

func (c BombCase) data() []byte {
	var b []byte
	if len(c.Nodes) > 0 {
		if c.V3 {
			b, _, _, _ = write3(c.Nodes)
		} else {
			b, _, _, _ = write0(c.Nodes)
		}
	}
	b = applyEdits(b, c.Edits)
	out := append([]byte(nil), c.Prefix...)
	out = append(out, b...)
	out = append(out, bytes.Repeat(c.Unit, c.Times)...)
	return append(out, c.Suffix...)
}

func checkA05(c BombCase, o *Obs) error {
	data := c.data()
	o.ClassIf(c.Times > 1000, "nesting or repetition bomb")
	o.ClassIf(len(c.Edits) > 0, "edited message")
	if len(data) > 4 {
		o.NonTrivial()
	}
	return survive(data, o)
}

// survive decodes data in every way and checks that memory stays proportional.
func survive(data []byte, o *Obs) error {
	bound := uint64(2<<20) + 2048*uint64(len(data))
	orig := append([]byte(nil), data...)
	ways := []struct {
		name string
		f    func() error
	}{
		{"AMF0 Decode", func() error { _, err := decoder0().Decode(bytes.NewReader(data)); return err }},
		{"AMF0 DecodeBatch", func() error { _, err := decoder0().DecodeBatch(bytes.NewReader(data)); return err }},
		{"AMF3 Decode", func() error { _, err := decoder3().Decode(bytes.NewReader(data)); return err }},
		{"AMF3 DecodeBatch", func() error { _, err := decoder3().DecodeBatch(bytes.NewReader(data)); return err }},
		{"AddMetaHeader", func() error { _, err := amf.AddMetaHeader(data, decoder0()); return err }},
		{"DelMetaHeader", func() error { _, err := amf.DelMetaHeader(data, decoder0()); return err }},
		{"DelMetaHeader AMF3", func() error { _, err := amf.DelMetaHeader(data, decoder3()); return err }},
	}
	for _, w := range ways {
		var err, perr error
		a := allocated(func() { perr = safe(func() { err = w.f() }) })
		if perr != nil {
			return fmt.Errorf("%s: %w", w.name, perr)
		}
		if a > bound {
			return fmt.Errorf("%s allocates %d bytes for %d bytes of input", w.name, a, len(data))
		}
		o.ClassIf(err == nil, w.name+" accepts")
		o.ClassIf(err != nil, w.name+" rejects")
		if !bytes.Equal(orig, data) {
			return fmt.Errorf("%s changes its input", w.name)
		}
	}
	return nil
}

func genA05(t *rapid.T) BombCase {
	c := BombCase{V3: boolean(t)}
	if chance(t, 80) {
		n := intn(t, 1, 3)
		k := 0
		for i := 0; i < n; i++ {
			if c.V3 {
				c.Nodes = append(c.Nodes, genNode3(t, intn(t, 0, 3), true))
			} else {
				c.Nodes = append(c.Nodes, genNode0(t, intn(t, 0, 3), &k))
			}
		}
	} else {
		c.Prefix = genBytes(t, 40)
	}
	n := intn(t, 0, 4)
	for i := 0; i < n; i++ {
		e := Edit{At: spread(t, 0, 300), Del: intn(t, 0, 4)}
		switch intn(t, 0, 4) {
		case 0:
			e.Ins = genBytes(t, 4)
		case 1: // claims
			e.Ins = pick(t, Hex{0xff, 0xff, 0xff, 0xff}, Hex{0x7f, 0xff, 0xff, 0xff}, Hex{0x80, 0, 0, 0}, Hex{0x10, 0, 0, 0}, Hex{0xff, 0xff}, Hex{0x80, 0x80, 0x80, 0x00}, Hex{0xbf, 0xff, 0xff, 0xff})
			e.Del = len(e.Ins)
		case 2: // markers
			e.Ins = Hex{byte(intn(t, 0, 18))}
			e.Del = intn(t, 0, 1)
		case 3:
			e.Ins = pick(t, Hex{10, 255, 255, 255, 255}, Hex{8, 255, 255, 255, 255}, Hex{9, 0xff, 0xff, 0xff, 0xff, 1}, Hex{12, 0xff, 0xff, 0xff, 0xff}, Hex{10, 0xff, 0xff, 0xff, 0xf3, 1}, Hex{17, 10}, Hex{3}, Hex{0, 0, 9})
			e.Del = 0
		}
		c.Edits = append(c.Edits, e)
	}
	if chance(t, 3) {
		c.Unit = genBytes(t, 6)
		c.Times = spread(t, 0, 20000)
	}
	return c
}

func sweepA05(thorough bool, yield func(BombCase)) {
	// every input of up to two bytes, and every marker with extreme counts
	for a := 0; a < 256; a++ {
		yield(BombCase{Prefix: Hex{byte(a)}})
	}
	tails := []Hex{{0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0xff, 0xff}, {0xbf, 0xff, 0xff, 0xff}, {0, 0xff, 0xff, 0xff}, {0x0f, 0xff, 0xff, 0xff},
		{0xff, 0xff, 0xff, 0xf3, 1}, {0xff, 0xff, 0xff, 0xf7, 1}, {0xff, 0xff, 0xff, 0xff, 1}, {0xff, 0xff, 0xff, 0xfb, 1, 1}}
	for m := 0; m < 20; m++ {
		for _, tl := range tails {
			yield(BombCase{Prefix: append(Hex{byte(m)}, tl...)})
			yield(BombCase{Prefix: append(Hex{17, byte(m)}, tl...)})
			yield(BombCase{Prefix: append(Hex{byte(m)}, tl...), Unit: Hex{5}, Times: 1000})
			yield(BombCase{Prefix: append(Hex{byte(m)}, tl...), Unit: Hex{1}, Times: 100000})
		}
	}
	deep := []int{20000, 2000000}
	if thorough {
		deep = append(deep, 6000000)
	}
	units := []Hex{
		{10, 0, 0, 0, 1}, {10, 255, 255, 255, 255}, // strict arrays
		{3, 0, 1, 'a'}, {8, 0, 0, 0, 1, 0, 1, 'a'}, {16, 0, 0, 0, 1, 'a'}, // objects
		{9, 3, 1}, {9, 1, 3, 'a'}, // AMF3 arrays
		{10, 0x13, 1, 3, 'a'}, {10, 0x0b, 1, 3, 'a'}, // AMF3 objects, sealed and dynamic
		{10, 7, 67, 'f', 'l', 'e', 'x', '.', 'm', 'e', 's', 's', 'a', 'g', 'i', 'n', 'g', '.', 'i', 'o', '.', 'A', 'r', 'r', 'a', 'y', 'C', 'o', 'l', 'l', 'e', 'c', 't', 'i', 'o', 'n'},
		{10, 7, 7, 'D', 'S', 'A', 1}, {10, 7, 7, 'D', 'S', 'K', 1}, {10, 1},
		{10, 7, 21, 'v', 'e', 'r', 'i', 'f', '.', 'P', 'a', 'i', 'r'},
		{0x80}, {0xff}, {17}, {17, 17},
	}
	for _, u := range units {
		for _, n := range deep {
			if n*len(u) > 40<<20 {
				n = (40 << 20) / len(u)
			}
			yield(BombCase{Unit: u, Times: n})
			yield(BombCase{Prefix: Hex{17}, Unit: u, Times: n})
		}
	}
	// references to a deep or wide trait, flags without end
	yield(BombCase{Prefix: Hex{10, 7, 7, 'D', 'S', 'A'}, Unit: Hex{0x80}, Times: 1 << 20})
	yield(BombCase{Prefix: Hex{10, 7, 7, 'D', 'S', 'K'}, Unit: Hex{0xff}, Times: 1 << 16})
	yield(BombCase{Prefix: Hex{10, 0x0b, 1}, Unit: Hex{3, 'a', 1}, Times: 200000})
	yield(BombCase{Prefix: Hex{10, 0xff, 0xff, 0xff, 0xf3, 1}, Unit: Hex{3, 'a'}, Times: 200000})
	yield(BombCase{Prefix: Hex{10, 0xff, 0xff, 0xff, 0xf3, 1}, Unit: Hex{1}, Times: 1000000})
	yield(BombCase{Prefix: Hex{10, 0x03, 1}, Unit: Hex{10, 1}, Times: 300000})
	yield(BombCase{Unit: Hex{3, 0, 0, 9}, Times: 300000})
	yield(BombCase{Prefix: Hex{10, 255, 255, 255, 255}, Unit: Hex{3, 0, 0, 9}, Times: 300000})
	yield(BombCase{Prefix: Hex{2, 0xff, 0xff}, Unit: Hex{'a'}, Times: 70000})
	yield(BombCase{Prefix: Hex{12, 0, 0x20, 0, 0}, Unit: Hex{'a'}, Times: 1 << 20})
}

// ---------------------------------------------------------------- A06

// ReadCase is a message that is read in pieces or cut off.
type ReadCase struct {
	V3    bool   `json:"v3,omitempty"`
	Nodes []Node `json:"nodes"`
	Sizes []int  `json:"sizes"`
	EOF   bool   `json:"eof,omitempty"`
	// Cuts selects the cut positions when the message is long.
	Cuts []int `json:"cuts,omitempty"`
}

func checkA06(c ReadCase, o *Obs) error {
	var data []byte
	var exps []*Exp
	var ends []int
	mk := func() amf.Decoder { return decoder0() }
	if c.V3 {
		data, exps, ends, _ = write3(c.Nodes)
		mk = func() amf.Decoder { return decoder3() }
	} else {
		data, exps, ends, _ = write0(c.Nodes)
	}
	classNodes(c.Nodes, o)
	if len(data) > 3 {
		o.NonTrivial()
	}
	o.ClassIf(c.EOF, "end reported with data")
	reader := func(b []byte) io.Reader {
		return &chunkReader{data: append([]byte(nil), b...), sizes: sane(c.Sizes), eofWithData: c.EOF}
	}
	// the whole message in pieces
	got, err := mk().DecodeBatch(reader(data))
	if err != nil {
		return fmt.Errorf("DecodeBatch in pieces: %w", err)
	}
	if err := matchAll(exps, got); err != nil {
		return fmt.Errorf("in pieces: %w", err)
	}
	// through readers of other kinds, whose memory is used for something else afterwards
	for kind := 0; kind < 6; kind++ {
		mem := append(make([]byte, 0, len(data)+64), data...)
		name, r := readerOf(kind, mem)
		got, err := mk().DecodeBatch(r)
		if err != nil {
			return fmt.Errorf("DecodeBatch from %s: %w", name, err)
		}
		scrub(mem)
		if b, ok := r.(*bytes.Buffer); ok {
			b.Reset()
			b.Write(make([]byte, len(data)))
		}
		if err := matchAll(exps, got); err != nil {
			return fmt.Errorf("from %s: %w", name, err)
		}
	}
	// single calls leave the reader right behind the value
	for _, r := range []interface {
		io.Reader
		Len() int
	}{bytes.NewBuffer(append([]byte(nil), data...)), strings.NewReader(string(data))} {
		d := mk()
		for i := range exps {
			v, err := d.Decode(r)
			if err != nil {
				return fmt.Errorf("Decode of value %d from a %T: %w", i, r, err)
			}
			if at := len(data) - r.Len(); at != ends[i] {
				return fmt.Errorf("Decode of value %d from a %T ends at byte %d instead of %d", i, r, at, ends[i])
			}
			if err := matchExp(exps[i], v); err != nil {
				return fmt.Errorf("value %d from a %T: %w", i, r, err)
			}
		}
	}
	d := mk()
	r := reader(data)
	for i := range exps {
		v, err := d.Decode(r)
		if err != nil {
			return fmt.Errorf("Decode of value %d in pieces: %w", i, err)
		}
		if err := matchExp(exps[i], v); err != nil {
			return fmt.Errorf("value %d in pieces: %w", i, err)
		}
	}
	if v, err := d.Decode(r); err == nil {
		return fmt.Errorf("Decode at the end yields %s", safeSprint(v))
	}
	// cut off
	cuts := map[int]bool{}
	if len(data) <= 160 {
		for i := 0; i <= len(data); i++ {
			cuts[i] = true
		}
	} else {
		for _, e := range ends {
			for k := e - 2; k <= e+12; k++ {
				cuts[k] = true
			}
		}
		for i := 0; i < 24; i++ {
			cuts[i] = true
		}
		for _, k := range c.Cuts {
			cuts[k%len(data)] = true
		}
	}
	for k := range cuts {
		if k < 0 || k > len(data) {
			continue
		}
		if err := checkCut(mk, reader, data, exps, ends, k); err != nil {
			return fmt.Errorf("cut after %d of %d bytes: %w", k, len(data), err)
		}
		if err := checkCut(mk, func(b []byte) io.Reader { return bytes.NewReader(b) }, data, exps, ends, k); err != nil {
			return fmt.Errorf("cut after %d of %d bytes: %w", k, len(data), err)
		}
		broken := func(b []byte) io.Reader {
			return &chunkReader{data: append([]byte(nil), b...), sizes: sane(c.Sizes), eofWithData: c.EOF, end: errReader}
		}
		if err := checkBroken(mk, broken, data, exps, ends, k); err != nil {
			return fmt.Errorf("the input fails after %d of %d bytes: %w", k, len(data), err)
		}
	}
	return nil
}

// readerOf is a reader of one of six kinds.
func readerOf(kind int, b []byte) (string, io.Reader) {
	switch kind {
	case 0:
		return "a bytes.Buffer", bytes.NewBuffer(b)
	case 1:
		return "a bufio.Reader", bufio.NewReaderSize(bytes.NewReader(b), 16)
	case 2:
		return "a large bufio.Reader", bufio.NewReaderSize(bytes.NewReader(b), 1<<16)
	case 3:
		return "a strings.Reader", strings.NewReader(string(b))
	case 4:
		return "an io.LimitedReader", io.LimitReader(bytes.NewReader(b), int64(len(b)))
	default:
		return "an io.MultiReader", io.MultiReader(bytes.NewReader(b[:len(b)/2]), bytes.NewBuffer(b[len(b)/2:]))
	}
}

// checkBroken lets the input fail, by an error that is not its end, after k bytes.
func checkBroken(mk func() amf.Decoder, reader func([]byte) io.Reader, data []byte, exps []*Exp, ends []int, k int) error {
	full := 0
	for _, e := range ends {
		if e <= k {
			full++
		}
	}
	got, err := mk().DecodeBatch(reader(data[:k]))
	if err == nil {
		return fmt.Errorf("DecodeBatch reports no error")
	}
	if len(got) != full {
		return fmt.Errorf("DecodeBatch returns %d values, %d are complete", len(got), full)
	}
	if err := matchAll(exps[:full], got); err != nil {
		return err
	}
	d := mk()
	r := reader(data[:k])
	for i := 0; i < full; i++ {
		v, err := d.Decode(r)
		if err != nil {
			return fmt.Errorf("Decode of complete value %d: %w", i, err)
		}
		if err := matchExp(exps[i], v); err != nil {
			return fmt.Errorf("value %d: %w", i, err)
		}
	}
	if v, err := d.Decode(r); err == nil || err == io.EOF {
		return fmt.Errorf("Decode of the next value yields %s, %v", safeSprint(v), err)
	}
	return nil
}

func checkCut(mk func() amf.Decoder, reader func([]byte) io.Reader, data []byte, exps []*Exp, ends []int, k int) error {
	full, boundary := 0, k == 0
	for _, e := range ends {
		if e <= k {
			full++
		}
		if e == k {
			boundary = true
		}
	}
	// a value that refers to later parts cannot exist, so the first ones decode as before; shared
	// graphs are compared only when the message is complete
	got, err := mk().DecodeBatch(reader(data[:k]))
	if boundary && err != nil {
		return fmt.Errorf("DecodeBatch between values: %w", err)
	}
	if !boundary && err == nil {
		return fmt.Errorf("DecodeBatch reports no error inside a value")
	}
	if len(got) != full {
		return fmt.Errorf("DecodeBatch returns %d values, %d are complete", len(got), full)
	}
	if err := matchAll(exps[:full], got); err != nil {
		return err
	}
	d := mk()
	r := reader(data[:k])
	for i := 0; i < full; i++ {
		if _, err := d.Decode(r); err != nil {
			return fmt.Errorf("Decode of complete value %d: %w", i, err)
		}
	}
	v, err := d.Decode(r)
	if err == nil {
		return fmt.Errorf("Decode past the end yields %s", safeSprint(v))
	}
	if !boundary && err == io.EOF {
		return fmt.Errorf("Decode returns io.EOF inside a value")
	}
	return nil
}

// sane makes sure that a size sequence makes progress.
func sane(s []int) []int {
	out := append([]int(nil), s...)
	ok := len(out) == 0
	for _, x := range out {
		if x > 0 {
			ok = true
		}
	}
	if !ok {
		out = append(out, 1)
	}
	return out
}

func genSizes(t *rapid.T) []int {
	n := intn(t, 1, 5)
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, pick(t, 1, 1, 2, 3, 0, 5, 8, 17, 512, 4096))
	}
	return out
}

func genA06(t *rapid.T) ReadCase {
	c := ReadCase{V3: boolean(t), Sizes: genSizes(t), EOF: boolean(t)}
	n := intn(t, 1, 4)
	k := 0
	for i := 0; i < n; i++ {
		if c.V3 {
			c.Nodes = append(c.Nodes, genNode3(t, intn(t, 0, 2), true))
		} else {
			c.Nodes = append(c.Nodes, genNode0(t, intn(t, 0, 2), &k))
		}
	}
	for i := 0; i < 6; i++ {
		c.Cuts = append(c.Cuts, spread(t, 0, 1<<21))
	}
	return c
}

func sweepA06(thorough bool, yield func(ReadCase)) {
	for _, sizes := range [][]int{{1}, {2}, {1, 0}, {3, 1}, {1000}, {65535}, {65537, 1}} {
		for _, eof := range []bool{false, true} {
			for _, l := range []int{5, 300, 65535, 65536, 65537, 200000} {
				for _, k := range []string{"long", "xml"} {
					yield(ReadCase{Nodes: []Node{{K: k, S: "abc", L: l}, {K: "nil"}}, Sizes: sizes, EOF: eof, Cuts: []int{l, l / 2, l + 4, 65535, 65536, 65537, 65541, 65540}})
				}
				for _, k := range []string{"str", "bytes", "xml", "xmldoc"} {
					yield(ReadCase{V3: true, Nodes: []Node{{K: k, S: "abc", L: l}, {K: "nil"}}, Sizes: sizes, EOF: eof, Cuts: []int{l, l / 2, l + 3, 65535, 65536, 65537, 65541, 65540}})
				}
			}
		}
	}
}

// ---------------------------------------------------------------- A07

// FailCase is an encode operation on a writer that fails, or of a value that cannot be encoded.
type FailCase struct {
	Op      string `json:"op"`
	Vals    []Val  `json:"vals"`
	At      int    `json:"at,omitempty"` // extra failure position for long encodings
	Partial bool   `json:"partial,omitempty"`
	Bad     bool   `json:"bad,omitempty"` // Vals contains a value that cannot be encoded
}

func runOp(op string, w io.Writer, vals []Val) error {
	return runOpOn(amf.NewEnDecAMF0(), amf.NewEnDecAMF3(), op, w, vals)
}

func runOpOn(e0 *amf.EnDecAMF0, e3 *amf.EnDecAMF3, op string, w io.Writer, vals []Val) error {
	var err error
	switch op {
	case "amf0":
		_, err = e0.Encode(w, goVal(vals[0]))
	case "amf0batch":
		var a []interface{}
		for _, v := range vals {
			a = append(a, goVal(v))
		}
		err = e0.EncodeBatch(w, a...)
	case "amf3":
		_, err = e3.Encode(w, goVal(vals[0]))
	case "amf3batch":
		var a []interface{}
		for _, v := range vals {
			a = append(a, goVal(v))
		}
		err = e3.EncodeBatch(w, a...)
	case "with3":
		_, err = e0.EncodeWithAMF3(w, goVal(vals[0]))
	case "ecma":
		_, err = e0.EncodeEcmaArray(w, goObj(vals[0]))
	case "xml":
		_, err = e0.EncodeXmlDocument(w, vals[0].str())
	case "ref":
		_, err = e0.EncodeReference(w, uint16(vals[0].I))
	case "undef":
		_, err = e0.EncodeUndefined(w)
	case "unsup":
		_, err = e0.EncodeUnsupported(w)
	default:
		panic("bad op")
	}
	return err
}

func checkA07(c FailCase, o *Obs) error {
	o.Class("op:" + c.Op)
	if c.Bad {
		o.Class("cannot be encoded")
		o.NonTrivial()
		e0, e3 := amf.NewEnDecAMF0(), amf.NewEnDecAMF3()
		for i := 0; i < 3; i++ {
			if err := runOpOn(e0, e3, c.Op, io.Discard, c.Vals); err == nil {
				return fmt.Errorf("a value that cannot be encoded gives no error")
			}
		}
		// the encoder goes on as before
		for _, op := range []string{"amf0", "amf3", "with3"} {
			var w, w2 bytes.Buffer
			vals := []Val{goodVal}
			if err := runOpOn(e0, e3, op, &w, vals); err != nil {
				return fmt.Errorf("encoding after a refused value: %w", err)
			}
			if err := runOp(op, &w2, vals); err != nil {
				return err
			}
			if x := diffBytes(w2.Bytes(), w.Bytes()); x != "" {
				return fmt.Errorf("encoding after a refused value: %s", x)
			}
		}
		return nil
	}
	var w bytes.Buffer
	if err := runOp(c.Op, &w, c.Vals); err != nil {
		return fmt.Errorf("without failure: %w", err)
	}
	total := w.Len()
	if total > 1 {
		o.NonTrivial()
	}
	at := map[int]bool{}
	for i := 0; i < total && i < 100; i++ {
		at[i] = true
	}
	for i := total - 12; i < total; i++ {
		if i >= 0 {
			at[i] = true
		}
	}
	if total > 0 {
		at[c.At%total] = true
	}
	for k := range at {
		for _, sticky := range []bool{true, false} {
			fw := &failWriter{limit: k, partial: c.Partial, sticky: sticky}
			err := runOp(c.Op, fw, c.Vals)
			if fw.fails == 0 {
				return fmt.Errorf("wrote only part of its %d bytes: no write failed at %d", total, k)
			}
			if err == nil {
				return fmt.Errorf("the writer fails at byte %d of %d, and the encoder reports success", k, total)
			}
		}
	}
	// every single write call
	cw := &countFailWriter{k: 1 << 30}
	if err := runOp(c.Op, cw, c.Vals); err != nil {
		return err
	}
	calls := cw.calls
	for k := 0; k < calls && k < 60; k++ {
		fw := &countFailWriter{k: k}
		err := runOp(c.Op, fw, c.Vals)
		if err == nil && fw.calls > k {
			return fmt.Errorf("write call %d of %d fails, and the encoder reports success", k, calls)
		}
	}
	return nil
}

var badKinds = []string{"chan", "func", "complex", "struct", "ptr", "nilptr", "map"}
var cycleKinds = []string{"cycle", "cyclearr", "cycletyped", "cyclefar"}

var goodVal = Val{K: "arr", E: []Val{{K: "obj", Keys: []Val{{K: "str", S: "key"}}, E: []Val{{K: "str", S: "value"}}}, {K: "int", I: -5}, deepVal(200, "arr")}}

func genA07(t *rapid.T) FailCase {
	c := FailCase{Op: pick(t, "amf0", "amf0", "amf0batch", "amf3", "amf3", "amf3batch", "with3", "ecma", "xml", "ref"), At: spread(t, 0, 1<<20), Partial: boolean(t)}
	three := c.Op == "amf3" || c.Op == "amf3batch" || c.Op == "with3"
	n := 1
	if c.Op == "amf0batch" || c.Op == "amf3batch" {
		n = intn(t, 1, 3)
	}
	for i := 0; i < n; i++ {
		switch c.Op {
		case "ecma":
			v := Val{K: "ecma"}
			genMembers(t, &v, 2, false)
			c.Vals = append(c.Vals, v)
		case "xml":
			c.Vals = append(c.Vals, genStrVal(t, "xml", 1<<18))
		case "ref":
			c.Vals = append(c.Vals, Val{K: "int", I: int64(intn(t, 0, 65535))})
		default:
			c.Vals = append(c.Vals, genVal(t, intn(t, 0, 2), three))
		}
	}
	if c.Op != "xml" && c.Op != "ref" && chance(t, 35) {
		// plant something unencodable somewhere
		c.Bad = true
		var bad Val
		if three || chance(t, 60) {
			bad = Val{K: pick(t, badKinds...)}
			if chance(t, 3) {
				bad.K = pick(t, cycleKinds...)
			}
		} else {
			switch intn(t, 0, 2) {
			case 0:
				bad = Val{K: "obj", Keys: []Val{{K: "str", S: "k", L: 65536 + intn(t, 0, 1)*100000}}, E: []Val{{K: "nil"}}}
			case 1:
				bad = Val{K: "typed", S: "T", L: 65536 + intn(t, 0, 1)*100000, Keys: []Val{{K: "str", S: "k"}}, E: []Val{{K: "nil"}}}
			case 2:
				bad = Val{K: "obj", Keys: []Val{{K: "str", S: "a"}, {K: "str"}}, E: []Val{{K: "nil"}, {K: "nil"}}}
			}
		}
		d := intn(t, 0, 4)
		for i := 0; i < d; i++ {
			switch intn(t, 0, 3) {
			case 0:
				bad = Val{K: "arr", E: []Val{{K: "nil"}, bad}}
			case 1:
				bad = Val{K: "obj", Keys: []Val{{K: "str", S: "a"}, {K: "str", S: "b"}}, E: []Val{{K: "bool"}, bad}}
			case 2:
				bad = Val{K: "typed", S: "T", Keys: []Val{{K: "str", S: "a"}}, E: []Val{bad}}
			case 3:
				bad = Val{K: "ifaces", E: []Val{bad, {K: "str", S: "s"}}}
			}
		}
		if c.Op == "ecma" {
			c.Vals[0] = Val{K: "ecma", Keys: []Val{{K: "str", S: "a"}, {K: "str", S: "b"}}, E: []Val{bad, {K: "nil"}}}
		} else {
			c.Vals[intn(t, 0, len(c.Vals)-1)] = bad
		}
	}
	return c
}

func sweepA07(thorough bool, yield func(FailCase)) {
	for _, op := range []string{"undef", "unsup"} {
		yield(FailCase{Op: op, Vals: []Val{{K: "nil"}}})
	}
	for _, op := range []string{"amf0", "amf3", "with3", "amf0batch", "amf3batch"} {
		three := op != "amf0" && op != "amf0batch"
		kinds := []string{"nil", "bool", "int", "int64", "uint32", "float32", "float64", "str", "date", "ints", "floats", "strs", "nilarr", "nilobj", "nstr", "bytes", "nbool"}
		for _, k := range kinds {
			for _, p := range []bool{false, true} {
				yield(FailCase{Op: op, Vals: []Val{{K: k, I: 1 << 40, U: 1 << 40, S: "abc"}}, Partial: p})
				yield(FailCase{Op: op, Vals: []Val{{K: "obj", Keys: []Val{{K: "str", S: "key"}}, E: []Val{{K: k, S: "abc"}}}}, Partial: p})
				yield(FailCase{Op: op, Vals: []Val{{K: "typed", S: "T", Keys: []Val{{K: "str", S: "key"}}, E: []Val{{K: k, S: "abc"}}}}, Partial: p})
				yield(FailCase{Op: op, Vals: []Val{{K: "arr", E: []Val{{K: k, S: "abc"}, {K: k}}}}, Partial: p})
			}
		}
		for _, p := range []bool{false, true} {
			yield(FailCase{Op: op, Vals: []Val{{K: "str", S: "abc", L: 70000}}, Partial: p, At: 30000})
			if op == "amf0" {
				yield(FailCase{Op: "ecma", Vals: []Val{{K: "ecma"}}, Partial: p})
				yield(FailCase{Op: "xml", Vals: []Val{{K: "xml"}}, Partial: p})
				yield(FailCase{Op: "xml", Vals: []Val{{K: "xml", S: "<a/>"}}, Partial: p})
				yield(FailCase{Op: "ref", Vals: []Val{{K: "int", I: 513}}, Partial: p})
			}
		}
		for _, k := range append(append([]string(nil), badKinds...), cycleKinds...) {
			for d := 0; d < 5; d++ {
				for _, wrap := range []string{"arr", "obj", "typed"} {
					v := Val{K: k}
					for i := 0; i < d; i++ {
						w := Val{K: wrap, E: []Val{v}}
						if wrap != "arr" {
							w.Keys = []Val{{K: "str", S: "k"}}
						}
						v = w
					}
					yield(FailCase{Op: op, Vals: []Val{v}, Bad: true})
				}
			}
		}
		if !three {
			for _, l := range []int{65536, 65537, 131071, 131072, 1 << 20} {
				for d := 0; d < 3; d++ {
					for _, b := range []Val{{K: "obj", Keys: []Val{{K: "str", S: "k", L: l}}, E: []Val{{K: "nil"}}},
						{K: "typed", S: "k", L: l}, {K: "typed", S: "T", Keys: []Val{{K: "str"}}, E: []Val{{K: "nil"}}}} {
						v := b
						for i := 0; i < d; i++ {
							v = Val{K: "arr", E: []Val{{K: "nil"}, v}}
						}
						yield(FailCase{Op: op, Vals: []Val{v}, Bad: true})
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- A08

// HeaderCase is a metadata message.
type HeaderCase struct {
	Name   Str  `json:"name"`
	L      int  `json:"l,omitempty"`
	Form   int  `json:"form"` // 0 string, 1 long string, 2 AMF3 string inside AMF0, 3 AMF3 string (AMF3 decoder)
	Rest   Blob `json:"rest"`
	First  Hex  `json:"first,omitempty"`  // a message that does not start with a string
	Shared bool `json:"shared,omitempty"` // one decoder for all calls
	Again  bool `json:"again,omitempty"`
}

func headBytes(name string, form int) []byte {
	var w wire
	switch form {
	case 0:
		w.b(2)
		w.utf8(name)
	case 1:
		w.b(12)
		w.u32(uint32(len(name)))
		w.WriteString(name)
	case 2, 3:
		if form == 2 {
			w.b(17)
		}
		w.b(6)
		w.u29(uint32(len(name))<<1 | 1)
		w.WriteString(name)
	}
	return w.Bytes()
}

func checkA08(c HeaderCase, o *Obs) error {
	var results kept
	for i := 0; i < 2; i++ {
		if err := checkHeader(c, o, &results); err != nil {
			return err
		}
		// the results are the caller's: later calls leave them alone, and so may the caller change them
		for n := 0; n < 3; n++ {
			other := append([]byte{2, 0, 1, byte('a' + n)}, bytes.Repeat([]byte{byte(5 + i)}, []int{0, 10, 100}[n])...)
			want := append(append([]byte{2, 0, 13}, "@setDataFrame"...), other...)
			got, err := amf.AddMetaHeader(other, amf.NewEnDecAMF0())
			if err != nil {
				return err
			}
			if d := diffBytes(want, got); d != "" {
				return fmt.Errorf("AddMetaHeader after other calls: %s", d)
			}
			results.add(got)
		}
		if err := results.scrub(); err != nil {
			return err
		}
	}
	return nil
}

func checkHeader(c HeaderCase, o *Obs, results *kept) error {
	name := Val{S: c.Name, L: c.L}.str()
	if c.Form == 0 && len(name) > 65535 {
		name = name[:65535]
	}
	var shared amf.Decoder = amf.NewEnDecAMF0()
	if c.Form == 3 {
		shared = amf.NewEnDecAMF3()
	}
	dec := func() amf.Decoder {
		if c.Shared {
			return shared
		}
		if c.Form == 3 {
			return amf.NewEnDecAMF3()
		}
		return amf.NewEnDecAMF0()
	}
	std := append([]byte{2, 0, 13}, "@setDataFrame"...)
	rest := c.Rest.Bytes()
	try := func(what string, f func([]byte, amf.Decoder) ([]byte, error), in []byte, want []byte) ([]byte, error) {
		buf := make([]byte, len(in), len(in)+32) // room behind the message must not be used either
		copy(buf, in)
		full := buf[:cap(buf)]
		for i := len(in); i < len(full); i++ {
			full[i] = 0xa5
		}
		snap := append([]byte(nil), full...)
		got, err := f(buf, dec())
		if !bytes.Equal(snap, full) {
			return nil, fmt.Errorf("%s changes the caller's bytes", what)
		}
		if want == nil {
			if err == nil {
				return nil, fmt.Errorf("%s accepts a message that does not start with a string", what)
			}
			return nil, nil
		}
		if err != nil {
			return nil, fmt.Errorf("%s: %w", what, err)
		}
		if d := diffBytes(want, got); d != "" {
			return nil, fmt.Errorf("%s: %s", what, d)
		}
		results.add(got)
		return got, nil
	}
	if len(c.First) > 0 {
		o.Class("no leading string")
		o.NonTrivial()
		msg := append(append([]byte(nil), c.First...), rest...)
		if _, err := try("AddMetaHeader", amf.AddMetaHeader, msg, nil); err != nil {
			return err
		}
		_, err := try("DelMetaHeader", amf.DelMetaHeader, msg, nil)
		return err
	}
	o.Class("form %d", c.Form)
	is := name == amf.SetDataFrame
	o.ClassIf(is, "with header")
	o.ClassIf(len(rest) > 0, "with content")
	if len(rest) > 0 {
		o.NonTrivial()
	}
	msg := append(headBytes(name, c.Form), rest...)
	if is {
		if c.Form != 3 {
			if _, err := try("AddMetaHeader on a message with header", amf.AddMetaHeader, msg, msg); err != nil {
				return err
			}
		}
		if rest == nil {
			rest = []byte{}
		}
		_, err := try("DelMetaHeader", amf.DelMetaHeader, msg, rest)
		return err
	}
	if _, err := try("DelMetaHeader on a message without header", amf.DelMetaHeader, msg, msg); err != nil {
		return err
	}
	if c.Form == 3 {
		return nil
	}
	with := append(append([]byte(nil), std...), msg...)
	got, err := try("AddMetaHeader", amf.AddMetaHeader, msg, with)
	if err != nil {
		return err
	}
	// repeated adding changes nothing, removing restores the message
	if _, err := try("AddMetaHeader twice", amf.AddMetaHeader, got, with); err != nil {
		return err
	}
	_, err = try("DelMetaHeader after AddMetaHeader", amf.DelMetaHeader, with, msg)
	return err
}

func genA08(t *rapid.T) HeaderCase {
	c := HeaderCase{Form: intn(t, 0, 3), Shared: boolean(t)}
	switch intn(t, 0, 4) {
	case 0, 1:
		c.Name = Str(amf.SetDataFrame)
	case 2:
		c.Name = Str(pick(t, "onMetaData", "@setDataFram", "@setDataFrame ", "@setdataframe", "", "@clearDataFrame", "@setDataFrame\x00"))
	default:
		v := genStrVal(t, "str", 70000)
		c.Name, c.L = v.S, v.L
	}
	if chance(t, 20) {
		c.First = pick(t, Hex{0, 0, 0, 0, 0, 0, 0, 0, 0}, Hex{1, 1}, Hex{3, 0, 0, 9}, Hex{5}, Hex{8, 0, 0, 0, 0, 0, 0, 9}, Hex{10, 0, 0, 0, 0}, Hex{17, 4, 1}, Hex{17, 1}, Hex{6}, Hex{16, 0, 1, 'T', 0, 0, 9}, Hex{18}, Hex{10, 0, 0, 0, 1, 2, 0, 0})
		c.Form = 0
	}
	if boolean(t) {
		k := 0
		data, _, _, _ := write0([]Node{genNode0(t, 2, &k)})
		if len(data) < 4096 {
			c.Rest = Blob{Head: data}
			return c
		}
	}
	c.Rest = genBlob(t, 300)
	return c
}

func sweepA08(thorough bool, yield func(HeaderCase)) {
	for form := 0; form < 4; form++ {
		for _, n := range []Str{"@setDataFrame", "onMetaData", "", "@setDataFramf", "@setDataFrames"} {
			for _, l := range []int{0, 1, 16, 17, 18, 300, 70000} {
				yield(HeaderCase{Name: n, Form: form, Rest: Blob{N: l, Pat: 4}})
			}
		}
		for _, l := range []int{255, 256, 65535, 65536, 70000} {
			yield(HeaderCase{Name: "@setDataFrame", L: l, Form: form, Rest: Blob{N: 20}})
		}
	}
}

func init() {
	register(Spec[EncCase]{ID: "A01", CaseCPU: 150, Quick: 240000, Thorough: 2000000, Gen: genA01, Check: checkA01, Sweep: sweepA01,
		Technique: techRapid + "an independent value model of AMF0 (round trip, byte counts)",
		Rule:      "sequences of 1-6 Go values of every supported kind, nested up to 3 deep (sweep: 1000), lengths around all encoding limits, references to earlier values; non-trivial: nested or several values",
		Note:      "Generated round trips; expectations come from an independent mapping of Go values to AMF0 values. Not exhaustive. References are drawn for values whose place in the table does not depend on map order."})
	register(Spec[WireCase]{ID: "A02", CaseCPU: 150, Quick: 300000, Thorough: 3000000, Gen: genA02, Check: checkA02, Sweep: sweepA02,
		Technique: techRapid + "a reference AMF0 encoder with its own reference table (differential)",
		Rule:      "well-formed AMF0 messages written by the harness's own encoder, with references to earlier and enclosing values; undefined and unimplemented markers, unregistered classes, deep nesting; non-trivial: contains a reference or at least two complex values",
		Note:      "The reference encoder is written from the AMF0 specification; it counts objects, ECMA arrays, strict arrays and typed objects in order of appearance. References to arrays or typed objects still under construction are not drawn, and only the first AMF3 value of a message uses references."})
	register(Spec[EncCase]{ID: "A03", CaseCPU: 150, Quick: 240000, Thorough: 2000000, Gen: genA03, Check: checkA03, Sweep: sweepA03,
		Technique: techRapid + "an independent value model of AMF3 (round trip, byte counts)",
		Rule:      "sequences of 1-5 Go values of every supported kind, nested up to 3 deep (sweep: 1000), lengths and integers around all U29 limits; non-trivial: nested or several values",
		Note:      "Generated round trips; all integer limits of the 29-bit type are enumerated."})
	register(Spec[WireCase]{ID: "A04", CaseCPU: 150, Quick: 300000, Thorough: 3000000, Gen: genA04, Check: checkA04, Sweep: sweepA04,
		Technique: techRapid + "a reference AMF3 encoder with string, object and trait tables (differential)",
		Rule:      "well-formed AMF3 messages written by the harness's own encoder, with string, object and trait references, external classes and flags; references of another kind, unregistered classes, deep nesting; non-trivial: contains a reference or at least two table entries",
		Note:      "The reference encoder is written from the AMF3 specification. Dates are whole seconds; vectors and dictionaries are not implemented by the library and not drawn; names of unknown external fields are not judged."})
	register(Spec[BombCase]{ID: "A05", Quick: 20000, Thorough: 1000000, Gen: genA05, Check: checkA05, Sweep: sweepA05,
		Technique: techRapid + "a crash, stack, CPU and allocation monitor (structure-aware mutation, nesting bombs, inflated counts)",
		Rule:      "edited well-formed messages, every marker with extreme counts, repeated units up to 2 million times; each decoded by both decoders, single and batch, and both header functions; non-trivial: more than 4 bytes",
		Note:      "Memory bound: 2 MB plus 2048 bytes per input byte of allocation; a case may use 60 s of CPU time and 4 GB of memory."})
	register(Spec[ReadCase]{ID: "A06", Quick: 15000, Thorough: 600000, Gen: genA06, Check: checkA06, Sweep: sweepA06,
		Technique: techRapid + "metamorphic relations: chunked readers and truncation at every position",
		Rule:      "well-formed messages read in pieces (including empty reads and data together with the end) and cut at every position (long ones: around all value ends and at drawn places); non-trivial: more than 3 bytes",
		Note:      "The expected values come from the reference encoders."})
	register(Spec[FailCase]{ID: "A07", Quick: 60000, Thorough: 1000000, Level: "fault_enumeration", Gen: genA07, Check: checkA07, Sweep: sweepA07,
		Technique: "property-based testing with enumerated writer failures at every byte and write call",
		Rule:      "every encode operation with generated values, the writer failing at each of the first 100 and last 12 byte positions, a drawn one, and at each of the first 60 write calls; and values with an unencodable part at depth 0-4; non-trivial: more than one byte, or unencodable",
		Note:      "Failure positions are enumerated for short encodings and sampled in long ones."})
	register(Spec[HeaderCase]{ID: "A08", Quick: 360000, Thorough: 2000000, Gen: genA08, Check: checkA08, Sweep: sweepA08,
		Technique: techRapid + "a byte-level model of the header (inverse and idempotence laws)",
		Rule:      "messages that start with a string in each encoding, with arbitrary content behind it, and messages that do not; non-trivial: with content, or without leading string",
		Note:      "XML documents as first value are not drawn: whether they count as strings is left open."})
}
