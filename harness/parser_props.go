package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/parser/mp3"
	"pgregory.net/rapid"
)

// avcSink is a H.264 conversion: the parser itself or the combined parser.
type avcSink struct {
	h *h264.Parser
	c *parser.CodecParser
}

func newAvcSink(combined bool) avcSink {
	if combined {
		return avcSink{c: parser.NewCodecParser()}
	}
	return avcSink{h: h264.NewParser()}
}

func (s avcSink) parse(b []byte, hdr bool, w io.Writer) error {
	return lent(b, func(b []byte) error { return s.parse1(b, hdr, w) })
}

func (s avcSink) parse1(b []byte, hdr bool, w io.Writer) error {
	keep := append([]byte(nil), b...)
	var err error
	if s.h != nil {
		err = s.h.Parse(b, hdr, w)
	} else {
		v := &vhdr{frame: 1, avc: 1, codec: 7}
		if hdr {
			v.avc = 0
		}
		if b == nil {
			b = []byte{}
		}
		err = s.c.Parse(&packet.Packet{Type: packet.PktVideo, Header: v, Data: b, Media: b}, w)
	}
	if d := diffBytes(keep, b); d != "" {
		return fmt.Errorf("the input was changed: %s", d)
	}
	return err
}

// ---------------------------------------------------------------- P01

// AUCase is one access unit, possibly behind a sequence header.
type AUCase struct {
	Comb  bool    `json:"comb,omitempty"`
	Hdr   *SeqHdr `json:"hdr,omitempty"`
	Units []Unit  `json:"u"`
	Times int     `json:"times,omitempty"` // the units this many times
	Annex bool    `json:"x,omitempty"`
	Bad   string  `json:"bad,omitempty"` // cut trail zero long empty huge high
	At    int     `json:"at,omitempty"`
}

func checkP01(c AUCase, o *Obs) error {
	c.Units = times(c.Units, c.Times)
	s := newAvcSink(c.Comb)
	model := newAvcModel()
	if c.Hdr != nil {
		rec, ok := model.header(*c.Hdr)
		var out bytes.Buffer
		err := s.parse(rec, true, &out)
		if (err == nil) != ok {
			return fmt.Errorf("sequence header (well formed %v): error %v", ok, err)
		}
		if out.Len() > 0 {
			return fmt.Errorf("the sequence header produces %d bytes of output", out.Len())
		}
	}
	var us [][]byte
	for _, u := range c.Units {
		us = append(us, u.bytes())
	}
	us = fitUnits(us, model.n)
	o.Class("%d byte lengths", model.n)
	var in, want []byte
	var wantErr error
	switch {
	case c.Annex:
		in = annexB(us...)
		want = in
		if len(in) == 0 {
			wantErr = errBadAU
		}
		o.Class("Annex-B input")
	case c.Bad != "":
		in = avcc(model.n, us...)
		wantErr = errBadAU
		at := 0
		var ends []int
		for _, u := range us {
			at += model.n + len(u)
			ends = append(ends, at)
		}
		switch c.Bad {
		case "cut":
			k := 0
			if len(in) > 0 {
				k = c.At % len(in)
			}
			for _, e := range ends {
				if k == e {
					k-- // a cut between units is a shorter access unit
				}
			}
			in = in[:k]
		case "trail":
			in = append(in, make([]byte, 1+c.At%max(model.n-1, 1))...)
			if model.n == 1 { // a single byte is a complete length: say there is data
				in[len(in)-1] = 1
			}
		case "zero":
			i := c.At % (len(us) + 1)
			var x []byte
			x = append(x, avcc(model.n, us[:i]...)...)
			x = append(x, make([]byte, model.n)...)
			if full := append(append([]byte{}, x...), avcc(model.n, us[i:]...)...); !bytes.HasPrefix(full, start4) {
				x = full // otherwise it reads as Annex-B
			}
			in = x
		case "long":
			if len(us) == 0 {
				us = [][]byte{{0x41, 1}}
			}
			// the last unit claims more bytes than there are
			last := us[len(us)-1]
			in = avcc(model.n, us[:len(us)-1]...)
			l := len(last) + 1 + c.At%200
			if model.n < 4 && l >= 1<<uint(8*model.n) {
				l = 1<<uint(8*model.n) - 1
			}
			if l <= len(last) {
				last = last[:l-1]
			}
			for i := model.n - 1; i >= 0; i-- {
				in = append(in, byte(l>>uint(8*i)))
			}
			in = append(in, last...)
			if model.n == 4 && bytes.HasPrefix(in, start4) {
				return nil // reads as Annex-B
			}
		case "high":
			// one unit's length has one of its higher bytes off
			if len(us) == 0 || model.n == 1 {
				return nil
			}
			in = avcc(model.n, us...)
			i := c.At % len(us)
			end := len(in)
			if i < len(us)-1 {
				end = ends[i]
			}
			byt := end - len(us[i]) - 2 - (c.At/len(us))%(model.n-1)
			in[byt] += byte(1 << uint(c.At/(len(us)*(model.n-1))%8))
			if int(in[byt]) == 0 || bytes.HasPrefix(in, start4) {
				return nil
			}
			if l := len(in) - (end - len(us[i])); beInt(in[end-len(us[i])-model.n:end-len(us[i])]) <= l {
				return nil // it ends in the data
			}
		case "huge":
			in = avcc(model.n, us...)
			for i := 0; i < model.n; i++ {
				in = append(in, 0xff)
			}
			in = append(in, 0x41, 1, 2)
		default:
			in = nil
		}
		o.Class("bad lengths: " + c.Bad)
	default:
		in = avcc(model.n, us...)
		want, wantErr = model.convert(us)
		if len(us) == 0 {
			wantErr = errBadAU
		}
		o.ClassIf(wantErr != nil && len(us) > 0, "unsupported unit type")
	}
	for _, u := range us {
		o.Class("unit type %d", u[0]&0x1f)
	}
	if len(us) > 1 {
		o.NonTrivial()
	}
	// twice: nothing may be left behind
	for i := 0; i < 2; i++ {
		var out bytes.Buffer
		err := s.parse(in, false, &out)
		if wantErr != nil {
			if err == nil {
				return fmt.Errorf("pass %d: access unit %x (%s) is accepted", i, clipBytes(in, 0), c.Bad)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("pass %d: access unit of %d units: %v", i, len(us), err)
		}
		if d := diffBytes(want, out.Bytes()); d != "" {
			return fmt.Errorf("pass %d: %s", i, d)
		}
	}
	return nil
}

// beInt is a big-endian number.
func beInt(b []byte) int {
	n := 0
	for _, v := range b {
		n = n<<8 | int(v)
	}
	return n
}

func genP01(t *rapid.T) AUCase {
	c := AUCase{Comb: boolean(t)}
	if !chance(t, 25) {
		s := genSeqHdr(t, false)
		c.Hdr = &s
	}
	n := pick(t, 1, 1, 2, 3, 4, 6)
	for i := 0; i < n; i++ {
		u := genUnit(t, !chance(t, 4), 60)
		if chance(t, 3) {
			u.Pay = blobOfLen(t, pick(t, 65533, 65534, 65535, 70000, 300))
		}
		c.Units = append(c.Units, u)
	}
	c.Annex = chance(t, 10)
	if chance(t, 20) {
		c.Bad = pick(t, "cut", "trail", "zero", "long", "empty", "huge", "high")
		c.At = spread(t, 0, 100000)
	}
	size := 0
	for _, u := range c.Units {
		size += 10 + u.Pay.Len()
	}
	c.Times = genTimes(t, size)
	return c
}

func sweepP01(thorough bool, yield func(AUCase)) {
	for _, n := range edgeLens { // whole access units of these lengths
		for _, annex := range []bool{true, false} {
			yield(AUCase{Comb: n%2 == 0, Annex: annex, Units: []Unit{{T: 5, R: 3, Pay: Blob{N: n - 5, Pat: 2}}}})
		}
	}
	// many units in one access unit
	for _, n := range []int{2, 4} {
		h := stdSeq
		h.Len = n
		for _, typs := range [][]int{{5}, {1}, {6}, {9, 5}, {7, 8, 5}, {1, 5}, {6, 7, 8, 5, 1}} {
			var us []Unit
			for _, typ := range typs {
				us = append(us, Unit{T: typ, R: 3, Pay: Blob{N: 2}})
			}
			for _, k := range []int{127, 128, 255, 256, 257, 300, 1025, 32769, 65537} {
				yield(AUCase{Hdr: &h, Units: us, Times: k})
			}
		}
	}
	for n := 0; n <= 4; n++ {
		var hdr *SeqHdr
		if n > 0 {
			h := stdSeq
			h.Len = n
			hdr = &h
		}
		// every unit type alone, and before and behind an IDR slice
		for typ := 0; typ < 32; typ++ {
			u := Unit{T: typ, R: 3, Pay: Blob{N: 5}}
			idr := Unit{T: 5, R: 3, Pay: Blob{N: 7}}
			for _, us := range [][]Unit{{u}, {u, idr}, {idr, u}, {u, u, idr, idr, u}} {
				yield(AUCase{Hdr: hdr, Units: us})
				yield(AUCase{Hdr: hdr, Units: us, Comb: true})
				yield(AUCase{Hdr: hdr, Units: us, Annex: true})
			}
		}
		// the lengths around each byte of the length field
		for _, l := range []int{0, 1, 2, 3, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 1 << 17} {
			yield(AUCase{Hdr: hdr, Units: []Unit{{T: 1, Pay: Blob{N: l}}, {T: 5, Pay: Blob{N: l, Pat: 1}}}})
		}
		if thorough || n == 4 {
			yield(AUCase{Hdr: hdr, Units: []Unit{{T: 1, Pay: Blob{N: 1<<24 - 2}}, {T: 5, Pay: Blob{N: 1 << 24, Pat: 1}}}})
		}
		// every truncation of a small unit
		us := []Unit{{T: 6, Pay: Blob{N: 3}}, {T: 5, Pay: Blob{N: 4}}, {T: 1}}
		for at := 0; at < 72; at++ {
			for _, bad := range []string{"cut", "trail", "zero", "long", "empty", "huge", "high"} {
				yield(AUCase{Hdr: hdr, Units: us, Bad: bad, At: at})
			}
		}
	}
}

// ---------------------------------------------------------------- P02

// SeqOp is a sequence header or an access unit.
type SeqOp struct {
	Hdr   *SeqHdr `json:"h,omitempty"`
	Units []Unit  `json:"u,omitempty"`
	Bad   bool    `json:"b,omitempty"` // last unit cut short
	Annex bool    `json:"x,omitempty"`
}

// SeqCase is a history on one parser.
type SeqCase struct {
	Times int     `json:"times,omitempty"` // the whole history this many times
	Comb  bool    `json:"comb,omitempty"`
	Ops   []SeqOp `json:"ops"`
}

func checkP02(c SeqCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	s := newAvcSink(c.Comb)
	model := newAvcModel()
	keys, hdrs := 0, 0
	for i, op := range c.Ops {
		var out bytes.Buffer
		if op.Hdr != nil {
			rec, ok := model.header(*op.Hdr)
			err := s.parse(rec, true, &out)
			if (err == nil) != ok {
				return fmt.Errorf("op %d: sequence header %x (well formed %v): error %v", i, clipBytes(rec, 0), ok, err)
			}
			if out.Len() > 0 {
				return fmt.Errorf("op %d: the sequence header produces %d bytes of output", i, out.Len())
			}
			hdrs++
			if ok {
				o.Class("sequence header accepted")
				o.ClassIf(len(op.Hdr.Sps) > 1 || len(op.Hdr.Pps) > 1, "several parameter sets")
				o.ClassIf(op.Hdr.Ext.Len() > 0, "header with extension")
			} else {
				o.Class("sequence header rejected: " + op.Hdr.Break)
			}
			continue
		}
		var us [][]byte
		for _, u := range op.Units {
			us = append(us, u.bytes())
		}
		if len(us) == 0 {
			us = [][]byte{{0x65, 0x88}}
		}
		us = fitUnits(us, model.n)
		in := avcc(model.n, us...)
		want, wantErr := model.convert(us)
		if op.Annex {
			in, wantErr = annexB(us...), nil
			want = in
		} else if op.Bad {
			in, wantErr = in[:len(in)-1], errBadAU
			if model.n == 4 && bytes.Equal(in, start4) {
				continue
			}
		}
		err := s.parse(in, false, &out)
		if wantErr != nil {
			if err == nil {
				return fmt.Errorf("op %d: a bad access unit is accepted", i)
			}
			o.Class("bad access unit")
			continue
		}
		if err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		if d := diffBytes(want, out.Bytes()); d != "" {
			return fmt.Errorf("op %d: %s", i, d)
		}
		idr, own := false, false
		for _, u := range us {
			switch u[0] & 0x1f {
			case 5:
				idr = true
			case 7, 8:
				own = own || !idr
			}
		}
		if idr && !op.Annex {
			keys++
			o.Class("key frame, own parameter sets %v, header %v", own, model.sets != nil)
		}
	}
	if keys > 0 && hdrs > 0 {
		o.NonTrivial()
	}
	return nil
}

func genP02(t *rapid.T) SeqCase {
	c := SeqCase{Comb: boolean(t)}
	n := pick(t, 2, 4, 8, 14)
	for i := 0; i < n; i++ {
		if chance(t, 35) {
			s := genSeqHdr(t, chance(t, 40))
			c.Ops = append(c.Ops, SeqOp{Hdr: &s})
			continue
		}
		op := SeqOp{Bad: chance(t, 6), Annex: chance(t, 5)}
		for k := pick(t, 1, 1, 2, 3, 5); k > 0; k-- {
			u := genUnit(t, !chance(t, 2), 30)
			if chance(t, 40) {
				u.T = pick(t, 5, 7, 8)
			}
			op.Units = append(op.Units, u)
		}
		c.Ops = append(c.Ops, op)
	}
	size := 0
	for _, op := range c.Ops {
		size += 100
		for _, u := range op.Units {
			size += 10 + u.Pay.Len()
		}
	}
	c.Times = genTimes(t, size)
	return c
}

func sweepP02(thorough bool, yield func(SeqCase)) {
	for _, n := range edgeLens { // sequence headers of these lengths in all, and behind the sequence parameter sets
		for behind := 0; behind < 2; behind++ {
			h := SeqHdr{Len: 4, Sps: []Blob{{Head: Hex{1, 2, 3, 4}}}, Pps: []Blob{{Head: Hex{5}}}}
			rec, _ := h.bytes()
			h.Ext = Blob{N: n - len(rec) + behind*(len(rec)-5), Pat: 1}
			yield(SeqCase{Comb: n%2 == 0, Ops: []SeqOp{{Hdr: &h}, {Units: []Unit{{T: 5, R: 3, Pay: Blob{N: 4}}}}}})
		}
	}
	// long streams
	for k, h := range []SeqHdr{stdSeq, {Len: 2, Sps: []Blob{{Head: Hex{9}}}, Pps: []Blob{{}, {}}}} {
		i := SeqOp{Units: []Unit{{T: 5, R: 3, Pay: Blob{N: 4}}}}
		in := SeqOp{Units: []Unit{{T: 7, R: 3, Pay: Blob{N: 1 + k}}, {T: 8, R: 3, Pay: Blob{N: 2}}, {T: 5, R: 3, Pay: Blob{N: 4}}}}
		h2 := h
		h2.Sps = []Blob{{Head: Hex{1, 2, 3, 4, 5}}}
		for _, n := range []int{257, 65537} {
			yield(SeqCase{Times: n, Ops: []SeqOp{{Hdr: &h}, i}})
			yield(SeqCase{Times: n / 2, Ops: []SeqOp{{Hdr: &h}, i, in, i, {Hdr: &h2}, {Units: []Unit{{T: 1, Pay: Blob{N: 1}}}}, i, in}})
		}
	}
	idr := SeqOp{Units: []Unit{{T: 5, R: 3, Pay: Blob{N: 4}}}}
	own := SeqOp{Units: []Unit{{T: 7, R: 3, Pay: Blob{Head: Hex{0x77}}}, {T: 8, R: 3, Pay: Blob{Head: Hex{0x88}}}, {T: 5, R: 3, Pay: Blob{N: 4}}, {T: 5, R: 3, Pay: Blob{N: 2}}}}
	half := SeqOp{Units: []Unit{{T: 8, R: 3, Pay: Blob{Head: Hex{0x99}}}, {T: 5, R: 3, Pay: Blob{N: 4}}}}
	late := SeqOp{Units: []Unit{{T: 5, R: 3, Pay: Blob{N: 4}}, {T: 7, R: 3, Pay: Blob{Head: Hex{0x78}}}, {T: 5, R: 3, Pay: Blob{N: 4}}}}
	a := SeqHdr{Len: 4, Sps: []Blob{{Head: Hex{1, 2, 3, 4}}}, Pps: []Blob{{Head: Hex{5}}}}
	b := SeqHdr{Len: 2, Sps: []Blob{{Head: Hex{9}}, {Head: Hex{10, 11}}}, Pps: []Blob{{Head: Hex{12}}, {}, {Head: Hex{13}}}, Ext: Blob{Head: Hex{0xfd, 0xf8, 0xf8, 0}}}
	long := SeqHdr{Len: 3, Sps: []Blob{{N: 3000, Pat: 4}}, Pps: []Blob{{N: 65534, Pat: 4}}}
	aus := []SeqOp{idr, own, half, late}
	for _, h1 := range []SeqHdr{a, b, long} {
		for _, h2 := range []SeqHdr{a, b, long} {
			for _, x := range aus {
				for _, y := range aus {
					yield(SeqCase{Ops: []SeqOp{x, {Hdr: &h1}, x, y, {Hdr: &h2}, y, x, idr}})
				}
			}
			// every truncation and every broken form changes nothing
			rec, _ := h2.bytes()
			for at := 0; at < min(len(rec), 60); at++ {
				cut := h2
				cut.Break, cut.At = "cut", at
				yield(SeqCase{Ops: []SeqOp{{Hdr: &h1}, idr, {Hdr: &cut}, idr, own, idr}})
			}
			for _, br := range []string{"nosps", "nopps", "emptysps", "emptypps", "morepps"} {
				x := h2
				x.Break = br
				if br == "morepps" {
					x.Ext = Blob{}
				}
				yield(SeqCase{Ops: []SeqOp{{Hdr: &h1}, idr, {Hdr: &x}, idr, own, idr}})
			}
		}
	}
	for ns := 1; ns <= 31; ns++ {
		for _, np := range []int{1, 2, 31, 32, 33, 128, 255} {
			s := SeqHdr{Len: 4, Sps: make([]Blob, ns), Pps: make([]Blob, np)}
			for i := range s.Sps {
				s.Sps[i] = Blob{N: i % 5, Pat: i}
			}
			for i := range s.Pps {
				s.Pps[i] = Blob{N: i % 3, Pat: i}
			}
			yield(SeqCase{Ops: []SeqOp{{Hdr: &s}, idr, idr}})
		}
	}
}

// ---------------------------------------------------------------- P03

// SurviveOp offers bytes to something.
type SurviveOp struct {
	K    string `json:"k"`
	T    int    `json:"t,omitempty"`
	Data Blob   `json:"d,omitempty"`
	Seed string `json:"s,omitempty"` // well-formed input to start from
	Edit []Edit `json:"e,omitempty"`
}

// SurviveCase is a history.
type SurviveCase struct {
	Ops []SurviveOp `json:"ops"`
}

func (op SurviveOp) bytes() []byte {
	var b []byte
	switch op.Seed {
	case "seq":
		b, _ = SeqHdr{Len: 4, Sps: []Blob{{N: 9}, {N: 3}}, Pps: []Blob{{N: 4}}}.bytes()
	case "au":
		b = avcc(4, []byte{0x67, 1, 2}, []byte{0x68, 1}, []byte{0x65, 1, 2, 3}, []byte{0x41, 5, 6})
	case "au1":
		b = avcc(1, []byte{6, 1, 2}, []byte{0x65, 1, 2, 3})
	case "annexb":
		b = annexB([]byte{0x67, 1, 2}, []byte{0x65, 1})
	case "asc":
		b = []byte{0x12, 0x10}
	case "tagseq":
		r, _ := stdSeq.bytes()
		b = videoBody(1, 7, 0, 0, r)
	case "tagau":
		b = videoBody(1, 7, 1, -40, avcc(4, []byte{0x65, 1, 2, 3}, []byte{0x41, 5, 6}))
	case "tagasc":
		b = audioBody(10, 15, 0, []byte{0x12, 0x10})
	case "tagaac":
		b = audioBody(10, 15, 1, []byte{1, 2, 3, 4})
	case "tagmp3":
		b = audioBody(2, 15, 0, []byte{0xff, 0xfb, 0x90, 0x44, 1})
	}
	return append(applyEdits(b, op.Edit), op.Data.Bytes()...)
}

func checkP03(c SurviveCase, o *Obs) error {
	var datas [][]byte
	total := 0
	for _, op := range c.Ops {
		b := op.bytes()
		datas = append(datas, b)
		total += len(b)
		o.Class(op.K)
	}
	if total > 4 {
		o.NonTrivial()
	}
	run := func(mixer bool) {
		hp, ap, mp, cp := h264.NewParser(), aac.NewParser(), mp3.NewParser(), parser.NewCodecParser()
		d := flv.NewDemuxer()
		m := ts.NewMixer(io.Discard)
		var tag flv.Tag
		accepted := 0
		for i, op := range c.Ops {
			b := datas[i]
			var err error
			switch op.K {
			case "h264":
				err = hp.Parse(b, false, io.Discard)
			case "h264seq":
				err = hp.Parse(b, true, io.Discard)
			case "aac":
				err = ap.Parse(b, uint8(op.T), io.Discard)
				ap.SampleRate()
			case "mp3":
				err = mp.Parse(b)
				mp.SampleRate()
			default: // a tag body
				p := &packet.Packet{Type: op.T % 4, Data: b, TimeStamp: uint32(len(b)) << 20}
				tag.ParseMediaTagHeader(b, op.T%4)
				access(&tag)
				if err = d.Demux(p); err == nil {
					access(p.Header)
					if mixer {
						if op.K == "save" {
							if p.Type == packet.PktVideo {
								err = m.SaveAVCHeader(p)
							} else {
								err = m.SaveAACHeader(p)
							}
						} else if err = m.Update(p, p.TimeStamp, uint32(len(b))); err == nil {
							err = m.Mux(p)
						}
					} else {
						err = cp.Parse(p, io.Discard)
						cp.SampleRate()
					}
				}
			}
			if err == nil {
				accepted++
			}
		}
		o.ClassIf(accepted > 0, "something accepted")
	}
	n := allocated(func() { run(false) })
	if limit := uint64(1<<18 + 4096*len(c.Ops) + 64*total); n > limit {
		return fmt.Errorf("%d bytes of input in %d calls allocate %d bytes", total, len(c.Ops), n)
	}
	run(true)
	return nil
}

func genP03(t *rapid.T) SurviveCase {
	var c SurviveCase
	n := pick(t, 1, 2, 3, 6)
	for i := 0; i < n; i++ {
		op := SurviveOp{K: pick(t, "h264", "h264seq", "aac", "mp3", "tag", "tag", "save"), T: intn(t, 0, 3)}
		if chance(t, 70) {
			switch op.K {
			case "h264":
				op.Seed = pick(t, "au", "au1", "annexb")
			case "h264seq":
				op.Seed = "seq"
			case "aac":
				op.Seed = "asc"
			case "mp3":
				op.Seed = "annexb"
			default:
				op.Seed = pick(t, "tagseq", "tagau", "tagasc", "tagaac", "tagmp3")
				op.T = map[string]int{"tagseq": 0, "tagau": 0}[op.Seed]
				if op.Seed == "tagasc" || op.Seed == "tagaac" || op.Seed == "tagmp3" {
					op.T = 1
				}
				if chance(t, 5) {
					op.T = intn(t, 0, 3)
				}
			}
			for k := intn(t, 0, 3); k > 0; k-- {
				op.Edit = append(op.Edit, Edit{At: spread(t, 0, 40), Del: intn(t, 0, 3), Ins: Hex(genBytes(t, 3))})
			}
			if chance(t, 30) {
				op.Data = genBlob(t, 10)
			}
		} else {
			op.Data = genBlob(t, pick(t, 3, 12, 60, 600))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func sweepP03(thorough bool, yield func(SurviveCase)) {
	kinds := []string{"h264", "h264seq", "aac", "mp3", "tag", "save"}
	seeds := []string{"seq", "au", "au1", "annexb", "asc", "tagseq", "tagau", "tagasc", "tagaac", "tagmp3", ""}
	for _, k := range kinds {
		for typ := 0; typ < 4; typ++ {
			for b := 0; b < 256; b++ { // all short strings of a kind
				yield(SurviveCase{Ops: []SurviveOp{{K: k, T: typ, Data: Blob{Head: Hex{byte(b)}}}, {K: k, T: typ, Data: Blob{Head: Hex{byte(b), byte(b)}}}, {K: k, T: typ, Data: Blob{Head: Hex{byte(b), 0, 0, 0, 0}}}, {K: k, T: typ, Data: Blob{Head: Hex{0x17, byte(b), 0xff, 0xff, 0xff, byte(b)}}}, {K: k, T: typ, Data: Blob{Head: Hex{0xaf, byte(b), 0x12}}}}})
			}
			for _, s := range seeds {
				n := len(SurviveOp{Seed: s}.bytes())
				for at := 0; at < n; at++ {
					for _, v := range []byte{0, 1, 4, 0x7f, 0x80, 0xe1, 0xff} {
						yield(SurviveCase{Ops: []SurviveOp{{K: k, T: typ, Seed: s, Edit: []Edit{{At: at, Del: 1, Ins: Hex{v}}}}, {K: k, T: typ, Seed: s}}})
					}
				}
			}
			for _, n := range []int{1 << 16, 1 << 20} {
				for pat := 0; pat < 5; pat++ {
					yield(SurviveCase{Ops: []SurviveOp{{K: k, T: typ, Data: Blob{N: n, Pat: pat}}, {K: k, T: typ, Data: Blob{Head: Hex{1, 2, 3, 4, 0xff, 0xff}, N: n, Pat: pat}}}})
					yield(SurviveCase{Ops: []SurviveOp{{K: k, T: typ, Data: Blob{Head: Hex{0x17, 0, 0, 0, 0, 1, 2, 3, 4, 0xff, 0xff}, N: n, Pat: pat}}, {K: k, T: typ, Data: Blob{Head: Hex{0x17, 1, 0, 0, 0}, N: n, Pat: pat}}}})
				}
			}
		}
	}
}

// ---------------------------------------------------------------- P04

// AacOp is a header or frame for the AAC parser.
type AacOp struct {
	K   string `json:"k"` // hdr badhdr frame badtype
	Asc *Asc   `json:"a,omitempty"`
	Pay Blob   `json:"p,omitempty"`
	N   int    `json:"n,omitempty"`
}

// AacCase is a history.
type AacCase struct {
	Times int     `json:"times,omitempty"` // the whole history this many times
	Comb  bool    `json:"comb,omitempty"`
	Ops   []AacOp `json:"ops"`
}

type aacSink struct {
	a *aac.Parser
	c *parser.CodecParser
}

func (s aacSink) parse(b []byte, typ uint8, w io.Writer) error {
	return lent(b, func(b []byte) error { return s.parse1(b, typ, w) })
}

func (s aacSink) parse1(b []byte, typ uint8, w io.Writer) error {
	keep := append([]byte(nil), b...)
	var err error
	if s.a != nil {
		err = s.a.Parse(b, typ, w)
	} else {
		if b == nil {
			b = []byte{}
		}
		err = s.c.Parse(&packet.Packet{Type: packet.PktAudio, Header: &ahdr{format: 10, aac: typ}, Media: b}, w)
	}
	if d := diffBytes(keep, b); d != "" {
		return fmt.Errorf("the input was changed: %s", d)
	}
	return err
}

func (s aacSink) rate() (int, error) {
	if s.a != nil {
		return s.a.SampleRate(), nil
	}
	return s.c.SampleRate()
}

func badAsc(n int) []byte {
	switch n % 4 {
	case 0:
		return []byte{0x12}
	case 1:
		return nil
	case 2: // escaped sampling frequency
		return []byte{0x17, 0x80, 0x5d, 0xc0, 0x10}
	}
	return []byte{0x0f, 0x90}
}

func checkP04(c AacCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	s := aacSink{a: aac.NewParser()}
	if c.Comb {
		s = aacSink{c: parser.NewCodecParser()}
	}
	var cur *Asc
	var all bytes.Buffer
	type frame struct {
		asc Asc
		pay []byte
	}
	var want []frame
	for i, op := range c.Ops {
		before := all.Len()
		switch op.K {
		case "hdr":
			a := stdAsc
			if op.Asc != nil {
				a = *op.Asc
			}
			if err := s.parse(a.bytes(), 0, &all); err != nil {
				return fmt.Errorf("op %d: configuration %x: %v", i, a.bytes(), err)
			}
			cur = &a
		case "badhdr":
			if err := s.parse(badAsc(op.N), 0, &all); err == nil {
				return fmt.Errorf("op %d: configuration %x is accepted", i, badAsc(op.N))
			}
			o.Class("rejected configuration")
		case "badtype":
			if err := s.parse(append([]byte{1}, op.Pay.Bytes()...), uint8(2+op.N%254), &all); err == nil {
				return fmt.Errorf("op %d: packet type %d is accepted", i, 2+op.N%254)
			}
		case "frame":
			pay := op.Pay.Bytes()
			err := s.parse(pay, 1, &all)
			ok := cur != nil && len(pay) > 0 && len(pay) <= 8184
			if (err == nil) != ok {
				return fmt.Errorf("op %d: frame of %d bytes, configured %v: error %v", i, len(pay), cur != nil, err)
			}
			o.ClassIf(!ok, "refused frame")
			if ok {
				if err := checkADTS(all.Bytes()[before:], *cur, pay); err != nil {
					return fmt.Errorf("op %d (%+v): %v", i, *cur, err)
				}
				want = append(want, frame{*cur, pay})
				o.Class("object type %d", cur.Obj)
				o.ClassIf(len(pay) > 2000, "long frame")
				continue
			}
		}
		if all.Len() != before {
			return fmt.Errorf("op %d (%s): %d bytes were written", i, op.K, all.Len()-before)
		}
		if cur != nil {
			if r, err := s.rate(); err != nil || r != cur.rate() {
				return fmt.Errorf("op %d: sample rate is %d (%v), want %d", i, r, err, cur.rate())
			}
		}
	}
	// split the stream by its frame lengths
	b := all.Bytes()
	for i, f := range want {
		if len(b) < 7 {
			return fmt.Errorf("stream ends before frame %d", i)
		}
		n := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5]>>5)
		if n < 7 || n > len(b) {
			return fmt.Errorf("frame %d claims %d of %d bytes", i, n, len(b))
		}
		if err := checkADTS(b[:n], f.asc, f.pay); err != nil {
			return fmt.Errorf("frame %d of the stream: %v", i, err)
		}
		b = b[n:]
	}
	if len(b) > 0 {
		return fmt.Errorf("%d bytes behind the last frame", len(b))
	}
	if len(want) > 0 {
		o.NonTrivial()
	}
	return nil
}

func genP04(t *rapid.T) AacCase {
	c := AacCase{Comb: boolean(t)}
	n := pick(t, 1, 3, 6, 12)
	for i := 0; i < n; i++ {
		op := AacOp{K: pick(t, "frame", "frame", "frame", "hdr", "hdr", "badhdr", "badtype"), N: intn(t, 0, 300)}
		if i == 0 && !chance(t, 10) {
			op.K = "hdr"
		}
		switch op.K {
		case "hdr":
			a := genAsc(t)
			op.Asc = &a
		case "frame":
			op.Pay = genBlob(t, 200)
			if chance(t, 10) {
				op.Pay = blobOfLen(t, pick(t, 0, 1, 248, 249, 255, 256, 2040, 2041, 2047, 4088, 4089, 8183, 8184, 8185, 8191, 8192, 16376))
			}
		}
		c.Ops = append(c.Ops, op)
	}
	size := 0
	for _, op := range c.Ops {
		size += 50 + op.Pay.Len()
	}
	c.Times = genTimes(t, size)
	return c
}

func sweepP04(thorough bool, yield func(AacCase)) {
	// long streams
	for _, n := range []int{257, 66000} {
		a := Asc{Obj: 1, Idx: 7, Chan: 1}
		yield(AacCase{Times: n, Ops: []AacOp{{K: "hdr"}, {K: "frame", Pay: Blob{N: 1}}}})
		yield(AacCase{Times: n, Ops: []AacOp{{K: "frame", Pay: Blob{N: 2}}, {K: "hdr", Asc: &a}, {K: "frame", Pay: Blob{N: 3}}, {K: "badhdr"}, {K: "hdr"}}})
	}
	for obj := 1; obj <= 4; obj++ {
		for idx := 0; idx <= 12; idx++ {
			for ch := 0; ch <= 7; ch++ {
				a := Asc{Obj: obj, Idx: idx, Chan: ch, Low: (obj + idx) % 8}
				switch ch { // as encoders signal SBR and PS
				case 1:
					a.Low, a.Ext = 0, Hex{0x56, 0xe5, 0x80 | byte(12-idx)<<3}
				case 2:
					a.Low, a.Ext = 0, Hex{0x56, 0xe5, 0}
				case 3:
					a.Low, a.Ext = 0, Hex{0x56, 0xe5, 0x80 | byte(12-idx)<<3, 0x05, 0x48, 0x80}
				}
				b := Asc{Obj: 5 - obj, Idx: 12 - idx, Chan: 7 - ch}
				yield(AacCase{Comb: ch%2 == 0, Ops: []AacOp{{K: "frame", Pay: Blob{N: 3}}, {K: "hdr", Asc: &a}, {K: "frame", Pay: Blob{N: 40}}, {K: "badhdr", N: idx}, {K: "frame", Pay: Blob{N: 300}}, {K: "hdr", Asc: &b}, {K: "frame", Pay: Blob{N: 8}}, {K: "badtype", N: ch}, {K: "frame", Pay: Blob{N: 8}}}})
			}
		}
	}
	for _, n := range []int{126, 127, 198, 254, 255, 256, 32766, 32767, 40000, 65534, 65535} { // configurations with a long tail
		a := Asc{Obj: 2, Idx: 4, Chan: 2, Ext: make(Hex, n)}
		yield(AacCase{Comb: n%2 == 0, Ops: []AacOp{{K: "hdr"}, {K: "frame", Pay: Blob{N: 3}}, {K: "hdr", Asc: &a}, {K: "frame", Pay: Blob{N: 4}}}})
	}
	step := 37
	if thorough {
		step = 1
	}
	for n := 0; n < 8192; n += step {
		yield(AacCase{Ops: []AacOp{{K: "hdr"}, {K: "frame", Pay: Blob{N: n, Pat: n % 5}}, {K: "frame", Pay: Blob{N: 1 + n%9}}}})
	}
	for _, n := range []int{8183, 8184, 8185, 8186, 8191, 8192, 8193, 16384, 16385, 65536, 65537, 65535 + 8} {
		yield(AacCase{Ops: []AacOp{{K: "hdr"}, {K: "frame", Pay: Blob{N: n}}, {K: "frame", Pay: Blob{N: 5}}}})
	}
}

// ---------------------------------------------------------------- P05

// Mp3Case is a sequence of frame headers.
type Mp3Case struct {
	Times  int   `json:"times,omitempty"` // the whole history this many times
	Comb   bool  `json:"comb,omitempty"`
	Frames []Hex `json:"f"`
}

var mp3Rates = [4]int{44100, 48000, 32000, 0}

func checkP05(c Mp3Case, o *Obs) error {
	c.Frames = times(c.Frames, c.Times)
	mp := mp3.NewParser()
	cp := parser.NewCodecParser()
	parse := mp.Parse
	rate := func() (int, error) { return mp.SampleRate(), nil }
	if c.Comb {
		parse = func(b []byte) error {
			if b == nil {
				b = []byte{}
			}
			return cp.Parse(&packet.Packet{Type: packet.PktAudio, Header: &ahdr{format: 2}, Media: b}, io.Discard)
		}
		rate = cp.SampleRate
	}
	last, have := 0, false
	if !c.Comb {
		last, have = mp.SampleRate(), true
	}
	for i, f := range c.Frames {
		err := lent(f, parse)
		got, rerr := rate()
		ok, want := false, last
		if len(f) >= 3 {
			o.NonTrivial()
			want = mp3Rates[f[2]>>2&3]
			ok = want != 0
			if !ok {
				want = last
			}
		}
		o.ClassIf(len(f) < 3, "short header")
		o.ClassIf(len(f) >= 3, fmt.Sprintf("rate %d", want))
		if (err == nil) == ok && (!have && !ok || rerr == nil && got == want) {
			if ok || rerr == nil {
				last, have = got, have || ok
			}
			continue
		}
		// the recorded deviation: the field is read one bit too low
		if len(f) >= 3 {
			dev := mp3Rates[f[2]>>1&3]
			dok := dev != 0
			if !dok {
				dev = last
			}
			if (err == nil) == dok && (!have && !dok || rerr == nil && got == dev) {
				if e := o.Known("P05-rate-shift", "the sampling frequency index is read from bits 2-1 of the third header byte instead of bits 3-2"); e != nil {
					return fmt.Errorf("frame %d (%x): sample rate %d, error %v, want %d; %v", i, []byte(f), got, err, want, e)
				}
				if dok {
					last, have = got, true
				}
				continue
			}
		}
		return fmt.Errorf("frame %d (%x): sample rate is %d (%v), error %v, want %d, accepted %v", i, []byte(f), got, rerr, err, want, ok)
	}
	return nil
}

func genP05(t *rapid.T) Mp3Case {
	c := Mp3Case{Comb: boolean(t)}
	for n := intn(t, 1, 6); n > 0; n-- {
		f := Hex{0xff, pick(t, byte(0xfb), 0xfa, 0xfd, 0xfc, 0xff, 0xfe), genByte(t), genByte(t)}
		f = append(f, genBytes(t, 6)...)
		if chance(t, 10) {
			f = f[:intn(t, 0, 2)]
		}
		c.Frames = append(c.Frames, f)
	}
	c.Times = genTimes(t, 100)
	return c
}

func sweepP05(thorough bool, yield func(Mp3Case)) {
	for _, n := range edgeLens {
		yield(Mp3Case{Comb: n%2 == 0, Frames: []Hex{{0xff, 0xfb, 0x94, 0x44}, append(Hex{0xff, 0xfb, 0x98, 0x44}, make(Hex, n-4)...)}})
	}
	for _, comb := range []bool{false, true} {
		yield(Mp3Case{Comb: comb, Times: 66000, Frames: []Hex{{0xff, 0xfb, 0x90, 0x44}, {0xff, 0xfb, 0x94, 0x44}, {0xff, 0xfb, 0x98, 0x44}, {0xff, 0xfb, 0x9c, 0x44}}})
	}
	for b := 0; b < 256; b++ {
		for _, comb := range []bool{false, true} {
			yield(Mp3Case{Comb: comb, Frames: []Hex{{0xff, 0xfb, byte(b), 0x44}}})
			yield(Mp3Case{Comb: comb, Frames: []Hex{{0xff, 0xfb, 0x90, 0x44, 1, 2}, {0xff, 0xfa, byte(b), 0x44}, {0xff}, {}, {0xff, 0xfb, 0x9a, 0}}})
			yield(Mp3Case{Comb: comb, Frames: []Hex{{0xff, 0xfb, 0x96, 0x44, 1, 2}, {0xff, 0xfd, byte(b), 0xff}, {0xff, 0xfb}, {0xff, 0xfb, 0x9e, 0}}})
		}
	}
}

// ---------------------------------------------------------------- P06

// CodecOp is a packet for the combined parser.
type CodecOp struct {
	T     int  `json:"t"` // packet type
	Codec int  `json:"c"` // video codec or sound format
	Kind  int  `json:"k"` // AVC or AAC packet type
	Frame int  `json:"f,omitempty"`
	No    int  `json:"no,omitempty"` // 1: no header, 2: no media, 3: neither
	Data  Blob `json:"d"`
	Seed  int  `json:"s,omitempty"`
	Body  bool `json:"b,omitempty"` // the packet also has the tag body
}

// CodecCase is a history.
type CodecCase struct {
	Ops   []CodecOp `json:"ops"`
	Times int       `json:"times,omitempty"` // the whole history this many times
}

func (op CodecOp) media() []byte {
	switch op.Seed {
	case 1:
		b, _ := SeqHdr{Len: 1 + op.Data.Len()%4, Sps: []Blob{op.Data}, Pps: []Blob{{N: 2}}}.bytes()
		return b
	case 2:
		return avcc(4, append([]byte{0x65}, op.Data.Bytes()...))
	case 3:
		return Asc{Obj: 2, Idx: op.Data.Len() % 13, Chan: 1 + op.Data.N%7}.bytes()
	case 4:
		return append([]byte{0xff, 0xfb, 0x90 | byte(op.Data.Len()%8)<<1}, op.Data.Bytes()...)
	case 5:
		return avcc(1+op.Data.Len()%4, append([]byte{0x41}, op.Data.Head...))
	}
	return op.Data.Bytes()
}

func checkP06(c CodecCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	cp := parser.NewCodecParser()
	hp, ap, mp := h264.NewParser(), aac.NewParser(), mp3.NewParser()
	var aacSeen, aacOK, mp3Seen, mp3OK bool
	used := map[string]bool{}
	for i, op := range c.Ops {
		p := &packet.Packet{Type: op.T, Media: op.media()}
		if op.Body { // as the demultiplexer leaves it
			d := append([]byte{byte(op.Frame<<4 | op.Codec&15), byte(op.Kind), 0, 0, 0}, p.Media...)
			if op.T == packet.PktAudio {
				d = append([]byte{byte(op.Codec<<4 | 15), byte(op.Kind)}, p.Media...)
			}
			d = take(d)
			p.Data, p.Media = d, d[len(d)-len(p.Media):]
		}
		vh := &vhdr{frame: uint8(op.Frame), avc: uint8(op.Kind), codec: uint8(op.Codec)}
		ah := &ahdr{format: uint8(op.Codec), aac: uint8(op.Kind)}
		p.Header = vh
		if op.T == packet.PktAudio {
			p.Header = ah
		}
		full := p.Data
		if full == nil && p.Media != nil {
			p.Media = take(p.Media)
			full = p.Media
		}
		if op.No&1 != 0 {
			p.Header = nil
		}
		if op.No&2 != 0 {
			p.Media = nil
		}
		if op.No&4 != 0 { // the header of the other kind, or of none
			p.Header = map[bool]packet.Header{true: vh, false: ah}[op.T == packet.PktAudio]
		}
		if op.No&8 != 0 {
			p.Header = "header"
		}
		s := snap(p)
		var got, want bytes.Buffer
		err := cp.Parse(p, &got)
		if e := s.same(p, false); e != nil {
			return fmt.Errorf("op %d: %v", i, e)
		}
		var wantErr error = errBadAU
		what := "rejected"
		switch {
		case op.No&3 != 0:
			what = "no header or media"
		case op.No&12 != 0:
			what = "header of another kind"
		case op.T == packet.PktVideo && op.Codec == 7:
			wantErr = hp.Parse(p.Media, vh.IsSeqHdr(), &want)
			what = "AVC"
		case op.T == packet.PktAudio && op.Codec == 10:
			wantErr = ap.Parse(p.Media, uint8(op.Kind), &want)
			what = "AAC"
			aacSeen = true
			aacOK = aacOK || wantErr == nil
		case op.T == packet.PktAudio && op.Codec == 2:
			wantErr = mp.Parse(p.Media)
			what = "MP3"
			mp3Seen = true
			mp3OK = mp3OK || wantErr == nil
		}
		back(full) // the caller reads its next packet into the same buffer
		used[what] = true
		o.Class(what)
		if (err == nil) != (wantErr == nil) {
			return fmt.Errorf("op %d (%s): error %v, the dedicated parser gives %v", i, what, err, wantErr)
		}
		if err == nil {
			if d := diffBytes(want.Bytes(), got.Bytes()); d != "" {
				return fmt.Errorf("op %d (%s): %s", i, what, d)
			}
		}
		r, rerr := cp.SampleRate()
		switch {
		case !aacSeen && !mp3Seen:
			if rerr == nil {
				return fmt.Errorf("op %d: a sample rate (%d) without audio", i, r)
			}
		case aacOK:
			if rerr != nil || r != ap.SampleRate() {
				return fmt.Errorf("op %d: sample rate is %d (%v), that of AAC is %d", i, r, rerr, ap.SampleRate())
			}
			o.ClassIf(mp3OK, "sample rate with both codecs")
		case !aacSeen && mp3OK:
			if rerr != nil || r != mp.SampleRate() {
				return fmt.Errorf("op %d: sample rate is %d (%v), that of MP3 is %d", i, r, rerr, mp.SampleRate())
			}
		}
	}
	if len(used) > 1 {
		o.NonTrivial()
	}
	return nil
}

func genP06(t *rapid.T) CodecCase {
	var c CodecCase
	for n := pick(t, 2, 5, 10, 16); n > 0; n-- {
		op := CodecOp{T: pick(t, 0, 1, 0, 1, 0, 1, 2, 3, -1), Frame: pick(t, 1, 2, 1, 2, 3, 5), Kind: pick(t, 0, 1, 1, 1, 2), Data: genBlob(t, 30)}
		switch op.T {
		case 0:
			op.Codec = pick(t, 7, 7, 7, 7, 2, 0, 12)
			op.Seed = pick(t, 0, 1, 2, 5, 2)
			if op.Seed == 1 {
				op.Kind, op.Frame = 0, 1
			} else if op.Seed > 1 {
				op.Kind = 1
			}
		case 1:
			op.Codec = pick(t, 10, 10, 2, 2, 10, 2, 0, 11, 14)
			op.Seed = pick(t, 0, 3, 4)
			if op.Codec == 10 && op.Seed == 3 {
				op.Kind = 0
			}
		default:
			op.Codec = pick(t, 7, 10, 2)
		}
		if chance(t, 5) {
			op.No = pick(t, 1, 2, 3, 4, 8, 4)
		}
		op.Body = boolean(t)
		c.Ops = append(c.Ops, op)
	}
	size := 0
	for _, op := range c.Ops {
		size += 50 + op.Data.Len()
	}
	c.Times = genTimes(t, size)
	return c
}

func sweepP06(thorough bool, yield func(CodecCase)) {
	// long streams of all codecs
	for _, n := range []int{257, 66000} {
		yield(CodecCase{Times: n, Ops: []CodecOp{{T: 0, Codec: 7, Frame: 1, Kind: 0, Seed: 1, Data: Blob{N: 3}}, {T: 0, Codec: 7, Frame: 1, Kind: 1, Seed: 2, Data: Blob{N: 3}}, {T: 1, Codec: 10, Kind: 0, Seed: 3, Data: Blob{N: 2}}, {T: 1, Codec: 10, Kind: 1, Data: Blob{N: 3}}, {T: 1, Codec: 2, Seed: 4, Data: Blob{N: 4}}, {T: 0, Codec: 2, Frame: 1, Seed: 4}}})
	}
	for typ := -1; typ < 4; typ++ {
		for codec := 0; codec < 16; codec++ {
			for kind := 0; kind < 4; kind++ {
				for _, no := range []int{0, 1, 2, 3, 4, 8} {
					yield(CodecCase{Ops: []CodecOp{{T: typ, Codec: codec, Kind: kind, Frame: 1, No: no, Seed: 4, Data: Blob{N: 3}, Body: kind == 1}, {T: 1, Codec: 10, Kind: 0, Seed: 3, Data: Blob{N: codec}}, {T: typ, Codec: codec, Kind: kind, Frame: 1, No: no, Seed: 3, Data: Blob{N: 8}}, {T: 1, Codec: 2, Seed: 4, Data: Blob{N: 4}}, {T: 0, Codec: 7, Frame: 1, Kind: 0, Seed: 1, Data: Blob{N: 3}}, {T: 0, Codec: 7, Frame: 1, Kind: 1, Seed: 2, Data: Blob{N: 3}}, {T: 1, Codec: 10, Kind: 1, Data: Blob{N: 3}}}})
				}
			}
		}
	}
}

func init() {
	register(Spec[AUCase]{ID: "P01", Quick: 200000, Thorough: 1500000, Gen: genP01, Check: checkP01, Sweep: sweepP01,
		Technique: techRapid + "an independent AVCC to Annex-B conversion",
		Rule:      "access units of 1-6 units of every type, all length sizes, payloads with start code patterns and lengths around all field limits, bad lengths, Annex-B input; each converted twice, by the H.264 and the combined parser; sweep: all 32 types in four places; non-trivial: at least two units",
		Note:      "AVCC access units whose first unit has a single byte with four byte lengths look like Annex-B and are not drawn. Parameter sets without a following IDR slice are dropped by the conversion, delimiters in the data are replaced."})
	register(Spec[SeqCase]{ID: "P02", Quick: 125000, Thorough: 800000, Gen: genP02, Check: checkP02, Sweep: sweepP02,
		Technique: techRapid + "a model of the parameter sets in force over a history (stateful generation)",
		Rule:      "histories of up to 14 sequence headers (1-31 SPS, 1-255 PPS, extensions, or broken in six ways) and access units with and without own parameter sets; sweep: pairs of headers, every truncation, every SPS count; non-trivial: a header and a key frame",
		Note:      "Outputs are compared byte for byte with the model."})
	register(Spec[SurviveCase]{ID: "P03", Quick: 80000, Thorough: 1000000, Gen: genP03, Check: checkP03, Sweep: sweepP03,
		Technique: techRapid + "a crash, CPU and allocation monitor (structure-aware mutation)",
		Rule:      "1-6 arbitrary or edited inputs in any order to the demultiplexer, the dedicated and the combined parsers and the TS mixer; sweep: all first bytes, single byte edits of ten seeds, inputs of 1 MB; non-trivial: more than 4 bytes",
		Note:      "Allocation bound: 256 KB plus 4 KB per call plus 64 bytes per input byte; a case may use 60 s of CPU time."})
	register(Spec[AacCase]{ID: "P04", Quick: 320000, Thorough: 1500000, Gen: genP04, Check: checkP04, Sweep: sweepP04,
		Technique: techRapid + "a strict ADTS reader; all 416 configurations enumerated",
		Rule:      "histories of up to 12 configurations (accepted and rejected), frames and unknown packet types; sweep: every object type, sampling index and channel configuration, frame lengths to 8191 (thorough: each); non-trivial: at least one frame",
		Note:      "Object types above 4 and the reserved sampling indexes 13 and 14 cannot be expressed or are not defined and are not drawn."})
	register(Spec[Mp3Case]{ID: "P05", Quick: 240000, Thorough: 500000, Gen: genP05, Check: checkP05, Sweep: sweepP05,
		Technique: techRapid + "the frequency table of the standard; all values of the header byte enumerated",
		Rule:      "sequences of MPEG-1 frame headers with the dedicated and the combined parser; sweep: all 256 values of the third byte in three contexts; non-trivial: at least three bytes",
		Note:      "Recorded finding: the index is read one bit too low (fixed by the existing tests); exactly that reading is tolerated."})
	register(Spec[CodecCase]{ID: "P06", Quick: 180000, Thorough: 1000000, Gen: genP06, Check: checkP06, Sweep: sweepP06,
		Technique: techRapid + "the dedicated parsers (differential over histories)",
		Rule:      "histories of up to 16 packets of all types, codecs and packet types, with and without header and media; sweep: all packet types and codec numbers; non-trivial: at least two kinds of packets",
		Note:      "The sample rate is judged once a packet of the codec has been accepted."})
}
