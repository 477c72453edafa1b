package main

import (
	"bytes"
	"fmt"

	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T09

// TblOp is one use of a table builder.
type TblOp struct {
	K    string `json:"k"` // service network country pes pcr stuff fresh
	Prov Str    `json:"p,omitempty"`
	Serv Str    `json:"s,omitempty"`
	N    int    `json:"n,omitempty"` // service type, availability, media type, fill length
	Len  int    `json:"len,omitempty"`
	PTS  int64  `json:"pts,omitempty"`
	DTS  int64  `json:"dts,omitempty"`
	Code uint32 `json:"code,omitempty"`
}

// TblCase is a history on one descriptor buffer and one PES header.
type TblCase struct {
	Times int     `json:"times,omitempty"` // the whole history this many times
	Ops   []TblOp `json:"ops"`
}

// tsField is a 33 bit time stamp with its prefix and marker bits.
func tsField(prefix byte, v int64) []byte {
	u := uint64(v) & (1<<33 - 1)
	return []byte{prefix<<4 | byte(u>>30)<<1 | 1, byte(u >> 22), byte(u>>15)<<1 | 1, byte(u >> 7), byte(u)<<1 | 1}
}

func checkT09(c TblCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	d := table.NewDescriptor()
	pes := table.NewPes()
	tsHeader := append([]byte(nil), pes.TsHeader...)
	var want []byte
	for i, op := range c.Ops {
		o.Class("%s", op.K)
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("op %d (%s): %s", i, op.K, fmt.Sprintf(f, a...))
		}
		switch op.K {
		case "service", "network":
			var err error
			var add []byte
			fits := false
			if op.K == "service" {
				err = d.Service(byte(op.N), string(op.Prov), string(op.Serv))
				if fits = len(op.Prov)+len(op.Serv)+3 <= 255; fits {
					add = serviceDesc(byte(op.N), string(op.Prov), string(op.Serv))
				}
			} else {
				err = d.NetworkName(string(op.Prov))
				if fits = len(op.Prov) <= 255; fits {
					add = append([]byte{0x40, byte(len(op.Prov))}, op.Prov...)
				}
			}
			if (err == nil) != fits {
				return fail("names of %d and %d bytes: error %v", len(op.Prov), len(op.Serv), err)
			}
			o.ClassIf(!fits, "too long")
			want = append(want, add...)
		case "country":
			before := d.GetBuffer().Len()
			if err := d.CountryAvailability(op.N&1 == 1, op.Code); err != nil {
				return fail("%v", err)
			}
			got := append([]byte(nil), d.GetBuffer().Bytes()[before:]...)
			flag := byte(op.N&1) << 7
			good := func(b []byte) bool { // one country, the reserved bits may have any value
				return len(b) == 6 && b[0] == 0x49 && b[1] == 4 && b[2]&0x80 == flag && uint32(b[3])<<16|uint32(b[4])<<8|uint32(b[5]) == op.Code&0xffffff
			}
			if !good(got) {
				k := op.Code & 0xfff
				if !bytes.Equal(got, []byte{0x49, 4, flag, 0, 0, byte(k >> 8), byte(k)}) {
					return fail("country availability %v of %#x is written as % x", op.N&1 == 1, op.Code, got)
				}
				if err := o.Known("T09-country", "a country availability descriptor has one byte more than its length says, and 12 bits of the country code"); err != nil {
					return err
				}
			}
			want = append(want, got...)
		case "pes":
			mt := []int{packet.PktVideo, packet.PktAudio}[op.N&1]
			n := pes.GeneratePesHeader(mt, op.Len, op.PTS, op.DTS)
			h := []byte{0, 0, 1, []byte{0xe0, 0xc0}[op.N&1], 0, 0, 0x80}
			if mt == packet.PktVideo && op.PTS != op.DTS {
				o.Class("with decode time")
				h = append(append(append(h, 0xc0, 10), tsField(3, op.PTS)...), tsField(1, op.DTS)...)
			} else {
				h = append(append(h, 0x80, 5), tsField(2, op.PTS)...)
			}
			if l := len(h) - 6 + op.Len; l <= 65535 {
				h[4], h[5] = byte(l>>8), byte(l)
			}
			if n != len(h) || n > len(pes.PesHeader) {
				return fail("header of %d bytes (buffer %d), want %d", n, len(pes.PesHeader), len(h))
			}
			if x := diffBytes(h, pes.PesHeader[:n]); x != "" {
				return fail("header: %s", x)
			}
			if !bytes.Equal(pes.TsHeader, tsHeader) {
				return fail("transport header % x", pes.TsHeader)
			}
		case "nopes":
			if n := pes.GeneratePesHeader(packet.PktMetadata+op.N%5, op.Len, op.PTS, op.DTS); n != 0 {
				return fail("a header of %d bytes for type %d", n, packet.PktMetadata+op.N%5)
			}
		case "pcr":
			b := bytes.Repeat([]byte{byte(op.N)}, 8)
			pes.WritePcr(b, op.DTS)
			u := uint64(op.DTS) & (1<<33 - 1)
			if x := diffBytes([]byte{byte(u >> 25), byte(u >> 17), byte(u >> 9), byte(u >> 1), byte(u)<<7 | 0x7e, 0, byte(op.N), byte(op.N)}, b); x != "" {
				return fail("clock reference %#x: %s", u, x)
			}
		case "stuff":
			n := 1 + op.N%184
			b := bytes.Repeat([]byte{0x55}, 188)
			pes.WriteStuff(b[2:], byte(n))
			w := bytes.Repeat([]byte{0xff}, n)
			w[0] = byte(n - 1)
			if n > 1 {
				w[1] = 0
			}
			if x := diffBytes(append(append([]byte{0x55, 0x55}, w...), bytes.Repeat([]byte{0x55}, 186-n)...), b); x != "" {
				return fail("%d bytes: %s", n, x)
			}
		case "fresh":
			// other builders do not share anything with these
			d2, p2 := table.NewDescriptor(), table.NewPes()
			d2.Service(9, "other", "other")
			p2.GeneratePesHeader([]int{packet.PktVideo, packet.PktAudio}[op.N&1], op.Len, op.DTS, op.PTS)
			if op.N&2 != 0 {
				for _, b := range [][]byte{p2.PesHeader, p2.TsHeader, table.NewSdt().SdtHeader, table.NewPat().TsHeader, table.NewPat().PatHeader, table.NewPmt().PmtHeader, table.NewPmt().TsHeader, table.NewSdt().TsHeader, table.NewProgram().Avc, table.NewProgram().Aac} {
					for j := range b {
						b[j] ^= 0xff
					}
				}
				if op.N&4 != 0 { // a PES header of its own
					pes, d, want = table.NewPes(), table.NewDescriptor(), nil
				}
			}
		}
		if x := diffBytes(want, d.GetBuffer().Bytes()); x != "" {
			return fail("descriptors: %s", x)
		}
	}
	if len(c.Ops) > 1 {
		o.NonTrivial()
	}
	return nil
}

func genStamp64(t *rapid.T) int64 {
	switch pick(t, 0, 1, 2, 3) {
	case 0:
		return int64(intn(t, 0, 1000)) * 90
	case 1:
		return int64(1)<<uint(intn(t, 0, 62)) + int64(intn(t, -2, 2))
	case 2:
		return -int64(1)<<uint(intn(t, 0, 62)) + int64(intn(t, -2, 2))
	}
	return int64(rapid.Uint64().Draw(t, "stamp"))
}

func genT09(t *rapid.T) TblCase {
	var c TblCase
	for n := intn(t, 1, 8); n > 0; n-- {
		op := TblOp{K: pick(t, "service", "network", "country", "pes", "pes", "pes", "nopes", "pcr", "stuff", "fresh"), N: intn(t, 0, 255)}
		switch op.K {
		case "service", "network":
			op.Prov, op.Serv = Str(genNameOf(t)), Str(genNameOf(t))
		case "country":
			op.Code = rapid.Uint32().Draw(t, "code")
		case "pes", "nopes", "pcr", "fresh":
			op.PTS, op.DTS = genStamp64(t), genStamp64(t)
			if boolean(t) {
				op.DTS = op.PTS
			}
			op.Len = pick(t, 0, spread(t, 0, 70000), 65535-3-5+intn(t, -2, 2), 65535-3-10+intn(t, -2, 2), 1<<24)
		}
		c.Ops = append(c.Ops, op)
	}
	c.Times = genTimes(t, 2000)
	return c
}

func sweepT09(thorough bool, yield func(TblCase)) {
	for _, n := range []int{130, 260, 9000} {
		yield(TblCase{Times: n, Ops: []TblOp{{K: "pes", PTS: 1 << 32, DTS: 5, Len: 10}, {K: "pcr", PTS: 1 << 31}, {K: "stuff", N: 7}, {K: "country"}, {K: "service"}, {K: "network"}}})
	}
	for n := 0; n < 184; n++ {
		yield(TblCase{Ops: []TblOp{{K: "stuff", N: n}, {K: "stuff", N: 183 - n}}})
	}
	for b := uint(0); b < 64; b++ {
		v := int64(uint64(1) << b)
		yield(TblCase{Ops: []TblOp{{K: "pcr", DTS: v, N: 0xaa}, {K: "pes", PTS: v, DTS: v}, {K: "pes", PTS: v}, {K: "pes", DTS: v}, {K: "pes", N: 1, PTS: v}, {K: "pcr", DTS: -v}}})
	}
	for l := 65500; l < 65560; l++ {
		yield(TblCase{Ops: []TblOp{{K: "pes", Len: l}, {K: "pes", Len: l, PTS: 1}, {K: "pes", N: 1, Len: l}, {K: "pes", N: 1, Len: 5}}})
	}
	for _, n := range edgeLens {
		a := Str(Blob{N: n, Pat: 3}.Bytes())
		yield(TblCase{Ops: []TblOp{{K: "service", Prov: a, Serv: "x"}, {K: "service", Prov: "p", Serv: a}, {K: "network", Prov: a}, {K: "service", Prov: a, Serv: a}, {K: "network", Prov: "n"}}})
	}
	for l := 0; l < 260; l++ {
		a, b := Str(Blob{N: l, Pat: 3}.Bytes()), Str(Blob{N: max(0, 252-l), Pat: 1}.Bytes())
		yield(TblCase{Ops: []TblOp{{K: "service", N: l, Prov: a, Serv: b}, {K: "service", N: l, Prov: a, Serv: b + "x"}, {K: "network", Prov: a}, {K: "country", Code: uint32(l)}, {K: "service", Serv: a}}})
	}
	for b := uint(0); b < 32; b++ {
		yield(TblCase{Ops: []TblOp{{K: "country", Code: 1 << b, N: int(b)}, {K: "country", Code: ^(1 << b), N: int(b) + 1}}})
	}
	for n := 0; n < 16; n++ {
		yield(TblCase{Ops: []TblOp{{K: "pes", N: n, Len: 7, PTS: 9}, {K: "fresh", N: n, Len: 3, PTS: 5}, {K: "pes", N: n >> 1, Len: 7, PTS: 9, DTS: 9}, {K: "fresh", N: n}, {K: "pes", N: 1, Len: 7}}})
	}
}

func init() {
	register(Spec[TblCase]{ID: "T09", Quick: 300000, Thorough: 6000000, Gen: genT09, Check: checkT09, Sweep: sweepT09,
		Technique: techRapid + "histories on descriptor and PES header builders against byte layouts written from the standards",
		Rule:      "histories of 1-8 uses of one descriptor buffer and one PES header (names to 300 bytes, country codes, media lengths around 65535, 64-bit times, fill lengths 1-184), with other builders used and overwritten in between; sweep: every fill length, every time stamp bit, lengths around the field limits; non-trivial: at least two uses",
		Note:      "Recorded finding: the country availability descriptor (fixed byte for byte by an existing test); exactly that form is tolerated."})
}
