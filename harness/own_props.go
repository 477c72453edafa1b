package main

import (
	"bufio"
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/sips"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C02

// OwnOp is a call that hands something out.
type OwnOp struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"` // which input
	O int    `json:"o,omitempty"` // which object
	// S overwrites the result with this number, counted from one, when the call has returned.
	S int `json:"s,omitempty"`
}

// OwnCase is a history of calls whose results stay in the caller's hands.
type OwnCase struct {
	A0   []Node    `json:"a0,omitempty"`
	A3   []Node    `json:"a3,omitempty"`
	SIP  []Str     `json:"sip,omitempty"`
	Line []Str     `json:"line,omitempty"`
	Pool []PoolPkt `json:"pool,omitempty"`
	Ops  []OwnOp   `json:"ops"`
}

var ownKinds = []string{"amf0", "amf3", "again0", "again3", "addmeta", "delmeta", "message", "stream", "user", "uri", "via", "cseq", "auth", "args", "list",
	"write user", "write uri", "write via", "write cseq", "write headers", "write message", "typed", "copy", "none",
	"templates", "descriptor", "types", "demux", "tables", "new"}

var ownLines = []Str{"\"A\" <sip:a@b.c:5070;x=1>;tag=1", "sip:x@y", "<sip:z>;", "tel:+12;q", "SIP/2.0/UDP h:5060;branch=z9", "SIP/2.0/TCP h", "7 INVITE", "Digest realm=\"r\", nonce=\"n\"", "k=v, l=\"m\"", ""}

// ownWorld is what the calls work on.
type ownWorld struct {
	c      OwnCase
	lend   bool // inputs are in memory that is overwritten afterwards
	dec0   [2]*amf.EnDecAMF0
	dec3   [2]*amf.EnDecAMF3
	user   [2]*sips.SIPUser
	uri    [2]*sips.SIPRequest
	via    [2]*sips.SIPVia
	cseq   [2]*sips.SIPCseq
	msg    [2]*sips.SIP
	demux  *flv.Demuxer
	muxer  [2]*ts.Muxer
	types  [2]*packet.Types
	desc   [2]*table.Descriptor
	packet []*packet.Packet
}

func newOwnWorld(c OwnCase, lend bool) *ownWorld {
	w := &ownWorld{c: c, lend: lend, demux: flv.NewDemuxer()}
	for i := 0; i < 2; i++ {
		w.dec0[i], w.dec3[i] = decoder0(), decoder3()
		w.user[i], w.uri[i], w.via[i], w.cseq[i] = sips.NewSIPUser("sip:u@h;a=1"), sips.NewSIPRequest("sip:u@h;a=1"), sips.NewSIPVia("SIP/2.0/UDP h;a=1"), sips.NewSIPCseq("1 BYE")
		w.msg[i] = sips.NewSIP()
		w.msg[i].ParseBytes([]byte(sipMsgs[0]))
		w.muxer[i], w.types[i], w.desc[i] = ts.NewMuxer(), packet.NewTypes(), table.NewDescriptor()
	}
	return w
}

func (w *ownWorld) with(b []byte, f func([]byte)) {
	if !w.lend {
		f(append([]byte(nil), b...))
		return
	}
	lent(b, func(q []byte) error { f(q); return nil })
}

// plainNode tells whether a value refers to nothing, so that it means the same in every message.
func plainNode(n Node) bool {
	if n.K == "ref" || strings.HasPrefix(n.K, "bad") {
		return false
	}
	for _, l := range [][]Node{n.E, n.D, n.Keys} {
		for _, x := range l {
			if !plainNode(x) {
				return false
			}
		}
	}
	return true
}

type handed struct {
	what  string
	v     interface{}
	fixed bool // for reading only
	print string
}

// do makes the call; what it returns belongs to the caller.
func (w *ownWorld) do(op OwnOp) (out []handed) {
	i := op.O & 1
	give := func(v interface{}) { out = append(out, handed{what: op.K, v: v}) }
	show := func(f string, a ...interface{}) { out = append(out, handed{what: op.K, print: fmt.Sprintf(f, a...)}) }
	line := ""
	if len(w.c.Line) > 0 {
		line = string(w.c.Line[op.N%len(w.c.Line)])
	}
	text := sipMsgs[op.N%len(sipMsgs)]
	if n := len(w.c.SIP); n > 0 {
		text = string(w.c.SIP[op.N%n])
	}
	amfs := func(ns []Node, d amf.Decoder, write func([]Node) []byte) {
		if len(ns) == 0 {
			return
		}
		n := ns[op.N%len(ns)]
		w.with(write([]Node{n}), func(q []byte) {
			if op.O&2 == 0 {
				v, err := d.Decode(bytes.NewReader(q))
				give(v)
				show("%v", err)
				return
			}
			vs, err := d.DecodeBatch(bytes.NewReader(q))
			give(vs)
			show("%v", err)
		})
	}
	w0 := func(ns []Node) []byte { b, _, _, _ := write0(ns); return b }
	w3 := func(ns []Node) []byte { b, _, _, _ := write3(ns); return b }
	// a decoder that has been used still has its tables, so there is nothing to refer to
	flat0 := func(ns []Node) []byte {
		e := &enc0{n3: 1}
		for _, n := range ns {
			e.value(n)
		}
		return e.w.Bytes()
	}
	flat3 := func(ns []Node) []byte {
		e := &enc3{noRefs: true}
		for _, n := range ns {
			e.value(n)
		}
		return e.w.Bytes()
	}
	again := func(f func() []byte) { // a third of the structs is written twice
		give(f())
		if op.N%3 == 0 {
			give(f())
		}
	}
	switch op.K {
	case "amf0":
		amfs(w.c.A0, decoder0(), w0)
	case "amf3":
		amfs(w.c.A3, decoder3(), w3)
	case "again0": // by a decoder that has been used
		amfs(w.c.A0, w.dec0[i], flat0)
	case "again3":
		amfs(w.c.A3, w.dec3[i], flat3)
	case "addmeta":
		in := append([]byte{2, 0, 1, byte('a' + op.N%20)}, bytes.Repeat([]byte{5}, op.N%50)...)
		w.with(in, func(q []byte) {
			b, err := amf.AddMetaHeader(q, w.dec0[i])
			give(b)
			show("%v", err)
		})
	case "delmeta": // may be a part of its input
		b, err := amf.DelMetaHeader(append(headBytes("@setDataFrame", op.N%3), line...), w.dec0[i])
		give(b)
		show("%v", err)
	case "message":
		s := sips.NewSIP()
		w.with([]byte(text), func(q []byte) { show("%v", s.ParseBytes(q)) })
		if op.O&2 == 0 {
			give(s)
			break
		}
		give(s.LayerContents())
		give(s.LayerPayload())
		give(s.Headers)
		give(s.From)
		give(s.To)
		give(s.Via)
		give(s.Cseq)
		give(s.Contact)
		give(s.Request)
	case "stream":
		w.with([]byte(text+sipMsgs[1]+sipMsgs[0]), func(q []byte) {
			br := bufio.NewReaderSize(bytes.NewReader(q), 16)
			for n := 0; n < 3; n++ {
				s := sips.NewSIP()
				err := s.Parse(br)
				give(s)
				show("%v", err)
				if err != nil {
					break
				}
			}
		})
	case "user":
		give(sips.NewSIPUser(line))
	case "uri":
		give(sips.NewSIPRequest(line))
	case "via":
		give(sips.NewSIPVia(line))
	case "cseq":
		give(sips.NewSIPCseq(line))
	case "auth":
		give(sips.NewSIPAuth(line))
	case "args":
		give(sips.ParseArgs(line))
		give(sips.ParseArgsPairs(line))
		give(sips.NewArgs())
	case "list":
		give(sips.Args{"a": "1"}.ParseList(line))
	case "write user":
		x := w.user[i]
		x.Name, x.Host, x.User, x.Args = line, pick3(op.N, "h", "hh", ""), strings.Repeat("u", op.N%3), someArgs(op)
		again(x.Bytes)
	case "write uri":
		x := w.uri[i]
		x.Host, x.User, x.Args = pick3(op.N, "h", "hh", ""), strings.Repeat("u", op.N%3), someArgs(op)
		again(x.Bytes)
	case "write via":
		x := w.via[i]
		x.Host, x.Args = pick3(op.N, "h", "hh", "h"), someArgs(op)
		again(x.Bytes)
	case "write cseq":
		x := w.cseq[i]
		x.ID = pick3(op.N, "1", "22", "1")
		again(x.Bytes)
	case "write headers":
		h := sips.NewSIPHeader()
		h.SetSubject(line)
		give(h.Bytes())
	case "write message":
		s := sips.MakeResponse(sips.SIPStatus(200+op.N), nil, []byte(line))
		again(s.Bytes)
		s.SetBody(nil)
		give(s.Bytes())
	case "typed":
		h := w.msg[i].Headers
		give(h.GetSIPFrom())
		give(h.GetSIPTo())
		give(h.GetSIPContact())
		give(h.GetSIPCseq())
		give(h.GetSIPVia())
		give(h.GetAuthorization())
	case "copy":
		h := sips.NewSIPHeader()
		h.CopyFrom(w.msg[i].Headers, "From", "to", "Via", "x-a")
		for _, vs := range h { // lists shared with the source are for reading
			out = append(out, handed{what: op.K, v: append([]string(nil), vs...)})
		}
		show("%d headers", len(h))
		out = out[len(out)-1:]
	case "none":
		h := sips.NewSIPHeader()
		give(h.GetHeader("missing"))
		give(h.GetAuthorization())
		give(h.GetSIPFrom())
		give(h)
	case "templates":
		give(table.NewPat())
		give(table.NewPmt())
		give(table.NewSdt())
		give(table.NewProgram())
		give(table.NewPes())
	case "descriptor":
		d := w.desc[i]
		if op.N%5 == 0 {
			w.desc[i] = table.NewDescriptor()
			d = w.desc[i]
		}
		show("%v", d.NetworkName(line))
		show("%v", d.CountryAvailability(op.N%2 == 0, uint32(op.N)))
		show("%x", d.GetBuffer().Bytes())
	case "types":
		if op.N%2 == 0 {
			w.types[i].IsVideo()
		} else {
			w.types[i].IsAudio()
		}
		give(w.types[i].ToSlice())
	case "demux":
		if len(w.c.Pool) == 0 {
			return nil
		}
		p := w.c.Pool[op.N%len(w.c.Pool)].make()
		p.Header, p.Media = nil, nil
		show("%v", w.demux.Demux(p))
		out = append(out, handed{what: op.K, v: p.Header, fixed: true})
		give(p.Media)
	case "tables": // the tables are written into buffers of the muxer
		show("%x", w.muxer[i].PAT())
		show("%x", w.muxer[i].PMT(packet.PktVideo, packet.PktAudio)[:40])
		d := table.NewDescriptor()
		d.Service(1, "p", "n")
		show("%x", w.muxer[i].SDT(d.GetBuffer()))
	case "new":
		give(sips.NewSIP())
		give(sips.NewSIPHeader())
		give(sips.NewArgs())
		give(amf.NewEnDecAMF0())
		give(amf.NewEnDecAMF3())
	}
	return out
}

func pick3(n int, a ...string) string { return a[n%3] }

func someArgs(op OwnOp) sips.Args {
	if op.O&2 > 0 {
		return nil
	}
	return sips.Args{"k": pick3(op.N, "v", "w", "")}
}

var goldenOnce sync.Once
var goldenText string

// golden shows what small inputs, empty ones above all, come out as.
func golden() string {
	var b strings.Builder
	for _, m := range append([]Hex{{3, 0, 0, 9}, {8, 0, 0, 0, 0, 0, 0, 9}, {10, 0, 0, 0, 0}, {16, 0, 0, 0, 0, 9}, {17, 9, 1, 1}, {17, 12, 1}}, amf0Msgs...) {
		v, err := amf.NewEnDecAMF0().DecodeBatch(bytes.NewReader(m))
		fmt.Fprintf(&b, "%s %v\n", deepShow(v), err)
	}
	for _, m := range append([]Hex{{9, 1, 1}, {10, 0x0b, 1, 1}, {10, 3, 1}, {12, 1}, {6, 1}}, amf3Msgs[:17]...) {
		v, err := amf.NewEnDecAMF3().DecodeBatch(bytes.NewReader(m))
		fmt.Fprintf(&b, "%s %v\n", deepShow(v), err)
	}
	for _, l := range ownLines {
		s := string(l)
		b.WriteString(deepShow([]interface{}{sips.NewSIPUser(s), sips.NewSIPRequest(s), sips.NewSIPVia(s), sips.NewSIPCseq(s), sips.NewSIPAuth(s), sips.ParseArgs(s), sips.ParseArgsPairs(s)}))
	}
	for _, m := range sipMsgs {
		s := sips.NewSIP()
		err := s.ParseBytes([]byte(m))
		fmt.Fprintf(&b, "%s %v\n", deepShow(s), err)
	}
	b.WriteString(deepShow([]interface{}{sips.NewSIP(), sips.NewArgs(), sips.NewSIPHeader(), table.NewPat(), table.NewPmt(), table.NewSdt(), table.NewProgram(), table.NewPes(), sips.NewSIPHeader().GetHeader("x")}))
	m, err := amf.AddMetaHeader([]byte{2, 0, 0}, amf.NewEnDecAMF0())
	fmt.Fprintf(&b, "%q %v %x", m, err, ts.NewMuxer().PAT())
	return b.String()
}

func checkC02(c OwnCase, o *Obs) error {
	goldenOnce.Do(func() { goldenText = golden() })
	var k owned
	defer k.restore()
	// the results of a caller that keeps nothing
	plain := newOwnWorld(c, false)
	var want [][]string
	for _, op := range c.Ops {
		var s []string
		for _, h := range plain.do(op) {
			if h.print == "" {
				h.print = deepShow(h.v)
			}
			s = append(s, h.print)
		}
		want = append(want, s)
	}
	w := newOwnWorld(c, true)
	var free []int
	scrubs, values := 0, 0
	for n, op := range c.Ops {
		got := w.do(op)
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("operation %d (%s): "+f, append([]interface{}{n, op.K}, a...)...)
		}
		for j, h := range got {
			p := h.print
			if p == "" {
				p = deepShow(h.v)
				k.add(fmt.Sprintf("operation %d (%s)", n, op.K), h.v)
				values++
				if !h.fixed {
					free = append(free, len(k.vals)-1)
				}
			}
			if p != want[n][j] {
				return fail("result %d depends on what became of earlier results and inputs: %s", j, diffBytes([]byte(want[n][j]), []byte(p)))
			}
		}
		if err := k.same(); err != nil {
			return fail("%v", err)
		}
		if op.S > 0 && len(free) > 0 {
			x := free[(op.S-1)%len(free)]
			what := k.what[x]
			if err := k.scrub(x); err != nil {
				return fail("%v", err)
			}
			scrubs++
			o.ClassIf(strings.Contains(what, "amf"), "overwritten AMF values")
			o.ClassIf(!strings.Contains(what, "amf"), "overwritten results")
			for y, v := range k.vals {
				if y == x {
					continue
				}
				if s := deepShow(v); s != k.show[y] {
					return fail("overwriting what %s returned changes what %s returned: %s", what, k.what[y], diffBytes([]byte(k.show[y]), []byte(s)))
				}
			}
		}
		o.Class("%s", op.K)
	}
	if g := golden(); g != goldenText {
		return fmt.Errorf("after the caller has overwritten results, small inputs come out differently: %s", diffBytes([]byte(goldenText), []byte(g)))
	}
	if values > 1 && scrubs > 0 {
		o.NonTrivial()
	}
	return nil
}

func genC02(t *rapid.T) OwnCase {
	var c OwnCase
	amf3 := 0
	for i := intn(t, 0, 3); i > 0; i-- {
		if n := genNode0(t, intn(t, 0, 2), &amf3); plainNode(n) {
			c.A0 = append(c.A0, n)
		}
	}
	c.A0 = append(c.A0, pick(t, Node{K: "obj"}, Node{K: "ecma"}, Node{K: "arr"}, Node{K: "obj"}))
	for i := intn(t, 0, 3); i > 0; i-- {
		if n := genNode3(t, intn(t, 0, 2), boolean(t)); plainNode(n) {
			c.A3 = append(c.A3, n)
		}
	}
	c.A3 = append(c.A3, pick(t, Node{K: "arr"}, Node{K: "bytes"}, Node{K: "obj"}))
	for i := intn(t, 1, 3); i > 0; i-- {
		switch pick(t, 0, 1, 2, 3, 4, 4) {
		case 0:
			c.Line = append(c.Line, Str(genAddr(t, true).text()))
		case 1:
			c.Line = append(c.Line, Str(genURI(t, true).text()))
		case 2:
			c.Line = append(c.Line, Str(genVia(t, true).text()))
		case 3:
			c.Line = append(c.Line, Str(genPrintable(t, 30)))
		default:
			c.Line = append(c.Line, pick(t, ownLines...))
		}
	}
	for i := intn(t, 0, 2); i > 0; i-- {
		c.SIP = append(c.SIP, Str(genSMsg(t).text()))
	}
	c.Pool = genPool(t, intn(t, 0, 3))
	kinds := []string{pick(t, ownKinds...), pick(t, ownKinds...)}
	for i := intn(t, 2, 12); i > 0; i-- {
		k := pick(t, kinds...)
		if boolean(t) {
			k = pick(t, ownKinds...)
		}
		op := OwnOp{K: k, N: intn(t, 0, 12), O: intn(t, 0, 3)}
		if boolean(t) {
			op.S = intn(t, 1, 12)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func sweepC02(thorough bool, yield func(OwnCase)) {
	base := OwnCase{Line: ownLines, Pool: stdPool,
		A0: []Node{{K: "obj"}, {K: "ecma"}, {K: "arr"}, {K: "str", S: "x"}, {K: "obj", Keys: []Node{{K: "str", S: "k"}}, E: []Node{{K: "obj"}}}},
		A3: []Node{{K: "arr"}, {K: "bytes"}, {K: "obj"}, {K: "bytes", S: "abc"}, {K: "str", S: "x"}}}
	for _, a := range ownKinds {
		for _, b := range ownKinds {
			for n := 0; n < 10; n++ {
				c := base
				c.Ops = []OwnOp{{K: a, N: n, S: 1}, {K: b, N: n + 1, S: 2}, {K: a, N: n, O: 1, S: 3}, {K: b, N: n, O: 2}, {K: a, N: n + 1}, {K: a, N: n}}
				yield(c)
			}
		}
	}
}

func shrinkC02(c OwnCase) (out []OwnCase) {
	for n := len(c.Ops) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(c.Ops); i += n {
			d := c
			d.Ops = append(append([]OwnOp{}, c.Ops[:i]...), c.Ops[i+n:]...)
			out = append(out, d)
		}
	}
	for _, f := range []func(*OwnCase){
		func(d *OwnCase) { d.A0 = nil }, func(d *OwnCase) { d.A3 = nil }, func(d *OwnCase) { d.SIP = nil },
		func(d *OwnCase) { d.Line = nil }, func(d *OwnCase) { d.Pool = nil },
		func(d *OwnCase) { d.A0 = d.A0[:len(d.A0)/2] }, func(d *OwnCase) { d.A3 = d.A3[:len(d.A3)/2] },
		func(d *OwnCase) { d.Line = d.Line[:len(d.Line)/2] },
	} {
		d := c
		f(&d)
		if len(d.A0)+len(d.A3)+len(d.SIP)+len(d.Line)+len(d.Pool) < len(c.A0)+len(c.A3)+len(c.SIP)+len(c.Line)+len(c.Pool) {
			out = append(out, d)
		}
	}
	return out
}

func init() {
	register(Spec[OwnCase]{ID: "C02", Quick: 30000, Thorough: 600000, Gen: genC02, Check: checkC02, Sweep: sweepC02, Shrink: shrinkC02,
		Technique: techRapid + "metamorphic relation: a caller that keeps results, overwrites them and reuses its input memory gets the same results as one that does not; every kept result is compared with its copy after every call",
		Rule:      "2-12 calls of 30 kinds (AMF decoding, metadata headers, SIP messages, addresses, URIs, Via, CSeq, authorisation and argument lists, serialising from changing structs, typed headers, table templates, descriptors, demultiplexed headers, constructors) on generated inputs; half of the calls are followed by overwriting one of the results; sweep: all pairs of kinds; non-trivial: at least two values handed out and one overwritten",
		Note:      "For reading only, by the interfaces: header value lists (GetHeader, GetAllHeaders, CopyFrom share them), the tables of ts.Muxer (views of its buffers), the writer's argument, the media part of a packet (a view of its data), and values that a later message refers to on the same AMF decoder. An address and the request made from it share their arguments."})
}
