package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strconv"
	"time"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/parser/mp3"
	"github.com/moggle-mog/goav/sips"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- packets and systems

// PoolPkt is a packet that several systems may use.
type PoolPkt struct {
	K    string  `json:"k"` // vseq aseq key inter sei aac mp3 meta bad
	Body Blob    `json:"b,omitempty"`
	N    int     `json:"n,omitempty"`
	CTS  int32   `json:"c,omitempty"`
	TS   uint32  `json:"ts,omitempty"`
	Seq  *SeqHdr `json:"seq,omitempty"`
	Asc  *Asc    `json:"asc,omitempty"`
}

// make builds the packet: demultiplexed, its data in an array with spare capacity.
func (x PoolPkt) make() *packet.Packet {
	typ := packet.PktVideo
	var body []byte
	switch x.K {
	case "vseq":
		rec, _ := MixOp{Seq: x.Seq}.seq().bytes()
		body = videoBody(1, 7, 0, 0, rec)
	case "aseq":
		typ = packet.PktAudio
		body = audioBody(10, 15, 0, MixOp{Asc: x.Asc}.asc().bytes())
	case "key":
		body = videoBody(1, 7, 1, x.CTS, avcc(4, append([]byte{0x65}, x.Body.Bytes()...)))
	case "own": // key frame with its own parameter sets and a delimiter
		body = videoBody(1, 7, 1, x.CTS, avcc(4, []byte{9, 0x10}, []byte{0x67, byte(x.N)}, []byte{0x68, 1}, append([]byte{0x65}, x.Body.Bytes()...)))
	case "inter":
		body = videoBody(2, 7, 1, x.CTS, avcc(4, []byte{6, byte(x.N), 1}, append([]byte{0x41}, x.Body.Bytes()...)))
	case "annexb":
		body = videoBody(byte(1+x.N%2), 7, 1, x.CTS, annexB(append([]byte{0x41}, x.Body.Bytes()...)))
	case "aac":
		typ = packet.PktAudio
		body = audioBody(10, 15, 1, append([]byte{0x21}, x.Body.Bytes()...))
	case "mp3":
		typ = packet.PktAudio
		body = audioBody(2, 15, 0, append([]byte{0xff, 0xfb, []byte{0x90, 0x92, 0x94}[x.N%3]}, x.Body.Bytes()...))
	case "snd": // any sound format and any data
		typ = packet.PktAudio
		body = audioBody(byte(x.N)&15, byte(x.TS)&15, byte(x.CTS)&3, x.Body.Bytes())
	case "meta":
		typ = packet.PktMetadata
		body = metaMsg("onMetaData", x.Body.Bytes())
		if x.N%4 > 0 {
			body = append(headBytes("@setDataFrame", x.N%4-1), body...)
		}
	default:
		typ, body = badBody(x.N)
	}
	d := make([]byte, len(body), len(body)+40)
	copy(d, body)
	spare := d[len(d):cap(d)]
	for i := range spare {
		spare[i] = byte(0xa0 + i)
	}
	p := &packet.Packet{Type: typ, TimeStamp: x.TS, Baseline: x.TS / 2, StreamID: 1, Data: d}
	if err := flv.NewDemuxer().Demux(p); err != nil {
		panic(fmt.Sprintf("pool packet %+v: %v", x, err))
	}
	// demultiplexing must not change the bytes either
	if x := diffBytes(body, d); x != "" {
		panic("demultiplexing changes the data of a packet: " + x)
	}
	for i := range spare {
		if spare[i] != byte(0xa0+i) {
			panic("demultiplexing writes behind the data of a packet")
		}
	}
	return p
}

// FOp is an operation of a system on packet P of the pool.
type FOp struct {
	K string `json:"k"`
	P int    `json:"p,omitempty"`
	N int    `json:"n,omitempty"`
}

// Sys is an instance and its history.
type Sys struct {
	K   string `json:"k"`
	Ops []FOp  `json:"ops"`
}

var sysOps = map[string][]string{
	"flvmix": {"mux", "mux", "mux", "head", "avc", "aac", "meta", "demux"},
	"tsmix":  {"mux", "mux", "mux", "mux", "head", "avc", "aac", "aac", "meta"},
	"tsmux":  {"mux", "mux", "sdt", "pat", "pmt"},
	"parser": {"parse", "rate"},
	"h264":   {"parse"},
	"aac":    {"parse", "rate"},
	"mp3":    {"parse", "rate"},
	"gop":    {"write", "write", "write", "send"},
	"demux":  {"demux", "tag"},
	"amf0":   {"enc", "dec", "meta"},
	"amf3":   {"enc", "dec"},
	"sip":    {"parse"},
}

var sysKinds = []string{"flvmix", "tsmix", "tsmux", "parser", "h264", "aac", "mp3", "gop", "demux", "amf0", "amf3", "sip"}

// late is a result that is read when the instance is used again, or at the end.
type late func() string

func now(f string, a ...interface{}) late {
	return func() string { return fmt.Sprintf(f, a...) }
}

// machine runs the operations of one system.
type machine struct {
	op    func(op FOp) (late, error)
	known error // a deviation that is not a recorded finding
}

type pool struct {
	pkts  []*packet.Packet
	kinds []string
	snaps []pktSnap
	par   bool // C01: T07 judges what saving does to the struct
}

func newPool(xs []PoolPkt) *pool {
	p := &pool{}
	for _, x := range xs {
		q := x.make()
		p.pkts = append(p.pkts, q)
		p.kinds = append(p.kinds, x.K)
		p.snaps = append(p.snaps, snap(q))
	}
	return p
}

// find returns the first packet from i on that satisfies ok.
func (p *pool) find(i int, ok func(kind string, q *packet.Packet) bool) (int, *packet.Packet) {
	for k := range p.pkts {
		j := (i + k) % len(p.pkts)
		if ok(p.kinds[j], p.pkts[j]) {
			return j, p.pkts[j]
		}
	}
	return -1, nil
}

func (p *pool) unchanged() error {
	for i := range p.pkts {
		if err := p.snaps[i].same(p.pkts[i], false); err != nil {
			return fmt.Errorf("packet %d (%s): %v", i, p.kinds[i], err)
		}
	}
	return nil
}

// packetWriter hands packets of a cache on as bytes.
type packetWriter struct {
	p *pool
	w io.Writer
}

func (x *packetWriter) Write(p *packet.Packet) error {
	id := byte(255)
	for i := range x.p.pkts {
		if x.p.pkts[i] == p {
			id = byte(i)
		}
	}
	_, err := x.w.Write([]byte{id})
	return err
}

func anyMedia(k string, q *packet.Packet) bool { return q.Type != packet.PktMetadata }
func anyPkt(k string, q *packet.Packet) bool   { return true }
func kindIs(ks ...string) func(string, *packet.Packet) bool {
	return func(k string, _ *packet.Packet) bool {
		for _, x := range ks {
			if k == x {
				return true
			}
		}
		return false
	}
}

// one is a metadata object with at most one member, so that its encoding is determined.
func one(n int) amf.Object {
	switch n % 4 {
	case 0:
		return amf.Object{}
	case 1:
		return amf.Object{"Provider": "p" + strconv.Itoa(n)}
	case 2:
		return amf.Object{"Service": "service" + strconv.Itoa(n)}
	}
	return amf.Object{"width": float64(n)}
}

func encodable(n int) interface{} {
	switch n % 8 {
	case 0:
		return "text" + strconv.Itoa(n)
	case 1:
		return float64(n) / 3
	case 2:
		return amf.Array{"x", float64(n), "x", nil, true}
	case 3:
		return time.Unix(int64(n), 0).UTC()
	case 4:
		return n%16 < 8
	case 5:
		return nil
	case 6:
		return amf.TypedObject{Type: "T" + strconv.Itoa(n), Object: amf.Object{"k": "x"}}
	}
	return "x"
}

// amf0Msgs and amf3Msgs hold messages that refer to what the instance read before.
var amf0Msgs = []Hex{
	{2, 0, 1, 'a'}, {3, 0, 1, 'k', 2, 0, 1, 'v', 0, 0, 9}, {7, 0, 0}, {7, 0, 1}, {10, 0, 0, 0, 2, 5, 1, 1},
	{10, 0, 0, 0, 2, 3, 0, 0, 9, 7, 0, 1}, {16, 0, 1, 'T', 0, 1, 'k', 5, 0, 0, 9}, {8, 0, 0, 0, 1, 0, 1, 'e', 6, 0, 0, 9},
	{17, 6, 7, 'a', 'b', 'c'}, {2, 0, 9, 'x'}, {0x20}, {0, 0x40, 9, 0x21, 0xfb, 0x54, 0x44, 0x2d, 0x18},
}

var amf3Msgs = []Hex{
	{6, 7, 'a', 'b', 'c'}, {6, 0}, {6, 2}, {9, 3, 1, 6, 3, 'q'}, {9, 0}, {9, 5, 1, 6, 0, 6, 2},
	{10, 0x13, 3, 'T', 3, 'k', 6, 5, 'v', 'w'}, {10, 1, 4, 5}, {10, 0x0b, 1, 3, 'k', 6, 3, 'v', 1}, {12, 5, 1, 2}, {12, 0},
	{8, 1, 0x42, 0x6d, 0x1a, 0x94, 0xa2, 0, 0, 0}, {8, 0}, {7, 5, '<', '>'}, {4, 0xff, 0xff, 0xff, 0xff}, {10, 2}, {0x44}, {6, 9, 'x'},
}

var sipMsgs = []string{
	"INVITE sip:bob@example.com SIP/2.0\r\nVia: SIP/2.0/UDP h:5060;branch=z9\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:bob@example.com>\r\nCSeq: 1 INVITE\r\nContent-Length: 3\r\n\r\nabc",
	"SIP/2.0 200 OK\r\nFrom: \"Q\" <sip:x@y>\r\nTo: <sip:z@y>;tag=9\r\nCSeq: 7 BYE\r\nl: 0\r\n\r\n",
	"OPTIONS sip:carol@chicago.com SIP/2.0\r\nFrom: <sip:o@p>\r\nContent-Length: 1\r\nX-A: 1\r\nX-A: 2\r\n\r\nz",
	"INVITE sip:bob@example.com SIP/2.0\r\nBroken\r\n\r\n",
}

func showSIP(s *sips.SIP) string {
	out := fmt.Sprintf("%v %v %v %v %q", s.Version, s.IsResponse, s.ResponseCode, s.ResponseStatus, s.Payload())
	for _, h := range []string{"From", "To", "Via", "CSeq", "Content-Length", "X-A", "Contact"} {
		out += fmt.Sprintf(" %s=%q", h, s.Headers.GetHeader(h))
	}
	return out
}

// hookReader runs a hook before data is read.
type hookReader struct {
	r    io.Reader
	hook func()
}

func (h *hookReader) Read(p []byte) (int, error) {
	if h.hook != nil {
		h.hook()
	}
	return h.r.Read(p)
}

// build makes an instance that writes to w and reads its inputs through hook.
func (s Sys) build(p *pool, w io.Writer, hook func(), o *Obs) *machine {
	m := &machine{}
	none := now("nothing to do")
	saves := func(op FOp, kind string, save func(*packet.Packet) error, exempt bool) (late, error) {
		i, q := p.find(op.P, kindIs(kind))
		if q == nil {
			return none, nil
		}
		if !exempt {
			return now("saved"), save(q)
		}
		// the TS mixer replaces the media of the packet it is given (recorded finding): it gets a
		// copy of the struct, and everything else has to stay
		r := *q
		if p.par {
			return now("saved"), save(&r)
		}
		sn := snap(&r)
		err := save(&r)
		if e := sn.same(&r, false); e != nil {
			if sn.same(&r, true) == nil && r.Header == q.Header && err == nil && r.Media != nil && len(r.Media) == 0 {
				e = o.Known("T07-ts-save-media", "ts.Mixer.SaveAVCHeader and SaveAACHeader replace p.Media of the packet they are given by a slice of their own cache")
			}
			if e != nil && m.known == nil {
				m.known = fmt.Errorf("saving sequence header %d: %v", i, e)
			}
		}
		return now("saved"), err
	}
	switch s.K {
	case "flvmix":
		x := flv.NewMixer(w)
		m.op = func(op FOp) (late, error) {
			switch op.K {
			case "mux":
				_, q := p.find(op.P, anyPkt)
				return now("muxed"), x.Mux(q, uint32(op.N)*4003)
			case "avc":
				return saves(op, "vseq", x.SaveAVCHeader, false)
			case "aac":
				return saves(op, "aseq", x.SaveAACHeader, false)
			case "meta":
				return now("saved"), x.SaveMetadata(one(op.N))
			case "demux":
				_, q := p.find(op.P, anyPkt)
				r := &packet.Packet{Type: q.Type, Data: q.Data}
				return now("demuxed"), flv.NewDemuxer().Demux(r)
			}
			return now("head"), x.SetFlvHeader()
		}
	case "tsmix":
		x := ts.NewMixer(w)
		m.op = func(op FOp) (late, error) {
			switch op.K {
			case "mux":
				_, q := p.find(op.P, anyMedia)
				if q == nil {
					return none, nil
				}
				cts := uint32(0)
				if vh, ok := q.Header.(packet.VideoPacketHeader); ok {
					cts = uint32(vh.CompositionTime())
				}
				if err := x.Update(q, q.TimeStamp+uint32(op.N), cts); err != nil {
					return now("no rate"), err
				}
				return now("muxed"), x.Mux(q)
			case "avc":
				return saves(op, "vseq", x.SaveAVCHeader, true)
			case "aac":
				return saves(op, "aseq", x.SaveAACHeader, true)
			case "meta":
				return now("saved"), x.SaveMetadata(one(op.N))
			}
			return now("head"), x.SetTsHeader()
		}
	case "tsmux":
		x := ts.NewMuxer()
		view := func(b []byte) (late, error) { return func() string { return fmt.Sprintf("%x", b) }, nil }
		m.op = func(op FOp) (late, error) {
			switch op.K {
			case "mux":
				_, q := p.find(op.P, anyMedia)
				if q == nil {
					return none, nil
				}
				return now("muxed"), x.Mux(q, int64(op.N)*90, int64(op.N)*90+int64(op.N%3)*90, w)
			case "sdt":
				return view(x.SDT(bytes.NewBuffer(serviceDesc(1, "p", strconv.Itoa(op.N)))))
			case "pat":
				return view(x.PAT())
			}
			return view(x.PMT([][]int{{packet.PktVideo}, {packet.PktAudio}, {packet.PktVideo, packet.PktAudio}}[op.N%3]...))
		}
	case "parser":
		x := parser.NewCodecParser()
		m.op = func(op FOp) (late, error) {
			if op.K == "rate" {
				r, err := x.SampleRate()
				return now("%d", r), err
			}
			_, q := p.find(op.P, anyMedia)
			if q == nil {
				return none, nil
			}
			return now("parsed"), x.Parse(q, w)
		}
	case "h264":
		x := h264.NewParser()
		m.op = func(op FOp) (late, error) {
			_, q := p.find(op.P, func(_ string, q *packet.Packet) bool { return q.Type == packet.PktVideo })
			if q == nil {
				return none, nil
			}
			return now("parsed"), x.Parse(q.Media, q.Header.(packet.VideoPacketHeader).IsSeqHdr(), w)
		}
	case "aac":
		x := aac.NewParser()
		m.op = func(op FOp) (late, error) {
			if op.K == "rate" {
				return now("%d", x.SampleRate()), nil
			}
			_, q := p.find(op.P, func(k string, q *packet.Packet) bool { return q.Type == packet.PktAudio && k != "mp3" })
			if q == nil {
				return none, nil
			}
			return now("parsed"), x.Parse(q.Media, q.Header.(packet.AudioPacketHeader).AACType(), w)
		}
	case "mp3":
		x := mp3.NewParser()
		m.op = func(op FOp) (late, error) {
			if op.K == "rate" {
				return now("%d", x.SampleRate()), nil
			}
			_, q := p.find(op.P, kindIs("mp3"))
			if q == nil {
				return none, nil
			}
			return now("parsed"), x.Parse(q.Media)
		}
	case "gop":
		x := gop.NewCache(1 + len(s.Ops)%3)
		m.op = func(op FOp) (late, error) {
			if op.K == "send" {
				return now("sent"), x.SendTo(&packetWriter{p, w})
			}
			_, q := p.find(op.P, anyPkt)
			return now("written"), x.Write(q)
		}
	case "demux":
		d := flv.NewDemuxer()
		var tag flv.Tag
		m.op = func(op FOp) (late, error) {
			_, q := p.find(op.P, anyPkt)
			if op.K == "tag" {
				_, err := tag.ParseMediaTagHeader(q.Data, q.Type)
				return func() string { a, _ := access(&tag); return fmt.Sprintf("%+v", a) }, err
			}
			r := &packet.Packet{Type: q.Type, Data: q.Data, TimeStamp: q.TimeStamp, Baseline: q.Baseline, StreamID: q.StreamID}
			sn := snap(r)
			err := d.Demux(r)
			if e := sn.same(r, true); e != nil && m.known == nil {
				m.known = fmt.Errorf("Demux: %v", e)
			}
			return func() string { a, _ := access(r.Header); return fmt.Sprintf("%+v %x", a, r.Media) }, err
		}
	case "amf0", "amf3":
		type codec interface {
			amf.Decoder
			amf.Encoder
		}
		var x codec = amf.NewEnDecAMF0()
		msgs := amf0Msgs
		if s.K == "amf3" {
			x, msgs = amf.NewEnDecAMF3(), amf3Msgs
		}
		m.op = func(op FOp) (late, error) {
			switch op.K {
			case "enc":
				n, err := x.Encode(w, encodable(op.N))
				return now("%d bytes", n), err
			case "meta":
				_, q := p.find(op.P, kindIs("meta"))
				if q == nil {
					return none, nil
				}
				b, err := amf.AddMetaHeader(q.Data, x)
				c, err2 := amf.DelMetaHeader(q.Data, amf.NewEnDecAMF0())
				if err == nil {
					err = err2
				}
				return func() string { return fmt.Sprintf("%x %x", b, c) }, err
			}
			v, err := x.Decode(&hookReader{bytes.NewReader(msgs[op.N%len(msgs)]), hook})
			return func() string { return fmt.Sprintf("%#v", v) }, err
		}
	case "sip":
		m.op = func(op FOp) (late, error) {
			x := sips.NewSIP()
			err := x.Parse(bufio.NewReaderSize(&hookReader{iotestOne{bytes.NewReader([]byte(sipMsgs[op.N%len(sipMsgs)]))}, hook}, 16))
			return func() string { return showSIP(x) }, err
		}
	}
	return m
}

// iotestOne reads a few bytes at a time.
type iotestOne struct{ r io.Reader }

func (i iotestOne) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return i.r.Read(p)
}

// opResult of one operation.
type opResult struct {
	value string
	err   bool
	out   string
}

func (r opResult) String() string {
	return fmt.Sprintf("(%s, error %v, %d bytes written)", clip(r.value, 200), r.err, len(r.out))
}

// actor is a system at work.
type actor struct {
	m       *machine
	ops     []FOp
	next    int
	busy    bool
	buf     bytes.Buffer
	results []opResult
	last    late
	par     bool   // results are shown at the end only
	lates   []late // then
	write   func() // before the data of a write is taken
}

func (a *actor) Write(p []byte) (int, error) {
	if a.write != nil {
		a.write()
	}
	return a.buf.Write(p)
}

// settle reads the result that is still outstanding.
func (a *actor) settle() {
	if a.last != nil {
		a.results[len(a.results)-1].value = a.last()
		a.last = nil
	}
}

// show reads all results of a parallel run.
func (a *actor) show() {
	for i, l := range a.lates {
		a.results[i].value = l()
	}
}

func (a *actor) step() {
	if a.busy || a.next >= len(a.ops) {
		return
	}
	op := a.ops[a.next]
	a.next++
	a.settle()
	a.busy = true
	at := a.buf.Len()
	v, err := a.m.op(op)
	a.busy = false
	a.results = append(a.results, opResult{err: err != nil, out: string(a.buf.Bytes()[at:])})
	if a.par {
		a.lates = append(a.lates, v)
		return
	}
	a.last = v
}

// ---------------------------------------------------------------- T07

// IsoCase has several systems over one pool of packets, and a schedule.
type IsoCase struct {
	Pool  []PoolPkt `json:"pool"`
	Sys   []Sys     `json:"sys"`
	Sched []int     `json:"sched"`          // which system goes next
	Nest  []int     `json:"nest,omitempty"` // per write or read: 0 nothing, k: the system k after this one runs an operation
}

func checkT07(c IsoCase, o *Obs) error {
	if len(c.Pool) == 0 || len(c.Sys) == 0 {
		return nil
	}
	// every history alone, with packets of its own
	var alone [][]opResult
	for i, s := range c.Sys {
		p := newPool(c.Pool)
		a := &actor{ops: s.Ops}
		a.m = s.build(p, a, nil, o)
		var inside error
		a.write = func() {
			if inside == nil {
				inside = p.unchanged()
			}
		}
		for k := range s.Ops {
			a.step()
			o.Class("%s %s", s.K, s.Ops[k].K)
			if inside != nil {
				return fmt.Errorf("system %d (%s): inside a write of operation %d (%s): %v", i, s.K, k, s.Ops[k].K, inside)
			}
			if err := p.unchanged(); err != nil {
				return fmt.Errorf("system %d (%s): after operation %d (%+v): %v", i, s.K, k, s.Ops[k], err)
			}
			if a.m.known != nil {
				return fmt.Errorf("system %d (%s): operation %d: %v", i, s.K, k, a.m.known)
			}
		}
		a.settle()
		alone = append(alone, a.results)
	}
	// all together
	p := newPool(c.Pool)
	var actors []*actor
	depth, at, nested := 0, 0, 0
	for i, s := range c.Sys {
		i := i
		a := &actor{ops: s.Ops}
		hook := func() {
			if depth > 1 || at >= len(c.Nest) {
				return
			}
			k := c.Nest[at]
			at++
			if k%(len(c.Sys)+1) == 0 {
				return
			}
			b := actors[(i+k)%len(c.Sys)]
			if b.busy || b.next >= len(b.ops) {
				return
			}
			nested++
			depth++
			b.step()
			depth--
		}
		a.write = hook
		a.m = s.build(p, a, hook, o)
		actors = append(actors, a)
	}
	for _, k := range c.Sched {
		actors[k%len(actors)].step()
	}
	for _, a := range actors {
		for a.next < len(a.ops) {
			a.step()
		}
	}
	if err := p.unchanged(); err != nil {
		return fmt.Errorf("all together: %v", err)
	}
	done := 0
	for i, a := range actors {
		a.settle()
		if a.m.known != nil {
			return fmt.Errorf("system %d (%s): %v", i, c.Sys[i].K, a.m.known)
		}
		if len(a.results) != len(alone[i]) {
			return fmt.Errorf("system %d: %d results, %d alone", i, len(a.results), len(alone[i]))
		}
		// results are in the order of completion, which is the order of the history
		for k := range a.results {
			if a.results[k] != alone[i][k] {
				why := ""
				if d := diffBytes([]byte(alone[i][k].out), []byte(a.results[k].out)); d != "" {
					why = " output: " + d
				}
				return fmt.Errorf("system %d (%s), operation %d (%+v): with the others %v, alone %v%s", i, c.Sys[i].K, k, a.ops[k], a.results[k], alone[i][k], why)
			}
			if !a.results[k].err && a.results[k].value != "nothing to do" {
				done++
			}
		}
	}
	if done > 2 && len(c.Sys) > 1 {
		o.NonTrivial()
	}
	o.ClassIf(nested > 0, "operations inside a write or read")
	o.Class("%d systems", len(c.Sys))
	return nil
}

func genPool(t *rapid.T, n int) (out []PoolPkt) {
	out = append(out, PoolPkt{K: "key", Body: Blob{N: 20, Pat: 4}})
	for i := 0; i < n; i++ {
		x := PoolPkt{K: pick(t, "key", "inter", "aac", "vseq", "aseq", "own", "annexb", "mp3", "snd", "meta", "bad"), N: intn(t, 0, 12), TS: uint32(intn(t, 0, 100000)), CTS: int32(pick(t, 0, 40, -40))}
		x.Body = Blob{N: spread(t, 0, pick(t, 20, 250, 900)), Pat: intn(t, 0, 9)}
		if boolean(t) {
			x.Body.Head = genBytes(t, 3)
		}
		if x.K == "snd" {
			x.Body.Head = append(x.Body.Head, byte(intn(t, 0, 1)))
			x.N = pick(t, 2, 2, 10)
			x.CTS = int32(intn(t, 0, 1))
		}
		switch x.K {
		case "vseq":
			s := genSeqHdr(t, false)
			if !boolean(t) {
				s = stdSeq
				s.Sps = []Blob{{Head: Hex(genBytes(t, 4))}}
			}
			s.Len = 4
			x.Seq = &s
		case "aseq":
			a := genAsc(t)
			x.Asc = &a
		}
		out = append(out, x)
	}
	return out
}

func genSys(t *rapid.T, kind string, pool, n int) Sys {
	s := Sys{K: kind}
	ks := sysOps[kind]
	for i := 0; i < n; i++ {
		op := FOp{K: ks[intn(t, 0, len(ks)-1)], P: intn(t, 0, pool-1), N: intn(t, 0, 40)}
		if i < 2 && boolean(t) { // headers early
			if kind == "tsmix" || kind == "flvmix" {
				op.K = []string{"avc", "aac"}[i]
			}
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func genT07(t *rapid.T) IsoCase {
	var c IsoCase
	c.Pool = genPool(t, intn(t, 2, 7))
	n := pick(t, 2, 2, 3)
	kind := pick(t, sysKinds...)
	for i := 0; i < n; i++ {
		if i > 0 && boolean(t) {
			kind = pick(t, sysKinds...)
		}
		c.Sys = append(c.Sys, genSys(t, kind, len(c.Pool), intn(t, 1, 8)))
	}
	if chance(t, 20) { // the same history several times
		for i := range c.Sys {
			c.Sys[i] = c.Sys[0]
		}
	}
	c.Sched = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 20).Draw(t, "sched")
	c.Nest = rapid.SliceOfN(rapid.IntRange(0, n), 0, 40).Draw(t, "nest")
	return c
}

var stdPool = []PoolPkt{
	{K: "key", Body: Blob{N: 300, Pat: 4}, TS: 1000, CTS: 40}, {K: "vseq"}, {K: "aseq"}, {K: "inter", Body: Blob{N: 150}, TS: 1040, CTS: -40},
	{K: "aac", Body: Blob{N: 100}, TS: 1010}, {K: "meta", N: 1, Body: Blob{N: 20}}, {K: "mp3", N: 1, Body: Blob{N: 60}, TS: 1020}, {K: "own", N: 3, Body: Blob{N: 30}, TS: 1080},
	{K: "bad", N: 1}, {K: "annexb", Body: Blob{N: 25}, TS: 1100}, {K: "vseq", Seq: &SeqHdr{Len: 4, Sps: []Blob{{N: 30}}, Pps: []Blob{{N: 2}, {N: 3}}}}, {K: "aseq", Asc: &Asc{Obj: 2, Idx: 3, Chan: 1}},
	{K: "bad", N: 3}, {K: "meta", N: 0, Body: Blob{N: 8}}, {K: "snd", N: 2, Body: Blob{N: 5}}, {K: "snd", N: 2, Body: Blob{Head: Hex{1, 2, 3}}}, {K: "snd", N: 10, CTS: 1, Body: Blob{N: 6}},
}

// tour uses every operation of a kind with every packet.
func tour(kind string, off int) Sys {
	s := Sys{K: kind}
	if kind == "flvmix" || kind == "tsmix" {
		s.Ops = append(s.Ops, FOp{K: "avc", P: 1 + off}, FOp{K: "aac", P: 2 + off}, FOp{K: "meta", N: 1 + off}, FOp{K: "head"})
	}
	seen := map[string]bool{}
	for _, k := range sysOps[kind] {
		if seen[k] {
			continue
		}
		seen[k] = true
		for i := range stdPool {
			s.Ops = append(s.Ops, FOp{K: k, P: i + off, N: i + off})
		}
	}
	return s
}

func sweepT07(thorough bool, yield func(IsoCase)) {
	for _, a := range sysKinds {
		for _, b := range sysKinds {
			for off := 0; off < 3; off++ {
				c := IsoCase{Pool: stdPool, Sys: []Sys{tour(a, 0), tour(b, off)}}
				for i := 0; i < 200; i++ {
					c.Sched = append(c.Sched, i)
				}
				yield(c)
				for i := 0; i < 2000; i++ {
					c.Nest = append(c.Nest, 1+i%7/6)
				}
				c.Sched = []int{0}
				yield(c)
			}
		}
	}
}

// ---------------------------------------------------------------- T06

// WFailCase is a history whose writer fails.
type WFailCase struct {
	Pool []PoolPkt `json:"pool"`
	Sys  Sys       `json:"sys"`
	At   []int     `json:"at,omitempty"` // further byte positions
}

// recorder knows the borders of the writes.
type recorder struct {
	got    []byte
	starts []int
}

func (r *recorder) Write(p []byte) (int, error) {
	r.starts = append(r.starts, len(r.got))
	r.got = append(r.got, p...)
	return len(p), nil
}

// faultWriter fails as its inner writer does, and counts that.
type faultWriter struct {
	w     io.Writer
	fails int
}

func (f *faultWriter) Write(p []byte) (int, error) {
	n, err := f.w.Write(p)
	if err != nil {
		f.fails++
	}
	return n, err
}

func checkT06(c WFailCase, o *Obs) error {
	if len(c.Pool) == 0 {
		return nil
	}
	rec := &recorder{}
	p := newPool(c.Pool)
	m := c.Sys.build(p, rec, nil, o)
	type step struct {
		err error
		end int
	}
	var full []step
	for _, op := range c.Sys.Ops {
		_, err := m.op(op)
		full = append(full, step{err, len(rec.got)})
	}
	total := len(rec.got)
	if total == 0 {
		return nil
	}
	o.Class(c.Sys.K)
	// once: the writer recovers behind the failure, what comes after that operation is not judged
	trial := func(what string, w io.Writer, got func() []byte, once bool) error {
		f := &faultWriter{w: w}
		p := newPool(c.Pool)
		m := c.Sys.build(p, f, nil, o)
		hit := false
		for i, op := range c.Sys.Ops {
			before := f.fails
			_, err := m.op(op)
			failed := f.fails > before
			if failed {
				hit = true
				if err == nil {
					return fmt.Errorf("%s: the writer failed in operation %d (%+v), which returns no error", what, i, op)
				}
				o.Class("fails in %s %s", c.Sys.K, op.K)
			} else if !hit && (err != nil) != (full[i].err != nil) {
				return fmt.Errorf("%s: operation %d (%+v) before the failure returns %v, without the failure %v", what, i, op, err, full[i].err)
			}
			if hit && err == nil && i > 0 && full[i].end > full[i-1].end {
				return fmt.Errorf("%s: operation %d (%+v) after the failure of the writer, which lasts, returns no error and writes nothing", what, i, op)
			}
			if hit && once {
				if g := got(); len(g) > total || !bytes.Equal(g, rec.got[:len(g)]) {
					return fmt.Errorf("%s: operation %d (%+v) goes on writing after the failure: %s", what, i, op, diffBytes(rec.got, g))
				}
				break
			}
			if g := got(); len(g) > total || !bytes.Equal(g, rec.got[:len(g)]) {
				return fmt.Errorf("%s: after operation %d (%+v) what was delivered is no prefix of the full output: %s", what, i, op, diffBytes(rec.got, g))
			}
		}
		if !hit {
			return fmt.Errorf("%s: the failure was never reached, though the full output has %d bytes", what, total)
		}
		return nil
	}
	// positions: all in small outputs, else around the borders of the writes
	pos := map[int]bool{}
	if total <= 300 {
		for i := 0; i < total; i++ {
			pos[i] = true
		}
	} else {
		for _, s := range rec.starts {
			if len(pos) < 400 {
				pos[s], pos[s+1] = true, true
				if s > 0 {
					pos[s-1] = true
				}
			}
		}
		pos[total-1] = true
	}
	for _, x := range c.At {
		pos[x%total] = true
	}
	n := 0
	for x := range pos {
		if x >= total {
			continue
		}
		n++
		for _, partial := range []bool{true, false} {
			w := &failWriter{limit: x, partial: partial, sticky: true}
			if err := trial(fmt.Sprintf("writer full after %d of %d bytes (partial %v)", x, total, partial), w, func() []byte { return w.got }, false); err != nil {
				return err
			}
		}
	}
	for k := 0; k < len(rec.starts) && k < 200; k++ {
		for _, once := range []bool{false, true} {
			w := &countFailWriter{k: k, once: once}
			if err := trial(fmt.Sprintf("write %d of %d fails (once %v)", k, len(rec.starts), once), w, func() []byte { return w.got }, once); err != nil {
				return err
			}
		}
	}
	if n > 1 {
		o.NonTrivial()
	}
	return nil
}

var writingKinds = []string{"flvmix", "tsmix", "tsmux", "parser", "h264", "aac"}

func genT06(t *rapid.T) WFailCase {
	c := WFailCase{Pool: genPool(t, intn(t, 2, 5))}
	c.Pool = append(c.Pool, PoolPkt{K: "vseq"}, PoolPkt{K: "aseq"})
	k := pick(t, writingKinds...)
	c.Sys = genSys(t, k, len(c.Pool), intn(t, 1, 5))
	if boolean(t) { // configured
		switch k {
		case "tsmix", "flvmix":
			c.Sys.Ops = append([]FOp{{K: "avc"}, {K: "aac"}, {K: "meta", N: intn(t, 0, 9)}}, c.Sys.Ops...)
		case "parser", "h264", "aac":
			n := len(c.Pool)
			c.Sys.Ops = append([]FOp{{K: "parse", P: n - 2}, {K: "parse", P: n - 1}}, c.Sys.Ops...)
		}
	}
	for i := intn(t, 0, 6); i > 0; i-- {
		c.At = append(c.At, spread(t, 0, 100000))
	}
	return c
}

func sweepT06(thorough bool, yield func(WFailCase)) {
	for _, k := range writingKinds {
		for off := 0; off < len(stdPool); off++ {
			c := WFailCase{Pool: stdPool, Sys: tour(k, off)}
			if len(c.Sys.Ops) > 9 {
				c.Sys.Ops = c.Sys.Ops[:9]
			}
			if k == "parser" || k == "h264" || k == "aac" {
				c.Sys.Ops = append([]FOp{{K: "parse", P: 1}, {K: "parse", P: 2}}, c.Sys.Ops...)
			}
			yield(c)
		}
		// every single operation behind its preparation
		for i := range stdPool {
			for _, op := range sysOps[k] {
				c := WFailCase{Pool: stdPool, Sys: Sys{K: k}}
				switch k {
				case "flvmix", "tsmix":
					c.Sys.Ops = []FOp{{K: "avc"}, {K: "aac"}, {K: "meta", N: 1}}
				case "parser", "h264", "aac":
					c.Sys.Ops = []FOp{{K: "parse", P: 1}, {K: "parse", P: 2}}
				}
				c.Sys.Ops = append(c.Sys.Ops, FOp{K: op, P: i, N: i})
				yield(c)
			}
		}
	}
}

func shrinkT07(c IsoCase) (out []IsoCase) {
	for i := range c.Sys {
		for _, ops := range fewerOps(c.Sys[i].Ops) {
			d := c
			d.Sys = append([]Sys{}, c.Sys...)
			d.Sys[i].Ops = ops
			out = append(out, d)
		}
	}
	if len(c.Sched) > 0 {
		d, e := c, c
		d.Sched, e.Sched = c.Sched[:len(c.Sched)/2], c.Sched[:len(c.Sched)-1]
		out = append(out, d, e)
	}
	if len(c.Nest) > 0 {
		d, e := c, c
		d.Nest, e.Nest = c.Nest[:len(c.Nest)/2], c.Nest[:len(c.Nest)-1]
		out = append(out, d, e)
	}
	for k := len(c.Pool) - 1; k > 0; k-- {
		d := c
		d.Pool = c.Pool[:k]
		out = append(out, d)
	}
	return out
}

func shrinkT06(c WFailCase) (out []WFailCase) {
	for _, ops := range fewerOps(c.Sys.Ops) {
		d := c
		d.Sys.Ops = ops
		out = append(out, d)
	}
	for k := len(c.Pool) - 1; k > 0; k-- {
		d := c
		d.Pool = c.Pool[:k]
		out = append(out, d)
	}
	return out
}

func init() {
	register(Spec[WFailCase]{ID: "T06", Quick: 10000, Thorough: 250000, Level: "fault_enumeration", Gen: genT06, Check: checkT06, Sweep: sweepT06, Shrink: shrinkT06,
		Technique: "property-based testing with enumerated writer failures: each history is first run in full, then with the writer failing at every position",
		Rule:      "histories of FLV and TS mixers, the TS muxer and the media parsers over pools of packets; the writer fails, for good or only once, after x bytes (storing the part that fits, or nothing of the failing write) for every x of outputs up to 300 bytes and around the borders of up to 130 writes otherwise, and at every one of the first 200 writes; non-trivial: at least two failure positions",
		Note:      "Operations in progress and later ones that write must return an error; earlier ones give what they gave without the failure; what was delivered is a prefix. Metadata objects have at most one member, since their order is not determined."})
	register(Spec[IsoCase]{ID: "T07", Quick: 120000, Thorough: 900000, Gen: genT07, Check: checkT07, Sweep: sweepT07, Shrink: shrinkT07,
		Technique: techRapid + "deep snapshots of shared packets, and a differential oracle: each instance alone against all instances interleaved and nested inside each other's writes and reads",
		Rule:      "2-3 instances (FLV/TS mixers, TS muxer, parsers, GOP cache, demultiplexer, AMF codecs, SIP parser) with histories of 1-8 operations over a shared pool of packets, under a drawn schedule with operations nested inside writes and reads; sweep: all pairs of kinds with every operation; non-trivial: two instances and at least three successful operations",
		Note:      "Snapshots include the spare capacity behind Data and Media. Nesting is deterministic; no goroutines are used (the race detector needs cgo, which this environment turns off). Returned slices and values are read only when their instance is used again."})
}
