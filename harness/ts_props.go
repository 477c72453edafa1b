package main

import (
	"bytes"
	"fmt"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
	"pgregory.net/rapid"
)

const (
	videoPID = 0x100
	audioPID = 0x101
)

// ---------------------------------------------------------------- T01

// MuxOp is one packet for the TS muxer.
type MuxOp struct {
	Audio bool  `json:"a,omitempty"`
	Frame int   `json:"f,omitempty"` // video frame type: 1 key, 2 inter, others
	Avc   int   `json:"avc,omitempty"`
	Media Blob  `json:"m"`
	DTS   int64 `json:"d"`
	PTS   int64 `json:"p"`
}

// MuxCase is a sequence of packets muxed by one muxer.
type MuxCase struct {
	Ops []MuxOp `json:"ops"`
	Own bool    `json:"own,omitempty"` // with headers of the harness instead of the demultiplexer's
}

func (op MuxOp) packet(own bool) *packet.Packet {
	p := &packet.Packet{Type: packet.PktVideo, Media: op.Media.Bytes()}
	if op.Audio {
		p.Type = packet.PktAudio
		p.Header = &ahdr{format: 10, aac: 1}
	} else {
		p.Header = &vhdr{frame: uint8(op.Frame), avc: uint8(op.Avc), codec: 7}
	}
	if own {
		return p
	}
	body := videoBody(byte(op.Frame), 7, byte(op.Avc), 0, nil)
	if op.Audio {
		body = audioBody(10, 15, 1, nil)
	}
	q, err := demuxed(p.Type, body)
	if err == nil {
		p.Header = q.Header
	}
	return p
}

const mask33 = 1<<33 - 1

// deviantKey is the exact first packet the library emits for a key frame that leaves room in its
// only packet: the stuffing is a second block behind the adaptation field (recorded finding).
func deviantKey(op MuxOp, cc int) []byte {
	hasDTS := op.PTS != op.DTS
	head := []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0x80, 5}
	stamp := func(prefix byte, v int64) []byte {
		v &= mask33
		return []byte{prefix<<4 | byte(v>>30)<<1 | 1, byte(v >> 22), byte(v>>15)<<1 | 1, byte(v >> 7), byte(v)<<1 | 1}
	}
	if hasDTS {
		head[7], head[8] = 0xc0, 10
		head = append(head, stamp(3, op.PTS)...)
		head = append(head, stamp(1, op.DTS)...)
	} else {
		head = append(head, stamp(2, op.PTS)...)
	}
	media := op.Media.Bytes()
	n := len(head) - 6 + len(media)
	head[4], head[5] = byte(n>>8), byte(n)
	base := op.DTS & mask33
	pkt := []byte{0x47, 0x41, 0x00, 0x30 | byte(cc), 7, 0x50, byte(base >> 25), byte(base >> 17), byte(base >> 9), byte(base >> 1), byte(base&1)<<7 | 0x7e, 0}
	room := 188 - len(pkt) - len(head) - len(media)
	if room <= 0 {
		return nil
	}
	pkt = append(pkt, byte(room-1))
	for i := 1; i < room; i++ {
		if i == 1 {
			pkt = append(pkt, 0)
		} else {
			pkt = append(pkt, 0xff)
		}
	}
	return append(append(pkt, head...), media...)
}

func strictUnit(out []byte, op MuxOp) error {
	pkts, err := parseTS(out)
	if err != nil {
		return err
	}
	pid, sid := videoPID, byte(0xe0)
	if op.Audio {
		pid, sid = audioPID, 0xc0
	}
	key := !op.Audio && op.Frame == 1
	for i, p := range pkts {
		if p.pid != pid {
			return fmt.Errorf("packet %d is on PID %#x, want %#x", i, p.pid, pid)
		}
		if p.start != (i == 0) {
			return fmt.Errorf("packet %d of %d has unit start %v", i, len(pkts), p.start)
		}
	}
	us, err := splitPES(pkts, false)
	if err != nil {
		return err
	}
	if len(us) != 1 {
		return fmt.Errorf("%d PES packets", len(us))
	}
	u := us[0]
	if u.sid != sid {
		return fmt.Errorf("stream id is %#x, want %#x", u.sid, sid)
	}
	if d := diffBytes(op.Media.Bytes(), u.data); d != "" {
		return fmt.Errorf("media: %s", d)
	}
	if u.first.pcr != key || u.first.random != key {
		return fmt.Errorf("key frame %v: clock reference %v, random access %v", key, u.first.pcr, u.first.random)
	}
	if key && (u.first.pcrBase != op.DTS&mask33 || u.first.pcrExt != 0) {
		return fmt.Errorf("clock reference is %d+%d, decode time is %d", u.first.pcrBase, u.first.pcrExt, op.DTS&mask33)
	}
	if u.pts != op.PTS&mask33 {
		return fmt.Errorf("presentation time is %d, want %d", u.pts, op.PTS&mask33)
	}
	if !op.Audio && u.dts != op.DTS&mask33 {
		return fmt.Errorf("decode time is %d, want %d", u.dts, op.DTS&mask33)
	}
	return nil
}

func checkT01(c MuxCase, o *Obs) error {
	m := ts.NewMuxer()
	for i, op := range c.Ops {
		if op.Audio {
			op.PTS = op.DTS
		}
		var out bytes.Buffer
		p := op.packet(c.Own)
		media := take(p.Media)
		p.Media = media
		if err := m.Mux(p, op.DTS, op.PTS, &out); err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		back(media)
		key := !op.Audio && op.Frame == 1
		n := op.Media.Len()
		o.ClassIf(op.Audio, "audio")
		o.ClassIf(!op.Audio && !key, "other video")
		o.ClassIf(key, "key frame")
		o.ClassIf(n == 0, "empty media")
		o.ClassIf(n > 0xffff, "longer than the length field")
		o.ClassIf(out.Len() > 188, "several packets")
		if out.Len() > 188 || n > 0 {
			o.NonTrivial()
		}
		if out.Len() == 0 {
			return fmt.Errorf("op %d: nothing was written", i)
		}
		if err := strictUnit(out.Bytes(), op); err != nil {
			err = fmt.Errorf("op %d (%d bytes, audio %v, key %v): %v", i, n, op.Audio, key, err)
			// the recorded deviation, to the byte; only the counter is taken from the packet
			if key && out.Len() == 188 {
				if want := deviantKey(op, int(out.Bytes()[3]&0xf)); want != nil && bytes.Equal(want, out.Bytes()) {
					if e := o.Known("T01-small-key-frame", "a key frame that fits in one transport packet is stuffed by a second block inside the payload instead of the adaptation field"); e != nil {
						return fmt.Errorf("%v; %v", e, err)
					}
					o.Class("small key frame")
					continue
				}
			}
			return err
		}
	}
	return nil
}

func genStamp(t *rapid.T) int64 {
	switch intn(t, 0, 3) {
	case 0:
		return pick(t, int64(0), 1, 1<<15-1, 1<<15, 1<<30-1, 1<<30, 1<<32, 1<<33-1, 1<<33, 1<<33+1, 4294967295*90, 1<<31)
	case 1:
		return int64(rapid.Uint32().Draw(t, "ts")) * 90
	default:
		return int64(spread(t, 0, 1<<34))
	}
}

func genMuxOp(t *rapid.T) MuxOp {
	op := MuxOp{Audio: chance(t, 35), Frame: pick(t, 1, 2, 1, 2, 3, 4, 5), Avc: pick(t, 1, 1, 1, 0, 2), DTS: genStamp(t)}
	op.PTS = op.DTS
	if boolean(t) {
		op.PTS += int64(pick(t, 1, 90, 3600, -90, -1, 90*8388607, -90*8388608, 1<<32, spread(t, -1<<30, 1<<30)))
	}
	if op.PTS == op.DTS+1<<33 {
		op.PTS++
	}
	head := 14
	if op.PTS != op.DTS && !op.Audio {
		head = 19
	}
	switch intn(t, 0, 3) {
	case 0: // around the packet limits
		k := intn(t, 0, 4)
		n := 184*(k+1) - head + intn(t, -12, 12)
		if !op.Audio && op.Frame == 1 && boolean(t) {
			n -= 8
		}
		op.Media = blobOfLen(t, max(n, 0))
	case 1:
		op.Media = genBlob(t, 40)
	default:
		op.Media = blobOfLen(t, spread(t, 0, 1500))
	}
	if chance(t, 3) {
		n := 65535 - (head - 6) + intn(t, -3, 3)
		if op.Audio {
			n = 65527 - intn(t, 0, 3)
		}
		op.Media = blobOfLen(t, n)
	}
	return op
}

func genT01(t *rapid.T) MuxCase {
	c := MuxCase{Own: boolean(t)}
	n := pick(t, 1, 1, 2, 3, 5)
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, genMuxOp(t))
	}
	return c
}

func sweepT01(thorough bool, yield func(MuxCase)) {
	top := 600
	if thorough {
		top = 4000
	}
	for n := 0; n <= top; n++ {
		for _, op := range []MuxOp{{Audio: true, DTS: 90}, {Frame: 1, Avc: 1, DTS: 900, PTS: 900}, {Frame: 1, Avc: 1, DTS: 900, PTS: 990}, {Frame: 2, Avc: 1, DTS: 1 << 33, PTS: 1 << 33}, {Frame: 2, Avc: 1, DTS: 900, PTS: 990}} {
			op.Media = Blob{N: n, Pat: n % 5}
			yield(MuxCase{Ops: []MuxOp{op}})
		}
	}
	// around the powers of two, of the media and of the PES packet
	for bit := uint(10); bit < 17; bit++ {
		for d := -24; d <= 3; d++ {
			n := 1<<bit + d
			if n <= 65527 {
				yield(MuxCase{Ops: []MuxOp{{Audio: true, DTS: 90, Media: Blob{N: n, Pat: 2}}}})
			}
			yield(MuxCase{Ops: []MuxOp{{Frame: 1, Avc: 1, DTS: 900, PTS: 990, Media: Blob{N: n, Pat: 3}}, {Frame: 2, Avc: 1, DTS: 1800, PTS: 1800, Media: Blob{N: n, Pat: 3}}}})
		}
	}
	for _, n := range []int{65505, 65506, 65507, 65510, 65511, 65512, 65513, 65514, 65515, 65516, 65517, 65518, 65519, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 65527, 65528, 65529, 65535, 65536, 65537, 131072, 1 << 20, 1<<20 + 200, 3 << 20, 5 << 20, 17 << 20} {
		for _, d := range []int64{0, 90} {
			yield(MuxCase{Ops: []MuxOp{{Frame: 1, Avc: 1, DTS: 5, PTS: 5 + d, Media: Blob{N: n}}}})
			yield(MuxCase{Ops: []MuxOp{{Frame: 2, Avc: 1, DTS: 5, PTS: 5 + d, Media: Blob{N: n}}}})
		}
		if n <= 65527 {
			yield(MuxCase{Ops: []MuxOp{{Audio: true, DTS: 5, Media: Blob{N: n}}}})
		}
	}
	for bit := 0; bit < 33; bit++ {
		v := int64(1) << uint(bit)
		yield(MuxCase{Ops: []MuxOp{{Frame: 1, Avc: 1, DTS: 77, PTS: 77 + v, Media: Blob{N: 200}}, {Frame: 2, Avc: 1, DTS: 77 + v, PTS: 77, Media: Blob{N: 200}}}})
	}
	for bit := 0; bit < 35; bit++ {
		v := int64(1) << uint(bit)
		yield(MuxCase{Ops: []MuxOp{{Frame: 1, Avc: 1, DTS: v, PTS: v, Media: Blob{N: 300}}, {Frame: 1, Avc: 1, DTS: v, PTS: v - 1, Media: Blob{N: 300}}, {Audio: true, DTS: v, Media: Blob{N: 300}}}})
	}
}

// ---------------------------------------------------------------- TS mixer histories (T02, T05)

// MixOp is one operation on a TS mixer or muxer.
type MixOp struct {
	K    string  `json:"k"` // video audio avc aac meta head sdt pat pmt bad writer
	TS   uint32  `json:"ts,omitempty"`
	CTS  int32   `json:"c,omitempty"`
	Key  bool    `json:"key,omitempty"`
	Len  Blob    `json:"b,omitempty"`
	Asc  *Asc    `json:"asc,omitempty"`
	Seq  *SeqHdr `json:"seq,omitempty"`
	N    int     `json:"n,omitempty"`
	Prov Str     `json:"pr,omitempty"`
	Serv Str     `json:"se,omitempty"`
	Base int64   `json:"base,omitempty"` // muxer only: added to the time stamps
}

// MixCase is a history.
type MixCase struct {
	Times int     `json:"times,omitempty"` // the whole history this many times
	Raw   bool    `json:"raw,omitempty"`   // muxer instead of mixer
	Ops   []MixOp `json:"ops"`
}

var stdSeq = SeqHdr{Len: 4, Sps: []Blob{{Head: Hex{1, 2}}}, Pps: []Blob{{Head: Hex{3}}}}
var stdAsc = Asc{Obj: 2, Idx: 4, Chan: 2}

func (op MixOp) avcBody() []byte {
	typ := byte(2)
	nal := byte(0x41)
	if op.Key {
		typ, nal = 1, 0x65
	}
	return videoBody(typ, 7, 1, op.CTS, avcc(4, append([]byte{nal}, op.Len.Bytes()...)))
}

func (op MixOp) seq() SeqHdr {
	if op.Seq != nil {
		return *op.Seq
	}
	return stdSeq
}

func (op MixOp) asc() Asc {
	if op.Asc != nil {
		return *op.Asc
	}
	return stdAsc
}

func badBody(n int) (typ int, body []byte) {
	switch n % 7 {
	case 0: // unit length beyond the end
		return packet.PktVideo, videoBody(2, 7, 1, 0, []byte{0, 0, 1, 0, 0x41, 1})
	case 1: // unsupported unit
		return packet.PktVideo, videoBody(1, 7, 1, 0, []byte{0, 0, 0, 2, 0x65, 1, 0, 0, 0, 2, 0x0c, 1})
	case 2: // other codec
		return packet.PktVideo, videoBody(1, 2, 1, 0, []byte{1, 2, 3})
	case 3: // too long for ADTS
		return packet.PktAudio, audioBody(10, 15, 1, make([]byte, 9000))
	case 4: // no such AAC packet type
		return packet.PktAudio, audioBody(10, 15, 7, []byte{1, 2})
	case 5: // broken sequence header
		return packet.PktVideo, videoBody(1, 7, 0, 0, []byte{1, 2, 3, 4, 0xff, 0xe1, 0, 90, 1})
	default: // empty access unit
		return packet.PktVideo, videoBody(1, 7, 1, 0, nil)
	}
}

func checkT02(c MixCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	var outs []*bytes.Buffer
	open := func() *bytes.Buffer {
		b := &bytes.Buffer{}
		outs = append(outs, b)
		return b
	}
	w := open()
	mixer := ts.NewMixer(w)
	muxer := ts.NewMuxer()
	hasAAC := false
	size := func() (n int) {
		for _, b := range outs {
			n += b.Len()
		}
		return n
	}
	for i, op := range c.Ops {
		var err error
		all, here := size(), w.Len()
		fail := func(what string) error { return fmt.Errorf("op %d (%s): %v", i, what, err) }
		o.Class("%v %s", map[bool]string{true: "muxer", false: "mixer"}[c.Raw], op.K)
		if c.Raw {
			switch op.K {
			case "video", "audio":
				mop := MuxOp{Audio: op.K == "audio", Frame: 2, Avc: 1, Media: op.Len}
				if op.Key {
					mop.Frame = 1
				}
				if err = muxer.Mux(mop.packet(true), op.Base+int64(op.TS)*90, op.Base+int64(op.TS)*90+int64(op.CTS)*90, w); err != nil {
					return fail(op.K)
				}
			case "sdt", "meta":
				w.Write(muxer.SDT(bytes.NewBuffer(nil)))
			case "pat":
				w.Write(muxer.PAT())
			case "pmt", "head":
				w.Write(muxer.PMT([][]int{{packet.PktVideo}, {packet.PktAudio}, {packet.PktVideo, packet.PktAudio}, {}}[op.N%4]...))
			case "bad":
				p := &packet.Packet{Type: packet.PktMetadata + op.N%5, Media: []byte{1}, Header: &vhdr{}}
				if op.N%5 > 2 { // video without a video header
					p.Type = packet.PktVideo
					p.Header = []packet.Header{&ahdr{}, nil}[op.N%5-3]
				}
				if err = muxer.Mux(p, 0, 0, w); err == nil {
					return fmt.Errorf("op %d: muxing type %d with a header of %T gives no error", i, p.Type, p.Header)
				}
			case "writer":
				w = open()
			}
			continue
		}
		switch op.K {
		case "video":
			p, e := demuxed(packet.PktVideo, op.avcBody())
			if err = e; err == nil {
				mixer.Update(p, op.TS, uint32(op.CTS))
				err = mixer.Mux(p)
				backPacket(p)
			}
			if err != nil {
				return fail("video")
			}
		case "audio":
			p, e := demuxed(packet.PktAudio, audioBody(10, 15, 1, append([]byte{1}, op.Len.Bytes()...)))
			if err = e; err == nil {
				mixer.Update(p, op.TS, 0)
				err = mixer.Mux(p)
				backPacket(p)
			}
			if (err == nil) != hasAAC {
				return fail(fmt.Sprintf("audio, configured %v", hasAAC))
			}
		case "avc":
			rec, _ := op.seq().bytes()
			p, e := demuxed(packet.PktVideo, videoBody(1, 7, 0, 0, rec))
			if err = e; err == nil {
				err = mixer.SaveAVCHeader(p)
				backPacket(p)
			}
			if err != nil {
				return fail("avc")
			}
		case "aac":
			p, e := demuxed(packet.PktAudio, audioBody(10, 15, 0, op.asc().bytes()))
			if err = e; err == nil {
				err = mixer.SaveAACHeader(p)
				backPacket(p)
			}
			if err != nil {
				return fail("aac")
			}
			hasAAC = true
		case "meta":
			if err = mixer.SaveMetadata(amf.Object{"Provider": string(op.Prov), "Service": string(op.Serv)}); (err == nil) != (len(op.Prov)+len(op.Serv) <= 158) {
				return fail("meta")
			}
		case "head", "sdt", "pat", "pmt":
			if err = mixer.SetTsHeader(); err != nil {
				return fail("head")
			}
		case "bad":
			typ, body := badBody(op.N)
			p, e := demuxed(typ, body)
			if e != nil {
				return fmt.Errorf("op %d: %v", i, e)
			}
			save := op.Key
			if save && typ == packet.PktVideo {
				err = mixer.SaveAVCHeader(p)
				backPacket(p)
			} else if save {
				err = mixer.SaveAACHeader(p)
				backPacket(p)
			} else {
				mixer.Update(p, op.TS, 0)
				err = mixer.Mux(p)
				backPacket(p)
			}
			if err == nil {
				return fmt.Errorf("op %d: a bad packet (%d) is accepted", i, op.N%7)
			}
		case "writer":
			w = open()
			mixer.SetWriter(w)
			continue
		}
		// everything goes to the writer set last, and saving sends nothing
		all, here = size()-all, w.Len()-here
		if all != here {
			return fmt.Errorf("op %d (%s): %d of %d bytes go to the writer set last", i, op.K, here, all)
		}
		sends := op.K == "video" || op.K == "audio" && hasAAC || op.K == "head" || op.K == "sdt" || op.K == "pat" || op.K == "pmt"
		if sends != (all > 0) {
			return fmt.Errorf("op %d (%s) sends %d bytes", i, op.K, all)
		}
	}
	last := map[int]int{}
	total := 0
	for k, b := range outs {
		if b.Len()%188 != 0 {
			return fmt.Errorf("output %d has %d bytes", k, b.Len())
		}
		var pkts []*tsPkt
		for i := 0; i < b.Len(); i += 188 {
			x := b.Bytes()[i : i+188]
			pkts = append(pkts, &tsPkt{pid: int(x[1]&0x1f)<<8 | int(x[2]), cc: int(x[3] & 0xf)})
		}
		total += len(pkts)
		if err := continuity(pkts, last); err != nil {
			return fmt.Errorf("output %d: %v", k, err)
		}
	}
	if total > len(last) {
		o.NonTrivial()
	}
	o.ClassIf(len(last) > 3, "four or more PIDs")
	o.ClassIf(total > 64, "more than 64 packets")
	return nil
}

func genMixOp(t *rapid.T) MixOp {
	op := MixOp{K: pick(t, "video", "audio", "video", "audio", "head", "avc", "aac", "meta", "bad", "pat", "pmt", "sdt", "writer"), TS: genTS(t), Key: boolean(t), N: intn(t, 0, 13)}
	switch op.K {
	case "video", "audio":
		op.CTS = int32(pick(t, 0, 0, 40, -40, 8388607, -8388608))
		op.Len = Blob{N: spread(t, 0, pick(t, 30, 400, 4000)), Pat: intn(t, 0, 9)}
		if chance(t, 25) {
			op.Base = pick(t, int64(-1), -90000, -1<<32, -1<<33, 1<<33, 1<<40, 1<<62, -1<<62)
		}
	case "meta":
		op.Prov = Str(genNameOf(t))
		op.Serv = Str(genNameOf(t))
	}
	return op
}

func genNameOf(t *rapid.T) string {
	if chance(t, 20) {
		return string(Blob{N: pick(t, 0, 60, 79, 80, 157, 158, 159, 200, 255, 256, 300), Pat: 4}.Bytes())
	}
	return string(genBytes(t, 20))
}

func genT02(t *rapid.T) MixCase {
	c := MixCase{Raw: boolean(t)}
	n := pick(t, 5, 10, 20, 40)
	for i := 0; i < n; i++ {
		if len(c.Ops) > 0 && chance(t, 20) {
			c.Ops = append(c.Ops, c.Ops[len(c.Ops)-1])
			continue
		}
		op := genMixOp(t)
		if !c.Raw && i == 0 {
			op = MixOp{K: "aac"}
		}
		c.Ops = append(c.Ops, op)
	}
	size := 0
	for _, op := range c.Ops {
		size += 400 + 2*op.Len.Len()
	}
	c.Times = genTimes(t, size)
	return c
}

func sweepT02(thorough bool, yield func(MixCase)) {
	for _, raw := range []bool{false, true} {
		for _, n := range []int{100, 260, 22000} {
			yield(MixCase{Raw: raw, Times: n, Ops: []MixOp{{K: "aac"}, {K: "avc"}, {K: "head"}, {K: "pat"}, {K: "pmt"}, {K: "sdt"}, {K: "audio", Len: Blob{N: 3}}, {K: "video", Key: true, Len: Blob{N: 200}}, {K: "meta"}, {K: "bad", N: 1}}})
		}
	}
	kinds := []string{"video", "audio", "avc", "aac", "meta", "head", "bad", "writer", "pat", "pmt", "sdt"}
	for _, raw := range []bool{false, true} {
		for _, a := range kinds {
			for _, b := range kinds {
				for _, m := range []int{0, 3, 5} {
					c := MixCase{Raw: raw, Ops: []MixOp{{K: "aac"}, {K: "avc"}}}
					for i := 0; i < 20; i++ {
						c.Ops = append(c.Ops, MixOp{K: a, TS: uint32(i), Key: i%3 == 0, N: i + m, Len: Blob{N: 100 * m}}, MixOp{K: b, TS: uint32(i), Key: i%2 == 0, N: m, Len: Blob{N: 10}})
					}
					yield(c)
				}
			}
		}
	}
	long := MixCase{}
	long.Ops = append(long.Ops, MixOp{K: "aac"})
	for i := 0; i < 600; i++ {
		long.Ops = append(long.Ops, MixOp{K: []string{"head", "video", "audio"}[i%3], TS: uint32(i * 10), Len: Blob{N: i}})
	}
	yield(long)
	long.Raw = true
	yield(long)
}

// ---------------------------------------------------------------- T03

// TableCase asks for tables.
type TableCase struct {
	Mode string   `json:"m"` // mixer muxer desc
	Prov Str      `json:"p,omitempty"`
	Serv Str      `json:"s,omitempty"`
	No   int      `json:"no,omitempty"` // bits: no provider, no service, provider of another type
	V    bool     `json:"v,omitempty"`
	A    bool     `json:"a,omitempty"`
	AV   bool     `json:"av,omitempty"` // audio announced first
	Reps int      `json:"r,omitempty"`
	Then []string `json:"then,omitempty"` // names saved afterwards
	Typ  int      `json:"t,omitempty"`
	Bad  int      `json:"b,omitempty"` // refused headers saved before (modulo 8) and after the others
}

func serviceDesc(typ byte, prov, serv string) []byte {
	d := []byte{0x48, byte(3 + len(prov) + len(serv)), typ, byte(len(prov))}
	d = append(d, prov...)
	d = append(d, byte(len(serv)))
	return append(d, serv...)
}

// checkTables verifies SDT, PAT and PMT packets.
func checkTables(b []byte, descs []byte, v, a, audioFirst bool, o *Obs) error {
	pkts, err := parseTS(b)
	if err != nil {
		return err
	}
	if len(pkts) != 3 {
		return fmt.Errorf("%d table packets, want SDT, PAT and PMT", len(pkts))
	}
	sdt, err := parseSDT(pkts[0])
	if err != nil {
		return fmt.Errorf("SDT: %v", err)
	}
	if d := diffBytes(descs, sdt.descs); d != "" {
		return fmt.Errorf("SDT descriptors: %s", d)
	}
	tsid, program, pmtPID, err := parsePAT(pkts[1])
	if err != nil {
		return fmt.Errorf("PAT: %v", err)
	}
	if tsid != sdt.tsid || program != sdt.service {
		return fmt.Errorf("SDT describes service %d of stream %d, PAT program %d of stream %d", sdt.service, sdt.tsid, program, tsid)
	}
	if program == 0 {
		return fmt.Errorf("PAT lists program 0")
	}
	if pkts[2].pid != pmtPID {
		return fmt.Errorf("PMT is on PID %#x, PAT says %#x", pkts[2].pid, pmtPID)
	}
	prog, pcrPID, streams, err := parsePMT(pkts[2])
	if err != nil {
		return fmt.Errorf("PMT: %v", err)
	}
	if prog != program {
		return fmt.Errorf("PMT describes program %d, PAT lists %d", prog, program)
	}
	want := map[pmtStream]bool{}
	if v {
		want[pmtStream{0x1b, videoPID}] = true
	}
	if a {
		want[pmtStream{0x0f, audioPID}] = true
	}
	if len(streams) != len(want) {
		return fmt.Errorf("PMT lists %v, want %v", streams, want)
	}
	for _, s := range streams {
		if !want[s] {
			return fmt.Errorf("PMT lists %v, want %v", streams, want)
		}
	}
	o.Class("video %v audio %v", v, a)
	switch {
	case v && pcrPID != videoPID:
		if a && pcrPID == audioPID && !audioFirst {
			return o.Known("T03-pcr-pid-av", "a PMT that announces video, then audio names the audio PID 0x101 as clock PID; only the video PID carries clock references")
		}
		return fmt.Errorf("PMT with video names clock PID %#x", pcrPID)
	case !v && a && pcrPID != 0x1fff:
		if pcrPID == audioPID {
			return o.Known("T03-pcr-pid-audio", "a PMT that announces only audio names clock PID 0x101, which carries no clock references")
		}
		return fmt.Errorf("PMT with audio only names clock PID %#x", pcrPID)
	}
	return nil
}

func checkT03(c TableCase, o *Obs) error {
	o.NonTrivial()
	prov, serv := string(c.Prov), string(c.Serv)
	o.Class(c.Mode)
	switch c.Mode {
	case "desc":
		d := table.NewDescriptor()
		fits := len(prov)+len(serv)+3 <= 255
		err := d.Service(byte(c.Typ), prov, serv)
		if (err == nil) != fits {
			return fmt.Errorf("service descriptor of %d and %d bytes: error %v", len(prov), len(serv), err)
		}
		var want []byte
		if fits {
			want = serviceDesc(byte(c.Typ), prov, serv)
		}
		if x := diffBytes(want, d.GetBuffer().Bytes()); x != "" {
			return fmt.Errorf("service descriptor: %s", x)
		}
		fits2 := len(prov) <= 255
		err = d.NetworkName(prov)
		if (err == nil) != fits2 {
			return fmt.Errorf("network name of %d bytes: error %v", len(prov), err)
		}
		if fits2 {
			want = append(append(want, 0x40, byte(len(prov))), prov...)
		}
		if x := diffBytes(want, d.GetBuffer().Bytes()); x != "" {
			return fmt.Errorf("service and network name descriptors: %s", x)
		}
		o.ClassIf(!fits, "too long")
		return nil
	case "muxer":
		m := ts.NewMuxer()
		for i := 0; i <= c.Reps; i++ {
			d := table.NewDescriptor()
			if len(prov)+len(serv) <= 158 {
				if err := d.Service(byte(c.Typ), prov, serv); err != nil {
					return fmt.Errorf("service descriptor: %v", err)
				}
			}
			want := append([]byte(nil), d.GetBuffer().Bytes()...)
			var kinds []int
			if c.V {
				kinds = append(kinds, packet.PktVideo)
			}
			if c.A {
				kinds = append(kinds, packet.PktAudio)
			}
			if c.AV && len(kinds) == 2 {
				kinds[0], kinds[1] = kinds[1], kinds[0]
			}
			var out bytes.Buffer
			out.Write(m.SDT(d.GetBuffer()))
			out.Write(m.PAT())
			out.Write(m.PMT(kinds...))
			if err := checkTables(out.Bytes(), want, c.V, c.A, c.AV, o); err != nil {
				return err
			}
			// shorter tables behind longer ones
			if i%2 == 0 {
				serv = serv[:len(serv)/2]
			} else {
				serv = string(c.Serv)
			}
		}
		return nil
	}
	// mixer
	var out bytes.Buffer
	m := ts.NewMixer(&out)
	var want []byte // the descriptors in force
	save := func(prov, serv string, no int) error {
		md := amf.Object{"Provider": prov, "Service": serv, "width": 5.0}
		p2, s2 := prov, serv
		if no&1 != 0 {
			delete(md, "Provider")
		}
		if no&2 != 0 {
			delete(md, "Service")
		}
		if no&4 != 0 {
			md["Provider"] = 17.5
		}
		if no&5 != 0 {
			p2 = "undefined"
		}
		if no&2 != 0 {
			s2 = "undefined"
		}
		err := m.SaveMetadata(md)
		fits := len(p2)+len(s2) <= 158
		if (err == nil) != fits {
			return fmt.Errorf("saving names of %d and %d bytes: error %v", len(p2), len(s2), err)
		}
		o.ClassIf(!fits, "too long")
		if !fits { // the names before stay in force
			return nil
		}
		o.ClassIf(no&7 != 0, "names missing")
		want = serviceDesc(1, p2, s2)
		return nil
	}
	if c.No&8 == 0 {
		if err := save(prov, serv, c.No); err != nil {
			return err
		}
	}
	tables := func() error {
		out.Reset()
		if err := m.SetTsHeader(); err != nil {
			return fmt.Errorf("emitting tables: %v", err)
		}
		return checkTables(out.Bytes(), want, c.V, c.A, false, o)
	}
	refused := func(no int) error {
		if no == 0 {
			return nil
		}
		typ, body := badBody(no)
		p, err := demuxed(typ, body)
		if err != nil {
			return err
		}
		what := "video"
		if typ == packet.PktVideo {
			err = m.SaveAVCHeader(p)
		} else {
			what = "audio"
			err = m.SaveAACHeader(p)
		}
		backPacket(p)
		if err == nil {
			return fmt.Errorf("a bad %s header (%d) is saved", what, no%7)
		}
		o.Class("refused %s header", what)
		return nil
	}
	if err := refused(c.Bad % 8); err != nil {
		return err
	}
	if c.V {
		rec, _ := stdSeq.bytes()
		p, err := demuxed(packet.PktVideo, videoBody(1, 7, 0, 0, rec))
		if err == nil {
			err = m.SaveAVCHeader(p)
		}
		if err != nil {
			return err
		}
		backPacket(p)
	}
	if c.A {
		p, err := demuxed(packet.PktAudio, audioBody(10, 15, 0, stdAsc.bytes()))
		if err == nil {
			err = m.SaveAACHeader(p)
		}
		if err != nil {
			return err
		}
		backPacket(p)
	}
	if err := refused(c.Bad / 8); err != nil {
		return err
	}
	for i := 0; i <= c.Reps; i++ {
		if err := tables(); err != nil {
			return err
		}
	}
	for _, s := range c.Then {
		if err := save(s, prov, 0); err != nil {
			return err
		}
		if err := tables(); err != nil {
			return err
		}
	}
	return nil
}

func genT03(t *rapid.T) TableCase {
	c := TableCase{Mode: pick(t, "mixer", "mixer", "muxer", "desc"), Prov: Str(genNameOf(t)), Serv: Str(genNameOf(t)), V: boolean(t), A: boolean(t), AV: boolean(t), Reps: intn(t, 0, 20), Typ: intn(t, 0, 255)}
	if chance(t, 25) {
		c.No = intn(t, 0, 15)
	}
	if chance(t, 30) {
		n := intn(t, 0, 158)
		c.Prov, c.Serv = Str(Blob{N: n, Pat: 4}.Bytes()), Str(Blob{N: max(0, 158-n+pick(t, -1, 0, 1)), Pat: 1}.Bytes())
		if c.Mode == "desc" {
			c.Serv = Str(Blob{N: max(0, 252-n+pick(t, -1, 0, 1)), Pat: 1}.Bytes())
		}
	}
	for n := intn(t, 0, 2); n > 0; n-- {
		x := string(genText(t))
		if chance(t, 20) {
			x = string(Blob{N: intn(t, 150, 170), Pat: 4}.Bytes())
		}
		c.Then = append(c.Then, x)
	}
	if chance(t, 30) {
		c.Bad = intn(t, 0, 63)
	}
	return c
}

func sweepT03(thorough bool, yield func(TableCase)) {
	for m := 0; m < 8; m++ {
		for _, mode := range []string{"mixer", "muxer"} {
			yield(TableCase{Mode: mode, Prov: "p", Serv: "service", V: m&1 != 0, A: m&2 != 0, AV: m&4 != 0, Reps: 20, Typ: 1})
			yield(TableCase{Mode: mode, V: m&1 != 0, A: m&2 != 0, AV: m&4 != 0, No: 8})
			for b := 1; b < 8; b++ {
				yield(TableCase{Mode: "mixer", V: m&1 != 0, A: m&2 != 0, Bad: b | b*8*(m>>2), Prov: "x", Then: []string{"y", string(Blob{N: 200}.Bytes())}})
			}
		}
	}
	for _, n := range edgeLens {
		a := Str(bytes.Repeat([]byte("a"), n))
		yield(TableCase{Mode: "mixer", Prov: a, V: true})
		yield(TableCase{Mode: "mixer", Serv: a, V: true})
		yield(TableCase{Mode: "mixer", Prov: a, Serv: a, V: true})
	}
	for n := 0; n <= 300; n++ {
		a := Str(bytes.Repeat([]byte("a"), n))
		yield(TableCase{Mode: "mixer", Prov: a, V: true})
		yield(TableCase{Mode: "mixer", Serv: a, V: true})
		yield(TableCase{Mode: "mixer", Prov: a[:n/2], Serv: a[n/2:], V: true, Then: []string{"x", ""}})
		yield(TableCase{Mode: "desc", Prov: a})
		yield(TableCase{Mode: "desc", Serv: a})
		if n <= 158 {
			yield(TableCase{Mode: "muxer", Prov: a[:n/3], Serv: a[n/3:], V: true, Typ: 1, Reps: 3})
		}
	}
}

// ---------------------------------------------------------------- T04

// CrcCase is a byte string.
type CrcCase struct {
	Data Blob `json:"d"`
}

func checkT04(c CrcCase, o *Obs) error {
	b := c.Data.Bytes()
	got, want := ts.GenerateCrc32(b), crcRef(b)
	if got != want {
		return fmt.Errorf("CRC of %d bytes is %08x, want %08x", len(b), got, want)
	}
	full := append(append([]byte{}, b...), byte(got>>24), byte(got>>16), byte(got>>8), byte(got))
	if r := ts.GenerateCrc32(full); r != 0 {
		return fmt.Errorf("CRC over the bytes and their CRC is %08x", r)
	}
	// the same buffer with other contents, a part of it, and the contents of before
	if n := len(b); n > 0 {
		at := (n*7 + 3) % n
		for _, i := range []int{at, n - 1, 0, n / 2} {
			b[i] ^= byte(1 + i%255)
			if got, want := ts.GenerateCrc32(b), crcRef(b); got != want {
				return fmt.Errorf("CRC of %d bytes in a buffer whose byte %d was changed is %08x, want %08x", n, i, got, want)
			}
		}
		for _, i := range []int{n / 2, 0, n - 1, at} {
			b[i] ^= byte(1 + i%255)
		}
		for _, p := range [][]byte{b[:at], b[at:], b} {
			if got, want := ts.GenerateCrc32(p), crcRef(p); got != want {
				return fmt.Errorf("CRC of %d bytes of a buffer used before is %08x, want %08x", len(p), got, want)
			}
		}
	}
	if len(b) > 0 {
		o.NonTrivial()
	}
	o.Class("length %s", sizeClass(len(b)))
	return nil
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 16:
		return "below 16"
	case n < 256:
		return "below 256"
	case n < 65536:
		return "below 64K"
	}
	return "64K and more"
}

func sweepT04(thorough bool, yield func(CrcCase)) {
	for i := 0; i < 256; i++ {
		yield(CrcCase{Blob{Head: Hex{byte(i)}}})
		yield(CrcCase{Blob{Head: Hex{0xff, 0xff, 0xff, 0xff, byte(i)}}})
		yield(CrcCase{Blob{Head: Hex{byte(i), 0, 0, 0, 0}}})
		for p := 0; p < 5; p++ {
			yield(CrcCase{Blob{N: i * 3, Pat: p}})
		}
	}
	yield(CrcCase{Blob{N: 1 << 20, Pat: 4}})
	if thorough {
		for i := 0; i < 65536; i++ {
			yield(CrcCase{Blob{Head: Hex{byte(i), byte(i >> 8)}}})
		}
	}
}

// ---------------------------------------------------------------- T05

// checkT05 runs a mixer history of video and audio with time stamps and compares with the model.
func checkT05(c MixCase, o *Obs) error {
	out := &bytes.Buffer{}
	m := ts.NewMixer(out)
	var clock audioClock
	last := map[int]int{}
	rate := 0 // of the last configuration
	ops := c.Ops
	for i := 0; i < len(ops); i++ {
		op := ops[i]
		out.Reset()
		switch op.K {
		case "run": // audio frames that are exactly on time
			if rate == 0 || op.N < 0 || op.N > 1<<17 {
				continue
			}
			all := append([]MixOp(nil), ops[:i+1]...)
			for k := int64(0); k < int64(op.N); k++ {
				all = append(all, MixOp{K: "audio", TS: uint32(int64(op.TS) + k*1024*1000/int64(rate))})
			}
			ops = append(all, ops[i+1:]...)
			o.ClassIf(op.N >= 1<<16, "more than 65536 frames")
			continue
		case "far": // the same, in numbers that are too many to judge one by one
			if rate == 0 || op.N < 0 || op.N > 1<<23 {
				continue
			}
			p, err := demuxed(packet.PktAudio, audioBody(10, 15, 1, []byte{1}))
			if err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			for k := int64(0); k < int64(op.N); k++ {
				now := op.TS + uint32(k*1024*1000/int64(rate))
				out.Reset()
				if err = m.Update(p, now, 0); err == nil {
					err = m.Mux(p)
				}
				if err != nil {
					return fmt.Errorf("op %d: frame %d: %v", i, k, err)
				}
				want, known := clock.next(int64(now)*90, rate)
				if k%1021 != 0 {
					continue
				}
				pkts, err := parseTS(out.Bytes())
				if err != nil {
					return fmt.Errorf("op %d: frame %d: %v", i, k, err)
				}
				us, err := splitPES(pkts, true)
				if err != nil || len(us) != 1 {
					return fmt.Errorf("op %d: frame %d: %d PES packets, %v", i, k, len(us), err)
				}
				if known && us[0].pts != want&mask33 {
					return fmt.Errorf("op %d: audio at %d ms, %d Hz: presentation time is %d, want %d (%d frames from %d)", i, now, rate, us[0].pts, want&mask33, clock.n, clock.base)
				}
			}
			backPacket(p)
			last = map[int]int{}
			o.ClassIf(op.N >= 1<<20, "more than 2^20 frames")
			continue
		case "aac":
			p, err := demuxed(packet.PktAudio, audioBody(10, 15, 0, op.asc().bytes()))
			if err == nil {
				err = m.SaveAACHeader(p)
				backPacket(p)
			}
			if err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			if rate != 0 && rate != op.asc().rate() {
				o.Class("rate change")
			}
			rate = op.asc().rate()
			continue
		case "writer": // the stream goes on elsewhere
			out = &bytes.Buffer{}
			m.SetWriter(out)
			o.Class("goes on at another writer")
			continue
		case "head":
			if err := m.SetTsHeader(); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			o.Class("tables in between")
			continue
		case "meta":
			m.SaveMetadata(amf.Object{"Provider": string(op.Prov), "Service": string(op.Serv)})
			continue
		case "avc":
			rec, _ := op.seq().bytes()
			p, err := demuxed(packet.PktVideo, videoBody(1, 7, 0, 0, rec))
			if err == nil {
				err = m.SaveAVCHeader(p)
				backPacket(p)
			}
			if err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			continue
		case "bad": // takes its place in time and is refused
			typ, body := badBody(op.N)
			if typ == packet.PktAudio && rate == 0 {
				continue // which rate counts then is left open
			}
			p, err := demuxed(typ, body)
			if err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			if typ == packet.PktAudio && op.Key { // a configuration
				err = m.SaveAACHeader(p)
			} else if typ == packet.PktAudio {
				m.Update(p, op.TS, 0)
				clock.next(int64(op.TS)*90, rate)
				err = m.Mux(p)
			} else {
				m.Update(p, op.TS, uint32(op.CTS))
				err = m.Mux(p)
			}
			backPacket(p)
			if err == nil {
				return fmt.Errorf("op %d: a bad packet (%d) is accepted", i, op.N%7)
			}
			o.Class("bad packet in between")
			continue
		case "video", "audio":
		default:
			continue
		}
		video := op.K == "video"
		body, typ := op.avcBody(), packet.PktVideo
		if !video {
			body, typ = audioBody(10, 15, 1, append([]byte{1}, op.Len.Bytes()...)), packet.PktAudio
		}
		p, err := demuxed(typ, body)
		if err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		var cts uint32
		if vh, ok := p.Header.(packet.VideoPacketHeader); ok && video {
			cts = uint32(vh.CompositionTime())
			if int32(cts) != op.CTS {
				return fmt.Errorf("op %d: composition time %d is demultiplexed as %d", i, op.CTS, int32(cts))
			}
		}
		err = m.Update(p, op.TS, cts)
		if !video && rate == 0 {
			if err == nil {
				return fmt.Errorf("op %d: the sample rate is not known yet, but updating the audio time gives no error", i)
			}
			continue
		}
		if err == nil {
			err = m.Mux(p)
			backPacket(p)
		}
		if err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		pkts, err := parseTS(out.Bytes())
		if err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		if err := continuity(pkts, last); err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		us, err := splitPES(pkts, true)
		if err != nil || len(us) != 1 {
			return fmt.Errorf("op %d: %d PES packets, %v", i, len(us), err)
		}
		u := us[0]
		in := int64(op.TS) * 90
		if video {
			pts := in + int64(op.CTS)*90
			if u.dts != in&mask33 || u.pts != pts&mask33 {
				return fmt.Errorf("op %d: video at %d ms, offset %d ms: decode time %d, presentation time %d, want %d and %d", i, op.TS, op.CTS, u.dts, u.pts, in&mask33, pts&mask33)
			}
			if u.hasDTS != (pts != in) {
				return fmt.Errorf("op %d: offset %d ms, separate decode time stamp: %v", i, op.CTS, u.hasDTS)
			}
			if op.Key && u.first.pcrBase != in&mask33 {
				return fmt.Errorf("op %d: clock reference %d, decode time %d", i, u.first.pcrBase, in&mask33)
			}
			o.ClassIf(op.CTS < 0, "negative offset")
			o.ClassIf(op.CTS != 0, "with decode time stamp")
			o.ClassIf(in > mask33 || pts > mask33, "wraps 33 bits")
			o.ClassIf(pts < 0, "before zero")
			continue
		}
		if u.hasDTS {
			return fmt.Errorf("op %d: audio with a separate decode time stamp", i)
		}
		// signed distance modulo 2^33
		d := (u.pts - in) & mask33
		if d > 1<<32 {
			d -= 1 << 33
		}
		if d < -900 || d > 900 {
			return fmt.Errorf("op %d: audio at %d ms (%d) has presentation time %d, %d away", i, op.TS, in&mask33, u.pts, d)
		}
		base := clock.base
		want, known := clock.next(in, rate)
		o.ClassIf(clock.base != base, "audio resynchronises")
		o.ClassIf(clock.base == base && known, "audio continues")
		if known && u.pts != want&mask33 {
			return fmt.Errorf("op %d: audio at %d ms, %d Hz: presentation time is %d, want %d (%d frames from %d)", i, op.TS, rate, u.pts, want&mask33, clock.n, clock.base)
		}
	}
	if len(c.Ops) > 1 {
		o.NonTrivial()
	}
	return nil
}

func genT05(t *rapid.T) MixCase {
	var c MixCase
	asc := genAsc(t)
	if !chance(t, 4) {
		c.Ops = append(c.Ops, MixOp{K: "aac", Asc: &asc})
	}
	now := genTS(t)
	if boolean(t) {
		now = 0
	}
	frac := int64(0) // position within the millisecond, in samples times 1000
	n := pick(t, 3, 10, 30, 60)
	jit := pick(t, 0, 0, 3, 9, 25)
	for i := 0; i < n; i++ {
		switch {
		case chance(t, 30):
			c.Ops = append(c.Ops, MixOp{K: "video", TS: now, Key: chance(t, 30), CTS: genCTS(t), Len: Blob{N: intn(t, 0, 300)}})
		case chance(t, 2):
			asc = genAsc(t)
			a := asc
			c.Ops = append(c.Ops, MixOp{K: "aac", Asc: &a})
		default:
			ts := int64(now)
			if jit > 0 {
				ts += int64(intn(t, -jit, jit))
			}
			if ts < 0 {
				ts = 0
			}
			c.Ops = append(c.Ops, MixOp{K: "audio", TS: uint32(ts), Len: Blob{N: intn(t, 0, 200)}})
			frac += 1024 * 1000
			now += uint32(frac / int64(asc.rate()))
			frac %= int64(asc.rate())
		}
		if chance(t, 8) {
			op := genMixOp(t)
			if op.K = pick(t, "writer", "head", "meta", "avc", "bad", "bad"); op.K == "bad" {
				op.TS = now
			}
			c.Ops = append(c.Ops, op)
		}
		if chance(t, 4) { // a jump
			switch intn(t, 0, 3) {
			case 0:
				now = genTS(t)
			case 1:
				now += uint32(pick(t, 9, 10, 11, 12, 100, 70000))
			case 2:
				now -= uint32(pick(t, 9, 10, 11, 12, 100, 70000))
			}
		}
	}
	return c
}

func genCTS(t *rapid.T) int32 {
	if boolean(t) {
		return int32(pick(t, 0, 0, 1, -1, 40, 80, -40, 8388607, -8388608, 255, 256, 65535, 65536, -256, -65536))
	}
	return int32(spread(t, -8388608, 8388607))
}

// longStream is a stream of audio frames that are exactly on time.
func longStream(idx int, start int64, n int) MixCase {
	a := Asc{Obj: 2, Idx: idx, Chan: 2}
	return MixCase{Ops: []MixOp{{K: "aac", Asc: &a}, {K: "run", TS: uint32(start), N: n}}}
}

func sweepT05(thorough bool, yield func(MixCase)) {
	// exact streams at every rate; the drift of rounding has to stay within the bound
	n := 400
	if thorough {
		n = 6000
	}
	for idx := 0; idx <= 12; idx++ {
		for _, start := range []int64{0, 5, 1234567, 1<<32 - 3000} {
			a := Asc{Obj: 2, Idx: idx, Chan: 2}
			c := MixCase{Ops: []MixOp{{K: "aac", Asc: &a}}}
			for i := 0; i < n; i++ {
				ts := start + int64(i)*1024*1000/int64(a.rate())
				if ts >= 1<<32 {
					break
				}
				c.Ops = append(c.Ops, MixOp{K: "audio", TS: uint32(ts)})
			}
			yield(c)
		}
		// long streams
		if idx == 3 || thorough {
			yield(longStream(idx, 0, 70000))
		}
		// past 2^31, 2^32 and 2^33 ticks from one synchronisation point
		if idx == 9 || idx == 3 || thorough {
			c, rate := longStream(idx, 0, 0), int64(Asc{Idx: idx}.rate())
			c.Ops[1] = MixOp{K: "far", N: 2300000}
			if idx == 9 {
				c.Ops[1].N = 1150000
			}
			if thorough {
				c.Ops[1].N = 1 << 22
			}
			for k := int64(0); k < 4; k++ {
				c.Ops = append(c.Ops, MixOp{K: "audio", TS: uint32((int64(c.Ops[1].N) + k) * 1024 * 1000 / rate)})
			}
			yield(c)
		}
		// the threshold: every distance from the predicted time
		for d := -13; d <= 13; d++ {
			a := Asc{Obj: 2, Idx: idx, Chan: 2}
			next := int64(5000) + 1024*1000/int64(a.rate())
			yield(MixCase{Ops: []MixOp{{K: "aac", Asc: &a}, {K: "audio", TS: 5000}, {K: "audio", TS: uint32(next + int64(d))}, {K: "audio", TS: uint32(next + 20)}, {K: "video", TS: uint32(next), Key: true}, {K: "audio", TS: uint32(next + 40 + int64(d))}}})
			yield(MixCase{Ops: []MixOp{{K: "aac", Asc: &a}, {K: "audio", TS: uint32(13 + d)}, {K: "audio", TS: uint32(26 + d)}}})
		}
	}
	for bit := 0; bit < 32; bit++ {
		yield(MixCase{Ops: []MixOp{{K: "video", TS: 1 << uint(bit), Key: true, Len: Blob{N: 300}}, {K: "video", TS: ^uint32(1 << uint(bit)), CTS: 1 << uint(bit%23)}, {K: "video", TS: 1<<32 - 1, CTS: -1 << uint(bit%24)}}})
	}
	for _, ts := range []uint32{95443717, 95443718, 95443716, 190887435, 190887436, 47721858, 47721859, 0} { // around 2^33/90
		for _, cts := range []int32{0, 1, -1, 8388607, -8388608, 40} {
			yield(MixCase{Ops: []MixOp{{K: "video", TS: ts, CTS: cts, Key: true}, {K: "video", TS: ts, CTS: cts, Len: Blob{N: 200}}, {K: "aac"}, {K: "audio", TS: ts}, {K: "audio", TS: ts + 23}}})
		}
	}
}

// ---------------------------------------------------------------- T08

// LiveOp is one tag of a live session.
type LiveOp struct {
	K     string  `json:"k"` // avc aac video audio head bad
	TS    uint32  `json:"ts,omitempty"`
	CTS   int32   `json:"c,omitempty"`
	Key   bool    `json:"key,omitempty"`
	Units []Unit  `json:"u,omitempty"`
	Annex bool    `json:"x,omitempty"` // units in Annex-B form already
	Pay   Blob    `json:"p,omitempty"`
	Seq   *SeqHdr `json:"seq,omitempty"`
	Asc   *Asc    `json:"asc,omitempty"`
	N     int     `json:"n,omitempty"` // which kind of damage
}

// LiveCase is a live session.
type LiveCase struct {
	Times int      `json:"times,omitempty"` // the whole history this many times
	Via   bool     `json:"via,omitempty"`   // the tags pass through a FLV file first
	Ops   []LiveOp `json:"ops"`
}

type accessUnit struct {
	data     []byte
	pts, dts int64
	loose    bool
	asc      Asc
	audio    bool
	key      bool
}

func checkT08(c LiveCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	// the tag bodies, and the model of what comes out
	type tag struct {
		typ  int
		ts   uint32
		body []byte
		hdr  bool
		head bool
		bad  bool
	}
	var tags []tag
	model := newAvcModel()
	var asc *Asc
	var clock audioClock
	var wantV, wantA []accessUnit
	for _, op := range c.Ops {
		switch op.K {
		case "head":
			tags = append(tags, tag{head: true})
		case "avc":
			s := stdSeq
			if op.Seq != nil {
				s = *op.Seq
			}
			rec, _ := model.header(s)
			tags = append(tags, tag{typ: packet.PktVideo, ts: op.TS, body: videoBody(1, 7, 0, 0, rec), hdr: true})
		case "aac":
			a := stdAsc
			if op.Asc != nil {
				a = *op.Asc
			}
			asc = &a
			tags = append(tags, tag{typ: packet.PktAudio, ts: op.TS, body: audioBody(10, 15, 0, a.bytes()), hdr: true})
		case "video":
			var us [][]byte
			for _, u := range op.Units {
				us = append(us, u.bytes())
			}
			if len(us) == 0 {
				us = [][]byte{{0x41}}
			}
			us = fitUnits(us, model.n)
			var pay, want []byte
			if op.Annex {
				pay = annexB(us...)
				want = pay
				o.Class("Annex-B input")
			} else {
				pay = avcc(model.n, us...)
				var err error
				if want, err = model.convert(us); err != nil {
					continue // not a unit of a live session
				}
			}
			ft := byte(2)
			if op.Key {
				ft = 1
			}
			tags = append(tags, tag{typ: packet.PktVideo, ts: op.TS, body: videoBody(ft, 7, 1, op.CTS, pay)})
			dts := int64(op.TS) * 90
			wantV = append(wantV, accessUnit{data: want, dts: dts & mask33, pts: (dts + int64(op.CTS)*90) & mask33, key: op.Key})
			o.Class("video tag, %d byte lengths", model.n)
		case "bad": // a tag that has to be rejected and to leave no trace
			typ, body := badBody(op.N)
			if len(op.Units) > 0 {
				var us [][]byte
				for _, u := range op.Units {
					us = append(us, u.bytes())
				}
				us = fitUnits(us, model.n)
				if _, err := model.convert(us); err != nil {
					continue
				}
				// good units, then one that reaches beyond the end
				body = avcc(model.n, us...)
				tail := make([]byte, model.n)
				tail[model.n-1] = byte(2 + op.N%100)
				typ, body = packet.PktVideo, videoBody(byte(1+op.N%2), 7, 1, op.CTS, append(append(body, tail...), 0x41))
			}
			tags = append(tags, tag{typ: typ, ts: op.TS, body: body, bad: true})
			o.Class("damaged tag")
		case "audio":
			if asc == nil {
				continue
			}
			pay := append([]byte{0x21}, op.Pay.Bytes()...)
			tags = append(tags, tag{typ: packet.PktAudio, ts: op.TS, body: audioBody(10, 15, 1, pay)})
			pts, known := clock.next(int64(op.TS)*90, asc.rate())
			wantA = append(wantA, accessUnit{data: pay, pts: pts & mask33, loose: !known, asc: *asc, audio: true})
			o.Class("audio tag")
		}
	}
	if len(wantV)+len(wantA) > 1 {
		o.NonTrivial()
	}
	o.ClassIf(len(wantV) > 0 && len(wantA) > 0, "both streams")

	// through a FLV file
	if c.Via {
		var file bytes.Buffer
		fm := flv.NewMixer(&file)
		if err := fm.SetFlvHeader(); err != nil {
			return fmt.Errorf("FLV header: %v", err)
		}
		for i, tg := range tags {
			if tg.head {
				continue
			}
			if err := fm.Mux(&packet.Packet{Type: tg.typ, Data: tg.body}, tg.ts); err != nil {
				return fmt.Errorf("FLV mux of tag %d: %v", i, err)
			}
		}
		_, b, err := readFlvHeader(file.Bytes())
		if err != nil {
			return err
		}
		for i, tg := range tags {
			if tg.head {
				continue
			}
			var it flvTagItem
			if it, b, err = readFlvTag(b); err != nil {
				return fmt.Errorf("FLV tag %d: %v", i, err)
			}
			tags[i].typ = map[byte]int{9: packet.PktVideo, 8: packet.PktAudio}[it.typ]
			tags[i].ts, tags[i].body = it.ts, it.data
		}
		o.Class("through a FLV file")
	}

	// to TS
	var out bytes.Buffer
	m := ts.NewMixer(&out)
	d := flv.NewDemuxer()
	for i, tg := range tags {
		if tg.head {
			if err := m.SetTsHeader(); err != nil {
				return fmt.Errorf("TS header: %v", err)
			}
			continue
		}
		p := takePacket(tg.typ, tg.body)
		p.TimeStamp = tg.ts
		if err := d.Demux(p); err != nil {
			return fmt.Errorf("tag %d: demux: %v", i, err)
		}
		var err error
		var cts uint32
		hdr := false
		switch h := p.Header.(type) {
		case interface{}:
			if tg.typ == packet.PktVideo {
				vh := h.(packet.VideoPacketHeader)
				cts, hdr = uint32(vh.CompositionTime()), vh.IsSeqHdr()
			} else {
				ah := h.(packet.AudioPacketHeader)
				hdr = ah.IsSoundAAC() && ah.IsAACSeqHdr()
			}
		}
		if tg.bad {
			sent := out.Len()
			switch {
			case hdr && tg.typ == packet.PktVideo:
				err = m.SaveAVCHeader(p)
			case hdr:
				err = m.SaveAACHeader(p)
			case tg.typ == packet.PktAudio: // without Update: it would take a step of the audio clock
				err = m.Mux(p)
			default:
				if err = m.Update(p, tg.ts, cts); err == nil {
					err = m.Mux(p)
				}
			}
			backPacket(p)
			if err == nil || out.Len() != sent {
				return fmt.Errorf("tag %d: the damaged tag gives error %v and %d bytes", i, err, out.Len()-sent)
			}
			continue
		}
		if hdr != tg.hdr {
			return fmt.Errorf("tag %d: sequence header %v is recognised as %v", i, tg.hdr, hdr)
		}
		switch {
		case hdr && tg.typ == packet.PktVideo:
			err = m.SaveAVCHeader(p)
		case hdr:
			err = m.SaveAACHeader(p)
		default:
			if err = m.Update(p, tg.ts, cts); err == nil {
				err = m.Mux(p)
			}
		}
		if err != nil {
			return fmt.Errorf("tag %d: %v", i, err)
		}
		backPacket(p)
	}
	pkts, err := parseTS(out.Bytes())
	if err != nil {
		return err
	}
	if err := continuity(pkts, map[int]int{}); err != nil {
		return err
	}
	pids := byPID(pkts)
	for pid := range pids {
		switch pid {
		case videoPID, audioPID, 0, 0x11, 0x1001:
		default:
			return fmt.Errorf("packets on PID %#x", pid)
		}
	}
	for _, st := range []struct {
		name string
		pid  int
		want []accessUnit
	}{{"video", videoPID, wantV}, {"audio", audioPID, wantA}} {
		us, err := splitPES(pids[st.pid], true)
		if err != nil {
			return fmt.Errorf("%s: %v", st.name, err)
		}
		if len(us) != len(st.want) {
			return fmt.Errorf("%s: %d access units, want %d", st.name, len(us), len(st.want))
		}
		for i, u := range us {
			w := st.want[i]
			if w.audio {
				if err := checkADTS(u.data, w.asc, w.data); err != nil {
					return fmt.Errorf("audio unit %d: %v", i, err)
				}
			} else if d := diffBytes(w.data, u.data); d != "" {
				return fmt.Errorf("video unit %d: %s", i, d)
			}
			if w.loose {
				continue
			}
			if u.pts != w.pts || (!w.audio && u.dts != w.dts) {
				return fmt.Errorf("%s unit %d: times %d/%d, want %d/%d", st.name, i, u.pts, u.dts, w.pts, w.dts)
			}
			if !w.audio && (u.first.pcr != w.key || u.first.random != w.key) {
				return fmt.Errorf("video unit %d: key frame %v, clock reference %v", i, w.key, u.first.pcr)
			}
		}
	}
	return nil
}

// fitUnits shortens units to what a length field of n bytes can say, and keeps AVCC data from
// looking like an Annex-B start code.
func fitUnits(us [][]byte, n int) [][]byte {
	out := make([][]byte, len(us))
	for i, u := range us {
		if n < 4 && len(u) > 1<<uint(8*n)-1 {
			u = u[:1<<uint(8*n)-1]
		}
		out[i] = u
	}
	if n == 4 && len(out) > 0 && len(out[0]) == 1 {
		out[0] = append(append([]byte{}, out[0]...), 0x80)
	}
	return out
}

func genT08(t *rapid.T) LiveCase {
	c := LiveCase{Via: chance(t, 40)}
	s, a := genSeqHdr(t, false), genAsc(t)
	c.Ops = append(c.Ops, LiveOp{K: "avc", Seq: &s}, LiveOp{K: "aac", Asc: &a}, LiveOp{K: "head"})
	if chance(t, 20) {
		c.Ops = c.Ops[intn(t, 0, 2):]
	}
	now := pick(t, uint32(0), 0, 1000, 1<<32-500, 95443000, 16777000)
	n := pick(t, 2, 6, 20, 40)
	for i := 0; i < n; i++ {
		switch {
		case chance(t, 45):
			op := LiveOp{K: "video", TS: now, CTS: genCTS(t), Annex: chance(t, 8)}
			op.Key = chance(t, 30)
			k := pick(t, 1, 1, 2, 3)
			for j := 0; j < k; j++ {
				u := genUnit(t, true, 120)
				if chance(t, 3) {
					u.Pay = blobOfLen(t, pick(t, 65525, 65535, 66000, 70000, 1000))
				}
				op.Units = append(op.Units, u)
			}
			if op.Key && boolean(t) {
				op.Units[len(op.Units)-1].T = 5
			}
			c.Ops = append(c.Ops, op)
		case chance(t, 90):
			op := LiveOp{K: "audio", TS: now, Pay: genBlob(t, 300)}
			if chance(t, 3) {
				op.Pay = blobOfLen(t, pick(t, 8183, 8182, 2000))
			}
			c.Ops = append(c.Ops, op)
			now += 23
		default:
			switch intn(t, 0, 3) {
			case 3:
				op := LiveOp{K: "bad", TS: now, N: intn(t, 0, 300), CTS: genCTS(t)}
				for j := pick(t, 0, 1, 1, 2); j > 0; j-- {
					op.Units = append(op.Units, genUnit(t, true, 120))
				}
				c.Ops = append(c.Ops, op)
			case 0:
				s := genSeqHdr(t, false)
				c.Ops = append(c.Ops, LiveOp{K: "avc", TS: now, Seq: &s})
			case 1:
				a := genAsc(t)
				c.Ops = append(c.Ops, LiveOp{K: "aac", TS: now, Asc: &a})
			case 2:
				c.Ops = append(c.Ops, LiveOp{K: "head"})
			}
		}
		if chance(t, 40) {
			now += uint32(intn(t, 0, 45))
		}
	}
	size := 0
	for _, op := range c.Ops {
		size += 400 + 3*op.Pay.Len()
		for _, u := range op.Units {
			size += 3 * u.Pay.Len()
		}
	}
	c.Times = genTimes(t, size)
	return c
}

func sweepT08(thorough bool, yield func(LiveCase)) {
	// many tags
	for _, n := range []int{300, 7000} {
		s := SeqHdr{Len: 2, Sps: []Blob{{Head: Hex{4}}}, Pps: []Blob{{Head: Hex{5, 2}}, {Head: Hex{9}}}}
		yield(LiveCase{Via: n == 300, Times: n, Ops: []LiveOp{{K: "avc"}, {K: "aac"}, {K: "head"}, {K: "video", Key: true, TS: 40, Units: []Unit{{T: 5, Pay: Blob{N: 2}}}}, {K: "audio", TS: 41, Pay: Blob{N: 3}}, {K: "avc", Seq: &s}, {K: "bad", N: n % 7}, {K: "video", TS: 80, CTS: 40, Units: []Unit{{T: 1, Pay: Blob{N: 2}}, {T: 6}}}, {K: "audio", TS: 64, Pay: Blob{N: 30}}, {K: "video", TS: 120, Key: true, Units: []Unit{{T: 5, Pay: Blob{N: 300}}}}}})
	}
	// long sessions at every sampling rate
	for idx := 0; idx <= 12; idx++ {
		a := Asc{Obj: 2, Idx: idx, Chan: 2}
		c := LiveCase{Via: idx%2 == 0, Ops: []LiveOp{{K: "avc"}, {K: "aac", Asc: &a}, {K: "head"}}}
		for i := 0; i < 300; i++ {
			c.Ops = append(c.Ops, LiveOp{K: "audio", TS: uint32(int64(i) * 1024000 / int64(a.rate())), Pay: Blob{N: i % 190, Pat: i}})
			if i%3 == 0 {
				c.Ops = append(c.Ops, LiveOp{K: "video", TS: uint32(i * 40), CTS: int32(i%5) * 40, Key: i%30 == 0, Units: []Unit{{T: []int{5, 1}[min(i%30, 1)], R: 3, Pay: Blob{N: i * 7, Pat: i}}}})
			}
			if i%100 == 50 {
				s := SeqHdr{Len: 1 + i%4, Sps: []Blob{{Head: Hex{byte(i)}}}, Pps: []Blob{{Head: Hex{byte(i), 2}}, {Head: Hex{9}}}}
				c.Ops = append(c.Ops, LiveOp{K: "avc", Seq: &s}, LiveOp{K: "head"})
			}
			if i%50 == 20 {
				c.Ops = append(c.Ops, LiveOp{K: "bad", N: i / 50}, LiveOp{K: "bad", N: i / 7, Units: []Unit{{T: 5, Pay: Blob{N: i}}}})
			}
		}
		yield(c)
	}
}

func init() {
	register(Spec[MuxCase]{ID: "T01", Quick: 240000, Thorough: 2500000, Gen: genT01, Check: checkT01, Sweep: sweepT01,
		Technique: techRapid + "a strict transport stream and PES demultiplexer; all small sizes enumerated",
		Rule:      "1-5 packets on one muxer: audio, key, inter and other video, sizes around all packet and length field limits, 33 bit times; sweep: every media size to 600 (thorough 4000) for each kind, sizes around 65535, every time stamp bit; non-trivial: at least one media byte",
		Note:      "The demultiplexer rejects everything the standard forbids or the library has no reason to send (discontinuity, scrambling, other flags). Audio PES packets above 65535 bytes are not drawn: their length cannot be expressed. Recorded finding: stuffing of key frames that fit in one packet (matched to the byte)."})
	register(Spec[MixCase]{ID: "T02", Quick: 150000, Thorough: 1000000, Gen: genT02, Check: checkT02, Sweep: sweepT02,
		Technique: techRapid + "an invariant over the packets of a history (stateful generation)",
		Rule:      "histories of up to 40 operations on a mixer or a muxer: audio, video, tables, saving headers and metadata, bad packets, changing the writer; sweep: every pair of operations alternating 20 times; non-trivial: some PID is used twice",
		Note:      "Writer failures are not part of these histories: the packet whose write failed has used up its counter."})
	register(Spec[TableCase]{ID: "T03", Quick: 200000, Thorough: 1500000, Gen: genT03, Check: checkT03, Sweep: sweepT03,
		Technique: techRapid + "a strict section parser for SDT, PAT and PMT with its own CRC",
		Rule:      "provider and service names of every length to 300 and arbitrary bytes, every set of streams in both orders, repeated tables, names saved later; non-trivial: all",
		Note:      "Recorded findings: the clock PID of programs with audio. Names that stand in for missing ones are not judged."})
	register(Spec[CrcCase]{ID: "T04", Quick: 360000, Thorough: 3000000, Check: checkT04, Sweep: sweepT04,
		Gen:       func(t *rapid.T) CrcCase { return CrcCase{genBlob(t, pick(t, 8, 40, 300))} },
		Technique: techRapid + "a bitwise CRC-32/MPEG-2 (differential) and its residue",
		Rule:      "byte strings; sweep: every byte value in three contexts, which uses every table entry, and lengths to 765 in five patterns (thorough: all two byte strings); non-trivial: not empty",
		Note:      "The reference computes the CRC bit by bit from the polynomial."})
	register(Spec[MixCase]{ID: "T05", Quick: 150000, Thorough: 800000, Gen: genT05, Check: checkT05, Sweep: sweepT05,
		Technique: techRapid + "a model of the audio clock and the video time stamps, read back by a strict PES parser",
		Rule:      "histories of up to 60 audio and video packets with jitter, jumps, wrap-around and rate changes; sweep: long exact streams at all 13 rates, every distance around the 10 ms threshold, every time stamp bit, times around 2^33/90; non-trivial: at least two operations",
		Note:      "Spacing is floor(90000*1024/rate) ticks, as the existing tests fix it. After a rate change only the 10 ms bound is judged until the next jump of over a minute. MP3 is not drawn: its data is not written to TS."})
	register(Spec[LiveCase]{ID: "T08", Quick: 60000, Thorough: 600000, Gen: genT08, Check: checkT08, Sweep: sweepT08,
		Technique: techRapid + "an end-to-end model (AVCC to Annex-B, ADTS, time stamps) behind a strict demultiplexer",
		Rule:      "sessions of up to 40 tags with changing sequence headers and damaged tags, all unit length sizes, access units of several units, optionally through a FLV file; sweep: 400 tags at each of the 13 rates; non-trivial: at least two media tags",
		Note:      "The session uses the documented calls: demultiplex, SaveAVCHeader/SaveAACHeader for sequence headers, Update and Mux for the rest."})
}
