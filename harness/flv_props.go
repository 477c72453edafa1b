package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- F01

// FlvOp is one operation on a FLV mixer.
type FlvOp struct {
	K    string `json:"k"`           // meta avc aac head mux writer bad badsave
	T    int    `json:"t,omitempty"` // packet type of mux
	TS   uint32 `json:"ts,omitempty"`
	PTS  uint32 `json:"pts,omitempty"`
	Body Blob   `json:"b,omitempty"`
	Head int    `json:"h,omitempty"` // form of the @setDataFrame header of a muxed metadata packet, 0: none, over 3: twice
	Obj  *Val   `json:"o,omitempty"`
}

// FlvCase is a history on one FLV mixer.
type FlvCase struct {
	Times int     `json:"times,omitempty"` // the whole history this many times
	Ops   []FlvOp `json:"ops"`
}

// metaMsg is an AMF0 message that starts with a string.
func metaMsg(name string, rest []byte) []byte {
	var w wire
	w.b(2)
	w.utf8(name)
	w.Write(rest)
	return w.Bytes()
}

// packet of a mux operation and the data its tag has to carry.
func (op FlvOp) packet() (p *packet.Packet, want []byte) {
	p = &packet.Packet{Type: op.T, TimeStamp: op.TS, StreamID: op.TS ^ 5, Baseline: op.PTS / 3}
	want = op.Body.Bytes()
	p.Data = append([]byte{}, want...)
	if op.T == packet.PktMetadata {
		want = metaMsg("onMetaData", want)
		p.Data = append([]byte{}, want...)
		if op.Head > 0 {
			if op.Head > 3 { // one header is taken off, what follows is the message
				want = append(headBytes("@setDataFrame", op.Head%3), want...)
			}
			p.Data = append(headBytes("@setDataFrame", (op.Head-1)%3), want...)
		}
	}
	p.Data = take(p.Data)
	return p, want
}

type flvWant struct {
	head  bool
	flags byte
	typ   byte
	ts    uint32
	data  []byte
	meta  *Exp // object of a saved metadata tag
}

func checkFlvStream(b []byte, want []flvWant) error {
	var err error
	for i, w := range want {
		if w.head {
			var flags byte
			if flags, b, err = readFlvHeader(b); err != nil {
				return fmt.Errorf("item %d (file header): %v", i, err)
			}
			if flags != w.flags {
				return fmt.Errorf("item %d: file header flags are %#x, want %#x", i, flags, w.flags)
			}
			continue
		}
		var t flvTagItem
		if t, b, err = readFlvTag(b); err != nil {
			return fmt.Errorf("item %d (tag): %v", i, err)
		}
		if t.typ != w.typ {
			return fmt.Errorf("item %d: tag type is %d, want %d", i, t.typ, w.typ)
		}
		if t.ts != w.ts {
			return fmt.Errorf("item %d: tag time is %d, want %d", i, t.ts, w.ts)
		}
		if w.meta != nil {
			r := bytes.NewReader(t.data)
			vs, err := amf.NewEnDecAMF0().DecodeBatch(r)
			if err != nil {
				return fmt.Errorf("item %d: metadata does not decode: %v", i, err)
			}
			if err := matchAll([]*Exp{{K: "str", S: "onMetaData"}, w.meta}, vs); err != nil {
				return fmt.Errorf("item %d: metadata: %v", i, err)
			}
			continue
		}
		if d := diffBytes(w.data, t.data); d != "" {
			return fmt.Errorf("item %d: tag data: %s", i, d)
		}
	}
	if len(b) > 0 {
		return fmt.Errorf("%d bytes behind the last tag", len(b))
	}
	return nil
}

func checkF01(c FlvCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	var outs []*bytes.Buffer
	var wants [][]flvWant
	open := func() *bytes.Buffer {
		b := &bytes.Buffer{}
		outs = append(outs, b)
		wants = append(wants, nil)
		return b
	}
	m := flv.NewMixer(open())
	var flags byte
	var meta *flvWant
	var avc, aac *flvWant
	emit := func(w flvWant) { wants[len(wants)-1] = append(wants[len(wants)-1], w) }
	muxed, heads := 0, 0
	for i, op := range c.Ops {
		switch op.K {
		case "meta":
			obj := Val{K: "obj"}
			if op.Obj != nil {
				obj = *op.Obj
			}
			md := goObj(obj)
			if err := m.SaveMetadata(md); err != nil {
				return fmt.Errorf("op %d: saving metadata: %v", i, err)
			}
			for k := range md { // what was saved is what it was when it was saved
				md[k] = "changed"
			}
			meta = &flvWant{typ: 18, meta: exp0(obj)}
			o.Class("saves metadata")
		case "bigmeta": // 0xffffe6 is the longest string that fits a tag
			str := strings.Repeat("m", op.Body.N)
			err := m.SaveMetadata(amf.Object{"s": str})
			if (err == nil) != (len(str) <= 0xffffe6) {
				return fmt.Errorf("op %d: saving metadata with a string of %d bytes: %v", i, len(str), err)
			}
			if err == nil {
				meta = &flvWant{typ: 18, meta: &Exp{K: "obj", Keys: []string{"s"}, Vals: []*Exp{{K: "str", S: str}}}}
			} else {
				o.Class("refused save")
			}
		case "avc", "aac":
			op.T = packet.PktVideo
			if op.K == "aac" {
				op.T = packet.PktAudio
			}
			p, want := op.packet()
			var err error
			if op.K == "avc" {
				err = m.SaveAVCHeader(p)
			} else {
				err = m.SaveAACHeader(p)
			}
			if len(want) > 0xffffff {
				o.Class("refused save")
				if err == nil {
					return fmt.Errorf("op %d: a sequence header of %d bytes is accepted", i, len(want))
				}
				continue
			}
			if op.K == "avc" {
				flags |= 1
				avc = &flvWant{typ: 9, data: want}
			} else {
				flags |= 4
				aac = &flvWant{typ: 8, data: want}
			}
			if err != nil {
				return fmt.Errorf("op %d: saving a sequence header: %v", i, err)
			}
			back(p.Data)
			o.Class("saves " + op.K)
		case "head":
			heads++
			if err := m.SetFlvHeader(); err != nil {
				return fmt.Errorf("op %d: emitting headers: %v", i, err)
			}
			emit(flvWant{head: true, flags: flags})
			for _, w := range []*flvWant{meta, avc, aac} {
				if w != nil {
					emit(*w)
				}
			}
			o.Class("file header flags %d", flags)
		case "writer":
			m.SetWriter(open())
			o.Class("changes the writer")
		case "mux":
			p, want := op.packet()
			err := m.Mux(p, op.PTS)
			back(p.Data)
			if len(want) > 0xffffff {
				o.Class("data too long")
				if err == nil {
					return fmt.Errorf("op %d: %d bytes of data are accepted", i, len(want))
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("op %d: muxing type %d with %d bytes: %v", i, op.T, len(want), err)
			}
			muxed++
			emit(flvWant{typ: map[int]byte{packet.PktVideo: 9, packet.PktAudio: 8, packet.PktMetadata: 18}[op.T], ts: op.PTS, data: want})
			o.Class("mux type %d", op.T)
			o.ClassIf(op.PTS > 0xffffff, "time above 24 bits")
			o.ClassIf(op.T == packet.PktMetadata && op.Head > 0, "metadata with header")
			o.ClassIf(len(want) == 0, "empty data")
			o.ClassIf(len(want) > 0xffff, "data above 16 bits")
		case "bad":
			p := &packet.Packet{Type: 3 + op.T, Data: op.Body.Bytes()}
			if op.T == 0 {
				p = &packet.Packet{Type: packet.PktMetadata, Data: append([]byte{5}, op.Body.Bytes()...)}
			}
			if err := m.Mux(p, op.PTS); err == nil {
				return fmt.Errorf("op %d: a packet that cannot be muxed is accepted", i)
			}
			o.Class("refused packet")
		case "badsave":
			// a refused save leaves what was saved before
			p := &packet.Packet{Type: 3 + op.T, Data: op.Body.Bytes()}
			var err error
			switch op.T % 3 {
			case 0:
				obj := map[int]amf.Object{0: {"a": make(chan int)}, 3: {"": 1}, 6: {"x": amf.Object{"y": struct{}{}}}, 9: goVal(Val{K: "cycle"}).(amf.Object)}[op.T]
				if obj == nil {
					obj = amf.Object{"f": func() {}}
				}
				err = m.SaveMetadata(obj)
			case 1:
				err = m.SaveAVCHeader(p)
			case 2:
				err = m.SaveAACHeader(p)
			}
			if err == nil {
				return fmt.Errorf("op %d: %d: saving what cannot be written is accepted", i, op.T)
			}
			o.Class("refused save")
		}
	}
	if muxed > 1 || (heads > 0 && len(c.Ops) > 1) {
		o.NonTrivial()
	}
	for k := range outs {
		if err := checkFlvStream(outs[k].Bytes(), wants[k]); err != nil {
			return fmt.Errorf("output %d: %v", k, err)
		}
	}
	return nil
}

func genTS(t *rapid.T) uint32 {
	switch intn(t, 0, 4) {
	case 0:
		return pick(t, uint32(0), 1, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x00ff00ff, 0x12345678)
	case 1:
		return rapid.Uint32().Draw(t, "ts")
	case 2:
		return uint32(spread(t, 0, 1<<32-1))
	default:
		return uint32(intn(t, 0, 100000))
	}
}

// metaVal is an object for SaveMetadata.
func metaVal(t *rapid.T) *Val {
	v := Val{K: "obj"}
	genMembers(t, &v, 1, false)
	return &v
}

func genFlvOp(t *rapid.T) FlvOp {
	op := FlvOp{K: pick(t, "mux", "mux", "mux", "mux", "head", "meta", "avc", "aac", "writer", "bad", "badsave")}
	if op.K == "writer" && boolean(t) {
		op.K = "mux"
	}
	switch op.K {
	case "meta":
		op.Obj = metaVal(t)
	case "avc", "aac":
		op.TS = genTS(t)
		op.Body = genBlob(t, 60)
	case "mux":
		op.T = pick(t, packet.PktVideo, packet.PktAudio, packet.PktVideo, packet.PktAudio, packet.PktMetadata)
		op.TS, op.PTS = genTS(t), genTS(t)
		op.Body = genBlob(t, pick(t, 40, 40, 300))
		if chance(t, 3) {
			op.Body = blobOfLen(t, pick(t, 0, 0xff, 0x100, 0xfff, 0xffff, 0x10000, 0x10001, 70000))
		}
		op.Head = pick(t, 0, 1, 2, 3, 0, 1, 2, 3, intn(t, 4, 9))
	case "bad":
		op.T = intn(t, 0, 3)
		op.Body = genBlob(t, 10)
	case "badsave":
		op.T = intn(t, 0, 9)
		op.Body = genBlob(t, 10)
	}
	return op
}

func genF01(t *rapid.T) FlvCase {
	var c FlvCase
	n := intn(t, 1, 12)
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, genFlvOp(t))
	}
	size := 0
	for _, op := range c.Ops {
		size += 50 + op.Body.Len()
	}
	c.Times = genTimes(t, size)
	return c
}

func sweepF01(thorough bool, yield func(FlvCase)) {
	// long recordings
	for _, n := range []int{130, 260, 33000} {
		yield(FlvCase{Times: n, Ops: []FlvOp{{K: "mux", T: packet.PktVideo, PTS: 7, Body: Blob{N: 3}}, {K: "mux", T: packet.PktAudio, PTS: 9, Body: Blob{N: 2}}}})
		yield(FlvCase{Times: n / 10, Ops: []FlvOp{{K: "avc", Body: Blob{N: 9}}, {K: "head"}, {K: "mux", T: packet.PktVideo, PTS: 7, Body: Blob{N: 3}}, {K: "meta", Obj: &Val{K: "obj"}}, {K: "mux", T: packet.PktMetadata, Body: Blob{N: 3}, Head: 1}, {K: "aac", Body: Blob{N: 4}}, {K: "head"}}})
	}
	head := FlvOp{K: "head"}
	for _, typ := range []int{packet.PktVideo, packet.PktAudio, packet.PktMetadata} {
		for _, n := range []int{0xffffff, 0x1000000} {
			op := FlvOp{K: "mux", T: typ, PTS: 7, Body: Blob{N: n, Pat: 4}}
			if typ == packet.PktMetadata {
				op.Body.N -= 13
				op.Head = 1
			}
			small := FlvOp{K: "mux", T: packet.PktAudio, PTS: 8, Body: Blob{N: 3}}
			yield(FlvCase{Ops: []FlvOp{head, small, op, small}})
		}
	}
	for _, k := range []string{"avc", "aac"} {
		for _, n := range []int{0xffffff, 0x1000000} {
			yield(FlvCase{Ops: []FlvOp{{K: k, Body: Blob{N: 9}}, head, {K: k, Body: Blob{N: n, Pat: 5}}, head}})
			yield(FlvCase{Ops: []FlvOp{{K: k, Body: Blob{N: n, Pat: 5}}, head}})
		}
	}
	for _, n := range []int{0xffffe6, 0xffffe7, 0x1000010} {
		yield(FlvCase{Ops: []FlvOp{{K: "meta", Obj: &Val{K: "obj"}}, head, {K: "bigmeta", Body: Blob{N: n}}, head, {K: "aac", Body: Blob{N: 9}}, head}})
	}
	// every subset of saved things, in every order of two
	saves := []FlvOp{{K: "meta", Obj: &Val{K: "obj"}}, {K: "avc", Body: Blob{N: 9}}, {K: "aac", Body: Blob{N: 4}}}
	for m := 0; m < 8; m++ {
		for rot := 0; rot < 3; rot++ {
			var c FlvCase
			for i := range saves {
				if j := (i + rot) % 3; m>>uint(j)&1 == 1 {
					c.Ops = append(c.Ops, saves[j])
				}
			}
			c.Ops = append(c.Ops, head, FlvOp{K: "mux", T: packet.PktVideo, PTS: 1, Body: Blob{N: 5}}, FlvOp{K: "avc", Body: Blob{N: 6, Pat: 1}}, head)
			yield(c)
		}
	}
	for bit := 0; bit < 32; bit++ {
		yield(FlvCase{Ops: []FlvOp{head, {K: "mux", T: packet.PktVideo, PTS: 1 << uint(bit), Body: Blob{N: 5}}, {K: "mux", T: packet.PktAudio, PTS: ^uint32(1 << uint(bit)), Body: Blob{N: 1 << uint(min(bit, 18))}}}})
	}
}

// ---------------------------------------------------------------- F02

// TagCase is a media tag body, and the bodies an object was used for before.
type TagCase struct {
	Prev []TagIn `json:"prev,omitempty"`
	In   TagIn   `json:"in"`
}

// TagIn is a tag body.
type TagIn struct {
	T    int  `json:"t"`
	Data Blob `json:"d"`
}

type accessors struct {
	Fmt, Aac, Codec                     uint8
	IsAAC, IsMP3, IsAACHdr              bool
	Key, Inter, SeqHdr, EndOfSeq, IsAvc bool
	CTS                                 int32
}

func access(h packet.Header) (a accessors, err error) {
	ah, ok := h.(packet.AudioPacketHeader)
	vh, ok2 := h.(packet.VideoPacketHeader)
	if ok {
		a.Fmt, a.Aac, a.IsAAC, a.IsMP3, a.IsAACHdr = ah.SoundFormat(), ah.AACType(), ah.IsSoundAAC(), ah.IsSoundMP3(), ah.IsAACSeqHdr()
	}
	if ok2 {
		a.Codec, a.Key, a.Inter, a.SeqHdr, a.EndOfSeq, a.IsAvc, a.CTS = vh.CodecID(), vh.IsKeyFrame(), vh.IsInterFrame(), vh.IsSeqHdr(), vh.IsEndOfSeq(), vh.IsCodecAvc(), vh.CompositionTime()
	}
	if !ok && !ok2 {
		return a, fmt.Errorf("header of type %T", h)
	}
	return a, nil
}

func checkTag(in TagIn, a accessors, n int, media []byte, err error, o *Obs) error {
	b := in.Data.Bytes()
	bad := func(name string, got, want interface{}) error {
		return fmt.Errorf("%s of %x is %v, want %v", name, clipBytes(b, 0), got, want)
	}
	mustFail := func(why string) error {
		o.Class("error: " + why)
		if err == nil {
			return fmt.Errorf("%x (%s) is accepted", clipBytes(b, 0), why)
		}
		return nil
	}
	mediaAt := func(k int) error {
		if n != k {
			return bad("header length", n, k)
		}
		if d := diffBytes(b[k:], media); d != "" {
			return fmt.Errorf("media of %x: %s", clipBytes(b, 0), d)
		}
		return nil
	}
	switch in.T {
	case packet.PktMetadata:
		if err != nil {
			return fmt.Errorf("metadata: %v", err)
		}
		o.Class("metadata")
		return mediaAt(0)
	case packet.PktAudio:
		if len(b) == 0 {
			return mustFail("empty audio")
		}
		f := b[0] >> 4
		if f != 10 && f != 2 {
			return mustFail("sound format")
		}
		if len(b) < 2 {
			// a MP3 body without any data is not too short for its header: left open
			if f == 2 {
				return nil
			}
			return mustFail("short audio")
		}
		if err != nil {
			return fmt.Errorf("audio %x: %v", clipBytes(b, 0), err)
		}
		if a.Fmt != f {
			return bad("sound format", a.Fmt, f)
		}
		if a.IsAAC != (f == 10) || a.IsMP3 != (f == 2) {
			return bad("AAC/MP3", fmt.Sprint(a.IsAAC, a.IsMP3), f)
		}
		if f == 10 {
			if a.Aac != b[1] {
				return bad("AAC packet type", a.Aac, b[1])
			}
			if a.IsAACHdr != (b[1] == 0) {
				return bad("AAC sequence header", a.IsAACHdr, b[1] == 0)
			}
			o.Class("AAC")
			return mediaAt(2)
		}
		o.Class("MP3")
		return mediaAt(1)
	case packet.PktVideo:
		if len(b) == 0 {
			return mustFail("empty video")
		}
		ft, codec := b[0]>>4, b[0]&0xf
		if len(b) < 5 {
			if codec == 7 && (ft == 1 || ft == 2) {
				return mustFail("short video")
			}
			return nil // other codecs and frame types: left open
		}
		if err != nil {
			return fmt.Errorf("video %x: %v", clipBytes(b, 0), err)
		}
		if a.Codec != codec || a.IsAvc != (codec == 7) {
			return bad("codec", a.Codec, codec)
		}
		if a.Key != (ft == 1) || a.Inter != (ft == 2) {
			return bad("frame type", fmt.Sprint(a.Key, a.Inter), ft)
		}
		if codec != 7 {
			o.Class("other video codec")
			return nil
		}
		if ft != 1 && ft != 2 {
			o.Class("other frame type")
			if a.SeqHdr || a.EndOfSeq {
				return bad("sequence header/end", fmt.Sprint(a.SeqHdr, a.EndOfSeq), false)
			}
			if a.CTS != 0 {
				return bad("composition time", a.CTS, 0)
			}
			return nil
		}
		if want := ft == 1 && b[1] == 0; a.SeqHdr != want {
			return bad("sequence header", a.SeqHdr, want)
		}
		if want := ft == 1 && b[1] == 2; a.EndOfSeq != want {
			return bad("end of sequence", a.EndOfSeq, want)
		}
		cts := int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8
		if b[1] == 1 || cts == 0 {
			if a.CTS != cts {
				return bad("composition time", a.CTS, cts)
			}
			o.ClassIf(cts < 0, "negative composition time")
		}
		o.Class("AVC packet type %d", min(int(b[1]), 3))
		return mediaAt(5)
	}
	return mustFail("packet type")
}

// flvNames are the exported names of what tag headers say, with the values the FLV specification gives them.
var flvNames = []struct {
	name      string
	got, want int
}{
	{"AvcSeqHdr", flv.AvcSeqHdr, 0}, {"AvcNalu", flv.AvcNalu, 1}, {"AvcEndOfSeq", flv.AvcEndOfSeq, 2},
	{"AacSeqHdr", flv.AacSeqHdr, 0}, {"AacRaw", flv.AacRaw, 1},
	{"KeyFrame", flv.KeyFrame, 1}, {"InterFrame", flv.InterFrame, 2}, {"AvcH264", flv.AvcH264, 7},
	{"MetaDataAMF0", flv.MetaDataAMF0, 18}, {"MetaDataAMF3", flv.MetaDataAMF3, 15},
	{"TagAudio", packet.TagAudio, 8}, {"TagVideo", packet.TagVideo, 9},
	{"TagScriptDataAMF0", packet.TagScriptDataAMF0, 18}, {"TagScriptDataAMF3", packet.TagScriptDataAMF3, 15},
	{"SoundLinearPcmPlatformEndian", flv.SoundLinearPcmPlatformEndian, 0}, {"SoundADPCM", flv.SoundADPCM, 1}, {"SoundMP3", flv.SoundMP3, 2},
	{"SoundLinearPcmLittleEndian", flv.SoundLinearPcmLittleEndian, 3}, {"SoundNellymoser16KHzMono", flv.SoundNellymoser16KHzMono, 4},
	{"SoundNellymoser8KHzMono", flv.SoundNellymoser8KHzMono, 5}, {"SoundNellymoser", flv.SoundNellymoser, 6},
	{"SoundG711ALawLogarithmicPCM", flv.SoundG711ALawLogarithmicPCM, 7}, {"SoundG711MuLawLogarithmicPCM", flv.SoundG711MuLawLogarithmicPCM, 8},
	{"SoundReserved", flv.SoundReserved, 9}, {"SoundAAC", flv.SoundAAC, 10}, {"SoundSpeex", flv.SoundSpeex, 11},
	{"SoundMP38KHz", flv.SoundMP38KHz, 14}, {"SoundDeviceSpecificSound", flv.SoundDeviceSpecificSound, 15},
	{"SoundRate5500Hz", flv.SoundRate5500Hz, 0}, {"SoundRate11000Hz", flv.SoundRate11000Hz, 1}, {"SoundRate22000Hz", flv.SoundRate22000Hz, 2}, {"SoundRate44100Hz", flv.SoundRate44100Hz, 3},
	{"SoundSize8BitSamples", flv.SoundSize8BitSamples, 0}, {"SoundSize16BitSamples", flv.SoundSize16BitSamples, 1},
	{"SoundTypeMono", flv.SoundTypeMono, 0}, {"SoundTypeStereo", flv.SoundTypeStereo, 1},
}

func checkF02(c TagCase, o *Obs) error {
	for _, n := range flvNames {
		if n.got != n.want {
			return fmt.Errorf("the constant %s is %d, FLV gives it the value %d", n.name, n.got, n.want)
		}
	}
	b := c.In.Data.Bytes()
	if len(b) > 1 {
		o.NonTrivial()
	}
	p := &packet.Packet{Type: c.In.T, TimeStamp: 77, StreamID: 3, Baseline: 4, Data: b}
	s := snap(p)
	err := flv.NewDemuxer().Demux(p)
	if e := s.same(p, true); e != nil {
		return fmt.Errorf("Demux: %v", e)
	}
	var a accessors
	n := 0
	if err == nil {
		var e error
		if a, e = access(p.Header); e != nil {
			return e
		}
		n = len(b) - len(p.Media)
	}
	if e := checkTag(c.In, a, n, p.Media, err, o); e != nil {
		return fmt.Errorf("Demux: %v", e)
	}
	// a packet and a demuxer used before: header and media are those of the new body
	if len(c.Prev) > 0 {
		d := flv.NewDemuxer()
		q := &packet.Packet{}
		for _, x := range c.Prev {
			q.Type, q.Data = x.T, x.Data.Bytes()
			d.Demux(q)
		}
		old := q.Header
		var was accessors
		if old != nil {
			was, _ = access(old)
		}
		q.Type, q.Data = c.In.T, b
		err3 := d.Demux(q)
		if (err == nil) != (err3 == nil) {
			return fmt.Errorf("Demux gives error %v, with a demuxer and packet used for %d bodies before %v", err, len(c.Prev), err3)
		}
		if err3 == nil {
			a3, e := access(q.Header)
			if e != nil {
				return e
			}
			a1 := a
			relevant(&a1, c.In.T)
			relevant(&a3, c.In.T)
			if a1 != a3 {
				return fmt.Errorf("demuxing %x into a packet used for %d bodies before gives the header %+v, into a fresh one %+v", clipBytes(b, 0), len(c.Prev), a3, a1)
			}
			if !bytes.Equal(q.Media, p.Media) {
				return fmt.Errorf("demuxing %x into a packet used for %d bodies before leaves %d media bytes, into a fresh one %d", clipBytes(b, 0), len(c.Prev), len(q.Media), len(p.Media))
			}
			o.Class("reused packet")
		}
		if old != nil {
			if now, _ := access(old); now != was {
				return fmt.Errorf("the header of the body before reports %+v after the next body was demuxed, %+v before", now, was)
			}
		}
	}
	// a fresh tag, and one used before
	for _, prev := range [][]TagIn{nil, c.Prev} {
		var tag flv.Tag
		for _, x := range prev {
			tag.ParseMediaTagHeader(x.Data.Bytes(), x.T)
		}
		n2, err2 := tag.ParseMediaTagHeader(b, c.In.T)
		if (err == nil) != (err2 == nil) {
			return fmt.Errorf("Demux gives error %v, ParseMediaTagHeader %v", err, err2)
		}
		if err != nil {
			continue
		}
		if n2 != n {
			return fmt.Errorf("ParseMediaTagHeader consumes %d bytes, Demux %d", n2, n)
		}
		a2, _ := access(&tag)
		if len(prev) > 0 {
			o.Class("reused tag")
		}
		relevant(&a2, c.In.T)
		a1 := a
		relevant(&a1, c.In.T)
		if a1 != a2 {
			return fmt.Errorf("tag used for %d bodies before reports %+v for %x, a fresh one %+v", len(prev), a2, clipBytes(b, 0), a1)
		}
	}
	return nil
}

// relevant clears what says nothing about the media type, and the AAC packet type of MP3.
func relevant(a *accessors, typ int) {
	switch typ {
	case packet.PktVideo:
		a.Fmt, a.Aac, a.IsAAC, a.IsMP3, a.IsAACHdr = 0, 0, false, false, false
	case packet.PktAudio:
		a.Codec, a.Key, a.Inter, a.SeqHdr, a.EndOfSeq, a.IsAvc, a.CTS = 0, false, false, false, false, false, 0
		if a.IsMP3 {
			a.Aac, a.IsAACHdr = 0, false
		}
	default:
		*a = accessors{}
	}
}

func genTagIn(t *rapid.T) TagIn {
	in := TagIn{T: pick(t, packet.PktVideo, packet.PktVideo, packet.PktAudio, packet.PktAudio, packet.PktMetadata, 3, -1)}
	if in.T >= 3 || in.T < 0 {
		if !chance(t, 20) {
			in.T = packet.PktVideo
		}
	}
	head := genBytes(t, 7)
	if len(head) > 0 {
		switch {
		case in.T == packet.PktVideo && boolean(t):
			head[0] = pick(t, byte(0x17), 0x27, 0x37, 0x47, 0x57, 0x12, 0x22)
		case in.T == packet.PktAudio && boolean(t):
			head[0] = pick(t, byte(0xaf), 0x2f, 0xa0, 0x22, 0xae, 0x2e)
		}
	}
	if len(head) > 1 && boolean(t) {
		head[1] = byte(intn(t, 0, 3))
	}
	in.Data = Blob{Head: head}
	if chance(t, 30) {
		in.Data.N = intn(t, 0, 30)
		in.Data.Pat = intn(t, 0, 9)
	}
	return in
}

func genF02(t *rapid.T) TagCase {
	c := TagCase{In: genTagIn(t)}
	for n := intn(t, 0, 3); n > 0; n-- {
		c.Prev = append(c.Prev, genTagIn(t))
	}
	return c
}

// edgeLens are lengths that narrow integer types take for none or for a few.
var edgeLens = []int{127, 128, 129, 200, 255, 256, 257, 258, 259, 260, 32767, 32768, 40000, 65535, 65536, 65537, 65538, 65539, 65540, 65544, 131072}

func sweepF02(thorough bool, yield func(TagCase)) {
	dirty := []TagIn{{packet.PktVideo, Blob{Head: Hex{0x17, 1, 0x12, 0x34, 0x56, 0}}}, {packet.PktAudio, Blob{Head: Hex{0xaf, 1, 5}}}, {packet.PktVideo, Blob{Head: Hex{0x17, 2, 0, 0, 0}}}}
	cts := []Hex{{0, 0, 0}, {0, 0, 1}, {0x7f, 0xff, 0xff}, {0x80, 0, 0}, {0xff, 0xff, 0xff}, {1, 2, 3}, {0x00, 0x80, 0x00}, {0x00, 0x00, 0x80}, {0xff, 0x00, 0x00}}
	for b0 := 0; b0 < 256; b0++ {
		for b1 := 0; b1 < 4; b1++ {
			for i, x := range cts {
				body := append(Hex{byte(b0), byte(b1)}, x...)
				yield(TagCase{Prev: dirty[i%3:], In: TagIn{packet.PktVideo, Blob{Head: body}}})
				yield(TagCase{Prev: dirty[:i%3], In: TagIn{packet.PktVideo, Blob{Head: body, N: 3}}})
			}
			for n := 0; n <= 5; n++ {
				yield(TagCase{In: TagIn{packet.PktVideo, Blob{Head: Hex{byte(b0), byte(b1), 0, 0, 9}[:n]}}})
				yield(TagCase{Prev: dirty, In: TagIn{packet.PktAudio, Blob{Head: Hex{byte(b0), byte(b1), 0, 0, 9}[:n]}}})
			}
		}
		yield(TagCase{In: TagIn{packet.PktAudio, Blob{Head: Hex{0xaf, byte(b0), 1}}}})
		yield(TagCase{In: TagIn{packet.PktVideo, Blob{Head: Hex{0x17, byte(b0), 0, 0, 0, 1}}}})
		yield(TagCase{In: TagIn{b0 - 128, Blob{Head: Hex{0x17, 1, 0, 0, 0, 1}}}})
	}
	for _, n := range edgeLens { // whole bodies of these lengths
		yield(TagCase{Prev: dirty, In: TagIn{packet.PktVideo, Blob{Head: Hex{0x27, 1, 0, 1, 2}, N: n - 5, Pat: 2}}})
		yield(TagCase{In: TagIn{packet.PktAudio, Blob{Head: Hex{0xaf, 1}, N: n - 2, Pat: 3}}})
	}
	if thorough {
		for v := 0; v < 1<<24; v += 61 {
			yield(TagCase{In: TagIn{packet.PktVideo, Blob{Head: Hex{0x27, 1, byte(v >> 16), byte(v >> 8), byte(v)}}}})
		}
	}
}

func init() {
	register(Spec[FlvCase]{ID: "F01", Quick: 110000, Thorough: 1500000, Gen: genF01, Check: checkF01, Sweep: sweepF01,
		Technique: techRapid + "a model of the FLV history and a strict FLV file parser",
		Rule:      "histories of 1-12 operations (save metadata and sequence headers, emit headers, mux all packet types, change the writer, unmuxable packets), sizes and times around all field limits; sweep: 16 MB tags, every subset of saved headers, every time stamp bit; non-trivial: at least two tags or a file header after other operations",
		Note:      "The parser of the harness follows the FLV specification. Failed saves of sequence headers are not drawn: what a later file header then contains is left open."})
	register(Spec[TagCase]{ID: "F02", Quick: 360000, Thorough: 3000000, Gen: genF02, Check: checkF02, Sweep: sweepF02,
		Technique: techRapid + "an independent decoder of media tag headers; all first and second bytes enumerated",
		Rule:      "audio, video and metadata tag bodies, demultiplexed with a fresh demultiplexer, a fresh tag and a tag used before; sweep: all 256 first bytes with packet types 0-3, boundary composition times and body lengths 0-5; non-trivial: more than one byte",
		Note:      "Media of video codecs other than AVC and of frame types other than key and inter frames is not judged, nor composition times of AVC packets that are not NALU packets (the format says zero)."})
}
