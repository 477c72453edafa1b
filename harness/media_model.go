package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- FLV tag bodies

// videoBody is a FLV video tag body with an AVC media header.
func videoBody(frameType, codec, avcType byte, cts int32, media []byte) []byte {
	u := uint32(cts) & 0xffffff
	b := []byte{frameType<<4 | codec, avcType, byte(u >> 16), byte(u >> 8), byte(u)}
	return append(b, media...)
}

// audioBody is a FLV audio tag body; AAC has a packet type byte.
func audioBody(format, low, aacType byte, media []byte) []byte {
	b := []byte{format<<4 | low&0xf}
	if format == 10 {
		b = append(b, aacType)
	}
	return append(b, media...)
}

// demuxed returns the packet of a tag body with header and media filled in by the library.
func demuxed(typ int, body []byte) (*packet.Packet, error) {
	p := takePacket(typ, body)
	return p, flv.NewDemuxer().Demux(p)
}

// vhdr and ahdr are headers of the harness's own, so that a check does not depend on the
// demultiplexer.
type vhdr struct {
	frame, avc, codec uint8
	cts               int32
}

func (h *vhdr) IsKeyFrame() bool       { return h.frame == 1 }
func (h *vhdr) IsInterFrame() bool     { return h.frame == 2 }
func (h *vhdr) IsSeqHdr() bool         { return h.frame == 1 && h.avc == 0 }
func (h *vhdr) IsEndOfSeq() bool       { return h.frame == 1 && h.avc == 2 }
func (h *vhdr) IsCodecAvc() bool       { return h.codec == 7 }
func (h *vhdr) CodecID() uint8         { return h.codec }
func (h *vhdr) CompositionTime() int32 { return h.cts }

type ahdr struct{ format, aac uint8 }

func (h *ahdr) SoundFormat() uint8 { return h.format }
func (h *ahdr) AACType() uint8     { return h.aac }
func (h *ahdr) IsSoundAAC() bool   { return h.format == 10 }
func (h *ahdr) IsSoundMP3() bool   { return h.format == 2 }
func (h *ahdr) IsAACSeqHdr() bool  { return h.aac == 0 }

var (
	_ packet.VideoPacketHeader = &vhdr{}
	_ packet.AudioPacketHeader = &ahdr{}
)

// ---------------------------------------------------------------- FLV files

type flvTagItem struct {
	typ  byte
	ts   uint32
	data []byte
}

// readFlvHeader reads the file header and the first previous-tag-size.
func readFlvHeader(b []byte) (flags byte, rest []byte, err error) {
	if len(b) < 13 {
		return 0, nil, fmt.Errorf("file header has %d bytes", len(b))
	}
	if string(b[:3]) != "FLV" || b[3] != 1 {
		return 0, nil, fmt.Errorf("signature or version is %x", b[:4])
	}
	if binary.BigEndian.Uint32(b[5:]) != 9 {
		return 0, nil, fmt.Errorf("header length is %x", b[5:9])
	}
	if binary.BigEndian.Uint32(b[9:]) != 0 {
		return 0, nil, fmt.Errorf("first previous tag size is %x", b[9:13])
	}
	return b[4], b[13:], nil
}

func readFlvTag(b []byte) (t flvTagItem, rest []byte, err error) {
	if len(b) < 11 {
		return t, nil, fmt.Errorf("tag header has %d bytes", len(b))
	}
	t.typ = b[0]
	n := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	t.ts = uint32(b[7])<<24 | uint32(b[4])<<16 | uint32(b[5])<<8 | uint32(b[6])
	if b[8]|b[9]|b[10] != 0 {
		return t, nil, fmt.Errorf("stream id is %x", b[8:11])
	}
	if len(b) < 11+n+4 {
		return t, nil, fmt.Errorf("tag of %d data bytes has only %d bytes behind its header", n, len(b)-11)
	}
	t.data = b[11 : 11+n]
	if got := binary.BigEndian.Uint32(b[11+n:]); got != uint32(11+n) {
		return t, nil, fmt.Errorf("previous tag size is %d, the tag has %d bytes", got, 11+n)
	}
	return t, b[11+n+4:], nil
}

// ---------------------------------------------------------------- H.264

// Unit is a NAL unit.
type Unit struct {
	T   int  `json:"t"`           // nal_unit_type
	R   int  `json:"r,omitempty"` // nal_ref_idc and the forbidden bit
	Pay Blob `json:"p,omitempty"`
}

func (u Unit) bytes() []byte {
	return append([]byte{byte(u.R&7)<<5 | byte(u.T&0x1f)}, u.Pay.Bytes()...)
}

var start4 = []byte{0, 0, 0, 1}

func annexB(units ...[]byte) []byte {
	var out []byte
	for _, u := range units {
		out = append(out, start4...)
		out = append(out, u...)
	}
	return out
}

// avcc packs units with n-byte lengths.
func avcc(n int, units ...[]byte) []byte {
	var out []byte
	for _, u := range units {
		l := len(u)
		for i := n - 1; i >= 0; i-- {
			out = append(out, byte(l>>(8*i)))
		}
		out = append(out, u...)
	}
	return out
}

// SeqHdr is an AVC decoder configuration record.
type SeqHdr struct {
	Len   int    `json:"len"` // bytes of a unit length, 1 to 4
	Prof  Hex    `json:"prof,omitempty"`
	Sps   []Blob `json:"sps"`
	Pps   []Blob `json:"pps"`
	Ext   Blob   `json:"ext,omitempty"`
	Res   int    `json:"res,omitempty"` // 1: reserved bits clear
	Break string `json:"break,omitempty"`
	At    int    `json:"at,omitempty"`
}

func paramSet(b Blob, typ byte) []byte { return append([]byte{0x60 | typ}, b.Bytes()...) }

func (s SeqHdr) units() (out [][]byte) {
	for _, b := range s.Sps {
		out = append(out, paramSet(b, 7))
	}
	for _, b := range s.Pps {
		out = append(out, paramSet(b, 8))
	}
	return out
}

// bytes writes the record; ok says whether it is well formed.
func (s SeqHdr) bytes() (rec []byte, ok bool) {
	prof := append(append([]byte{}, s.Prof...), 0x42, 0xc0, 0x1e)
	up4, up5 := byte(0xfc), byte(0xe0)
	if s.Res == 1 {
		up4, up5 = 0, 0
	}
	nsps, npps := len(s.Sps), len(s.Pps)
	ok = true
	switch s.Break {
	case "nosps":
		nsps, ok = 0, false
	case "nopps":
		npps, ok = 0, false
	case "morepps":
		npps++
		ok = false
	}
	if nsps > 31 || npps > 255 {
		ok = false
	}
	rec = []byte{1, prof[0], prof[1], prof[2], up4 | byte(s.Len-1), up5 | byte(nsps&0x1f)}
	put := func(b []byte) {
		rec = append(rec, byte(len(b)>>8), byte(len(b)))
		rec = append(rec, b...)
	}
	for i, b := range s.Sps {
		u := paramSet(b, 7)
		if s.Break == "emptysps" && i == s.At%len(s.Sps) {
			u, ok = nil, false
		}
		put(u)
	}
	rec = append(rec, byte(npps))
	for i, b := range s.Pps {
		u := paramSet(b, 8)
		if s.Break == "emptypps" && i == s.At%len(s.Pps) {
			u, ok = nil, false
		}
		put(u)
	}
	switch s.Break {
	case "cut":
		return rec[:s.At%len(rec)], false
	case "morepps":
		return rec, false
	}
	return append(rec, s.Ext.Bytes()...), ok
}

// avcParser is the model of one AVC conversion state.
type avcModel struct {
	n    int
	sets [][]byte
}

func newAvcModel() *avcModel { return &avcModel{n: 4} }

func (m *avcModel) header(s SeqHdr) (rec []byte, ok bool) {
	rec, ok = s.bytes()
	if ok {
		m.n, m.sets = s.Len, s.units()
	}
	return rec, ok
}

var errBadAU = errors.New("access unit is not acceptable")

// convert is the Annex-B form of an access unit of the given units.
func (m *avcModel) convert(units [][]byte) (out []byte, err error) {
	out = append(out, 0, 0, 0, 1, 9, 0xf0)
	var own [][]byte
	done := false
	for _, u := range units {
		switch u[0] & 0x1f {
		case 9:
		case 7, 8:
			own = append(own, u)
		case 5:
			if !done {
				done = true
				if len(own) > 0 {
					out = append(out, annexB(own...)...)
				} else {
					out = append(out, annexB(m.sets...)...)
				}
			}
			out = append(out, annexB(u)...)
		case 1, 6:
			out = append(out, annexB(u)...)
		default:
			return nil, errBadAU
		}
	}
	return out, nil
}

func genUnit(t *rapid.T, good bool, maxLen int) Unit {
	u := Unit{T: pick(t, 1, 5, 6, 7, 8, 9, 1, 5), R: intn(t, 0, 3)}
	if !good {
		u.T = pick(t, 0, 2, 3, 4, 10, 11, 12, 13, 14, 15, 19, 20, 24, 28, 31)
	}
	u.Pay = genUnitBlob(t, maxLen)
	return u
}

func genUnitBlob(t *rapid.T, maxLen int) Blob {
	switch intn(t, 0, 5) {
	case 0:
		return Blob{Head: pick(t, Hex{}, Hex{0, 0, 1}, Hex{0, 0, 0, 1}, Hex{0, 0, 0, 1, 0x65}, Hex{0, 0, 3, 0}, Hex{0}, Hex{0, 0, 1, 9, 0xf0})}
	case 1:
		return blobOfLen(t, min(maxLen, pick(t, 0, 1, 2, 3, 253, 254, 255, 256, 257)))
	default:
		return genBlob(t, maxLen)
	}
}

func genSeqHdr(t *rapid.T, broken bool) SeqHdr {
	s := SeqHdr{Len: pick(t, 4, 4, 1, 2, 3), Res: pick(t, 0, 0, 1), Prof: Hex(genBytes(t, 3))}
	ns, np := pick(t, 1, 1, 1, 2, 3), pick(t, 1, 1, 1, 2, 3)
	if chance(t, 3) {
		ns = pick(t, 31, 16, 30)
	}
	if chance(t, 3) {
		np = pick(t, 255, 128, 32, 31, 64)
	}
	for i := 0; i < ns; i++ {
		s.Sps = append(s.Sps, genParamBlob(t, ns))
	}
	for i := 0; i < np; i++ {
		s.Pps = append(s.Pps, genParamBlob(t, np))
	}
	if chance(t, 30) {
		s.Ext = genBlob(t, 12)
	}
	if broken {
		s.Break = pick(t, "cut", "nosps", "nopps", "emptysps", "emptypps", "morepps")
		s.At = spread(t, 0, 1<<20)
	}
	return s
}

func genParamBlob(t *rapid.T, many int) Blob {
	if many > 5 {
		return Blob{N: intn(t, 0, 3), Pat: intn(t, 0, 9)}
	}
	if chance(t, 4) {
		return blobOfLen(t, pick(t, 254, 255, 256, 1000, 2047, 2048, 3000, 65534))
	}
	return genBlob(t, 40)
}

// ---------------------------------------------------------------- ADTS

var adtsRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// Asc is an AAC AudioSpecificConfig.
type Asc struct {
	Obj  int `json:"o"`
	Idx  int `json:"i"`
	Chan int `json:"c"`
	Low  int `json:"l,omitempty"` // the three bits behind: frame length and dependency flags
	Ext  Hex `json:"x,omitempty"`
}

func (a Asc) bytes() []byte {
	b := []byte{byte(a.Obj)<<3 | byte(a.Idx>>1), byte(a.Idx&1)<<7 | byte(a.Chan)<<3 | byte(a.Low&7)}
	return append(b, a.Ext...)
}

func (a Asc) rate() int { return adtsRates[a.Idx] }

func genAsc(t *rapid.T) Asc {
	a := Asc{Obj: pick(t, 2, 2, 1, 3, 4), Idx: intn(t, 0, 12), Chan: pick(t, 2, 1, 0, 3, 4, 5, 6, 7), Low: pick(t, 0, 0, 1, 2, 3, 4, 7)}
	if chance(t, 30) {
		a.Ext = Hex(genBytes(t, 5))
		if boolean(t) { // the extensions encoders append: SBR, SBR with a rate, PS
			a.Ext = append(Hex{0x56, 0xe5}, pick(t, Hex{0}, Hex{0x80 | byte(intn(t, 0, 15))<<3}, Hex{0x80 | byte(intn(t, 0, 15))<<3, 0x05, 0x48, 0x80}, Hex{0x9d, 0x80})...)
		}
	}
	return a
}

// checkADTS verifies that b is exactly one ADTS frame of the configuration around the payload.
func checkADTS(b []byte, a Asc, payload []byte) error {
	if len(b) < 7 {
		return fmt.Errorf("ADTS frame has %d bytes", len(b))
	}
	if b[0] != 0xff || b[1]>>4 != 0xf {
		return fmt.Errorf("ADTS sync word is %x", b[:2])
	}
	if b[1]>>3&1 != 0 || b[1]>>1&3 != 0 || b[1]&1 != 1 {
		return fmt.Errorf("ADTS version, layer or protection bits are %x", b[1])
	}
	if got := int(b[2] >> 6); got != a.Obj-1 {
		return fmt.Errorf("ADTS profile is %d, want %d", got, a.Obj-1)
	}
	if got := int(b[2] >> 2 & 0xf); got != a.Idx {
		return fmt.Errorf("ADTS sampling index is %d, want %d", got, a.Idx)
	}
	if got := int(b[2]&1)<<2 | int(b[3]>>6); got != a.Chan {
		return fmt.Errorf("ADTS channel configuration is %d, want %d", got, a.Chan)
	}
	if b[3]>>2&3 != 0 {
		return fmt.Errorf("ADTS copyright bits are %x", b[3])
	}
	if got := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5]>>5); got != 7+len(payload) {
		return fmt.Errorf("ADTS frame length is %d, want %d", got, 7+len(payload))
	}
	if b[6]&3 != 0 {
		return fmt.Errorf("ADTS announces %d more raw data blocks", b[6]&3)
	}
	if d := diffBytes(payload, b[7:]); d != "" {
		return fmt.Errorf("ADTS payload: %s", d)
	}
	return nil
}

// ---------------------------------------------------------------- MPEG transport stream

func crcRef(b []byte) uint32 {
	crc := uint32(0xffffffff)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := uint32(x>>uint(i)) & 1
			top := crc >> 31
			crc <<= 1
			if top^bit == 1 {
				crc ^= 0x04c11db7
			}
		}
	}
	return crc
}

// tsPkt is one parsed transport packet.
type tsPkt struct {
	raw     []byte
	pid     int
	start   bool
	cc      int
	afc     int
	afLen   int
	random  bool
	pcr     bool
	pcrBase int64
	pcrExt  int
	payload []byte
}

// parseTS splits and checks transport packets.
func parseTS(b []byte) (out []*tsPkt, err error) {
	if len(b)%188 != 0 {
		return nil, fmt.Errorf("%d bytes are no whole number of transport packets", len(b))
	}
	for i := 0; i < len(b); i += 188 {
		p, err := parsePkt(b[i : i+188])
		if err != nil {
			return nil, fmt.Errorf("transport packet %d: %v (%x)", i/188, err, b[i:i+24])
		}
		out = append(out, p)
	}
	return out, nil
}

func parsePkt(b []byte) (*tsPkt, error) {
	p := &tsPkt{raw: b}
	if b[0] != 0x47 {
		return nil, fmt.Errorf("sync byte is %x", b[0])
	}
	if b[1]&0x80 != 0 {
		return nil, errors.New("transport error indicator is set")
	}
	p.start = b[1]&0x40 != 0
	p.pid = int(b[1]&0x1f)<<8 | int(b[2])
	if b[3]>>6 != 0 {
		return nil, errors.New("packet is marked as scrambled")
	}
	p.afc = int(b[3] >> 4 & 3)
	p.cc = int(b[3] & 0xf)
	rest := b[4:]
	if p.afc&1 == 0 {
		return nil, fmt.Errorf("packet without payload (adaptation field control %d)", p.afc)
	}
	if p.afc == 3 {
		n := int(rest[0])
		p.afLen = n
		if n > 182 {
			return nil, fmt.Errorf("adaptation field of %d bytes leaves no payload", n)
		}
		af := rest[1 : 1+n]
		rest = rest[1+n:]
		if n > 0 {
			flags := af[0]
			af = af[1:]
			if flags&0x80 != 0 {
				return nil, errors.New("discontinuity is announced")
			}
			p.random = flags&0x40 != 0
			if flags&0x0f != 0 {
				return nil, fmt.Errorf("unexpected adaptation field flags %x", flags)
			}
			if flags&0x10 != 0 {
				if len(af) < 6 {
					return nil, errors.New("adaptation field is too short for its clock reference")
				}
				p.pcr = true
				p.pcrBase = int64(af[0])<<25 | int64(af[1])<<17 | int64(af[2])<<9 | int64(af[3])<<1 | int64(af[4]>>7)
				if af[4]>>1&0x3f != 0x3f {
					return nil, fmt.Errorf("reserved bits of the clock reference are %x", af[4])
				}
				p.pcrExt = int(af[4]&1)<<8 | int(af[5])
				if p.pcrExt > 299 {
					return nil, fmt.Errorf("clock reference extension is %d", p.pcrExt)
				}
				af = af[6:]
			}
			for _, x := range af {
				if x != 0xff {
					return nil, fmt.Errorf("stuffing byte is %x", x)
				}
			}
		}
	}
	p.payload = rest
	return p, nil
}

// pesUnit is one PES packet.
type pesUnit struct {
	first  *tsPkt
	n      int // transport packets
	sid    byte
	length int // the length field
	pts    int64
	dts    int64
	hasDTS bool
	data   []byte
}

// readTimestamp reads a 33 bit time stamp with its prefix and marker bits.
func readTimestamp(b []byte, prefix byte) (int64, error) {
	if b[0]>>4 != prefix {
		return 0, fmt.Errorf("time stamp prefix is %x, want %x", b[0]>>4, prefix)
	}
	if b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("time stamp marker bits are missing: %x", b[:5])
	}
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1), nil
}

func parsePES(b []byte, u *pesUnit) error {
	if len(b) < 9 {
		return fmt.Errorf("PES packet of %d bytes", len(b))
	}
	if b[0] != 0 || b[1] != 0 || b[2] != 1 {
		return fmt.Errorf("PES start code is %x", b[:3])
	}
	u.sid = b[3]
	u.length = int(b[4])<<8 | int(b[5])
	if b[6]>>6 != 2 {
		return fmt.Errorf("PES marker bits are %x", b[6])
	}
	if b[6]>>4&3 != 0 {
		return errors.New("PES packet is marked as scrambled")
	}
	if b[7]&0x3f != 0 {
		return fmt.Errorf("unexpected PES header flags %x", b[7])
	}
	n := int(b[8])
	h := b[9:]
	if len(h) < n {
		return fmt.Errorf("PES header data of %d bytes, there are %d", n, len(h))
	}
	data := h[n:]
	h = h[:n]
	var err error
	switch b[7] >> 6 {
	case 2:
		if len(h) < 5 {
			return errors.New("PES header data is too short for its time stamp")
		}
		if u.pts, err = readTimestamp(h, 2); err != nil {
			return fmt.Errorf("PTS: %v", err)
		}
		u.dts = u.pts
		h = h[5:]
	case 3:
		if len(h) < 10 {
			return errors.New("PES header data is too short for its time stamps")
		}
		if u.pts, err = readTimestamp(h, 3); err != nil {
			return fmt.Errorf("PTS: %v", err)
		}
		if u.dts, err = readTimestamp(h[5:], 1); err != nil {
			return fmt.Errorf("DTS: %v", err)
		}
		u.hasDTS = true
		h = h[10:]
	default:
		return fmt.Errorf("PES packet without time stamp (flags %x)", b[7])
	}
	for _, x := range h {
		if x != 0xff {
			return fmt.Errorf("PES header stuffing is %x", x)
		}
	}
	u.data = data
	if u.length != 0 && u.length != len(b)-6 {
		return fmt.Errorf("PES length field is %d, %d bytes follow", u.length, len(b)-6)
	}
	if u.length == 0 && (u.sid&0xf0 != 0xe0 || len(b)-6 <= 0xffff) {
		return fmt.Errorf("PES length field is 0 for stream %x with %d bytes", u.sid, len(b)-6)
	}
	return nil
}

// splitPES assembles the PES packets of one PID, lenient about the recorded deviation in the
// stuffing of small key frames if lenient is set.
func splitPES(pkts []*tsPkt, lenient bool) (out []*pesUnit, err error) {
	var buf []byte
	var cur *pesUnit
	flush := func() error {
		if cur == nil {
			return nil
		}
		if err := parsePES(buf, cur); err != nil {
			return fmt.Errorf("PES packet %d: %v", len(out), err)
		}
		cur.data = append([]byte(nil), cur.data...)
		out = append(out, cur)
		cur, buf = nil, nil
		return nil
	}
	for i, p := range pkts {
		pay := p.payload
		if p.start {
			if err := flush(); err != nil {
				return nil, err
			}
			cur = &pesUnit{first: p}
			if lenient {
				pay = skipSecondField(p)
			}
		} else {
			if cur == nil {
				return nil, fmt.Errorf("packet %d continues no PES packet", i)
			}
			if p.random || p.pcr {
				return nil, fmt.Errorf("packet %d has a clock reference or random access flag within a PES packet", i)
			}
			if p.afc == 3 && i+1 < len(pkts) && !pkts[i+1].start {
				return nil, fmt.Errorf("packet %d is stuffed although the PES packet goes on", i)
			}
		}
		cur.n++
		buf = append(buf, pay...)
	}
	if err := flush(); err != nil {
		return nil, err
	}
	return out, nil
}

// skipSecondField skips the extra stuffing block that the library puts behind the clock reference
// of a key frame that fits in one packet (recorded as finding of T01).
func skipSecondField(p *tsPkt) []byte {
	pay := p.payload
	if p.afLen != 7 || !p.pcr || bytes.HasPrefix(pay, []byte{0, 0, 1}) {
		return pay
	}
	n := int(pay[0])
	if 1+n+9 > len(pay) || !bytes.HasPrefix(pay[1+n:], []byte{0, 0, 1, 0xe0}) {
		return pay
	}
	return pay[1+n:]
}

func byPID(pkts []*tsPkt) map[int][]*tsPkt {
	m := map[int][]*tsPkt{}
	for _, p := range pkts {
		m[p.pid] = append(m[p.pid], p)
	}
	return m
}

// section checks one table packet and returns its section without CRC.
func section(p *tsPkt) ([]byte, error) {
	if !p.start || p.afc != 1 {
		return nil, fmt.Errorf("table packet on PID %#x has start %v, adaptation control %d", p.pid, p.start, p.afc)
	}
	if p.payload[0] != 0 {
		return nil, fmt.Errorf("pointer field is %d", p.payload[0])
	}
	s := p.payload[1:]
	if s[1]&0x80 == 0 {
		return nil, errors.New("section syntax indicator is not set")
	}
	n := int(s[1]&0xf)<<8 | int(s[2])
	if 3+n > len(s) || n < 9 {
		return nil, fmt.Errorf("section length is %d, there are %d bytes", n, len(s)-3)
	}
	for i, x := range s[3+n:] {
		if x != 0xff {
			return nil, fmt.Errorf("byte %d behind the section is %x", i, x)
		}
	}
	s = s[:3+n]
	if got, want := binary.BigEndian.Uint32(s[n-1:]), crcRef(s[:n-1]); got != want {
		return nil, fmt.Errorf("section CRC is %08x, want %08x", got, want)
	}
	if s[5]&1 != 1 {
		return nil, errors.New("section is not marked as current")
	}
	if s[6] != 0 || s[7] != 0 {
		return nil, fmt.Errorf("section number %d of %d", s[6], s[7])
	}
	return s[:n-1], nil
}

type sdtInfo struct {
	tsid, service int
	descs         []byte
}

func parseSDT(p *tsPkt) (*sdtInfo, error) {
	if p.pid != 0x11 {
		return nil, fmt.Errorf("SDT is on PID %#x", p.pid)
	}
	s, err := section(p)
	if err != nil {
		return nil, err
	}
	if s[0] != 0x42 {
		return nil, fmt.Errorf("SDT has table id %#x", s[0])
	}
	if len(s) < 16 {
		return nil, fmt.Errorf("SDT section of %d bytes", len(s))
	}
	x := &sdtInfo{tsid: int(s[3])<<8 | int(s[4]), service: int(s[11])<<8 | int(s[12])}
	n := int(s[14]&0xf)<<8 | int(s[15])
	if 16+n != len(s) {
		return nil, fmt.Errorf("SDT descriptor loop of %d bytes, there are %d", n, len(s)-16)
	}
	x.descs = s[16:]
	return x, nil
}

func parsePAT(p *tsPkt) (tsid, program, pmtPID int, err error) {
	if p.pid != 0 {
		return 0, 0, 0, fmt.Errorf("PAT is on PID %#x", p.pid)
	}
	s, err := section(p)
	if err != nil {
		return 0, 0, 0, err
	}
	if s[0] != 0 {
		return 0, 0, 0, fmt.Errorf("PAT has table id %#x", s[0])
	}
	if len(s) != 12 {
		return 0, 0, 0, fmt.Errorf("PAT lists %d bytes of programs, want one program", len(s)-8)
	}
	return int(s[3])<<8 | int(s[4]), int(s[8])<<8 | int(s[9]), int(s[10]&0x1f)<<8 | int(s[11]), nil
}

type pmtStream struct{ typ, pid int }

func parsePMT(p *tsPkt) (program, pcrPID int, streams []pmtStream, err error) {
	s, err := section(p)
	if err != nil {
		return 0, 0, nil, err
	}
	if s[0] != 2 {
		return 0, 0, nil, fmt.Errorf("PMT has table id %#x", s[0])
	}
	if len(s) < 12 {
		return 0, 0, nil, fmt.Errorf("PMT section of %d bytes", len(s))
	}
	program = int(s[3])<<8 | int(s[4])
	pcrPID = int(s[8]&0x1f)<<8 | int(s[9])
	n := int(s[10]&0xf)<<8 | int(s[11])
	if 12+n > len(s) {
		return 0, 0, nil, fmt.Errorf("PMT program descriptors of %d bytes", n)
	}
	s = s[12+n:]
	for len(s) > 0 {
		if len(s) < 5 {
			return 0, 0, nil, fmt.Errorf("PMT stream entry of %d bytes", len(s))
		}
		streams = append(streams, pmtStream{int(s[0]), int(s[1]&0x1f)<<8 | int(s[2])})
		n := int(s[3]&0xf)<<8 | int(s[4])
		if 5+n > len(s) {
			return 0, 0, nil, fmt.Errorf("PMT stream descriptors of %d bytes", n)
		}
		s = s[5+n:]
	}
	return program, pcrPID, streams, nil
}

// continuity checks that the counters of every PID advance by one.
func continuity(pkts []*tsPkt, last map[int]int) error {
	for i, p := range pkts {
		if l, ok := last[p.pid]; ok && p.cc != (l+1)%16 {
			return fmt.Errorf("packet %d on PID %#x has continuity counter %d after %d", i, p.pid, p.cc, l)
		}
		last[p.pid] = p.cc
	}
	return nil
}

// audioClock is the model of the audio time stamps.
type audioClock struct {
	base, n int64
	loose   bool // the rate has changed since the last synchronisation point
	rate    int
}

// next returns the time stamp of a frame that comes in at `in` (90 kHz); known is false while only
// the 10 ms bound is specified.
func (a *audioClock) next(in int64, rate int) (out int64, known bool) {
	if a.rate != 0 && a.rate != rate && a.n > 0 {
		a.loose = true
	}
	a.rate = rate
	inc := int64(90000 * 1024 / rate)
	p := a.base + a.n*inc
	d := p - in
	if d < 0 {
		d = -d
	}
	if a.loose && d < 90*1000*60 {
		// not far enough from every reading of "exact spacing" across a rate change
		if d <= 900 {
			a.n++
		} else {
			a.base, a.n = in, 1
		}
		return in, false
	}
	a.loose = false
	if d <= 900 {
		a.n++
		return p, true
	}
	a.base, a.n = in, 1
	return in, true
}

// ---------------------------------------------------------------- packets

type pktSnap struct {
	typ            int
	ts, base, sid  uint32
	header         packet.Header
	data, media    []byte
	dataP, mediaP  *byte
	dataL, mediaL  int
	fullD, fullM   []byte
	nilData, nilMd bool
}

func first(b []byte) *byte {
	if cap(b) == 0 {
		return nil
	}
	return &b[:1][0]
}

// snap records a packet with everything behind its slices, spare capacity included.
func snap(p *packet.Packet) pktSnap {
	s := pktSnap{typ: p.Type, ts: p.TimeStamp, base: p.Baseline, sid: p.StreamID, header: p.Header}
	s.dataP, s.mediaP = first(p.Data), first(p.Media)
	s.dataL, s.mediaL = len(p.Data), len(p.Media)
	s.data, s.media = p.Data, p.Media
	s.fullD = append([]byte(nil), p.Data[:cap(p.Data)]...)
	s.fullM = append([]byte(nil), p.Media[:cap(p.Media)]...)
	s.nilData, s.nilMd = p.Data == nil, p.Media == nil
	return s
}

// same compares a packet with its snapshot; fill allows header and media to differ.
func (s pktSnap) same(p *packet.Packet, fill bool) error {
	if p.Type != s.typ || p.TimeStamp != s.ts || p.Baseline != s.base || p.StreamID != s.sid {
		return fmt.Errorf("packet fields changed: %d %d %d %d, were %d %d %d %d", p.Type, p.TimeStamp, p.Baseline, p.StreamID, s.typ, s.ts, s.base, s.sid)
	}
	if len(p.Data) != s.dataL || first(p.Data) != s.dataP || (p.Data == nil) != s.nilData {
		return errors.New("the Data slice was replaced")
	}
	if d := diffBytes(s.fullD, s.data[:cap(s.data)]); d != "" {
		return fmt.Errorf("the bytes of Data (or behind them) changed: %s", d)
	}
	if d := diffBytes(s.fullM, s.media[:cap(s.media)]); d != "" {
		return fmt.Errorf("the bytes of Media (or behind them) changed: %s", d)
	}
	if fill {
		return nil
	}
	if p.Header != s.header {
		return errors.New("the header was replaced")
	}
	if len(p.Media) != s.mediaL || first(p.Media) != s.mediaP || (p.Media == nil) != s.nilMd {
		return errors.New("the Media slice was replaced")
	}
	return nil
}
