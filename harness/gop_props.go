package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"pgregory.net/rapid"
)

// GopOp is an operation on a cache.
type GopOp struct {
	K string `json:"k"` // meta vseq aseq aac mp3 key inter other run groups again bare send fail unknown
	N int    `json:"n,omitempty"`
}

// GopCase is a history on a cache of Cap groups.
type GopCase struct {
	Cap int     `json:"cap"`
	Ops []GopOp `json:"ops"`
}

type gopModel struct {
	cap              int
	meta, vseq, aseq *packet.Packet
	groups           [][]*packet.Packet // newest last
}

const groupLimit = 1024

// write returns whether an error is expected, and whether that is specified.
func (m *gopModel) write(p *packet.Packet, kind string) (fails, judged bool) {
	switch kind {
	case "meta":
		m.meta = p
	case "vseq":
		m.vseq = p
	case "aseq":
		m.aseq = p
	case "key":
		if m.cap == 0 {
			return false, true
		}
		m.groups = append(m.groups, []*packet.Packet{p})
		if len(m.groups) > m.cap {
			m.groups = m.groups[1:]
		}
	case "inter":
		if m.cap == 0 {
			return false, false
		}
		if len(m.groups) == 0 {
			return true, true
		}
		g := &m.groups[len(m.groups)-1]
		if len(*g) >= groupLimit {
			return true, true
		}
		*g = append(*g, p)
	}
	return false, true
}

func (m *gopModel) replay() (out []*packet.Packet) {
	for _, p := range []*packet.Packet{m.meta, m.vseq, m.aseq} {
		if p != nil {
			out = append(out, p)
		}
	}
	for _, g := range m.groups {
		out = append(out, g...)
	}
	return out
}

// gopPacket makes a fresh packet of a kind.
func gopPacket(kind string, n int) *packet.Packet {
	p := &packet.Packet{Type: packet.PktVideo, TimeStamp: uint32(n), Data: []byte{byte(n), byte(n >> 8)}}
	v := func(frame, avc uint8) { p.Header = &vhdr{frame: frame, avc: avc, codec: 7, cts: int32(n)} }
	switch kind {
	case "meta":
		p.Type = packet.PktMetadata
	case "vseq":
		v(1, 0)
	case "aseq":
		p.Type, p.Header = packet.PktAudio, &ahdr{format: 10, aac: 0}
	case "aac":
		p.Type, p.Header = packet.PktAudio, &ahdr{format: 10, aac: 1}
	case "mp3":
		p.Type, p.Header = packet.PktAudio, &ahdr{format: 2, aac: uint8(n % 2)}
	case "key":
		v(1, 1)
	case "inter":
		v(2, []uint8{1, 1, 0, 2}[n%4])
	case "other":
		v([]uint8{0, 3, 4, 5, 6, 15}[n%6], 1)
	case "unknown":
		p.Type = 3 + n%100
		if n%3 == 0 {
			p.Type = -1 - n
		}
	}
	if n%4 < 2 { // nothing tells it from others of its kind
		p.TimeStamp, p.Data = 0, []byte{1, 2}
	}
	p.Media = p.Data[1:]
	switch n % 11 {
	case 5: // no data at all
		p.Data, p.Media = nil, nil
	case 9:
		p.Data, p.Media = []byte{}, []byte{}
	}
	return p
}

// collector receives packets and fails at the failAt-th (negative: never).
type collector struct {
	got    []*packet.Packet
	failAt int
	calls  int
	err    error
	at     int // runs nested when it is offered this packet, counted from one
	nested func()
}

func (c *collector) Write(p *packet.Packet) error {
	c.calls++
	if c.nested != nil && c.calls == c.at {
		c.nested()
	}
	if c.failAt >= 0 && c.calls > c.failAt {
		return c.err
	}
	c.got = append(c.got, p)
	return nil
}

func samePackets(want, got []*packet.Packet) error {
	for i := 0; i < len(want) && i < len(got); i++ {
		if want[i] != got[i] {
			return fmt.Errorf("packet %d of the replay is %s, want %s", i, showPkt(got[i]), showPkt(want[i]))
		}
	}
	if len(want) != len(got) {
		return fmt.Errorf("the replay has %d packets, want %d", len(got), len(want))
	}
	return nil
}

func showPkt(p *packet.Packet) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("no. %d (type %d, header %+v)", p.TimeStamp, p.Type, p.Header)
}

func checkGop(c GopCase, o *Obs, fails bool) error {
	m := &gopModel{cap: c.Cap}
	cache := gop.NewCache(c.Cap)
	serial := 0
	var all []*packet.Packet
	var snaps []pktSnap
	o.Class("cache of %d groups", min(c.Cap, 4))
	var kinds []string
	write := func(kind string) error {
		serial++
		p := gopPacket(kind, serial)
		if strings.HasPrefix(kind, "again ") { // a packet that was written before
			n, _ := strconv.Atoi(kind[6:])
			if len(all) == 0 {
				return nil
			}
			n %= len(all)
			p, kind = all[n], kinds[n]
			o.Class("packet written again")
		} else {
			all, kinds = append(all, p), append(kinds, kind)
			snaps = append(snaps, snap(p))
		}
		wantErr, judged := m.write(p, kind)
		var err error
		switch direct := serial%5 == 0; {
		case direct && p.Type == packet.PktVideo:
			err = cache.WriteVideo(p)
		case direct && p.Type == packet.PktAudio:
			err = cache.WriteAudio(p)
		default:
			err = cache.Write(p)
		}
		if judged && (err != nil) != wantErr {
			return fmt.Errorf("writing %s (%s): error %v, expected %v", showPkt(p), kind, err, wantErr)
		}
		o.ClassIf(wantErr && len(m.groups) == 0, "inter frame before the first key frame")
		o.ClassIf(wantErr && len(m.groups) > 0, "full group")
		return nil
	}
	replay := func(what string) error {
		full := m.replay()
		w := &collector{failAt: -1}
		// the receiver asks for a replay of its own, that may fail
		inner := &collector{failAt: -1, err: errors.New("inner receiver")}
		if serial%3 == 0 && len(full) > 0 {
			inner.failAt = serial / 3 % len(full)
		}
		w.at = len(full) - serial%(len(full)+1)
		w.nested = func() { cache.SendTo(inner) }
		if err := cache.SendTo(w); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if err := samePackets(full, w.got); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if w.at > 0 {
			want := full
			if inner.failAt >= 0 {
				want = full[:inner.failAt]
			}
			if err := samePackets(want, inner.got); err != nil {
				return fmt.Errorf("%s inside another: %v", what, err)
			}
			o.Class("replay inside a replay")
		}
		return nil
	}
	sends, keys := 0, 0
	for i, op := range c.Ops {
		var err error
		switch op.K {
		case "run":
			for k := 0; k < op.N && err == nil; k++ {
				err = write("inter")
			}
		case "groups":
			for k := 0; k < op.N && err == nil; k++ {
				for j := -1; j < k%3 && err == nil; j++ {
					err = write([]string{"key", "inter"}[min(j+1, 1)])
				}
			}
			keys += op.N
			o.ClassIf(op.N > 256, "more than 256 groups")
		case "again":
			err = write(fmt.Sprint("again ", op.N))
		case "bare":
			// a packet whose header says nothing about a frame is refused and changes nothing
			p := &packet.Packet{Type: []int{packet.PktVideo, packet.PktAudio}[op.N&1], Data: []byte{1}}
			if op.N&2 != 0 {
				p.Header = []interface{}{&ahdr{format: 10}, &vhdr{frame: 1, codec: 7}}[op.N&1]
			}
			if e := cache.Write(p); e == nil {
				err = fmt.Errorf("a packet of type %d with header %T is accepted", p.Type, p.Header)
			}
			o.Class("packet without a header of its kind")
		case "send":
			sends++
			err = replay("replay")
		case "fail":
			full := m.replay()
			ks := []int{op.N % (len(full) + 1)}
			if len(full) <= 40 {
				ks = nil
				for k := 0; k <= len(full); k++ {
					ks = append(ks, k)
				}
			} else {
				// around the borders between headers and groups
				at := len(full)
				ks = append(ks, 0, 1, 2, 3, 4, at-1, at)
				for j := len(m.groups) - 1; j >= 0; j-- {
					at -= len(m.groups[j])
					ks = append(ks, at-1, at, at+1)
				}
			}
			for _, k := range ks {
				if k < 0 || k > len(full) {
					continue
				}
				w := &collector{failAt: k, err: fmt.Errorf("receiver failed at %d", k)}
				e := cache.SendTo(w)
				if k == len(full) {
					if e != nil {
						err = fmt.Errorf("a replay of %d packets to a receiver that takes them all gives %v", k, e)
						break
					}
				} else if !errors.Is(e, w.err) {
					err = fmt.Errorf("the receiver failed at packet %d of %d, the replay returns %v", k, len(full), e)
					break
				} else if w.calls != k+1 {
					err = fmt.Errorf("the receiver failed at packet %d, the replay went on to offer %d", k, w.calls)
					break
				} else {
					o.Class("failing receiver")
					o.ClassIf(k < 3, "failure among the headers")
					o.ClassIf(k >= 3, "failure among the groups")
				}
				if e := samePackets(full[:k], w.got); e != nil {
					err = fmt.Errorf("receiver failing at %d: %v", k, e)
					break
				}
				sends++
			}
			if err == nil {
				err = replay("replay after failed ones")
			}
		default:
			err = write(op.K)
			if op.K == "key" {
				keys++
			}
		}
		if err != nil {
			return fmt.Errorf("op %d (%s %d): %v", i, op.K, op.N, err)
		}
	}
	if err := replay("final replay"); err != nil {
		return err
	}
	if err := replay("second final replay"); err != nil {
		return err
	}
	for i, p := range all {
		if err := snaps[i].same(p, false); err != nil {
			return fmt.Errorf("packet %d: %v", i+1, err)
		}
	}
	o.ClassIf(keys > c.Cap && c.Cap > 0, "groups were dropped")
	if keys > 0 && len(m.replay()) > 1 && (!fails || sends > 0) {
		o.NonTrivial()
	}
	return nil
}

func checkG01(c GopCase, o *Obs) error { return checkGop(c, o, false) }
func checkG02(c GopCase, o *Obs) error { return checkGop(c, o, true) }

func genGop(t *rapid.T, fails bool) GopCase {
	c := GopCase{Cap: pick(t, 1, 2, 3, 1, 2, 4, 5, 8, 0)}
	n := pick(t, 5, 12, 25, 50)
	for i := 0; i < n; i++ {
		k := pick(t, "inter", "inter", "key", "inter", "key", "aac", "mp3", "meta", "vseq", "aseq", "other", "unknown", "send")
		if fails && chance(t, 15) {
			k = "fail"
		}
		op := GopOp{K: k}
		if k == "fail" {
			op.N = spread(t, 0, 5000)
		}
		if chance(t, 8) {
			op = GopOp{K: pick(t, "again", "again", "bare"), N: intn(t, 0, 60)}
		}
		if chance(t, 2) {
			op = GopOp{K: "groups", N: pick(t, 3, 8, 20, 70)}
		}
		if chance(t, 1) {
			op = GopOp{K: "run", N: pick(t, 1022, 1023, 1024, 1025, 1100, 2100, 300)}
		}
		c.Ops = append(c.Ops, op)
	}
	if fails {
		c.Ops = append(c.Ops, GopOp{K: "fail", N: spread(t, 0, 5000)})
	}
	return c
}

func sweepGop(fails bool) func(bool, func(GopCase)) {
	return func(thorough bool, yield func(GopCase)) {
		end := GopOp{K: "send"}
		if fails {
			end = GopOp{K: "fail"}
		}
		// every number of groups in caches of every small capacity
		for cap := 0; cap <= 6; cap++ {
			for keys := 0; keys <= 20; keys++ {
				c := GopCase{Cap: cap, Ops: []GopOp{{K: "meta"}, {K: "vseq"}, {K: "aseq"}}}
				for k := 0; k < keys; k++ {
					c.Ops = append(c.Ops, GopOp{K: "key"}, GopOp{K: "run", N: k % 4}, end, GopOp{K: "aac"}, GopOp{K: "inter"}, GopOp{K: "vseq"}, GopOp{K: "inter"})
				}
				c.Ops = append(c.Ops, end)
				yield(c)
			}
			// the limit of a group, in a fresh and in a reused slot
			for _, n := range []int{1022, 1023, 1024, 1025, 3000} {
				c := GopCase{Cap: cap}
				for k := 0; k <= cap; k++ {
					c.Ops = append(c.Ops, GopOp{K: "key"}, GopOp{K: "run", N: n - k})
				}
				c.Ops = append(c.Ops, end, GopOp{K: "inter"}, GopOp{K: "key"}, GopOp{K: "run", N: 3}, end)
				yield(c)
			}
		}
		for _, cap := range []int{127, 128, 129, 255, 256, 257, 300, 1000, 6000} {
			if fails && cap > 1000 {
				continue
			}
			for _, n := range []int{cap - 1, cap, cap + 1, cap + 127, cap + 128, 2*cap + 3} {
				yield(GopCase{Cap: cap, Ops: []GopOp{{K: "groups", N: n}, end, {K: "key"}, {K: "inter"}, end}})
			}
		}
		// more groups than two bytes count, in caches whose capacity does not divide that
		for _, cap := range []int{1, 3, 7, 1000} {
			for _, n := range []int{1<<15 + 1, 1<<16 + 1, 1<<16 + 2, 1<<17 + 2} {
				yield(GopCase{Cap: cap, Ops: []GopOp{{K: "groups", N: n}, end, {K: "key"}, {K: "inter"}, end}})
			}
		}
		// every history of five operations over the essential ones
		ks := []string{"inter", "key", "vseq", "aac", "meta"}
		n := 5
		total := 1
		for i := 0; i < n; i++ {
			total *= len(ks)
		}
		for x := 0; x < total; x++ {
			c := GopCase{Cap: 1 + x%3}
			y := x
			for i := 0; i < n; i++ {
				c.Ops = append(c.Ops, GopOp{K: ks[y%len(ks)]})
				y /= len(ks)
			}
			c.Ops = append(c.Ops, end)
			yield(c)
		}
	}
}

func init() {
	register(Spec[GopCase]{ID: "G01", Quick: 25000, Thorough: 700000, Check: checkG01, Sweep: sweepGop(false),
		Gen:       func(t *rapid.T) GopCase { return genGop(t, false) },
		Technique: techRapid + "a reference model of the cache with packet identity (stateful generation)",
		Rule:      "histories of up to 50 writes of all packet kinds and replays on caches of 0-8 groups, runs across the limit of 1024; sweep: 0-20 groups in caches of 0-6, all histories of five essential operations; non-trivial: a key frame and at least two replayed packets",
		Note:      "End-of-sequence packets with the key frame type are not drawn (whether they open a group is left open); errors of inter frames in a cache of no groups are not judged."})
	register(Spec[GopCase]{ID: "G02", Quick: 15000, Thorough: 400000, Level: "fault_enumeration", Check: checkG02, Sweep: sweepGop(true),
		Gen:       func(t *rapid.T) GopCase { return genGop(t, true) },
		Technique: "property-based testing with the receiver failing at every packet, against a reference model of the cache",
		Rule:      "histories as for G01 with failing replays in between: the receiver fails at each packet of replays up to 40 packets, else at the borders of headers and groups and a drawn one; non-trivial: a key frame, a failing replay and at least two packets",
		Note:      "After each batch of failed replays the full replay is compared with the model, and the history goes on."})
}
