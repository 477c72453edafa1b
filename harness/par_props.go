package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/sips"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C01

// ParCase has several systems that run at the same time, each on a goroutine of its own.
type ParCase struct {
	Pool []PoolPkt `json:"pool"`
	Sys  []Sys     `json:"sys"`
}

// commons are values that several goroutines read: nothing may write to them.
type commons struct {
	msgs  []*sips.SIP
	reqs  []*sips.SIPRequest
	users []*sips.SIPUser
	vias  []*sips.SIPVia
	cseqs []*sips.SIPCseq
	args  sips.Args
	vals  []interface{}
	metas []amf.Object
	show  string
}

var commonURIs = []string{"\"A \\\"x\\\"\" <sip:a@b.c:5070>;tag=1", "sip:x@y;tag=2", "tel:+123", "Anonymous <sips:z@[::1]:5061>", "Mr. X <sip:host>;q=0.7"}

func newCommons() *commons {
	c := &commons{args: sips.Args{"k": "v"}}
	for _, m := range sipMsgs[:3] {
		s := sips.NewSIP()
		s.ParseBytes([]byte(m))
		c.msgs = append(c.msgs, s)
	}
	for _, u := range commonURIs {
		c.users = append(c.users, sips.NewSIPUser(u))
		c.reqs = append(c.reqs, sips.NewSIPRequest("INVITE sip:"+fmt.Sprint(len(c.reqs))+"@h.org:5060 SIP/2.0"))
		c.vias = append(c.vias, sips.NewSIPVia("SIP/2.0/UDP h:5060;branch=z9hG"+fmt.Sprint(len(c.vias))))
		c.cseqs = append(c.cseqs, sips.NewSIPCseq(fmt.Sprint(len(c.cseqs)+1)+" INVITE"))
	}
	for n := 0; n < 16; n++ {
		c.vals = append(c.vals, encodable(n))
	}
	in := amf.Object{"x": "y"}
	c.vals = append(c.vals, in, amf.Array{in, "y", in}, amf.TypedObject{Type: "T", Object: in}, []byte{1, 2, 3}, strings.Repeat("long", 20000), int32(-5))
	for n := 0; n < 4; n++ {
		c.metas = append(c.metas, one(n))
	}
	c.show = c.print()
	return c
}

// print shows everything in it.
func (c *commons) print() string {
	var b strings.Builder
	for _, m := range c.msgs {
		fmt.Fprintf(&b, "%v %v %v %v %q %v\n", m.Version, m.Method, m.ResponseCode, m.ResponseStatus, m.Payload(), map[string][]string(m.Headers))
	}
	for i := range c.users {
		fmt.Fprintf(&b, "%+v %+v %+v %+v\n", *c.users[i], *c.reqs[i], *c.vias[i], *c.cseqs[i])
	}
	fmt.Fprintf(&b, "%v %#v %v", c.args, c.vals, c.metas)
	return b.String()
}

var parOps = map[string][]string{
	"msg": {"get", "typed", "bytes", "build", "respond", "uri", "first"},
	"psi": {"desc", "prog", "pes"},
	"val": {"amf0", "amf3", "ecma", "batch"},
	"hdr": {"get"},
}

var parKinds = append(append([]string{}, sysKinds...), "msg", "psi", "val", "hdr")

func opsOf(kind string) []string {
	if k := parOps[kind]; k != nil {
		return k
	}
	return sysOps[kind]
}

func sortedLines(s string) string {
	l := strings.Split(s, "\r\n")
	sort.Strings(l)
	return strings.Join(l, "\r\n")
}

// parBuild makes an instance that reads the common values.
func parBuild(s Sys, p *pool, c *commons, w *actor, o *Obs) *machine {
	if parOps[s.K] == nil {
		return s.build(p, w, nil, o)
	}
	m := &machine{}
	var mine *sips.SIP
	x0, x3 := amf.NewEnDecAMF0(), amf.NewEnDecAMF3()
	m.op = func(op FOp) (late, error) {
		// writing a typed value sets its Src: everyone has structs of his own, over the same Args
		cu, cr, cv, cc := *c.users[op.N%len(c.users)], *c.reqs[op.N%len(c.reqs)], *c.vias[op.N%len(c.vias)], *c.cseqs[op.N%len(c.cseqs)]
		u, r, via, cs := &cu, &cr, &cv, &cc
		msg := c.msgs[op.N%len(c.msgs)]
		switch s.K + " " + op.K {
		case "msg get":
			var vals []interface{}
			for _, n := range []string{"From", "to", "VIA", "CSeq", "Content-Length", "X-A", "Contact"} {
				vals = append(vals, msg.Headers.GetHeader(n))
			}
			return now("%q %q %v %s %s", vals, msg.Payload(), len(msg.Headers.GetAllHeaders()), msg.Headers.GetFirstHeader("FROM"), msg.Headers.GetCallID()), nil
		case "msg typed":
			h := msg.Headers
			n, err := h.GetContentLength()
			return now("%d %+v %+v %+v %+v %+v", n, *h.GetSIPFrom(), *h.GetSIPTo(), *h.GetSIPContact(), *h.GetSIPCseq(), *h.GetSIPVia()), err
		case "msg bytes":
			ub, rb, vb, cb, hs := u.Bytes(), r.Bytes(), via.Bytes(), cs.Bytes(), msg.Headers.String()
			return func() string { return fmt.Sprintf("%s %s %s %s %s", ub, rb, vb, cb, sortedLines(hs)) }, nil
		case "msg build":
			h := sips.NewSIPHeader()
			h.SetSIPFrom(u)
			to := *c.users[(op.N+1)%len(c.users)]
			h.SetSIPTo(&to)
			h.SetSIPVia(via)
			h.SetSIPContact(r.ToUser())
			h.SetSIPCseq(cs)
			h.SetContentLength(op.P)
			h.SetCallID("id" + strconv.Itoa(op.N))
			h.SetMaxForwards(op.N)
			h.CopyFrom(msg.Headers, "from", "l")
			mine = sips.MakeRequest(sips.SIPMethodInvite, r, h, bytes.Repeat([]byte{'b'}, op.P))
			b := mine.Bytes()
			y := sips.NewSIP()
			err := y.ParseBytes(b)
			return func() string { return sortedLines(string(b)) + showSIP(y) }, err
		case "msg respond":
			h := sips.NewSIPHeader()
			h.CopyFrom(msg.Headers, "from", "to", "via", "cseq")
			h.SetContentLength(0)
			st := []sips.SIPStatus{200, 404, 180, 486, 603, 299}[op.N%6]
			mine = sips.MakeResponse(st, h, nil)
			ms := mine.String()
			return func() string { return sortedLines(ms) + st.Text() + st.String() }, nil
		case "msg uri":
			str := commonURIs[op.N%len(commonURIs)]
			q := sips.NewSIPUser(str)
			me, err := sips.GetSIPMethod([]string{"INVITE", "BYE", "options", "X"}[op.N%4])
			v, _ := sips.GetSIPVersion("SIP/2.0")
			return now("%s %s %s %s %s %v %+v", q.String(), q.ToRequest().String(), r.ToUser().String(), me.String(), v.String(), sips.ParseArgsPairs(`Digest realm="a,b"`), *sips.NewSIPAuth(`Digest username="x", realm="y"`)), err
		case "msg first":
			if mine == nil {
				return now("nothing to do"), nil
			}
			mine.SetBody([]byte{byte('0' + op.N%10)})
			mine.Headers.SetSubject(strconv.Itoa(op.N))
			ms := mine.String()
			return func() string { return sortedLines(ms) }, nil
		case "psi desc":
			d := table.NewDescriptor()
			err := d.NetworkName("net" + strconv.Itoa(op.N))
			err2 := d.Service(1, "prov", strconv.Itoa(op.N))
			err3 := d.CountryAvailability(op.N%2 == 0, uint32(0x434841+op.N))
			if err == nil {
				err = err2
			}
			if err == nil {
				err = err3
			}
			return func() string { return fmt.Sprintf("%x", d.GetBuffer().Bytes()) }, err
		case "psi prog":
			return now("%+v %+v %+v %+v", *table.NewPat(), *table.NewPmt(), *table.NewSdt(), *table.NewProgram()), nil
		case "psi pes":
			pe := table.NewPes()
			n := pe.GeneratePesHeader(packet.PktVideo, op.N*10, int64(op.N)*90, int64(op.P)*90)
			b := bytes.Repeat([]byte{7}, 188)
			pe.WritePcr(b, int64(op.N)*12345)
			return now("%d %+v %x", n, *pe, b), nil
		case "val amf0":
			n, err := x0.Encode(w, c.vals[op.N%len(c.vals)])
			return now("%d", n), err
		case "val amf3":
			n, err := x3.Encode(w, c.vals[op.N%len(c.vals)])
			return now("%d", n), err
		case "val ecma":
			n, err := x0.EncodeEcmaArray(w, c.metas[op.N%len(c.metas)])
			if err == nil {
				_, err = x0.EncodeWithAMF3(w, c.vals[op.N%len(c.vals)])
			}
			return now("%d", n), err
		case "val batch":
			k := op.N % (len(c.vals) - 1)
			err := x0.EncodeBatch(w, c.vals[k:k+2]...)
			if err == nil {
				err = x3.EncodeBatch(w, c.vals[k:k+2]...)
			}
			return now("batch"), err
		}
		_, q := p.find(op.P, anyPkt)
		a, _ := access(q.Header)
		return now("%+v %x", a, q.Media), nil
	}
	return m
}

func checkC01(c ParCase, o *Obs) error {
	if len(c.Pool) == 0 || len(c.Sys) < 2 {
		return nil
	}
	// all at the same time, in front of everything else: what is made at the first use is made here.
	// Nothing is formatted there, since the pool inside fmt would order the goroutines.
	before := raceErrors()
	shared := newPool(c.Pool)
	shared.par = true
	com := newCommons()
	actors := make([]*actor, len(c.Sys))
	obs := make([]*Obs, len(c.Sys))
	panics := make([]string, len(c.Sys))
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for i, s := range c.Sys {
		a := &actor{ops: s.Ops}
		obs[i] = &Obs{classes: map[string]int{}, known: map[string]string{}}
		actors[i] = a
		wg.Add(1)
		go func(i int, s Sys) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[i] = fmt.Sprintf("%v\n%s", e, shortStack())
				}
			}()
			<-gate
			a.m = parBuild(s, shared, com, a, obs[i])
			a.par = true
			for range a.ops {
				a.step()
			}
		}(i, s)
	}
	close(gate)
	wg.Wait()
	for i, s := range c.Sys {
		if panics[i] != "" {
			return fmt.Errorf("system %d (%s) panics: %s", i, s.K, panics[i])
		}
		for k, d := range obs[i].known {
			if err := o.Known(k, d); err != nil {
				return err
			}
		}
		if m := actors[i].m; m.known != nil {
			return fmt.Errorf("system %d (%s): %v", i, s.K, m.known)
		}
	}
	if n := raceErrors() - before; n > 0 {
		return fmt.Errorf("%d data races between instances on goroutines of their own\n%s", n, raceReport())
	}
	if err := shared.unchanged(); err != nil {
		return err
	}
	if s := com.print(); s != com.show {
		return fmt.Errorf("values that were only read have changed: %s", diffBytes([]byte(com.show), []byte(s)))
	}
	done := 0
	for i, s := range c.Sys {
		p := newPool(c.Pool)
		p.par = true
		a := &actor{ops: s.Ops}
		a.m = parBuild(s, p, com, a, &Obs{classes: map[string]int{}, known: map[string]string{}})
		a.par = true
		for range s.Ops {
			a.step()
		}
		a.show()
		actors[i].show()
		for k := range s.Ops {
			o.Class("%s %s", s.K, s.Ops[k].K)
			with, alone := actors[i].results[k], a.results[k]
			if with != alone {
				return fmt.Errorf("system %d (%s), operation %d (%+v): next to the others %v, alone %v, output: %s", i, s.K, k, s.Ops[k], with, alone,
					diffBytes([]byte(alone.out), []byte(with.out)))
			}
			if !alone.err && alone.value != "nothing to do" {
				done++
			}
		}
	}
	if done > 2 {
		o.NonTrivial()
	}
	o.Class("%d goroutines", len(c.Sys))
	o.ClassIf(raceBuild, "under the race detector")
	return nil
}

var logPath = regexp.MustCompile(`log_path=(\S+)`)

// raceReport is the end of this process's log of the race detector.
func raceReport() string {
	m := logPath.FindStringSubmatch(os.Getenv("GORACE"))
	if m == nil {
		return ""
	}
	data, _ := os.ReadFile(fmt.Sprintf("%s.%d", m[1], os.Getpid()))
	if i := bytes.LastIndex(data, []byte("WARNING: DATA RACE")); i >= 0 {
		data = data[i:]
	}
	return clip(string(data), 2000)
}

func genC01(t *rapid.T) ParCase {
	var c ParCase
	c.Pool = genPool(t, intn(t, 1, 6))
	n := pick(t, 2, 2, 3, 4)
	kind := pick(t, parKinds...)
	for i := 0; i < n; i++ {
		if i > 0 && boolean(t) {
			kind = pick(t, parKinds...)
		}
		if parOps[kind] != nil {
			s := Sys{K: kind}
			for k := intn(t, 1, 8); k > 0; k-- {
				s.Ops = append(s.Ops, FOp{K: pick(t, parOps[kind]...), P: intn(t, 0, len(c.Pool)-1), N: intn(t, 0, 40)})
			}
			c.Sys = append(c.Sys, s)
			continue
		}
		c.Sys = append(c.Sys, genSys(t, kind, len(c.Pool), intn(t, 1, 8)))
	}
	if chance(t, 30) { // the same history several times
		for i := range c.Sys {
			c.Sys[i] = c.Sys[0]
		}
	}
	return c
}

func parTour(kind string, off int) Sys {
	if parOps[kind] == nil {
		return tour(kind, off)
	}
	s := Sys{K: kind}
	for i := 0; i < 24; i++ {
		for _, k := range parOps[kind] {
			s.Ops = append(s.Ops, FOp{K: k, P: i + off, N: i + off})
		}
	}
	return s
}

func sweepC01(thorough bool, yield func(ParCase)) {
	// the first case of every shard has everything twice
	for off := 0; off < 8; off++ {
		c := ParCase{Pool: stdPool}
		for i := range parKinds {
			k := parKinds[(i+off*5)%len(parKinds)]
			c.Sys = append(c.Sys, parTour(k, 0), parTour(k, off))
		}
		yield(c)
	}
	for i, a := range parKinds {
		for _, b := range parKinds[i:] {
			for off := 0; off < 3; off++ {
				yield(ParCase{Pool: stdPool, Sys: []Sys{parTour(a, 0), parTour(b, off)}})
			}
		}
	}
}

// fewerOps yields the histories with a part of the operations.
func fewerOps(ops []FOp) (out [][]FOp) {
	for n := len(ops) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(ops); i += n {
			out = append(out, append(append([]FOp{}, ops[:i]...), ops[i+n:]...))
		}
	}
	return out
}

func shrinkC01(c ParCase) (out []ParCase) {
	n := len(c.Sys)
	if n > 2 { // neighbours of one kind first, then any two
		for i := 0; i+1 < n; i++ {
			out = append(out, ParCase{c.Pool, []Sys{c.Sys[i], c.Sys[i+1]}})
		}
		for i := range c.Sys {
			out = append(out, ParCase{c.Pool, append(append([]Sys{}, c.Sys[:i]...), c.Sys[i+1:]...)})
		}
		return out
	}
	for i := range c.Sys {
		for _, ops := range fewerOps(c.Sys[i].Ops) {
			d := ParCase{c.Pool, append([]Sys{}, c.Sys...)}
			d.Sys[i].Ops = ops
			out = append(out, d)
		}
	}
	for k := len(c.Pool) - 1; k > 0 && len(c.Pool) > 1; k-- {
		out = append(out, ParCase{c.Pool[:k], c.Sys})
	}
	return out
}

func init() {
	register(Spec[ParCase]{ID: "C01", Quick: 3000, Thorough: 60000, Gen: genC01, Check: checkC01, Sweep: sweepC01, Shrink: shrinkC01,
		Technique:   techRapid + "goroutines under the race detector, and a differential oracle: each instance next to the others against the same history alone",
		Rule:        "2-4 instances (FLV/TS mixers, TS muxer, tables, parsers, GOP cache, demultiplexer, AMF codecs, SIP messages) with histories of 1-8 operations, each on a goroutine of its own, reading the same packets, values and parsed messages; sweep: every kind twice at once as the first case of every process, then all pairs of kinds with every operation; non-trivial: at least three successful operations",
		Note:        "The binary is built with -race (cgo) and any report counts; if that build fails, only the results are compared, and the class \"under the race detector\" is missing. The systems run at the same time before any of them runs alone, so what is made at the first use is made concurrently.",
		Assumptions: []string{"The race detector reports accesses that no synchronisation orders in the executed histories; races on paths not executed are not seen."}})
}
