package main

import (
	"bufio"
	"bytes"
	"fmt"
	"strings"

	"github.com/moggle-mog/goav/sips"
	"pgregory.net/rapid"
)

// Rep repeats a text at a place.
type Rep struct {
	At int `json:"at"`
	S  Str `json:"s"`
	N  int `json:"n"`
}

// SFuzz is arbitrary input for the SIP parsers: a text, edited.
type SFuzz struct {
	Msg  *SMsg    `json:"msg,omitempty"`
	Part *SParts  `json:"part,omitempty"`
	Args *ArgCase `json:"args,omitempty"`
	Len  Str      `json:"len,omitempty"` // claimed Content-Length
	Raw  Hex      `json:"raw,omitempty"`
	Edit []Edit   `json:"edit,omitempty"`
	Reps []Rep    `json:"reps,omitempty"`
	Size int      `json:"size,omitempty"` // of the reader's buffer
}

func (c SFuzz) text() []byte {
	var b []byte
	if c.Msg != nil {
		m := *c.Msg
		if c.Len != "" {
			m.Lines = append([]SLine{{Name: "content-length", Segs: []Str{c.Len}}}, m.Lines...)
		}
		b = append(b, m.text()...)
	}
	if p := c.Part; p != nil {
		switch {
		case p.Addr != nil:
			b = append(b, p.Addr.text()...)
		case p.URI != nil:
			b = append(b, p.URI.text()...)
		case p.Via != nil:
			b = append(b, p.Via.text()...)
		case p.Cseq != nil:
			b = append(b, p.Cseq.text()...)
		}
	}
	if a := c.Args; a != nil {
		b = append(b, a.Scheme+" "...)
		for _, x := range a.Args {
			b = append(b, x.text()+","...)
		}
	}
	b = append(b, c.Raw...)
	b = applyEdits(b, c.Edit)
	for _, r := range c.Reps {
		n := r.N
		if len(r.S)*n > 1<<20 {
			n = 1 << 20 / len(r.S)
		}
		at := r.At % (len(b) + 1)
		b = append(append(append([]byte{}, b[:at]...), bytes.Repeat([]byte(r.S), n)...), b[at:]...)
	}
	return b
}

func checkS02(c SFuzz, o *Obs) error {
	data := c.text()
	orig := append([]byte(nil), data...)
	text := string(data)
	bound := uint64(200<<10) + 2000*uint64(len(data))
	size := c.Size
	if size < 16 {
		size = 4096
	}
	small := len(data) < 40000 // writing many arguments one by one takes quadratic time
	o.ClassIf(len(data) > 100000, "over 100000 bytes")
	o.ClassIf(len(c.Edit) > 0, "edited")
	o.ClassIf(len(c.Reps) > 0, "repetitions")
	o.ClassIf(c.Len != "", "claimed length")
	if len(data) > 3 {
		o.NonTrivial()
	}
	var write []func()
	w := func(f func()) { write = append(write, f) }
	user := func(u *sips.SIPUser) {
		w(func() { u.Bytes(); _ = u.String(); _ = u.ToRequest().String(); u.ToRequest().ToUser().Bytes() })
	}
	args := func(a sips.Args) {
		w(func() { a.CommaString(); a.SemicolonString(); a.CRLFString(); a.Get("x"); a.Del("x") })
	}
	message := func(s *sips.SIP) {
		w(func() {
			s.Bytes()
			_ = s.String()
			s.Payload()
			s.BaseLayer.LayerContents()
			for _, u := range []*sips.SIPUser{s.From, s.To, s.Contact} {
				if u != nil {
					u.Bytes()
				}
			}
			if s.Via != nil {
				s.Via.Bytes()
			}
			if s.Cseq != nil {
				s.Cseq.Bytes()
			}
		})
	}
	lines := strings.Split(text, "\n")
	if len(lines) > 3 {
		lines = lines[:3]
	}
	ways := []struct {
		name string
		f    func()
	}{
		{"ParseBytes", func() {
			s := sips.NewSIP()
			if s.ParseBytes(data) == nil {
				message(s)
				o.Class("a message")
			}
		}},
		{"Parse", func() {
			br := bufio.NewReaderSize(&chunkReader{data: data, sizes: []int{1, 3, 50}}, size)
			for i := 0; i < 4; i++ { // several messages on the stream
				s := sips.NewSIP()
				if s.Parse(br) != nil {
					break
				}
				message(s)
			}
		}},
		{"ParseHeader", func() {
			s := sips.NewSIP()
			for _, l := range lines {
				s.ParseHeader([]byte(l))
			}
			h := s.Headers
			w(func() { h.Bytes() })
			h.GetAllHeaders()
			h.GetAuthorization()
			h.GetContentLength()
			h.GetCallID()
			h.GetExpires()
			user(h.GetSIPFrom())
			d := sips.NewSIPHeader()
			d.CopyFrom(h, "from", "x", "Via")
			w(func() { d.Bytes() })
		}},
		{"ParseFirstLine", func() {
			s := sips.NewSIP()
			if s.ParseFirstLine(data) == nil {
				message(s)
			}
			s = sips.NewSIP()
			if s.ParseFirstLine([]byte(strings.TrimRight(lines[0], "\r"))) == nil {
				message(s)
			}
		}},
		{"NewSIPUser", func() { user(sips.NewSIPUser(text)) }},
		{"NewSIPRequest", func() {
			r := sips.NewSIPRequest(text)
			w(func() { r.Bytes(); _ = r.String() })
			user(r.ToUser())
		}},
		{"NewSIPVia", func() { v := sips.NewSIPVia(text); w(func() { v.Bytes() }) }},
		{"NewSIPCseq", func() { q := sips.NewSIPCseq(text); w(func() { q.Bytes() }) }},
		{"NewSIPAuth", func() { args(sips.NewSIPAuth(text).Args); args(sips.NewSIPAuth("Digest " + text).Args) }},
		{"ParseArgs", func() { args(sips.ParseArgs(text)) }},
		{"ParseArgsPairs", func() { args(sips.ParseArgsPairs(text)); sips.NewArgs().ParseList(text) }},
		{"Substring", func() {
			n := len(text)
			at := []int{-1 << 63, -n - 1, -1, 0, 1, n / 2, n - 1, n, n + 1, 1<<63 - 1}
			for _, from := range at {
				for _, to := range at {
					sub := sips.Substring(text, from, to)
					lo, hi := min(max(from, 0), n), min(max(to, 0), n)
					if want := text[min(lo, hi):hi]; sub != want {
						panic(fmt.Sprintf("Substring(text, %d, %d) has %d bytes, want %d", from, to, len(sub), len(want)))
					}
				}
			}
		}},
		{"GetSIPMethod", func() { sips.GetSIPMethod(text); sips.GetSIPVersion(text) }},
	}
	for _, x := range ways {
		var perr error
		write = nil
		a := allocated(func() { perr = safe(x.f) })
		if perr != nil {
			return fmt.Errorf("%s: %v\ninput: %q", x.name, perr, clip(text, 600))
		}
		if a > bound {
			return fmt.Errorf("%s allocates %d bytes for %d bytes of input (bound %d)\ninput: %q", x.name, a, len(data), bound, clip(text, 600))
		}
		if !bytes.Equal(data, orig) {
			return fmt.Errorf("%s changed its input", x.name)
		}
		if !small {
			continue
		}
		for _, f := range write {
			if err := safe(f); err != nil {
				return fmt.Errorf("serialising what %s returned: %v\ninput: %q", x.name, err, clip(text, 600))
			}
		}
	}
	return nil
}

var sipBits = []string{"\r\n", "\n", " ", "\t", ":", ";", ",", "=", "\"", "\\", "<", ">", "@", "[", "]", "sip:", "sips:", "tel:", "SIP/2.0", "SIP/2.0/UDP ", "INVITE ", "Content-Length:", "l:", "Digest ",
	"\r\n ", "\n\t", "a:", "::", "\"\"", "=\"", "<>", "<sip:", "\x00", "\xff", "é", "Via:", "x=\"", "f:", "99999999999999999999", "-1", "\r"}

func genS02(t *rapid.T) SFuzz {
	var c SFuzz
	switch pick(t, 0, 0, 1, 1, 2, 3, 4, 5) {
	case 0:
		m := genSMsg(t)
		c.Msg = &m
		if boolean(t) {
			c.Len = Str(pick(t, "2147483647", "9223372036854775807", "99999999999", "-1", "0", "1e9", "", "18446744073709551616", " ", "x", "5x", "+5", "1073741824", "4294967296"))
		}
	case 1:
		p := genS04(t)
		c.Part = &p
	case 2:
		a := genS06(t)
		c.Args = &a
	case 3:
		c.Raw = genBytes(t, 60)
	case 5:
		c.Raw = Hex(pick(t, "Digest", "digest ", "Authorization: Digest", "SIP/2.0/", "SIP/2.0/SCTP", "sip:", "sips", "tel:", "\"", "1 ", "SIP/2.0 "))
	case 4:
		for i := intn(t, 1, 20); i > 0; i-- {
			c.Raw = append(c.Raw, pick(t, sipBits...)...)
		}
	}
	for i := pick(t, 0, 1, 1, 2, 4); i > 0; i-- {
		e := Edit{At: spread(t, 0, 600), Del: pick(t, 0, 0, 1, 2, 10, 400)}
		if boolean(t) {
			e.Ins = Hex(pick(t, sipBits...))
		} else {
			e.Ins = genBytes(t, 3)
		}
		c.Edit = append(c.Edit, e)
	}
	if chance(t, 8) {
		c.Reps = append(c.Reps, Rep{At: spread(t, 0, 300), S: Str(pick(t, sipBits...) + pick(t, append(sipBits, "")...)), N: pick(t, 5, 100, 3000)})
	}
	c.Size = pick(t, 0, 16, 64)
	return c
}

func sweepS02(thorough bool, yield func(SFuzz)) {
	for _, a := range sipBits {
		yield(SFuzz{Raw: Hex(a)})
		for _, b := range sipBits {
			yield(SFuzz{Raw: Hex(a + b)})
			for _, d := range sipBits {
				yield(SFuzz{Raw: Hex(a + b + d)})
			}
		}
	}
	sizes := []int{100000}
	if thorough {
		sizes = []int{100000, 1000000}
	}
	for _, a := range sipBits {
		for _, n := range sizes {
			yield(SFuzz{Reps: []Rep{{S: Str(a), N: n / len(a)}}})
			yield(SFuzz{Raw: Hex("INVITE sip:a@b SIP/2.0\r\nl: 0\r\nFrom: x\r\n\r\n"), Reps: []Rep{{At: 37, S: Str(a + "1"), N: n / (len(a) + 1)}}})
			yield(SFuzz{Raw: Hex("sip:"), Reps: []Rep{{At: 4, S: Str(a + "1"), N: n / (len(a) + 1)}}})
			yield(SFuzz{Raw: Hex("<sip:a@b>;x=\"1\""), Reps: []Rep{{At: 9, S: Str(a + "1"), N: n / (len(a) + 1)}}})
		}
	}
	m := SMsg{URI: SURI{Scheme: "sip", Host: "h"}, Len: SLine{Name: "l"}, Body: Blob{N: 3}}
	for _, l := range []Str{"2147483647", "9223372036854775807", "-9223372036854775808", "99999999999", "-1", "4294967296", "1073741824", "100000000", "10000000", "", "x"} {
		x := m
		yield(SFuzz{Msg: &x, Len: l})
	}
	// every prefix and every changed byte of well formed parts
	for _, text := range []string{`Digest username="Al\\"ice", realm=a,uri="sip:a,b@c", nc=1,,x`, "DIGEST a=b", "Basic a=b", "SIP/2.0/UDP [::1]:5060;branch=z;rport", "SIP/2.0/SCTP h:1", "SIP/2.0/TLS h", `"Q \" x" <sip:a:b@c:1;lr>;tag=1`, "Bob <sips:[::1]:5>;x",
		"tel:+1;x=y", "sip:a;b@[2001:db8::1]:1;c=d;e", "314159 INVITE", "SUBSCRIBE", "SIP/2.0", "SIP/1.0 200 OK", "INVITE sip:a@b SIP/2.0", "Authorization: Digest a=b", "Authorization:Digest", ";a=\"x;y\";b;c=d", "a=\"x\\", "l: 5\r\n", "Contact: <sip:a@b>;q=0.1\r\n , <sip:c@d>", "t: \"", "v: SIP/2.0/", "f: <sip:", "m: sips"} {
		for i := 0; i <= len(text); i++ {
			for _, ins := range []string{"", " ", "\"", ";", ",", "=", "@", "]", "\n", "\\", "<", ":"} {
				yield(SFuzz{Raw: Hex(text[:i] + ins)})
				if i < len(text) {
					yield(SFuzz{Raw: Hex(text[:i] + ins + text[i+1:])})
					yield(SFuzz{Raw: Hex(ins + text[i:])})
				}
			}
		}
	}
	// every prefix and every changed byte of a full message
	full := m
	full.Lines = []SLine{{Name: "Via", Segs: []Str{"SIP/2.0/UDP [::1]:5060;branch=z"}}, {Name: "f", Segs: []Str{`"Q \" x" <sip:a:b@c:1;lr>;tag=1`}}, {Name: "CSeq", Segs: []Str{"1", "ACK"}}}
	n := len(full.text())
	for i := 0; i < n; i++ {
		y := full
		yield(SFuzz{Msg: &y, Edit: []Edit{{At: i, Del: n}}})
		for _, b := range []string{"", " ", "\n", "\r\n", ":", "\"", "\x00", "<", "@"} {
			yield(SFuzz{Msg: &y, Edit: []Edit{{At: i, Del: 1, Ins: Hex(b)}}})
		}
	}
}

func init() {
	register(Spec[SFuzz]{ID: "S02", Quick: 8000, Thorough: 500000, CaseCPU: 20, Gen: genS02, Check: checkS02, Sweep: sweepS02,
		Technique: techRapid + "structure-aware fuzzing: messages, lines and argument lists with edits and repetitions, and token soup; survival and allocation bounds as oracle",
		Rule:      "each input goes through every parser; sweep: all triples of 39 tokens, every prefix and byte replacement of a message, tokens repeated to 100000 bytes (thorough 1000000), claimed lengths up to 2^63; non-trivial: more than three bytes",
		Note:      "At most 200 KB + 2000 bytes per input byte may be allocated by a parser, and one input may take 20 s of CPU time. Only messages parsed without error are serialised."})
}
