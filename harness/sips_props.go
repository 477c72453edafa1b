package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/moggle-mog/goav/sips"
	"pgregory.net/rapid"
)

// convenience compares the convenience fields of a parsed message with its headers.
func convenience(p *sips.SIP) error {
	h := func(n string) string { return p.Headers.GetFirstHeader(n) }
	if p.From == nil || p.To == nil || p.Contact == nil || p.Cseq == nil || p.Via == nil {
		return fmt.Errorf("a convenience field is nil")
	}
	for _, x := range []struct{ what, got, want string }{
		{"From", userParts(p.From), userParts(sips.NewSIPUser(h("from")))},
		{"To", userParts(p.To), userParts(sips.NewSIPUser(h("to")))},
		{"Contact", userParts(p.Contact), userParts(sips.NewSIPUser(h("contact")))},
		{"CSeq", cseqParts(p.Cseq), cseqParts(sips.NewSIPCseq(h("cseq")))},
		{"Via", viaParts(p.Via), viaParts(sips.NewSIPVia(h("via")))},
	} {
		if x.got != x.want {
			return fmt.Errorf("field %s: %s, its header gives %s", x.what, clip(x.got, 400), clip(x.want, 400))
		}
	}
	return nil
}

func mkArgs(m map[string]string) sips.Args {
	a := sips.NewArgs()
	for k, v := range m {
		a.Set(k, v)
	}
	return a
}

func mkURI(u SURI) *sips.SIPRequest {
	r := sips.NewSIPRequest("")
	r.URIType, r.User, r.Host, r.Port, r.Args = u.Scheme, string(u.User), u.Host, u.Port, mkArgs(argMap(u.Args))
	return r
}

func mkUser(a SAddr) *sips.SIPUser {
	u := sips.NewSIPUser("")
	u.Name, u.URIType, u.User, u.Host, u.Port, u.Args = a.name(), a.Scheme, string(a.User), a.Host, a.Port, mkArgs(a.args())
	return u
}

func mkVia(v SVia) *sips.SIPVia {
	x := sips.NewSIPVia("")
	x.Trans, x.Host, x.Port, x.Args = v.Trans, v.Host, v.Port, mkArgs(argMap(v.Args))
	return x
}

func mkCseq(c SCseq) *sips.SIPCseq {
	x := sips.NewSIPCseq("")
	x.ID, x.Method = c.ID, c.M
	return x
}

// ---------------------------------------------------------------- S01

// SHdr is a header of a message that is built.
type SHdr struct {
	Name string `json:"n"`           // lower case
	Mask int    `json:"m,omitempty"` // letter case used
	Raw  bool   `json:"raw,omitempty"`
	Vals []Str  `json:"v,omitempty"` // Raw: put into the map directly, any number of values
	Pad  int    `json:"pad,omitempty"`
}

func (h SHdr) vals() (out []string) {
	for i, v := range h.Vals {
		s := string(v)
		if i == 0 && h.Pad > 0 {
			s += strings.Repeat("p", h.Pad)
		}
		out = append(out, s)
	}
	return out
}

// SBuild is a message to build.
type SBuild struct {
	Method int    `json:"meth,omitempty"` // index; -1: a response
	Code   int    `json:"code,omitempty"` // index
	Ver1   bool   `json:"v1,omitempty"`
	URI    SURI   `json:"uri"`
	From   *SAddr `json:"from,omitempty"`
	To     *SAddr `json:"to,omitempty"`
	Cont   *SAddr `json:"contact,omitempty"`
	Via    *SVia  `json:"via,omitempty"`
	CSeq   *SCseq `json:"cseq,omitempty"`
	Hdrs   []SHdr `json:"hdrs,omitempty"`
	Body   Blob   `json:"body"`
	Share  int    `json:"share,omitempty"` // length+1 of the body of another message that uses the same headers
	Edit   []int  `json:"edit,omitempty"`  // changes made to the message between writing it
}

// edit changes one thing of a message that was written, mostly to something of the same length,
// and the description of the message accordingly.
func (c *SBuild) edit(k int, s *sips.SIP, want map[string][]string) string {
	n := k / 8
	swap := func(v string, b byte) string { // same length, another letter
		if v == "" {
			return string(b)
		}
		if v[0] == b {
			b++
		}
		return string(b) + v[1:]
	}
	switch k % 8 {
	case 0, 1: // the body, at its place or another one
		body := append([]byte(nil), s.Payload()...)
		if len(body) == 0 {
			return ""
		}
		body[n%len(body)] ^= byte(1 + n%255)
		if k%8 == 0 {
			s.SetBody(body)
		} else {
			s.Payload()[n%len(body)] = body[n%len(body)]
		}
		c.Body = Blob{Head: body}
		return "body"
	case 2:
		if c.Method < 0 {
			c.Code = n % len(sipStatus)
			s.ResponseCode = sipStatus[c.Code].C
			return "code"
		}
		c.Method = n % len(sipMethods)
		s.Method = sipMethods[c.Method].M
		return "method"
	case 3, 4:
		if c.Method < 0 || c.URI.Host == "" {
			return ""
		}
		c.URI.Host = swap(c.URI.Host, byte('a'+n%20))
		if strings.ContainsAny(c.URI.Host, "[]:") {
			c.URI.Host = "h"
		}
		if k%8 == 3 {
			s.Request.Host = mkURI(c.URI).Host
		} else {
			s.Request = mkURI(c.URI)
		}
		return "URI"
	case 5:
		c.Ver1 = !c.Ver1
		s.Version = sips.SIPVersion2
		if c.Ver1 {
			s.Version = sips.SIPVersion1
		}
		return "version"
	}
	// a header value, by the setter or in the map
	var names []string
	for name := range s.Headers {
		l := strings.ToLower(name)
		if len(s.Headers[name]) > 0 && (len(want[l]) > 0 && l != "content-length") && c.custom(l) {
			names = append(names, name)
		}
	}
	if len(names) == 0 {
		return ""
	}
	sort.Strings(names)
	name := names[n%len(names)]
	v := swap(s.Headers[name][0], byte('a'+n%20))
	if k%8 == 6 || len(s.Headers[name]) > 1 {
		s.Headers[name][0] = v
	} else {
		s.Headers.SetFirstHeader(name, v)
	}
	l := strings.ToLower(name)
	want[l] = append([]string{v}, want[l][1:]...)
	return "header"
}

// custom tells whether a header is one of those without a form of its own.
func (c *SBuild) custom(l string) bool {
	switch l {
	case "from", "to", "contact", "via", "cseq", "f", "t", "m", "v":
		return false
	}
	for _, h := range c.Hdrs {
		if h.Name == l {
			return true
		}
	}
	return false
}

func (c SBuild) build(o *Obs) (*sips.SIP, sips.SIPHeader, map[string][]string) {
	h := sips.NewSIPHeader()
	want := map[string][]string{}
	if c.From != nil {
		u := mkUser(*c.From)
		h.SetSIPFrom(u)
		want["from"] = []string{h.GetFirstHeader("from")}
	}
	if c.To != nil {
		h.SetSIPTo(mkUser(*c.To))
		want["to"] = []string{h.GetFirstHeader("to")}
	}
	if c.Cont != nil {
		h.SetSIPContact(mkUser(*c.Cont))
		want["contact"] = []string{h.GetFirstHeader("contact")}
	}
	if c.Via != nil {
		h.SetSIPVia(mkVia(*c.Via))
		want["via"] = []string{h.GetFirstHeader("via")}
	}
	if c.CSeq != nil {
		h.SetSIPCseq(mkCseq(*c.CSeq))
		want["cseq"] = []string{h.GetFirstHeader("cseq")}
	}
	for _, x := range c.Hdrs {
		if _, ok := want[x.Name]; ok {
			continue // names are unique
		}
		vs := x.vals()
		if x.Raw {
			h[caseOf(x.Name, x.Mask)] = append([]string{}, vs...)
		} else if len(vs) > 0 {
			vs = vs[:1]
			h.SetFirstHeader(caseOf(x.Name, x.Mask), vs[0])
		}
		if len(vs) > 0 {
			want[x.Name] = vs
		}
		if x.Name == "content-length" || x.Name == "l" {
			o.Class("preset length")
		}
	}
	delete(want, "content-length")
	delete(want, "l")
	want["content-length"] = []string{strconv.Itoa(c.Body.Len())}
	var s *sips.SIP
	if c.Method < 0 && c.Body.Len()%3 == 1 { // headers and body put in later
		s = sips.MakeResponse(sipStatus[c.Code].C, sips.NewSIPHeader(), nil)
		s.SetHeader(h)
		s.SetBody(c.Body.Bytes())
	} else if c.Method >= 0 && c.Body.Len()%3 == 1 {
		s = sips.MakeRequest(sipMethods[c.Method].M, mkURI(c.URI), sips.NewSIPHeader(), nil)
		s.SetBody(c.Body.Bytes())
		s.SetHeader(h)
	} else if c.Method < 0 {
		s = sips.MakeResponse(sipStatus[c.Code].C, h, c.Body.Bytes())
	} else {
		s = sips.MakeRequest(sipMethods[c.Method].M, mkURI(c.URI), h, c.Body.Bytes())
	}
	if len(h) == 0 { // as MakeRequest takes no empty header
		h = s.Headers
	}
	if c.Ver1 {
		s.Version = sips.SIPVersion1
	}
	return s, h, want
}

func (c SBuild) version() string {
	if c.Ver1 {
		return "SIP/1.0"
	}
	return "SIP/2.0"
}

// wire checks a serialised message against what was put in.
func (c SBuild) wire(out string, want map[string][]string, body string, o *Obs) (wireMsg, error) {
	m, err := readWire(out)
	if err != nil {
		return m, err
	}
	parts := strings.SplitN(m.start, " ", 3)
	if len(parts) != 3 {
		return m, fmt.Errorf("start line %q", m.start)
	}
	if c.Method < 0 {
		if parts[0] != c.version() || parts[1] != strconv.Itoa(sipStatus[c.Code].Code) {
			return m, fmt.Errorf("start line %q, want %s %d", m.start, c.version(), sipStatus[c.Code].Code)
		}
	} else {
		if parts[0] != sipMethods[c.Method].S || parts[2] != c.version() {
			return m, fmt.Errorf("start line %q, want %s ... %s", m.start, sipMethods[c.Method].S, c.version())
		}
		u, err := strictURI(parts[1])
		if err != nil {
			return m, err
		}
		if g := u.parts(""); g != c.URI.parts() {
			return m, fmt.Errorf("start line %q: %s, want %s", m.start, g, c.URI.parts())
		}
	}
	got, folded := merged(m.hdrs)
	for k, w := range want {
		if eqStrs(got[k], w) {
			continue
		}
		if len(w) > 1 && folded[k] && len(got[k]) == 1 {
			var lines []string
			for _, h := range m.hdrs {
				if strings.ToLower(h.name) == k {
					lines = h.vals
				}
			}
			if eqStrs(lines, w) {
				if err := o.Known("S01-folded-values", fmt.Sprintf("the %d values of header %s are written as one folded value", len(w), k)); err != nil {
					return m, err
				}
				continue
			}
		}
		return m, fmt.Errorf("header %s on the wire: %s, want %s", k, clipStrs(got[k]), clipStrs(w))
	}
	if len(got) != len(want) {
		return m, fmt.Errorf("%d headers on the wire, want %d: %s", len(got), len(want), clip(fmt.Sprintf("%q", got), 300))
	}
	if !m.blank {
		if body != "" {
			return m, fmt.Errorf("no blank line before the body")
		}
		if err := o.Known("S01-no-blank-line", "a message without body is written without the blank line that ends the header section"); err != nil {
			return m, err
		}
	}
	if m.body != body {
		return m, fmt.Errorf("body on the wire: %s", diffBytes([]byte(body), []byte(m.body)))
	}
	return m, nil
}

// stripPayload returns the body of a parsed message, given what it should be.
func stripPayload(key string, payload, body string, o *Obs) error {
	if payload == body {
		return nil
	}
	for _, sep := range []string{"\r\n", "\n"} {
		if payload == sep+body {
			return o.Known(key, "Payload of a parsed message begins with the blank line that ends the header section")
		}
	}
	return fmt.Errorf("body: %s", diffBytes([]byte(body), []byte(payload)))
}

func checkS01(c SBuild, o *Obs) error {
	if c.Method >= len(sipMethods) || c.Code < 0 || c.Code >= len(sipStatus) {
		return nil
	}
	if c.Code%4 > 0 { // a part of the cases runs twice
		return buildOnce(c, o, &owned{})
	}
	return twice(func(k *owned) error { return buildOnce(c, o, k) })
}

func buildOnce(c SBuild, o *Obs, k *owned) error {
	s, h, want := c.build(o)
	body := string(c.Body.Bytes())
	first := s.Bytes()
	out := s.String()
	k.add("Bytes", first)
	m, err := c.wire(out, want, body, o)
	if err != nil {
		return fmt.Errorf("serialised: %v\nmessage: %q", err, clip(out, 600))
	}
	if string(s.Payload()) != body {
		return fmt.Errorf("serialising changed the body")
	}
	if c.Share > 0 { // the same headers in another message
		x := sips.MakeResponse(sips.StatusOK, h, make([]byte, c.Share-1))
		if mm, err := readWire(x.String()); err != nil {
			return fmt.Errorf("second message with the same headers: %v", err)
		} else if got, _ := merged(mm.hdrs); !eqStrs(got["content-length"], []string{strconv.Itoa(c.Share - 1)}) {
			return fmt.Errorf("second message with the same headers: Content-Length %q for %d bytes", got["content-length"], c.Share-1)
		}
		o.Class("shared headers")
	}
	out = string(s.Bytes())
	if m, err = c.wire(out, want, body, o); err != nil {
		return fmt.Errorf("serialised again: %v\nmessage: %q", err, clip(out, 600))
	}
	for _, e := range c.Edit {
		what := c.edit(e, s, want)
		if what == "" {
			continue
		}
		body = string(c.Body.Bytes())
		b := s.Bytes()
		k.add("Bytes after an edit", b)
		out = string(b)
		if m, err = c.wire(out, want, body, o); err != nil {
			return fmt.Errorf("serialised after the %s was changed: %v\nmessage: %q", what, err, clip(out, 600))
		}
		o.Class("edited %s", what)
	}

	p := sips.NewSIP()
	if err := lent([]byte(out), p.ParseBytes); err != nil {
		return fmt.Errorf("parse: %v\nmessage: %q", err, clip(out, 600))
	}
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("parsed: "+f+"\nmessage: %q", append(a, clip(out, 600))...)
	}
	wv := sips.SIPVersion2
	if c.Ver1 {
		wv = sips.SIPVersion1
	}
	if p.Version != wv {
		return fail("version %v", p.Version)
	}
	if c.Method < 0 {
		if !p.IsResponse || int(p.ResponseCode) != sipStatus[c.Code].Code {
			return fail("response %v, code %d, want %d", p.IsResponse, p.ResponseCode, sipStatus[c.Code].Code)
		}
		if parts := strings.SplitN(m.start, " ", 3); p.ResponseStatus != parts[2] {
			return fail("reason %q", p.ResponseStatus)
		}
		o.Class("response")
	} else {
		if p.IsResponse || p.Method != sipMethods[c.Method].M || p.Request == nil {
			return fail("response %v, method %v, request %v", p.IsResponse, p.Method, p.Request)
		}
		if g := reqParts(p.Request); g != c.URI.parts() {
			return fail("URI %s, want %s", g, c.URI.parts())
		}
		o.Class("request")
	}
	wire, _ := merged(m.hdrs) // equals want except for the recorded finding
	for k, w := range wire {
		if g := p.Headers.GetHeader(k); !eqStrs(g, w) {
			return fail("header %s: %s, want %s", k, clipStrs(g), clipStrs(w))
		}
	}
	n := 0
	for _, v := range p.Headers {
		if len(v) > 0 {
			n++
		}
	}
	if n != len(wire) {
		return fail("%d headers, want %d", n, len(wire))
	}
	if l, err := p.Headers.GetContentLength(); err != nil || l != len(body) {
		return fail("Content-Length %d, %v, for %d bytes", l, err, len(body))
	}
	if err := stripPayload("S01-payload-separator", string(p.Payload()), body, o); err != nil {
		return fail("%v", err)
	}
	if err := convenience(p); err != nil {
		return fail("%v", err)
	}
	if c.From != nil {
		if g := userParts(p.From); g != c.From.parts() {
			return fail("From %s, want %s", g, c.From.parts())
		}
	}
	if c.To != nil {
		if g := userParts(p.To); g != c.To.parts() {
			return fail("To %s, want %s", g, c.To.parts())
		}
	}
	if c.Cont != nil {
		if g := userParts(p.Contact); g != c.Cont.parts() {
			return fail("Contact %s, want %s", g, c.Cont.parts())
		}
	}
	if c.Via != nil {
		if g := viaParts(p.Via); g != c.Via.parts() {
			return fail("Via %s, want %s", g, c.Via.parts())
		}
	}
	if c.CSeq != nil {
		if p.Cseq.ID != c.CSeq.ID || p.Cseq.Method != c.CSeq.M {
			return fail("CSeq %s", cseqParts(p.Cseq))
		}
	}
	// and back again
	k.add("Payload", p.Payload())
	k.add("LayerContents", p.LayerContents())
	p.SetBody([]byte(body))
	again := p.Bytes()
	if _, err := c.wire(string(again), wire, body, o); err != nil {
		return fmt.Errorf("parsed and serialised again: %v\nmessage: %q", err, clip(out, 600))
	}
	// what was serialised stays, whatever the message becomes
	p.SetBody(make([]byte, len(body)/2))
	p.Headers.SetSubject("another one")
	k.add("Bytes of the parsed message", again)
	k.add("Bytes of the changed message", p.Bytes())
	k.add("Parse", p)
	if err := k.same(); err != nil {
		return err
	}
	if len(want) > 1 || len(body) > 0 {
		o.NonTrivial()
	}
	o.ClassIf(len(out) > 4096, "over 4096 bytes")
	o.ClassIf(c.Ver1, "SIP/1.0")
	for _, x := range c.Hdrs {
		o.ClassIf(x.Pad > 4000, "line over 4000 bytes")
		o.ClassIf(len(x.Vals) > 1, "several values")
		o.ClassIf(len(x.Vals) == 0, "header without values")
	}
	return nil
}

func genBody(t *rapid.T) Blob {
	switch pick(t, 0, 1, 1, 2, 3) {
	case 0:
		return Blob{}
	case 1:
		return genBlob(t, 40)
	case 2:
		return Blob{Head: Hex(pick(t, "\r\n", "\n", "\r\n\r\n", " x", "a: b\r\n\r\n", "\r", "\x00", "SIP/2.0 200 OK\r\nl: 0\r\n\r\n")), N: intn(t, 0, 5), Pat: intn(t, 0, 9)}
	}
	return blobOfLen(t, pick(t, 4096, 4095, 9, 10, 99, 100, 999, 1000, spread(t, 0, 70000)))
}

func genS01(t *rapid.T) SBuild {
	c := SBuild{Method: intn(t, -1, len(sipMethods)-1), Code: intn(t, 0, len(sipStatus)-1), Ver1: chance(t, 15), URI: genURI(t, true), Body: genBody(t)}
	if c.Method < 0 {
		c.URI = SURI{Scheme: "sip"}
	} else {
		c.URI.Args = genArgs(t, 3, false, false)
	}
	addr := func(p int) *SAddr {
		if !chance(t, p) {
			return nil
		}
		a := genAddr(t, false)
		return &a
	}
	c.From, c.To, c.Cont = addr(50), addr(50), addr(30)
	if chance(t, 50) {
		v := genVia(t, false)
		c.Via = &v
	}
	if chance(t, 50) {
		x := genCseq(t, false)
		c.CSeq = &x
	}
	seen := map[string]bool{}
	for i := intn(t, 0, 5); i > 0; i-- {
		x := SHdr{Mask: genMask(t), Raw: boolean(t)}
		switch pick(t, 0, 0, 1, 2, 3) {
		case 0:
			x.Name = pick(t, customNames...)
		case 1:
			x.Name = pick(t, fullNames...)
		case 2:
			x.Name = strings.ToLower(genFrom(t, tokenChars, 1, 8))
		case 3:
			x.Name = pick(t, "content-length", "l", "v", "f", "content-length")
		}
		comp, full := compactForms[x.Name], ""
		for f, s := range compactForms {
			if s == x.Name {
				full = f
			}
		}
		if seen[x.Name] || comp != "" && seen[comp] || full != "" && (seen[full] || full == "from" && c.From != nil || full == "via" && c.Via != nil ||
			full == "to" && c.To != nil || full == "contact" && c.Cont != nil) {
			continue
		}
		seen[x.Name] = true
		n := 1
		if x.Raw {
			n = pick(t, 1, 1, 0, 2, 3)
		}
		for k := 0; k < n; k++ {
			x.Vals = append(x.Vals, genValue(t))
		}
		if chance(t, 10) && n > 0 {
			x.Pad = pick(t, 4080, 4096, 8192, spread(t, 1, 70000))
		}
		c.Hdrs = append(c.Hdrs, x)
	}
	if chance(t, 20) {
		c.Share = intn(t, 1, 200)
	}
	if chance(t, 30) {
		for i := intn(t, 1, 3); i > 0; i-- {
			c.Edit = append(c.Edit, intn(t, 0, 799))
		}
	}
	return c
}

// manyArgs is a list of min(n, top) parameters with distinct names.
func manyArgs(n, top int) (out []SArg) {
	for i := 0; i < min(n, top); i++ {
		out = append(out, SArg{K: Str("k" + strconv.Itoa(i)), V: Str("v" + strconv.Itoa(i*7))})
	}
	return out
}

func sweepS01(thorough bool, yield func(SBuild)) {
	u := SURI{Scheme: "sip", User: "a", Host: "b.c", Port: "5060"}
	for i := range sipMethods {
		yield(SBuild{Method: i, URI: u})
		yield(SBuild{Method: i, URI: u, Ver1: true, Body: Blob{N: i}})
	}
	for i := range sipStatus {
		yield(SBuild{Method: -1, Code: i, URI: u})
		yield(SBuild{Method: -1, Code: i, Ver1: true, URI: u, Body: Blob{N: i}})
	}
	for n := 0; n < 140; n++ {
		yield(SBuild{Method: n % 15, URI: u, Body: Blob{N: n, Pat: n}, Hdrs: []SHdr{{Name: "content-length", Mask: n, Raw: n%2 == 0, Vals: []Str{"7"}}}})
		yield(SBuild{Method: n % 15, URI: u, Body: Blob{N: n, Pat: n}, Hdrs: []SHdr{{Name: "l", Mask: n, Raw: n%2 == 0, Vals: []Str{"7"}}}})
	}
	yield(SBuild{URI: u, Body: Blob{N: 5}, Hdrs: []SHdr{{Name: "x-a", Raw: true, Vals: []Str{"1", "2", ""}}, {Name: "x-b", Raw: true}}})
	for _, n := range []int{200, 256, 3000, 4070, 4080, 4090, 4096, 5000, 32768, 40000, 65536, 70000} {
		yield(SBuild{URI: u, Body: Blob{N: n}, Hdrs: []SHdr{{Name: "x-a", Vals: []Str{"1"}, Pad: n}}})
	}
	// sizes far beyond ordinary messages
	for _, n := range []int{30, 40, 70, 140, 300, 1100, 4200, 11000} {
		c := SBuild{URI: u, Body: Blob{N: n}}
		for i := 0; i < n; i++ {
			c.Hdrs = append(c.Hdrs, SHdr{Name: "x-" + strconv.Itoa(i), Raw: i%2 == 0, Mask: -1 * (i & 1), Vals: []Str{Str(strconv.Itoa(i))}})
		}
		yield(c)
	}
	for _, n := range []int{1 << 17, 1 << 18, 1 << 20, 3 << 20, 1 << 24} {
		yield(SBuild{URI: u, Body: Blob{N: n + 7, Pat: 3}})
		yield(SBuild{Method: -1, URI: u, Body: Blob{N: 3}, Hdrs: []SHdr{{Name: "x-a", Vals: []Str{"1"}, Pad: n + 9}}})
	}
	for _, n := range []int{40, 200, 255, 256, 300, 1100, 5000, 32768, 40000, 65535, 65536, 70000} {
		long := strings.Repeat("abcdefghij", n/10+1)[:n]
		x := SURI{Scheme: "sip", User: Str(long), Host: "h" + long, Args: manyArgs(n, 300)}
		yield(SBuild{URI: x})
		a := SAddr{SURI: SURI{Scheme: "sips", User: "u", Host: "h", Port: "1"}, Name: Str(long), Form: 3, Out: manyArgs(n, 300)}
		yield(SBuild{URI: u, From: &a, To: &SAddr{SURI: u, Name: "x", Form: 3}, Via: &SVia{Trans: "TCP", Host: long, Args: manyArgs(n, 300), Gap: " "}, CSeq: &SCseq{ID: strings.Repeat("7", n), M: long, Gap: " "}})
	}
	for _, f := range fullNames {
		yield(SBuild{URI: u, Hdrs: []SHdr{{Name: f, Vals: []Str{"sip:a@b"}}}})
		yield(SBuild{URI: u, Hdrs: []SHdr{{Name: compactForms[f], Mask: -1, Vals: []Str{"sip:a@b;x=1"}}}, Body: Blob{N: 2}})
	}
}

// ---------------------------------------------------------------- S03

// SLine is a header of a message on a stream.
type SLine struct {
	Name string   `json:"n"` // as written
	Pre  string   `json:"pre,omitempty"`
	Post string   `json:"post,omitempty"`
	Segs []Str    `json:"s"`           // lines of the value
	Fold []string `json:"f,omitempty"` // blanks that begin and end the continuation lines
	LF   int      `json:"lf,omitempty"`
}

func (l SLine) fold(i int) string {
	if len(l.Fold) == 0 || l.Fold[i%len(l.Fold)] == "" {
		return " "
	}
	return l.Fold[i%len(l.Fold)]
}

func eol(lf bool) string {
	if lf {
		return "\n"
	}
	return "\r\n"
}

func (l SLine) text() string {
	var out strings.Builder
	out.WriteString(l.Name + l.Pre + ":" + l.Post)
	for i, s := range l.Segs {
		if i > 0 {
			out.WriteString(eol(l.LF>>uint(i-1)&1 == 1) + l.fold(2*i))
		}
		out.WriteString(string(s))
		if i+1 < len(l.Segs) && len(l.Fold) > 1 {
			out.WriteString(l.Fold[(2*i+1)%len(l.Fold)])
		}
	}
	return out.String() + eol(l.LF>>uint(len(l.Segs))&1 == 1)
}

func (l SLine) value() string {
	var ss []string
	for _, s := range l.Segs {
		ss = append(ss, string(s))
	}
	return joinFolds(ss)
}

// SMsg is a message on a stream.
type SMsg struct {
	Method  int     `json:"meth,omitempty"`
	Mask    int     `json:"mask,omitempty"` // letter case of method and version
	Code    int     `json:"code,omitempty"`
	Reason  Str     `json:"reason,omitempty"`
	Ver1    bool    `json:"v1,omitempty"`
	URI     SURI    `json:"uri"`
	Lines   []SLine `json:"lines,omitempty"`
	Len     SLine   `json:"len"` // the Content-Length line, value filled in
	LenAt   int     `json:"len_at,omitempty"`
	LenZero int     `json:"zeros,omitempty"`
	LF      int     `json:"lf,omitempty"` // start line, blank line
	Body    Blob    `json:"body"`
}

func (m SMsg) start() string {
	v := "SIP/2.0"
	if m.Ver1 {
		v = "SIP/1.0"
	}
	v = caseOf(v, m.Mask)
	if m.Method < 0 {
		return fmt.Sprintf("%s %d %s", v, m.Code, m.Reason)
	}
	return caseOf(sipMethods[m.Method].S, m.Mask) + " " + m.URI.text() + " " + v
}

func (m SMsg) lines() []SLine {
	l := m.Len
	n := strings.Repeat("0", m.LenZero) + strconv.Itoa(m.Body.Len())
	if len(l.Segs) > 1 { // the number stands on the last line
		l.Segs = append(make([]Str, len(l.Segs)-1), Str(n))
	} else {
		l.Segs = []Str{Str(n)}
	}
	at := m.LenAt % (len(m.Lines) + 1)
	out := append([]SLine{}, m.Lines[:at]...)
	out = append(out, l)
	return append(out, m.Lines[at:]...)
}

// head is the start line and the header lines.
func (m SMsg) head() string {
	out := m.start() + eol(m.LF&1 == 1)
	for _, l := range m.lines() {
		out += l.text()
	}
	return out
}

func (m SMsg) text() string {
	return m.head() + eol(m.LF&2 == 2) + string(m.Body.Bytes())
}

// SStream is a stream of messages.
type SStream struct {
	Times int    `json:"times,omitempty"` // the whole history this many times
	Msgs  []SMsg `json:"msgs"`
	Rest  Hex    `json:"rest,omitempty"`
	Buf   int    `json:"buf"`
	Sizes []int  `json:"sizes,omitempty"`
	EOF   bool   `json:"eof,omitempty"`
	// Cut drops the blank line (1), and the end of the last header line too (2), of a last message without body.
	Cut int `json:"cut,omitempty"`
	// Fail are the places where the stream fails, one after the other, in a run of their own
	Fail []int `json:"fail,omitempty"`
}

func (c SStream) text() string {
	var text strings.Builder
	for i, m := range c.Msgs {
		t := m.text()
		if i == len(c.Msgs)-1 && c.cut() {
			t = strings.TrimSuffix(t, eol(m.LF&2 == 2))
			if c.Cut == 2 {
				t = strings.TrimRight(t, "\r\n")
			}
		}
		text.WriteString(t)
	}
	return text.String()
}

func (c SStream) cut() bool {
	return c.Cut > 0 && len(c.Msgs) > 0 && len(c.Rest) == 0 && c.Msgs[len(c.Msgs)-1].Body.Len() == 0
}

func sameMsg(m SMsg, p *sips.SIP, mask int, o *Obs) error {
	wv := sips.SIPVersion2
	if m.Ver1 {
		wv = sips.SIPVersion1
	}
	if p.Version != wv {
		return fmt.Errorf("version %v", p.Version)
	}
	if m.Method < 0 {
		if !p.IsResponse || int(p.ResponseCode) != m.Code || p.ResponseStatus != string(m.Reason) {
			return fmt.Errorf("response %v, code %d, reason %q, want %d %q", p.IsResponse, p.ResponseCode, p.ResponseStatus, m.Code, m.Reason)
		}
	} else {
		if p.IsResponse || p.Method != sipMethods[m.Method].M || p.Request == nil || reqParts(p.Request) != m.URI.parts() {
			return fmt.Errorf("response %v, method %v, want %s with %s", p.IsResponse, p.Method, sipMethods[m.Method].S, m.URI.parts())
		}
	}
	want := map[string][]string{}
	folds := 0
	for _, l := range m.lines() {
		k := strings.ToLower(l.Name)
		want[k] = append(want[k], l.value())
		folds += len(l.Segs) - 1
		o.ClassIf(l.Pre != "", "blanks before the colon")
		o.ClassIf(len(l.Segs) > 1 && l.Segs[0] == "", "value starts on a continuation line")
		o.ClassIf(len(k) == 1, "compact or one letter name")
		o.ClassIf(len(l.text()) > m.bufHint(), "line longer than 4096")
	}
	for k, w := range want {
		if g := p.Headers.GetHeader(caseOf(k, mask)); !eqStrs(g, w) {
			return fmt.Errorf("header %s: %s, want %s", k, clipStrs(g), clipStrs(w))
		}
	}
	for f, s := range compactForms {
		if w, ok := want[s]; ok && want[f] == nil {
			if g := p.Headers.GetHeader(caseOf(f, mask)); !eqStrs(g, w) {
				return fmt.Errorf("header %s, sent as %s: %s, want %s", f, s, clipStrs(g), clipStrs(w))
			}
		}
	}
	n := 0
	for _, v := range p.Headers {
		if len(v) > 0 {
			n++
		}
	}
	if n != len(want) {
		return fmt.Errorf("%d headers, want %d: %s", n, len(want), clip(fmt.Sprintf("%q", p.Headers), 400))
	}
	if l, err := p.Headers.GetContentLength(); err != nil || l != m.Body.Len() {
		return fmt.Errorf("Content-Length %d, %v, want %d", l, err, m.Body.Len())
	}
	o.ClassIf(folds > 0, "folded values")
	o.ClassIf(m.LF&2 == 2, "LF ends")
	if err := convenience(p); err != nil {
		return err
	}
	// the last line of a stream may lack its end, and the blank line may be counted in
	if g, head := string(p.Contents), m.head(); g != head && g != strings.TrimRight(head, "\r\n") && g != head+"\r\n" && g != head+"\n" {
		return fmt.Errorf("raw header section: %s", diffBytes([]byte(head), []byte(g)))
	}
	return stripPayload("S03-payload-separator", string(p.Payload()), string(m.Body.Bytes()), o)
}

func (m SMsg) bufHint() int { return 4096 }

func checkS03(c SStream, o *Obs) error {
	if c.Times > 1 || len(c.Rest)%3 > 0 { // a part of the cases runs twice
		return streamOnce(c, o, &owned{})
	}
	return twice(func(k *owned) error { return streamOnce(c, o, k) })
}

func streamOnce(c SStream, o *Obs, k *owned) error {
	c.Msgs = times(c.Msgs, c.Times)
	all := c.text() + string(c.Rest)
	o.ClassIf(c.cut(), "ends behind the header")
	br := bufio.NewReaderSize(&chunkReader{data: []byte(all), sizes: c.Sizes, eofWithData: c.EOF}, c.Buf)
	var got []*sips.SIP
	check := func(when string) error {
		for i, p := range got {
			if err := sameMsg(c.Msgs[i], p, i*7+len(c.Rest), o); err != nil {
				return fmt.Errorf("message %d%s: %v\nmessage: %q", i, when, err, clip(c.Msgs[i].text(), 600))
			}
		}
		return nil
	}
	for i := range c.Msgs {
		p := sips.NewSIP()
		if err := p.Parse(br); err != nil {
			return fmt.Errorf("message %d: %v\nmessage: %q", i, err, clip(c.Msgs[i].text(), 600))
		}
		got = append(got, p)
		if err := sameMsg(c.Msgs[i], p, i*7+len(c.Rest), o); err != nil {
			return fmt.Errorf("message %d: %v\nmessage: %q", i, err, clip(c.Msgs[i].text(), 600))
		}
	}
	rest, err := io.ReadAll(br)
	if err != nil || !bytes.Equal(rest, c.Rest) {
		return fmt.Errorf("behind %d messages the reader is at %q (%v), want %q", len(c.Msgs), clip(string(rest), 200), err, clip(string(c.Rest), 200))
	}
	if err := check(" (read at the end)"); err != nil {
		return err
	}
	if len(c.Msgs) > 0 {
		m := c.Msgs[0]
		p := sips.NewSIP()
		if err := lent([]byte(SStream{Msgs: c.Msgs[:1], Cut: c.Cut}.text()), p.ParseBytes); err != nil {
			return fmt.Errorf("ParseBytes: %v\nmessage: %q", err, clip(m.text(), 600))
		}
		if err := sameMsg(m, p, 0, o); err != nil {
			return fmt.Errorf("ParseBytes: %v\nmessage: %q", err, clip(m.text(), 600))
		}
	}
	if !c.cut() && len(all) < 1<<16 {
		var ends []int
		n := 0
		for _, m := range c.Msgs {
			n += len(m.text())
			ends = append(ends, n)
		}
		for _, f := range c.Fail {
			if n == 0 {
				break
			}
			f %= n
			o.Class("the stream fails inside a message")
			br := bufio.NewReaderSize(&chunkReader{data: []byte(all[:f]), sizes: c.Sizes, eofWithData: c.EOF, end: errReader}, c.Buf)
			for i := range c.Msgs {
				p := sips.NewSIP()
				err := p.Parse(br)
				if ends[i] > f {
					if err == nil {
						return fmt.Errorf("the stream fails %d bytes before the end of message %d, but Parse returns no error\nmessage: %q", ends[i]-f, i, clip(c.Msgs[i].text(), 600))
					}
					break
				}
				if err != nil {
					return fmt.Errorf("message %d, complete before the stream failed: %v\nmessage: %q", i, err, clip(c.Msgs[i].text(), 600))
				}
				if err := sameMsg(c.Msgs[i], p, i*7+len(c.Rest), o); err != nil {
					return fmt.Errorf("message %d: %v\nmessage: %q", i, err, clip(c.Msgs[i].text(), 600))
				}
			}
		}
	}
	if len(c.Msgs) > 1 {
		o.NonTrivial()
	}
	if len(all) < 1<<12 {
		for _, p := range got {
			k.add("Parse", p)
		}
	}
	o.Class("%d messages", min(len(c.Msgs), 4))
	o.ClassIf(len(c.Rest) > 0, "bytes behind the last message")
	o.ClassIf(c.Buf < 100, "small reader buffer")
	return nil
}

func genSLine(t *rapid.T) SLine {
	var l SLine
	switch pick(t, 0, 1, 2, 3) {
	case 0:
		l.Name = pick(t, customNames...)
	case 1:
		l.Name = pick(t, fullNames...)
	case 2:
		l.Name = compactForms[pick(t, fullNames...)]
	case 3:
		l.Name = pick(t, "from", "to", "via", "cseq", "contact", "f", "v", "x-b")
	}
	if l.Name == "content-length" || l.Name == "l" {
		l.Name = "x-content-length"
	}
	l.Name = caseOf(l.Name, genMask(t))
	l.Pre, l.Post = genBlank(t), genBlank(t)
	for i := pick(t, 1, 1, 1, 2, 3, 4); i > 0; i-- {
		switch strings.ToLower(l.Name) {
		case "from", "to", "contact", "f", "t", "m":
			if i == 1 {
				l.Segs = append(l.Segs, Str(trimmed(genAddr(t, true).text())))
				continue
			}
		case "via", "v":
			if i == 1 {
				l.Segs = append(l.Segs, Str(trimmed(genVia(t, true).text())))
				continue
			}
		}
		l.Segs = append(l.Segs, genValue(t))
	}
	if len(l.Segs) > 1 {
		for i := intn(t, 0, 4); i > 0; i-- {
			l.Fold = append(l.Fold, genBlank(t))
		}
	}
	if chance(t, 4) {
		l.Segs[0] += Str(strings.Repeat("q", spread(t, 4000, 9000)))
	}
	l.LF = intn(t, 0, 31)
	return l
}

func genSMsg(t *rapid.T) SMsg {
	m := SMsg{Method: intn(t, -1, len(sipMethods)-1), Mask: genMask(t), Ver1: chance(t, 20), URI: genURI(t, true), Body: genBody(t), LF: intn(t, 0, 3)}
	if m.Method < 0 {
		m.URI = SURI{Scheme: "sip"}
		m.Code = pick(t, 200, 100, 606, 999, 0, spread(t, 100, 699))
		m.Reason = Str(pick(t, "OK", "Not Found", "x", "SIP/2.0", "a:b", "é"))
	} else {
		m.URI.Args = genArgs(t, 2, false, false)
	}
	for i := intn(t, 0, 5); i > 0; i-- {
		m.Lines = append(m.Lines, genSLine(t))
	}
	m.LenAt = intn(t, 0, 5)
	m.Len = SLine{Name: caseOf(pick(t, "content-length", "l"), genMask(t)), Pre: genBlank(t), Post: genBlank(t), LF: intn(t, 0, 3)}
	if chance(t, 15) {
		m.Len.Segs = []Str{"", ""}
		m.Len.Fold = []string{pick(t, " ", "\t", "  \t")}
	}
	m.LenZero = pick(t, 0, 0, 0, 1, 3)
	return m
}

func genS03(t *rapid.T) SStream {
	var c SStream
	for i := pick(t, 1, 2, 2, 3, 4); i > 0; i-- {
		c.Msgs = append(c.Msgs, genSMsg(t))
	}
	if boolean(t) {
		c.Rest = pick(t, Hex("\r\n"), Hex("x"), Hex("INVITE sip:a SIP/2.0\r\n"), Hex(" folded\r\n"), Hex{0}, genBytes(t, 30))
	}
	if len(c.Rest) == 0 && chance(t, 30) {
		c.Cut = intn(t, 1, 2)
		c.Msgs[len(c.Msgs)-1].Body = Blob{}
	}
	c.Buf = pick(t, 16, 17, 64, 4096, spread(t, 16, 9000))
	for i := intn(t, 0, 6); i > 0; i-- {
		c.Sizes = append(c.Sizes, pick(t, 1, 2, 7, 1, spread(t, 1, 5000)))
	}
	if len(c.Sizes) > 1 && chance(t, 20) {
		c.Sizes[0] = 0
	}
	c.EOF = boolean(t)
	if n := len(c.text()); n > 0 {
		for i := pick(t, 0, 0, 1, 2); i > 0; i-- {
			end := 0
			for _, m := range c.Msgs[:intn(t, 0, len(c.Msgs))] {
				end += len(m.text())
			}
			c.Fail = append(c.Fail, pick(t, n-1, n-2, end, intn(t, 0, n-1), intn(t, 0, n-1)))
		}
	}
	c.Times = genTimes(t, 4*len(c.text()))
	return c
}

func sweepS03(thorough bool, yield func(SStream)) {
	for _, n := range []int{130, 300, 1100} {
		m := SMsg{Method: 3, URI: SURI{Scheme: "sip", Host: "h"}, Lines: []SLine{{Name: "v", Segs: []Str{"SIP/2.0/UDP h"}}}, Len: SLine{Name: "l"}, Body: Blob{N: 3, Pat: 2}}
		yield(SStream{Msgs: []SMsg{m}, Times: n, Buf: 64 + n, Rest: Hex("x")})
		for i := 0; i < n; i++ {
			m.Lines = append(m.Lines, SLine{Name: "X-" + strconv.Itoa(i/3), Segs: []Str{"y", "z"}})
		}
		yield(SStream{Msgs: []SMsg{m, m}, Buf: 100})
	}
	u := SURI{Scheme: "sip", Host: "h"}
	mk := func(n int, lines ...SLine) SMsg {
		return SMsg{Method: n % 15, URI: u, Lines: lines, Len: SLine{Name: "Content-Length", Post: " "}, Body: Blob{N: n, Pat: 2 + n}}
	}
	// sizes far beyond ordinary messages: one name many times, many names, lines and bodies
	for _, n := range []int{20, 70, 140, 300, 1100, 4200, 11000} {
		m, d, f := mk(n), mk(n), mk(n)
		fold := SLine{Name: "x-a"}
		for i := 0; i < n; i++ {
			m.Lines = append(m.Lines, SLine{Name: []string{"Via", "X-a"}[i/(n-4)], Post: " ", Segs: []Str{Str("h" + strconv.Itoa(i))}})
			d.Lines = append(d.Lines, SLine{Name: "X-" + strconv.Itoa(i), Segs: []Str{"y"}})
			fold.Segs = append(fold.Segs, Str(strconv.Itoa(i)))
		}
		f.Lines = []SLine{fold, {Name: "x-b", Segs: []Str{"1"}}}
		for _, x := range []SMsg{m, d, f} {
			x.LenAt = n
			yield(SStream{Msgs: []SMsg{x, mk(1)}, Buf: 4096})
		}
	}
	for _, n := range []int{200, 256, 1 << 15, 40000, 1 << 16, 1<<16 + 1, 1<<17 + 1, 1<<20 + 1, 3<<20 + 1, 1<<22 + 1, 1<<24 + 1} {
		long := Str(strings.Repeat("q", n))
		yield(SStream{Msgs: []SMsg{mk(2, SLine{Name: "x-a", Segs: []Str{"b", long, "c", long, "d"}}), mk(3)}, Buf: 4096})
		whole := Str(strings.Repeat("w", n-4)) // with its name a line of n bytes
		yield(SStream{Msgs: []SMsg{mk(2, SLine{Name: "x-a", Segs: []Str{whole}}, SLine{Name: "x-b", Segs: []Str{"y", whole[1:] + "zz"}, Fold: []string{" "}}), mk(3)}, Buf: 4096})
		yield(SStream{Msgs: []SMsg{mk(n), mk(1, SLine{Name: "x-a", Segs: []Str{Str(strings.Repeat("k", n))}})}, Buf: 4096, Rest: Hex("x")})
	}
	for _, n := range []int{2, 20, 300, 1100} {
		var ms []SMsg
		for i := 0; i < n; i++ {
			ms = append(ms, mk(i%50, SLine{Name: "x-a", Segs: []Str{Str(strconv.Itoa(i))}}))
		}
		yield(SStream{Msgs: ms, Buf: 4096, Rest: Hex("x")})
	}
	// every place where the stream may fail
	for _, n := range []int{0, 5, 100} {
		c := SStream{Msgs: []SMsg{mk(n, SLine{Name: "From", Segs: []Str{"<sip:a@b>", "c"}}), mk(n)}, Buf: 16 + n, Rest: Hex("x")}
		for f := range c.text() {
			c.Fail, c.EOF = []int{f}, f&1 == 1
			yield(c)
		}
	}
	// every buffer size around the ends of a message, every body size
	for b := 16; b < 200; b++ {
		yield(SStream{Msgs: []SMsg{mk(b%40, SLine{Name: "From", Segs: []Str{"<sip:a@b>"}}), mk(3)}, Buf: b, Sizes: []int{1 + b%9}})
	}
	for cut := 1; cut < 3; cut++ {
		for b := 16; b < 80; b++ {
			yield(SStream{Msgs: []SMsg{mk(0, SLine{Name: "From", Segs: []Str{"<sip:a@b>"}}, SLine{Name: "x", Segs: []Str{Str(strings.Repeat("y", b)), "z"}})}, Buf: 16 + b%5*13, Cut: cut, EOF: b%2 == 0})
		}
	}
	for n := 0; n < 120; n++ {
		yield(SStream{Msgs: []SMsg{mk(n), mk(0), mk(n / 2)}, Buf: 16, Rest: Hex("INVITE")})
	}
	for lf := 0; lf < 64; lf++ {
		m := mk(5, SLine{Name: "v", Segs: []Str{"SIP/2.0/UDP h", ";branch=1"}, Fold: []string{"\t", ""}, LF: lf >> 2}, SLine{Name: "Subject", Pre: "\t ", Segs: []Str{"", "x"}, LF: lf >> 3})
		m.LF = lf
		yield(SStream{Msgs: []SMsg{m, m}, Buf: 64, Rest: Hex("\r\n")})
		for _, eof := range []bool{false, true} {
			m.Body = Blob{N: 20 + lf, Pat: 9}
			end := len(m.text())
			yield(SStream{Msgs: []SMsg{m, m}, Buf: 16, EOF: eof, Sizes: []int{end - 20 - lf, 20 + lf}, Fail: []int{end - 1, end, end + 1}})
		}
	}
	for _, f := range fullNames {
		for _, n := range []string{f, compactForms[f]} {
			if f == "content-length" {
				continue
			}
			for mask := 0; mask < 4; mask++ {
				yield(SStream{Msgs: []SMsg{mk(1, SLine{Name: caseOf(n, -mask&0x5555|mask), Segs: []Str{"sip:a@b"}}, SLine{Name: caseOf(n, mask), Segs: []Str{"2"}})}, Buf: 4096})
			}
		}
	}
	for mask := 0; mask < 200; mask++ {
		m := mk(4)
		m.Len.Name = caseOf([]string{"content-length", "l"}[mask%2], mask*7919)
		yield(SStream{Msgs: []SMsg{m, mk(1)}, Buf: 100})
	}
}

// ---------------------------------------------------------------- S04

// SParts is one line to parse and write.
type SParts struct {
	Addr *SAddr `json:"addr,omitempty"`
	URI  *SURI  `json:"uri,omitempty"`
	Via  *SVia  `json:"via,omitempty"`
	Cseq *SCseq `json:"cseq,omitempty"`
	Line *Str   `json:"line,omitempty"` // any text, kept as such
}

func checkS04(c SParts, o *Obs) error {
	return twice(func(k *owned) error { return partsOnce(c, o, k) })
}

// otherParts writes and parses something else.
func otherParts(k *owned) {
	u := sips.NewSIPUser("\"Somebody else\" <sip:nobody@nowhere.invalid:1>;x=y")
	r := sips.NewSIPRequest("sip:nobody@nowhere.invalid:1;x=y")
	v := sips.NewSIPVia("SIP/2.0/TCP nowhere.invalid:1;x=y")
	q := sips.NewSIPCseq("4294967 NOTHING")
	for _, b := range [][]byte{u.Bytes(), r.Bytes(), v.Bytes(), q.Bytes()} {
		k.add("writing something else", b)
	}
	for _, end := range []string{"", ";"} { // without arguments
		u, r, v := sips.NewSIPUser("<sip:b>"+end), sips.NewSIPRequest("sip:a"+end), sips.NewSIPVia("SIP/2.0/TCP c"+end)
		if len(u.Args)+len(r.Args)+len(v.Args) > 0 || u.Host != "b" || r.Host != "a" || v.Host != "c" {
			k.fail("lines without arguments, ended by %q, are parsed as %s, %s and %s", end, userParts(u), reqParts(r), viaParts(v))
		}
		k.add("NewSIPUser without arguments", u)
		k.add("NewSIPRequest without arguments", r)
		k.add("NewSIPVia without arguments", v)
	}
}

func partsOnce(c SParts, o *Obs, k *owned) error {
	if c.Line != nil {
		l := string(*c.Line)
		for _, x := range []struct{ what, src string }{{"NewSIPUser", sips.NewSIPUser(l).Src}, {"NewSIPRequest", sips.NewSIPRequest(l).Src}, {"NewSIPVia", sips.NewSIPVia(l).Src}, {"NewSIPCseq", sips.NewSIPCseq(l).Src}} {
			if x.src != l {
				return fmt.Errorf("%s(%q): Src %q", x.what, l, x.src)
			}
		}
		o.Class("any line")
		o.NonTrivial()
	}
	if a := c.Addr; a != nil {
		line, want := a.text(), a.parts()
		u := sips.NewSIPUser(line)
		defer func() {
			// written by the same struct after a change, and by others
			first := u.Bytes()
			k.add("writing an address", first)
			b := *u
			b.Args = sips.Args{"other": "z"}
			u.User, u.Host, u.Args = "zz", "zzz", nil
			k.add("writing the changed address", u.Bytes())
			k.add("writing another address", b.Bytes())
			k.add("NewSIPUser", u)
			otherParts(k)
		}()
		if g := userParts(u); g != want {
			return fmt.Errorf("NewSIPUser(%q): %s, want %s", line, g, want)
		}
		if u.Src != line || u.ToRequest().Src != line || u.ToRequest().ToUser().Src != line {
			return fmt.Errorf("NewSIPUser(%q): Src %q, as request %q and back %q", line, u.Src, u.ToRequest().Src, u.ToRequest().ToUser().Src)
		}
		o.Class("address form %d %s", a.Form, a.Scheme)
		o.ClassIf(strings.Contains(a.Host, "["), "IPv6")
		o.ClassIf(strings.Contains(string(a.User), ":"), "password")
		o.ClassIf(strings.ContainsAny(string(a.User), ";?,"), "delimiters in the user")
		o.ClassIf(len(a.SURI.Args) > 0 && len(a.Out) > 0, "URI and header arguments")
		if want != partsOf("", a.Scheme, "", a.Host, "", nil) {
			o.NonTrivial()
		}
		// convert
		r := u.ToRequest()
		if g := reqParts(r); g != partsOf("", a.Scheme, string(a.User), a.Host, a.Port, a.args()) {
			return fmt.Errorf("ToRequest of %q: %s", line, g)
		}
		if g := userParts(r.ToUser()); g != partsOf("", a.Scheme, string(a.User), a.Host, a.Port, a.args()) {
			return fmt.Errorf("ToUser(ToRequest) of %q: %s", line, g)
		}
		if g := userParts(u); g != want {
			return fmt.Errorf("converting %q changed the address: %s", line, g)
		}
		if !plainArgs(a.args()) {
			o.Class("arguments that need quotes")
			return nil
		}
		for _, x := range []*sips.SIPUser{u, mkUser(*a)} {
			w := x.String()
			if x.Src != w {
				return fmt.Errorf("an address written as %q has Src %q", w, x.Src)
			}
			if g := userParts(sips.NewSIPUser(w)); g != want {
				return fmt.Errorf("%s is written as %q, which is parsed as %s", want, w, g)
			}
			if g, err := strictAddr(w); err != nil || g != want {
				return fmt.Errorf("%s is written as %q: %v %s", want, w, err, g)
			}
			if g := userParts(x); g != want {
				return fmt.Errorf("writing %s changed it: %s", want, g)
			}
		}
		w := string(u.Bytes())
		if g := userParts(sips.NewSIPUser(w)); g != want {
			return fmt.Errorf("%s is written as %q, which is parsed as %s", want, w, g)
		}
	}
	if u := c.URI; u != nil {
		line, want := u.text(), u.parts()
		r := sips.NewSIPRequest(line)
		defer func() {
			k.add("writing a URI", r.Bytes())
			k.add("the arguments of NewSIPRequest", r.Args)
			r.User, r.Host, r.Args = "zz", "zzz", nil
			k.add("writing the changed URI", r.Bytes())
			otherParts(k)
		}()
		if g := reqParts(r); g != want {
			return fmt.Errorf("NewSIPRequest(%q): %s, want %s", line, g, want)
		}
		if r.Src != line {
			return fmt.Errorf("NewSIPRequest(%q): Src %q", line, r.Src)
		}
		o.Class("URI %s", u.Scheme)
		o.NonTrivial()
		x := r.ToUser()
		if g := userParts(x); g != want {
			return fmt.Errorf("ToUser of %q: %s", line, g)
		}
		if g := reqParts(x.ToRequest()); g != want {
			return fmt.Errorf("ToRequest(ToUser) of %q: %s", line, g)
		}
		if plainArgs(argMap(u.Args)) {
			for _, y := range []*sips.SIPRequest{r, mkURI(*u)} {
				if w := y.String(); y.Src != w {
					return fmt.Errorf("a URI written as %q has Src %q", w, y.Src)
				}
				for _, w := range []string{y.String(), string(y.Bytes())} {
					if g := reqParts(sips.NewSIPRequest(w)); g != want {
						return fmt.Errorf("%s is written as %q, which is parsed as %s", want, w, g)
					}
					s, err := strictURI(w)
					if g := s.parts(""); err != nil || g != want {
						return fmt.Errorf("%s is written as %q: %v %s", want, w, err, g)
					}
				}
				if g := reqParts(y); g != want {
					return fmt.Errorf("writing %s changed it: %s", want, g)
				}
			}
			if g, err := strictAddr(x.String()); err != nil || g != want {
				return fmt.Errorf("%s is written as address %q: %v %s", want, x.String(), err, g)
			}
		}
	}
	if v := c.Via; v != nil {
		line, want := v.text(), v.parts()
		x := sips.NewSIPVia(line)
		defer func() {
			k.add("writing a Via", x.Bytes())
			k.add("the arguments of NewSIPVia", x.Args)
			x.Host, x.Args = "zzz", nil
			k.add("writing the changed Via", x.Bytes())
			otherParts(k)
		}()
		if g := viaParts(x); g != want {
			return fmt.Errorf("NewSIPVia(%q): %s, want %s", line, g, want)
		}
		if x.Src != line {
			return fmt.Errorf("NewSIPVia(%q): Src %q", line, x.Src)
		}
		o.Class("Via %s", v.Trans)
		o.NonTrivial()
		if plainArgs(argMap(v.Args)) {
			for _, y := range []*sips.SIPVia{x, mkVia(*v)} {
				if w := y.String(); y.Src != w {
					return fmt.Errorf("a Via written as %q has Src %q", w, y.Src)
				}
				for _, w := range []string{y.String(), string(y.Bytes())} {
					if g := viaParts(sips.NewSIPVia(w)); g != want {
						return fmt.Errorf("%s is written as %q, which is parsed as %s", want, w, g)
					}
					if g, err := strictVia(w); err != nil || g != want {
						return fmt.Errorf("%s is written as %q: %v %s", want, w, err, g)
					}
				}
				if g := viaParts(y); g != want {
					return fmt.Errorf("writing %s changed it: %s", want, g)
				}
			}
		}
	}
	if q := c.Cseq; q != nil {
		x := sips.NewSIPCseq(q.text())
		defer func() {
			k.add("writing a CSeq", x.Bytes())
			x.ID, x.Method = "0", "ZZ"
			k.add("writing the changed CSeq", x.Bytes())
			otherParts(k)
		}()
		if x.ID != q.ID || x.Method != q.M || x.Src != q.text() {
			return fmt.Errorf("NewSIPCseq(%q): %s", q.text(), cseqParts(x))
		}
		o.Class("CSeq")
		o.NonTrivial()
		for _, y := range []*sips.SIPCseq{x, mkCseq(*q)} {
			if w := y.String(); w != q.ID+" "+q.M || y.Src != w {
				return fmt.Errorf("%s is written as %q", cseqParts(y), w)
			}
			z := sips.NewSIPCseq(string(y.Bytes()))
			if z.ID != q.ID || z.Method != q.M {
				return fmt.Errorf("%s is written and parsed as %s", q.text(), cseqParts(z))
			}
		}
	}
	return nil
}

func genS04(t *rapid.T) SParts {
	switch pick(t, 0, 0, 0, 1, 1, 2, 3, 4) {
	case 4:
		l := pick(t, Str(genAddr(t, true).text()), Str(genURI(t, true).text()), Str(genVia(t, true).text()), Str(genCseq(t, true).text()), Str(genPrintable(t, 40)))
		if n := len(l); n > 0 && boolean(t) {
			l = l[:intn(t, 0, n)]
		}
		l = Str(genBlank(t)) + l + Str(genBlank(t))
		return SParts{Line: &l}
	case 0:
		a := genAddr(t, boolean(t))
		return SParts{Addr: &a}
	case 1:
		u := genURI(t, true)
		u.Args = genArgs(t, 3, false, false)
		return SParts{URI: &u}
	case 2:
		v := genVia(t, boolean(t))
		return SParts{Via: &v}
	}
	q := genCseq(t, boolean(t))
	return SParts{Cseq: &q}
}

func sweepS04(thorough bool, yield func(SParts)) {
	hosts := []string{"example.com", "192.168.1.102", "[::1]", "[2001:db8::1]", "h"}
	users := []Str{"", "alice", "alice:secret", "+1-201-555-0123", "a;b=c", "a?b", "34020000001320000001", "%40x", "sip", "tel", "x&y=+$,;?/"}
	argss := [][]SArg{nil, {{K: "tag", V: "1"}}, {{K: "rport"}, {K: "branch", V: "z9hG4bK1"}}, {{K: "q", V: "0.7", Pre: " ", Eq: " ", End: " "}, {K: "lr"}}, {{K: "x", V: "a;b,c=d>", M: 2}}, {{K: "e", M: 2}}}
	for _, n := range []int{17, 40, 70, 140, 200, 256, 260, 1100, 5000, 20000, 32768, 40000, 65536} {
		long := strings.Repeat("abcdefghij", n/10+1)[:n]
		args := manyArgs(n, 500)
		u := SURI{Scheme: "sip", User: Str(long), Host: long, Port: strings.Repeat("1", n), Args: args}
		yield(SParts{URI: &u})
		u.Args = []SArg{{K: Str(long), V: "v" + Str(long)}}
		yield(SParts{URI: &u})
		b := SURI{Scheme: "sip", User: Str(long), Host: "h", Port: strings.Repeat("1", n)}
		yield(SParts{URI: &SURI{Scheme: "sip", Host: long, Port: "5060"}})
		odd := SURI{Scheme: "sips", User: Str("a;b=" + long + ";c?d"), Host: "h", Port: "5", Args: args}
		yield(SParts{URI: &odd, Addr: &SAddr{SURI: odd}})
		yield(SParts{Addr: &SAddr{SURI: SURI{Scheme: "sip", Host: long, Port: "5060"}, Form: 3}})
		for form := 0; form < 4; form++ {
			x := SAddr{SURI: b, Form: form, Out: args, Gap: " "}
			if form > 1 {
				x.Name = Str(long)
			}
			if form > 0 {
				x.SURI.Args = []SArg{{K: "inner", V: Str(long)}}
			}
			yield(SParts{Addr: &x})
		}
		yield(SParts{Addr: &SAddr{SURI: SURI{Scheme: "sip", Host: "h"}, Form: 3, Name: Str(strings.Repeat("a \"b\" \\;,<", n/10))}})
		yield(SParts{Via: &SVia{Trans: "UDP", Host: long, Port: strings.Repeat("1", n), Args: args, Gap: " "}})
		yield(SParts{Cseq: &SCseq{ID: strings.Repeat("7", n), M: long, Gap: " "}})
		tel := SURI{Scheme: "tel", User: Str("+" + strings.Repeat("1-234.5", n/7+1)[:n])}
		yield(SParts{URI: &tel})
		yield(SParts{Addr: &SAddr{SURI: tel}})
		yield(SParts{Addr: &SAddr{SURI: tel, Form: 3, Name: "Bob"}})
	}
	names := []Str{"", "Bob", "Anonymous", "Mr. Watson", `a "quoted" \ name`, "é中", "x;y", "<z>", "a@b", " lead", "trail ", ","}
	for _, sch := range []string{"sip", "sips"} {
		for _, h := range hosts {
			for _, p := range []string{"", "5060"} {
				for _, us := range users {
					for ai, as := range argss {
						u := SURI{Scheme: sch, User: us, Host: h, Port: p}
						if ai < 3 {
							x := u
							x.Args = as
							yield(SParts{URI: &x})
						}
						forms := []int{0, 1, 2, 3}
						for _, f := range forms {
							if f == 0 && strings.ContainsAny(string(us), ";?,") {
								continue
							}
							n := names[(ai+len(us)+len(h))%len(names)]
							if f == 2 {
								n = []Str{"Bob", "Anonymous", "Mr. Watson"}[ai%3]
							}
							for _, in := range argss[:3] {
								if f == 0 && in != nil || in != nil && len(as) > 0 && as[0].K == in[0].K {
									continue
								}
								x := SAddr{SURI: u, Name: n, Form: f, Out: as, Gap: " ", Semi: []string{"", " ", "\t"}[ai%3]}
								x.SURI.Args = in
								if len(in) > 0 && len(as) > 0 && in[0].K == as[0].K {
									continue
								}
								yield(SParts{Addr: &x})
							}
						}
					}
				}
				for _, as := range argss {
					for _, tr := range []string{"UDP", "TCP", "TLS", "SCTP"} {
						yield(SParts{Via: &SVia{Trans: tr, Host: h, Port: p, Args: as, Gap: " ", Semi: " "}})
					}
				}
			}
		}
	}
	for _, n := range names {
		yield(SParts{Addr: &SAddr{SURI: SURI{Scheme: "sip", User: "a", Host: "b"}, Name: n, Form: 3, Gap: " "}})
		yield(SParts{Addr: &SAddr{SURI: SURI{Scheme: "tel", User: "+1"}, Name: n, Form: 3}})
	}
	for _, as := range argss[:3] {
		yield(SParts{URI: &SURI{Scheme: "tel", User: "+1-201", Args: as}})
		yield(SParts{Addr: &SAddr{SURI: SURI{Scheme: "tel", User: "+1-201"}, Out: as}})
		yield(SParts{Addr: &SAddr{SURI: SURI{Scheme: "tel", User: "+1-201", Args: as}, Form: 1}})
	}
	for i := range sipMethods {
		for _, g := range []string{" ", "\t", "  "} {
			yield(SParts{Cseq: &SCseq{ID: strconv.Itoa(i * 1234567), M: sipMethods[i].S, Gap: g}})
		}
	}
}

// ---------------------------------------------------------------- S05

// HOp is one step of a header history.
type HOp struct {
	K     string   `json:"k"`
	H     int      `json:"h,omitempty"` // which header set
	Name  string   `json:"n,omitempty"` // lower case
	Mask  int      `json:"m,omitempty"`
	Val   Str      `json:"v,omitempty"`
	Vals  []Str    `json:"vs,omitempty"`
	Names []string `json:"ns,omitempty"`
	Pre   string   `json:"pre,omitempty"`
	Post  string   `json:"post,omitempty"`
	N     int      `json:"i,omitempty"`
}

// HCase is a header history over two header sets.
type HCase struct {
	Times int   `json:"times,omitempty"` // the whole history this many times
	Ops   []HOp `json:"ops"`
}

// hModel is what a header set holds: values per lower case name, and the key in use.
type hModel struct {
	vals map[string][]string
	key  map[string]string
}

func (m *hModel) get(name string) []string {
	if len(m.vals[name]) > 0 {
		return m.vals[name]
	}
	if c := compactForms[name]; c != "" {
		return m.vals[c]
	}
	return nil
}

func (m *hModel) first(name string) string {
	if v := m.get(name); len(v) > 0 {
		return v[0]
	}
	return ""
}

func (m *hModel) set(name string, vals ...string) {
	if c := compactForms[name]; c != "" {
		delete(m.vals, c)
		delete(m.key, c)
	}
	m.vals[name], m.key[name] = append([]string{}, vals...), name
}

// fullOf gives the full name of a compact one.
func fullOf(compact string) string {
	for f, s := range compactForms {
		if s == compact {
			return f
		}
	}
	return ""
}

func checkS05(c HCase, o *Obs) error {
	c.Ops = times(c.Ops, c.Times)
	var sip [2]*sips.SIP
	var model [2]*hModel
	for i := range sip {
		sip[i] = sips.NewSIP()
		model[i] = &hModel{map[string][]string{}, map[string]string{}}
	}
	last := [2]string{} // the header parsed by the operation before
	done := 0
	var out [][]string // value lists that are in other hands too
	for i, op := range c.Ops {
		x := op.H & 1
		s, h, m := sip[x], sip[x].Headers, model[x]
		name := caseOf(op.Name, op.Mask)
		val := string(op.Val)
		prev := last[x]
		last[x] = ""
		where := func(f string, a ...interface{}) error {
			return fmt.Errorf("operation %d (%+v): "+f, append([]interface{}{i, op}, a...)...)
		}
		settable := func(n string) bool { // compact names are set only without the full name
			f := fullOf(n)
			return f == "" || len(m.vals[f]) == 0
		}
		// a list that was read or given before stays as it is when a header is set
		keeps := func(set func()) error {
			for _, n := range []string{op.Name, "call-id", "subject", "from", "via"} {
				if g := h.GetHeader(n); len(g) > 0 {
					out = append(out, g)
				}
			}
			if len(out) > 12 {
				out = out[len(out)-12:]
			}
			var want [][]string
			for _, l := range out {
				want = append(want, append([]string{}, l...))
			}
			set()
			for k, l := range out {
				if !eqStrs(l, want[k]) {
					return where("the values %q, read before, are now %q", want[k], l)
				}
			}
			return nil
		}
		typed := func(n string, set func(), same func() error) error {
			if err := keeps(set); err != nil {
				return err
			}
			if err := same(); err != nil {
				return where("%v", err)
			}
			m.set(n, h.GetFirstHeader(n))
			return nil
		}
		switch op.K {
		case "set":
			if !settable(op.Name) {
				continue
			}
			if len(m.vals[op.Name]) > 1 || len(m.get(op.Name)) > 0 && len(m.vals[op.Name]) == 0 {
				o.Class("set replaces several values or a compact form")
			}
			if err := keeps(func() { h.SetFirstHeader(name, val) }); err != nil {
				return err
			}
			m.set(op.Name, val)
		case "put": // straight into the map
			if k, ok := m.key[op.Name]; ok && k != name {
				continue
			}
			var vs []string
			for _, v := range op.Vals {
				vs = append(vs, string(v))
			}
			h[name] = append([]string{}, vs...)
			out = append(out, h[name])
			m.vals[op.Name], m.key[op.Name] = vs, name
			o.ClassIf(len(vs) == 0, "no values")
			o.ClassIf(name != op.Name, "key not in lower case")
		case "parse":
			if k, ok := m.key[op.Name]; ok && k != op.Name {
				continue
			}
			line := []byte(name + op.Pre + ":" + op.Post + val + op.Pre)
			s.ParseHeader(line)
			scrub(line)
			m.vals[op.Name], m.key[op.Name] = append(append([]string{}, m.vals[op.Name]...), val), op.Name
			last[x] = op.Name
			o.ClassIf(len(m.vals[op.Name]) > 1, "several lines")
			o.ClassIf(len(op.Name) == 1 && fullOf(op.Name) != "", "compact form parsed")
		case "cont":
			if prev == "" || val == "" {
				continue
			}
			line := []byte(op.Pre + " " + val + op.Post)
			s.ParseHeader(line)
			scrub(line)
			vs := append([]string{}, m.vals[prev]...)
			vs[len(vs)-1] = joinFolds([]string{vs[len(vs)-1], val})
			m.vals[prev] = vs
			last[x] = prev
			o.Class("continuation")
		case "copy": // from the other set, or within the set
			from := 1 - x
			if op.N%6 == 5 {
				from = x
				o.Class("copy within a set")
			}
			src := model[from]
			var ns []string
			for _, n := range op.Names {
				same := false // one form of a name at a time
				for _, x := range ns {
					same = same || x == n || x == compactForms[n] || compactForms[x] == n
				}
				if !same && settable(n) && !(fullOf(n) != "" && len(src.vals[n]) == 0) {
					ns = append(ns, n)
				}
			}
			if len(ns) == 0 {
				continue
			}
			var given []string
			for k, n := range ns {
				given = append(given, caseOf(n, op.Mask>>uint(k)))
			}
			had := map[string][]string{}
			for _, n := range ns {
				had[n] = append([]string(nil), src.get(n)...)
			}
			if err := keeps(func() { h.CopyFrom(sip[from].Headers, given...) }); err != nil {
				return err
			}
			for _, n := range ns {
				w := had[n]
				g := h.GetHeader(n)
				switch {
				case len(w) == 0:
					if h.GetFirstHeader(n) != "" || len(g) > 1 {
						return where("copying the missing header %s gives %q", n, g)
					}
					m.set(n, g...)
					if len(g) == 0 {
						delete(m.vals, n)
						delete(m.key, n)
						if _, ok := h[n]; ok {
							m.key[n] = n
						}
					}
					o.Class("copy of a missing header")
				case eqStrs(g, w[:1]) || eqStrs(g, w):
					m.set(n, g...)
					o.Class("copy")
				default:
					return where("copy of %s: %q, the source has %q", n, g, w)
				}
			}
		case "callid":
			if err := typed("call-id", func() { h.SetCallID(val) }, func() error { return eqText(h.GetCallID(), val) }); err != nil {
				return err
			}
		case "length":
			if err := typed("content-length", func() { h.SetContentLength(op.N) }, func() error {
				l, err := h.GetContentLength()
				if err != nil || l != op.N {
					return fmt.Errorf("Content-Length %d, %v", l, err)
				}
				return eqText(h.GetFirstHeader("l"), "")
			}); err != nil {
				return err
			}
		case "text":
			n := []string{"max-forwards", "reason-phrase", "supported", "subject", "content-type", "allow"}[op.N%6]
			w := val
			if err := typed(n, func() {
				switch op.N % 6 {
				case 0:
					h.SetMaxForwards(op.N)
					w = strconv.Itoa(op.N)
				case 1:
					h.SetReasonPhrase(val)
				case 2:
					h.SetSupported(val)
				case 3:
					h.SetSubject(val)
				case 4:
					h.SetContentType(val)
				default:
					h.SetAllow(val)
				}
			}, func() error { return eqText(h.GetFirstHeader(caseOf(n, op.Mask)), w) }); err != nil {
				return err
			}
		case "user":
			u := sips.NewSIPUser("")
			u.User, u.Host = fmt.Sprint("u", op.N), "h"
			if op.N%2 == 1 {
				u.Args.Set("tag", "1")
			}
			w := userParts(u)
			n := []string{"from", "to", "contact"}[op.N%3]
			set := []func(*sips.SIPUser){h.SetSIPFrom, h.SetSIPTo, h.SetSIPContact}[op.N%3]
			get := []func() *sips.SIPUser{h.GetSIPFrom, h.GetSIPTo, h.GetSIPContact}[op.N%3]
			if err := typed(n, func() { set(u) }, func() error { return eqText(userParts(get()), w) }); err != nil {
				return err
			}
		case "line":
			if op.N%2 == 0 {
				q := mkCseq(SCseq{ID: fmt.Sprint(op.N), M: "ACK"})
				if err := typed("cseq", func() { h.SetSIPCseq(q) }, func() error { return eqText(cseqParts(h.GetSIPCseq()), cseqParts(q)) }); err != nil {
					return err
				}
				break
			}
			v := mkVia(SVia{Trans: "TCP", Host: "h", Port: fmt.Sprint(op.N)})
			if err := typed("via", func() { h.SetSIPVia(v) }, func() error { return eqText(viaParts(h.GetSIPVia()), viaParts(v)) }); err != nil {
				return err
			}
		case "bytes":
			if err := bytesS05(h, m, o); err != nil {
				return where("%v", err)
			}
		}
		done++
		// read everything back, in both sets
		for x := range sip {
			if err := readS05(sip[x].Headers, model[x], op.Mask*31+i, o); err != nil {
				return where("set %d: %v", x, err)
			}
		}
		_ = s
	}
	for x := range sip {
		if err := bytesS05(sip[x].Headers, model[x], o); err != nil {
			return fmt.Errorf("set %d at the end: %v", x, err)
		}
	}
	if done > 2 {
		o.NonTrivial()
	}
	return nil
}

func eqText(got, want string) error {
	if got != want {
		return fmt.Errorf("reads as %q, want %q", clip(got, 300), clip(want, 300))
	}
	return nil
}

// readS05 compares all reads with the model.
func readS05(h sips.SIPHeader, m *hModel, mask int, o *Obs) error {
	names := append(append([]string{}, customNames...), fullNames...)
	for n := range m.vals {
		if compactForms[n] == "" {
			names = append(names, n)
		}
	}
	for _, n := range names {
		asked := caseOf(n, mask)
		mask = mask*5 + 3
		w := m.get(n)
		if g := h.GetHeader(asked); !eqStrs(g, w) {
			return fmt.Errorf("GetHeader(%q): %s, want %s", asked, clipStrs(g), clipStrs(w))
		}
		if err := eqText(h.GetFirstHeader(asked), m.first(n)); err != nil {
			return fmt.Errorf("GetFirstHeader(%q): %v", asked, err)
		}
		o.ClassIf(len(w) > 0 && len(m.vals[n]) == 0, "found by its compact form")
		o.ClassIf(len(m.vals[n]) > 0 && len(m.vals[compactForms[n]]) > 0, "full and compact form present")
	}
	for _, x := range []struct{ what, got, want string }{
		{"GetCallID", h.GetCallID(), m.first("call-id")},
		{"GetExpires", h.GetExpires(), m.first("expires")},
		{"GetSIPFrom", userParts(h.GetSIPFrom()), userParts(sips.NewSIPUser(m.first("from")))},
		{"GetSIPTo", userParts(h.GetSIPTo()), userParts(sips.NewSIPUser(m.first("to")))},
		{"GetSIPContact", userParts(h.GetSIPContact()), userParts(sips.NewSIPUser(m.first("contact")))},
		{"GetSIPVia", viaParts(h.GetSIPVia()), viaParts(sips.NewSIPVia(m.first("via")))},
		{"GetSIPCseq", cseqParts(h.GetSIPCseq()), cseqParts(sips.NewSIPCseq(m.first("cseq")))},
		{"GetAuthorization", authParts(h.GetAuthorization()), authParts(sips.NewSIPAuth(m.first("authorization")))},
	} {
		if x.got != x.want {
			return fmt.Errorf("%s: %s, want %s", x.what, clip(x.got, 300), clip(x.want, 300))
		}
	}
	l, err := h.GetContentLength()
	wl, werr := strconv.Atoi(m.first("content-length"))
	if (err != nil) != (werr != nil) || err == nil && l != wl {
		return fmt.Errorf("GetContentLength: %d, %v for %q", l, err, m.first("content-length"))
	}
	return nil
}

// bytesS05 compares the serialised headers with the model.
func bytesS05(h sips.SIPHeader, m *hModel, o *Obs) error {
	out := string(h.Bytes())
	w, err := readWire("x\r\n" + out)
	if err != nil {
		return fmt.Errorf("%v in %q", err, clip(out, 400))
	}
	if w.blank {
		return fmt.Errorf("blank line in %q", clip(out, 400))
	}
	got, _ := merged(w.hdrs)
	n := 0
	for k, vs := range m.vals {
		if len(vs) == 0 {
			continue
		}
		n++
		if eqStrs(got[k], vs) {
			continue
		}
		if len(vs) > 1 {
			lines := [][]string{}
			for _, x := range w.hdrs {
				if strings.ToLower(x.name) == k {
					lines = append(lines, x.vals)
				}
			}
			if len(lines) == 1 && eqStrs(lines[0], vs) {
				if err := o.Known("S05-folded-values", fmt.Sprintf("the %d values of header %s are written as one folded value", len(vs), k)); err != nil {
					return err
				}
				continue
			}
		}
		return fmt.Errorf("header %s is written as %s, its values are %s, in %q", k, clipStrs(got[k]), clipStrs(vs), clip(out, 400))
	}
	if len(got) != n {
		return fmt.Errorf("%d headers are written, %d have values: %q", len(got), n, clip(out, 400))
	}
	if h.String() == "" && out != "" {
		return fmt.Errorf("String is empty")
	}
	return nil
}

func genS05(t *rapid.T) HCase {
	var c HCase
	pool := []string{pick(t, fullNames...), pick(t, fullNames...), pick(t, customNames...), strings.ToLower(genFrom(t, tokenChars, 2, 6))}
	pool = append(pool, compactForms[pool[0]], pick(t, "from", "to", "via", "contact"))
	if chance(t, 30) {
		pool = append(pool, pick(t, "content-length", "l", "expires", "authorization", "cseq"))
	}
	for i := intn(t, 1, 10); i > 0; i-- {
		op := HOp{K: pick(t, "set", "set", "put", "parse", "parse", "parse", "cont", "copy", "callid", "length", "text", "user", "line", "bytes"), H: pick(t, 0, 0, 1),
			Name: pick(t, pool...), Mask: genMask(t), N: intn(t, 0, 30)}
		switch op.K {
		case "set", "callid", "text", "parse", "cont":
			op.Val = genValue(t)
			op.Pre, op.Post = genBlank(t), genBlank(t)
		case "put":
			for k := pick(t, 1, 1, 0, 2, 3); k > 0; k-- {
				op.Vals = append(op.Vals, genValue(t))
			}
		case "copy":
			for k := intn(t, 1, 3); k > 0; k-- {
				op.Names = append(op.Names, pick(t, pool...))
			}
			if chance(t, 10) { // a message answered with most of its headers
				op.Names = append(op.Names, fullNames...)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	c.Times = genTimes(t, 2000)
	return c
}

func sweepS05(thorough bool, yield func(HCase)) {
	var all HCase // every name, copied at once
	for i, f := range append(append([]string{}, fullNames...), customNames...) {
		all.Ops = append(all.Ops, HOp{K: "set", Name: f, Val: Str(fmt.Sprint("v", i))})
	}
	all.Ops = append(all.Ops, HOp{K: "copy", H: 1, Names: append(append([]string{}, customNames...), fullNames...)})
	yield(all)
	for _, n := range []int{130, 300, 600} {
		yield(HCase{Times: n, Ops: []HOp{{K: "parse", Name: "via", Val: "1", Mask: 3}, {K: "parse", Name: "x-a", Val: "2"}, {K: "parse", Name: "v", Val: "3"}}})
		yield(HCase{Times: n, Ops: []HOp{{K: "parse", Name: "t", Val: "1"}, {K: "set", Name: "to", Val: "3", Mask: 5}, {K: "parse", Name: "to", Val: "4"}, {K: "copy", H: 1, Names: []string{"to"}}}})
	}
	// many names, many values
	for _, n := range []int{20, 40, 70, 140, 300, 1100} {
		var vals []Str
		c := HCase{}
		for i := 0; i < n; i++ {
			vals = append(vals, Str("v"+strconv.Itoa(i)))
		}
		yield(HCase{Ops: []HOp{{K: "put", Name: "x-a", Vals: vals}, {K: "put", Name: "x-b", Vals: vals[:3]}, {K: "copy", H: 1, Names: []string{"x-a"}}}})
		for i := 0; i < min(n, 300); i++ {
			c.Ops = append(c.Ops, HOp{K: []string{"parse", "set"}[i%2], Name: "x-" + strconv.Itoa(i), Val: "1", Mask: i})
		}
		yield(c)
		d := HCase{}
		for i := 0; i < min(n, 300); i++ {
			d.Ops = append(d.Ops, HOp{K: "parse", Name: []string{"via", "v", "x-a"}[i%3], Val: vals[i], Mask: i})
		}
		yield(d)
		yield(HCase{Ops: []HOp{{K: "parse", Name: "x-" + strings.Repeat("n", n*60), Val: Str(strings.Repeat("v", n*64)), Mask: 5}, {K: "set", Name: "t", Val: Str(strings.Repeat("w", n*64))}, {K: "bytes"}}})
	}
	for _, n := range []int{127, 128, 200, 256, 32768, 40000, 65536} { // and behind a long one
		yield(HCase{Ops: []HOp{{K: "parse", Name: "x-a", Val: Str(strings.Repeat("b", n))}, {K: "cont", Val: "c"}, {K: "cont", Val: Str(strings.Repeat("d", n))}, {K: "bytes"}}})
	}
	for _, n := range []int{126, 127, 254, 255, 32766, 32767, 65534, 65535} { // a folded line behind many values
		vals := make([]Str, n)
		for i := range vals {
			vals[i] = Str(strconv.Itoa(i % 10))
		}
		yield(HCase{Ops: []HOp{{K: "put", Name: "x-a", Vals: vals}, {K: "parse", Name: "x-a", Val: "b"}, {K: "cont", Val: "c"}, {K: "parse", Name: "x-a", Val: "d"}, {K: "cont", Val: "e"}, {K: "bytes"}}})
	}
	// every compact pair: parse compact, parse full, set, in every order of two or three steps
	for _, f := range fullNames {
		s := compactForms[f]
		steps := []HOp{{K: "parse", Name: s, Val: "1", Mask: 1}, {K: "parse", Name: f, Val: "2", Mask: -1}, {K: "set", Name: f, Val: "3", Mask: 5},
			{K: "put", Name: s, Mask: -1, Vals: []Str{"4"}}, {K: "put", Name: f, Mask: 9, Vals: []Str{"5", "6"}}, {K: "copy", H: 1, Names: []string{f}, Mask: 2},
			{K: "put", Name: f, Mask: 0, Vals: nil}, {K: "copy", Names: []string{f, "x-a"}, Mask: 3}, {K: "set", Name: s, Val: "7", Mask: 1}}
		for a := range steps {
			for b := range steps {
				yield(HCase{Ops: []HOp{steps[a], steps[b]}})
				for d := range steps {
					yield(HCase{Ops: []HOp{steps[a], steps[b], steps[d], {K: "bytes"}}})
				}
			}
		}
	}
	for n := 0; n < 12; n++ {
		for _, k := range []string{"callid", "length", "text", "user", "line"} {
			yield(HCase{Ops: []HOp{{K: k, N: n, Val: "v", Mask: n}, {K: "bytes"}, {K: k, N: n + 6, Val: "w"}}})
			for _, f := range []string{"call-id", "content-length", "subject", "supported", "content-type", "from", "to", "contact", "via"} {
				yield(HCase{Ops: []HOp{{K: "parse", Name: compactForms[f], Val: "1"}, {K: k, N: n, Val: "v"}, {K: "parse", Name: compactForms[f], Val: "9"}}})
			}
		}
	}
}

// ---------------------------------------------------------------- S06

// ArgCase is a list of arguments in one of the written forms.
type ArgCase struct {
	Form   string   `json:"form"` // comma semi crlf list digest other
	Args   []SArg   `json:"args"`
	Seps   []string `json:"seps,omitempty"`
	Scheme string   `json:"scheme,omitempty"`
	Lead   string   `json:"lead,omitempty"`
	Trail  string   `json:"trail,omitempty"`
}

func checkS06(c ArgCase, o *Obs) error {
	return twice(func(k *owned) error { return argsOnce(c, o, k) })
}

func argsOnce(c ArgCase, o *Obs, k *owned) error {
	want := argMap(c.Args)
	a := mkArgs(want)
	same := func(what, text string, got sips.Args) error {
		k.add("parsing a "+what, got)
		if showArgs(got) != showArgs(want) {
			return fmt.Errorf("%s %q is parsed as %s, want %s", what, clip(text, 400), clip(showArgs(got), 400), clip(showArgs(want), 400))
		}
		return nil
	}
	if len(c.Args) > 0 {
		o.NonTrivial()
	}
	o.Class("%s", c.Form)
	for _, x := range c.Args {
		o.ClassIf(strings.ContainsAny(string(x.V), `"\`), "quotes or backslashes in a value")
		o.ClassIf(strings.ContainsAny(string(x.V), ",;="), "separators in a value")
	}
	strict := func(s, sep string, quoted bool) error {
		m, err := strictList(s, sep, quoted)
		if err != nil || showArgs(m) != showArgs(want) {
			return fmt.Errorf("%s are written as %q: %v", clip(showArgs(want), 400), clip(s, 400), err)
		}
		return nil
	}
	switch c.Form {
	case "comma":
		s := a.CommaString()
		if err := strict(s, ", ", true); err != nil {
			return err
		}
		if err := same("CommaString", s, sips.ParseArgsPairs(s)); err != nil {
			return err
		}
		if err := same("Digest line", s, sips.NewSIPAuth("Digest "+s).Args); err != nil {
			return err
		}
		if err := same("CommaString behind a semicolon", s, sips.ParseArgs("x;"+s)); err != nil {
			return err
		}
	case "semi":
		s := a.SemicolonString()
		if s != "" && (s[0] != ';' || showArgs(strictArgs(s[1:])) != showArgs(want)) || s == "" && len(want) > 0 {
			return fmt.Errorf("%s are written as %q", clip(showArgs(want), 400), clip(s, 400))
		}
		if err := same("SemicolonString", s, sips.ParseArgs(s)); err != nil {
			return err
		}
		if err := same("SemicolonString", s, sips.ParseArgs("<sip:a@b>"+s)); err != nil {
			return err
		}
		if len(s) > 0 {
			if err := same("SemicolonString", s, sips.ParseArgsPairs(s[1:])); err != nil {
				return err
			}
		}
	case "crlf":
		s := a.CRLFString()
		if err := strict(s, "\r\n", false); err != nil {
			return err
		}
		if err := same("CRLFString", s, sips.ParseArgsPairs(s)); err != nil {
			return err
		}
	case "list", "digest", "other":
		s := c.Lead
		for i, x := range c.Args {
			if i > 0 {
				sep := ","
				if len(c.Seps) > 0 {
					sep = c.Seps[i%len(c.Seps)]
				}
				s += sep
			}
			s += x.text()
		}
		s += c.Trail
		switch c.Form {
		case "list":
			if err := same("list", s, sips.ParseArgsPairs(s)); err != nil {
				return err
			}
			if err := same("list", ";"+s, sips.ParseArgs(";"+s)); err != nil {
				return err
			}
		case "digest":
			line := c.Scheme + " " + s
			if err := same("line", line, sips.NewSIPAuth(line).Args); err != nil {
				return err
			}
			h := sips.NewSIPHeader()
			h.SetFirstHeader("Authorization", line)
			if err := same("Authorization header", line, h.GetAuthorization().Args); err != nil {
				return err
			}
		default:
			line := c.Scheme + s
			if g := sips.NewSIPAuth(line).Args; len(g) > 0 {
				return fmt.Errorf("authorization line %q of another scheme is parsed as %s", line, showArgs(g))
			}
		}
	}
	// Get, Set and Del work on the same map
	for _, x := range c.Args {
		if a.Get(string(x.K)) != string(x.V) {
			return fmt.Errorf("Get(%q) = %q", x.K, a.Get(string(x.K)))
		}
		a.Del(string(x.K))
		if a.Get(string(x.K)) != "" {
			return fmt.Errorf("Get(%q) after Del = %q", x.K, a.Get(string(x.K)))
		}
	}
	if len(a) != 0 {
		return fmt.Errorf("arguments left after Del: %q", a)
	}
	return nil
}

func genS06(t *rapid.T) ArgCase {
	c := ArgCase{Form: pick(t, "comma", "comma", "semi", "crlf", "list", "list", "digest", "digest", "other")}
	seen := map[string]bool{}
	for i := intn(t, 0, 5); i > 0; i-- {
		x := SArg{K: Str(pick(t, "username", "realm", "nonce", "a", genFrom(t, tokenChars, 1, 6)))}
		if seen[string(x.K)] {
			continue
		}
		seen[string(x.K)] = true
		switch c.Form {
		case "comma":
			x.V = Str(genPrintable(t, 16))
		case "semi", "crlf":
			x.V = Str(strings.TrimSpace(strings.Map(func(r rune) rune {
				if strings.ContainsRune(",;\"\n", r) {
					return 'x'
				}
				return r
			}, genPrintable(t, 12))))
		default:
			x.Pre, x.Eq, x.End = genBlank(t), genBlank(t), genBlank(t)
			if boolean(t) {
				x.M = pick(t, 2, 2, 3)
				x.V = Str(genPrintable(t, 12))
			} else {
				x.V = Str(genFrom(t, tokenChars+"=/:<>@\\", 0, 8))
				x.M = intn(t, 0, 1)
			}
		}
		c.Args = append(c.Args, x)
	}
	if c.Form == "list" || c.Form == "digest" || c.Form == "other" {
		for i := intn(t, 0, 3); i > 0; i-- {
			s := pick(t, ",", ",", ", ", ",\r\n ", ",\n\t", ",\r\n   ")
			if c.Form == "list" {
				s = pick(t, ",", ";", "\n", "\r\n", "; ", ", ", ",,", ";\r\n")
			}
			c.Seps = append(c.Seps, s)
		}
		if chance(t, 20) {
			c.Trail = pick(t, " ", "\t", "\r\n")
		}
		if chance(t, 20) {
			c.Lead = pick(t, " ", "  ", "\t")
		}
	}
	c.Scheme = caseOf("digest", genMask(t))
	if c.Form == "other" {
		c.Scheme = pick(t, "Basic ", "Bearer ", "NTLM ", "", "Digestx ", "Diges ", "Dige\u017ft ", "xDigest ", "Capability ", "D ")
	}
	return c
}

func sweepS06(thorough bool, yield func(ArgCase)) {
	// every byte as a value, alone and between others
	for b := 0x20; b < 0x100; b++ {
		if b == 0x7f {
			continue
		}
		v := Str([]byte{byte(b)})
		for _, x := range []Str{v, "a" + v, v + "a", v + v, "a" + v + "b", `\` + v, `"` + v, v + `\`, v + `"`} {
			yield(ArgCase{Form: "comma", Args: []SArg{{K: "k", V: x}, {K: "j", V: "1"}}})
			yield(ArgCase{Form: "list", Args: []SArg{{K: "k", V: x, M: 2}, {K: "j", V: x, M: 3}}, Seps: []string{";"}})
			if !strings.ContainsAny(string(x), ",;\"") && strings.TrimSpace(string(x)) == string(x) {
				yield(ArgCase{Form: "semi", Args: []SArg{{K: "k", V: x}, {K: "j"}}})
				yield(ArgCase{Form: "crlf", Args: []SArg{{K: "k", V: x}, {K: "j"}}})
			}
		}
	}
	for mask := 0; mask < 64; mask++ {
		for _, sep := range []string{",", ", ", ",\r\n ", ",\n"} {
			yield(ArgCase{Form: "digest", Scheme: caseOf("digest", mask), Args: []SArg{{K: "username", V: "Alice", M: 2}, {K: "qop", V: "auth"}, {K: "opaque", M: 2}}, Seps: []string{sep}})
		}
	}
	for _, f := range []string{"comma", "semi", "crlf", "list", "digest", "other"} {
		yield(ArgCase{Form: f, Scheme: "Digest"})
		for _, n := range []int{9, 17, 33, 65, 129, 256, 257, 1030, 4100} {
			yield(ArgCase{Form: f, Scheme: "Digest", Args: manyArgs(n, n), Seps: []string{","}})
		}
		for _, n := range []int{40, 70, 140, 256, 300, 1100, 5000, 32768, 40000, 65534, 65536, 70000, 300000} {
			for m := 0; m < 4; m++ {
				c := ArgCase{Form: f, Scheme: "Digest", Args: []SArg{{K: "k", V: Str(strings.Repeat("v", n)), M: m}, {K: Str(strings.Repeat("k", n)), V: "1"}, {K: "z", V: "2"}}, Seps: []string{","}}
				if m == 1 {
					c.Args[0].V = ""
				}
				yield(c)
			}
		}
	}
}

// ---------------------------------------------------------------- S07

// StartCase is a name or a start line.
type StartCase struct {
	Kind   string `json:"kind"`           // method version name line
	I      int    `json:"i,omitempty"`    // index of the method or status
	Mask   int    `json:"m,omitempty"`    // letter case
	Name   Str    `json:"name,omitempty"` // kind name: another name
	Parts  []Str  `json:"parts,omitempty"`
	Method int    `json:"-"`
}

var versionNames = []struct {
	V sips.SIPVersion
	S string
}{{sips.SIPVersion1, "SIP/1.0"}, {sips.SIPVersion2, "SIP/2.0"}}

// knownVersion and knownMethod decide by ASCII letters alone.
func knownVersion(s string) (sips.SIPVersion, bool) {
	for _, v := range versionNames {
		if caseOf(s, -1) == v.S {
			return v.V, true
		}
	}
	return 0, false
}

func knownMethod(s string) (sips.SIPMethod, bool) {
	for _, m := range sipMethods {
		if caseOf(s, -1) == m.S {
			return m.M, true
		}
	}
	return 0, false
}

func letters(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r
		}
		return -1
	}, strings.ToLower(s))
}

func checkS07(c StartCase, o *Obs) error {
	o.Class("%s", c.Kind)
	switch c.Kind {
	case "method":
		m := sipMethods[c.I%len(sipMethods)]
		name := caseOf(m.S, c.Mask)
		g, err := sips.GetSIPMethod(name)
		if err != nil || g != m.M {
			return fmt.Errorf("GetSIPMethod(%q) = %v, %v", name, g, err)
		}
		if m.M.String() != m.S {
			return fmt.Errorf("method %s prints as %q", m.S, m.M.String())
		}
		o.NonTrivial()
	case "number": // no other number prints as a method
		n := sips.SIPMethod(c.I)
		for _, m := range sipMethods {
			if m.M == n && n != 0 {
				return nil
			}
		}
		if m, ok := knownMethod(n.String()); ok {
			return fmt.Errorf("method number %d prints as %q, which is method %d", c.I, n.String(), m)
		}
		o.NonTrivial()
	case "version":
		v := versionNames[c.I%2]
		name := caseOf(v.S, c.Mask)
		g, err := sips.GetSIPVersion(name)
		if err != nil || g != v.V {
			return fmt.Errorf("GetSIPVersion(%q) = %v, %v", name, g, err)
		}
		if v.V.String() != v.S {
			return fmt.Errorf("version %s prints as %q", v.S, v.V.String())
		}
		o.NonTrivial()
	case "status":
		s := sipStatus[c.I%len(sipStatus)]
		if int(s.C) != s.Code || s.C.Int() != s.Code || s.C.String() != strconv.Itoa(s.Code) {
			return fmt.Errorf("status %d: constant %d, Int %d, String %q", s.Code, int(s.C), s.C.Int(), s.C.String())
		}
		if letters(s.C.Text()) != letters(s.Text) {
			return fmt.Errorf("status %d: text %q, want %q", s.Code, s.C.Text(), s.Text)
		}
		if strings.ContainsAny(s.C.Text(), "\r\n") {
			return fmt.Errorf("status %d: text %q", s.Code, s.C.Text())
		}
		o.NonTrivial()
	case "name":
		n := string(c.Name)
		if _, ok := knownMethod(n); !ok {
			if m, err := sips.GetSIPMethod(n); err == nil {
				return fmt.Errorf("GetSIPMethod(%q) = %v without error", n, m)
			}
			o.NonTrivial()
		}
		if _, ok := knownVersion(n); !ok {
			if v, err := sips.GetSIPVersion(n); err == nil {
				return fmt.Errorf("GetSIPVersion(%q) = %v without error", n, v)
			}
		}
	case "line":
		return startLine(c, o)
	}
	return nil
}

func startLine(c StartCase, o *Obs) error {
	var ps []string
	for _, p := range c.Parts {
		ps = append(ps, string(p))
	}
	line := strings.Join(ps, " ")
	if strings.ContainsAny(line, "\r\n") {
		return nil
	}
	f := strings.SplitN(line, " ", 3)
	for _, x := range f {
		if x == "" && len(f) == 3 {
			return nil // empty parts are not judged
		}
	}
	want := "error"
	var wantSIP sips.SIP
	switch {
	case len(f) < 3:
	case strings.HasPrefix(caseOf(f[0], -1), "SIP"):
		if v, ok := knownVersion(f[0]); ok {
			digits := strings.Trim(f[1], "0123456789") == ""
			if !digits && strings.Trim(f[1], "+-0123456789_") == "" {
				return nil // signs and underscores are not judged
			}
			if digits && len(f[1]) > 9 {
				return nil
			}
			if digits {
				want = "response"
				n, _ := strconv.Atoi(f[1])
				wantSIP.Version, wantSIP.ResponseCode, wantSIP.ResponseStatus = v, sips.SIPStatus(n), f[2]
			}
		}
	default:
		m, ok := knownMethod(f[0])
		v, ok2 := knownVersion(f[2])
		if ok && ok2 {
			want = "request"
			wantSIP.Version, wantSIP.Method = v, m
		}
	}
	o.Class("%s line", want)
	o.NonTrivial()
	s := sips.NewSIP()
	err := lent([]byte(line), s.ParseFirstLine)
	full := sips.NewSIP()
	errFull := full.ParseBytes([]byte(line + "\r\nContent-Length: 0\r\n\r\n"))
	if (err == nil) != (errFull == nil) {
		return fmt.Errorf("start line %q: ParseFirstLine %v, ParseBytes of a message with it %v", line, err, errFull)
	}
	if (err == nil) != (want != "error") {
		return fmt.Errorf("start line %q: %v, want %s", line, err, want)
	}
	if err != nil {
		return nil
	}
	for _, x := range []*sips.SIP{s, full} {
		if x.IsResponse != (want == "response") || x.Version != wantSIP.Version || x.Method != wantSIP.Method || x.ResponseCode != wantSIP.ResponseCode || x.ResponseStatus != wantSIP.ResponseStatus {
			return fmt.Errorf("start line %q: response %v version %v method %v code %v reason %q", line, x.IsResponse, x.Version, x.Method, x.ResponseCode, x.ResponseStatus)
		}
		if want == "request" {
			if x.Request == nil || reqParts(x.Request) != reqParts(sips.NewSIPRequest(f[1])) {
				return fmt.Errorf("start line %q: URI %v", line, x.Request)
			}
		} else if x.Request != nil {
			return fmt.Errorf("start line %q of a response has a request URI", line)
		}
	}
	return nil
}

func genS07(t *rapid.T) StartCase {
	switch pick(t, "method", "version", "name", "name", "line", "line", "line") {
	case "method":
		return StartCase{Kind: "method", I: intn(t, 0, len(sipMethods)-1), Mask: spread(t, 0, 1<<20)}
	case "version":
		return StartCase{Kind: "version", I: intn(t, 0, 1), Mask: spread(t, 0, 1<<20)}
	case "name":
		return StartCase{Kind: "name", Name: genOtherName(t)}
	}
	part := func() Str {
		switch pick(t, 0, 1, 2, 3, 4, 5) {
		case 0:
			return Str(caseOf(sipMethods[intn(t, 0, len(sipMethods)-1)].S, genMask(t)))
		case 1:
			return Str(caseOf(versionNames[intn(t, 0, 1)].S, genMask(t)))
		case 2:
			return Str(strconv.Itoa(spread(t, 0, 999)))
		case 3:
			return Str(genURI(t, true).text())
		case 4:
			return genOtherName(t)
		}
		return Str(pick(t, "OK", "Not", "Found", "x", "200x", "x200", "2 0", "0x10", "1e3", "٢٠٠", "SIP", "SIP/", "SIP/2", "SIP/3.0", "SIP/2.0.0", "HTTP/1.1", "SIPX", "+200", "-1", "1_0"))
	}
	c := StartCase{Kind: "line"}
	switch pick(t, 0, 1, 2) {
	case 0: // a request, perhaps with one part replaced
		c.Parts = []Str{Str(caseOf(sipMethods[intn(t, 0, len(sipMethods)-1)].S, genMask(t))), Str(genURI(t, true).text()), Str(caseOf(versionNames[intn(t, 0, 1)].S, genMask(t)))}
	case 1:
		c.Parts = []Str{Str(caseOf(versionNames[intn(t, 0, 1)].S, genMask(t))), Str(strconv.Itoa(spread(t, 0, 9999))), Str(pick(t, "OK", "Not Found", "a  b ", "SIP/2.0"))}
		if chance(t, 20) {
			c.Parts[1] = Str(strconv.Itoa(spread(t, 0, 999999999)))
		}
	}
	if len(c.Parts) == 0 {
		for i := intn(t, 1, 4); i > 0; i-- {
			c.Parts = append(c.Parts, part())
		}
	} else if boolean(t) {
		switch pick(t, 0, 1, 2) {
		case 0:
			c.Parts[intn(t, 0, 2)] = part()
		case 1:
			c.Parts = append(c.Parts, part())
		case 2:
			c.Parts = c.Parts[:2]
		}
	}
	return c
}

// genOtherName draws a name near a known one.
func genOtherName(t *rapid.T) Str {
	n := []byte(pick(t, "INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "PRACK", "SUBSCRIBE", "NOTIFY", "PUBLISH", "INFO", "REFER", "MESSAGE", "UPDATE", "PING", "SIP/1.0", "SIP/2.0"))
	switch pick(t, 0, 1, 2, 3, 4, 5) {
	case 0:
		n[intn(t, 0, len(n)-1)] ^= byte(1 << uint(intn(t, 0, 7)))
	case 1:
		n = n[:intn(t, 0, len(n)-1)]
	case 2:
		n = append(n, pick(t, " ", "S", "X", "\x00", "\t", ".", "0")...)
	case 3:
		n = append([]byte(pick(t, " ", "x", "\t", "\x00")), n...)
	case 4:
		i := intn(t, 0, len(n)-1)
		r := map[byte]string{'S': "ſ", 'I': "ı", 'K': "\u212a"}[n[i]]
		if r == "" {
			r = "İ"
		}
		n = append(append(append([]byte{}, n[:i]...), r...), n[i+1:]...)
	default:
		i, j := intn(t, 0, len(n)-1), intn(t, 0, len(n)-1)
		n[i], n[j] = n[j], n[i]
	}
	return Str(n)
}

func sweepS07(thorough bool, yield func(StartCase)) {
	for i, m := range sipMethods {
		for mask := 0; mask < 1<<uint(len(m.S)); mask++ {
			yield(StartCase{Kind: "method", I: i, Mask: mask})
		}
		for k := 0; k < len(m.S); k++ {
			yield(StartCase{Kind: "name", Name: Str(m.S[:k])})
			yield(StartCase{Kind: "name", Name: Str(m.S[k+1:])})
			yield(StartCase{Kind: "name", Name: Str(m.S[:k] + m.S[k+1:])})
			for _, r := range []string{"ſ", "ı", "\u212a", "İ", " ", "_"} {
				yield(StartCase{Kind: "name", Name: Str(m.S[:k] + r + m.S[k+1:])})
			}
		}
		for k := range versionNames {
			yield(StartCase{Kind: "line", Parts: []Str{Str(m.S), "sip:a@b", Str(versionNames[k].S)}})
			yield(StartCase{Kind: "line", Parts: []Str{Str(m.S), "sip:a@b", Str(versionNames[k].S), "x"}})
			yield(StartCase{Kind: "line", Parts: []Str{Str(m.S), Str(versionNames[k].S)}})
		}
	}
	for i := range versionNames {
		for mask := 0; mask < 8; mask++ {
			yield(StartCase{Kind: "version", I: i, Mask: mask})
		}
	}
	for i := 0; i < 1<<16; i += 1 + i/300*7 {
		yield(StartCase{Kind: "number", I: i})
	}
	for i := range sipStatus {
		yield(StartCase{Kind: "status", I: i})
	}
	for n := 0; n < 1000; n++ {
		yield(StartCase{Kind: "line", Parts: []Str{"SIP/2.0", Str(strconv.Itoa(n)), "Reason of it"}})
	}
	for _, v := range []string{"SIP/0.0", "SIP/1.1", "SIP/2.1", "SIP/20", "SIP2.0", "SIP/2.0 ", "SIP/02.0", "SIP/2.00", "SIP/2,0", "SIP\\2.0", "", "Unknown method", "NIL"} {
		yield(StartCase{Kind: "name", Name: Str(v)})
		yield(StartCase{Kind: "line", Parts: []Str{Str(v), "200", "OK"}})
		yield(StartCase{Kind: "line", Parts: []Str{"INVITE", "sip:a@b", Str(v)}})
	}
}

func init() {
	register(Spec[SBuild]{ID: "S01", Quick: 60000, Thorough: 600000, Gen: genS01, Check: checkS01, Sweep: sweepS01,
		Technique: techRapid + "round trip, with a strict reader of the serialised message as second oracle",
		Rule:      "requests and responses built by MakeRequest/MakeResponse (all methods and codes, both versions, URIs from parts, typed and raw headers under any letter case, preset lengths, lines up to 70000 bytes, arbitrary bodies up to 70000 bytes, header maps shared between messages); non-trivial: a header besides Content-Length or a body",
		Note:      "Header values have no line breaks and no blanks at their ends, names are distinct up to letter case."})
	register(Spec[SStream]{ID: "S03", Quick: 40000, Thorough: 400000, Gen: genS03, Check: checkS03, Sweep: sweepS03,
		Technique: techRapid + "messages written by an independent writer on one stream, read back by successive Parse calls",
		Rule:      "1-4 messages (names in any letter case or compact, blanks and tabs around the colon, values folded over up to 4 lines, CRLF and LF ends mixed, bodies up to 70000 bytes) and trailing bytes, or a last message that ends with the stream, on readers with buffers of 16-9000 bytes and read sizes from one byte; all messages are compared again at the end; non-trivial: two messages"})
	register(Spec[SParts]{ID: "S04", Quick: 200000, Thorough: 2000000, Gen: genS04, Check: checkS04, Sweep: sweepS04,
		Technique: techRapid + "lines written by an independent writer from known parts; written lines are read by the library and by a strict reader",
		Rule:      "addresses, request URIs, Via and CSeq lines from drawn parts; non-trivial: more than scheme and host",
		Note:      "Only arguments without separators, quotes and blanks are written back (SemicolonString writes no quotes)."})
	register(Spec[HCase]{ID: "S05", Quick: 50000, Thorough: 1200000, Gen: genS05, Check: checkS05, Sweep: sweepS05,
		Technique: techRapid + "reference model of header histories: after each step every read is compared",
		Rule:      "histories of 1-10 sets, direct entries, parsed lines and continuations, copies, typed setters and serialisations over two header sets; sweep: all three step histories on every compact pair; non-trivial: more than two steps"})
	register(Spec[ArgCase]{ID: "S06", Quick: 300000, Thorough: 2000000, Gen: genS06, Check: checkS06, Sweep: sweepS06,
		Technique: techRapid + "round trips and lists written by an independent writer",
		Rule:      "up to 5 arguments as CommaString, SemicolonString, CRLFString, as lists with drawn separators, quoting and blanks, and as authorization lines; sweep: every byte in every position of short values; non-trivial: at least one argument"})
	register(Spec[StartCase]{ID: "S07", Quick: 300000, Thorough: 800000, Gen: genS07, Check: checkS07, Sweep: sweepS07,
		Technique: techRapid + "tables of RFC 3261 as oracle; all names in all letter cases enumerated",
		Rule:      "all methods in all letter cases, all status codes, names one edit away from known ones, start lines from known and unknown parts; non-trivial: a name or line that is judged"})
}
