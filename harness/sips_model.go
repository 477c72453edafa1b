package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/moggle-mog/goav/sips"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- names

var sipMethods = []struct {
	M sips.SIPMethod
	S string
}{
	{sips.SIPMethodInvite, "INVITE"}, {sips.SIPMethodAck, "ACK"}, {sips.SIPMethodBye, "BYE"}, {sips.SIPMethodCancel, "CANCEL"},
	{sips.SIPMethodOptions, "OPTIONS"}, {sips.SIPMethodRegister, "REGISTER"}, {sips.SIPMethodPrack, "PRACK"}, {sips.SIPMethodSubscribe, "SUBSCRIBE"},
	{sips.SIPMethodNotify, "NOTIFY"}, {sips.SIPMethodPublish, "PUBLISH"}, {sips.SIPMethodInfo, "INFO"}, {sips.SIPMethodRefer, "REFER"},
	{sips.SIPMethodMessage, "MESSAGE"}, {sips.SIPMethodUpdate, "UPDATE"}, {sips.SIPMethodPing, "PING"},
}

// sipStatus are the codes of RFC 3261 and their reason phrases.
var sipStatus = []struct {
	Code int
	C    sips.SIPStatus
	Text string
}{
	{100, sips.StatusTrying, "Trying"}, {180, sips.StatusRinging, "Ringing"}, {181, sips.StatusCallIsBeingForwarded, "Call Is Being Forwarded"},
	{182, sips.StatusQueued, "Queued"}, {183, sips.StatusSessionProgress, "Session Progress"}, {200, sips.StatusOK, "OK"},
	{300, sips.StatusMultipleChoices, "Multiple Choices"}, {301, sips.StatusMovedPermanently, "Moved Permanently"}, {302, sips.StatusMovedTemporarily, "Moved Temporarily"},
	{305, sips.StatusUseProxy, "Use Proxy"}, {380, sips.StatusAlternativeService, "Alternative Service"}, {400, sips.StatusBadRequest, "Bad Request"},
	{401, sips.StatusUnauthorized, "Unauthorized"}, {402, sips.StatusPaymentRequired, "Payment Required"}, {403, sips.StatusForbidden, "Forbidden"},
	{404, sips.StatusNotFound, "Not Found"}, {405, sips.StatusMethodNotAllowed, "Method Not Allowed"}, {406, sips.StatusNotAcceptable, "Not Acceptable"},
	{407, sips.StatusProxyAuthenticationRequired, "Proxy Authentication Required"}, {408, sips.StatusRequestTimeout, "Request Timeout"}, {410, sips.StatusGone, "Gone"},
	{413, sips.StatusRequestEntityTooLarge, "Request Entity Too Large"}, {414, sips.StatusRequestURITooLong, "Request-URI Too Long"},
	{415, sips.StatusUnsupportedMediaType, "Unsupported Media Type"}, {416, sips.StatusUnsupportedURIScheme, "Unsupported URI Scheme"}, {420, sips.StatusBadExtension, "Bad Extension"},
	{421, sips.StatusExtensionRequired, "Extension Required"}, {423, sips.StatusIntervalTooBrief, "Interval Too Brief"}, {480, sips.StatusNoResponse, "Temporarily Unavailable"},
	{481, sips.StatusCallTransactionDoesNotExist, "Call/Transaction Does Not Exist"}, {482, sips.StatusLoopDetected, "Loop Detected"}, {483, sips.StatusTooManyHops, "Too Many Hops"},
	{484, sips.StatusAddressIncomplete, "Address Incomplete"}, {485, sips.StatusAmbigious, "Ambiguous"}, {486, sips.StatusBusyHere, "Busy Here"},
	{487, sips.StatusRequestTerminated, "Request Terminated"}, {488, sips.StatusNotAcceptableHere, "Not Acceptable Here"}, {491, sips.StatusRequestPending, "Request Pending"},
	{493, sips.StatusUndecipherable, "Undecipherable"}, {500, sips.StatusServerInternalError, "Server Internal Error"}, {501, sips.StatusNotImplemented, "Not Implemented"},
	{502, sips.StatusBadGateway, "Bad Gateway"}, {503, sips.StatusServiceUnavailable, "Service Unavailable"}, {504, sips.StatusServerTimeout, "Server Time-out"},
	{505, sips.StatusVersionNotSupported, "Version Not Supported"}, {513, sips.StatusMessageTooLarge, "Message Too Large"}, {600, sips.StatusBusyEverywhere, "Busy Everywhere"},
	{603, sips.StatusDecline, "Decline"}, {604, sips.StatusDoesNotExistAnywhere, "Does Not Exist Anywhere"}, {606, sips.StatusUnacceptable, "Not Acceptable"},
}

// compactForms of RFC 3261 and the IANA registry.
var compactForms = map[string]string{
	"accept-contact": "a", "allow-events": "u", "call-id": "i", "contact": "m", "content-encoding": "e", "content-length": "l", "content-type": "c",
	"event": "o", "from": "f", "identity": "y", "refer-to": "r", "referred-by": "b", "reject-contact": "j", "request-disposition": "d",
	"session-expires": "x", "subject": "s", "supported": "k", "to": "t", "via": "v",
}

var fullNames = func() []string {
	var out []string
	for k := range compactForms {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

// caseOf gives s under the letter case of the mask.
func caseOf(s string, mask int) string {
	b := []byte(s)
	for i := range b {
		up := mask>>(uint(i)%20)&1 == 1
		switch {
		case up && 'a' <= b[i] && b[i] <= 'z':
			b[i] -= 32
		case !up && 'A' <= b[i] && b[i] <= 'Z':
			b[i] += 32
		}
	}
	return string(b)
}

func genMask(t *rapid.T) int { return pick(t, 0, 1, -1, 3, spread(t, 0, 1<<20)) }

// ---------------------------------------------------------------- addresses

// SArg is a parameter as it is written.
type SArg struct {
	K   Str    `json:"k"`
	V   Str    `json:"v,omitempty"`
	M   int    `json:"m,omitempty"` // 0 k (or k=v), 1 k=, 2 quoted, 3 quoted with every character escaped
	Pre string `json:"pre,omitempty"`
	Eq  string `json:"eq,omitempty"` // blanks on both sides of '='
	End string `json:"end,omitempty"`
}

func (a SArg) text() string {
	out := a.Pre + string(a.K)
	switch {
	case a.M >= 2:
		var q []byte
		for i := 0; i < len(a.V); i++ {
			if a.V[i] == '"' || a.V[i] == '\\' || a.M == 3 && a.V[i] < 0x80 {
				q = append(q, '\\')
			}
			q = append(q, a.V[i])
		}
		out += a.Eq + "=" + a.Eq + `"` + string(q) + `"`
	case a.V != "" || a.M == 1:
		out += a.Eq + "=" + a.Eq + string(a.V)
	}
	return out + a.End
}

func argMap(lists ...[]SArg) map[string]string {
	m := map[string]string{}
	for _, l := range lists {
		for _, a := range l {
			m[string(a.K)] = string(a.V)
		}
	}
	return m
}

// plainArgs are parameters SemicolonString can write: no separators, quotes or outer blanks.
func plainArgs(m map[string]string) bool {
	for _, v := range m {
		if strings.ContainsAny(v, ",;\n\r\"<> ") || strings.TrimSpace(v) != v {
			return false
		}
	}
	return true
}

// SURI are the parts of a URI.
type SURI struct {
	Scheme string `json:"sch"`
	User   Str    `json:"u,omitempty"`
	Host   string `json:"h,omitempty"`
	Port   string `json:"p,omitempty"`
	Args   []SArg `json:"a,omitempty"`
}

func (u SURI) base() string {
	out := u.Scheme + ":" + string(u.User)
	if u.User != "" && u.Host != "" {
		out += "@"
	}
	out += u.Host
	if u.Port != "" {
		out += ":" + u.Port
	}
	return out
}

func (u SURI) text() string {
	out := u.base()
	for _, a := range u.Args {
		out += ";" + a.text()
	}
	return out
}

// SAddr is an address line.
type SAddr struct {
	SURI
	Name  Str    `json:"n,omitempty"`
	Form  int    `json:"form,omitempty"` // 0 bare URI, 1 <URI>, 2 plain name, 3 quoted name
	Out   []SArg `json:"out,omitempty"`  // parameters behind the address
	Lead  string `json:"lead,omitempty"`
	Gap   string `json:"gap,omitempty"` // between name and '<'
	Semi  string `json:"semi,omitempty"`
	Trail string `json:"trail,omitempty"`
}

func (a SAddr) text() string {
	out := a.Lead
	switch a.Form {
	case 0:
		out += a.SURI.base()
	case 1:
		out += "<" + a.SURI.text() + ">"
	case 2:
		out += string(a.Name) + a.Gap + "<" + a.SURI.text() + ">"
	default:
		out += `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(string(a.Name)) + `"` + a.Gap + "<" + a.SURI.text() + ">"
	}
	for i, x := range a.Out {
		if i == 0 {
			out += a.Semi
		}
		out += ";" + x.text()
	}
	return out + a.Trail
}

func (a SAddr) args() map[string]string {
	if a.Form == 0 {
		return argMap(a.Out)
	}
	return argMap(a.SURI.Args, a.Out)
}

func (a SAddr) name() string {
	if a.Form < 2 {
		return ""
	}
	return string(a.Name)
}

func showArgs(m map[string]string) string {
	if len(m) == 0 {
		return "no arguments"
	}
	return fmt.Sprintf("%q", m)
}

// parts of an address or URI as one comparable text.
func partsOf(name, scheme, user, host, port string, args map[string]string) string {
	return fmt.Sprintf("name %q scheme %q user %q host %q port %q %s", name, scheme, user, host, port, showArgs(args))
}

func userParts(u *sips.SIPUser) string {
	return partsOf(u.Name, u.URIType, u.User, u.Host, u.Port, u.Args)
}
func reqParts(r *sips.SIPRequest) string {
	return partsOf("", r.URIType, r.User, r.Host, r.Port, r.Args)
}
func viaParts(v *sips.SIPVia) string {
	return fmt.Sprintf("transport %q host %q port %q %s", v.Trans, v.Host, v.Port, showArgs(v.Args))
}
func cseqParts(c *sips.SIPCseq) string { return fmt.Sprintf("id %q method %q", c.ID, c.Method) }
func authParts(a *sips.SIPAuth) string { return showArgs(a.Args) }

func (u SURI) parts() string {
	return partsOf("", u.Scheme, string(u.User), u.Host, u.Port, argMap(u.Args))
}
func (a SAddr) parts() string {
	return partsOf(a.name(), a.Scheme, string(a.User), a.Host, a.Port, a.args())
}

// SVia is a Via line.
type SVia struct {
	Trans string `json:"t"`
	Host  string `json:"h"`
	Port  string `json:"p,omitempty"`
	Args  []SArg `json:"a,omitempty"`
	Gap   string `json:"gap"`
	Semi  string `json:"semi,omitempty"`
}

func (v SVia) text() string {
	out := "SIP/2.0/" + v.Trans + v.Gap + v.Host
	if v.Port != "" {
		out += ":" + v.Port
	}
	for i, a := range v.Args {
		if i == 0 {
			out += v.Semi
		}
		out += ";" + a.text()
	}
	return out
}

func (v SVia) parts() string {
	return fmt.Sprintf("transport %q host %q port %q %s", v.Trans, v.Host, v.Port, showArgs(argMap(v.Args)))
}

// SCseq is a CSeq line.
type SCseq struct {
	ID  string `json:"id"`
	M   string `json:"m"`
	Gap string `json:"gap"`
}

func (c SCseq) text() string { return c.ID + c.Gap + c.M }

// ---------------------------------------------------------------- generators

const tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~"

func genFrom(t *rapid.T, alphabet string, lo, hi int) string {
	n := intn(t, lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[intn(t, 0, len(alphabet)-1)]
	}
	return string(b)
}

func genBlank(t *rapid.T) string { return pick(t, "", "", " ", "\t", "  ", " \t ", "\t\t") }

// genArgs draws parameters with distinct names; rich ones may have quoted values with anything
// printable inside, plain ones survive SemicolonString.
func genArgs(t *rapid.T, max int, rich, blanks bool, names ...string) (out []SArg) {
	n := intn(t, 0, max)
	seen := map[string]bool{}
	for _, k := range names {
		seen[k] = true
	}
	for i := 0; i < n; i++ {
		a := SArg{K: Str(pick(t, "tag", "branch", "rport", "lr", "transport", "q", "expires", "received", "x", "user", genFrom(t, tokenChars, 1, 6)))}
		if seen[string(a.K)] {
			continue
		}
		seen[string(a.K)] = true
		switch pick(t, 0, 1, 1, 2) {
		case 0:
			a.M = pick(t, 0, 0, 1)
		case 1:
			a.V = Str(genFrom(t, tokenChars+"[]:/", 1, 8))
			if chance(t, 10) {
				a.V += "=" + "z"
			}
		case 2:
			a.M = pick(t, 2, 2, 3)
			if rich {
				a.V = Str(genPrintable(t, 10))
			} else {
				a.V = Str(genFrom(t, tokenChars, 0, 6))
			}
		}
		if blanks {
			a.Pre, a.Eq, a.End = genBlank(t), genBlank(t), genBlank(t)
		}
		out = append(out, a)
	}
	return out
}

// genPrintable draws printable text: ASCII, quotes, backslashes, separators and other encodings.
func genPrintable(t *rapid.T, max int) string {
	n := intn(t, 0, max)
	var out []byte
	for i := 0; i < n; i++ {
		switch pick(t, 0, 0, 0, 1, 2, 3) {
		case 0:
			out = append(out, byte(intn(t, 0x20, 0x7e)))
		case 1:
			out = append(out, []byte(pick(t, `"`, `\`, ",", ";", "=", " ", "<", ">", "@", ":", `\"`, `",`, "'"))...)
		case 2:
			out = append(out, []byte(pick(t, "é", "中", "\u00a0", "\u2028", "\u3000", "😀", "ſ"))...)
		default:
			out = append(out, byte(intn(t, 0x80, 0xff)))
		}
	}
	return string(out)
}

func genHost(t *rapid.T) string {
	switch pick(t, 0, 1, 2) {
	case 0:
		return fmt.Sprintf("%d.%d.%d.%d", intn(t, 0, 255), intn(t, 0, 255), intn(t, 0, 255), intn(t, 0, 255))
	case 1:
		return pick(t, "[::1]", "[2001:db8::9:1]", "[::ffff:192.0.2.128]", "[fe80::1]", "[::]", "["+genFrom(t, "0123456789abcdefABCDEF:.", 2, 16)+"]")
	}
	h := genFrom(t, "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-", 1, 10)
	for i := intn(t, 0, 3); i > 0; i-- {
		h += "." + genFrom(t, "abcdefghijklmnopqrstuvwxyz0123456789-", 1, 8)
	}
	return h
}

func genPort(t *rapid.T) string {
	return pick(t, "", "", "5060", "1", "65535", genFrom(t, "0123456789", 1, 5))
}

const userChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'()&=+$%/"

// genURI draws a URI; with delims its user may have ';', ',', '?' and a password.
func genURI(t *rapid.T, delims bool) SURI {
	u := SURI{Scheme: pick(t, "sip", "sip", "sips", "tel")}
	if u.Scheme == "tel" {
		u.User = Str(pick(t, "", "+") + genFrom(t, "0123456789-.()", 1, pick(t, 14, 40)))
		return u
	}
	u.Host, u.Port = genHost(t), genPort(t)
	if chance(t, 75) {
		alphabet := userChars
		if delims {
			alphabet += ";?,"
		}
		u.User = Str(genFrom(t, alphabet, 1, 10))
		if chance(t, 20) {
			u.User += Str(":" + genFrom(t, userChars, 0, 5))
		}
		if chance(t, 5) {
			u.User = Str(pick(t, "sip", "tel", "sips", "sip:x", "tel:5", "1"))
		}
	}
	return u
}

// genAddr draws an address line; rich lines have everything a line may have, others only what
// survives writing.
func genAddr(t *rapid.T, rich bool) SAddr {
	a := SAddr{Form: intn(t, 0, 3)}
	a.SURI = genURI(t, a.Form > 0)
	if a.Form > 0 && chance(t, 40) {
		a.SURI.Args = genArgs(t, 2, false, false)
	}
	var names []string
	for _, x := range a.SURI.Args {
		names = append(names, string(x.K))
	}
	a.Out = genArgs(t, 3, rich && boolean(t), rich, names...)
	switch a.Form {
	case 2:
		ws := []string{genFrom(t, tokenChars, 1, 8)}
		for i := intn(t, 0, 2); i > 0; i-- {
			ws = append(ws, genFrom(t, tokenChars, 1, 6))
		}
		a.Name = Str(strings.Join(ws, pick(t, " ", " ", "  ")))
		if chance(t, 20) {
			a.Name = "Anonymous"
		}
		a.Gap = pick(t, " ", "", "\t", "  ")
	case 3:
		a.Name = Str(genPrintable(t, 12))
		if chance(t, 20) {
			a.Name = Str(pick(t, "Anonymous", "", " ", " x", "a;b", "<sip:a@b>", "x@y", `\`, `"`, "sip:q@z"))
		}
		if chance(t, 25) { // words that mean something to the library, and delimiters
			n := ""
			for i := intn(t, 1, 4); i > 0; i-- {
				n += pick(t, "Anonymous", "anonymous", "Bob", "sip:", "sips:", "tel:", ";", "<", ">", "@", " ", "\"", `\`, ",", "=", ":", "[", "]", "é", "\t", "x")
			}
			a.Name = Str(n)
		}
		a.Gap = pick(t, " ", "", "\t", "  ")
	}
	if rich {
		a.Lead, a.Semi, a.Trail = genBlank(t), genBlank(t), genBlank(t)
	}
	return a
}

func genVia(t *rapid.T, rich bool) SVia {
	v := SVia{Trans: pick(t, "UDP", "TCP", "TLS", "SCTP"), Host: genHost(t), Port: genPort(t), Gap: " "}
	v.Args = genArgs(t, 3, rich && boolean(t), rich)
	if rich {
		v.Gap, v.Semi = pick(t, " ", " ", "\t", "  "), genBlank(t)
	}
	return v
}

func genCseq(t *rapid.T, rich bool) SCseq {
	c := SCseq{ID: genFrom(t, "0123456789", 1, 10), M: pick(t, "INVITE", "ACK", "MESSAGE", genFrom(t, tokenChars, 1, 8)), Gap: " "}
	if rich {
		c.Gap = pick(t, " ", "\t", "  ", " \t ")
	}
	return c
}

// ---------------------------------------------------------------- strict readers

// uriParts are the parts of a URI read strictly.
type uriParts struct {
	scheme, user, host, port string
	args                     map[string]string
}

func (u uriParts) parts(name string) string {
	return partsOf(name, u.scheme, u.user, u.host, u.port, u.args)
}

// strictURI splits a URI by the grammar of RFC 3261 (without "?headers").
func strictURI(s string) (u uriParts, err error) {
	i := strings.Index(s, ":")
	if i < 0 {
		return u, fmt.Errorf("no scheme in %q", s)
	}
	u.scheme, u.args = s[:i], map[string]string{}
	rest := s[i+1:]
	if u.scheme == "tel" {
		p := strings.SplitN(rest, ";", 2)
		u.user = p[0]
		if len(p) > 1 {
			u.args = strictArgs(p[1])
		}
		return u, nil
	}
	if i := strings.LastIndex(rest, "@"); i >= 0 {
		u.user, rest = rest[:i], rest[i+1:]
		if u.user == "" {
			return u, fmt.Errorf("empty user in %q", s)
		}
	}
	if i := strings.Index(rest, ";"); i >= 0 {
		u.args = strictArgs(rest[i+1:])
		rest = rest[:i]
	}
	u.host = rest
	if strings.HasPrefix(rest, "[") {
		j := strings.Index(rest, "]")
		if j < 0 {
			return u, fmt.Errorf("open bracket in %q", s)
		}
		u.host, u.port = rest[:j+1], rest[j+1:]
	} else if j := strings.Index(rest, ":"); j >= 0 {
		u.host, u.port = rest[:j], rest[j:]
	}
	if u.port != "" {
		if u.port[0] != ':' || len(u.port) == 1 {
			return u, fmt.Errorf("bad port in %q", s)
		}
		u.port = u.port[1:]
	}
	return u, nil
}

func strictArgs(s string) map[string]string {
	m := map[string]string{}
	for _, p := range strings.Split(s, ";") {
		kv := strings.SplitN(p, "=", 2)
		if len(kv) == 2 {
			m[kv[0]] = kv[1]
		} else {
			m[p] = ""
		}
	}
	return m
}

// strictVia splits a written Via: SIP/2.0/TRANSPORT host[:port][;args].
func strictVia(s string) (string, error) {
	f := strings.SplitN(s, " ", 2)
	if len(f) != 2 || !strings.HasPrefix(f[0], "SIP/2.0/") {
		return "", fmt.Errorf("no protocol and host in %q", s)
	}
	h := strings.SplitN(f[1], ";", 2)
	u, err := strictURI("sip:" + h[0])
	if err != nil || u.user != "" {
		return "", fmt.Errorf("host and port of %q: %v", s, err)
	}
	if len(h) == 2 {
		u.args = strictArgs(h[1])
	}
	return viaParts(&sips.SIPVia{Trans: f[0][8:], Host: u.host, Port: u.port, Args: u.args}), nil
}

// strictList splits key=value arguments; quoted: all values are quoted strings, else none.
func strictList(s, sep string, quoted bool) (map[string]string, error) {
	m := map[string]string{}
	for s != "" {
		i := strings.Index(s, "=")
		if i < 1 {
			return nil, fmt.Errorf("no key in %q", s)
		}
		k, v, rest := s[:i], "", s[i+1:]
		if _, ok := m[k]; ok {
			return nil, fmt.Errorf("%q twice", k)
		}
		if quoted {
			j := 1
			var b []byte
			for ; j < len(rest) && rest[j] != '"'; j++ {
				if rest[j] == '\\' {
					if j++; j == len(rest) {
						break
					}
				}
				b = append(b, rest[j])
			}
			v = string(b)
			if j >= len(rest) || rest[0] != '"' {
				return nil, fmt.Errorf("no quoted value in %q", rest)
			}
			rest = rest[j+1:]
		} else {
			j := strings.Index(rest, sep)
			if j < 0 {
				j = len(rest)
			}
			v, rest = rest[:j], rest[j:]
		}
		m[k] = v
		if rest != "" {
			if !strings.HasPrefix(rest, sep) {
				return nil, fmt.Errorf("no %q before %q", sep, rest)
			}
			if rest = rest[len(sep):]; rest == "" && sep != "\r\n" {
				return nil, fmt.Errorf("separator at the end")
			}
		}
		s = rest
	}
	return m, nil
}

// strictAddr splits a written address: [name] <URI> [;args].
func strictAddr(s string) (string, error) {
	name := ""
	rest := s
	if strings.HasPrefix(s, `"`) {
		i := 1
		var b []byte
		for ; ; i++ {
			if i >= len(s) {
				return "", fmt.Errorf("open quote in %q", s)
			}
			if s[i] == '"' {
				break
			}
			if s[i] == '\\' {
				i++
				if i >= len(s) || s[i] >= 0x80 {
					return "", fmt.Errorf("bad escape in %q", s)
				}
			}
			b = append(b, s[i])
		}
		name = string(b)
		rest = strings.TrimLeft(s[i+1:], " \t")
	} else if i := strings.Index(s, "<"); i >= 0 {
		name, rest = strings.TrimRight(s[:i], " \t"), s[i:]
		if strings.Trim(name, tokenChars+" ") != "" {
			return "", fmt.Errorf("the display name of %q needs quotes", s)
		}
	}
	if !strings.HasPrefix(rest, "<") {
		return "", fmt.Errorf("no <URI> in %q", s)
	}
	i := strings.Index(rest, ">")
	if i < 0 {
		return "", fmt.Errorf("no '>' in %q", s)
	}
	u, err := strictURI(rest[1:i])
	if err != nil {
		return "", err
	}
	if args := rest[i+1:]; args != "" {
		if args[0] != ';' {
			return "", fmt.Errorf("%q behind the address in %q", args, s)
		}
		for k, v := range strictArgs(args[1:]) {
			u.args[k] = v
		}
	}
	return u.parts(name), nil
}

// wireHeader is one header of a message on the wire, with its lines.
type wireHeader struct {
	name string
	vals []string // one per line
}

type wireMsg struct {
	start string
	hdrs  []wireHeader // in order
	blank bool         // the header section is ended by a blank line
	body  string
}

// readWire splits a serialised message strictly: every line ended by CRLF.
func readWire(b string) (m wireMsg, err error) {
	line := func() (string, bool) {
		i := strings.Index(b, "\r\n")
		if i < 0 {
			return "", false
		}
		l := b[:i]
		b = b[i+2:]
		return l, true
	}
	var ok bool
	if m.start, ok = line(); !ok {
		return m, fmt.Errorf("no start line ended by CRLF")
	}
	for {
		if b == "" {
			return m, nil
		}
		l, ok := line()
		if !ok {
			return m, fmt.Errorf("header line not ended by CRLF: %q", clip(b, 200))
		}
		if strings.ContainsAny(l, "\r\n") {
			return m, fmt.Errorf("line break inside the line %q", clip(l, 200))
		}
		if l == "" {
			m.blank, m.body = true, b
			return m, nil
		}
		if l[0] == ' ' || l[0] == '\t' {
			if len(m.hdrs) == 0 {
				return m, fmt.Errorf("continuation line %q behind the start line", clip(l, 200))
			}
			h := &m.hdrs[len(m.hdrs)-1]
			h.vals = append(h.vals, strings.Trim(l, " \t"))
			continue
		}
		i := strings.Index(l, ":")
		if i < 0 {
			return m, fmt.Errorf("header line without colon: %q", clip(l, 200))
		}
		m.hdrs = append(m.hdrs, wireHeader{strings.TrimRight(l[:i], " \t"), []string{strings.Trim(l[i+1:], " \t")}})
	}
}

// merged gives the values a header has on the wire, per lower case name: one per header line,
// continuation lines joined by a blank; folded reports names with continuation lines.
func merged(hs []wireHeader) (vals map[string][]string, folded map[string]bool) {
	vals, folded = map[string][]string{}, map[string]bool{}
	for _, h := range hs {
		k := strings.ToLower(h.name)
		vals[k] = append(vals[k], joinFolds(h.vals))
		if len(h.vals) > 1 {
			folded[k] = true
		}
	}
	return vals, folded
}

// joinFolds is the value of a folded header.
func joinFolds(lines []string) string {
	var out []string
	for _, l := range lines {
		if l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, " ")
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clipStrs(a []string) string {
	s := fmt.Sprintf("%q", a)
	return clip(s, 300)
}

// trimmed removes what the ends of a header value lose on the wire.
func trimmed(s string) string {
	s = strings.NewReplacer("\r", "", "\n", "").Replace(s)
	for {
		x := strings.Trim(strings.TrimSpace(s), " \t")
		if x == s {
			return s
		}
		s = x
	}
}

// genValue draws a header value.
func genValue(t *rapid.T) Str {
	switch pick(t, 0, 0, 1, 2, 3) {
	case 0:
		return Str(trimmed(genFrom(t, tokenChars+" \t;,:=<>@/\"", 0, 20)))
	case 1:
		return Str(trimmed(string(genBytes(t, 20))))
	case 2:
		return Str(trimmed(genPrintable(t, 20)))
	}
	return Str(pick(t, "", "x", "a: b", ":", "SIP/2.0 200 OK", "0", "70", "é", "\"", "\\", "a\tb", "v: 1"))
}

var customNames = []string{"x-a", "user-agent", "max-forwards", "route", "record-route", "authorization", "www-authenticate", "cseq", "expires", "allow", "reason-phrase", "n", "g", "x-very-long-header-name.with!odd%chars*_+`'~"}
