package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"sync"

	"github.com/moggle-mog/goav/packet"
	"pgregory.net/rapid"
)

// Hex is a byte string written in hexadecimal in case files.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// Str is a string of arbitrary bytes, written Go-quoted in case files.
type Str string

func (s Str) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(s))) }
func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	v, err := strconv.Unquote(q)
	*s = Str(v)
	return err
}

// Blob is a byte string given by a literal head and a patterned tail, so that big ones stay small
// in case files and shrink by their numbers.
type Blob struct {
	Head Hex `json:"h,omitempty"`
	N    int `json:"n,omitempty"` // tail length
	Pat  int `json:"p,omitempty"` // tail pattern
}

func (b Blob) Bytes() []byte {
	out := make([]byte, len(b.Head)+b.N)
	copy(out, b.Head)
	tail := out[len(b.Head):]
	switch b.Pat % 5 {
	case 0:
		for i := range tail {
			tail[i] = byte(i)
		}
	case 1:
		for i := range tail {
			tail[i] = 0xff
		}
	case 2: // zeros
	case 3:
		for i := range tail {
			tail[i] = 0x47
		}
	default:
		x := uint32(b.Pat)*2654435761 + 1
		for i := range tail {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			tail[i] = byte(x >> 11)
		}
	}
	return out
}

func (b Blob) Len() int { return len(b.Head) + b.N }

func genBlob(t *rapid.T, maxLen int) Blob {
	b := Blob{Head: genBytes(t, min(maxLen, 8))}
	if intn(t, 0, 2) > 0 {
		b.N = intn(t, 0, maxLen-len(b.Head))
		b.Pat = intn(t, 0, 9)
	}
	return b
}

// blobOfLen makes a blob of an exact length.
func blobOfLen(t *rapid.T, n int) Blob {
	b := Blob{Head: genBytes(t, min(n, 6)), Pat: intn(t, 0, 9)}
	b.N = n - len(b.Head)
	return b
}

func intn(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "i") }

// spread draws from the range without preferring small values as much as intn does.
func spread(t *rapid.T, lo, hi int) int {
	x := rapid.Uint64().Draw(t, "u") * 0x9E3779B97F4A7C15
	return lo + int((x>>20)%uint64(hi-lo+1))
}
func boolean(t *rapid.T) bool { return rapid.Bool().Draw(t, "b") }
func genByte(t *rapid.T) byte { return rapid.Byte().Draw(t, "byte") }
func genBytes(t *rapid.T, maxLen int) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, maxLen).Draw(t, "bytes")
}
func pick[T any](t *rapid.T, xs ...T) T { return xs[rapid.IntRange(0, len(xs)-1).Draw(t, "pick")] }

// chance is true in about p of 100 cases and shrinks to false.
func chance(t *rapid.T, p int) bool { return rapid.IntRange(0, 99).Draw(t, "chance") >= 100-p }

// allocated measures the bytes f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// chunkReader hands out data in the given chunk sizes (0: a read of no bytes), then in full; with
// eofWithData the end is reported together with the last bytes.
type chunkReader struct {
	data        []byte
	sizes       []int
	i           int
	eofWithData bool
	end         error // what the end is reported as, io.EOF if nil
}

var errReader = errors.New("reader failed")

func (c *chunkReader) Read(p []byte) (int, error) {
	end := c.end
	if end == nil {
		end = io.EOF
	}
	if len(c.data) == 0 {
		return 0, end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(c.sizes) > 0 {
		s := c.sizes[c.i%len(c.sizes)]
		c.i++
		if s < n {
			n = s
		}
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if c.eofWithData && len(c.data) == 0 && n > 0 {
		return n, end
	}
	return n, nil
}

var errWriter = errors.New("writer failed")

// failWriter accepts limit bytes, then fails. In partial mode the failing write stores the bytes
// that fit, otherwise none of its bytes.
type failWriter struct {
	limit   int
	partial bool
	sticky  bool // keep failing after the first failure
	failed  bool
	got     []byte
	fails   int
}

func (f *failWriter) Write(p []byte) (int, error) {
	if f.failed && f.sticky {
		f.fails++
		return 0, errWriter
	}
	if len(f.got)+len(p) <= f.limit {
		f.got = append(f.got, p...)
		return len(p), nil
	}
	if f.failed && !f.sticky {
		f.got = append(f.got, p...)
		return len(p), nil
	}
	f.failed = true
	f.fails++
	n := 0
	if f.partial {
		n = f.limit - len(f.got)
		f.got = append(f.got, p[:n]...)
	}
	return n, errWriter
}

// countFailWriter fails its k-th write (from 0) and, unless once is set, all later ones.
type countFailWriter struct {
	k     int
	once  bool // later writes succeed
	calls int
	got   []byte
}

func (f *countFailWriter) Write(p []byte) (int, error) {
	f.calls++
	if f.calls-1 == f.k || f.calls-1 > f.k && !f.once {
		return 0, errWriter
	}
	f.got = append(f.got, p...)
	return len(p), nil
}

// arena holds the memory that is lent to the library. A caller that reads every input into the
// same buffer, and uses the same packet again, hands out the same addresses with other contents.
var arena struct {
	sync.Mutex
	free [][]byte
	used map[*byte][]byte
	pkts []*packet.Packet
}

// take is a copy of b in lent memory.
func take(b []byte) []byte {
	if len(b) == 0 {
		return append(make([]byte, 0), b...)
	}
	arena.Lock()
	defer arena.Unlock()
	var full []byte
	for i := len(arena.free) - 1; i >= 0 && full == nil; i-- {
		if cap(arena.free[i]) >= len(b) {
			full = arena.free[i]
			arena.free = append(arena.free[:i], arena.free[i+1:]...)
		}
	}
	if full == nil {
		full = make([]byte, max(4096, 2*len(b)))
	}
	if arena.used == nil || len(arena.used) > 1000 { // some are never given back
		arena.used = map[*byte][]byte{}
	}
	q := full[:len(b):len(b)]
	copy(q, b)
	arena.used[&q[0]] = full
	return q
}

// back overwrites lent memory and takes it back.
func back(q []byte) {
	scrub(q)
	if len(q) == 0 {
		return
	}
	arena.Lock()
	defer arena.Unlock()
	if full, ok := arena.used[&q[0]]; ok {
		delete(arena.used, &q[0])
		if len(arena.free) < 64 && len(full) < 1<<22 {
			arena.free = append(arena.free, full)
		}
	}
}

// takePacket is a packet that has been used before.
func takePacket(typ int, body []byte) *packet.Packet {
	arena.Lock()
	p := &packet.Packet{}
	if n := len(arena.pkts); n > 0 {
		p = arena.pkts[n-1]
		arena.pkts = arena.pkts[:n-1]
	}
	arena.Unlock()
	if body == nil {
		*p = packet.Packet{Type: typ}
	} else {
		*p = packet.Packet{Type: typ, Data: take(body)}
	}
	return p
}

// backPacket takes a packet and its body back.
func backPacket(p *packet.Packet) {
	back(p.Data)
	*p = packet.Packet{Type: 77, TimeStamp: 0x5b5b5b5b, Media: []byte{0x5b}}
	arena.Lock()
	if len(arena.pkts) < 64 {
		arena.pkts = append(arena.pkts, p)
	}
	arena.Unlock()
}

// lent calls f with a copy of b that is overwritten when f returns, as a caller does that reads
// its next input into the same buffer.
func lent(b []byte, f func([]byte) error) error {
	if b == nil {
		return f(nil)
	}
	q := take(b)
	defer back(q)
	return f(q)
}

func scrub(b []byte) {
	for i := range b {
		b[i] = b[i]*31 + 0x5b
	}
}

// kept holds results that the library has handed over.
type kept struct{ got, want [][]byte }

func (k *kept) add(b []byte) {
	k.got = append(k.got, b)
	k.want = append(k.want, append([]byte(nil), b...))
}

// same tells whether the results are as they were.
func (k *kept) same() error {
	for i, b := range k.got {
		if d := diffBytes(k.want[i], b); d != "" {
			return fmt.Errorf("result %d was changed later: %s", i, d)
		}
	}
	return nil
}

// scrub overwrites the results after a last look at them.
func (k *kept) scrub() error {
	if err := k.same(); err != nil {
		return err
	}
	for _, b := range k.got {
		scrub(b)
	}
	k.got, k.want = nil, nil
	return nil
}

func bytesReader(b []byte) *bytes.Reader { return bytes.NewReader(b) }

func diffBytes(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	return fmt.Sprintf("want %d bytes, got %d; first difference at %d: want %x got %x", len(want), len(got), i, clipBytes(want, i), clipBytes(got, i))
}

func clipBytes(b []byte, at int) []byte {
	if at > len(b) {
		at = len(b)
	}
	e := at + 12
	if e > len(b) {
		e = len(b)
	}
	return b[at:e]
}

// safe runs f and returns a panic as an error.
func safe(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v\n%s", e, shortStack())
		}
	}()
	f()
	return nil
}

// times is s n times over, and s itself for n < 2.
func times[T any](s []T, n int) []T {
	if n < 2 {
		return s
	}
	out := make([]T, 0, n*len(s))
	for ; n > 0; n-- {
		out = append(out, s...)
	}
	return out
}

// genTimes draws how often a history of that many bytes runs, mostly once.
func genTimes(t *rapid.T, bytes int) int {
	if chance(t, 3) {
		return min(pick(t, 2, 3, 17, 20, 100, 260), 1+1<<20/(1+bytes))
	}
	return 0
}
