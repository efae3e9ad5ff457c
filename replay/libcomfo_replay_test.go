package libcomfo_test

// Replays for failed obligations of libcomfo: drives the exported API of the current source with a
// simulated unit and compares with an independent reading of the protocol. Only run when a proof failed.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/ti-mo/comfo/libcomfo"
)

var rng *rand.Rand

func init() {
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	rng = rand.New(rand.NewSource(int64(seed)))
}

func reproduced(t *testing.T, prop, format string, a ...interface{}) {
	t.Helper()
	fmt.Printf("REPRODUCED property=%s %s\n", prop, fmt.Sprintf(format, a...))
	t.FailNow()
}

// ---- the protocol, read independently

var (
	ackSeq   = []byte{0x07, 0xF3}
	startSeq = []byte{0x07, 0xF0}
	endSeq   = []byte{0x07, 0x0F}
)

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func escOf(d []byte) []byte { return bytes.ReplaceAll(d, []byte{7}, []byte{7, 7}) }

func sumOf(c byte, d []byte) byte {
	n := int(c) + len(d) + 173
	for _, b := range d {
		n += int(b)
	}
	return byte(n % 256)
}

func frameOf(c byte, d []byte) []byte {
	return cat([]byte{0, c, byte(len(d))}, escOf(d), []byte{sumOf(c, d)})
}

func bodyOf(b []byte) []byte {
	r := []byte{}
	for i := 0; i < len(b); i++ {
		if b[i] != 7 {
			r = append(r, b[i])
		} else if i+1 < len(b) && b[i+1] == 7 {
			r = append(r, 7)
			i++
		}
	}
	return r
}

func validFrame(f []byte) (byte, []byte, bool) {
	if len(f) < 4 {
		return 0, nil, false
	}
	b := bodyOf(f[3 : len(f)-1])
	return f[1], b, int(f[2]) == len(b) && f[len(f)-1] == sumOf(f[1], b)
}

// replies lists every packet the stream could be accepted as.
func accepts(s []byte, cmd byte, data []byte) bool {
	p := cat(ackSeq, startSeq)
	if !bytes.HasPrefix(s, p) {
		return false
	}
	s = s[len(p):]
	for i := 0; i+2 <= len(s); i++ {
		if s[i] == 7 && s[i+1] == 0x0F {
			c, b, ok := validFrame(s[:i])
			if ok && c == cmd && bytes.Equal(b, data) {
				return true
			}
		}
	}
	return false
}

func replyOf(c byte, d []byte) []byte { return cat(ackSeq, startSeq, frameOf(c, d), endSeq) }
func reqOf(c byte, d []byte) []byte   { return cat(startSeq, frameOf(c, d), endSeq) }

// ---- a scripted connection

type conn struct {
	mu     sync.Mutex
	rx     []byte
	chunk  int           // most bytes per read; 0: random
	end    error         // after the bytes: this error, or block
	block  chan struct{} // blocks at the end
	tx     []byte
	wfail  int // number of the write that fails (1..)
	wpart  int
	wn     int
	atRead []byte // what was written at the first read
	read   bool
	r      *rand.Rand
}

func (c *conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	if !c.read {
		c.read, c.atRead = true, append([]byte{}, c.tx...)
	}
	if len(c.rx) == 0 {
		e := c.end
		c.mu.Unlock()
		if e != nil {
			return 0, e
		}
		<-c.block
		return 0, io.EOF
	}
	n := c.chunk
	if n == 0 {
		n = 1 + c.r.Intn(6)
	}
	if n > len(c.rx) {
		n = len(c.rx)
	}
	n = copy(p, c.rx[:n])
	c.rx = c.rx[n:]
	c.mu.Unlock()
	return n, nil
}

// the errors a connection may report: any of them is a failure of the exchange
type netErr struct{ timeout, temporary bool }

func (e netErr) Error() string   { return "network trouble" }
func (e netErr) Timeout() bool   { return e.timeout }
func (e netErr) Temporary() bool { return e.temporary }

var failures = []error{errors.New("failed"), io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe,
	netErr{true, true}, netErr{false, true}, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, errors.New("timeout")}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wn++
	if c.wn == c.wfail {
		n := c.wpart
		if n > len(p) {
			n = len(p)
		}
		c.tx = append(c.tx, p[:n]...)
		return n, failures[c.r.Intn(len(failures))]
	}
	c.tx = append(c.tx, p...)
	return len(p), nil
}

func newConn(rx []byte) *conn {
	return &conn{rx: append([]byte{}, rx...), end: io.EOF, chunk: []int{0, 0, 1, 2, 4096}[rng.Intn(5)], r: rand.New(rand.NewSource(rng.Int63())), block: make(chan struct{})}
}

func timer() *time.Timer { return time.NewTimer(8 * time.Second) }

// ---- inputs

var alphabet = []byte{0x07, 0x07, 0x07, 0x0F, 0xF0, 0xF3, 0x00, 0x01, 0xFF, 173, 4}

func payload(max int) []byte {
	n := rng.Intn(max + 1)
	switch rng.Intn(6) {
	case 0:
		n = rng.Intn(5)
	case 1:
		n = max - rng.Intn(3)
		if n < 0 {
			n = 0
		}
	}
	d := make([]byte, n)
	k, same := rng.Intn(4), alphabet[rng.Intn(len(alphabet))]
	for i := range d {
		switch k {
		case 3:
			d[i] = same
		case 0:
			d[i] = byte(rng.Intn(256))
		case 1:
			d[i] = alphabet[rng.Intn(len(alphabet))]
		default:
			d[i] = 7
			if rng.Intn(4) == 0 {
				d[i] = alphabet[rng.Intn(len(alphabet))]
			}
		}
	}
	return d
}

func mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + rng.Intn(2); k > 0; k-- {
		i := 0
		if len(b) > 0 {
			i = rng.Intn(len(b))
			if rng.Intn(2) == 0 {
				// near the sequences
				i = []int{0, 1, 2, 3, 4, 5, 6, len(b) - 1, len(b) - 2, len(b) - 3}[rng.Intn(10)]
				if i < 0 || i >= len(b) {
					i = 0
				}
			}
		}
		switch rng.Intn(7) {
		case 0:
			if len(b) > 0 {
				b[i] = alphabet[rng.Intn(len(alphabet))]
			}
		case 1:
			if len(b) > 0 {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			b = cat(b[:i:i], []byte{alphabet[rng.Intn(len(alphabet))]}, b[i:])
		case 3:
			b = b[:i]
		case 4:
			b = cat(b[:i:i], [][]byte{ackSeq, startSeq, endSeq, {7}, {7, 7}}[rng.Intn(5)], b[i:])
		case 5:
			if len(b) > 0 {
				b[i] += byte(1 + rng.Intn(2)*254)
			}
		case 6:
			if len(b) > 1 && i+1 < len(b) {
				b = append(b[:i:i], b[i+2:]...)
			}
		}
	}
	return b
}

// special streams that once went wrong or easily go wrong
func streams() [][]byte {
	f := frameOf(0x0C, []byte{1, 2, 3, 4, 5, 6})
	g := frameOf(0x0C, []byte{7, 0x0F, 3, 4, 5, 7})
	return [][]byte{
		{}, {7}, ackSeq, startSeq, endSeq, cat(ackSeq, startSeq), cat(ackSeq, startSeq, endSeq), cat(ackSeq, endSeq),
		cat(startSeq, startSeq, f, endSeq), cat(ackSeq, ackSeq, f, endSeq), cat(ackSeq, startSeq, f, ackSeq), cat(ackSeq, startSeq, f, startSeq),
		cat(ackSeq, startSeq, f), cat(ackSeq, startSeq, f, []byte{7}), cat([]byte{0}, ackSeq, startSeq, f, endSeq), cat(ackSeq, []byte{0}, startSeq, f, endSeq),
		cat(ackSeq, startSeq, []byte{0}, endSeq), cat(ackSeq, startSeq, []byte{0, 1, 0}, endSeq), cat(ackSeq, startSeq, g, endSeq), cat(ackSeq, startSeq, f, []byte{9}, endSeq),
		cat(endSeq, startSeq, f, endSeq), cat(ackSeq, endSeq, f, endSeq), cat(ackSeq, startSeq, f, f, endSeq),
		cat(ackSeq, startSeq, []byte{0, 1, 255}, endSeq), cat(ackSeq, startSeq, []byte{0, 1, 1, 7, 7}, endSeq),
	}
}

var budget = 40 * time.Second

func loop(f func(i int)) {
	t0 := time.Now()
	for i := 0; i < 3000000 && time.Since(t0) < budget; i++ {
		f(i)
	}
}

func pkt(p libcomfo.Packet) string { return fmt.Sprintf("%02x/% x", p.Command, p.Data) }

func empty(p libcomfo.Packet) bool { return p.Command == 0 && len(p.Data) == 0 && !p.Expect }

// ---- C01, C02, C03

func TestC01(t *testing.T) {
	// frames stay valid while other packets are encoded and decoded
	type held struct {
		frame, data []byte
		cmd         byte
	}
	var hs []held
	loop(func(i int) {
		p := libcomfo.Packet{Command: byte(rng.Intn(256)), Data: payload(255)}
		if i < 256 {
			p.Data = bytes.Repeat([]byte{7}, i)
		}
		d := append([]byte{}, p.Data...)
		b, err := libcomfo.MarshalPacket(p)
		if err != nil {
			reproduced(t, "C01", "MarshalPacket(%02x/% x): %v", p.Command, d, err)
		}
		q, err := libcomfo.UnmarshalPacket(b)
		if err != nil || q.Command != p.Command || !bytes.Equal(q.Data, d) {
			reproduced(t, "C01", "%02x/% x encodes to % x, which decodes to %s, %v", p.Command, d, b, pkt(q), err)
		}
		if hs = append(hs, held{b, d, p.Command}); len(hs) > 5 {
			h := hs[0]
			hs = hs[1:]
			q, err := libcomfo.UnmarshalPacket(h.frame)
			if err != nil || q.Command != h.cmd || !bytes.Equal(q.Data, h.data) {
				reproduced(t, "C01", "%02x/% x was encoded; after other packets were, the frame is % x, which decodes to %s, %v", h.cmd, h.data, h.frame, pkt(q), err)
			}
		}
	})
}

func TestC02(t *testing.T) {
	loop(func(i int) {
		p := libcomfo.Packet{Command: byte(rng.Intn(256)), Data: payload(255), Expect: rng.Intn(2) == 0}
		switch {
		case i < 300:
			p.Data = bytes.Repeat([]byte{byte(i)}, i)
		case i < 600:
			p.Data = bytes.Repeat([]byte{7}, i-300)
		case i < 610:
			p.Data = make([]byte, []int{254, 255, 256, 257, 511, 512, 513, 65536, 70000, 1 << 17}[i-600])
		case i%50 == 0:
			p.Data = payload(600)
		}
		// room behind the payload shows writes beyond its end
		room := make([]byte, len(p.Data)+8)
		copy(room, p.Data)
		for k := len(p.Data); k < len(room); k++ {
			room[k] = 0xA5
		}
		before := append([]byte{}, room...)
		if p.Data != nil {
			p.Data = room[:len(p.Data)]
		}
		d := append([]byte{}, p.Data...)
		b, err := libcomfo.MarshalPacket(p)
		if !bytes.Equal(before, room) {
			reproduced(t, "C02", "MarshalPacket(%02x/% x) changed its input to % x", p.Command, d, room)
		}
		if len(d) > 255 {
			if err == nil || len(b) != 0 {
				reproduced(t, "C02", "MarshalPacket with %d bytes of payload: % x, %v", len(d), b, err)
			}
			return
		}
		if err != nil || !bytes.Equal(b, frameOf(p.Command, d)) {
			reproduced(t, "C02", "MarshalPacket(%02x/% x) = % x, %v", p.Command, d, b, err)
		}
	})
}

func TestC03(t *testing.T) {
	loop(func(i int) {
		var f []byte
		switch rng.Intn(3) {
		case 0:
			f = frameOf(byte(rng.Intn(256)), payload(255))
		case 1:
			f = mutate(frameOf(byte(rng.Intn(256)), payload(20)))
		default:
			n := rng.Intn(9)
			for k := 0; k < n; k++ {
				f = append(f, alphabet[rng.Intn(len(alphabet))])
			}
			if n >= 4 {
				// often a valid one
				b := bodyOf(f[3 : n-1])
				if rng.Intn(3) > 0 {
					f[2] = byte(len(b))
				}
				if rng.Intn(3) > 0 {
					f[n-1] = sumOf(f[1], b)
				}
			}
		}
		room := make([]byte, len(f)+8)
		copy(room, f)
		in := room[:len(f)]
		before := append([]byte{}, room...)
		p, err := libcomfo.UnmarshalPacket(in)
		if !bytes.Equal(room, before) {
			reproduced(t, "C03", "UnmarshalPacket(% x) changed its input", f)
		}
		c, b, ok := validFrame(f)
		if ok != (err == nil) || err != nil && !empty(p) || err == nil && (p.Command != c || !bytes.Equal(p.Data, b)) {
			reproduced(t, "C03", "UnmarshalPacket(% x) = %s, %v; the frame is valid: %v (%02x/% x)", f, pkt(p), err, ok, c, b)
		}
	})
}

// ---- C04, C05

func TestC04(t *testing.T) {
	loop(func(i int) {
		cmd, d := byte(rng.Intn(256)), payload(255)
		if i%3 == 0 {
			d = payload(12)
		}
		if i < 256 {
			d = bytes.Repeat([]byte{7}, 255-i)
			if i%2 == 1 {
				cmd = 7
			}
		}
		var tail []byte
		switch rng.Intn(5) {
		case 0:
			tail = payload(20)
		case 1:
			tail = replyOf(0x0C, payload(4))
		case 2:
			tail = endSeq
		case 3:
			tail = bytes.Repeat([]byte{0x55}, rng.Intn(9000))
		}
		c := newConn(cat(replyOf(cmd, d), tail))
		c.end = failures[rng.Intn(len(failures))]
		p, err := libcomfo.ReadPacket(c, timer(), true)
		if err != nil || p.Command != cmd || !bytes.Equal(p.Data, d) {
			reproduced(t, "C04", "reply %02x/% x (read %d bytes at a time, followed by %d bytes) is received as %s, %v", cmd, d, c.chunk, len(tail), pkt(p), err)
		}
		c = newConn(cat(ackSeq, tail))
		p, err = libcomfo.ReadPacket(c, timer(), false)
		if err != nil || !empty(p) {
			reproduced(t, "C04", "an acknowledge followed by % x is received as %s, %v", tail, pkt(p), err)
		}
		if i%4 == 0 {
			exact(t, "C04")
		}
	})
}

func TestC05(t *testing.T) {
	ss := streams()
	loop(func(i int) {
		var s []byte
		if i < 4*len(ss) {
			s = ss[i%len(ss)]
		} else if i%2 == 0 {
			s = mutate(ss[rng.Intn(len(ss))])
		} else {
			s = mutate(replyOf(byte(rng.Intn(256)), payload(12)))
		}
		expect := rng.Intn(4) > 0
		c := newConn(s)
		c.end = failures[rng.Intn(len(failures))]
		p, err := libcomfo.ReadPacket(c, timer(), expect)
		switch {
		case err != nil && !empty(p):
			reproduced(t, "C05", "stream % x (%v): %s with the error %v", s, c.end, pkt(p), err)
		case err == nil && expect && !accepts(s, p.Command, p.Data):
			reproduced(t, "C05", "stream % x (%v) is accepted as %s", s, c.end, pkt(p))
		case err == nil && !expect && (!bytes.HasPrefix(s, ackSeq) || !empty(p)):
			reproduced(t, "C05", "stream % x (%v) is accepted as an acknowledge: %s", s, c.end, pkt(p))
		}
		if i%4 == 0 {
			getter(t, "C05")
		}
	})
}

// ---- C06

func exchange(t *testing.T, prop string) {
	in := libcomfo.Packet{Command: byte(rng.Intn(256)), Data: payload(255), Expect: rng.Intn(3) > 0}
	if rng.Intn(4) > 0 {
		in.Data = payload(8)
	}
	if rng.Intn(20) == 0 {
		in.Data = make([]byte, 256+rng.Intn(50))
	}
	rc := in.Command + 1
	if rng.Intn(5) == 0 {
		rc = byte(rng.Intn(256))
	}
	if rng.Intn(8) == 0 {
		rc = in.Command + byte(rng.Intn(3))
	}
	d := payload(14)
	s := replyOf(rc, d)
	if !in.Expect && rng.Intn(2) == 0 {
		s = ackSeq
	}
	switch rng.Intn(4) {
	case 0:
		s = mutate(s)
	case 1:
		if rng.Intn(4) == 0 {
			s = streams()[rng.Intn(len(streams()))]
		}
	}
	c := newConn(s)
	c.end = failures[rng.Intn(len(failures))]
	switch rng.Intn(6) {
	case 0:
		c.wfail, c.wpart = 1, rng.Intn(20)
	case 1:
		c.wfail, c.wpart = 2, rng.Intn(3)
	}
	var out libcomfo.Packet
	var err error
	if !within(6*time.Second, func() { out, err = libcomfo.QueryPacket(in, c) }) {
		reproduced(t, prop, "QueryPacket(%s) with stream % x does not return", pkt(in), s)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	what := fmt.Sprintf("QueryPacket(%s, expect %v) with stream % x (%v; write %d fails): wrote % x, returned %s, %v", pkt(in), in.Expect, s, c.end, c.wfail, c.tx, pkt(out), err)
	if len(in.Data) > 255 {
		if err == nil || len(c.tx) > 0 {
			reproduced(t, prop, "%s", what)
		}
		return
	}
	req := reqOf(in.Command, in.Data)
	full := cat(req, ackSeq)
	good := in.Expect && out.Command == in.Command+1 && accepts(s, in.Command+1, out.Data) || !in.Expect && bytes.HasPrefix(s, ackSeq)
	done := bytes.Equal(c.tx, full) && (c.wfail == 0 || c.wfail > c.wn)
	switch {
	case !bytes.HasPrefix(full, c.tx), // something else was written
		c.read && !bytes.Equal(c.atRead, req),              // the reply was read too early or too late
		len(c.tx) > len(req) && !good,                      // a bad reply was acknowledged
		err == nil && !(done && good), err != nil && done, // success or failure is misreported
		err == nil && in.Expect && out.Command != in.Command+1,
		c.wfail == 0 && err != nil && in.Expect && bytes.HasPrefix(s, replyOf(in.Command+1, d)),
		c.wfail == 0 && err != nil && !in.Expect && bytes.HasPrefix(s, ackSeq):
		reproduced(t, prop, "%s", what)
	}
}

func within(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

func TestC06(t *testing.T) {
	loop(func(i int) { exchange(t, "C06") })
}

// ---- a simulated unit

type unit struct {
	mu      sync.Mutex
	in      []byte
	out     []byte
	log     []byte // commands of the requests, in order
	acks    int
	profile [8]byte
	active  bool // between a request and its acknowledge
	overlap string
	cond    *sync.Cond
	fail    int // every nth request is not answered properly
	n       int
	slow    time.Duration
	reads   int
}

func newUnit() *unit {
	u := &unit{}
	u.cond = sync.NewCond(&u.mu)
	return u
}

func (u *unit) Write(p []byte) (int, error) {
	if u.slow > 0 {
		time.Sleep(u.slow)
	}
	u.mu.Lock()
	defer u.mu.Unlock()
	if bytes.Equal(p, ackSeq) {
		if !u.active {
			u.overlap = "an acknowledge outside an exchange"
		}
		u.active = false
		u.acks++
		if len(u.out) > 0 {
			u.overlap = "an acknowledge before the reply was read"
		}
		return len(p), nil
	}
	if !bytes.HasPrefix(p, startSeq) || !bytes.HasSuffix(p, endSeq) {
		u.overlap = fmt.Sprintf("unexpected bytes % x", p)
		return len(p), nil
	}
	c, d, ok := validFrame(p[2 : len(p)-2])
	if !ok {
		u.overlap = fmt.Sprintf("invalid request % x", p)
		return len(p), nil
	}
	if u.active {
		u.overlap = fmt.Sprintf("request %02x while another exchange is running", c)
	}
	u.n++
	u.log = append(u.log, c)
	u.active = true
	if u.fail > 0 && u.n%u.fail == 0 {
		u.active = false
		u.out = append(u.out, 0x55, 7, 0xF3)
		u.cond.Broadcast()
		return len(p), nil
	}
	switch c {
	case 0xCD:
		q := u.profile
		u.out = append(u.out, replyOf(0xCE, []byte{q[0], q[1], q[2], q[3], q[4], q[5], 0, 0, 2, 1, q[6], q[7], 0, 0})...)
	case 0xCF:
		copy(u.profile[:], d)
		u.out = append(u.out, ackSeq...)
	case 0x99, 0xD3:
		u.out = append(u.out, ackSeq...)
	case 0xD1:
		u.out = append(u.out, replyOf(0xD2, []byte{60, 60, 60, 60, 60, 1, 60, 60, 60})...)
	case 0x0B:
		u.out = append(u.out, replyOf(0x0C, []byte{50, 50, 2, 0, 2, 0})...)
	case 0xD9:
		u.out = append(u.out, replyOf(0xDA, make([]byte, 17))...)
	default:
		u.out = append(u.out, ackSeq...)
	}
	u.cond.Broadcast()
	return len(p), nil
}

func (u *unit) Read(p []byte) (int, error) {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.reads++
	for len(u.out) == 0 {
		u.cond.Wait()
	}
	n := 1
	if len(u.out) > 3 {
		n = 3
	}
	n = copy(p, u.out[:n])
	u.out = u.out[n:]
	if u.fail > 0 && len(u.out) == 0 {
		time.Sleep(time.Microsecond)
	}
	return n, nil
}

func TestC07(t *testing.T) {
	t0 := time.Now()
	for round := 0; time.Since(t0) < 25*time.Second; round++ {
		u := newUnit()
		u.slow = []time.Duration{0, 0, 50 * time.Microsecond, time.Millisecond}[round%4]
		var wg sync.WaitGroup
		run := func(n int, f func(i int)) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					f(i)
				}
			}()
		}
		run(10, func(int) { libcomfo.GetTemperatures(u) })
		run(10, func(int) { libcomfo.GetFans(u) })
		run(10, func(int) { libcomfo.GetErrors(u) })
		run(10, func(i int) { libcomfo.SetSpeed(uint8(i%5), u) })
		run(10, func(i int) { libcomfo.SetComfort(20, u) })
		run(5, func(i int) { libcomfo.SetFanProfile(uint8(i%4), 50, u) })
		run(5, func(i int) { libcomfo.SetFanProfiles(&libcomfo.FanProfiles{InAway: 3}, u) })
		run(10, func(i int) { libcomfo.GetFanProfiles(u) })
		if !within(20*time.Second, wg.Wait) {
			reproduced(t, "C07", "concurrent exchanges block each other")
		}
		if u.overlap != "" {
			reproduced(t, "C07", "concurrent exchanges overlap: %s", u.overlap)
		}
		if u.acks != u.n {
			reproduced(t, "C07", "concurrent exchanges: %d requests, %d acknowledges", u.n, u.acks)
		}
		// failed exchanges let the next one in
		for k := 0; k < 10; k++ {
			c := newConn(nil)
			c.rx = streams()[rng.Intn(len(streams()))]
			c.wfail = rng.Intn(3)
			q := libcomfo.Packet{Command: 1, Expect: rng.Intn(2) == 0}
			if rng.Intn(4) == 0 {
				q.Data = make([]byte, 256)
			}
			if !within(5*time.Second, func() { libcomfo.QueryPacket(q, c) }) {
				reproduced(t, "C07", "an exchange after a failed exchange does not return")
			}
		}
	}
}

// ---- C08

func TestC08(t *testing.T) {
	// silent from some point on
	d := []byte{1, 2, 3, 4, 5, 6}
	full := replyOf(0x0C, d)
	cuts := []int{0, 1, 2, 3, 4, 5, 8, len(full) - 3, len(full) - 2, len(full) - 1}
	for _, n := range cuts {
		c := newConn(full[:n])
		c.end = nil
		var err error
		t0 := time.Now()
		if !within(5*time.Second, func() { _, err = libcomfo.QueryPacket(libcomfo.Packet{Command: 0x0B, Expect: true}, c) }) {
			reproduced(t, "C08", "the unit falls silent after %d bytes of the reply: QueryPacket does not return", n)
		}
		el := time.Since(t0)
		if err == nil || !isTimeout(err) || el > 2500*time.Millisecond {
			reproduced(t, "C08", "the unit falls silent after %d bytes of the reply: QueryPacket returns %v after %v", n, err, el)
		}
		close(c.block)
	}
	for _, f := range []func(io.ReadWriter) error{
		func(c io.ReadWriter) error { _, e := libcomfo.GetTemperatures(c); return e },
		func(c io.ReadWriter) error { _, e := libcomfo.GetFans(c); return e },
		func(c io.ReadWriter) error { return libcomfo.SetSpeed(2, c) },
		func(c io.ReadWriter) error { return libcomfo.SetFanProfile(1, 2, c) },
	} {
		c := newConn(nil)
		c.end = nil
		var err error
		if !within(5*time.Second, func() { err = f(c) }) || !isTimeout(err) {
			reproduced(t, "C08", "a silent unit: error %v", err)
		}
		close(c.block)
	}
	// dribbling: every byte comes in time, but not the whole reply
	c := &dribble{b: cat(full[:4], bytes.Repeat([]byte{1}, 200)), d: 300 * time.Millisecond}
	t0 := time.Now()
	var err error
	if !within(12*time.Second, func() { _, err = libcomfo.QueryPacket(libcomfo.Packet{Command: 0x0B, Expect: true}, c) }) || time.Since(t0) > 3*time.Second || !isTimeout(err) {
		reproduced(t, "C08", "a unit that sends a byte every 300 ms: QueryPacket returns %v after %v", err, time.Since(t0))
	}
	c = &dribble{b: cat([]byte{7, 0xF3, 7, 0xF0}, frameOf(0x0C, []byte{1, 2, 3, 4, 5, 6}), endSeq), d: 400 * time.Millisecond}
	t0 = time.Now()
	if !within(12*time.Second, func() { _, err = libcomfo.QueryPacket(libcomfo.Packet{Command: 0x0B, Expect: true}, c) }) || time.Since(t0) > 3*time.Second || !isTimeout(err) {
		reproduced(t, "C08", "a unit that sends a byte every 400 ms: QueryPacket returns %v after %v", err, time.Since(t0))
	}
}

func isTimeout(err error) bool {
	if err == nil {
		return false
	}
	l := strings.ToLower(err.Error())
	return strings.Contains(l, "timed out") || strings.Contains(l, "timeout") || strings.Contains(l, "time out")
}

type dribble struct {
	b []byte
	d time.Duration
}

func (c *dribble) Read(p []byte) (int, error) {
	time.Sleep(c.d)
	if len(c.b) == 0 {
		select {}
	}
	p[0] = c.b[0]
	c.b = c.b[1:]
	return 1, nil
}
func (c *dribble) Write(p []byte) (int, error) { return len(p), nil }

// ---- C09, C10

func set(t *testing.T, prop, name string, valid bool, cmd byte, d []byte, f func(c io.ReadWriter) error) {
	s := cat(ackSeq, payload(3))
	good := true
	if rng.Intn(4) == 0 {
		s = mutate(s)
		good = bytes.HasPrefix(s, ackSeq)
	}
	c := newConn(s)
	if rng.Intn(6) == 0 {
		c.wfail, c.wpart = 1+rng.Intn(2), 0
	}
	err := f(c)
	c.mu.Lock()
	defer c.mu.Unlock()
	if !valid {
		if err == nil || len(c.tx) > 0 || c.read {
			reproduced(t, prop, "%s: wrote % x, error %v", name, c.tx, err)
		}
		return
	}
	want := cat(reqOf(cmd, d), ackSeq)
	ok := bytes.Equal(c.tx, want) && good
	if !bytes.HasPrefix(want, c.tx) || ok != (err == nil) && (c.wfail == 0 || err == nil) {
		reproduced(t, prop, "%s with stream % x: wrote % x, want % x, error %v", name, s, c.tx, want, err)
	}
}

func TestC09(t *testing.T) {
	loop(func(i int) {
		v := byte(i)
		set(t, "C09", fmt.Sprintf("SetSpeed(%d)", v), v <= 4, 0x99, []byte{v}, func(c io.ReadWriter) error { return libcomfo.SetSpeed(v, c) })
		set(t, "C09", fmt.Sprintf("SetComfort(%d)", v), v < 108, 0xD3, []byte{byte((int(v) + 20) * 2)}, func(c io.ReadWriter) error { return libcomfo.SetComfort(v, c) })
		p := randProfiles()
		q := p
		set(t, "C09", fmt.Sprintf("SetFanProfiles(%+v)", p), true, 0xCF, []byte{p.OutAway, p.OutLow, p.OutMid, p.InAway, p.InLow, p.InMid, p.OutHigh, p.InHigh},
			func(c io.ReadWriter) error { return libcomfo.SetFanProfiles(&p, c) })
		if p != q {
			reproduced(t, "C09", "SetFanProfiles(%+v) changed its argument to %+v", q, p)
		}
	})
}

func randProfiles() (p libcomfo.FanProfiles) {
	b := func() uint8 { return uint8(rng.Intn(256)) }
	return libcomfo.FanProfiles{OutAway: b(), OutLow: b(), OutMid: b(), OutHigh: b(), InFanActive: b() > 99, InAway: b(), InLow: b(), InMid: b(), InHigh: b(), CurrentOut: b(), CurrentIn: b(), CurrentMode: b()}
}

func TestC10(t *testing.T) {
	loop(func(i int) {
		mode, speed := byte(i%5), byte(rng.Intn(102))
		if i < 1024 {
			mode, speed = byte(i/4), byte(rng.Intn(256))
		}
		pl := make([]byte, 14)
		for k := range pl {
			pl[k] = byte(rng.Intn(256))
		}
		rc := byte(0xCE)
		if rng.Intn(6) == 0 {
			rc = byte(rng.Intn(256))
		}
		if rng.Intn(8) == 0 {
			pl = pl[:rng.Intn(14)]
		}
		s := replyOf(rc, pl)
		good := rc == 0xCE && len(pl) == 14
		if rng.Intn(6) == 0 {
			s = cat(s[:6], []byte{s[6] + 1}, s[7:])
			good = false
		}
		// the replies come one at a time
		c := &twoReplies{first: s, second: ackSeq}
		if rng.Intn(8) == 0 {
			c.second = endSeq
		}
		err := libcomfo.SetFanProfile(mode, speed, c)
		what := fmt.Sprintf("SetFanProfile(%d, %d) with profiles % x (reply %02x)", mode, speed, pl, rc)
		if mode > 3 || speed > 100 {
			if err == nil || len(c.tx) > 0 {
				reproduced(t, "C10", "%s: wrote % x, error %v", what, c.tx, err)
			}
			return
		}
		want := cat(reqOf(0xCD, nil), ackSeq)
		if good {
			n := []byte{pl[0], pl[1], pl[2], pl[3], pl[4], pl[5], pl[10], pl[11]}
			switch mode {
			case 0:
				n[0], n[3] = speed, speed
			case 1:
				n[1], n[4] = speed, speed
			case 2:
				n[2], n[5] = speed, speed
			case 3:
				n[6], n[7] = speed, speed
			}
			want = cat(want, reqOf(0xCF, n))
			if bytes.Equal(c.second, ackSeq) {
				want = cat(want, ackSeq)
				if err != nil {
					reproduced(t, "C10", "%s: error %v", what, err)
				}
			}
		}
		if !bytes.HasPrefix(want, c.tx) || good && !bytes.Equal(want, c.tx) || err == nil && !(good && bytes.Equal(c.second, ackSeq)) {
			reproduced(t, "C10", "%s: wrote % x, want % x, error %v", what, c.tx, want, err)
		}
	})
	// atomic
	for round := 0; round < 300; round++ {
		u := newUnit()
		u.slow = []time.Duration{0, 100 * time.Microsecond}[round%2]
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(2)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 3; i++ {
					libcomfo.SetFanProfile(uint8(g), uint8(10+g), u)
				}
			}(g)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 2; i++ {
					libcomfo.SetFanProfiles(&libcomfo.FanProfiles{InAway: uint8(100 + g)}, u)
				}
			}(g)
		}
		if !within(20*time.Second, wg.Wait) {
			reproduced(t, "C10", "concurrent profile changes block each other")
		}
		for i, c := range u.log {
			if c == 0xCD && (i+1 >= len(u.log) || u.log[i+1] != 0xCF) {
				reproduced(t, "C10", "profile changes overlap: requests % x", u.log)
			}
		}
	}
}

type twoReplies struct {
	first, second []byte
	cur           []byte
	tx            []byte
	n             int
}

func (c *twoReplies) Write(p []byte) (int, error) {
	c.tx = append(c.tx, p...)
	if bytes.HasPrefix(p, startSeq) {
		c.n++
		if c.n == 1 {
			c.cur = append([]byte{}, c.first...)
		} else {
			c.cur = append([]byte{}, c.second...)
		}
	}
	return len(p), nil
}

func (c *twoReplies) Read(p []byte) (int, error) {
	if len(c.cur) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.cur)
	c.cur = c.cur[n:]
	return n, nil
}

// ---- C11, C12, C13

type decoder struct {
	name string
	cmd  byte
	n    int
	zero interface{}
	get  func(io.ReadWriter) (interface{}, error)
	want func(p []byte) interface{}
}

func be(p []byte) (n uint32) {
	for _, b := range p {
		n = n<<8 | uint32(b)
	}
	return
}

func setF(p interface{}, name string, v float64) {
	reflect.ValueOf(p).Elem().FieldByName(name).SetFloat(v)
}

func wantTemps(p []byte) interface{} {
	var v libcomfo.Temps
	for i, n := range []string{"Comfort", "OutsideAir", "SupplyAir", "InsideAir", "ExhaustAir", "", "GeoHeat", "Reheating", "KitchenHood"} {
		if n != "" {
			setF(&v, n, float64(int(p[i])/2-20))
		}
	}
	return v
}

func wantBoot(p []byte) interface{} {
	return libcomfo.BootInfo{MajorVersion: p[0], MinorVersion: p[1], BetaVersion: p[2], DeviceName: strings.TrimSpace(string(p[3:]))}
}

func wantFans(p []byte) interface{} {
	a, b := be(p[2:4]), be(p[4:6])
	if a == 0 || b == 0 || 1875000/a > 65535 || 1875000/b > 65535 {
		return nil
	}
	return libcomfo.Fans{InPercent: p[0], OutPercent: p[1], InSpeed: uint16(1875000 / a), OutSpeed: uint16(1875000 / b)}
}

var decoders = []decoder{
	{"GetTemperatures", 0xD1, 9, libcomfo.Temps{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetTemperatures(c); return v, e }, wantTemps},
	{"GetBypass", 0xDF, 7, libcomfo.Bypass{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetBypass(c); return v, e },
		func(p []byte) interface{} {
			return libcomfo.Bypass{Factor: p[2], Level: p[3], Correction: p[4], SummerMode: p[6] == 1}
		}},
	{"GetFans", 0x0B, 6, libcomfo.Fans{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetFans(c); return v, e }, wantFans},
	{"GetHours", 0xDD, 20, libcomfo.Hours{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetHours(c); return v, e },
		func(p []byte) interface{} {
			return libcomfo.Hours{FanAway: be(p[0:3]), FanLow: be(p[3:6]), FanMid: be(p[6:9]), FrostProtect: uint16(be(p[9:11])), Reheating: uint16(be(p[11:13])),
				BypassOpen: uint16(be(p[13:15])), Filter: uint16(be(p[15:17])), FanHigh: be(p[17:20])}
		}},
	{"GetBootloader", 0x67, 13, libcomfo.BootInfo{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetBootloader(c); return v, e }, wantBoot},
	{"GetFirmware", 0x69, 13, libcomfo.BootInfo{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetFirmware(c); return v, e }, wantBoot},
	{"GetFanProfiles", 0xCD, 14, libcomfo.FanProfiles{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetFanProfiles(c); return v, e },
		func(p []byte) interface{} {
			return libcomfo.FanProfiles{OutAway: p[0], OutLow: p[1], OutMid: p[2], InAway: p[3], InLow: p[4], InMid: p[5], CurrentOut: p[6], CurrentIn: p[7], CurrentMode: p[8],
				InFanActive: p[9] == 1, OutHigh: p[10], InHigh: p[11]}
		}},
	{"GetErrors", 0xD9, 17, libcomfo.Errors{}, func(c io.ReadWriter) (interface{}, error) { v, e := libcomfo.GetErrors(c); return v, e },
		func(p []byte) interface{} { return libcomfo.Errors{Filter: p[8] == 1} }},
}

func randPayload(n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = []byte{byte(rng.Intn(256)), byte(rng.Intn(256)), 0, 1, 7, 0x0F, 0xFF, ' ', 28, 29}[rng.Intn(10)]
	}
	return p
}

func getter(t *testing.T, prop string) {
	d := decoders[rng.Intn(len(decoders))]
	n := d.n
	if rng.Intn(5) == 0 {
		n = rng.Intn(24)
	}
	p := randPayload(n)
	rc := d.cmd + 1
	if rng.Intn(8) == 0 {
		rc = byte(rng.Intn(256))
	}
	s := replyOf(rc, p)
	if rng.Intn(5) == 0 {
		s = mutate(s)
	}
	c := newConn(s)
	if rng.Intn(10) == 0 {
		c.wfail = 1 + rng.Intn(2)
	}
	var v interface{}
	var err error
	if !within(5*time.Second, func() { v, err = d.get(c) }) {
		reproduced(t, prop, "%s with stream % x does not return", d.name, s)
	}
	what := fmt.Sprintf("%s with stream % x (write %d fails): wrote % x, returned %+v, %v", d.name, s, c.wfail, c.tx, v, err)
	want := cat(reqOf(d.cmd, nil), ackSeq)
	if !bytes.HasPrefix(want, c.tx) || err != nil && !reflect.DeepEqual(v, d.zero) {
		reproduced(t, prop, "%s", what)
	}
	good := rc == d.cmd+1 && n == d.n && bytes.HasPrefix(s, replyOf(rc, p))
	var w interface{}
	if good {
		w = d.want(p)
	}
	if err == nil {
		if !bytes.Equal(want, c.tx) {
			reproduced(t, prop, "%s", what)
		}
		if !good {
			// a changed stream may still hold a valid reply
			ok := false
			tail := s
			if bytes.HasPrefix(s, cat(ackSeq, startSeq)) {
				tail = s[4:]
				for i := range tail {
					if bytes.HasPrefix(tail[i:], endSeq) {
						if cc, b, k := validFrame(tail[:i]); k && cc == d.cmd+1 && len(b) == d.n && reflect.DeepEqual(d.want(b), v) {
							ok = true
						}
					}
				}
			}
			if !ok {
				reproduced(t, prop, "%s", what)
			}
			return
		}
		if w == nil || !reflect.DeepEqual(w, v) {
			reproduced(t, prop, "%s; want %+v", what, w)
		}
	} else if good && w != nil && c.wfail == 0 {
		reproduced(t, prop, "%s; want %+v", what, w)
	}
}

// exact: a well-formed reply is returned.
func exact(t *testing.T, prop string) {
	d := decoders[rng.Intn(len(decoders))]
	p := randPayload(d.n)
	w := d.want(p)
	if w == nil {
		return
	}
	c := newConn(cat(replyOf(d.cmd+1, p), payload(4)))
	v, err := d.get(c)
	if err != nil || !reflect.DeepEqual(v, w) {
		reproduced(t, prop, "%s with payload % x: %+v, %v; want %+v", d.name, p, v, err, w)
	}
}

func TestC11(t *testing.T) {
	// a response stays what it was while others are decoded
	held := map[byte]libcomfo.Response{}
	text := map[byte]string{}
	loop(func(i int) {
		getter(t, "C11")
		exact(t, "C11")
		d := decoders[i%len(decoders)]
		p := randPayload(d.n)
		if d.want(p) == nil {
			return
		}
		r, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: d.cmd + 1, Data: p})
		if err != nil || !reflect.DeepEqual(reflect.ValueOf(r).Elem().Interface(), d.want(p)) {
			reproduced(t, "C11", "the response %02x/% x is decoded as %+v, %v", d.cmd+1, p, r, err)
		}
		if h := held[d.cmd]; h != nil && fmt.Sprintf("%+v", h) != text[d.cmd] {
			reproduced(t, "C11", "the response %s decoded earlier became %+v", text[d.cmd], h)
		}
		held[d.cmd], text[d.cmd] = r, fmt.Sprintf("%+v", r)
	})
}

func TestC12(t *testing.T) {
	mk := map[string]func() libcomfo.Response{
		"GetTemperatures": func() libcomfo.Response { return &libcomfo.Temps{} }, "GetBypass": func() libcomfo.Response { return &libcomfo.Bypass{} },
		"GetFans": func() libcomfo.Response { return &libcomfo.Fans{} }, "GetHours": func() libcomfo.Response { return &libcomfo.Hours{} },
		"GetBootloader": func() libcomfo.Response { return &libcomfo.BootInfo{} }, "GetFirmware": func() libcomfo.Response { return &libcomfo.BootInfo{} },
		"GetFanProfiles": func() libcomfo.Response { return &libcomfo.FanProfiles{} }, "GetErrors": func() libcomfo.Response { return &libcomfo.Errors{} },
	}
	loop(func(i int) {
		d := decoders[i%len(decoders)]
		n := d.n
		if rng.Intn(3) == 0 {
			n = rng.Intn(300)
		}
		if i < 8*300 {
			n = i / 8
		}
		p := randPayload(n)
		if rng.Intn(3) == 0 {
			for k := range p {
				p[k] = byte(rng.Intn(256))
			}
		}
		r := mk[d.name]()
		scramble(reflect.ValueOf(r).Elem())
		old := reflect.ValueOf(r).Elem().Interface()
		err := r.UnmarshalBinary(append([]byte{}, p...))
		got := reflect.ValueOf(r).Elem().Interface()
		var w interface{}
		if n == d.n {
			w = d.want(p)
		}
		switch {
		case w == nil && (err == nil || !reflect.DeepEqual(old, got)):
			reproduced(t, "C12", "decoding % x into %+v (%T): %+v, %v", p, old, old, got, err)
		case w != nil && (err != nil || !reflect.DeepEqual(w, got)):
			reproduced(t, "C12", "decoding % x (%T): %+v, %v; want %+v", p, old, got, err, w)
		}
	})
}

func scramble(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Bool:
			f.SetBool(rng.Intn(2) == 0)
		case reflect.String:
			f.SetString("x")
		case reflect.Float32:
			f.SetFloat(float64(rng.Intn(50)) + 0.5)
		default:
			f.SetUint(uint64(rng.Intn(256)))
		}
	}
}

func TestC13(t *testing.T) {
	for b := 0; b < 256; b++ {
		var v libcomfo.Temps
		p := make([]byte, 9)
		for k := range p {
			p[k] = byte(b)
		}
		if err := v.UnmarshalBinary(p); err != nil || !reflect.DeepEqual(wantTemps(p), v) {
			reproduced(t, "C13", "the byte %d decodes to %+v, %v", b, v, err)
		}
		v.Comfort.UnmarshalBinary(byte(b))
		if float32(v.Comfort) != float32(b/2-20) {
			reproduced(t, "C13", "the byte %d decodes to %v", b, v.Comfort)
		}
	}
	check := func(x float32) {
		var v libcomfo.Temps
		reflect.ValueOf(&v.Comfort).Elem().SetFloat(float64(x))
		b, err := v.Comfort.MarshalBinary()
		ok := x >= -20 && x < 108
		if ok != (err == nil) || err != nil && b != 0 || ok && b != byte(math.Trunc(float64((x+20)*2))) {
			reproduced(t, "C13", "the temperature %v encodes to %d, %v", x, b, err)
		}
	}
	for i := -3000; i <= 3000; i++ {
		check(float32(i) / 8)
		check(float32(i))
	}
	for _, e := range []float32{-20, 108, 107, 107.5, 0, -20.5, -21, 0.5, -0.5, 107.99} {
		check(math.Nextafter32(e, -1000))
		check(e)
		check(math.Nextafter32(e, 1000))
	}
	for _, e := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e30, -1e30, 1e-30, -1e-30, math.Copysign(0, -1)} {
		check(float32(e))
	}
	loop(func(i int) { check(math.Float32frombits(rng.Uint32())) })
	for v := 0; v < 256; v++ {
		set(t, "C13", fmt.Sprintf("SetComfort(%d)", v), v < 108, 0xD3, []byte{byte((v + 20) * 2)}, func(c io.ReadWriter) error { return libcomfo.SetComfort(byte(v), c) })
	}
}

// ---- C14

func TestC14(t *testing.T) {
	ss := streams()
	loop(func(i int) {
		var s []byte
		switch rng.Intn(5) {
		case 0:
			s = mutate(replyOf(byte(rng.Intn(256)), payload(255)))
		case 1:
			d := decoders[rng.Intn(len(decoders))]
			s = replyOf(d.cmd+1, payload(24))
		case 2:
			s = ss[rng.Intn(len(ss))]
		case 3:
			n := rng.Intn(5)
			f := make([]byte, n)
			for k := range f {
				f[k] = alphabet[rng.Intn(len(alphabet))]
			}
			s = cat(ackSeq, startSeq, f, endSeq)
		default:
			s = payload(40)
		}
		if rng.Intn(50) == 0 {
			s = cat(s, make([]byte, 70000), endSeq)
		}
		// everything the API offers, for this stream
		calls := []func(c *conn){
			func(c *conn) { libcomfo.ReadPacket(c, timer(), true) }, func(c *conn) { libcomfo.ReadPacket(c, timer(), false) },
			func(c *conn) {
				libcomfo.QueryPacket(libcomfo.Packet{Command: byte(rng.Intn(256)), Data: payload(300), Expect: true}, c)
			},
			func(c *conn) { libcomfo.SetSpeed(byte(rng.Intn(256)), c) }, func(c *conn) { libcomfo.SetComfort(byte(rng.Intn(256)), c) },
			func(c *conn) { libcomfo.SetFanProfile(byte(rng.Intn(5)), byte(rng.Intn(120)), c) },
			func(c *conn) { p := randProfiles(); libcomfo.SetFanProfiles(&p, c) },
			func(c *conn) { libcomfo.UnmarshalPacket(s) },
			func(c *conn) { libcomfo.UnmarshalPacket(mutate(frameOf(1, payload(9)))) },
			func(c *conn) { libcomfo.DecodeResponse(libcomfo.Packet{Command: byte(rng.Intn(256)), Data: payload(24)}) },
			func(c *conn) {
				d := decoders[rng.Intn(len(decoders))]
				libcomfo.DecodeResponse(libcomfo.Packet{Command: d.cmd + 1, Data: randPayload(d.n)})
			},
			func(c *conn) {
				// a decodable reply to another query
				d, e := decoders[rng.Intn(len(decoders))], decoders[rng.Intn(len(decoders))]
				c.rx = replyOf(e.cmd+1, randPayload(e.n))
				d.get(c)
			},
		}
		for _, d := range decoders {
			d := d
			calls = append(calls, func(c *conn) { d.get(c) })
		}
		k := rng.Intn(len(calls))
		c := newConn(s)
		c.end = failures[rng.Intn(len(failures))]
		c.wfail = []int{0, 0, 1, 2}[rng.Intn(4)]
		lastInput = fmt.Sprintf("call %d with stream % x", k, short(s))
		done := make(chan interface{}, 1)
		go func() {
			defer func() { done <- recover() }()
			calls[k](c)
		}()
		select {
		case r := <-done:
			if r != nil {
				reproduced(t, "C14", "%s: panic: %v", lastInput, r)
			}
		case <-time.After(6 * time.Second):
			reproduced(t, "C14", "%s: does not return", lastInput)
		}
	})
}

func short(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

var lastInput string
