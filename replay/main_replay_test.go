package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/twitchtv/twirp"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// The program parses its command line while it is initialised; the flags of a test binary are none of its own.
var savedArgs = func() []string { a := os.Args; os.Args = a[:1]; return a }()

func TestMain(m *testing.M) {
	os.Args = savedArgs
	os.Exit(m.Run())
}

var rng = rand.New(rand.NewSource(1))

func reproduced(t *testing.T, prop, format string, a ...interface{}) {
	t.Helper()
	fmt.Printf("REPRODUCED property=%s %s\n", prop, fmt.Sprintf(format, a...))
	t.FailNow()
}

// ---- connecting

func accepted(l net.Listener, d time.Duration) net.Conn {
	l.(*net.TCPListener).SetDeadline(time.Now().Add(d))
	c, err := l.Accept()
	if err != nil {
		return nil
	}
	return c
}

func openPty() (*os.File, string, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		return nil, "", err
	}
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		return nil, "", e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, "", e
	}
	return m, "/dev/pts/" + strconv.Itoa(int(n)), nil
}

func TestC24(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	addr := l.Addr().String()
	for i := 0; i < 3; i++ {
		c, err := ConnectUnit("tcp", addr)
		if err != nil || c == nil {
			reproduced(t, "C24", "ConnectUnit(tcp, a listening address) gives %v, %v", c, err)
		}
		p := accepted(l, 2*time.Second)
		if p == nil {
			reproduced(t, "C24", "ConnectUnit(tcp, address) does not dial the address")
		}
		msg := []byte{7, 0xF0, byte(i)}
		got := make([]byte, 3)
		c.Write(msg)
		p.SetReadDeadline(time.Now().Add(2 * time.Second))
		if _, err := io.ReadFull(p, got); err != nil || !bytes.Equal(got, msg) {
			reproduced(t, "C24", "what is written to the connection does not arrive: % x, %v", got, err)
		}
		if p2 := accepted(l, 50*time.Millisecond); p2 != nil {
			reproduced(t, "C24", "ConnectUnit(tcp, address) dials twice")
		}
		c.Close()
		p.Close()
	}
	d, _ := net.Listen("tcp", "127.0.0.1:0")
	closed := d.Addr().String()
	d.Close()
	for _, target := range []string{closed, "", "nonsense", "127.0.0.1", "127.0.0.1:99999", "/dev/null"} {
		if c, err := ConnectUnit("tcp", target); err == nil || c != nil {
			reproduced(t, "C24", "ConnectUnit(tcp, %q) gives %v, %v", target, c, err)
		}
	}
	for _, target := range []string{"", "/nonexistent/tty", "/dev/nonexistent", addr} {
		if c, err := ConnectUnit("serial", target); err == nil || c != nil {
			reproduced(t, "C24", "ConnectUnit(serial, %q) gives %v, %v", target, c, err)
		}
	}
	for _, mode := range []string{"", "TCP", "Tcp", "tcp ", " tcp", "tcp4", "udp", "Serial", "serial ", "serial\x00", "tty", "unix", "file"} {
		c, err := ConnectUnit(mode, addr)
		if err == nil || c != nil {
			reproduced(t, "C24", "ConnectUnit(%q, address) gives %v, %v", mode, c, err)
		}
		if p := accepted(l, 20*time.Millisecond); p != nil {
			reproduced(t, "C24", "ConnectUnit(%q, address) dials", mode)
		}
	}
	m, name, err := openPty()
	if err != nil {
		return
	}
	defer m.Close()
	c, err := ConnectUnit("serial", name)
	if err != nil || c == nil {
		reproduced(t, "C24", "ConnectUnit(serial, a terminal) gives %v, %v", c, err)
	}
	out, _ := exec.Command("stty", "-F", name, "speed").Output()
	if s := strings.TrimSpace(string(out)); s != "" && s != "9600" {
		reproduced(t, "C24", "ConnectUnit(serial, a terminal) sets speed %s", s)
	}
	done := make(chan []byte, 1)
	go func() { b := make([]byte, 2); io.ReadFull(m, b); done <- b }()
	c.Write([]byte{0x41, 0x42})
	select {
	case b := <-done:
		if !bytes.Equal(b, []byte{0x41, 0x42}) {
			reproduced(t, "C24", "what is written to the serial device arrives as % x", b)
		}
	case <-time.After(3 * time.Second):
		reproduced(t, "C24", "what is written to the serial device does not arrive")
	}
}

// ---- wrappers and router

type seen struct {
	w http.ResponseWriter
	r *http.Request
	h http.Header
	c http.Request
}

type recorder struct {
	calls []seen
	code  int
	body  string
}

func (x *recorder) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	x.calls = append(x.calls, seen{w, r, w.Header().Clone(), *r})
	w.WriteHeader(x.code)
	io.WriteString(w, x.body)
}

func TestC25(t *testing.T) {
	methods := []string{"GET", "POST", "HEAD", "OPTIONS", "DELETE", "X"}
	for i := 0; i < 400; i++ {
		inner := &recorder{code: []int{200, 404, 500, 201}[rng.Intn(4)], body: strings.Repeat("x", rng.Intn(50))}
		name := []string{"", "twirp", "a route"}[rng.Intn(3)]
		var h http.Handler
		which := rng.Intn(3)
		switch which {
		case 0:
			h = Logger(inner, name)
		case 1:
			h = Headers(inner)
		case 2:
			h = Headers(Logger(inner, name))
		}
		for k := 1; k <= 2; k++ {
			r := httptest.NewRequest(methods[rng.Intn(len(methods))], []string{"/", "/twirp/x?y=z", "/a/b/"}[rng.Intn(3)], strings.NewReader("body"))
			r.Header.Set("X-Test", strconv.Itoa(i))
			if rng.Intn(3) == 0 {
				r.Header.Set("Content-Type", "text/plain")
			}
			before := *r.Clone(context.Background())
			body := r.Body
			w := httptest.NewRecorder()
			h.ServeHTTP(w, r)
			if len(inner.calls) != k {
				reproduced(t, "C25", "after %d requests the wrapped handler was called %d times", k, len(inner.calls))
			}
			s := inner.calls[k-1]
			if s.w != http.ResponseWriter(w) || s.r != r {
				reproduced(t, "C25", "the wrapped handler gets another writer or request (%T, %p for %p)", s.w, s.r, r)
			}
			if s.c.Method != before.Method || s.c.RequestURI != before.RequestURI || s.c.URL.String() != before.URL.String() || s.c.Host != before.Host || s.c.Body != body || !reflect.DeepEqual(s.c.Header, before.Header) {
				reproduced(t, "C25", "the request was changed: %s %s %v", s.c.Method, s.c.URL, s.c.Header)
			}
			want := http.Header{}
			if which > 0 {
				want.Set("Content-Type", "application/json; charset=UTF-8")
			}
			if !reflect.DeepEqual(s.h, want) {
				reproduced(t, "C25", "the wrapped handler finds response headers %v", s.h)
			}
			if w.Code != inner.code || w.Body.String() != inner.body {
				reproduced(t, "C25", "the response was changed: %d %q", w.Code, w.Body.String())
			}
		}
	}
	srv := httptest.NewServer(NewRouter())
	defer srv.Close()
	cases := []struct{ method, path, body string }{
		{"POST", "/twirp/comfo.api.Comfo/SetFanSpeed", "{}"}, {"POST", "/twirp/comfo.api.Comfo/SetFanProfile", "{}"}, {"GET", "/twirp/comfo.api.Comfo/SetFanSpeed", ""},
		{"POST", "/twirp/comfo.api.Comfo/Nonsense", "{}"}, {"PUT", "/twirp/comfo.api.Comfo/GetTemps", "{}"}, {"POST", "/other", "{}"}, {"GET", "/", ""},
	}
	want := []string{"invalid_argument", "invalid_argument", "bad_route", "bad_route", "bad_route", "", ""}
	for i, c := range cases {
		r, _ := http.NewRequest(c.method, srv.URL+c.path, strings.NewReader(c.body))
		r.Header.Set("Content-Type", "application/json")
		resp, err := http.DefaultClient.Do(r)
		if err != nil {
			t.Fatal(err)
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if want[i] == "" && strings.Contains(string(b), `"code"`) || want[i] != "" && !strings.Contains(string(b), `"code":"`+want[i]+`"`) {
			reproduced(t, "C25", "%s %s answers %d %s", c.method, c.path, resp.StatusCode, b)
		}
	}
}

// ---- RPC

type call struct {
	name string
	req  proto.Message
}

type fake struct {
	calls []call
	ret   proto.Message
	err   error
}

func (f *fake) do(name string, req proto.Message) { f.calls = append(f.calls, call{name, proto.Clone(req)}) }

func (f *fake) GetBootInfo(_ context.Context, r *rpc.Noop) (*rpc.BootInfo, error) {
	f.do("GetBootInfo", r)
	m, _ := f.ret.(*rpc.BootInfo)
	return m, f.err
}
func (f *fake) GetTemps(_ context.Context, r *rpc.Noop) (*rpc.Temps, error) {
	f.do("GetTemps", r)
	m, _ := f.ret.(*rpc.Temps)
	return m, f.err
}
func (f *fake) GetBypass(_ context.Context, r *rpc.Noop) (*rpc.Bypass, error) {
	f.do("GetBypass", r)
	m, _ := f.ret.(*rpc.Bypass)
	return m, f.err
}
func (f *fake) GetFans(_ context.Context, r *rpc.Noop) (*rpc.Fans, error) {
	f.do("GetFans", r)
	m, _ := f.ret.(*rpc.Fans)
	return m, f.err
}
func (f *fake) GetFanProfiles(_ context.Context, r *rpc.Noop) (*rpc.FanProfiles, error) {
	f.do("GetFanProfiles", r)
	m, _ := f.ret.(*rpc.FanProfiles)
	return m, f.err
}
func (f *fake) GetErrors(_ context.Context, r *rpc.Noop) (*rpc.Errors, error) {
	f.do("GetErrors", r)
	m, _ := f.ret.(*rpc.Errors)
	return m, f.err
}
func (f *fake) SetFanSpeed(_ context.Context, r *rpc.FanSpeedTarget) (*rpc.FanSpeedModified, error) {
	f.do("SetFanSpeed", r)
	m, _ := f.ret.(*rpc.FanSpeedModified)
	return m, f.err
}
func (f *fake) SetComfortTemp(_ context.Context, r *rpc.ComfortTarget) (*rpc.ComfortModified, error) {
	f.do("SetComfortTemp", r)
	m, _ := f.ret.(*rpc.ComfortModified)
	return m, f.err
}
func (f *fake) SetFanProfile(_ context.Context, r *rpc.FanProfileTarget) (*rpc.FanProfileModified, error) {
	f.do("SetFanProfile", r)
	m, _ := f.ret.(*rpc.FanProfileModified)
	return m, f.err
}
func (f *fake) FlushCache(_ context.Context, r *rpc.FlushCacheRequest) (*rpc.FlushCacheResponse, error) {
	f.do("FlushCache", r)
	m, _ := f.ret.(*rpc.FlushCacheResponse)
	return m, f.err
}

// random fills a message with random field values.
func random(m proto.Message) proto.Message {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		if !v.Type().Field(i).IsExported() {
			continue
		}
		switch f := v.Field(i); f.Kind() {
		case reflect.Uint32, reflect.Uint64:
			f.SetUint([]uint64{0, 1, 2, 3, 100, 255, 256, 1 << 31, 1<<32 - 1, uint64(rng.Uint32())}[rng.Intn(10)])
		case reflect.Int32:
			f.SetInt(int64(rng.Intn(6)))
		case reflect.Bool:
			f.SetBool(rng.Intn(2) == 0)
		case reflect.Float32:
			f.SetFloat(float64(rng.Intn(400))/2 - 20)
		case reflect.String:
			f.SetString([]string{"", "ComfoAir", "a \"quoted\" name", "ä"}[rng.Intn(4)])
		}
	}
	return m
}

func TestC26(t *testing.T) {
	f := &fake{}
	srv := rpc.NewComfoServer(f, nil)
	if p := srv.PathPrefix(); p != rpc.ComfoPathPrefix || p != "/twirp/comfo.api.Comfo/" {
		reproduced(t, "C26", "the path prefix is %q", p)
	}
	type method struct {
		name      string
		req, resp proto.Message
	}
	methods := []method{{"GetBootInfo", &rpc.Noop{}, &rpc.BootInfo{}}, {"GetTemps", &rpc.Noop{}, &rpc.Temps{}}, {"GetBypass", &rpc.Noop{}, &rpc.Bypass{}},
		{"GetFans", &rpc.Noop{}, &rpc.Fans{}}, {"GetFanProfiles", &rpc.Noop{}, &rpc.FanProfiles{}}, {"GetErrors", &rpc.Noop{}, &rpc.Errors{}},
		{"SetFanSpeed", &rpc.FanSpeedTarget{}, &rpc.FanSpeedModified{}}, {"SetComfortTemp", &rpc.ComfortTarget{}, &rpc.ComfortModified{}},
		{"SetFanProfile", &rpc.FanProfileTarget{}, &rpc.FanProfileModified{}}, {"FlushCache", &rpc.FlushCacheRequest{}, &rpc.FlushCacheResponse{}}}
	post := func(verb, path, ct string, body []byte) *httptest.ResponseRecorder {
		r := httptest.NewRequest(verb, path, bytes.NewReader(body))
		r.Header.Set("Content-Type", ct)
		w := httptest.NewRecorder()
		f.calls = nil
		srv.ServeHTTP(w, r)
		return w
	}
	for i := 0; i < 4000; i++ {
		m := methods[rng.Intn(len(methods))]
		req := random(proto.Clone(m.req))
		f.ret, f.err = random(proto.Clone(m.resp)), nil
		code := twirp.ErrorCode("")
		switch rng.Intn(8) {
		case 0:
			code = twirp.OutOfRange
			f.err = twirp.NewError(code, "out of range")
			if rng.Intn(2) == 0 {
				f.ret = nil
			}
		case 1:
			code = twirp.Internal
			f.err = fmt.Errorf("plain")
		}
		path := "/twirp/comfo.api.Comfo/" + m.name
		json := rng.Intn(2) == 0
		var body []byte
		ct := "application/protobuf"
		if json {
			ct = []string{"application/json", "application/json; charset=utf-8", "Application/JSON"}[rng.Intn(3)]
			body, _ = protojson.Marshal(req)
		} else {
			body, _ = proto.Marshal(req)
		}
		what := fmt.Sprintf("POST %s (%s) % x", path, ct, body)
		if rng.Intn(10) == 0 { // not well-formed
			body = append([]byte{0xFF}, body...)
			if w := post("POST", path, ct, body); len(f.calls) > 0 || w.Code == 200 {
				reproduced(t, "C26", "a broken request to %s calls %v and answers %d", m.name, f.calls, w.Code)
			}
			continue
		}
		w := post("POST", path, ct, body)
		if len(f.calls) != 1 || f.calls[0].name != m.name || !proto.Equal(f.calls[0].req, req) {
			reproduced(t, "C26", "%s calls %v", what, f.calls)
		}
		if code != "" {
			if w.Code == 200 || !strings.Contains(w.Body.String(), `"code":"`+string(code)+`"`) {
				reproduced(t, "C26", "%s: the service fails (%s), the answer is %d %s", what, code, w.Code, w.Body)
			}
			continue
		}
		got := proto.Clone(m.resp)
		proto.Reset(got)
		var err error
		if json {
			err = protojson.Unmarshal(w.Body.Bytes(), got)
		} else {
			err = proto.Unmarshal(w.Body.Bytes(), got)
		}
		if err != nil || w.Code != 200 || !proto.Equal(got, f.ret) {
			reproduced(t, "C26", "%s: the service returns %v, the answer is %d %q", what, f.ret, w.Code, w.Body)
		}
	}
	for _, p := range []string{"/twirp/comfo.api.Comfo/", "/twirp/comfo.api.Comfo", "/twirp/comfo.api.Comfo/getTemps", "/twirp/comfo.api.Comfo/GetTemp", "/twirp/comfo.api.Comfo/GetTempsX",
		"/twirp/comfo.api.Comfo/GetTemps/", "/twirp/comfo.api.Other/GetTemps", "/comfo.api.Comfo/GetTemps", "/other/comfo.api.Comfo/GetTemps", "/x/twirp/comfo.api.Comfo/GetTemps", "/GetTemps", "/", "/twirp/GetTemps"} {
		for _, ct := range []string{"application/json", "application/protobuf"} {
			body := []byte("{}")
			if ct == "application/protobuf" {
				body = nil
			}
			if w := post("POST", p, ct, body); len(f.calls) > 0 || w.Code == 200 {
				reproduced(t, "C26", "POST %s calls %v and answers %d", p, f.calls, w.Code)
			}
		}
	}
	for _, m := range methods {
		for _, verb := range []string{"GET", "PUT", "post", "OPTIONS"} {
			if w := post(verb, "/twirp/comfo.api.Comfo/"+m.name, "application/json", []byte("{}")); len(f.calls) > 0 || w.Code == 200 {
				reproduced(t, "C26", "%s %s calls %v and answers %d", verb, m.name, f.calls, w.Code)
			}
		}
		for _, ct := range []string{"", "text/plain", "application/jsonx", "application"} {
			if w := post("POST", "/twirp/comfo.api.Comfo/"+m.name, ct, []byte("{}")); len(f.calls) > 0 || w.Code == 200 {
				reproduced(t, "C26", "%s of type %q calls %v and answers %d", m.name, ct, f.calls, w.Code)
			}
		}
	}
}

// ---- the program

// free is an address nothing listens on.
func free() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "127.0.0.1:34567"
	}
	defer l.Close()
	return l.Addr().String()
}

func TestC30(t *testing.T) {
	bin := t.TempDir() + "/comfo"
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Skipf("%v: %s", err, out)
	}
	// run starts the program and waits at most d for its end
	type result struct {
		ended bool
		code  int
	}
	run := func(env []string, d time.Duration, during func(), args ...string) result {
		cmd := exec.Command(bin, args...)
		cmd.Env = append([]string{"PATH=" + os.Getenv("PATH")}, env...)
		if err := cmd.Start(); err != nil {
			t.Skip(err)
		}
		done := make(chan int, 1)
		go func() { cmd.Wait(); done <- cmd.ProcessState.ExitCode() }()
		if during != nil {
			during()
		}
		select {
		case c := <-done:
			return result{true, c}
		case <-time.After(d):
			cmd.Process.Kill()
			<-done
			return result{}
		}
	}
	served := func(addr string, d time.Duration) bool {
		for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
			r, err := http.Post("http://"+addr+"/twirp/comfo.api.Comfo/GetFans", "application/json", strings.NewReader("{}"))
			if err == nil {
				r.Body.Close()
				return r.StatusCode == 200
			}
		}
		return false
	}
	// a unit that answers everything with an acknowledgement and a reply of the next command
	unit := func() (string, chan bool, func()) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Skip(err)
		}
		got := make(chan bool, 10)
		stop := make(chan bool)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				got <- true
				go func() { <-stop; c.Close() }()
				go func() {
					b := make([]byte, 64)
					for {
						n, err := c.Read(b)
						if err != nil {
							return
						}
						if n >= 8 && b[0] == 7 && b[1] == 0xF0 {
							data := make([]byte, 20)
							sum := int(b[3]) + 1 + len(data) + 173
							r := append([]byte{7, 0xF3, 7, 0xF0, 0, b[3] + 1, byte(len(data))}, data...)
							c.Write(append(r, byte(sum), 7, 0x0F))
						}
					}
				}()
			}
		}()
		return l.Addr().String(), got, func() { l.Close(); close(stop) }
	}
	addr, got, stop := unit()
	defer stop()
	type setup struct {
		name string
		env  []string
		args func(listen string) []string
	}
	for _, s := range []setup{
		{"flags", nil, func(l string) []string { return []string{"--mode", "tcp", "--target", addr, "--listen", l} }},
		{"flags with debugging", nil, func(l string) []string {
			return []string{"--debug", "--mode", "tcp", "--target", addr, "--listen", l}
		}},
		{"environment", []string{"COMFO_MODE=tcp", "COMFO_TARGET=" + addr, "COMFO_LISTEN="}, func(l string) []string { return []string{"--listen", l} }},
	} {
		listen := free()
		ok := false
		r := run(s.env, 200*time.Millisecond, func() {
			select {
			case <-got:
				ok = served(listen, 15*time.Second)
			case <-time.After(5 * time.Second):
			}
		}, s.args(listen)...)
		if r.ended || !ok {
			reproduced(t, "C30", "started with %s for a reachable unit: ended %v (status %d), served %v", s.name, r.ended, r.code, ok)
		}
		select {
		case <-got:
			reproduced(t, "C30", "started with %s: connects more than once", s.name)
		default:
		}
	}
	// the environment gives the address to listen on
	listen := free()
	ok := false
	run([]string{"COMFO_MODE=tcp", "COMFO_TARGET=" + addr, "COMFO_LISTEN=" + listen}, 200*time.Millisecond, func() { ok = served(listen, 15*time.Second) })
	if !ok {
		reproduced(t, "C30", "COMFO_LISTEN is not served")
	}
	for len(got) > 0 {
		<-got
	}
	// no unit, or no such mode: it ends with a failure and serves nothing
	for _, a := range [][]string{
		{"--mode", "tcp", "--target", free()}, {"--mode", "serial", "--target", "/nonexistent/tty"},
		{"--mode", "other", "--target", addr}, {"--target", "/nonexistent/tty"},
	} {
		listen := free()
		ok := false
		r := run(nil, 3*time.Second, func() { ok = served(listen, 500*time.Millisecond) }, append(a, "--listen", listen)...)
		if !r.ended || r.code == 0 || ok {
			reproduced(t, "C30", "started with %v: ended %v with status %d, served %v", a, r.ended, r.code, ok)
		}
	}
	// the address is taken
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	r := run(nil, 15*time.Second, nil, "--mode", "tcp", "--target", addr, "--listen", l.Addr().String())
	if !r.ended || r.code == 0 {
		reproduced(t, "C30", "started on an address in use: ended %v with status %d", r.ended, r.code)
	}
	// the defaults
	out, _ := exec.Command(bin, "--help").CombinedOutput()
	for _, d := range []string{`default "serial"`, `default "/dev/ttyUSB0"`, `default "[::]:3094"`} {
		if !strings.Contains(string(out), d) {
			reproduced(t, "C30", "the usage does not show %s", d)
		}
	}
}
