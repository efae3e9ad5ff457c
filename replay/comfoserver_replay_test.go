package comfoserver_test

// Replays for failed obligations of comfoserver: drives the exported API of the current source against a
// simulated unit. Only run when a proof failed.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/twitchtv/twirp"

	"github.com/ti-mo/comfo/comfoserver"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
)

var rng *rand.Rand

func init() {
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	rng = rand.New(rand.NewSource(int64(seed)))
}

func reproduced(t *testing.T, prop, format string, a ...interface{}) {
	t.Helper()
	fmt.Printf("REPRODUCED property=%s %s\n", prop, fmt.Sprintf(format, a...))
	t.FailNow()
}

// ---- a unit

type request struct {
	cmd  byte
	data []byte
	at   time.Time
}

type unit struct {
	mu    sync.Mutex
	cond  *sync.Cond
	out   []byte
	log   []request
	prof  [14]byte
	fans  [6]byte
	temps [9]byte
	byp   [7]byte
	boot  [13]byte
	errs  [17]byte
	fail  map[byte]bool // commands that are not answered properly
	// after a set speed command: how many fan readings until the fans show it (-1: never)
	lag  int
	want int
	// other hooks
	onFans func(u *unit)
	delay  map[byte]time.Duration
	over   string
	busy   bool
}

var errUnit = errors.New("the unit failed")

func newUnit() *unit {
	u := &unit{fail: map[byte]bool{}, delay: map[byte]time.Duration{}}
	u.cond = sync.NewCond(&u.mu)
	return u
}

func frame(cmd byte, d []byte) []byte {
	n := int(cmd) + len(d) + 173
	r := []byte{7, 0xF0, 0, cmd, byte(len(d))}
	for _, b := range d {
		n += int(b)
		r = append(r, b)
		if b == 7 {
			r = append(r, 7)
		}
	}
	return append(r, byte(n), 7, 0x0F)
}

func unescape(b []byte) []byte { return bytes.ReplaceAll(b, []byte{7, 7}, []byte{7}) }

func (u *unit) pct(mode int) (in, out byte) {
	return [5]byte{0, u.prof[3], u.prof[4], u.prof[5], u.prof[11]}[mode], [5]byte{0, u.prof[0], u.prof[1], u.prof[2], u.prof[10]}[mode]
}

func (u *unit) Close() error { return nil }

func (u *unit) Write(p []byte) (int, error) {
	if bytes.Equal(p, []byte{7, 0xF3}) {
		return len(p), nil
	}
	if len(p) < 8 {
		return 0, errUnit
	}
	cmd := p[3]
	d := unescape(p[5 : len(p)-3])
	u.mu.Lock()
	dl := u.delay[cmd]
	u.mu.Unlock()
	if dl > 0 {
		time.Sleep(dl)
	}
	u.mu.Lock()
	defer u.mu.Unlock()
	u.log = append(u.log, request{cmd, append([]byte{}, d...), time.Now()})
	u.out = nil
	if u.fail[cmd] {
		return 0, errUnit
	}
	reply := func(c byte, d []byte) {
		u.out = append(append(u.out, 7, 0xF3), frame(c, d)...)
	}
	switch cmd {
	case 0x99: // speed, 0 is automatic
		u.prof[8] = d[0]
		u.want = int(d[0])
		if u.lag == 0 && u.want >= 1 && u.want <= 4 {
			u.fans[0], u.fans[1] = u.pct(u.want)
		}
		u.out = append(u.out, 7, 0xF3)
	case 0xD3:
		u.temps[0] = d[0]
		u.out = append(u.out, 7, 0xF3)
	case 0xCF:
		copy(u.prof[0:6], d[0:6])
		u.prof[10], u.prof[11] = d[6], d[7]
		u.out = append(u.out, 7, 0xF3)
	case 0xCD:
		reply(0xCE, u.prof[:])
	case 0x0B:
		if u.onFans != nil {
			u.onFans(u)
		}
		if u.want >= 1 && u.want <= 4 && u.lag > 0 {
			u.lag--
			if u.lag == 0 {
				u.fans[0], u.fans[1] = u.pct(u.want)
			}
		}
		reply(0x0C, u.fans[:])
	case 0xD1:
		reply(0xD2, u.temps[:])
	case 0xD9:
		reply(0xDA, u.errs[:])
	case 0xDF:
		reply(0xE0, u.byp[:])
	case 0x67:
		reply(0x68, u.boot[:])
	default:
		u.out = append(u.out, 7, 0xF3)
	}
	u.cond.Broadcast()
	return len(p), nil
}

func (u *unit) Read(p []byte) (int, error) {
	u.mu.Lock()
	defer u.mu.Unlock()
	for len(u.out) == 0 {
		u.cond.Wait()
	}
	n := copy(p, u.out)
	u.out = u.out[n:]
	return n, nil
}

// with changes the unit under its lock.
func (u *unit) with(f func()) {
	u.mu.Lock()
	defer u.mu.Unlock()
	f()
}

// since returns the requests logged after a mark.
func (u *unit) mark() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return len(u.log)
}

func (u *unit) since(m int) []request {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]request{}, u.log[m:]...)
}

func sets(rs []request) (r []request) {
	for _, q := range rs {
		switch q.cmd {
		case 0x99, 0xD3, 0xCF:
			r = append(r, q)
		}
	}
	return
}

func count(rs []request, cmd byte) (n int) {
	for _, q := range rs {
		if q.cmd == cmd {
			n++
		}
	}
	return
}

func show(rs []request) string {
	s := ""
	for _, q := range rs {
		s += fmt.Sprintf("%02x[% x] ", q.cmd, q.data)
	}
	return s
}

// randomize gives the unit distinct random readings.
func (u *unit) randomize() {
	u.mu.Lock()
	defer u.mu.Unlock()
	for _, b := range [][]byte{u.temps[:], u.byp[:], u.boot[:3], u.errs[:]} {
		for i := range b {
			b[i] = byte(rng.Intn(200))
		}
	}
	perm := rng.Perm(85)
	for i := 0; i < 14; i++ {
		u.prof[i] = byte(15 + perm[i])
	}
	u.prof[8] = byte(1 + rng.Intn(4))
	u.prof[9] = byte(rng.Intn(3))
	u.byp[6] = byte(rng.Intn(3))
	u.errs[8] = byte(rng.Intn(3))
	copy(u.boot[3:], fmt.Sprintf("unit%06d", rng.Intn(1000000)))
	u.fans = [6]byte{byte(rng.Intn(100)), byte(rng.Intn(100)), byte(1 + rng.Intn(9)), byte(rng.Intn(256)), byte(1 + rng.Intn(9)), byte(rng.Intn(256))}
	u.want, u.lag = 0, 0
	u.onFans = nil
	u.fail = map[byte]bool{}
	u.delay = map[byte]time.Duration{}
}

var (
	srv  = &comfoserver.Server{}
	ctx  = context.Background()
	theU *unit
)

func start() *unit {
	if theU == nil {
		theU = newUnit()
		theU.randomize()
		comfoserver.StartCaches(theU)
	}
	return theU
}

func within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// flush brings all caches up to date.
func flush(t *testing.T, prop string, k comfoserver.CacheType) bool {
	t.Helper()
	var r *rpc.FlushCacheResponse
	var err error
	if !within(20*time.Second, func() { r, err = srv.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: k}) }) {
		reproduced(t, prop, "flushing cache %v never returns", k)
	}
	if err != nil || r == nil {
		reproduced(t, prop, "flushing cache %v gives %v", k, err)
	}
	return r.Success
}

func invalid(err error) bool {
	var te twirp.Error
	return errors.As(err, &te) && te.Code() == twirp.InvalidArgument
}

func words() []uint32 {
	w := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 14, 15, 16, 20, 21, 99, 100, 101, 107, 108, 127, 128, 200, 207, 254, 255, 256, 257, 258, 259, 260, 261, 271, 300, 356,
		511, 512, 513, 515, 516, 65535, 65536, 65537, 65540, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, math.MaxUint32 - 254, math.MaxUint32 - 1, math.MaxUint32}
	for i := 0; i < 6; i++ {
		w = append(w, rng.Uint32(), uint32(rng.Intn(600)))
	}
	return w
}

// ---- fan speed

func TestC15(t *testing.T) {
	u := start()
	deadline := time.Now().Add(120 * time.Second)
	for _, abs := range words() {
		for _, rel := range []bool{true, false} {
			for base := 0; base <= 5; base++ {
				if time.Now().After(deadline) {
					return
				}
				u.randomize()
				u.with(func() { u.prof[8] = byte(base) })
				flush(t, "C15", comfoserver.All)
				m := u.mark()
				var err error
				if !within(40*time.Second, func() { _, err = srv.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: abs, Rel: rel}) }) {
					reproduced(t, "C15", "SetFanSpeed(Abs %d, Rel %v) from speed %d never returns", abs, rel, base)
				}
				sent := sets(u.since(m))
				tgt := int64(abs)
				if abs == 0 {
					tgt = int64(base) - 1
					if rel {
						tgt = int64(base) + 1
					}
				}
				if abs != 0 && rel || tgt < 1 || tgt > 4 {
					if len(sent) > 0 || !invalid(err) {
						reproduced(t, "C15", "SetFanSpeed(Abs %d, Rel %v) from speed %d sends %sand gives %v", abs, rel, base, show(sent), err)
					}
					continue
				}
				if tgt == int64(base) {
					if len(sent) > 0 {
						reproduced(t, "C15", "SetFanSpeed(Abs %d, Rel %v) from speed %d sends %s", abs, rel, base, show(sent))
					}
					continue
				}
				if len(sent) != 1 || sent[0].cmd != 0x99 || len(sent[0].data) != 1 || int64(sent[0].data[0]) != tgt {
					reproduced(t, "C15", "SetFanSpeed(Abs %d, Rel %v) from speed %d sends %s(error %v)", abs, rel, base, show(sent), err)
				}
			}
		}
	}
}

func TestC16(t *testing.T) {
	u := start()
	type c struct {
		lag      int
		failFans bool
		failSet  bool
		stale    bool // the fans show the target before the command
		oneOff   int  // which of the percentages differs: 1 in, 2 out
		failProf bool
	}
	cases := []c{{}, {lag: 1}, {lag: 3}, {failSet: true}, {failSet: true, stale: true}, {failProf: true}, {oneOff: 1}, {oneOff: 2}, {failFans: true}, {failFans: true, stale: true}, {lag: -1}}
	deadline := time.Now().Add(200 * time.Second)
	for _, k := range cases {
		for mode := 1; mode <= 4; mode++ {
			long := k.lag < 0 || k.failFans || k.oneOff > 0
			if time.Now().After(deadline) || long && mode > 2 {
				continue
			}
			u.randomize()
			base := mode%4 + 1
			u.with(func() {
				u.prof[8] = byte(base)
				u.lag = k.lag
				u.fail = map[byte]bool{}
				if k.stale {
					u.fans[0], u.fans[1] = u.pct(mode)
				}
			})
			if !flush(t, "C16", comfoserver.All) {
				reproduced(t, "C16", "the caches cannot be flushed")
			}
			u.with(func() {
				if k.failSet {
					u.fail[0x99] = true
				}
				if k.failFans {
					u.fail[0x0B] = true
				}
				if k.failProf {
					u.fail[0xCD] = true
				}
				if k.oneOff > 0 {
					u.lag = -1
					u.onFans = func(u *unit) {
						u.fans[0], u.fans[1] = u.pct(mode)
						u.fans[k.oneOff-1]++
					}
				}
			})
			m := u.mark()
			var r *rpc.FanSpeedModified
			var err error
			if !within(60*time.Second, func() { r, err = srv.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: uint32(mode)}) }) {
				reproduced(t, "C16", "SetFanSpeed(%d) never returns, unit %+v", mode, k)
			}
			rs := u.since(m)
			if k.failSet || k.failFans || k.lag < 0 || k.oneOff > 0 {
				if err == nil {
					reproduced(t, "C16", "SetFanSpeed(%d) succeeds although the unit does not show it: %+v", mode, k)
				}
				continue
			}
			if k.failProf {
				continue
			}
			if err != nil {
				reproduced(t, "C16", "SetFanSpeed(%d) fails with %v although the unit shows it: %+v", mode, err, k)
			}
			if !r.Modified || r.OriginalSpeed != uint32(base) || r.TargetSpeed != uint32(mode) {
				reproduced(t, "C16", "SetFanSpeed(%d) from %d answers %v", mode, base, r)
			}
			// the order of the requests: speed, readings, profiles
			var order []byte
			for _, q := range rs {
				order = append(order, q.cmd)
			}
			sp, fa, pr := bytes.IndexByte(order, 0x99), bytes.LastIndexByte(order, 0x0B), bytes.LastIndexByte(order, 0xCD)
			if fa < sp {
				reproduced(t, "C16", "SetFanSpeed(%d) succeeds without a reading after the command: % x", mode, order)
			}
			if pr < sp {
				reproduced(t, "C16", "SetFanSpeed(%d) does not refresh the profiles afterwards: % x", mode, order)
			}
			if g, _ := srv.GetFanProfiles(ctx, &rpc.Noop{}); g.CurrentMode != uint32(mode) {
				reproduced(t, "C16", "after SetFanSpeed(%d) the cached speed is %d", mode, g.CurrentMode)
			}
			// again: no change
			r, err = srv.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: uint32(mode)})
			if err != nil || r.Modified || r.OriginalSpeed != uint32(mode) || r.TargetSpeed != uint32(mode) {
				reproduced(t, "C16", "SetFanSpeed(%d) at %d answers %v, %v", mode, mode, r, err)
			}
		}
	}
}

func TestC17(t *testing.T) {
	u := start()
	deadline := time.Now().Add(150 * time.Second)
	slot := [5]int{0, 3, 4, 5, 11} // in the readings
	req := [5]int{0, 3, 4, 5, 7}   // in the request
	ws := words()
	for round := 0; time.Now().Before(deadline) && round < 400; round++ {
		mode, pct := ws[rng.Intn(len(ws))], ws[rng.Intn(len(ws))]
		if rng.Intn(2) == 0 {
			mode = uint32(rng.Intn(6))
		}
		if rng.Intn(2) == 0 {
			pct = uint32(rng.Intn(120))
		}
		u.randomize()
		same := mode >= 1 && mode <= 4 && pct >= 15 && pct <= 100 && rng.Intn(3) == 0
		if same {
			u.with(func() { u.prof[slot[mode]] = byte(pct) })
		}
		flush(t, "C17", comfoserver.All)
		failing := rng.Intn(6) == 0
		if failing {
			u.with(func() { u.fail[0xCF] = true })
		}
		before := u.prof
		m := u.mark()
		var r *rpc.FanProfileModified
		var err error
		if !within(20*time.Second, func() {
			r, err = srv.SetFanProfile(ctx, &rpc.FanProfileTarget{Mode: mode, TargetSpeed: pct})
		}) {
			reproduced(t, "C17", "SetFanProfile(%d, %d) never returns", mode, pct)
		}
		rs := u.since(m)
		what := fmt.Sprintf("SetFanProfile(%d, %d)", mode, pct)
		if mode < 1 || mode > 4 || pct < 15 || pct > 100 {
			if len(sets(rs)) > 0 || !invalid(err) {
				reproduced(t, "C17", "%s sends %sand gives %v", what, show(rs), err)
			}
			continue
		}
		old := before[slot[mode]]
		if uint32(old) == pct {
			if len(sets(rs)) > 0 || err != nil || r.Modified || r.OriginalSpeed != pct || r.TargetSpeed != pct {
				reproduced(t, "C17", "%s when it is so already sends %sand gives %v, %v", what, show(rs), r, err)
			}
			continue
		}
		if failing {
			if err == nil {
				reproduced(t, "C17", "%s succeeds although the unit failed", what)
			}
			continue
		}
		want := []byte{before[0], before[1], before[2], before[3], before[4], before[5], before[10], before[11]}
		want[req[mode]] = byte(pct)
		want[[5]int{0, 0, 1, 2, 6}[mode]] = byte(pct) // both fans
		s := sets(rs)
		if len(s) != 1 || s[0].cmd != 0xCF || len(s[0].data) < 8 || !bytes.Equal(s[0].data[:8], want) {
			reproduced(t, "C17", "%s with profiles % x sends %sand gives %v", what, before, show(s), err)
		}
		if err != nil || !r.Modified || r.OriginalSpeed != uint32(old) || r.TargetSpeed != pct {
			reproduced(t, "C17", "%s with profiles % x answers %v, %v", what, before, r, err)
		}
		g, _ := srv.GetFanProfiles(ctx, &rpc.Noop{})
		if now := [5]uint32{0, g.InAway, g.InLow, g.InMid, g.InHigh}[mode]; now != pct {
			reproduced(t, "C17", "after %s the cache says %d", what, now)
		}
	}
}

func TestC18(t *testing.T) {
	u := start()
	deadline := time.Now().Add(120 * time.Second)
	raws := []int{-1, 0, 1, 39, 40, 41, 60, 254, 255}
	for _, ct := range append(words(), 21, 107, 0, 1) {
		for _, raw := range raws {
			if time.Now().After(deadline) {
				break
			}
			u.randomize()
			if raw < 0 && ct <= 107 {
				raw = int(ct+20) * 2
			} else if raw < 0 {
				raw = rng.Intn(256)
			}
			u.with(func() { u.temps[0] = byte(raw) })
			flush(t, "C18", comfoserver.All)
			m := u.mark()
			var r *rpc.ComfortModified
			var err error
			if !within(20*time.Second, func() { r, err = srv.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: ct}) }) {
				reproduced(t, "C18", "SetComfortTemp(%d) never returns", ct)
			}
			rs := u.since(m)
			s := sets(rs)
			what := fmt.Sprintf("SetComfortTemp(%d) at %v degrees", ct, raw/2-20)
			orig := float64(raw/2 - 20)
			switch {
			case ct > 107:
				if len(s) > 0 || err == nil || ct > 255 && !invalid(err) {
					reproduced(t, "C18", "%s sends %sand gives %v, %v", what, show(s), r, err)
				}
			case float64(ct) == orig:
				if len(s) > 0 || err != nil || r.Modified || r.TargetTemp != ct || r.OriginalTemp != ct {
					reproduced(t, "C18", "%s sends %sand gives %v, %v", what, show(s), r, err)
				}
			default:
				if len(s) != 1 || s[0].cmd != 0xD3 || len(s[0].data) != 1 || int(s[0].data[0]) != int(ct+20)*2 {
					reproduced(t, "C18", "%s sends %sand gives %v, %v", what, show(s), r, err)
				}
				if err != nil || !r.Modified || r.TargetTemp != ct || orig >= 0 && r.OriginalTemp != uint32(orig) {
					reproduced(t, "C18", "%s answers %v, %v", what, r, err)
				}
				if g, _ := srv.GetTemps(ctx, &rpc.Noop{}); g.Comfort != float32(ct) {
					reproduced(t, "C18", "after %s the cache says %v", what, g.Comfort)
				}
			}
		}
	}
	// a unit that fails
	u.randomize()
	u.with(func() { u.temps[0] = 100 })
	flush(t, "C18", comfoserver.All)
	u.with(func() { u.fail[0xD3] = true })
	if r, err := srv.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: 22}); err == nil {
		reproduced(t, "C18", "SetComfortTemp(22) succeeds although the unit failed: %v", r)
	}
	// two requests at once: the second one finds what the first one did
	for i := 0; i < 20; i++ {
		u.randomize()
		u.with(func() { u.temps[0] = 80; u.delay[0xD3] = 30 * time.Millisecond; u.delay[0xD1] = 30 * time.Millisecond })
		flush(t, "C18", comfoserver.Temps)
		m := u.mark()
		var wg sync.WaitGroup
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); srv.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: 23}) }()
		}
		wg.Wait()
		if s := sets(u.since(m)); len(s) != 1 {
			reproduced(t, "C18", "two requests for 23 degrees at 20 degrees send %s", show(s))
		}
	}
}

// ---- caches

type cacheCase struct {
	name string
	cmd  byte
	mk   func() (update func(bool) error, get func() string, last func() time.Time)
	want func(u *unit) string
}

func deg(b byte) float32 { return float32(int(b)/2 - 20) }

func rpm(h, l byte) uint32 { return 1875000 / (uint32(h)<<8 | uint32(l)) }

func cacheCases() []cacheCase {
	return []cacheCase{
		{"BootInfo", 0x67, func() (func(bool) error, func() string, func() time.Time) {
			c := &comfoserver.BootInfoCache{}
			return c.Update, func() string { return fmt.Sprint(c.BootInfo) }, func() time.Time { return c.LastUpdated }
		}, func(u *unit) string {
			return fmt.Sprintf("{%d %d %d %s}", u.boot[0], u.boot[1], u.boot[2], u.boot[3:])
		}},
		{"Bypass", 0xDF, func() (func(bool) error, func() string, func() time.Time) {
			c := &comfoserver.BypassCache{}
			return c.Update, func() string { return fmt.Sprint(c.Bypass) }, func() time.Time { return c.LastUpdated }
		}, func(u *unit) string {
			return fmt.Sprintf("{%d %d %d %v}", u.byp[2], u.byp[3], u.byp[4], u.byp[6] == 1)
		}},
		{"Temps", 0xD1, func() (func(bool) error, func() string, func() time.Time) {
			c := &comfoserver.TempCache{}
			return c.Update, func() string { return fmt.Sprint(c.Temps) }, func() time.Time { return c.LastUpdated }
		}, func(u *unit) string {
			s := "{"
			for _, i := range []int{0, 1, 2, 3, 4, 6, 7, 8} {
				if i > 0 {
					s += " "
				}
				s += fmt.Sprint(deg(u.temps[i]))
			}
			return s + "}"
		}},
		{"Fans", 0x0B, func() (func(bool) error, func() string, func() time.Time) {
			c := &comfoserver.FanCache{}
			return c.Update, func() string { return fmt.Sprint(c.Fans) }, func() time.Time { return c.LastUpdated }
		}, func(u *unit) string {
			return fmt.Sprintf("{%d %d %d %d}", u.fans[0], u.fans[1], rpm(u.fans[2], u.fans[3]), rpm(u.fans[4], u.fans[5]))
		}},
		{"FanProfiles", 0xCD, func() (func(bool) error, func() string, func() time.Time) {
			c := &comfoserver.FanProfilesCache{}
			return c.Update, func() string { return fmt.Sprintf("%+v", c.FanProfiles) }, func() time.Time { return c.LastUpdated }
		}, func(u *unit) string {
			p := u.prof
			return fmt.Sprintf("{OutAway:%d OutLow:%d OutMid:%d OutHigh:%d InFanActive:%v InAway:%d InLow:%d InMid:%d InHigh:%d CurrentOut:%d CurrentIn:%d CurrentMode:%d}",
				p[0], p[1], p[2], p[10], p[9] == 1, p[3], p[4], p[5], p[11], p[6], p[7], p[8])
		}},
		{"Errors", 0xD9, func() (func(bool) error, func() string, func() time.Time) {
			c := &comfoserver.ErrorsCache{}
			return c.Update, func() string { return fmt.Sprint(c.Errors) }, func() time.Time { return c.LastUpdated }
		}, func(u *unit) string { return fmt.Sprintf("{%v}", u.errs[8] == 1) }},
	}
}

func TestC19(t *testing.T) {
	u := start()
	for round := 0; round < 4; round++ {
		for _, k := range cacheCases() {
			u.randomize()
			upd, get, last := k.mk()
			m := u.mark()
			t0 := time.Now()
			err := upd(round%2 == 0) // never refreshed: stale
			t1 := time.Now()
			rs := u.since(m)
			if count(rs, k.cmd) != 1 {
				reproduced(t, "C19", "%s: the first update sends %s", k.name, show(rs))
			}
			if err != nil || get() != k.want(u) {
				reproduced(t, "C19", "%s: update gives %v and stores %s, the unit said %s", k.name, err, get(), k.want(u))
			}
			if last().Before(t0) || last().After(t1) {
				reproduced(t, "C19", "%s: the timestamp %v is not within the refresh %v to %v", k.name, last(), t0, t1)
			}
			// edge readings, one after the other, also the same one again
			for _, v := range []byte{0, 1, 0, 0, 255, 2, 0} {
				u.with(func() {
					for _, b := range [][]byte{u.temps[:], u.byp[:], u.boot[:3], u.errs[:], u.prof[:], u.fans[:2]} {
						for i := range b {
							b[i] = v
						}
					}
					u.boot[3] = 'a' + v%16
				})
				if err := upd(true); err != nil || get() != k.want(u) {
					reproduced(t, "C19", "%s: update gives %v and stores %s, the unit said %s", k.name, err, get(), k.want(u))
				}
			}
			// a slow unit: still within the refresh
			u.with(func() { u.delay[k.cmd] = 40 * time.Millisecond })
			t0 = time.Now()
			upd(true)
			t1 = time.Now()
			if last().Before(t0) || last().After(t1) {
				reproduced(t, "C19", "%s: the timestamp %v is not within the refresh %v to %v", k.name, last(), t0, t1)
			}
			// fresh: no query without force, a query with force
			m = u.mark()
			if err := upd(false); err != nil || count(u.since(m), k.cmd) != 0 {
				reproduced(t, "C19", "%s: a fresh cache is refreshed without force (%v)", k.name, err)
			}
			m = u.mark()
			if upd(true); count(u.since(m), k.cmd) != 1 {
				reproduced(t, "C19", "%s: force does not refresh once", k.name)
			}
			// a failing unit
			before, lb := get(), last()
			u.randomize()
			u.with(func() { u.fail[k.cmd] = true })
			if err := upd(true); err == nil || get() != before || !last().Equal(lb) {
				reproduced(t, "C19", "%s: a failed refresh gives %v, the reading changes from %s (%v) to %s (%v)", k.name, err, before, lb, get(), last())
			}
			u.with(func() { u.fail = map[byte]bool{} })
		}
	}
	// age
	for _, age := range []time.Duration{0, time.Second, 4 * time.Second, 4400 * time.Millisecond, 4600 * time.Millisecond, 5 * time.Second, 10 * time.Second, 24 * time.Hour, 1000000 * time.Hour} {
		set := []struct {
			name string
			cmd  byte
			f    func() error
		}{
			{"BootInfo", 0x67, func() error { return (&comfoserver.BootInfoCache{LastUpdated: time.Now().Add(-age)}).Update(false) }},
			{"Bypass", 0xDF, func() error { return (&comfoserver.BypassCache{LastUpdated: time.Now().Add(-age)}).Update(false) }},
			{"Temps", 0xD1, func() error { return (&comfoserver.TempCache{LastUpdated: time.Now().Add(-age)}).Update(false) }},
			{"Fans", 0x0B, func() error { return (&comfoserver.FanCache{LastUpdated: time.Now().Add(-age)}).Update(false) }},
			{"FanProfiles", 0xCD, func() error { return (&comfoserver.FanProfilesCache{LastUpdated: time.Now().Add(-age)}).Update(false) }},
			{"Errors", 0xD9, func() error { return (&comfoserver.ErrorsCache{LastUpdated: time.Now().Add(-age)}).Update(false) }},
		}
		for _, k := range set {
			u.randomize()
			ok := false
			for try := 0; try < 3 && !ok; try++ { // the worker may refresh its own cache in between
				m := u.mark()
				err := k.f()
				n := count(u.since(m), k.cmd)
				ok = err == nil && (n == 1) == (age > 4500*time.Millisecond)
			}
			if !ok {
				reproduced(t, "C19", "%s: a reading %v old is refreshed without force: %v", k.name, age, age <= 4500*time.Millisecond)
			}
		}
	}
}

func TestC20(t *testing.T) {
	u := start()
	var held []fmt.Stringer // earlier answers, still in use
	var heldText []string
	for round := 0; round < 60; round++ {
		u.randomize()
		if !flush(t, "C20", comfoserver.All) {
			reproduced(t, "C20", "the caches cannot be flushed")
		}
		n := &rpc.Noop{}
		eq := func(what string, got, want interface{}, err error) {
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				reproduced(t, "C20", "%s gives %v, %v; the unit said %v", what, got, err, want)
			}
		}
		for again := 0; again < 2; again++ {
			m := u.mark()
			u.mu.Lock()
			w := *u
			u.mu.Unlock()
			b, err := srv.GetBootInfo(ctx, n)
			eq("GetBootInfo", []interface{}{b.GetMajorVersion(), b.GetMinorVersion(), b.GetBetaVersion(), b.GetDeviceName()}, []interface{}{w.boot[0], w.boot[1], w.boot[2], string(w.boot[3:])}, err)
			y, err := srv.GetBypass(ctx, n)
			eq("GetBypass", []interface{}{y.GetFactor(), y.GetLevel(), y.GetCorrection(), y.GetSummerMode()}, []interface{}{w.byp[2], w.byp[3], w.byp[4], w.byp[6] == 1}, err)
			e, err := srv.GetErrors(ctx, n)
			eq("GetErrors", e.GetFilter(), w.errs[8] == 1, err)
			f, err := srv.GetFans(ctx, n)
			eq("GetFans", []interface{}{f.GetInPercent(), f.GetOutPercent(), f.GetInSpeed(), f.GetOutSpeed()}, []interface{}{w.fans[0], w.fans[1], rpm(w.fans[2], w.fans[3]), rpm(w.fans[4], w.fans[5])}, err)
			p, err := srv.GetFanProfiles(ctx, n)
			q := w.prof
			eq("GetFanProfiles", []interface{}{p.GetOutAway(), p.GetOutLow(), p.GetOutMid(), p.GetOutHigh(), p.GetInFanActive(), p.GetInAway(), p.GetInLow(), p.GetInMid(), p.GetInHigh(), p.GetCurrentOut(), p.GetCurrentIn(), p.GetCurrentMode()},
				[]interface{}{q[0], q[1], q[2], q[10], q[9] == 1, q[3], q[4], q[5], q[11], q[6], q[7], q[8]}, err)
			c, err := srv.GetTemps(ctx, n)
			tt := w.temps
			eq("GetTemps", []interface{}{c.GetComfort(), c.GetOutsideAir(), c.GetSupplyAir(), c.GetInsideAir(), c.GetExhaustAir(), c.GetGeoHeat(), c.GetReheating(), c.GetKitchenHood()},
				[]interface{}{deg(tt[0]), deg(tt[1]), deg(tt[2]), deg(tt[3]), deg(tt[4]), deg(tt[6]), deg(tt[7]), deg(tt[8])}, err)
			for i, h := range held {
				if h.String() != heldText[i] {
					reproduced(t, "C20", "the answer %s given earlier became %s", heldText[i], h)
				}
			}
			held, heldText = held[:0], heldText[:0]
			for _, a := range []fmt.Stringer{b, y, e, f, p, c} {
				held, heldText = append(held, a), append(heldText, a.String())
			}
			for _, r := range u.since(m) {
				// the worker's own refreshes come on its timer only
				if r.cmd != 0xD1 && r.cmd != 0x0B {
					reproduced(t, "C20", "a getter sends %s", show(u.since(m)))
				}
			}
			if len(u.since(m)) > 2 {
				reproduced(t, "C20", "the getters send %s", show(u.since(m)))
			}
		}
	}
}

// TestC21: operations in all orders and with failures; one that does not return has left a lock behind
// or taken it twice. Readings are checked to be of one piece.
func TestC21(t *testing.T) {
	u := start()
	ops := []func(){
		func() { srv.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: uint32(1 + rng.Intn(4))}) },
		func() { srv.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: uint32(rng.Intn(300))}) },
		func() { srv.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: 2, Rel: true}) },
		func() { srv.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Rel: true}) },
		func() { srv.SetFanProfile(ctx, &rpc.FanProfileTarget{Mode: uint32(1 + rng.Intn(4)), TargetSpeed: uint32(15 + rng.Intn(86))}) },
		func() { srv.SetFanProfile(ctx, &rpc.FanProfileTarget{Mode: uint32(rng.Intn(8)), TargetSpeed: uint32(rng.Intn(300))}) },
		func() { srv.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: uint32(rng.Intn(130))}) },
		func() { srv.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: 1000}) },
		func() { (&comfoserver.FanCache{}).UpdatePoll(1, uint8(rng.Intn(7))) },
		func() { (&comfoserver.FanCache{}).UpdatePoll(0, 1) },
		func() { (&comfoserver.FanCache{}).UpdatePoll(1, 9) },
		func() { comfoserver.UpdateCaches(true) },
		func() { comfoserver.UpdateCaches(false) },
	}
	for i := range []int{0, 1, 2, 3, 4, 5, 6} {
		k := comfoserver.CacheType(i)
		ops = append(ops, func() { srv.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: k}) })
	}
	getters := []func(){
		func() { srv.GetBootInfo(ctx, &rpc.Noop{}) }, func() { srv.GetBypass(ctx, &rpc.Noop{}) }, func() { srv.GetErrors(ctx, &rpc.Noop{}) },
		func() { srv.GetFans(ctx, &rpc.Noop{}) }, func() { srv.GetFanProfiles(ctx, &rpc.Noop{}) }, func() { srv.GetTemps(ctx, &rpc.Noop{}) },
	}
	deadline := time.Now().Add(100 * time.Second)
	cmds := []byte{0x67, 0xDF, 0xD1, 0x0B, 0xCD, 0xD9, 0x99, 0xCF, 0xD3}
	for time.Now().Before(deadline) {
		u.randomize()
		if rng.Intn(2) == 0 {
			u.with(func() { u.fail[cmds[rng.Intn(len(cmds))]] = true })
		}
		k := rng.Intn(len(ops))
		if !within(45*time.Second, ops[k]) {
			reproduced(t, "C21", "operation %d never returns", k)
		}
		for i, g := range getters {
			if !within(5*time.Second, g) {
				reproduced(t, "C21", "getter %d never returns after operation %d", i, k)
			}
		}
		for _, p := range []int{6, 4, 2} {
			u.with(func() { u.fail = map[byte]bool{} })
			if !within(45*time.Second, ops[p]) {
				reproduced(t, "C21", "operation %d never returns after operation %d", p, k)
			}
		}
		if !within(20*time.Second, func() { srv.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: comfoserver.All}) }) {
			reproduced(t, "C21", "a flush never returns after operation %d", k)
		}
		if t.Failed() {
			return
		}
		if time.Until(deadline) < 60*time.Second {
			break
		}
	}
	// torn readings: every field of the unit's readings is made from one number
	stop := make(chan bool)
	var bad string
	var mu sync.Mutex
	note := func(f string, a ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	setAll := func(k byte) {
		for i := range u.temps {
			u.temps[i] = k
		}
		for i := range u.prof {
			u.prof[i] = k
		}
		for i := range u.byp {
			u.byp[i] = k
		}
		u.fans = [6]byte{k, k, 1, k, 1, k}
		u.boot[0], u.boot[1], u.boot[2] = k, k, k
		copy(u.boot[3:], fmt.Sprintf("%010d", k))
	}
	u.randomize()
	u.with(func() { setAll(9) })
	flush(t, "C21", comfoserver.All)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for k := byte(10); ; k++ {
			select {
			case <-stop:
				return
			default:
			}
			u.with(func() { setAll(10 + k%200) })
			comfoserver.UpdateCaches(true)
		}
	}()
	go func() {
		defer wg.Done()
		n := &rpc.Noop{}
		for {
			select {
			case <-stop:
				return
			default:
			}
			if c, _ := srv.GetTemps(ctx, n); c.Comfort != c.KitchenHood || c.OutsideAir != c.SupplyAir || c.Comfort != c.InsideAir {
				note("a partly updated reading: %v", c)
			}
			if p, _ := srv.GetFanProfiles(ctx, n); p.OutAway != p.InHigh || p.CurrentMode != p.OutHigh {
				note("a partly updated reading: %v", p)
			}
			if y, _ := srv.GetBypass(ctx, n); y.Factor != y.Correction {
				note("a partly updated reading: %v", y)
			}
			if f, _ := srv.GetFans(ctx, n); f.InPercent != f.OutPercent || f.InSpeed != f.OutSpeed {
				note("a partly updated reading: %v", f)
			}
			if b, _ := srv.GetBootInfo(ctx, n); b.MajorVersion != b.BetaVersion || fmt.Sprintf("%010d", b.MajorVersion) != b.DeviceName {
				note("a partly updated reading: %v", b)
			}
		}
	}()
	time.Sleep(10 * time.Second)
	close(stop)
	if !within(20*time.Second, wg.Wait) {
		reproduced(t, "C21", "getters and updates block each other")
	}
	if bad != "" {
		reproduced(t, "C21", "%s", bad)
	}
}

func TestC22(t *testing.T) {
	u := start()
	cmd := map[comfoserver.CacheType]byte{comfoserver.BootInfo: 0x67, comfoserver.Bypass: 0xDF, comfoserver.Temps: 0xD1, comfoserver.Fans: 0x0B, comfoserver.Profiles: 0xCD}
	all := []byte{0x67, 0xDF, 0xD1, 0x0B, 0xCD, 0xD9}
	kinds := []comfoserver.CacheType{comfoserver.All, comfoserver.BootInfo, comfoserver.Bypass, comfoserver.Temps, comfoserver.Fans, comfoserver.Profiles, 77, -1}
	for i := 0; i < 10; i++ {
		known := false
		for _, k := range kinds {
			known = known || k == comfoserver.CacheType(i)
		}
		if !known {
			kinds = append(kinds, comfoserver.CacheType(i))
		}
	}
	for _, k := range kinds {
		for fi := -1; fi < len(all); fi++ {
			u.randomize()
			fail := byte(0)
			if fi >= 0 {
				fail = all[fi]
				u.with(func() { u.fail[fail] = true })
			}
			good := false
			var last string
			for try := 0; try < 3 && !good; try++ { // the worker may refresh on its own timer
				m := u.mark()
				ok := flush(t, "C22", k)
				rs := u.since(m)
				want := map[byte]int{}
				if k == comfoserver.All {
					for _, c := range all {
						want[c] = 1
					}
				} else if c, is := cmd[k]; is {
					want[c] = 1
				}
				wok := len(want) > 0
				good = true
				for _, c := range all {
					if count(rs, c) != want[c] {
						good = false
					}
					if want[c] == 1 && c == fail {
						wok = false
					}
				}
				if ok != wok {
					good = false
				}
				last = fmt.Sprintf("flushing cache %v (%d) with request %02x failing sends %sand answers %v", k, k, fail, show(rs), ok)
			}
			if !good {
				reproduced(t, "C22", "%s", last)
			}
		}
	}
	// concurrent requests get their own answers
	u.randomize()
	u.with(func() {
		u.fail[0xDF] = true
		for _, c := range all {
			u.delay[c] = time.Millisecond
		}
	})
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for i := 0; i < 60; i++ {
		wg.Add(1)
		k := []comfoserver.CacheType{comfoserver.BootInfo, comfoserver.Bypass, 99, comfoserver.Temps}[i%4]
		go func() {
			defer wg.Done()
			r, err := srv.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: k})
			mu.Lock()
			defer mu.Unlock()
			if err != nil || r.Success != (k == comfoserver.BootInfo || k == comfoserver.Temps) {
				bad = fmt.Sprintf("concurrent flush of %v answers %v, %v", k, r, err)
			}
		}()
	}
	if !within(60*time.Second, wg.Wait) {
		reproduced(t, "C22", "concurrent flush requests never return")
	}
	if bad != "" {
		reproduced(t, "C22", "%s", bad)
	}
}

func TestC23(t *testing.T) {
	u := newUnit()
	u.randomize()
	theU = u
	if !within(30*time.Second, func() { comfoserver.StartCaches(u) }) {
		reproduced(t, "C23", "StartCaches never returns")
	}
	rs := u.since(0)
	for _, c := range []byte{0x67, 0xDF, 0xD1, 0x0B, 0xCD, 0xD9} {
		if count(rs, c) != 1 {
			reproduced(t, "C23", "StartCaches sends %s", show(rs))
		}
	}
	// minutes and hours may pass faster here (see run.sh)
	scaled := os.Getenv("VERIF_SCALED") != ""
	tiers := map[byte]time.Duration{0xD1: 5 * time.Second, 0x0B: 5 * time.Second}
	if scaled {
		tiers[0xCD], tiers[0xDF], tiers[0x67], tiers[0xD9] = 10*time.Second, 10*time.Second, 15*time.Second, 15*time.Second
	}
	watch := func(what string, slack int) {
		m := u.mark()
		t0 := time.Now()
		time.Sleep(16500 * time.Millisecond)
		if scaled {
			time.Sleep(16 * time.Second)
		}
		rs, d := u.since(m), time.Since(t0)
		for _, c := range []byte{0x67, 0xDF, 0xD1, 0x0B, 0xCD, 0xD9} {
			lo, hi := 0, 0
			if p := tiers[c]; p > 0 {
				lo, hi = int(d/p)-1-slack, int(d/p)+1
			}
			if n := count(rs, c); n < lo || n > hi {
				reproduced(t, "C23", "%s the worker refreshes %#02x %d times in %v (5 minutes and hours pass in 10 and 15 seconds: %v): %s", what, c, n, d, scaled, show(rs))
			}
		}
		if len(sets(rs)) > 0 {
			reproduced(t, "C23", "%s the worker sends %s", what, show(rs))
		}
	}
	watch("with a working unit", 0)
	if scaled {
		// a failing refresh does not keep the others from happening
		for _, bad := range [][]byte{{0x67, 0xCD, 0xD1}, {0xD9, 0xDF, 0x0B}} {
			u.with(func() {
				for _, c := range bad {
					u.fail[c] = true
				}
			})
			watch(fmt.Sprintf("when refreshes % x fail,", bad), 0)
			u.with(func() { u.fail = map[byte]bool{} })
		}
	}
	// failures do not stop it
	u.with(func() {
		for _, c := range []byte{0x67, 0xDF, 0xD1, 0x0B, 0xCD, 0xD9} {
			u.fail[c] = true
		}
	})
	time.Sleep(6 * time.Second)
	u.with(func() { u.fail = map[byte]bool{} })
	flush(t, "C23", comfoserver.CacheType(99))
	m := u.mark()
	time.Sleep(11 * time.Second)
	if rs = u.since(m); count(rs, 0xD1) < 1 || count(rs, 0x0B) < 1 {
		reproduced(t, "C23", "the worker stops after failures: %s", show(rs))
	}
	m = u.mark()
	if !flush(t, "C23", comfoserver.Profiles) || count(u.since(m), 0xCD) != 1 {
		reproduced(t, "C23", "a flush request is not handed to the flush logic: %s", show(u.since(m)))
	}
}
