package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a validity query.
type Result int

const (
	Unknown Result = iota
	Valid
	Invalid
)

func (r Result) String() string { return [...]string{"unknown", "valid", "invalid"}[r] }

// ---------- definitional unfolding and lemmas

func iscmd(e *Term) *Term { return Or(Eq(e, I(0xF3)), Eq(e, I(0xF0)), Eq(e, I(0x0F))) }

// wf is the condition under which every sub-sequence inside t is in range.
func wf(t *Term) *Term {
	var cs []*Term
	Walk([]*Term{t}, map[*Term]bool{}, func(x *Term) {
		if x.op == OSub {
			cs = append(cs, Ge0(x.args[1]), Ge0(x.args[2]), Le(Add(x.args[1], x.args[2]), Len(x.args[0])))
		}
	})
	return And(cs...)
}

// unfoldDef is the definition of a specification function at the given arguments.
func unfoldDef(name string, args []*Term) *Term {
	t := args[0]
	L := Len(t)
	h := Nth(t, I(0))
	rest := Tail(t, I(1))
	switch name {
	case "SUM":
		return Ite(Eq(L, I(0)), I(0), Add(h, UF("SUM", SInt, rest)))
	case "ESC":
		return Ite(Eq(L, I(0)), Empty, Concat(Ite(Eq(h, I(7)), SeqStr("\x07\x07"), Unit(h)), UF("ESC", SSeq, rest)))
	case "UE":
		two := And(Le(I(2), L), Eq(Nth(t, I(1)), I(7)))
		return Ite(Eq(L, I(0)), Empty, Ite(Eq(h, I(7)),
			Ite(two, Concat(Unit(I(7)), UF("UE", SSeq, Tail(t, I(2)))), UF("UE", SSeq, rest)),
			Concat(Unit(h), UF("UE", SSeq, rest))))
	case "FC":
		hit := And(Le(I(2), L), Eq(h, I(7)), iscmd(Nth(t, I(1))))
		return Ite(Eq(L, I(0)), I(0), Ite(hit, I(0), Add(I(1), UF("FC", SInt, rest))))
	case "SZ":
		n := args[1]
		pair := And(Le(I(2), L), Eq(h, I(7)), Eq(Nth(t, I(1)), I(7)))
		return Ite(Le(n, I(0)), I(0), Ite(Eq(L, I(0)), n,
			Ite(pair, Add(I(2), UF("SZ", SInt, Tail(t, I(2)), Add(n, I(-1)))),
				Add(I(1), UF("SZ", SInt, rest, Add(n, I(-1)))))))
	}
	return nil
}

var unfoldRounds = 2

// lemma facts: instances of lemmas proved on every run (see lemmas.go)
func lemmaFacts(terms []*Term) []*Term {
	var fs []*Term
	var escs, szs []*Term
	for _, t := range terms {
		if t.op != OUF || len(t.args) == 0 || t.args[0].sort != SSeq {
			continue
		}
		a := t.args[0]
		switch t.name {
		case "SUM":
			fs = append(fs, Implies(wf(a), And(Ge0(t), Le(t, Scale(Len(a), big64(255))))))
		case "ESC":
			escs = append(escs, t)
			fs = append(fs, Implies(wf(a), And(Le(Len(a), Len(t)), Le(Len(t), Scale(Len(a), big64(2))),
				Eq(tt.mk(OUF, SSeq, "UE", nil, nil, t), a))))
		case "UE":
			fs = append(fs, Implies(wf(a), Le(Len(t), Len(a))))
		case "FC":
			fs = append(fs, Implies(wf(a), And(Ge0(t), Le(t, Len(a)))))
		case "SZ":
			szs = append(szs, t)
			fs = append(fs, Implies(wf(a), And(Ge0(t), Le(t.args[1], t))))
		}
	}
	for _, z := range szs {
		t, n := z.args[0], z.args[1]
		for _, e := range escs {
			g := And(wf(t), wf(e.args[0]), Eq(n, Len(e.args[0])))
			if g == False {
				continue
			}
			pre := prefixOf(e, t)
			pre2 := And(prefixOf(t, e), Lt(Len(t), Len(e)))
			if startsAt(t, e) {
				pre, pre2 = Le(Len(e), Len(t)), Lt(Len(t), Len(e))
			}
			fs = append(fs, Implies(And(g, pre), Eq(z, Len(e))))
			fs = append(fs, Implies(And(g, pre2), Le(Len(t), z)))
		}
	}
	return fs
}

// startsAt: t is a sub-sequence of a concatenation that starts where its part e starts.
func startsAt(t, e *Term) bool {
	if t.op != OSub || t.args[0].op != OConcat {
		return false
	}
	off := I(0)
	for _, p := range t.args[0].args {
		if p == e && off == t.args[1] {
			return true
		}
		off = Add(off, Len(p))
	}
	return false
}

// concatFacts relate elements and sub-sequences of a concatenation to its parts.
func concatFacts(t *Term) (fs []*Term) {
	if t.op != ONth && t.op != OSub || t.args[0].op != OConcat {
		return
	}
	ps := t.args[0].args
	if len(ps) > 16 {
		return
	}
	off := I(0)
	for i, p := range ps {
		l := Len(p)
		d := Sub2(t.args[1], off)
		if t.op == ONth {
			if p.op == OUnit {
				fs = append(fs, Implies(Eq(d, I(0)), Eq(t, p.args[0])))
			} else if in := And(Ge0(d), Lt(d, l)); in != False {
				fs = append(fs, Implies(in, Eq(t, Nth(p, d))))
			}
		} else {
			if d == I(0) {
				n := I(0)
				for j := i; j < len(ps) && j < i+4; j++ {
					n = Add(n, Len(ps[j]))
					fs = append(fs, Implies(Eq(t.args[2], n), Eq(t, Concat(ps[i:j+1]...))))
				}
			}
			if in := And(Ge0(d), Ge0(t.args[2]), Le(Add(d, t.args[2]), l)); in != False && p.op != OUnit {
				fs = append(fs, Implies(in, Eq(t, Sub(p, d, t.args[2]))))
			}
		}
		off = Add(off, l)
	}
	return
}

// prefixOf(a, b): a is a prefix of b
func prefixOf(a, b *Term) *Term {
	if a.op == OSub && a.args[1].isInt() && a.args[1].k.Sign() == 0 {
		// whatever starts with s also starts with every prefix of s
		if p := prefixOf(a.args[0], b); p == True {
			return True
		} else if p != False {
			return Or(p, And(Le(Len(a), Len(b)), Eq(a, tt.mkSub(b, I(0), Len(a)))))
		}
	}
	if p := pieces(a); len(p) > 0 {
		if b.op == OVar || b.op == OSub && b.args[0].op == OVar {
			cs := []*Term{Le(Len(a), Len(b))}
			off := I(0)
			for _, x := range p {
				l := Len(x)
				if x.op == OUnit {
					cs = append(cs, Eq(Nth(b, off), x.args[0]))
				} else {
					cs = append(cs, Eq(Sub(b, off, l), x))
				}
				off = Add(off, l)
			}
			return And(cs...)
		}
		q := pieces(b)
		n := 0
		for n < len(p) && n < len(q) && p[n] == q[n] {
			n++
		}
		if n == len(p) {
			return True
		}
		var cs []*Term
		for n < len(p) && n < len(q) && p[n].op == OUnit && q[n].op == OUnit {
			cs = append(cs, Eq(p[n].args[0], q[n].args[0]))
			n++
		}
		if n > 0 {
			return And(append(cs, prefixOf(Concat(p[n:]...), Concat(q[n:]...)))...)
		}
	} else {
		return True
	}
	return And(Le(Len(a), Len(b)), Eq(a, tt.mkSub(b, I(0), Len(a))))
}

// mkSub is Sub, usable where the range is only known under a guard.
func (t *termTable) mkSub(s, o, n *Term) *Term { return Sub(s, o, n) }

// Query is a set of assumptions; it is unsatisfiable iff the goal is proved.
type Query struct {
	asserts []*Term
	rounds  int
	abs     bool // sequences are abstracted to uninterpreted functions
}

// seqEqFacts are consequences of an equality of sequences.
func seqEqFacts(e *Term) []*Term {
	x, y := e.args[0], e.args[1]
	fs := []*Term{Implies(e, Eq(Len(x), Len(y)))}
	if x.op == OConcat && y.op != OConcat {
		x, y = y, x
	}
	ps := pieces(y)
	if len(ps) < 2 && (len(ps) == 0 || ps[0].op != OUnit) || len(ps) > 12 || x.op == OIte {
		return fs
	}
	off := I(0)
	ln := Len(x)
	for _, p := range ps {
		l := Len(p)
		if p.op == OUnit {
			fs = append(fs, Implies(e, Eq(Nth(x, off), p.args[0])))
		} else if x.op != OConcat {
			// where the piece ends with the sequence, name its length the same way
			n := l
			if Add(off, l) == Len(y) {
				n = Sub2(ln, off)
			}
			fs = append(fs, Implies(e, Eq(Sub(x, off, n), p)), Implies(e, Eq(Sub(x, off, l), p)))
		}
		off = Add(off, l)
	}
	return fs
}

func staticFact(t *Term) []*Term {
	var fs []*Term
	if t.sort != SInt {
		return nil
	}
	switch t.op {
	case OVar, OLen, ONth, OUF:
		if t.iv.lo != nil {
			fs = append(fs, tt.mk(OGe0, SBool, "", nil, nil, Sub2(t, IB(t.iv.lo))))
		}
		if t.iv.hi != nil && t.op != OLen {
			fs = append(fs, tt.mk(OGe0, SBool, "", nil, nil, Sub2(IB(t.iv.hi), t)))
		}
	}
	return fs
}

// build renders the query; assertions are added for static facts, definitions and lemmas.
func (q Query) build(declsOnly bool) (string, []*Term) {
	asserts := append([]*Term{}, q.asserts...)
	seen := map[*Term]bool{}
	var all []*Term
	collect := func(ts []*Term) (fresh []*Term) {
		Walk(ts, seen, func(t *Term) { fresh = append(fresh, t) })
		all = append(all, fresh...)
		return
	}
	work := collect(asserts)
	unf := map[*Term]bool{}
	rounds := q.rounds
	for r := 0; r < rounds; r++ {
		var add []*Term
		for _, t := range work {
			if t.op == OUF && len(t.args) > 0 && t.args[0].sort == SSeq && !unf[t] {
				if t.args[0].op == OVar && (t.name == "SUM" || t.name == "ESC") && r > 0 {
					continue
				}
				if t.args[0].op == OUF && t.args[0].name == "ESC" {
					continue // UE(ESC(x)): the lemma decides
				}
				unf[t] = true
				d := unfoldDef(t.name, t.args)
				if d == nil {
					continue
				}
				add = append(add, Implies(wf(t.args[0]), Eq(t, d)))
			}
		}
		if len(add) == 0 {
			break
		}
		asserts = append(asserts, add...)
		work = collect(add)
	}
	lf := lemmaFacts(all)
	asserts = append(asserts, lf...)
	collect(lf)
	var sf []*Term
	for _, t := range all {
		sf = append(sf, staticFact(t)...)
		if t.op == OZeros {
			sf = append(sf, Implies(Ge0(t.args[0]), Eq(tt.mk(OLen, SInt, "", nil, nil, t), t.args[0])))
		}
	}
	asserts = append(asserts, sf...)
	collect(sf)
	if q.abs {
		var ef []*Term
		for _, t := range all {
			ef = append(ef, concatFacts(t)...)
			if t.op == OEq && t.args[0].sort == SSeq {
				ef = append(ef, seqEqFacts(t)...)
			}
		}
		asserts = append(asserts, ef...)
		var sf []*Term
		for _, t := range collect(ef) {
			sf = append(sf, staticFact(t)...)
		}
		asserts = append(asserts, sf...)
		collect(sf)
	}

	// declarations and sharing
	refs := map[*Term]int{}
	for _, t := range all {
		for _, a := range t.args {
			refs[a]++
		}
	}
	for _, t := range asserts {
		refs[t]++
	}
	var sb strings.Builder
	if q.abs {
		sb.WriteString("(declare-sort Sq 0)\n(declare-fun sq.len (Sq) Int)\n(declare-fun sq.nth (Sq Int) Int)\n(declare-fun sq.unit (Int) Sq)\n(declare-fun sq.empty () Sq)\n(declare-fun sq.sub (Sq Int Int) Sq)\n(declare-fun sq.zeros (Int) Sq)\n(declare-fun sq.cat (Sq Sq) Sq)\n")
	}
	ufs := map[string]string{}
	vars := []*Term{}
	hasF := false
	for _, t := range all {
		if t.op == OVar {
			vars = append(vars, t)
		}
		if t.op == OUF {
			as := make([]string, len(t.args))
			for i, a := range t.args {
				as[i] = a.sort.abs(q.abs)
			}
			ufs[t.name] = fmt.Sprintf("(declare-fun |%s| (%s) %s)", t.name, strings.Join(as, " "), t.sort.abs(q.abs))
		}
		if t.op == OZeros {
			if !q.abs {
				ufs["ZEROS"] = "(declare-fun ZEROS (Int) (Seq Int))"
			}
		}
		if t.op == OFToI {
			hasF = true
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	for _, v := range vars {
		fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", v.name, v.sort.abs(q.abs))
	}
	var un []string
	for _, d := range ufs {
		un = append(un, d)
	}
	sort.Strings(un)
	for _, d := range un {
		sb.WriteString(d + "\n")
	}
	if hasF {
		sb.WriteString("(define-fun S2I ((x (_ BitVec 64))) Int (ite (bvslt x #x0000000000000000) (- (bv2nat x) 18446744073709551616) (bv2nat x)))\n")
	}
	names := map[*Term]string{}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, t := range all {
		if len(t.args) == 0 || refs[t] < 2 {
			continue
		}
		s := t.print(names, q.abs)
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort.abs(q.abs), s)
		names[t] = n
	}
	dedup := map[*Term]bool{}
	for _, t := range asserts {
		if t == True || dedup[t] {
			continue
		}
		dedup[t] = true
		fmt.Fprintf(&sb, "(assert %s)\n", t.print(names, q.abs))
	}
	return sb.String(), vars
}

// topological ids: args always have smaller ids than their parents, as terms are built bottom up.

// ---------- solver processes

type solverStats struct {
	sync.Mutex
	queries, cached int64
	nanos           int64
	by              map[string]int64
	tiers           map[string]int
}

var stats = &solverStats{by: map[string]int64{}, tiers: map[string]int{}}

func (s *solverStats) add(name string, d time.Duration) {
	s.Lock()
	s.by[name]++
	s.nanos += int64(d)
	s.Unlock()
}

type z3proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	busy atomic.Bool
}

// solvers raced on every quick query
var fastSolvers = []string{"z3", "z3-new"}

var z3pools = map[string]chan *z3proc{"z3": make(chan *z3proc, 64), "z3-new": make(chan *z3proc, 64)}

func startZ3(name string) (*z3proc, error) {
	c := exec.Command(name, "-in", "-memory:2048")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &z3proc{cmd: c, in: in, out: bufio.NewReader(out)}, nil
}

func (p *z3proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	go p.cmd.Wait()
}

// fastCheck runs a script on pooled solvers: "sat", "unsat" or "unknown".
func fastCheck(script string, ms int) (string, string) {
	type res struct {
		s, by string
	}
	ch := make(chan res, len(fastSolvers))
	var procs []*z3proc
	var mu sync.Mutex
	stop := false
	for _, name := range fastSolvers {
		var p *z3proc
		select {
		case p = <-z3pools[name]:
		default:
			var err error
			if p, err = startZ3(name); err != nil {
				ch <- res{"unknown", name}
				continue
			}
		}
		procs = append(procs, p)
		go func(p *z3proc, name string) {
			s, err := p.ask(script, ms)
			mu.Lock()
			dead := stop
			mu.Unlock()
			if err != nil || dead {
				p.kill()
			} else {
				select {
				case z3pools[name] <- p:
				default:
					p.kill()
				}
			}
			ch <- res{s, name}
		}(p, name)
	}
	ans := res{"unknown", "none"}
	for range fastSolvers {
		r := <-ch
		if r.s == "sat" || r.s == "unsat" {
			ans = r
			break
		}
	}
	// the slower ones are stopped
	mu.Lock()
	stop = true
	mu.Unlock()
	for _, p := range procs {
		if p.busy.Load() {
			p.cmd.Process.Kill()
		}
	}
	return ans.s, ans.by
}

// ask runs one script on a solver process.
func (p *z3proc) ask(script string, ms int) (string, error) {
	p.busy.Store(true)
	defer p.busy.Store(false)
	t0 := time.Now()
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond+2*time.Second, func() { p.cmd.Process.Kill() })
	defer timer.Stop()
	_, err := io.WriteString(p.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", ms)+script+"(check-sat)\n(echo \"--done\")\n")
	if err != nil {
		return "unknown", err
	}
	ans := ""
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return "unknown", err
		}
		l = strings.TrimSpace(l)
		if l == "--done" || l == "\"--done\"" {
			break
		}
		if ans == "" {
			ans = l
		} else if strings.HasPrefix(l, "(error") {
			ans = l
		}
	}
	stats.add(filepath.Base(p.cmd.Path), time.Since(t0))
	if strings.HasPrefix(ans, "(error") {
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", ans)
			os.WriteFile("/tmp/gover-err.smt2", []byte(script+"(check-sat)\n"), 0o644)
		}
		return "unknown", nil
	}
	return ans, nil
}

func oneShot(ctx context.Context, solver string, script string, sec int) string {
	var c *exec.Cmd
	switch solver {
	case "cvc5":
		c = exec.CommandContext(ctx, "cvc5", "--strings-exp", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000))
	default:
		c = exec.CommandContext(ctx, solver, "-in", "-memory:3000", fmt.Sprintf("-T:%d", sec))
	}
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + script + "(check-sat)\n")
	t0 := time.Now()
	out, _ := c.Output()
	stats.add(solver, time.Since(t0))
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if s == "sat" || s == "unsat" {
		return s
	}
	return "unknown"
}

var (
	cacheMu  sync.Mutex
	satCache = map[[32]byte]string{}
	slots    = make(chan struct{}, 6)
	queryN   int64
	cvcFirst = os.Getenv("GOVER_CROSS") != ""
)

// checkSat decides satisfiability of the assertions, escalating through the portfolio.
func checkSat(asserts []*Term, rounds int, quickMs int, slowSec int) (string, string) {
	for _, a := range asserts {
		if a == False {
			return "unsat", "simplifier"
		}
	}
	return checkScript(Query{asserts: asserts, rounds: rounds}, quickMs, slowSec)
}

// checkAbs decides satisfiability with sequences abstracted to uninterpreted functions.
func checkAbs(asserts []*Term, ms int) (string, string) {
	asserts, _ = solveEqs(asserts, True)
	for _, a := range asserts {
		if a == False {
			return "unsat", "simplifier"
		}
	}
	return checkScript(Query{asserts, unfoldRounds, true}, ms, 0)
}

func checkScript(q Query, quickMs int, slowSec int) (string, string) {
	if pastStop() {
		return "unknown", "out of time"
	}
	script, _ := q.build(false)
	key := sha256.Sum256([]byte(script))
	cacheMu.Lock()
	if r, ok := satCache[key]; ok && (r != "unknown" || slowSec == 0) {
		cacheMu.Unlock()
		return r, "cache"
	}
	cacheMu.Unlock()
	slots <- struct{}{}
	defer func() { <-slots }()
	n := atomic.AddInt64(&queryN, 1)
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("q%05d.smt2", n)), []byte("(set-logic ALL)\n"+script+"(check-sat)\n"), 0o644)
	}
	t0 := time.Now()
	r, by := fastCheck(script, quickMs)
	if profLog != "" {
		noteQuery(r, time.Since(t0), len(script), n)
	}
	if r != "sat" && r != "unsat" && slowSec > 0 && atomic.LoadInt64(&slowLeft) > 0 {
		r = "unknown"
		s0 := time.Now()
		ctx, cancel := context.WithCancel(context.Background())
		type rr struct{ s, by string }
		ch := make(chan rr, 3)
		for _, s := range []string{"cvc5", "z3", "z3-new"} {
			go func(s string) { ch <- rr{oneShot(ctx, s, script, slowSec), s} }(s)
		}
		for i := 0; i < 3; i++ {
			x := <-ch
			if x.s != "unknown" {
				r, by = x.s, x.by
				break
			}
		}
		cancel()
		atomic.AddInt64(&slowLeft, -int64(time.Since(s0)))
	}
	if r != "sat" && r != "unsat" {
		r = "unknown"
	}
	cacheMu.Lock()
	satCache[key] = r
	cacheMu.Unlock()
	return r, by
}

// prove decides whether goal follows from the assumptions.
func prove(assumps []*Term, goal *Term, slow int) (Result, string) {
	if goal == True {
		return Valid, "simplifier"
	}
	if goal.op == OAnd {
		by := "simplifier"
		for _, g := range goal.args {
			r, b := prove(assumps, g, slow)
			if r != Valid {
				return r, b
			}
			if b != "simplifier" {
				by = b
			}
		}
		return Valid, by
	}
	rel, goal := solveEqs(relevant(assumps, goal), goal)
	if goal == True {
		return Valid, "simplifier"
	}
	as := append(rel[:len(rel):len(rel)], Not(goal))
	for _, a := range as {
		if a == False {
			return Valid, "simplifier"
		}
	}
	if s, by := checkAbs(as, 1000); s == "unsat" {
		tier("abs")
		return Valid, by
	}
	// first without the assumptions about other specification functions
	if foc := focused(rel, goal); len(foc) < len(rel) {
		if s, by := checkSat(append(foc, Not(goal)), unfoldRounds, 700, 0); s == "unsat" {
			tier("focused")
			return Valid, by
		}
	}
	if r, by, ok := enumerate(as); ok {
		return r, by
	}
	quick := 2500
	if slow == 0 {
		quick = 700
	}
	s, by := checkSat(as, unfoldRounds, quick, 0)
	if s == "unsat" {
		tier("seq")
		return Valid, by
	}
	if s == "sat" {
		// more unfolding may be needed
		s2, by2 := checkSat(as, unfoldRounds+2, quick, slow)
		if s2 == "unsat" {
			tier("seq+2")
			return Valid, by2
		}
		if s2 == "sat" {
			return Invalid, by2
		}
		return Unknown, by2
	}
	if slow > 0 {
		s, by = checkSat(as, unfoldRounds, quick, slow)
		if s == "unsat" {
			tier("slow")
			return Valid, by
		}
		if s == "sat" {
			return Invalid, by
		}
	}
	return Unknown, by
}

var (
	fnMu   sync.Mutex
	fnMemo = map[*Term]uint8{}
)

// specFns is the set of specification functions a term mentions.
func specFns(t *Term) uint8 {
	fnMu.Lock()
	defer fnMu.Unlock()
	var f func(t *Term) uint8
	f = func(t *Term) uint8 {
		if len(t.args) == 0 {
			return 0
		}
		if m, ok := fnMemo[t]; ok {
			return m
		}
		var m uint8
		if t.op == OUF {
			switch t.name {
			case "SUM":
				m = 1
			case "ESC":
				m = 2
			case "UE":
				m = 4
			case "FC":
				m = 8
			case "SZ":
				m = 16
			}
		}
		for _, a := range t.args {
			m |= f(a)
		}
		fnMemo[t] = m
		return m
	}
	return f(t)
}

// focused drops assumptions about specification functions the goal does not mention.
func focused(as []*Term, goal *Term) []*Term {
	g := specFns(goal)
	var out []*Term
	for _, a := range as {
		if specFns(a)&^g == 0 {
			out = append(out, a)
		}
	}
	return out
}

// relevant keeps the assumptions connected to the goal by shared variables.
func relevant(as []*Term, goal *Term) []*Term {
	vars := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		Walk([]*Term{t}, map[*Term]bool{}, func(x *Term) {
			if x.op == OVar || x.op == OUF && len(x.args) == 0 {
				m[x] = true
			}
		})
		return m
	}
	cur := vars(goal)
	used := make([]bool, len(as))
	vs := make([]map[*Term]bool, len(as))
	for i, a := range as {
		vs[i] = vars(a)
	}
	for ch := true; ch; {
		ch = false
		for i := range as {
			if used[i] {
				continue
			}
			hit := len(vs[i]) == 0
			for v := range vs[i] {
				if cur[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for v := range vs[i] {
					cur[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

// enumerate decides queries over one small-range integer variable that involve
// floats, by evaluating every value (complete, as the range is finite).
func enumerate(as []*Term) (Result, string, bool) {
	hasF := false
	vars := map[*Term]bool{}
	other := false
	Walk(as, map[*Term]bool{}, func(t *Term) {
		switch t.op {
		case OFFromI, OFToI, OFOp, OFFromF:
			hasF = true
		case OVar, ONth:
			if t.sort == SInt {
				vars[t] = true
			}
			if t.op == OVar && t.sort != SInt && t.sort != SSeq {
				other = true
			}
		}
	})
	// drop variables only used inside element indices
	if !hasF || other {
		return Unknown, "", false
	}
	var vs []*Term
	fv := map[*Term]bool{}
	for _, a := range as {
		f := false
		Walk([]*Term{a}, map[*Term]bool{}, func(t *Term) {
			if t.op == OFFromI || t.op == OFOp {
				f = true
			}
		})
		if f {
			Walk([]*Term{a}, map[*Term]bool{}, func(t *Term) {
				if vars[t] {
					fv[t] = true
				}
			})
		}
	}
	for v := range fv {
		if v.op == ONth {
			delete(fv, v.args[1])
		}
	}
	for v := range fv {
		if v.iv.lo == nil || v.iv.hi == nil || new(big.Int).Sub(v.iv.hi, v.iv.lo).Cmp(big64(255)) > 0 {
			return Unknown, "", false
		}
		vs = append(vs, v)
	}
	if len(vs) != 1 {
		return Unknown, "", false
	}
	v := vs[0]
	for k := new(big.Int).Set(v.iv.lo); k.Cmp(v.iv.hi) <= 0; k = new(big.Int).Add(k, bigOne) {
		m := map[*Term]*Term{v: IB(k)}
		dead := false
		var rest []*Term
		for _, a := range as {
			x := Subst(a, m)
			if x == False {
				dead = true
				break
			}
			if x != True {
				rest = append(rest, x)
			}
		}
		if dead {
			continue
		}
		s, _ := checkSat(rest, unfoldRounds, 2000, 5)
		if s == "unsat" {
			continue
		}
		if s == "sat" {
			return Invalid, "enumeration", true
		}
		return Unknown, "enumeration", true
	}
	return Valid, "enumeration", true
}

var profLog = os.Getenv("GOVER_PROF")

func noteQuery(r string, d time.Duration, size int, n int64) {
	pc := make([]uintptr, 12)
	k := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:k])
	var names []string
	for {
		f, more := fr.Next()
		i := strings.LastIndex(f.Function, ".")
		nm := f.Function[i+1:]
		if len(names) < 7 {
			names = append(names, fmt.Sprintf("%s:%d", nm, f.Line))
		}
		if !more {
			break
		}
	}
	cacheMu.Lock()
	defer cacheMu.Unlock()
	f, _ := os.OpenFile(profLog, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	fmt.Fprintf(f, "%d %s %d %d %s\n", d.Milliseconds(), r, size, n, strings.Join(names, "<"))
	f.Close()
}

// tier counts which stage decided (development).
func tier(n string) {
	stats.Lock()
	stats.tiers[n]++
	stats.Unlock()
}
