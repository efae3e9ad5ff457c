package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// abortTrial ends an attempt to unroll a loop whose bound is not constant.
type abortTrial struct{ l *loop }

// watch collects what the body of a loop reads and compares.
type watch struct {
	slices []SliceV
	strs   []*Term
	limits []*Term
}

func (x *Exec) seeSlice(v Value) {
	for _, w := range x.watches {
		switch s := v.(type) {
		case SliceV:
			w.slices = append(w.slices, s)
		case *Term:
			if s.sort == SSeq {
				w.strs = append(w.strs, s)
			}
		}
	}
}

func (x *Exec) seeLimit(ts ...*Term) {
	for _, w := range x.watches {
		for _, t := range ts {
			if t.sort == SInt {
				w.limits = append(w.limits, t)
			}
		}
	}
}

// enterLoop executes a loop from its header; the thread's phis hold the entry values.
// It returns the threads that left the loop (positioned at their exit block) and the
// outcomes of returns inside the loop.
func (x *Exec) enterLoop(th *Thread, l *loop, stop func(*Thread) bool) ([]*Thread, []Outcome) {
	ex, outs := x.enterLoop1(th, l)
	// an exit may enter a following loop
	var res []*Thread
	for _, e := range ex {
		if stop != nil && stop(e) {
			res = append(res, e)
			continue
		}
		if l2 := e.fr.loops.header[e.fr.block]; l2 != nil && l2 != l && !l2.blocks[l.header] {
			a, o := x.enterLoop(e, l2, stop)
			res, outs = append(res, a...), append(outs, o...)
			continue
		}
		res = append(res, e)
	}
	return res, outs
}

func (x *Exec) enterLoop1(th *Thread, l *loop) ([]*Thread, []Outcome) {
	if ex, outs, ok := x.unroll(th, l); ok {
		return ex, outs
	}
	return x.invariantLoop(th, l)
}

func cloneThread(t *Thread) *Thread { return &Thread{t.st.fork(), t.fr.fork()} }

// unroll executes a loop whose exit test is decided in every iteration.
func (x *Exec) unroll(th *Thread, l *loop) (exits []*Thread, outs []Outcome, ok bool) {
	if _, isIf := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !isIf {
		return nil, nil, false
	}
	if x.noUnroll[l.header] {
		return nil, nil, false
	}
	nobl := len(x.obls)
	stack := len(x.callstack)
	il := x.inLoop
	watches := x.watches
	defer func() {
		if r := recover(); r != nil {
			if a, is := r.(abortTrial); is && a.l == l {
				x.obls = x.obls[:nobl]
				x.callstack = x.callstack[:stack]
				x.trial = x.trial[:len(x.trial)-1]
				x.inLoop = il
				x.watches = watches
				exits, outs, ok = nil, nil, false
				x.noUnroll[l.header] = true
				return
			}
			panic(r)
		}
	}()
	x.trial = append(x.trial, l)
	cur := []*Thread{cloneThread(th)}
	for n := 0; len(cur) > 0; n++ {
		if n > 40 || len(cur) > 64 {
			panic(abortTrial{l})
		}
		at, o := x.run(cur, func(t *Thread) bool { return t.fr.block == l.header || !l.blocks[t.fr.block] })
		outs = append(outs, o...)
		cur = nil
		for _, t := range at {
			if t.fr.block == l.header {
				cur = append(cur, t)
			} else {
				exits = append(exits, t)
			}
		}
	}
	x.trial = x.trial[:len(x.trial)-1]
	return exits, outs, true
}

// ---------- invariants

type candidate struct {
	name string
	f    func(t *Thread) *Term // nil: undefined here
}

type havocSet struct {
	phis  map[*ssa.Phi]bool
	heap  map[int]bool
	ghost map[string]bool
	regs  map[ssa.Value]bool
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// sameVal: the two values are certainly the same
func (x *Exec) sameVal(a, b Value) bool {
	defer func() { recover() }()
	if e, ok := a.(*Event); ok {
		f, ok := b.(*Event)
		return ok && e == f
	}
	if s, ok := a.(*ScanV); ok {
		f, ok := b.(*ScanV)
		return ok && s == f
	}
	if s, ok := a.(LockSet); ok {
		f, ok := b.(LockSet)
		return ok && s == f
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	e := x.valueEq(a, b)
	return e == True
}

// havocVal is an arbitrary value of the same shape.
func (x *Exec) havocVal(v Value, name string, st *State, typ types.Type) Value {
	switch c := v.(type) {
	case *Term:
		if c.sort == SInt {
			var lo, hi *big.Int
			if typ != nil {
				if b, ok := typ.Underlying().(*types.Basic); ok {
					lo, hi, _ = intRange(b)
				}
			}
			return FreshR(name, lo, hi)
		}
		f := Fresh(name, c.sort)
		if c.sort == SSeq && typ != nil {
			if a, ok := typ.Underlying().(*types.Array); ok && a.Len() >= 0 {
				st.assume(Eq(Len(f), I(a.Len())))
			}
		}
		return f
	case StructV:
		n := StructV{make([]Value, len(c.f))}
		s, _ := structOf(typ)
		for i := range c.f {
			var ft types.Type
			fn := fmt.Sprint(i)
			if s != nil {
				ft, fn = s.Field(i).Type(), s.Field(i).Name()
				if isMutex(ft) {
					n.f[i] = c.f[i]
					continue
				}
			}
			n.f[i] = x.havocVal(c.f[i], name+"."+fn, st, ft)
		}
		return n
	case ArrayV:
		n := ArrayV{make([]Value, len(c.e))}
		for i := range c.e {
			n.e[i] = x.havocVal(c.e[i], fmt.Sprintf("%s.%d", name, i), st, nil)
		}
		return n
	case IfaceV:
		return IfaceV{ref: FreshR(name, bigZero, nil)}
	case TupleV:
		return nil
	}
	if typ != nil {
		n := len(x.entryAssume)
		r := x.symValue(typ, name, true, 2)
		for _, a := range x.entryAssume[n:] {
			st.assume(a)
		}
		return r
	}
	return OpaqueV{ref: FreshR(name, bigZero, nil)}
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// havoc is an arbitrary state at the loop header.
func (x *Exec) havoc(th *Thread, l *loop, h *havocSet, backs []*Thread) *Thread {
	n := cloneThread(th)
	for _, id := range sortedInts(h.heap) {
		o := x.objs[id]
		v := x.content(n.st, id)
		if t, ok := v.(*Term); ok && t.sort == SSeq {
			// byte memory keeps its size
			f := Fresh(o.name+".m", SSeq)
			n.st.assume(Eq(Len(f), Len(t)))
			n.st.heap[id] = f
		} else {
			n.st.heap[id] = x.havocVal(v, o.name, n.st, o.typ)
		}
		n.st.written[id] = true
	}
	for _, k := range sortedKeys(h.ghost) {
		v := n.st.ghost[k]
		switch c := v.(type) {
		case *Term:
			f := Fresh("g."+k, c.sort)
			n.st.ghost[k] = f
		case nil:
			// first set inside the loop
			var like Value
			for _, b := range backs {
				if b.st.ghost[k] != nil {
					like = b.st.ghost[k]
				}
			}
			if t, ok := like.(*Term); ok {
				n.st.ghost[k] = Fresh("g."+k, t.sort)
			} else if like != nil {
				n.st.ghost[k] = nil
				delete(n.st.ghost, k)
				n.st.ghost["lost:"+k] = True
			}
		default:
			delete(n.st.ghost, k)
			n.st.ghost["lost:"+k] = True
		}
	}
	for _, p := range phisOf(l.header) {
		if !h.phis[p] {
			continue
		}
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		switch c := th.fr.regs[p].(type) {
		case SliceV:
			if !isByte(p.Type().Underlying().(*types.Slice).Elem()) {
				x.give_up("a loop that changes a slice of references")
			}
			same := c.obj != 0
			for _, b := range backs {
				if s, ok := b.fr.regs[p].(SliceV); !ok || s.obj != c.obj {
					same = false
				}
			}
			if same {
				ct := x.content(n.st, c.obj).(*Term)
				s := SliceV{c.obj, FreshR(name+".off", bigZero, nil), FreshR(name+".len", bigZero, nil), FreshR(name+".cap", bigZero, nil), c.isnil}
				n.st.assume(Le(s.len, s.cap))
				n.st.assume(Le(Add(s.off, s.cap), Len(ct)))
				if c.isnil != False {
					s.isnil = Fresh(name+".nil", SBool)
					n.st.assume(Implies(s.isnil, Eq(s.cap, I(0))))
				}
				n.fr.regs[p] = s
				continue
			}
			o := x.newObj(name, types.NewArray(types.Typ[types.Uint8], -1), true)
			d := Fresh(name, SSeq)
			sp := Fresh(name+".spare", SSeq)
			n.st.heap[o.id] = Concat(d, sp)
			isnil := False
			if c.isnil != False {
				isnil = Fresh(name+".nil", SBool)
				n.st.assume(Implies(isnil, And(Eq(Len(d), I(0)), Eq(Len(sp), I(0)))))
			}
			for _, b := range backs {
				if s, ok := b.fr.regs[p].(SliceV); ok && s.isnil != False && isnil == False {
					isnil = Fresh(name+".nil", SBool)
					n.st.assume(Implies(isnil, And(Eq(Len(d), I(0)), Eq(Len(sp), I(0)))))
				}
			}
			if c.obj != 0 {
				n.st.moved[c.obj] = true
				o.movedFrom = c.obj
			}
			n.fr.regs[p] = SliceV{o.id, I(0), Len(d), Add(Len(d), Len(sp)), isnil}
		case *Term:
			n.fr.regs[p] = x.havocVal(c, name, n.st, p.Type())
		case IfaceV, StructV:
			n.fr.regs[p] = x.havocVal(c, name, n.st, p.Type())
		default:
			x.give_up("a loop that changes a %T (%s)", c, name)
		}
	}
	return n
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Ints(r)
	return r
}

// iterate runs the body once from a header state.
func (x *Exec) iterate(h *Thread, l *loop) (backs, exits []*Thread, outs []Outcome) {
	at, outs := x.run([]*Thread{cloneThread(h)}, func(t *Thread) bool { return t.fr.block == l.header || !l.blocks[t.fr.block] })
	for _, t := range at {
		if t.fr.block == l.header {
			backs = append(backs, t)
		} else {
			exits = append(exits, t)
		}
	}
	return
}

// muted runs f without recording obligations.
func (x *Exec) muted(f func()) {
	n := len(x.obls)
	x.mute++
	f()
	x.mute--
	x.obls = x.obls[:n]
}

// modified compares the header state with the states at the back edges.
func (x *Exec) modified(h *Thread, l *loop, backs []*Thread, hs *havocSet) bool {
	ch := false
	for _, b := range backs {
		for _, p := range phisOf(l.header) {
			if !hs.phis[p] && !x.sameVal(h.fr.regs[p], b.fr.regs[p]) {
				hs.phis[p] = true
				ch = true
			}
		}
		for id, v := range b.st.heap {
			o := x.objs[id]
			if _, known := h.st.heap[id]; !known && o.fresh {
				continue // allocated in this iteration
			}
			if hs.heap[id] {
				continue
			}
			if !x.sameVal(x.content(h.st, id), v) {
				hs.heap[id] = true
				ch = true
			}
		}
		keys := map[string]bool{}
		for k := range b.st.ghost {
			keys[k] = true
		}
		for k := range h.st.ghost {
			keys[k] = true
		}
		for k := range keys {
			if hs.ghost[k] || strings.HasPrefix(k, "lost:") {
				continue
			}
			if !x.sameVal(h.st.ghost[k], b.st.ghost[k]) {
				hs.ghost[k] = true
				ch = true
			}
		}
	}
	return ch
}

// owned reports whether nothing else refers to the memory of a slice carried around the loop.
func (x *Exec) owned(b *Thread, l *loop, p *ssa.Phi, obj int) bool {
	if obj == 0 {
		return true
	}
	if !x.objs[obj].fresh {
		return false
	}
	refs := 0
	var walk func(v Value)
	walk = func(v Value) {
		switch c := v.(type) {
		case PtrV:
			if c.obj == obj {
				refs++
			}
		case SliceV:
			if c.obj == obj {
				refs++
			}
		case StructV:
			for _, f := range c.f {
				walk(f)
			}
		case ArrayV:
			for _, f := range c.e {
				walk(f)
			}
		case IfaceV:
			if c.typ != nil {
				walk(c.val)
			}
		case FuncV:
			for _, f := range c.bind {
				walk(f)
			}
		case MapContent:
			for _, f := range c.vals {
				walk(f)
			}
		}
	}
	for _, q := range phisOf(l.header) {
		if q != p {
			walk(b.fr.regs[q])
		}
	}
	for r, v := range b.fr.regs {
		if i, ok := r.(ssa.Instruction); ok && l.blocks[i.Block()] {
			continue
		}
		walk(v)
	}
	for _, v := range b.st.heap {
		walk(v)
	}
	return refs == 0
}

func (x *Exec) invariantLoop(th *Thread, l *loop) ([]*Thread, []Outcome) {
	name := fmt.Sprintf("loop at %s", x.where(th.fr, l.header.Instrs[len(phisOf(l.header))].Pos()))
	for _, i := range l.header.Instrs {
		if i.Pos().IsValid() {
			name = fmt.Sprintf("loop at %s", x.where(th.fr, i.Pos()))
			break
		}
	}
	if x.refute > 0 {
		return x.boundedLoop(th, l)
	}
	x.loopStat["invariant loops"]++
	// what the loop changes
	hs := &havocSet{map[*ssa.Phi]bool{}, map[int]bool{}, map[string]bool{}, nil}
	w := &watch{}
	var head *Thread
	var mark int64
	x.muted(func() {
		x.watches = append(x.watches, w)
		defer func() { x.watches = x.watches[:len(x.watches)-1] }()
		backs, _, _ := x.iterate(th, l)
		x.modified(th, l, backs, hs)
		for n := 0; ; n++ {
			if n > 6 {
				x.give_up("%s: no fixpoint of modified variables", name)
			}
			head = x.havoc(th, l, hs, backs)
			mark = atomic.LoadInt64(&freshN)
			w.slices, w.strs, w.limits = nil, nil, nil
			var nb []*Thread
			nb, _, _ = x.iterate(head, l)
			backs = append(backs, nb...)
			// shape of slices carried around the loop
			redo := false
			for _, p := range phisOf(l.header) {
				if !hs.phis[p] {
					continue
				}
				hv, ok := head.fr.regs[p].(SliceV)
				if !ok {
					continue
				}
				e := th.fr.regs[p].(SliceV)
				for _, b := range nb {
					s := b.fr.regs[p].(SliceV)
					if hv.obj == e.obj && s.obj != hv.obj {
						redo = true
					}
				}
			}
			if !x.modified(head, l, nb, hs) && !redo {
				break
			}
		}
	})
	for _, p := range phisOf(l.header) {
		if hs.phis[p] {
			if hv, ok := head.fr.regs[p].(SliceV); ok && hv.obj != th.fr.regs[p].(SliceV).obj {
				x.loopNotes = append(x.loopNotes, fmt.Sprintf("%s: %s carries owned memory", name, p.Comment))
			}
		}
	}
	cands := x.candidates(th, head, l, hs, w, mark)
	if keep, ok := x.loopMemo[l.header]; ok && !x.noMemo {
		var cs []candidate
		for _, c := range cands {
			if keep[c.name] {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	// entry
	base := append(th.st.pc[:len(th.st.pc):len(th.st.pc)], x.entryAssume...)
	cands = x.filter(cands, func(c candidate) bool {
		g := c.f(th)
		if g == nil {
			return false
		}
		g = th.st.simp(g)
		if g == True {
			return true
		}
		if g == False {
			return false
		}
		r, _ := prove(base, g, 0)
		return r == Valid
	})
	debug := os.Getenv("GOVER_LOOPS") != ""
	if debug {
		fmt.Fprintf(os.Stderr, "%s: havoc phis %d heap %v ghost %v; %d candidates hold on entry\n", name, len(hs.phis), sortedInts(hs.heap), sortedKeys(hs.ghost), len(cands))
	}
	if os.Getenv("GOVER_LOOPS") == "all" {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   cand %s\n", c.name)
		}
	}
	// preservation
	for round := 0; ; round++ {
		hd := cloneThread(head)
		for _, c := range cands {
			if g := c.f(hd); g != nil {
				hd.st.assume(g)
			}
		}
		var backs []*Thread
		x.muted(func() { backs, _, _ = x.iterate(hd, l) })
		kept := x.filter(cands, func(c candidate) bool {
			for _, b := range backs {
				g := c.f(b)
				if g == nil {
					return false
				}
				g = b.st.simp(g)
				if g == True {
					continue
				}
				if g == False {
					return false
				}
				ms := 0
				r, _ := prove(append(b.st.pc[:len(b.st.pc):len(b.st.pc)], x.entryAssume...), g, ms)
				if r != Valid {
					if d := os.Getenv("GOVER_CAND"); d != "" && strings.Contains(c.name, d) {
						sc, _ := Query{asserts: append(focused(append(append([]*Term{}, b.st.pc...), x.entryAssume...), g), Not(g)), rounds: unfoldRounds}.build(false)
						os.WriteFile(fmt.Sprintf("/tmp/cand%d.smt2", atomic.AddInt64(&queryN, 1)), []byte("(set-logic ALL)\n; "+c.name+" "+name+" "+r.String()+"\n"+sc+"(check-sat)\n"), 0o644)
					}
					return false
				}
			}
			return true
		})
		done := len(kept) == len(cands)
		cands = kept
		if done {
			break
		}
	}
	if debug {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   inv %s\n", c.name)
		}
	}
	keep := map[string]bool{}
	for _, c := range cands {
		keep[c.name] = true
	}
	if old, ok := x.loopMemo[l.header]; ok {
		for k := range old {
			keep[k] = true
		}
	}
	x.loopMemo[l.header] = keep
	for _, c := range cands {
		if g := c.f(head); g != nil {
			head.st.assume(g)
		}
	}
	if !x.feasible(head.st) {
		// The invariants hold on entry: the entry itself is unreachable.
		at := base
		for _, c := range cands {
			if g := c.f(th); g != nil {
				at = append(at, g)
			}
		}
		if r, _ := checkAbs(at, 2000); r == "unsat" {
			return nil, nil
		}
		if r, _ := checkSat(at, unfoldRounds, 2500, 0); r == "unsat" {
			return nil, nil
		}
		x.give_up("%s: contradictory invariant", name)
	}
	if x.mute == 0 {
		for _, c := range cands {
			x.obls = append(x.obls, &Obligation{kind: "invariant", desc: name + ": " + c.name, fn: funcName(th.fr.fn), goal: True, res: Valid, by: "houdini"})
		}
	}
	x.inLoop++
	nob := len(x.obls)
	backs, exits, outs := x.iterate(head, l)
	x.inLoop--
	// memory shape at the back edges
	for _, p := range phisOf(l.header) {
		if !hs.phis[p] {
			continue
		}
		hv, ok := head.fr.regs[p].(SliceV)
		if !ok {
			continue
		}
		e := th.fr.regs[p].(SliceV)
		for _, b := range backs {
			s := b.fr.regs[p].(SliceV)
			if hv.obj == e.obj && hv.obj != 0 {
				if s.obj != hv.obj {
					x.give_up("%s: memory of %s changes", name, p.Comment)
				}
				continue
			}
			if s.obj != 0 && (s.off != I(0) || !x.owned(b, l, p, s.obj)) {
				// Only the bytes matter when the memory is not written through the slice
				x.give_up("%s: memory of %s is shared", name, p.Comment)
			}
		}
	}
	// termination
	x.terminates(name, th, head, l, hs, w, backs)
	x.onBackEdges(name, head, l, backs)
	_ = nob
	return exits, outs
}

// filter keeps the candidates for which ok holds, in parallel.
func (x *Exec) filter(cs []candidate, ok func(candidate) bool) []candidate {
	keep := make([]bool, len(cs))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var fail interface{}
	var mu sync.Mutex
	for i := range cs {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					fail = r
					mu.Unlock()
				}
			}()
			keep[i] = ok(cs[i])
		}(i)
	}
	wg.Wait()
	if fail != nil {
		panic(fail)
	}
	var r []candidate
	for i, k := range keep {
		if k {
			r = append(r, cs[i])
		}
	}
	return r
}

func intConst(t *Term) bool { return t.op == OInt }

// candidates builds the invariant candidates of a loop.
func (x *Exec) candidates(entry, head *Thread, l *loop, hs *havocSet, w *watch, mark int64) []candidate {
	var cs []candidate
	seen := map[string]bool{}
	add := func(name string, f func(t *Thread) *Term) {
		if !seen[name] {
			seen[name] = true
			cs = append(cs, candidate{name, f})
		}
	}
	// variables changed by the loop
	hvars := map[*Term]bool{}
	{
		ev := map[*Term]bool{}
		note := func(t *Thread, m map[*Term]bool) {
			var ts []*Term
			var walk func(v Value)
			walk = func(v Value) {
				switch c := v.(type) {
				case *Term:
					ts = append(ts, c)
				case SliceV:
					ts = append(ts, c.off, c.len, c.cap, c.isnil)
				case StructV:
					for _, f := range c.f {
						walk(f)
					}
				case ArrayV:
					for _, f := range c.e {
						walk(f)
					}
				case IfaceV:
					if c.ref != nil {
						ts = append(ts, c.ref)
					}
				}
			}
			for _, p := range phisOf(l.header) {
				walk(t.fr.regs[p])
			}
			for id := range t.st.heap {
				walk(t.st.heap[id])
			}
			for k := range t.st.ghost {
				walk(t.st.ghost[k])
			}
			Walk(ts, map[*Term]bool{}, func(s *Term) {
				if s.op == OVar {
					m[s] = true
				}
			})
		}
		for _, c := range entry.st.pc {
			Walk([]*Term{c}, map[*Term]bool{}, func(s *Term) {
				if s.op == OVar {
					ev[s] = true
				}
			})
		}
		note(entry, ev)
		note(head, hvars)
		for v := range ev {
			delete(hvars, v)
		}
	}
	invariant := func(ts ...*Term) bool {
		ok := true
		Walk(ts, map[*Term]bool{}, func(s *Term) {
			if s.op == OVar && hvars[s] {
				ok = false
			}
			if s.op == OVar && s.freshNo > mark {
				ok = false // made by the body
			}
		})
		return ok
	}
	// integer variables
	type ivar struct {
		name string
		get  func(t *Thread) *Term
		rng  bool
	}
	var ints []ivar
	var accs []ivar // byte sequences that grow
	for _, p := range phisOf(l.header) {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		if !hs.phis[p] {
			continue
		}
		switch v := head.fr.regs[p].(type) {
		case *Term:
			if v.sort == SInt {
				ints = append(ints, ivar{nm, func(t *Thread) *Term { return t.fr.regs[p].(*Term) }, nm == "rangeindex"})
			}
			if v.sort == SSeq {
				accs = append(accs, ivar{nm, func(t *Thread) *Term { return t.fr.regs[p].(*Term) }, false})
			}
			add(nm+" does not change", func(t *Thread) *Term { return x.safeEq(t.fr.regs[p], entry.fr.regs[p]) })
		case SliceV:
			get := func(t *Thread) *Term { return x.seqOf(t.st, t.fr.regs[p].(SliceV)) }
			if v.obj == entry.fr.regs[p].(SliceV).obj {
				e := entry.fr.regs[p].(SliceV)
				add(nm+" keeps its end", func(t *Thread) *Term {
					s := t.fr.regs[p].(SliceV)
					return Eq(Add(s.off, s.len), Add(e.off, e.len))
				})
				add(nm+" keeps its capacity end", func(t *Thread) *Term {
					s := t.fr.regs[p].(SliceV)
					return Eq(Add(s.off, s.cap), Add(e.off, e.cap))
				})
				add(nm+" moves forward", func(t *Thread) *Term { return Le(e.off, t.fr.regs[p].(SliceV).off) })
				add(nm+" keeps its start", func(t *Thread) *Term { return Eq(e.off, t.fr.regs[p].(SliceV).off) })
				add(nm+" stays within its length", func(t *Thread) *Term { return Le(t.fr.regs[p].(SliceV).len, e.len) })
			}
			accs = append(accs, ivar{nm, get, false})
		case IfaceV:
			add(nm+" does not change", func(t *Thread) *Term { return x.safeEq(t.fr.regs[p], entry.fr.regs[p]) })
		}
	}
	for _, k := range sortedKeys(hs.ghost) {
		k := k
		switch v := head.st.ghost[k].(type) {
		case *Term:
			switch v.sort {
			case SInt:
				ints = append(ints, ivar{"ghost " + k, func(t *Thread) *Term { return ghostInt(t.st, k) }, false})
			case SSeq:
				accs = append(accs, ivar{"ghost " + k, func(t *Thread) *Term { return ghostSeq(t.st, k) }, false})
			case SBool:
				add("ghost "+k+" does not change", func(t *Thread) *Term { return x.safeEq(ghostBool(t.st, k), ghostBool(entry.st, k)) })
			}
		}
	}
	var bufs []ivar
	for _, id := range sortedInts(hs.heap) {
		id := id
		o := x.objs[id]
		h := x.content(head.st, id)
		var walk func(nm string, path []Sel, v Value)
		walk = func(nm string, path []Sel, v Value) {
			get := func(t *Thread) Value {
				c := x.content(t.st, id)
				for _, s := range path {
					sv, ok := c.(StructV)
					if !ok {
						return nil
					}
					c = sv.f[s.field]
				}
				return c
			}
			switch c := v.(type) {
			case *Term:
				add(nm+" does not change", func(t *Thread) *Term { return x.safeEq(get(t), get(entry)) })
				switch c.sort {
				case SInt:
					ints = append(ints, ivar{nm, func(t *Thread) *Term { return get(t).(*Term) }, false})
				case SSeq:
					bufs = append(bufs, ivar{nm, func(t *Thread) *Term { return get(t).(*Term) }, false})
				}
			case StructV:
				for i, f := range c.f {
					walk(fmt.Sprintf("%s.%d", nm, i), append(path[:len(path):len(path)], Sel{field: i}), f)
				}
			case SliceV:
				// a slice variable captured by a closure: only its length is tracked
				get2 := func(t *Thread) *Term {
					s, ok := get(t).(SliceV)
					if !ok {
						return Empty
					}
					return x.seqOf(t.st, s)
				}
				accs = append(accs, ivar{nm, get2, false})
			default:
				add(nm+" does not change", func(t *Thread) *Term { return x.safeEq(get(t), get(entry)) })
			}
		}
		walk(o.name, nil, h)
	}
	// byte sequences the loop reads
	type source struct {
		name string
		get  func(t *Thread) *Term
		phi  bool
	}
	var srcs []source
	sseen := map[*Term]bool{}
	addSrc := func(s *Term) {
		if !sseen[s] && invariant(s) && !Len(s).isInt() {
			sseen[s] = true
			srcs = append(srcs, source{fmt.Sprintf("s%d", len(srcs)), func(*Thread) *Term { return s }, false})
		}
	}
	for _, s := range w.slices {
		if s.obj == 0 || hs.heap[s.obj] {
			continue
		}
		if _, ok := x.content(head.st, s.obj).(*Term); !ok {
			continue
		}
		if !invariant(s.off, s.len) {
			continue
		}
		if _, known := entry.st.heap[s.obj]; !known && x.objs[s.obj].fresh {
			continue
		}
		addSrc(x.seqOf(head.st, s))
	}
	for _, s := range w.strs {
		addSrc(s)
	}
	if len(srcs) > 3 {
		srcs = srcs[:3]
	}
	// whole sources: remove slices of other sources
	for _, p := range phisOf(l.header) {
		p := p
		if v, ok := head.fr.regs[p].(SliceV); ok && hs.phis[p] && v.obj == entry.fr.regs[p].(SliceV).obj && !hs.heap[v.obj] {
			srcs = append(srcs, source{"rest of " + p.Comment, func(t *Thread) *Term { return x.seqOf(t.st, t.fr.regs[p].(SliceV)) }, true})
		}
	}
	// integer limits
	var lims []*Term
	lseen := map[*Term]bool{}
	for _, t := range w.limits {
		if !lseen[t] && invariant(t) {
			lseen[t] = true
			lims = append(lims, t)
		}
	}
	if len(lims) > 6 {
		lims = lims[:6]
	}
	e0 := func(v ivar) *Term { return v.get(entry) }
	for _, v := range ints {
		v := v
		ev := e0(v)
		add(v.name+" does not change", func(t *Thread) *Term { return Eq(v.get(t), ev) })
		add(v.name+" does not decrease", func(t *Thread) *Term { return Le(ev, v.get(t)) })
		add(v.name+" does not increase", func(t *Thread) *Term { return Le(v.get(t), ev) })
		add(v.name+" >= 0", func(t *Thread) *Term { return Ge0(v.get(t)) })
		if entry.st.simp(Ge0(ev)) != True && !strings.HasPrefix(v.name, "ghost") {
			// counting down to zero
			add(v.name+" >= 0 or unchanged", func(t *Thread) *Term { return Or(Ge0(v.get(t)), Eq(v.get(t), ev)) })
		}
		if v.rng {
			add(v.name+" >= -1", func(t *Thread) *Term { return Ge0(Add(v.get(t), I(1))) })
		}
		if strings.HasPrefix(v.name, "ghost acq:") || strings.HasPrefix(v.name, "ghost last:") {
			continue
		}
		for i, k := range lims {
			k := k
			for _, d := range []int64{0, 1} {
				d := d
				add(fmt.Sprintf("%s+%d <= limit %d", v.name, d, i), func(t *Thread) *Term { return Le(Add(v.get(t), I(d)), k) })
			}
			add(fmt.Sprintf("%s >= limit %d", v.name, i), func(t *Thread) *Term { return Le(k, v.get(t)) })
			if !k.isInt() {
				// the last element counted: max(limit, 0)
				add(fmt.Sprintf("%s <= limit %d or 0", v.name, i), func(t *Thread) *Term { return Or(Le(v.get(t), k), Le(v.get(t), I(0))) })
			}
		}
		for _, s := range srcs {
			if s.phi {
				continue
			}
			s := s
			for _, d := range []int64{0, 1} {
				d := d
				add(fmt.Sprintf("%s+%d <= len(%s)", v.name, d, s.name), func(t *Thread) *Term { return Le(Add(v.get(t), I(d)), Len(s.get(t))) })
			}
		}
	}
	for i, a := range ints {
		for j, b := range ints {
			a, b := a, b
			local := func(n string) bool { return !strings.HasPrefix(n, "ghost") && !strings.Contains(n, ".") }
			if len(ints) > 12 && !local(a.name) && !local(b.name) {
				continue // too many counters and fields to relate every two of them
			}
			if i < j {
				ea, eb := e0(a), e0(b)
				add(fmt.Sprintf("%s - %s is constant", a.name, b.name), func(t *Thread) *Term { return Eq(Sub2(a.get(t), b.get(t)), Sub2(ea, eb)) })
				add(fmt.Sprintf("%s + %s is constant", a.name, b.name), func(t *Thread) *Term { return Eq(Add(a.get(t), b.get(t)), Add(ea, eb)) })
				if local(a.name) != local(b.name) {
					add(fmt.Sprintf("%s + %s does not increase", a.name, b.name), func(t *Thread) *Term { return Le(Add(a.get(t), b.get(t)), Add(ea, eb)) })
				}
			}
			if i != j && !strings.HasPrefix(a.name, "ghost") && !strings.HasPrefix(b.name, "ghost") {
				ea, eb := e0(a), e0(b)
				for _, k := range []int64{1, 2} {
					k := big64(k)
					add(fmt.Sprintf("%s + %s * %s does not increase", a.name, k, b.name), func(t *Thread) *Term {
						return Le(Add(a.get(t), Scale(b.get(t), k)), Add(ea, Scale(eb, k)))
					})
				}
				add(fmt.Sprintf("%s <= %s", a.name, b.name), func(t *Thread) *Term { return Le(a.get(t), b.get(t)) })
				add(fmt.Sprintf("%s <= %s + 1", a.name, b.name), func(t *Thread) *Term { return Le(a.get(t), Add(b.get(t), I(1))) })
				add(fmt.Sprintf("%s <= 2 * %s", a.name, b.name), func(t *Thread) *Term { return Le(a.get(t), Scale(b.get(t), big64(2))) })
				add(fmt.Sprintf("%s <= 2 * %s + 2", a.name, b.name), func(t *Thread) *Term { return Le(a.get(t), Add(Scale(b.get(t), big64(2)), I(2))) })
			}
		}
	}
	for _, a := range accs {
		a := a
		ea := e0(a)
		add("len("+a.name+") does not decrease", func(t *Thread) *Term { return Le(Len(ea), Len(a.get(t))) })
		add(a.name+" does not change", func(t *Thread) *Term { return Eq(a.get(t), ea) })
		for _, b := range ints {
			b := b
			if strings.HasPrefix(b.name, "ghost") {
				continue
			}
			add(fmt.Sprintf("len(%s) <= %s", a.name, b.name), func(t *Thread) *Term { return Le(Len(a.get(t)), b.get(t)) })
			add(fmt.Sprintf("len(%s) == %s", a.name, b.name), func(t *Thread) *Term { return Eq(Len(a.get(t)), b.get(t)) })
		}
	}
	// the part of a source not yet consumed: positions
	type rest struct {
		name   string
		ok     func(t *Thread) *Term // position within the source
		beyond func(t *Thread) *Term
		get    func(t *Thread) *Term
		pos    func(t *Thread) *Term
		iv     int // integer variable, -1 for slices
	}
	var rests []rest
	for _, s := range srcs {
		s := s
		if s.phi {
			rests = append(rests, rest{s.name, func(*Thread) *Term { return True }, func(*Thread) *Term { return False }, s.get, func(*Thread) *Term { return I(0) }, -1})
			continue
		}
		for vi, v := range ints {
			if strings.HasPrefix(v.name, "ghost") {
				continue
			}
			v := v
			for _, d := range []int64{0, 1} {
				if d == 0 && v.rng || d == 1 && !v.rng {
					continue
				}
				d := d
				pos := func(t *Thread) *Term { return Add(v.get(t), I(d)) }
				rests = append(rests, rest{fmt.Sprintf("%s[%s+%d:]", s.name, v.name, d),
					func(t *Thread) *Term { return And(Ge0(pos(t)), Le(pos(t), Len(s.get(t)))) },
					func(t *Thread) *Term { return Lt(Len(s.get(t)), pos(t)) },
					func(t *Thread) *Term { return Tail(s.get(t), pos(t)) }, pos, vi})
			}
		}
	}
	// equality of a quantity that consumes the rest, as two implications
	both := func(name string, r rest, eq func(t *Thread, rem *Term) (*Term, *Term)) {
		// entry value
		val := func(t *Thread) (*Term, *Term) { return eq(t, r.get(t)) }
		add(name, func(t *Thread) *Term {
			okE := entry.st.simp(r.ok(entry))
			var e1, e2 *Term
			if okE == True {
				e1, e2 = val(entry)
			} else {
				// undecided position on entry: only usable when provable
				e1, e2 = val(entry)
			}
			_ = e2
			g := t.st.simp(r.ok(t))
			a, z := val(t)
			_ = z
			if g == True {
				return Eq(a, e1)
			}
			if g == False {
				_, zz := eq(t, Empty)
				if zz == nil {
					return nil
				}
				return Eq(zz, e1)
			}
			_, zz := eq(t, Empty)
			if zz == nil {
				return And(g, Eq(a, e1))
			}
			return And(Implies(g, Eq(a, e1)), Or(g, r.beyond(t)), Implies(r.beyond(t), Eq(zz, e1)))
		})
	}
	for _, r := range rests {
		r := r
		for _, a := range accs {
			a := a
			for _, F := range []string{"", "ESC", "UE"} {
				F := F
				both(fmt.Sprintf("%s ++ %s(%s)", a.name, F, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
					v := rem
					if F != "" {
						v = UF(F, SSeq, rem)
					}
					return Concat(a.get(t), v), a.get(t)
				})
			}
		}
		for _, b := range bufs {
			b := b
			for _, c := range ints {
				c := c
				if strings.HasPrefix(c.name, "ghost") {
					continue
				}
				for _, F := range []string{"", "ESC", "UE"} {
					F := F
					for _, d := range []int64{0, 1} {
						if d == 1 && !c.rng || d == 0 && c.rng {
							continue
						}
						d := d
						both(fmt.Sprintf("%s[:%s+%d] ++ %s(%s)", b.name, c.name, d, F, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
							v := rem
							if F != "" {
								v = UF(F, SSeq, rem)
							}
							n := Add(c.get(t), I(d))
							if t.st.simp(And(Ge0(n), Le(n, Len(b.get(t))))) != True && t != entry {
								// bounds must follow from other invariants
								pre := Sub(b.get(t), I(0), n)
								return Concat(pre, v), pre
							}
							pre := Sub(b.get(t), I(0), n)
							return Concat(pre, v), pre
						})
					}
				}
			}
		}
		for ci, c := range ints {
			c := c
			if strings.HasPrefix(c.name, "ghost") {
				continue
			}
			both(fmt.Sprintf("%s + SUM(%s)", c.name, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
				return Add(c.get(t), UF("SUM", SInt, rem)), c.get(t)
			})
			both(fmt.Sprintf("%s + SUM(%s) mod 256", c.name, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
				return Mod(Add(c.get(t), UF("SUM", SInt, rem)), I(256)), Mod(c.get(t), I(256))
			})
			if r.iv == ci || r.iv == -1 {
				both(fmt.Sprintf("%s + FC(%s)", c.name, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
					return Add(c.get(t), UF("FC", SInt, rem)), c.get(t)
				})
			}
			if r.iv != ci {
				both(fmt.Sprintf("%s + |ESC(%s)| - |rest|", c.name, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
					return Sub2(Add(c.get(t), Len(UF("ESC", SSeq, rem))), Len(rem)), c.get(t)
				})
				both(fmt.Sprintf("%s + |ESC(%s)|", c.name, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
					return Add(c.get(t), Len(UF("ESC", SSeq, rem))), c.get(t)
				})
				both(fmt.Sprintf("%s + |UE(%s)|", c.name, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
					return Add(c.get(t), Len(UF("UE", SSeq, rem))), c.get(t)
				})
				both(fmt.Sprintf("%s + |%s|", c.name, r.name), r, func(t *Thread, rem *Term) (*Term, *Term) {
					return Add(c.get(t), Len(rem)), c.get(t)
				})
			}
		}
		// pairs consumed while a counter runs
		for ci, c := range ints {
			c := c
			if ci == r.iv || strings.HasPrefix(c.name, "ghost") {
				continue
			}
			eq := func(nm string, n func(t *Thread) *Term) {
				add(fmt.Sprintf("position + SZ(%s, %s)", r.name, nm), func(t *Thread) *Term {
					q := func(t *Thread, rem *Term) *Term { return Add(r.pos(t), UF("SZ", SInt, rem, n(t))) }
					// a slice that is consumed has its position in its offset
					if r.iv == -1 {
						return nil
					}
					e := q(entry, r.get(entry))
					g := r.ok(t)
					return And(Implies(g, Eq(q(t, r.get(t)), e)), Or(g, r.beyond(t)), Implies(r.beyond(t), Eq(Add(r.pos(t), Ite(Ge0(n(t)), n(t), I(0))), e)))
				})
			}
			eq(c.name, c.get)
			for i, k := range lims {
				k := k
				eq(fmt.Sprintf("limit %d - %s", i, c.name), func(t *Thread) *Term { return Sub2(k, c.get(t)) })
				if c.rng {
					eq(fmt.Sprintf("limit %d - %s - 1", i, c.name), func(t *Thread) *Term { return Sub2(k, Add(c.get(t), I(1))) })
				}
			}
		}
	}
	return cs
}

// terminates looks for a measure that decreases in every iteration.
func (x *Exec) terminates(name string, entry, head *Thread, l *loop, hs *havocSet, w *watch, backs []*Thread) {
	if x.mute > 0 || len(backs) == 0 {
		return
	}
	if x.tgt != nil && x.tgt.forever {
		return
	}
	type measure struct {
		name string
		get  func(t *Thread) *Term
	}
	var ms []measure
	var ints []measure
	for _, p := range phisOf(l.header) {
		p := p
		if !hs.phis[p] {
			continue
		}
		switch v := head.fr.regs[p].(type) {
		case *Term:
			if v.sort == SInt {
				ints = append(ints, measure{p.Comment, func(t *Thread) *Term { return t.fr.regs[p].(*Term) }})
			}
			if v.sort == SSeq {
				ms = append(ms, measure{"len(" + p.Comment + ")", func(t *Thread) *Term { return Len(t.fr.regs[p].(*Term)) }})
			}
		case SliceV:
			ms = append(ms, measure{"len(" + p.Comment + ")", func(t *Thread) *Term { return t.fr.regs[p].(SliceV).len }})
		}
	}
	for _, id := range sortedInts(hs.heap) {
		id := id
		if t, ok := x.content(head.st, id).(*Term); ok && t.sort == SInt {
			ints = append(ints, measure{x.objs[id].name, func(t *Thread) *Term { return x.content(t.st, id).(*Term) }})
		}
	}
	lims := []*Term{}
	seen := map[*Term]bool{}
	for _, t := range w.limits {
		if !seen[t] {
			seen[t] = true
			lims = append(lims, t)
		}
	}
	for _, s := range w.slices {
		if !seen[s.len] {
			seen[s.len] = true
			lims = append(lims, s.len)
		}
	}
	for _, c := range ints {
		c := c
		ms = append(ms, c)
		for i, k := range lims {
			k := k
			ms = append(ms, measure{fmt.Sprintf("limit %d - %s", i, c.name), func(t *Thread) *Term { return Sub2(k, c.get(t)) }})
		}
	}
	for _, m := range ms {
		good := true
		h := m.get(head)
		for _, b := range backs {
			g := And(Lt(m.get(b), h), Ge0(Add(h, I(1))))
			if b.st.simp(g) == True {
				continue
			}
			if r, _ := prove(append(b.st.pc[:len(b.st.pc):len(b.st.pc)], x.entryAssume...), g, 0); r != Valid {
				good = false
				break
			}
		}
		if good {
			x.obls = append(x.obls, &Obligation{kind: "terminates", desc: name + ": " + m.name + " decreases", fn: funcName(head.fr.fn), goal: True, res: Valid, by: "z3-new"})
			return
		}
	}
	b := backs[0]
	x.obls = append(x.obls, &Obligation{kind: "terminates", desc: name + ": every iteration brings the end closer", fn: funcName(head.fr.fn),
		pos: name, pc: b.st.pc, goal: False, trace: b.st.trace, state: b.st})
}

// onBackEdges checks the iteration contract of the target's own endless loop.
func (x *Exec) onBackEdges(name string, head *Thread, l *loop, backs []*Thread) {
	if x.mute > 0 || x.tgt == nil || x.tgt.forever == false || x.tgt.onIteration == nil {
		return
	}
	for _, b := range backs {
		x.tgt.onIteration(x, head, b)
	}
}

// boundedLoop explores a loop for a few iterations (refutation only).
func (x *Exec) boundedLoop(th *Thread, l *loop) (exits []*Thread, outs []Outcome) {
	cur := []*Thread{cloneThread(th)}
	for n := 0; n < x.refute && len(cur) > 0; n++ {
		at, o := x.run(cur, func(t *Thread) bool { return t.fr.block == l.header || !l.blocks[t.fr.block] })
		outs = append(outs, o...)
		cur = nil
		for _, t := range at {
			if t.fr.block == l.header {
				cur = append(cur, t)
			} else {
				exits = append(exits, t)
			}
		}
	}
	return
}
