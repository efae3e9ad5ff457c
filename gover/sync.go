package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LockRef names a lock relative to a target: parameter index or global, and path.
type LockRef struct {
	param  int // -1: global
	global *ssa.Global
	path   []Sel
	write  bool
	key    string
}

func (x *Exec) lockKey(p PtrV) string {
	o := x.objs[p.obj]
	n := o.name
	if o.fresh || o.global == nil && !strings.HasPrefix(n, "*") {
		n = fmt.Sprintf("%s@%d", n, p.obj)
	}
	return n + x.fieldPath(o.typ, p.path)
}

// fieldPath renders a path with field names.
func (x *Exec) fieldPath(t types.Type, path []Sel) string {
	s := ""
	for _, e := range path {
		if st, ok := t.Underlying().(*types.Struct); ok && e.idx == nil {
			s += "." + st.Field(e.field).Name()
			t = st.Field(e.field).Type()
			continue
		}
		if e.idx != nil {
			s += "[" + e.idx.String() + "]"
		}
	}
	return s
}

func (x *Exec) isGlobalLock(key string) bool { return !strings.Contains(key, "@") }

func (x *Exec) lockOp(t *Thread, recv Value, op string, pos token.Pos) []Outcome {
	p, ok := recv.(PtrV)
	if !ok {
		if _, isnil := recv.(NilV); isnil {
			x.oblige(t, "panic", "mutex is not nil", pos, False)
			return nil
		}
		x.unsupported(t, pos, "lock operation on an unknown mutex")
		return outs1(t.st, nil)
	}
	key := x.lockKey(p)
	st := t.st
	l := st.locks[key]
	switch op {
	case "Lock", "RLock":
		if l != nil {
			x.oblige(t, "lock", key+" is not already held when it is acquired", pos, False)
			return nil
		}
		for k := range st.locks {
			x.lockEdges[k+" < "+key] = true
		}
		if x.evFuncs["lock "+key] {
			x.recordEvent(st, st, "lock "+key, nil, nil, nil)
		}
		st.lockSeq++
		st.locks[key] = &lockInfo{write: op == "Lock", n: 1, acq: st.lockSeq, names: key}
		if st.inGo == 0 && x.mute == 0 {
			x.noteLock(p, key, op == "Lock")
		}
		cnt := "acq:" + key
		if n := ghostInt(st, cnt); n != I(0) {
			x.havocGuarded(st, p)
		}
		st.ghost[cnt] = I(1)
	case "Unlock", "RUnlock":
		if l == nil || l.write != (op == "Unlock") {
			x.oblige(t, "lock", key+" is held when it is released", pos, False)
			return nil
		}
		delete(st.locks, key)
	case "TryLock", "TryRLock":
		if l != nil {
			return outs1(st, False)
		}
		a := st.fork()
		b := st
		b.lockSeq++
		b.locks[key] = &lockInfo{write: op == "TryLock", n: 1, acq: b.lockSeq, names: key}
		return []Outcome{{a, False}, {b, True}}
	}
	return outs1(st, nil)
}

// noteLock records a lock taken by the target, relative to its parameters.
func (x *Exec) noteLock(p PtrV, key string, write bool) {
	o := x.objs[p.obj]
	r := LockRef{param: -1, path: p.path, key: key, write: write}
	if o.global != nil {
		r.global = o.global
	} else if x.env != nil {
		found := false
		for i, v := range x.env.args {
			if q, ok := v.(PtrV); ok && q.obj == p.obj {
				r.param, found = i, true
			}
		}
		if !found && !strings.HasPrefix(o.name, "*") {
			return
		}
	}
	x.acquired[key] = r
}

// guardFields describes the struct holding a lock: siblings of the lock field.
func (x *Exec) havocGuarded(st *State, lock PtrV) {
	if len(lock.path) == 0 {
		return
	}
	parent := lock.path[:len(lock.path)-1]
	lf := lock.path[len(lock.path)-1]
	o := x.objs[lock.obj]
	if o.readonly || o.fresh {
		return
	}
	t := o.typ
	for _, e := range parent {
		if s, ok := t.Underlying().(*types.Struct); ok && e.idx == nil {
			t = s.Field(e.field).Type()
		} else {
			return
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !guards(s) {
		return
	}
	cur := x.content(st, lock.obj)
	for i := 0; i < s.NumFields(); i++ {
		if i == lf.field {
			continue
		}
		path := append(append([]Sel{}, parent...), Sel{field: i})
		cur = x.updateVal(cur, path, x.symValue(s.Field(i).Type(), o.name+"."+s.Field(i).Name(), false, 1))
	}
	st.heap[lock.obj] = cur
	st.reread = true
}

func isMutex(t types.Type) bool {
	n := typeName(t)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

// guards reports whether a struct has a mutex for its other fields.
func guards(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if isMutex(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// guardCheck requires the lock of a guarded struct for accesses to its fields.
func (x *Exec) guardCheck(t *Thread, p PtrV, o *Object, write bool, pos token.Pos) {
	if o.fresh || o.typ == nil || x.initMode {
		return
	}
	ty := o.typ
	var held func(prefix []Sel, s *types.Struct) bool
	held = func(prefix []Sel, s *types.Struct) bool {
		for i := 0; i < s.NumFields(); i++ {
			if !isMutex(s.Field(i).Type()) {
				continue
			}
			key := x.lockKey(PtrV{p.obj, append(append([]Sel{}, prefix...), Sel{field: i})})
			l := t.st.locks[key]
			if l != nil && (l.write || !write) {
				return true
			}
		}
		return false
	}
	for i := 0; ; i++ {
		s, ok := ty.Underlying().(*types.Struct)
		if ok && guards(s) {
			isLock := i < len(p.path) && isMutex(s.Field(p.path[i].field).Type())
			if !isLock && !held(p.path[:i], s) {
				what := "read"
				if write {
					what = "written"
				}
				x.oblige(t, "guard", fmt.Sprintf("%s%s is %s only while its lock is held", o.name, x.fieldPath(o.typ, p.path), what), pos, False)
				return
			}
		}
		if i >= len(p.path) {
			return
		}
		if ok && p.path[i].idx == nil {
			ty = s.Field(p.path[i].field).Type()
		} else if a, ok := ty.Underlying().(*types.Array); ok {
			ty = a.Elem()
		} else {
			return
		}
	}
}

// ---------- goroutines and channels

func (x *Exec) goStmt(t *Thread, c *ssa.CallCommon, fn Value, args []Value, pos token.Pos) []*Thread {
	name := "unknown"
	if f, ok := fn.(FuncV); ok && f.fn != nil {
		name = funcName(only(f.fn))
	}
	if c.IsInvoke() {
		name = c.Method.Name()
	}
	x.recordEvent(t.st, t.st, "go", nil, append([]Value{SeqStr(name)}, args...), nil)
	if f, ok := fn.(FuncV); ok {
		t.st.pending = append(t.st.pending, &goroutine{fn: f, call: c, args: args})
	} else {
		t.st.pending = append(t.st.pending, &goroutine{call: c, args: args, recv: fn})
	}
	return one(t)
}

// only is the function a literal does nothing but call, without arguments or results.
func only(f *ssa.Function) *ssa.Function {
	if f.Parent() == nil || len(f.Params) > 0 || len(f.Blocks) != 1 {
		return f
	}
	var to *ssa.Function
	for _, i := range f.Blocks[0].Instrs {
		switch i := i.(type) {
		case *ssa.Call:
			g := i.Call.StaticCallee()
			if to != nil || g == nil || g.Parent() != nil || len(i.Call.Args) > 0 {
				return f
			}
			to = g
		case *ssa.Return, *ssa.DebugRef:
		default:
			return f
		}
	}
	if to == nil {
		return f
	}
	return to
}

// chanBuf is the queue of values sent on a channel made by the code under verification.
func (x *Exec) chanBuf(st *State, c ChanV) ([]Value, bool) {
	a, ok := x.content(st, c.obj).(ArrayV)
	return a.e, ok
}

func (x *Exec) chanKind(c ChanV) string {
	if k, ok := x.objs[c.obj].attrs["kind"].(string); ok {
		return k
	}
	return ""
}

func (x *Exec) sendStmt(t *Thread, ch, v Value, pos token.Pos) []*Thread {
	c, ok := ch.(ChanV)
	if !ok {
		x.unsupported(t, pos, "send on an unknown channel")
		return one(t)
	}
	o := x.objs[c.obj]
	if buf, ok := x.chanBuf(t.st, c); ok && o.fresh {
		if t.st.inGo == 0 {
			if n, ok := o.attrs["cap"].(*Term); !ok || !n.isInt() || n.k.Int64() <= int64(len(buf)) {
				x.oblige(t, "wait", "send on a channel has a receiver", pos, False)
				return nil
			}
		}
		t.st.heap[c.obj] = ArrayV{append(append([]Value{}, buf...), v)}
		return one(t)
	}
	x.recordEvent(t.st, t.st, "send "+o.name, nil, []Value{v}, nil)
	return one(t)
}

// recvAlt is one way a receive can end.
type recvAlt struct {
	st *State
	v  Value
	ok *Term
}

// recv receives from a channel; the state is consumed.
func (x *Exec) recv(t *Thread, ch Value, et types.Type, pos token.Pos, hasTimer bool, timerOK *Term) []recvAlt {
	c, ok := ch.(ChanV)
	if !ok {
		if _, isnil := ch.(NilV); isnil {
			return nil // blocks forever
		}
		x.unsupported(t, pos, "receive from an unknown channel")
		return []recvAlt{{t.st, x.symValue(et, "recv", true, 1), Fresh("ok", SBool)}}
	}
	o := x.objs[c.obj]
	if buf, ok := x.chanBuf(t.st, c); ok && o.fresh {
		if len(buf) > 0 {
			t.st.heap[c.obj] = ArrayV{append([]Value{}, buf[1:]...)}
			return []recvAlt{{t.st, buf[0], True}}
		}
		if t.st.ghost[fmt.Sprintf("closed:%d", c.obj)] != nil {
			return []recvAlt{{t.st, x.zeroValue(et), False}}
		}
		if len(t.st.pending) == 0 {
			return nil // nobody sends
		}
		var alts []recvAlt
		g := t.st.pending[0]
		rd := ghostInt(t.st, "reads")
		for _, s := range x.runGoroutine(t, g) {
			if ghostInt(s, "reads") != rd {
				th := &Thread{s, t.fr}
				if !hasTimer {
					x.oblige(th, "wait", "waiting for the unit's reply also waits on a timer", pos, False)
				} else {
					x.oblige(th, "wait", "the timer bounding the wait for the reply runs for at most a second and has not fired or been restarted", pos, timerOK)
				}
			}
			alts = append(alts, x.recv(&Thread{s, t.fr}, ch, et, pos, hasTimer, timerOK)...)
		}
		return alts
	}
	v := x.symValue(et, "recv."+o.name, true, 1)
	if k := x.chanKind(c); k == "timer" || k == "ticker" {
		x.advance(t.st)
		x.recordEvent(t.st, t.st, "tick", nil, []Value{c}, v)
		return []recvAlt{{t.st, v, True}}
	}
	x.recordEvent(t.st, t.st, "recv "+o.name, nil, nil, v)
	okT := True
	if o.global == nil && !strings.HasPrefix(o.name, "comfoserver.") {
		// a channel of unknown origin may be closed, or nothing may ever be sent on it
		if !hasTimer && t.st.inGo == 0 {
			x.oblige(t, "wait", "waiting on a channel also waits on a timer", pos, False)
		}
		okT = Fresh("open", SBool)
		if vt, ok := v.(*Term); ok && vt.sort == SBool {
			t.st.assume(Or(okT, Not(vt)))
		}
	}
	return []recvAlt{{t.st, v, okT}}
}

func (x *Exec) chanRecv(t *Thread, ch Value, commaOk bool, rt types.Type, pos token.Pos, _ bool) []Outcome {
	et := rt
	if commaOk {
		et = rt.(*types.Tuple).At(0).Type()
	}
	if c, ok := ch.(ChanV); ok && x.chanKind(c) == "timer" {
		x.firedOnce(t, c, pos)
	}
	var outs []Outcome
	for _, a := range x.recv(t, ch, et, pos, false, True) {
		v := a.v
		if commaOk {
			v = TupleV{a.v, a.ok}
		}
		outs = append(outs, Outcome{a.st, v})
	}
	return outs
}

func (x *Exec) firedOnce(t *Thread, c ChanV, pos token.Pos) {
	k := fmt.Sprintf("fired:%d", c.obj)
	if t.st.ghost[k] != nil {
		x.oblige(t, "wait", "no second wait on a timer that has fired", pos, False)
	}
	t.st.ghost[k] = True
}

func (x *Exec) closeChan(t *Thread, c ChanV, pos token.Pos) []Outcome {
	t.st.ghost[fmt.Sprintf("closed:%d", c.obj)] = True
	return outs1(t.st, nil)
}

// runGoroutine runs a pending goroutine to its end.
func (x *Exec) runGoroutine(t *Thread, g *goroutine) []*State {
	st := t.st
	var rest []*goroutine
	for _, p := range st.pending {
		if p != g {
			rest = append(rest, p)
		}
	}
	st.pending = rest
	saved := st.locks
	savedOuter := st.outer
	st.outer = append(append([]string{}, st.outer...), heldLocks(st)...)
	st.locks = map[string]*lockInfo{}
	st.inGo++
	var fn Value = g.fn
	if g.recv != nil {
		fn = g.recv
	}
	outs := x.dispatch(&Thread{st, t.fr}, g.call, fn, g.args, g.call.Pos())
	var res []*State
	for _, o := range outs {
		if len(o.st.locks) > 0 {
			x.oblige(&Thread{o.st, t.fr}, "lock", "a goroutine releases its locks", g.call.Pos(), False)
		}
		o.st.locks = map[string]*lockInfo{}
		for k, v := range saved {
			c := *v
			o.st.locks[k] = &c
		}
		o.st.outer = savedOuter
		o.st.inGo--
		res = append(res, o.st)
	}
	return res
}

// detach marks everything reachable from a goroutine as shared with it.
func (x *Exec) detachAll(st *State, g *goroutine, why string) {
	var walk func(v Value)
	walk = func(v Value) {
		switch c := v.(type) {
		case PtrV:
			if st.detach[c.obj] != "" || x.objs[c.obj].readonly || x.objs[c.obj].global != nil {
				return
			}
			st.detach[c.obj] = why
			walk(x.content(st, c.obj))
		case SliceV:
			if c.obj != 0 && st.detach[c.obj] == "" && !x.objs[c.obj].readonly {
				st.detach[c.obj] = why
			}
		case FuncV:
			for _, b := range c.bind {
				walk(b)
			}
		case StructV:
			for _, f := range c.f {
				walk(f)
			}
		case ArrayV:
			for _, f := range c.e {
				walk(f)
			}
		case IfaceV:
			if c.typ != nil {
				walk(c.val)
			}
		case *ScanV:
			walk(c.split)
			walk(c.tok)
		}
	}
	for _, a := range g.args {
		walk(a)
	}
	walk(g.fn)
	walk(g.recv)
}

func (x *Exec) selectStmt(t *Thread, i *ssa.Select) []*Thread {
	var rs []*Thread
	tt := i.Type().(*types.Tuple)
	// result registers: index, recvOk, one value per receive
	result := func(th *Thread, idx int, ok *Term, v Value) {
		r := TupleV{I(int64(idx)), ok}
		k := 2
		for j, s := range i.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if j == idx {
				r = append(r, v)
			} else {
				r = append(r, x.zeroValue(tt.At(k).Type()))
			}
			k++
		}
		th.fr.regs[i] = r
		rs = append(rs, th)
	}
	// timers among the cases
	hasTimer := !i.Blocking
	timerOK := False
	if !i.Blocking {
		timerOK = True
	}
	for _, s := range i.States {
		if c, ok := x.val(t, s.Chan).(ChanV); ok && s.Dir == types.RecvOnly && x.chanKind(c) == "timer" {
			hasTimer = true
			timerOK = Or(timerOK, x.timerGood(t.st, c))
		}
	}
	for j, s := range i.States {
		n := &Thread{t.st.fork(), t.fr.fork()}
		ch := x.val(n, s.Chan)
		n.st.ghost["select"] = TupleV{ch}
		if s.Dir == types.SendOnly {
			for _, m := range x.sendStmt(n, ch, x.val(n, s.Send), i.Pos()) {
				result(m, j, False, nil)
			}
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if c, ok := ch.(ChanV); ok && x.chanKind(c) == "timer" {
			// the other sides are abandoned
			x.firedOnce(n, c, i.Pos())
			n.st.ghost["timedout"] = True
			for _, g := range n.st.pending {
				x.detachAll(n.st, g, "the wait for it ended by a timer")
			}
			n.st.pending = nil
			x.advance(n.st)
			result(n, j, True, x.symValue(et, "tick", true, 0))
			continue
		}
		for _, a := range x.recv(n, ch, et, i.Pos(), hasTimer, timerOK) {
			result(&Thread{a.st, t.fr.fork()}, j, a.ok, a.v)
		}
	}
	if !i.Blocking {
		n := &Thread{t.st.fork(), t.fr.fork()}
		result(n, -1, False, nil)
	}
	return rs
}

// timerGood: the timer has not fired or been restarted and runs at most one second.
func (x *Exec) timerGood(st *State, c ChanV) *Term {
	o := x.objs[c.obj]
	if st.ghost[fmt.Sprintf("reset:%d", c.obj)] != nil {
		return False
	}
	d, ok := o.attrs["dur"].(*Term)
	if !ok {
		return True // a parameter: its creator answers for the duration
	}
	return Le(d, I(1000000000))
}

// advance moves the clock forward by an unknown amount.
func (x *Exec) advance(st *State) *Term {
	now := Fresh("now", SInt)
	if p, ok := st.ghost["now"].(*Term); ok {
		st.assume(Le(p, now))
	} else {
		st.assume(Le(IB(new(big.Int).Mul(big64(60), big64(1000000000000000000))), now))
	}
	st.ghost["now"] = now
	return now
}

// clock is the current time.
func (x *Exec) clock(st *State) *Term {
	if p, ok := st.ghost["now"].(*Term); ok {
		return p
	}
	return x.advance(st)
}
