package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is a recorded call, send or receive.
type Event struct {
	name  string
	args  []Value
	ret   Value
	seq   *Term
	locks []string // locks held exclusively, "key#acquisition"
	heap  map[int]Value
	objs  map[int]*Object
	fn    *ssa.Function
	at    *Term // the time when it happened
}

// call executes a call instruction.
func (x *Exec) call(t *Thread, c *ssa.CallCommon, ins *ssa.Call, pos token.Pos) []*Thread {
	fn := x.val(t, c.Value)
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(t, a))
	}
	outs := x.dispatch(t, c, fn, args, pos)
	var rs []*Thread
	for i, o := range outs {
		fr := t.fr
		if i < len(outs)-1 {
			fr = t.fr.fork()
		}
		n := &Thread{o.st, fr}
		n.fr.regs[ins] = o.val
		rs = append(rs, n)
	}
	// the last outcome reuses the frame: fork happened before, registers are per thread
	return rs
}

func outs1(st *State, v Value) []Outcome { return []Outcome{{st, v}} }

// dispatch calls fn (an interface value for method calls) with the arguments.
func (x *Exec) dispatch(t *Thread, c *ssa.CallCommon, fn Value, args []Value, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		iv, ok := fn.(IfaceV)
		if !ok {
			if ov, ok := fn.(OpaqueV); ok {
				iv = IfaceV{ref: ov.ref}
			} else {
				x.give_up("method call on %T", fn)
			}
		}
		if !x.oblige(t, "panic", "interface is not nil in call of "+c.Method.Name(), pos, Ne(iv.ref, I(0))) {
			return nil
		}
		if iv.typ != nil {
			f := x.prog.ssa.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name())
			if f == nil {
				x.give_up("no method %s of %s", c.Method.Name(), iv.typ)
			}
			return x.callStatic(t, f, nil, append([]Value{iv.val}, args...), pos)
		}
		return x.invokeModel(t, c, iv, args, pos)
	}
	switch f := fn.(type) {
	case FuncV:
		if strings.HasPrefix(f.name, "builtin:") {
			return x.builtin(t, f.name[8:], c, args, pos)
		}
		if f.fn != nil {
			return x.callStatic(t, f.fn, f.bind, args, pos)
		}
		return x.opaqueCall(t, f, c.Signature(), args, pos)
	case NilV:
		x.oblige(t, "panic", "function is not nil", pos, False)
		return nil
	case OpaqueV:
		return x.opaqueCall(t, FuncV{ref: f.ref, name: "opaque"}, c.Signature(), args, pos)
	}
	x.give_up("call of %T", fn)
	return nil
}

func inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), modulePath)
		}
		// wrappers and bound methods of module types
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modulePath)
		}
		return false
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath)
}

// callStatic calls a known function.
func (x *Exec) callStatic(t *Thread, f *ssa.Function, bind, args []Value, pos token.Pos) []Outcome {
	if m := x.model(t, f, args, pos); m != nil {
		return m.outs
	}
	if f.Blocks != nil && (inModule(f) || f.Synthetic != "" || inStd(f) && !x.initMode) && !(isInit(f) && f.Name() == "init" && f.Pkg != nil && !inModule(f)) {
		if x.initMode && isInit(f) && f.Name() == "init" {
			return outs1(t.st, nil) // initialisers of imported packages ran before
		}
		if x.initMode && x.failsInit(f) {
			return outs1(t.st, x.havocResult(f.Signature))
		}
		name := funcName(f)
		ev := x.evFuncs[name]
		if !x.initMode && bind == nil && x.ver != nil {
			if con := x.ver.usable(x, f); con != nil && !x.aliases(con, args) {
				return x.applyContract(t, f, con, args, pos, ev)
			}
		}
		if ev && !x.initMode {
			if x.ver != nil && x.ver.isAbstract(x, name) {
				return x.abstractCall(t, f, args, pos)
			}
			var outs []Outcome
			pre := t.st.fork()
			for _, o := range x.callFunc(t.st, f, bind, args) {
				x.recordEvent(o.st, pre, name, f, args, o.val)
				outs = append(outs, o)
			}
			return outs
		}
		return x.callFunc(t.st, f, bind, args)
	}
	if x.initMode {
		return outs1(t.st, x.havocResult(f.Signature))
	}
	x.unsupported(t, pos, "call of %s, which has no model", f.String())
	return outs1(t.st, x.havocResult(f.Signature))
}

func (x *Exec) failsInit(f *ssa.Function) bool { return false }

// recordEvent adds an event to the ghost history.
func (x *Exec) recordEvent(st, pre *State, name string, f *ssa.Function, args []Value, ret Value) {
	seq := ghostInt(st, "seq")
	e := &Event{name: name, args: args, ret: ret, seq: seq, heap: copyMap(pre.heap), fn: f, locks: heldLocks(pre), at: x.clock(pre)}
	// results live in the heap after the call
	for k, v := range st.heap {
		if _, ok := e.heap[k]; !ok {
			e.heap[k] = v
		}
	}
	st.ghost["seq"] = Add(seq, I(1))
	n := Add(ghostInt(st, "n:"+name), I(1))
	st.ghost["n:"+name] = n
	st.ghost["last:"+name] = e
	if n.isInt() {
		st.ghost[fmt.Sprintf("ev:%s#%s", name, n.k)] = e
	}
}

func ghostInt(st *State, k string) *Term {
	if v, ok := st.ghost[k].(*Term); ok {
		return v
	}
	return I(0)
}

func ghostBool(st *State, k string) *Term {
	if v, ok := st.ghost[k].(*Term); ok {
		return v
	}
	return False
}

func ghostSeq(st *State, k string) *Term {
	if v, ok := st.ghost[k].(*Term); ok {
		return v
	}
	return Empty
}

func heldLocks(st *State) []string {
	var r []string
	for k, l := range st.locks {
		if l.write {
			r = append(r, fmt.Sprintf("%s#%d", k, l.acq))
		}
	}
	sort.Strings(r)
	return r
}

func (x *Exec) havocResult(sig *types.Signature) Value {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return x.symValue(rs.At(0).Type(), "ret", true, 1)
	}
	return x.symValue(rs, "ret", true, 1)
}

// opaqueCall calls a function value the engine knows nothing about.
func (x *Exec) opaqueCall(t *Thread, f FuncV, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	ret := x.havocResult(sig)
	key := f.name
	x.recordEvent(t.st, t.st, "call "+key, nil, args, ret)
	return outs1(t.st, ret)
}

// ---------- builtins

func (x *Exec) builtin(t *Thread, name string, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case NilV:
			return outs1(t.st, I(0))
		case MapV:
			if mc, ok := x.content(t.st, v.obj).(MapContent); ok {
				return outs1(t.st, I(int64(len(mc.keys))))
			}
		case OpaqueV:
			return outs1(t.st, FreshR("len", bigZero, maxLen))
		case PtrV:
			n := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return outs1(t.st, I(n))
		case ChanV:
			return outs1(t.st, FreshR("len", bigZero, maxLen))
		default:
			return outs1(t.st, x.lengthOf(v))
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return outs1(t.st, v.cap)
		case ArrayV:
			return outs1(t.st, I(int64(len(v.e))))
		}
		return outs1(t.st, FreshR("cap", bigZero, maxLen))
	case "append":
		return x.appendB(t, c, args, pos)
	case "copy":
		return x.copyB(t, args, pos)
	case "min", "max":
		r := args[0].(*Term)
		if r.sort != SInt {
			break
		}
		for _, a := range args[1:] {
			b := a.(*Term)
			cnd := Le(r, b)
			if name == "max" {
				cnd = Le(b, r)
			}
			r = Ite(t.st.simp(cnd), r, b)
		}
		return outs1(t.st, r)
	case "recover":
		return outs1(t.st, IfaceV{ref: I(0)})
	case "print", "println":
		return outs1(t.st, nil)
	case "ssa:wrapnilchk":
		switch p := args[0].(type) {
		case NilV:
			x.oblige(t, "panic", "pointer is not nil", pos, False)
			return nil
		case OpaqueV:
			if !x.oblige(t, "panic", "pointer is not nil", pos, Ne(p.ref, I(0))) {
				return nil
			}
		}
		return outs1(t.st, args[0])
	case "clear":
		switch v := args[0].(type) {
		case MapV:
			x.access(t, PtrV{obj: v.obj}, true, pos)
			x.setContent(t.st, v.obj, MapContent{})
			return outs1(t.st, nil)
		case SliceV:
			if cs, ok := x.content(t.st, v.obj).(*Term); ok {
				x.access(t, PtrV{obj: v.obj}, true, pos)
				x.setContent(t.st, v.obj, SeqSet(cs, v.off, Zeros(v.len)))
				return outs1(t.st, nil)
			}
		}
	case "delete":
		if v, ok := args[0].(MapV); ok {
			mc, ok := x.content(t.st, v.obj).(MapContent)
			if ok {
				x.access(t, PtrV{obj: v.obj}, true, pos)
				n := MapContent{}
				for i := range mc.keys {
					e := x.valueEq(mc.keys[i], args[1])
					if e == True {
						continue
					}
					if e != False {
						x.give_up("delete: key not decided")
					}
					n.keys, n.vals = append(n.keys, mc.keys[i]), append(n.vals, mc.vals[i])
				}
				x.setContent(t.st, v.obj, n)
				return outs1(t.st, nil)
			}
		}
		if _, ok := args[0].(NilV); ok {
			return outs1(t.st, nil)
		}
	case "close":
		if v, ok := args[0].(ChanV); ok {
			return x.closeChan(t, v, pos)
		}
	}
	x.give_up("builtin %s", name)
	return nil
}

// restartForks: the aliasing assumption of append failed
type restartForks struct{}

// appendB: the result shares memory with the slice when its capacity suffices.
// With unknown capacity the slice is taken to move into new memory; if the old
// memory is used afterwards, the target is redone with both cases explored.
func (x *Exec) appendB(t *Thread, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	s, ok := args[0].(SliceV)
	if !ok {
		if _, nilv := args[0].(NilV); nilv {
			s = SliceV{0, I(0), I(0), I(0), True}
		} else {
			x.give_up("append to %T", args[0])
		}
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if !isByte(et) {
		return x.appendRefs(t, s, args[1], et, pos)
	}
	var add *Term
	switch a := args[1].(type) {
	case SliceV:
		if a.obj != 0 {
			x.access(t, PtrV{obj: a.obj}, false, pos)
		}
		add = x.seqOf(t.st, a)
	case *Term:
		add = a
	case NilV:
		add = Empty
	default:
		x.give_up("append of %T", args[1])
	}
	if Len(add) == I(0) {
		return outs1(t.st, s)
	}
	nlen := Add(s.len, Len(add))
	fits := t.st.simp(Le(nlen, s.cap))
	if s.obj == 0 {
		fits = False
	}
	grow := func(st *State) Outcome {
		var old *Term = Empty
		if s.obj != 0 {
			x.access(&Thread{st, t.fr}, PtrV{obj: s.obj}, false, pos)
			old = x.seqOf(st, s)
		}
		r := x.newBytes(st, "append", Concat(old, add), false)
		// append(nil or empty, nothing) keeps nil; a non-empty addition never does,
		// and an addition of symbolic length may be empty
		r.isnil = And(s.isnil, Eq(nlen, I(0)))
		return Outcome{st, r}
	}
	place := func(st *State) Outcome {
		th := &Thread{st, t.fr}
		x.access(th, PtrV{obj: s.obj}, true, pos)
		cs := x.content(st, s.obj).(*Term)
		x.setContent(st, s.obj, SeqSet(cs, Add(s.off, s.len), add))
		return Outcome{st, SliceV{s.obj, s.off, nlen, s.cap, False}}
	}
	if fits == False {
		return []Outcome{grow(t.st)}
	}
	if fits == True && s.cap.isInt() {
		return []Outcome{place(t.st)}
	}
	o := x.objs[s.obj]
	if x.appendForks || !o.fresh || s.cap.isInt() {
		var outs []Outcome
		a := t.st.fork()
		if a.assume(fits) && x.feasible(a) {
			outs = append(outs, place(a))
		}
		b := t.st.fork()
		if b.assume(Not(fits)) && x.feasible(b) {
			outs = append(outs, grow(b))
		}
		return outs
	}
	if t.st.moved[s.obj] {
		panic(restartForks{})
	}
	out := grow(t.st)
	r := out.val.(SliceV)
	x.objs[r.obj].movedFrom = s.obj
	out.st.moved[s.obj] = true
	return []Outcome{out}
}

func (x *Exec) appendRefs(t *Thread, s SliceV, a Value, et types.Type, pos token.Pos) []Outcome {
	var add []Value
	switch b := a.(type) {
	case SliceV:
		if b.obj != 0 {
			ar, ok := x.content(t.st, b.obj).(ArrayV)
			if !ok || !b.off.isInt() || !b.len.isInt() {
				x.give_up("append of a symbolic slice")
			}
			add = ar.e[b.off.k.Int64() : b.off.k.Int64()+b.len.k.Int64()]
		}
	case NilV:
	default:
		x.give_up("append of %T", a)
	}
	if !s.len.isInt() || !s.off.isInt() {
		x.give_up("append to a symbolic slice")
	}
	if len(add) == 0 {
		return outs1(t.st, s)
	}
	var old []Value
	if s.obj != 0 {
		ar, ok := x.content(t.st, s.obj).(ArrayV)
		if !ok {
			x.give_up("append to opaque memory")
		}
		if s.cap.isInt() && s.len.k.Int64()+int64(len(add)) <= s.cap.k.Int64() {
			// in place
			es := append([]Value{}, ar.e...)
			for i, v := range add {
				es[s.off.k.Int64()+s.len.k.Int64()+int64(i)] = v
			}
			x.access(t, PtrV{obj: s.obj}, true, pos)
			x.setContent(t.st, s.obj, ArrayV{es})
			return outs1(t.st, SliceV{s.obj, s.off, Add(s.len, I(int64(len(add)))), s.cap, False})
		}
		old = ar.e[s.off.k.Int64() : s.off.k.Int64()+s.len.k.Int64()]
	}
	o := x.newObj("append", types.NewArray(et, -1), true)
	es := append(append([]Value{}, old...), add...)
	t.st.heap[o.id] = ArrayV{es}
	n := I(int64(len(es)))
	// exact capacity is the engine's choice for reference slices: aliasing after
	// a second append to the same base is not modelled (no such code is accepted)
	return outs1(t.st, SliceV{o.id, I(0), n, n, False})
}

func (x *Exec) copyB(t *Thread, args []Value, pos token.Pos) []Outcome {
	d, ok := args[0].(SliceV)
	if !ok {
		x.give_up("copy to %T", args[0])
	}
	var src *Term
	switch a := args[1].(type) {
	case SliceV:
		if a.obj != 0 {
			x.access(t, PtrV{obj: a.obj}, false, pos)
			if _, ok := x.content(t.st, a.obj).(*Term); !ok {
				x.give_up("copy of references")
			}
		}
		src = x.seqOf(t.st, a)
	case *Term:
		src = a
	default:
		x.give_up("copy from %T", args[1])
	}
	one := func(st *State, n *Term) Outcome {
		if n == I(0) || d.obj == 0 {
			return Outcome{st, n}
		}
		th := &Thread{st, t.fr}
		x.access(th, PtrV{obj: d.obj}, true, pos)
		cs, ok := x.content(st, d.obj).(*Term)
		if !ok {
			x.give_up("copy to references")
		}
		x.setContent(st, d.obj, SeqSet(cs, d.off, Sub(src, I(0), n)))
		return Outcome{st, n}
	}
	le := t.st.simp(Le(Len(src), d.len))
	if le == True {
		return []Outcome{one(t.st, Len(src))}
	}
	if le == False {
		return []Outcome{one(t.st, d.len)}
	}
	var outs []Outcome
	a := t.st.fork()
	if a.assume(le) && x.feasible(a) {
		outs = append(outs, one(a, Len(src)))
	}
	b := t.st.fork()
	if b.assume(Not(le)) && x.feasible(b) {
		outs = append(outs, one(b, d.len))
	}
	return outs
}
