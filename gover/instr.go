package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func one(t *Thread) []*Thread { return []*Thread{t} }

// step executes one non-control instruction.
func (x *Exec) step(t *Thread, ins ssa.Instruction) []*Thread {
	st, fr := t.st, t.fr
	set := func(v Value) []*Thread {
		fr.regs[ins.(ssa.Value)] = v
		return one(t)
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return one(t)
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		o := x.newObj(i.Comment, et, true)
		st.heap[o.id] = x.zeroValue(et)
		return set(PtrV{obj: o.id})
	case *ssa.BinOp:
		v, ok := x.binop(t, i)
		if !ok {
			return nil
		}
		return set(v)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p, ok := x.deref(t, i.X, i.Pos())
			if !ok {
				return nil
			}
			return set(x.load(t, p, i.Pos()))
		case token.NOT:
			return set(Not(x.term(t, i.X)))
		case token.SUB:
			a := x.term(t, i.X)
			if a.sort == SInt {
				return set(x.wrapInt(t, Neg(a), i.Type()))
			}
			return set(FArith("neg", a))
		case token.XOR:
			a := x.term(t, i.X)
			lo, hi, _ := intRange(i.Type().Underlying().(*types.Basic))
			if lo.Sign() == 0 {
				return set(Sub2(IB(hi), a))
			}
			return set(Add(Neg(a), I(-1)))
		case token.ARROW:
			var rs []*Thread
			for _, o := range x.chanRecv(t, x.val(t, i.X), i.CommaOk, i.Type(), i.Pos(), false) {
				n := &Thread{o.st, fr.fork()}
				n.fr.regs[i] = o.val
				rs = append(rs, n)
			}
			return rs
		}
	case *ssa.Call:
		return x.call(t, &i.Call, i, i.Pos())
	case *ssa.ChangeInterface:
		return set(x.val(t, i.X))
	case *ssa.ChangeType:
		return set(x.val(t, i.X))
	case *ssa.MakeInterface:
		v := x.val(t, i.X)
		return set(x.makeIface(v, i.X.Type()))
	case *ssa.Convert:
		v, ok := x.convert(t, i)
		if !ok {
			return nil
		}
		return set(v)
	case *ssa.Extract:
		tv, ok := x.val(t, i.Tuple).(TupleV)
		if !ok {
			x.give_up("extract of %T", x.val(t, i.Tuple))
		}
		return set(tv[i.Index])
	case *ssa.Field:
		return set(x.selectVal(t, x.val(t, i.X), Sel{field: i.Field}))
	case *ssa.FieldAddr:
		p, ok := x.deref(t, i.X, i.Pos())
		if !ok {
			return nil
		}
		return set(PtrV{p.obj, append(p.path[:len(p.path):len(p.path)], Sel{field: i.Field})})
	case *ssa.Index:
		c := x.val(t, i.X)
		idx := x.term(t, i.Index)
		n := x.lengthOf(c)
		if !x.oblige(t, "panic", "index in range", i.Pos(), And(Ge0(idx), Lt(idx, n))) {
			return nil
		}
		return set(x.selectVal(t, c, Sel{idx: x.fixIdx(t, idx)}))
	case *ssa.IndexAddr:
		return x.indexAddr(t, i)
	case *ssa.Lookup:
		return x.lookup(t, i)
	case *ssa.MakeChan:
		o := x.newObj("chan", i.Type(), true)
		o.attrs = map[string]Value{"kind": "make", "cap": x.val(t, i.Size)}
		st.heap[o.id] = ArrayV{}
		return set(ChanV{o.id})
	case *ssa.MakeClosure:
		bs := []Value{}
		for _, b := range i.Bindings {
			bs = append(bs, x.val(t, b))
		}
		return set(FuncV{fn: i.Fn.(*ssa.Function), bind: bs})
	case *ssa.MakeMap:
		o := x.newObj("map", i.Type(), true)
		st.heap[o.id] = MapContent{}
		return set(MapV{o.id})
	case *ssa.MapUpdate:
		m, ok := x.val(t, i.Map).(MapV)
		if !ok {
			x.unsupported(t, i.Pos(), "write to an unknown map")
			return nil
		}
		mc, ok := x.content(st, m.obj).(MapContent)
		if !ok {
			x.give_up("map content")
		}
		x.access(t, PtrV{obj: m.obj}, true, i.Pos())
		k, v := x.val(t, i.Key), x.val(t, i.Value)
		n := MapContent{append([]Value{}, mc.keys...), append([]Value{}, mc.vals...)}
		for j, kk := range n.keys {
			e := x.valueEq(kk, k)
			if e == True {
				n.vals[j] = v
				x.setContent(st, m.obj, n)
				return one(t)
			}
			if e != False {
				x.unsupported(t, i.Pos(), "map key not decided")
				return nil
			}
		}
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
		x.setContent(st, m.obj, n)
		return one(t)
	case *ssa.MakeSlice:
		return x.makeSlice(t, i)
	case *ssa.Slice:
		return x.slice(t, i)
	case *ssa.Store:
		p, ok := x.deref(t, i.Addr, i.Pos())
		if !ok {
			return nil
		}
		x.store(t, p, x.val(t, i.Val), i.Pos())
		return one(t)
	case *ssa.TypeAssert:
		return x.typeAssert(t, i)
	case *ssa.Defer:
		d := deferred{call: &i.Call, pos: i.Pos()}
		if i.Call.IsInvoke() {
			d.fn = x.val(t, i.Call.Value)
		} else {
			d.fn = x.val(t, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(t, a))
		}
		fr.defers = append(fr.defers, d)
		return one(t)
	case *ssa.RunDefers:
		ts := one(t)
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			var ns []*Thread
			for _, u := range ts {
				for _, o := range x.dispatch(u, d.call, d.fn, d.args, d.pos) {
					ns = append(ns, &Thread{o.st, u.fr.fork()})
				}
			}
			ts = ns
		}
		for _, u := range ts {
			u.fr.defers = nil
		}
		return ts
	case *ssa.Go:
		var args []Value
		for _, a := range i.Call.Args {
			args = append(args, x.val(t, a))
		}
		return x.goStmt(t, &i.Call, x.val(t, i.Call.Value), args, i.Pos())
	case *ssa.Send:
		return x.sendStmt(t, x.val(t, i.Chan), x.val(t, i.X), i.Pos())
	case *ssa.Select:
		return x.selectStmt(t, i)
	case *ssa.Range:
		return set(x.rangeStart(t, i))
	case *ssa.Next:
		return x.rangeNext(t, i)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		x.give_up("instruction %T", ins)
	}
	x.give_up("instruction %T %s", ins, ins)
	return nil
}

func (x *Exec) makeIface(v Value, t types.Type) Value {
	if iv, ok := v.(IfaceV); ok {
		return iv
	}
	x.nextErr++
	return IfaceV{typ: t, val: v, ref: I(-x.nextErr)}
}

// deref turns a pointer value into an address; the path ends if it is nil.
func (x *Exec) deref(t *Thread, v ssa.Value, pos token.Pos) (PtrV, bool) {
	switch p := x.val(t, v).(type) {
	case PtrV:
		return p, true
	case NilV:
		x.oblige(t, "panic", "pointer is not nil", pos, False)
		return PtrV{}, false
	case OpaqueV:
		if !x.oblige(t, "panic", "pointer is not nil", pos, Ne(p.ref, I(0))) {
			return PtrV{}, false
		}
		// an object behind an opaque reference
		et := v.Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj("opaque", et, false)
		o.initial = x.symValue(et, "opaque", false, 1)
		return PtrV{obj: o.id}, true
	default:
		x.give_up("dereference of %T", p)
	}
	return PtrV{}, false
}

func (x *Exec) lengthOf(v Value) *Term {
	switch c := v.(type) {
	case *Term:
		return Len(c)
	case ArrayV:
		return I(int64(len(c.e)))
	case SliceV:
		return c.len
	case MapContent:
		return I(int64(len(c.keys)))
	}
	x.give_up("length of %T", v)
	return nil
}

// fixIdx replaces an index by a constant when the path decides it.
func (x *Exec) fixIdx(t *Thread, i *Term) *Term {
	if i.isInt() {
		return i
	}
	iv := t.st.iv(i)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
		return IB(iv.lo)
	}
	return i
}

func (x *Exec) indexAddr(t *Thread, i *ssa.IndexAddr) []*Thread {
	idx := x.term(t, i.Index)
	switch c := x.val(t, i.X).(type) {
	case SliceV:
		x.seeSlice(c)
		x.seeLimit(c.len)
		if !x.oblige(t, "panic", "index in range", i.Pos(), And(Ge0(idx), Lt(idx, c.len))) {
			return nil
		}
		if c.obj == 0 {
			return nil
		}
		at := x.fixIdx(t, Add(c.off, idx))
		if av, ok := x.content(t.st, c.obj).(ArrayV); ok && !at.isInt() && len(av.e) <= 16 && !plain(i.X.Type().Underlying().(*types.Slice).Elem()) {
			var ts []*Thread
			for k := range av.e {
				u := cloneThread(t)
				u.st.assume(Eq(at, I(int64(k))))
				if x.feasible(u.st) {
					u.fr.regs[i] = PtrV{c.obj, []Sel{{idx: I(int64(k))}}}
					ts = append(ts, u)
				}
			}
			return ts
		}
		t.fr.regs[i] = PtrV{c.obj, []Sel{{idx: at}}}
		return one(t)
	default:
		p, ok := x.deref(t, i.X, i.Pos())
		if !ok {
			return nil
		}
		n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.oblige(t, "panic", "index in range", i.Pos(), And(Ge0(idx), Lt(idx, I(n)))) {
			return nil
		}
		set := func(t *Thread, idx *Term) {
			t.fr.regs[i] = PtrV{p.obj, append(p.path[:len(p.path):len(p.path)], Sel{idx: idx})}
		}
		fx := x.fixIdx(t, idx)
		if !fx.isInt() && n <= 16 && !plain(i.X.Type().Underlying().(*types.Pointer).Elem()) {
			// elements that are references: one path per index
			var ts []*Thread
			for k := int64(0); k < n; k++ {
				u := cloneThread(t)
				u.st.assume(Eq(fx, I(k)))
				if x.feasible(u.st) {
					set(u, I(k))
					ts = append(ts, u)
				}
			}
			return ts
		}
		set(t, fx)
		return one(t)
	}
}

// plain says whether values of a type are numbers, strings and aggregates of
// those, which can be merged.
func plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return plain(u.Elem())
	case *types.Struct:
		for k := range u.NumFields() {
			if !plain(u.Field(k).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) lookup(t *Thread, i *ssa.Lookup) []*Thread {
	m := x.val(t, i.X)
	if s, ok := m.(*Term); ok { // string index
		x.seeSlice(s)
		idx := x.term(t, i.Index)
		if !x.oblige(t, "panic", "index in range", i.Pos(), And(Ge0(idx), Lt(idx, Len(s)))) {
			return nil
		}
		t.fr.regs[i] = t.st.nth(s, x.fixIdx(t, idx))
		return one(t)
	}
	vt := i.Type()
	if i.CommaOk {
		vt = vt.(*types.Tuple).At(0).Type()
	}
	res := func(th *Thread, v Value, ok bool) *Thread {
		if i.CommaOk {
			th.fr.regs[i] = TupleV{v, B(ok)}
		} else {
			th.fr.regs[i] = v
		}
		return th
	}
	switch mm := m.(type) {
	case NilV:
		return one(res(t, x.zeroValue(vt), false))
	case MapV:
		x.access(t, PtrV{obj: mm.obj}, false, i.Pos())
		mc, ok := x.content(t.st, mm.obj).(MapContent)
		if !ok {
			x.give_up("map content")
		}
		key := x.val(t, i.Index)
		var rs []*Thread
		cur := t
		for j, k := range mc.keys {
			e := x.valueEq(k, key)
			if e == nil {
				x.give_up("map key equality")
			}
			e = cur.st.simp(e)
			if e == False {
				continue
			}
			if e == True {
				return append(rs, res(cur, mc.vals[j], true))
			}
			hit := &Thread{cur.st.fork(), cur.fr.fork()}
			if hit.st.assume(e) && x.feasible(hit.st) {
				rs = append(rs, res(hit, mc.vals[j], true))
			}
			if !cur.st.assume(Not(e)) {
				return rs
			}
		}
		if x.feasible(cur.st) {
			rs = append(rs, res(cur, x.zeroValue(vt), false))
		}
		return rs
	}
	if _, ok := vt.Underlying().(*types.Basic); ok {
		if _, ok := m.(OpaqueV); ok {
			miss := &Thread{t.st.fork(), t.fr.fork()}
			return []*Thread{res(t, x.symValue(vt, "lookup", false, 1), true), res(miss, x.zeroValue(vt), false)}
		}
	}
	x.unsupported(t, i.Pos(), "lookup in an unknown map")
	return one(res(t, x.symValue(vt, "lookup", false, 1), true))
}

func (x *Exec) makeSlice(t *Thread, i *ssa.MakeSlice) []*Thread {
	n, c := x.term(t, i.Len), x.term(t, i.Cap)
	if !x.oblige(t, "panic", "make: length and capacity in range", i.Pos(), And(Ge0(n), Le(n, c), Le(c, IB(maxLen)))) {
		return nil
	}
	et := i.Type().Underlying().(*types.Slice).Elem()
	o := x.newObj("make", types.NewArray(et, -1), true)
	if isByte(et) {
		t.st.heap[o.id] = Zeros(c)
	} else {
		if !c.isInt() || c.k.Cmp(big64(4096)) > 0 {
			x.give_up("make of symbolic size")
		}
		es := make([]Value, c.k.Int64())
		for k := range es {
			es[k] = x.zeroValue(et)
		}
		t.st.heap[o.id] = ArrayV{es}
	}
	t.fr.regs[i] = SliceV{o.id, I(0), n, c, False}
	return one(t)
}

func (x *Exec) slice(t *Thread, i *ssa.Slice) []*Thread {
	var lo, hi, mx *Term
	lo = I(0)
	if i.Low != nil {
		lo = x.term(t, i.Low)
	}
	if i.High != nil {
		hi = x.term(t, i.High)
	}
	if i.Max != nil {
		mx = x.term(t, i.Max)
	}
	switch c := x.val(t, i.X).(type) {
	case *Term: // string
		if hi == nil {
			hi = Len(c)
		}
		if !x.oblige(t, "panic", "slice bounds in range", i.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, Len(c)))) {
			return nil
		}
		t.fr.regs[i] = Sub(c, lo, Sub2(hi, lo))
		return one(t)
	case SliceV:
		x.seeSlice(c)
		if hi == nil {
			hi = c.len
		}
		lim := c.cap
		if mx != nil {
			lim = mx
		}
		g := And(Ge0(lo), Le(lo, hi), Le(hi, lim))
		if mx != nil {
			g = And(g, Le(mx, c.cap))
		}
		if !x.oblige(t, "panic", "slice bounds in range", i.Pos(), g) {
			return nil
		}
		t.fr.regs[i] = SliceV{c.obj, Add(c.off, lo), Sub2(hi, lo), Sub2(lim, lo), c.isnil}
		return one(t)
	default: // pointer to array
		if _, ok := i.X.Type().Underlying().(*types.Pointer); !ok {
			x.give_up("slice of %T", c)
		}
		p, ok := x.deref(t, i.X, i.Pos())
		if !ok {
			return nil
		}
		if len(p.path) != 0 {
			x.give_up("slice of an array inside an object")
		}
		n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = I(n)
		}
		lim := I(n)
		if mx != nil {
			lim = mx
		}
		if !x.oblige(t, "panic", "slice bounds in range", i.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, lim), Le(lim, I(n)))) {
			return nil
		}
		t.fr.regs[i] = SliceV{p.obj, lo, Sub2(hi, lo), Sub2(lim, lo), False}
		return one(t)
	}
}

func (x *Exec) typeAssert(t *Thread, i *ssa.TypeAssert) []*Thread {
	iv, ok := x.val(t, i.X).(IfaceV)
	if !ok {
		x.give_up("type assertion on %T", x.val(t, i.X))
	}
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	res := func(th *Thread, v Value, ok bool) []*Thread {
		if i.CommaOk {
			th.fr.regs[i] = TupleV{v, B(ok)}
		} else {
			th.fr.regs[i] = v
		}
		return one(th)
	}
	fail := func(th *Thread) []*Thread {
		if i.CommaOk {
			return res(th, x.zeroValue(i.AssertedType), false)
		}
		x.oblige(th, "panic", "type assertion holds", i.Pos(), False)
		return nil
	}
	if iv.ref == I(0) {
		return fail(t)
	}
	if iv.typ != nil {
		var holds bool
		if toIface {
			holds = types.Implements(iv.typ, i.AssertedType.Underlying().(*types.Interface))
		} else {
			holds = types.Identical(iv.typ, i.AssertedType)
		}
		if !holds {
			return fail(t)
		}
		if toIface {
			return res(t, iv, true)
		}
		return res(t, iv.val, true)
	}
	// unknown dynamic type
	if toIface && types.Implements(i.X.Type(), i.AssertedType.Underlying().(*types.Interface)) {
		if !i.CommaOk {
			if !x.oblige(t, "panic", "interface is not nil", i.Pos(), Ne(iv.ref, I(0))) {
				return nil
			}
			return res(t, iv, true)
		}
		f := &Thread{t.st.fork(), t.fr.fork()}
		var rs []*Thread
		if f.st.assume(Eq(iv.ref, I(0))) {
			rs = append(rs, fail(f)...)
		}
		if t.st.assume(Ne(iv.ref, I(0))) {
			rs = append(rs, res(t, iv, true)...)
		}
		return rs
	}
	if !i.CommaOk {
		if !x.oblige(t, "panic", "type assertion holds", i.Pos(), False) {
			return nil
		}
	}
	var rs []*Thread
	f := &Thread{t.st.fork(), t.fr.fork()}
	rs = append(rs, fail(f)...)
	if t.st.assume(Ne(iv.ref, I(0))) {
		if toIface {
			rs = append(rs, res(t, iv, true)...)
		} else {
			rs = append(rs, res(t, x.symValue(i.AssertedType, "assert", false, 1), true)...)
		}
	}
	return rs
}

func (x *Exec) rangeStart(t *Thread, i *ssa.Range) Value {
	switch m := x.val(t, i.X).(type) {
	case MapV:
		o := x.newObj("iter", nil, true)
		t.st.heap[o.id] = TupleV{m, I(0)}
		return PtrV{obj: o.id}
	case NilV:
		o := x.newObj("iter", nil, true)
		t.st.heap[o.id] = TupleV{NilV{}, I(0)}
		return PtrV{obj: o.id}
	case *Term:
		o := x.newObj("iter", nil, true)
		t.st.heap[o.id] = TupleV{m, I(0)}
		return PtrV{obj: o.id}
	}
	x.give_up("range over %T", x.val(t, i.X))
	return nil
}

func (x *Exec) rangeNext(t *Thread, i *ssa.Next) []*Thread {
	p := x.val(t, i.Iter).(PtrV)
	it := x.content(t.st, p.obj).(TupleV)
	tt := i.Type().(*types.Tuple)
	zero := func(k int) Value {
		if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return x.zeroValue(tt.At(k).Type())
	}
	pos := it[1].(*Term)
	switch m := it[0].(type) {
	case NilV:
		t.fr.regs[i] = TupleV{False, zero(1), zero(2)}
		return one(t)
	case MapV:
		mc := x.content(t.st, m.obj).(MapContent)
		if !pos.isInt() {
			x.give_up("map iteration in a cut loop")
		}
		// the iteration order of the engine is insertion order: only sound for
		// order-insensitive bodies, so more than one element is not supported
		if len(mc.keys) > 1 {
			x.give_up("iteration over a map with several keys")
		}
		k := int(pos.k.Int64())
		if k >= len(mc.keys) {
			t.fr.regs[i] = TupleV{False, zero(1), zero(2)}
			return one(t)
		}
		t.fr.regs[i] = TupleV{True, mc.keys[k], mc.vals[k]}
		t.st.heap[p.obj] = TupleV{m, I(int64(k + 1))}
		return one(t)
	case *Term:
		if m == Empty {
			t.fr.regs[i] = TupleV{False, zero(1), zero(2)}
			return one(t)
		}
	}
	x.give_up("range over a string")
	return nil
}

// ---------- arithmetic

func (x *Exec) binop(t *Thread, i *ssa.BinOp) (Value, bool) {
	a, b := x.val(t, i.X), x.val(t, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		var e *Term
		ta, oka := a.(*Term)
		tb, okb := b.(*Term)
		if oka && okb {
			x.seeLimit(ta, tb)
		}
		if oka && okb && (ta.sort == SF32 || ta.sort == SF64) {
			e = FCmp("eq", ta, tb)
		} else {
			// mixed interface / concrete comparison
			if ia, ok := a.(IfaceV); ok {
				if _, ok := b.(IfaceV); !ok {
					b = x.makeIface(b, i.Y.Type())
				}
				_ = ia
			} else if _, ok := b.(IfaceV); ok {
				a = x.makeIface(a, i.X.Type())
			}
			if sa, ok := a.(SliceV); ok { // slice == nil
				e = sa.isnil
				if sb, ok := b.(SliceV); ok && sb.isnil != True {
					e = sb.isnil
				}
			} else {
				e = x.valueEq(a, b)
			}
		}
		if e == nil {
			e = Fresh("cmp", SBool)
		}
		if i.Op == token.NEQ {
			e = Not(e)
		}
		return e, true
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if ok1 && ok2 {
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x.seeLimit(p, q)
		}
	}
	if !ok1 || !ok2 {
		x.give_up("operator %s on %T, %T", i.Op, a, b)
	}
	switch p.sort {
	case SF32, SF64:
		switch i.Op {
		case token.ADD:
			return FArith("add", p, q), true
		case token.SUB:
			return FArith("sub", p, q), true
		case token.MUL:
			return FArith("mul", p, q), true
		case token.QUO:
			return FArith("div", p, q), true
		case token.LSS:
			return FCmp("lt", p, q), true
		case token.LEQ:
			return FCmp("leq", p, q), true
		case token.GTR:
			return FCmp("lt", q, p), true
		case token.GEQ:
			return FCmp("leq", q, p), true
		}
	case SSeq:
		switch i.Op {
		case token.ADD:
			return Concat(p, q), true
		}
		return Fresh("strcmp", SBool), true
	case SBool:
		switch i.Op {
		case token.AND:
			return And(p, q), true
		case token.OR:
			return Or(p, q), true
		}
	case SInt:
		w := func(r *Term) (Value, bool) { return x.wrapInt(t, r, i.Type()), true }
		switch i.Op {
		case token.ADD:
			return w(Add(p, q))
		case token.SUB:
			return w(Sub2(p, q))
		case token.MUL:
			return w(Mul(p, q))
		case token.LSS:
			return Lt(p, q), true
		case token.LEQ:
			return Le(p, q), true
		case token.GTR:
			return Lt(q, p), true
		case token.GEQ:
			return Le(q, p), true
		case token.QUO, token.REM:
			if !x.oblige(t, "panic", "divisor is not zero", i.Pos(), Ne(q, I(0))) {
				return nil, false
			}
			return x.divrem(t, i, p, q), true
		case token.SHL:
			if !x.oblige(t, "panic", "shift count is not negative", i.Pos(), Ge0(q)) {
				return nil, false
			}
			if q.isInt() && q.k.Cmp(big64(512)) < 0 {
				return w(Scale(p, new(big.Int).Lsh(bigOne, uint(q.k.Int64()))))
			}
			return x.symValue(i.Type(), "shl", false, 0), true
		case token.SHR:
			if !x.oblige(t, "panic", "shift count is not negative", i.Pos(), Ge0(q)) {
				return nil, false
			}
			if q.isInt() && q.k.Cmp(big64(512)) < 0 {
				return Div(p, IB(new(big.Int).Lsh(bigOne, uint(q.k.Int64())))), true
			}
			return x.symValue(i.Type(), "shr", false, 0), true
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			ip, iq := t.st.iv(p), t.st.iv(q)
			if ip.lo == nil || iq.lo == nil || ip.lo.Sign() < 0 || iq.lo.Sign() < 0 {
				return x.symValue(i.Type(), "bits", false, 0), true
			}
			switch i.Op {
			case token.AND:
				return BitOp("and", p, q), true
			case token.OR:
				return BitOp("or", p, q), true
			case token.XOR:
				return BitOp("xor", p, q), true
			default:
				return Sub2(p, BitOp("and", p, q)), true
			}
		}
	}
	x.give_up("operator %s on %s", i.Op, p.sort)
	return nil, false
}

// divrem is Go's truncated division.
func (x *Exec) divrem(t *Thread, i *ssa.BinOp, p, q *Term) *Term {
	ip, iq := t.st.iv(p), t.st.iv(q)
	nonneg := ip.lo != nil && ip.lo.Sign() >= 0 && iq.lo != nil && iq.lo.Sign() >= 0
	if nonneg {
		if i.Op == token.QUO {
			return Div(p, q)
		}
		return Mod(p, q)
	}
	abs := func(a *Term) *Term { return Ite(Ge0(a), a, Neg(a)) }
	d := Div(abs(p), abs(q))
	quo := Ite(Eq(Ge0(p), Ge0(q)), d, Neg(d))
	if i.Op == token.QUO {
		return x.wrapInt(t, quo, i.Type())
	}
	return Sub2(p, Mul(quo, q))
}

func (x *Exec) convert(t *Thread, i *ssa.Convert) (Value, bool) {
	v := x.val(t, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	if sv, ok := v.(SliceV); ok {
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x.seqOf(t.st, sv), true
		}
		return v, true
	}
	tv, ok := v.(*Term)
	if !ok {
		return v, true
	}
	if sl, ok := to.(*types.Slice); ok && tv.sort == SSeq && isByte(sl.Elem()) {
		return x.newBytes(t.st, "convert", tv, false), true
	}
	tb, ok := to.(*types.Basic)
	if !ok {
		return v, true
	}
	ts, _ := basicSort(tb)
	_ = from
	switch {
	case tv.sort == SInt && ts == SInt:
		return x.wrapInt(t, tv, i.Type()), true
	case tv.sort == SInt && (ts == SF32 || ts == SF64):
		return FFromI(ts, tv), true
	case (tv.sort == SF32 || tv.sort == SF64) && (ts == SF32 || ts == SF64):
		return FFromF(ts, tv), true
	case (tv.sort == SF32 || tv.sort == SF64) && ts == SInt:
		// in range: truncation; otherwise the result depends on the platform
		lo, hi, _ := intRange(tb)
		loF := FConst(tv.sort, 0)
		hiF := FConst(tv.sort, 0)
		lf, _ := new(big.Float).SetInt(lo).Float64()
		hf, _ := new(big.Float).SetInt(new(big.Int).Add(hi, bigOne)).Float64()
		loF, hiF = FConst(tv.sort, lf), FConst(tv.sort, hf)
		if lo.Sign() == 0 {
			// -1 < f is in range as well (truncates to 0)
			in := And(FCmp("lt", FConst(tv.sort, -1), tv), FCmp("lt", tv, hiF))
			return x.f2i(t, in, tv, i.Type()), true
		}
		in := And(FCmp("leq", loF, tv), FCmp("lt", tv, hiF))
		return x.f2i(t, in, tv, i.Type()), true
	case tv.sort == SSeq && ts == SSeq:
		return tv, true
	}
	if tv.sort == SInt && ts == SSeq {
		return Fresh("runestr", SSeq), true
	}
	x.give_up("conversion %s to %s", i.X.Type(), i.Type())
	return nil, false
}

func (x *Exec) f2i(t *Thread, in, f *Term, ty types.Type) *Term {
	in = t.st.simp(in)
	r := FToI(f)
	if in == True {
		return r
	}
	if in != False {
		if p, _ := prove(append(t.st.pc[:len(t.st.pc):len(t.st.pc)], x.entryAssume...), in, 10); p == Valid {
			t.st.assume(in)
			lo, hi, _ := intRange(ty.Underlying().(*types.Basic))
			t.st.setBound(r, &interval{lo, hi})
			return r
		}
	}
	u := x.symValue(ty, "f2i", false, 0).(*Term)
	lo, hi, _ := intRange(ty.Underlying().(*types.Basic))
	res := Ite(in, r, u)
	t.st.setBound(res, &interval{lo, hi})
	return res
}

var _ = fmt.Sprint
