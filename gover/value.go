package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is the symbolic value of a Go expression:
// *Term for integers, booleans, floats and strings, or one of the types below.
type Value interface{}

type (
	// SliceV is a slice of an object's elements.
	SliceV struct {
		obj           int // 0: no backing array
		off, len, cap *Term
		isnil         *Term
	}
	// PtrV points to an object or into it.
	PtrV struct {
		obj  int
		path []Sel
	}
	// NilV is a nil pointer, map, channel or function.
	NilV    struct{}
	StructV struct{ f []Value }
	ArrayV  struct{ e []Value }
	// IfaceV is an interface value: nil iff ref is 0. A known dynamic value has typ set.
	IfaceV struct {
		typ types.Type
		val Value
		ref *Term
	}
	FuncV struct {
		fn   *ssa.Function
		bind []Value
		ref  *Term  // opaque function
		name string // opaque function
	}
	TupleV []Value
	MapV   struct{ obj int }
	ChanV  struct{ obj int }
	// OpaqueV is a value the engine gives no structure.
	OpaqueV struct {
		ref *Term
		typ types.Type
	}
	// MapContent holds a map with known keys, in insertion order.
	MapContent struct {
		keys []Value
		vals []Value
	}
)

// Sel selects a field (idx nil) or an element of an object.
type Sel struct {
	field int
	idx   *Term
}

// Object is a piece of memory.
type Object struct {
	id        int
	name      string
	typ       types.Type
	fresh     bool // allocated by the code under verification
	readonly  bool // part of a constant global
	attrs     map[string]Value
	initial   Value // content on entry, for pre-existing objects
	global    *ssa.Global
	seqno     int
	movedFrom int
}

// ---------- types

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isTime(t types.Type) bool { return typeName(t) == "time.Time" }

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeName(p.Elem())
	}
	return t.String()
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	bits := 0
	signed := true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Int, types.Int64, types.UntypedInt:
		bits = 64
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		bits, signed = 64, false
	default:
		return nil, nil, false
	}
	if signed {
		h := new(big.Int).Lsh(bigOne, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne), true
	}
	return bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne), true
}

func basicSort(b *types.Basic) (Sort, bool) {
	switch {
	case b.Info()&types.IsInteger != 0:
		return SInt, true
	case b.Info()&types.IsBoolean != 0:
		return SBool, true
	case b.Info()&types.IsString != 0:
		return SSeq, true
	case b.Kind() == types.Float32:
		return SF32, true
	case b.Kind() == types.Float64 || b.Kind() == types.UntypedFloat:
		return SF64, true
	}
	return 0, false
}

// expandStruct reports whether the engine gives a struct type its fields.
func (x *Exec) expandStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, x.prog.module) {
		return true
	}
	switch typeName(t) {
	case "bytes.Buffer", "bytes.Reader", "time.Timer", "time.Ticker", "net/http.Server", "github.com/tarm/serial.Config", "log/slog.HandlerOptions", "net/http.Request", "net/url.URL",
		twirpPath + ".ServerOptions":
		return true
	}
	return false
}

// zeroValue is the zero value of a type.
func (x *Exec) zeroValue(t types.Type) Value {
	if isTime(t) {
		return I(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, ok := basicSort(u)
		if !ok {
			if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
				return NilV{}
			}
			return OpaqueV{ref: I(0), typ: t}
		}
		switch s {
		case SInt:
			return I(0)
		case SBool:
			return False
		case SSeq:
			return Empty
		default:
			return FConst(s, 0)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return NilV{}
	case *types.Slice:
		return SliceV{0, I(0), I(0), I(0), True}
	case *types.Interface:
		return IfaceV{ref: I(0)}
	case *types.Struct:
		if !x.expandStruct(t) {
			return OpaqueV{ref: I(0), typ: t}
		}
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = x.zeroValue(u.Field(i).Type())
		}
		return StructV{fs}
	case *types.Array:
		if isByte(u.Elem()) {
			return Zeros(I(u.Len()))
		}
		if u.Len() > 4096 {
			return OpaqueV{ref: I(0), typ: t}
		}
		es := make([]Value, u.Len())
		for i := range es {
			es[i] = x.zeroValue(u.Elem())
		}
		return ArrayV{es}
	case *types.Tuple:
		vs := make(TupleV, u.Len())
		for i := range vs {
			vs[i] = x.zeroValue(u.At(i).Type())
		}
		return vs
	}
	return OpaqueV{ref: I(0), typ: t}
}

func (x *Exec) newObj(name string, t types.Type, fresh bool) *Object {
	x.nextObj++
	o := &Object{id: x.nextObj, name: name, typ: t, fresh: fresh}
	x.objs[o.id] = o
	return o
}

// symValue is an arbitrary value of a type. Memory reachable from it is made of
// new pre-existing objects (or fresh ones if fresh is set).
func (x *Exec) symValue(t types.Type, name string, fresh bool, depth int) Value {
	if isTime(t) {
		return FreshR(name, nil, nil)
	}
	if typeName(t) == "time.Ticker" {
		v := x.symValue(t.Underlying(), name, fresh, depth)
		for _, f := range v.(StructV).f {
			if c, ok := f.(ChanV); ok {
				x.objs[c.obj].attrs["kind"] = "ticker"
			}
		}
		return v
	}
	if tn := typeName(t); tn == "*"+twirpPath+".ServerHooks" || tn == twirpPath+".Interceptor" {
		return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t} // may be nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, ok := basicSort(u)
		if !ok {
			return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t}
		}
		if s == SInt {
			lo, hi, _ := intRange(u)
			return FreshR(name, lo, hi)
		}
		return Fresh(name, s)
	case *types.Pointer:
		if depth <= 0 {
			return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t}
		}
		o := x.newObj(name, u.Elem(), fresh)
		o.initial = x.symValue(u.Elem(), name, fresh, depth-1)
		return PtrV{obj: o.id}
	case *types.Slice:
		if isByte(u.Elem()) {
			d := Fresh(name, SSeq)
			ex := Fresh(name+".beyond", SSeq)
			o := x.newObj(name, types.NewArray(u.Elem(), -1), fresh)
			o.initial = Concat(d, ex)
			isnil := Fresh(name+".nil", SBool)
			x.entryAssume = append(x.entryAssume, Implies(isnil, And(Eq(Len(d), I(0)), Eq(Len(ex), I(0)))))
			return SliceV{o.id, I(0), Len(d), Add(Len(d), Len(ex)), isnil}
		}
		return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t}
	case *types.Interface:
		return IfaceV{ref: FreshR(name, bigZero, nil)}
	case *types.Struct:
		if !x.expandStruct(t) {
			return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t}
		}
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = x.symValue(u.Field(i).Type(), name+"."+u.Field(i).Name(), fresh, depth)
		}
		return StructV{fs}
	case *types.Array:
		if isByte(u.Elem()) {
			s := Fresh(name, SSeq)
			x.entryAssume = append(x.entryAssume, Eq(Len(s), I(u.Len())))
			return s
		}
		if u.Len() > 64 {
			return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t}
		}
		es := make([]Value, u.Len())
		for i := range es {
			es[i] = x.symValue(u.Elem(), fmt.Sprintf("%s.%d", name, i), fresh, depth)
		}
		return ArrayV{es}
	case *types.Chan:
		o := x.newObj(name, t, fresh)
		o.attrs = map[string]Value{"kind": "chan"}
		if u.Dir() == types.RecvOnly && typeName(u.Elem()) == "time.Time" {
			o.attrs["kind"] = "timer"
		}
		o.initial = OpaqueV{ref: I(0)}
		return ChanV{o.id}
	case *types.Signature:
		return FuncV{ref: FreshR(name, bigOne, nil), name: name}
	case *types.Map:
		return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t}
	case *types.Tuple:
		vs := make(TupleV, u.Len())
		for i := range vs {
			vs[i] = x.symValue(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), fresh, depth)
		}
		return vs
	}
	return OpaqueV{ref: FreshR(name, bigZero, nil), typ: t}
}

// valueEq is the condition under which two values of a type are equal
// (deep for structs and arrays, contents for strings; nil if undecided).
func (x *Exec) valueEq(a, b Value) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok && p.sort == q.sort {
			return Eq(p, q)
		}
	case StructV:
		q, ok := b.(StructV)
		if ok && len(q.f) == len(p.f) {
			cs := []*Term{}
			for i := range p.f {
				c := x.valueEq(p.f[i], q.f[i])
				if c == nil {
					return nil
				}
				cs = append(cs, c)
			}
			return And(cs...)
		}
	case ArrayV:
		q, ok := b.(ArrayV)
		if ok && len(q.e) == len(p.e) {
			cs := []*Term{}
			for i := range p.e {
				c := x.valueEq(p.e[i], q.e[i])
				if c == nil {
					return nil
				}
				cs = append(cs, c)
			}
			return And(cs...)
		}
	case SliceV:
		q, ok := b.(SliceV)
		if ok {
			if p.obj == q.obj {
				return And(Eq(p.off, q.off), Eq(p.len, q.len), Eq(p.isnil, q.isnil))
			}
			// the same slice only if both are nil
			if p.len == I(0) && q.len == I(0) {
				return Eq(p.isnil, q.isnil)
			}
			return And(p.isnil, q.isnil)
		}
	case PtrV:
		switch q := b.(type) {
		case PtrV:
			return B(p.obj == q.obj && pathKey(p.path) == pathKey(q.path))
		case NilV:
			return False
		}
	case NilV:
		switch q := b.(type) {
		case NilV:
			return True
		case PtrV, MapV, ChanV:
			return False
		case FuncV:
			return False
		case OpaqueV:
			return Eq(q.ref, I(0))
		}
	case MapV:
		switch q := b.(type) {
		case MapV:
			return B(p.obj == q.obj)
		case NilV:
			return False
		}
	case ChanV:
		switch q := b.(type) {
		case ChanV:
			return B(p.obj == q.obj)
		case NilV:
			return False
		}
	case FuncV:
		switch q := b.(type) {
		case NilV:
			return False
		case FuncV:
			if p.fn == q.fn && p.ref == q.ref && len(p.bind) == len(q.bind) {
				cs := []*Term{}
				for i := range p.bind {
					c := x.valueEq(p.bind[i], q.bind[i])
					if c == nil {
						return nil
					}
					cs = append(cs, c)
				}
				return And(cs...)
			}
		}
	case IfaceV:
		q, ok := b.(IfaceV)
		if ok {
			if p.typ != nil && q.typ != nil {
				if !types.Identical(p.typ, q.typ) {
					return False
				}
				if c := x.valueEq(p.val, q.val); c != nil {
					return c
				}
				if p.ref == q.ref {
					return True
				}
				return nil
			}
			return Eq(p.ref, q.ref)
		}
	case OpaqueV:
		switch q := b.(type) {
		case OpaqueV:
			return Eq(p.ref, q.ref)
		case NilV:
			return Eq(p.ref, I(0))
		}
	case TupleV:
		q, ok := b.(TupleV)
		if ok && len(p) == len(q) {
			cs := []*Term{}
			for i := range p {
				c := x.valueEq(p[i], q[i])
				if c == nil {
					return nil
				}
				cs = append(cs, c)
			}
			return And(cs...)
		}
	case MapContent:
		q, ok := b.(MapContent)
		if ok && len(p.keys) == len(q.keys) {
			for i := range p.keys {
				if c := x.valueEq(p.keys[i], q.keys[i]); c != True {
					return nil
				}
				if c := x.valueEq(p.vals[i], q.vals[i]); c != True {
					return nil
				}
			}
			return True
		}
	case nil:
		if b == nil {
			return True
		}
	}
	return nil
}

func pathKey(p []Sel) string {
	var sb strings.Builder
	for _, s := range p {
		if s.idx != nil {
			fmt.Fprintf(&sb, "[%d]", s.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", s.field)
		}
	}
	return sb.String()
}

// mergeIte merges two values under a condition, or returns nil.
func (x *Exec) mergeIte(c *Term, a, b Value) Value {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok && p.sort == q.sort {
			return Ite(c, p, q)
		}
	case IfaceV:
		if q, ok := b.(IfaceV); ok && p.typ == nil && q.typ == nil {
			return IfaceV{ref: Ite(c, p.ref, q.ref)}
		}
	}
	if e := x.valueEq(a, b); e == True {
		return a
	}
	return nil
}

func showValue(x *Exec, v Value) string {
	switch p := v.(type) {
	case *Term:
		s := p.String()
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		return s
	case StructV:
		var ss []string
		for _, f := range p.f {
			ss = append(ss, showValue(x, f))
		}
		return "{" + strings.Join(ss, ", ") + "}"
	case SliceV:
		return fmt.Sprintf("slice(obj %d off %s len %s nil %s)", p.obj, p.off, p.len, p.isnil)
	case PtrV:
		n := ""
		if o := x.objs[p.obj]; o != nil {
			n = o.name
		}
		return fmt.Sprintf("&obj%d<%s>%s", p.obj, n, pathKey(p.path))
	case IfaceV:
		if p.typ != nil {
			return fmt.Sprintf("iface(%s, %s)", p.typ, showValue(x, p.val))
		}
		return fmt.Sprintf("iface(ref %s)", p.ref)
	case FuncV:
		if p.fn != nil {
			return "func " + p.fn.String()
		}
		return "func " + p.name
	}
	return fmt.Sprintf("%T%v", v, v)
}

func sortedKeys[M ~map[string]V, V any](m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
