package main

import (
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const twirpPath = "github.com/twitchtv/twirp"

// rpcModel gives the meaning of the library functions the generated RPC server calls.
func (x *Exec) rpcModel(t *Thread, fn *ssa.Function, name string, args []Value, pos token.Pos) *modelResult {
	st := t.st
	switch name {
	case "(*" + twirpPath + ".ServerOptions).ReadOpt":
		p, ok := args[0].(PtrV)
		if !ok {
			return nil
		}
		sv, ok := x.content(st, p.obj).(StructV)
		if !ok {
			return nil
		}
		switch m := sv.f[0].(type) {
		case NilV:
			return ret(st, False)
		case MapV:
			if mc, ok := x.content(st, m.obj).(MapContent); ok && len(mc.keys) == 0 {
				return ret(st, False)
			}
		}
		return nil
	case twirpPath + ".ChainInterceptors":
		switch s := args[0].(type) {
		case NilV:
			return ret(st, NilV{})
		case SliceV:
			if s.len == I(0) {
				return ret(st, NilV{})
			}
		}
		return nil
	}
	term := func(i int) *Term {
		v, ok := args[i].(*Term)
		if !ok {
			x.give_up("%s: argument %d is %T", name, i, args[i])
		}
		return v
	}
	// fork2 gives the two outcomes of an operation that may fail
	fork2 := func(evArgs []Value, good func(st *State) Value) *modelResult {
		pre := st.fork()
		bad := st.fork()
		err := IfaceV{ref: FreshR("err", bigOne, nil)}
		rs := fn.Signature.Results()
		var g, b Value
		if rs.Len() == 1 {
			var last Value = good(st)
			g = nilErr
			if last != nil {
				g = TupleV{nilErr, last} // the event also tells what was decoded
			}
			b = err
			x.recordEvent(st, pre, name, nil, evArgs, g)
			x.recordEvent(bad, pre, name, nil, evArgs, b)
			return &modelResult{[]Outcome{{st, nilErr}, {bad, err}}}
		}
		g = TupleV{good(st), nilErr}
		b = TupleV{x.havocResult(fn.Signature).(TupleV)[0], err}
		x.recordEvent(st, pre, name, nil, evArgs, g)
		x.recordEvent(bad, pre, name, nil, evArgs, b)
		return &modelResult{[]Outcome{{st, g}, {bad, b}}}
	}
	// fill puts arbitrary contents into the message v points to
	fill := func(v Value) func(st *State) Value {
		return func(st *State) Value {
			p, ok := v.(IfaceV)
			if !ok || p.typ == nil {
				x.give_up("%s: unknown target", name)
			}
			q, ok := p.val.(PtrV)
			if !ok || len(q.path) > 0 {
				x.give_up("%s: unknown target", name)
			}
			c := x.symValue(x.objs[q.obj].typ, "decoded", true, 2)
			x.access(t, q, true, pos)
			x.setContent(st, q.obj, c)
			return c
		}
	}
	inner := func(v Value) Value {
		if p, ok := v.(IfaceV); ok && p.typ != nil {
			return p.val
		}
		return v
	}
	switch name {
	case "strings.ToLower":
		// lower-case letters and punctuation stay as they are
		r := Fresh("lower", SSeq)
		for _, k := range []string{"application/json", "application/protobuf"} {
			st.assume(Implies(Eq(term(0), SeqStr(k)), Eq(r, SeqStr(k))))
			st.assume(Implies(Eq(r, SeqStr(k)), Eq(UF("TRIM", SSeq, r), SeqStr(k))))
		}
		return ret(st, r)
	case "path.Join":
		var es []string
		if s, ok := args[0].(SliceV); ok && s.off.isInt() && s.len.isInt() {
			if c, ok := x.content(st, s.obj).(ArrayV); ok {
				for _, e := range c.e[s.off.k.Int64() : s.off.k.Int64()+s.len.k.Int64()] {
					k, ok := x.knownString(st, e.(*Term))
					if !ok {
						return ret(st, Fresh("path", SSeq))
					}
					es = append(es, k)
				}
				return ret(st, SeqStr(path.Join(es...)))
			}
		}
		return ret(st, Fresh("path", SSeq))
	case "strings.Split":
		s := st.simp(term(0))
		sep, ok := seqString(term(1))
		if !ok || len(sep) != 1 {
			return nil
		}
		strs := func(st *State, es ...Value) Outcome {
			o := x.newObj("split", types.NewArray(types.Typ[types.String], int64(len(es))), true)
			st.heap[o.id] = ArrayV{es}
			return Outcome{st, SliceV{o.id, I(0), I(int64(len(es))), I(int64(len(es))), False}}
		}
		if k, ok := x.knownString(st, s); ok {
			var es []Value
			for _, p := range strings.Split(k, sep) {
				es = append(es, SeqStr(p))
			}
			return &modelResult{[]Outcome{strs(st, es...)}}
		}
		two, many := st.fork(), st.fork()
		a, b, h := Fresh("part", SSeq), Fresh("part", SSeq), Fresh("parts", SSeq)
		two.assume(Eq(s, Concat(a, SeqStr(sep), b)))
		many.assume(Eq(s, Concat(h, SeqStr(sep), a, SeqStr(sep), b)))
		n := FreshR("parts", big64(3), maxLen)
		o := x.newObj("split", types.NewSlice(types.Typ[types.String]), true)
		many.heap[o.id] = SplitV{sep, n, []*Term{b, a}, h}
		return &modelResult{[]Outcome{strs(st, s), strs(two, a, b), {many, SliceV{o.id, I(0), n, n, False}}}}
	case "strings.Join":
		s, ok := args[0].(SliceV)
		if !ok {
			return ret(st, Fresh("join", SSeq))
		}
		sep, isSep := seqString(term(1))
		switch c := x.content(st, s.obj).(type) {
		case SplitV:
			if isSep && sep == c.sep && s.off == I(0) && st.simp(Eq(Add(s.len, I(int64(len(c.last)))), c.n)) == True {
				return ret(st, c.head)
			}
		case ArrayV:
			if s.off.isInt() && s.len.isInt() {
				es := c.e[s.off.k.Int64() : s.off.k.Int64()+s.len.k.Int64()]
				r := Empty
				for i, e := range es {
					if i > 0 {
						r = Concat(r, term(1))
					}
					r = Concat(r, e.(*Term))
				}
				return ret(st, r)
			}
		}
		return ret(st, Fresh("join", SSeq))
	case "(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Del":
		v := x.havocResult(fn.Signature)
		x.recordEvent(st, st, name, nil, args, v)
		return ret(st, v)
	case "(*net/http.Request).Context", "context.Background", "context.TODO":
		return ret(st, IfaceV{ref: FreshR("ctx", bigOne, nil)})
	case twirpPath + ".WrapError", twirpPath + ".InternalErrorWith":
		return ret(st, IfaceV{ref: FreshR("err", bigOne, nil)})
	case twirpPath + ".ServerHTTPStatusFromErrorCode":
		return ret(st, x.errStatus(st))
	case "errors.As":
		p, ok := inner(args[1]).(PtrV)
		e, isErr := args[0].(IfaceV)
		if !ok || !isErr {
			return nil
		}
		no := st.fork()
		x.access(t, p, true, pos)
		nv := Value(IfaceV{ref: FreshR("as", bigOne, nil)})
		if len(p.path) > 0 {
			nv = x.updateVal(x.content(st, p.obj), p.path, nv)
		}
		x.setContent(st, p.obj, nv)
		st.assume(Ne(e.ref, I(0)))
		return &modelResult{[]Outcome{{st, True}, {no, False}}}
	case "encoding/json.Marshal":
		return fork2(args, func(st *State) Value { return x.newBytes(st, "encoded", Fresh("encoded", SSeq), false) })
	case "encoding/json.NewDecoder":
		o := x.newObj("decoder", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), true)
		st.heap[o.id] = ArrayV{[]Value{args[0]}}
		return ret(st, PtrV{obj: o.id})
	case "(*encoding/json.Decoder).Decode":
		p, ok := args[0].(PtrV)
		if !ok {
			return nil
		}
		rd := x.content(st, p.obj).(ArrayV).e[0]
		return fork2([]Value{rd, inner(args[1])}, fill(args[1]))
	case "io.ReadAll":
		return fork2(args, func(st *State) Value { return x.newBytes(st, "body", Fresh("body", SSeq), false) })
	case "(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", "(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal":
		return fork2([]Value{x.bytesArg(t, args[1], pos), inner(args[2])}, fill(args[2]))
	case "google.golang.org/protobuf/encoding/protojson.Unmarshal", "google.golang.org/protobuf/proto.Unmarshal":
		return fork2([]Value{x.bytesArg(t, args[0], pos), inner(args[1])}, fill(args[1]))
	case "(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", "(google.golang.org/protobuf/proto.MarshalOptions).Marshal":
		return fork2([]Value{inner(args[1])}, func(st *State) Value { return x.newBytes(st, "encoded", Fresh("encoded", SSeq), false) })
	case "google.golang.org/protobuf/encoding/protojson.Marshal", "google.golang.org/protobuf/proto.Marshal":
		return fork2([]Value{inner(args[0])}, func(st *State) Value { return x.newBytes(st, "encoded", Fresh("encoded", SSeq), false) })
	}
	if strings.HasPrefix(name, twirpPath+"/ctxsetters.") {
		return ret(st, IfaceV{ref: FreshR("ctx", bigOne, nil)})
	}
	return nil
}

// errStatus is the HTTP status of an error code: some number that is not 200.
func (x *Exec) errStatus(st *State) *Term {
	r := FreshR("status", bigZero, nil)
	st.assume(Ne(r, I(200)))
	return r
}

// SplitV is the content of a slice of strings.Split's result for an unknown string: n parts of
// which the last ones are known; head is what the others are when joined again.
type SplitV struct {
	sep  string
	n    *Term
	last []*Term // from the end
	head *Term
}

func (c SplitV) at(st *State, idx *Term) Value {
	for k, l := range c.last {
		if idx != nil && st.simp(Eq(Add(idx, I(int64(k+1))), c.n)) == True {
			return l
		}
	}
	return Fresh("part", SSeq)
}

// bytesArg is what a byte slice holds at the time of a call.
func (x *Exec) bytesArg(t *Thread, v Value, pos token.Pos) Value {
	s, ok := v.(SliceV)
	if !ok {
		return v
	}
	if s.obj != 0 {
		x.access(t, PtrV{obj: s.obj}, false, pos)
	}
	return x.seqOf(t.st, s)
}

// knownString is the constant a string is known to be equal to.
func (x *Exec) knownString(st *State, t *Term) (string, bool) {
	t = st.simp(t)
	if k, ok := seqString(t); ok {
		return k, true
	}
	for _, c := range st.pc {
		if c.op != OEq || len(c.args) != 2 {
			continue
		}
		for i := range c.args {
			if c.args[i] == t {
				if k, ok := seqString(c.args[1-i]); ok {
					return k, true
				}
			}
		}
	}
	return "", false
}
