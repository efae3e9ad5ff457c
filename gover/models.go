package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ScanV is the state of a bufio.Scanner: an unread suffix of a stream.
type ScanV struct {
	conn   IfaceV
	split  Value
	stream *Term // all bytes the connection yields to this scanner
	pos    *Term // bytes consumed
	tok    Value
	err    Value
	known  bool // created by the code under verification
	done   bool
	limit  *Term // size of a full buffer
	buf    int   // buffer given by the caller
}

type modelResult struct{ outs []Outcome }

func ret(st *State, v Value) *modelResult { return &modelResult{outs1(st, v)} }

var nilErr = IfaceV{ref: I(0)}

// newError is a fresh non-nil error value.
func (x *Exec) newError() IfaceV {
	x.nextErr++
	return IfaceV{ref: I(-x.nextErr)}
}

// model gives the meaning of functions outside the module; nil if fn has none.
func (x *Exec) model(t *Thread, fn *ssa.Function, args []Value, pos token.Pos) *modelResult {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if inModule(fn) && fn.Blocks != nil {
		return nil
	}
	st := t.st
	r := x.model1(t, fn, name, args, pos)
	if r != nil && x.mute == 0 && !x.initMode {
		x.trusted[name] = true
	}
	_ = st
	return r
}

func (x *Exec) model1(t *Thread, fn *ssa.Function, name string, args []Value, pos token.Pos) *modelResult {
	st := t.st
	term := func(i int) *Term {
		v, ok := args[i].(*Term)
		if !ok {
			x.give_up("%s: argument %d is %T", name, i, args[i])
		}
		return v
	}
	bytesOf := func(i int) *Term {
		switch v := args[i].(type) {
		case *Term:
			return v
		case SliceV:
			if v.obj != 0 {
				x.access(t, PtrV{obj: v.obj}, false, pos)
			}
			return x.seqOf(st, v)
		case NilV:
			return Empty
		}
		x.give_up("%s: argument %d is %T", name, i, args[i])
		return nil
	}
	if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
		op := name[strings.LastIndexByte(name, '.')+1:]
		switch op {
		case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
			return &modelResult{x.lockOp(t, args[0], op, pos)}
		}
		return nil
	}
	switch name {
	case "errors.New":
		e := x.newError()
		if s, ok := seqString(term(0)); ok {
			x.errText[e.ref] = s
		}
		return ret(st, e)
	case "errors.Join":
		var refs []*Term
		if s, ok := args[0].(SliceV); ok && s.obj != 0 {
			ar, ok := x.content(st, s.obj).(ArrayV)
			if !ok || !s.len.isInt() || !s.off.isInt() {
				x.give_up("errors.Join of an unknown slice")
			}
			for _, e := range ar.e[s.off.k.Int64() : s.off.k.Int64()+s.len.k.Int64()] {
				refs = append(refs, e.(IfaceV).ref)
			}
		}
		all := True
		for _, r := range refs {
			all = And(all, Eq(r, I(0)))
		}
		all = st.simp(all)
		x.nextErr++
		return ret(st, IfaceV{ref: Ite(all, I(0), I(-x.nextErr))})
	case "errors.Is":
		a, b := args[0].(IfaceV), args[1].(IfaceV)
		e := st.simp(Eq(a.ref, b.ref))
		if e == True {
			return ret(st, True)
		}
		if a.ref == I(0) {
			return ret(st, B(b.ref == I(0)))
		}
		if a.ref.isInt() && b.ref.isInt() && x.wraps[a.ref] == nil {
			return ret(st, False)
		}
		is := Fresh("is", SBool)
		st.assume(Implies(e, is))
		st.assume(Implies(And(Eq(a.ref, I(0)), Ne(b.ref, I(0))), Not(is)))
		for _, w := range x.wraps[a.ref] {
			st.assume(Implies(Eq(w, b.ref), is))
		}
		return ret(st, is)
	case "fmt.Errorf":
		e := x.newError()
		if s, ok := seqString(term(0)); ok {
			x.errText[e.ref] = s
		}
		if len(args) > 1 {
			if s, ok := args[1].(SliceV); ok && s.obj != 0 {
				if ar, ok := x.content(st, s.obj).(ArrayV); ok {
					for _, v := range ar.e {
						if iv, ok := v.(IfaceV); ok && iv.typ == nil {
							if x.wraps == nil {
								x.wraps = map[*Term][]*Term{}
							}
							x.wraps[e.ref] = append(x.wraps[e.ref], iv.ref)
						}
					}
				}
			}
		}
		return ret(st, e)
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		return ret(st, Fresh("sprint", SSeq))
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "log.Printf", "log.Println", "log.Print":
		return ret(st, x.havocResult(fn.Signature))
	case "strings.TrimSpace":
		return ret(st, UF("TRIM", SSeq, term(0)))
	case "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.ToUpper", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Replace", "strings.ReplaceAll", "strings.Repeat", "strconv.Itoa", "strconv.Quote", "(time.Duration).String", "strings.TrimFunc", "(*strings.Builder).String":
		return ret(st, Fresh("str", SSeq))
	case "bytes.Clone", "slices.Clone":
		s, ok := args[0].(SliceV)
		if !ok {
			return nil
		}
		if _, ok := x.content(st, s.obj).(*Term); s.obj != 0 && !ok {
			return nil
		}
		r := x.newBytes(st, "clone", bytesOf(0), false)
		r.isnil = s.isnil
		return ret(st, r)
	case "slices.Equal":
		if _, ok := args[0].(SliceV); ok {
			return ret(st, Eq(bytesOf(0), bytesOf(1)))
		}
	case "bytes.ReplaceAll":
		if bytesOf(1) == SeqStr("\x07") && bytesOf(2) == SeqStr("\x07\x07") {
			return ret(st, x.newBytes(st, "replace", UF("ESC", SSeq, bytesOf(0)), false))
		}
		return ret(st, x.newBytes(st, "replace", Fresh("replace", SSeq), false))
	case "bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.Index", "strings.Index",
		"bytes.Contains", "strings.Contains":
		var pat *Term
		if strings.Contains(name, "IndexByte") {
			pat = Unit(term(1))
		} else {
			pat = bytesOf(1)
		}
		s := bytesOf(0)
		r := FreshR("index", big64(-1), maxLen)
		st.assume(Or(Lt(r, I(0)), And(Le(Add(r, Len(pat)), Len(s)), Eq(tt.mk(OSub, SSeq, "", nil, nil, s, r, Len(pat)), pat))))
		if strings.HasPrefix(x.pkgKey(), "rpc/") {
			// the first occurrence is not after the end of these
			for _, k := range []string{"application/json", "application/protobuf"} {
				j := I(int64(len(k)))
				st.assume(Implies(And(Le(Add(j, Len(pat)), Len(s)), Eq(tt.mk(OSub, SSeq, "", nil, nil, s, j, Len(pat)), pat)), And(Le(I(0), r), Le(r, j))))
			}
		}
		if pat == SeqStr("\x07") {
			// nothing to escape in front of the first one
			st.assume(Implies(Lt(r, I(0)), And(Eq(UF("ESC", SSeq, s), s), Eq(UF("UE", SSeq, s), s))))
			head := Sub(s, I(0), r)
			st.assume(Implies(Ge0(r), And(Eq(UF("ESC", SSeq, head), head), Eq(UF("UE", SSeq, head), head))))
		}
		if strings.HasSuffix(name, "Contains") {
			return ret(st, Ge0(r))
		}
		return ret(st, r)
	case "internal/bytealg.MakeNoZero":
		n := term(0)
		if !x.oblige(t, "panic", "length in range", pos, And(Ge0(n), Le(n, I(1<<47)))) {
			return &modelResult{}
		}
		b := Fresh("nozero", SSeq)
		st.assume(Eq(Len(b), n))
		return ret(st, x.newBytes(st, "nozero", b, false))
	case "bytes.Count", "strings.Count":
		b, pat := bytesOf(0), bytesOf(1)
		if pat == SeqStr("\x07") {
			n := Sub2(Len(UF("ESC", SSeq, b)), Len(b))
			// none: nothing to escape, and nothing to unescape
			st.assume(Implies(Le(n, I(0)), And(Eq(UF("ESC", SSeq, b), b), Eq(UF("UE", SSeq, b), b))))
			return ret(st, n)
		}
		n := FreshR("count", bigZero, nil)
		st.assume(Le(n, Add(Len(b), I(1))))
		return ret(st, n)
	case "bytes.ContainsAny", "strings.ContainsAny":
		return ret(st, x.havocResult(fn.Signature))

	// time
	case "time.Now":
		return ret(st, x.advance(st))
	case "time.Since":
		now := x.advance(st)
		return ret(st, satSub(now, term(0)))
	case "time.Until":
		now := x.advance(st)
		return ret(st, satSub(term(0), now))
	case "(time.Time).Sub":
		return ret(st, satSub(term(0), term(1)))
	case "(time.Time).Add":
		return ret(st, Add(term(0), term(1)))
	case "(time.Time).After":
		return ret(st, Lt(term(1), term(0)))
	case "(time.Time).Before":
		return ret(st, Lt(term(0), term(1)))
	case "(time.Time).Equal":
		return ret(st, Eq(term(0), term(1)))
	case "(time.Time).Compare":
		return ret(st, Ite(Lt(term(0), term(1)), I(-1), Ite(Eq(term(0), term(1)), I(0), I(1))))
	case "(time.Time).IsZero":
		return ret(st, Eq(term(0), I(0)))
	case "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).String", "(time.Time).Format", "(time.Duration).Seconds", "(time.Duration).Milliseconds":
		return ret(st, x.havocResult(fn.Signature))
	case "time.Sleep":
		x.advance(st)
		return ret(st, nil)
	case "time.NewTimer", "time.NewTicker", "time.After", "time.Tick":
		kind := "timer"
		if strings.HasSuffix(name, "Ticker") || strings.HasSuffix(name, "Tick") {
			kind = "ticker"
			if strings.HasSuffix(name, "Ticker") && !x.oblige(t, "panic", "ticker period is positive", pos, Lt(I(0), term(0))) {
				return &modelResult{}
			}
		}
		tp, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
		ct := types.NewChan(types.RecvOnly, x.timeType(fn))
		c := x.newObj(kind, ct, true)
		c.attrs = map[string]Value{"kind": kind, "dur": term(0), "since": x.clock(st)}
		st.heap[c.id] = OpaqueV{ref: I(0)}
		if !ok {
			return ret(st, ChanV{c.id})
		}
		o := x.newObj(kind, tp.Elem(), true)
		v := x.zeroValue(tp.Elem()).(StructV)
		s := tp.Elem().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "C" {
				v.f[i] = ChanV{c.id}
			}
		}
		st.heap[o.id] = v
		return ret(st, PtrV{obj: o.id})
	case "(*time.Timer).Stop", "(*time.Ticker).Stop":
		return ret(st, x.havocResult(fn.Signature))
	case "(*time.Timer).Reset", "(*time.Ticker).Reset":
		p, ok := x.derefVal(t, args[0], pos)
		if !ok {
			return &modelResult{}
		}
		if sv, ok := x.content(st, p.obj).(StructV); ok {
			for _, f := range sv.f {
				if c, ok := f.(ChanV); ok {
					st.ghost[fmt.Sprintf("reset:%d", c.obj)] = True
					delete(st.ghost, fmt.Sprintf("fired:%d", c.obj))
				}
			}
		}
		return ret(st, x.havocResult(fn.Signature))

	// bufio.Scanner
	case "bufio.NewScanner":
		iv, ok := args[0].(IfaceV)
		if !ok {
			return nil
		}
		o := x.newObj("scanner", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), true)
		st.heap[o.id] = &ScanV{conn: iv, pos: I(0), tok: SliceV{0, I(0), I(0), I(0), True}, err: nilErr, known: true, limit: I(65536)}
		return ret(st, PtrV{obj: o.id})
	case "(*bufio.Scanner).Split", "(*bufio.Scanner).Buffer":
		p, ok := x.derefVal(t, args[0], pos)
		if !ok {
			return &modelResult{}
		}
		x.access(t, p, true, pos)
		sc, ok := x.content(st, p.obj).(*ScanV)
		if !ok {
			x.unsupported(t, pos, "split on an unknown scanner")
			return ret(st, nil)
		}
		if sc.stream != nil {
			x.oblige(t, "panic", "Split and Buffer are called before scanning starts", pos, False)
			return &modelResult{}
		}
		n := *sc
		if strings.HasSuffix(name, ".Buffer") {
			sl, ok := args[1].(SliceV)
			if !ok {
				sl = SliceV{0, I(0), I(0), I(0), True}
			}
			if sl.obj != 0 && !x.objs[sl.obj].fresh {
				x.unsupported(t, pos, "a scanner buffer that was not allocated here")
			}
			max := term(2)
			n.limit = st.simp(Ite(Lt(max, sl.cap), sl.cap, max))
			n.buf = sl.obj
			if !x.holdsQuick(st, Le(I(1), n.limit)) {
				x.unsupported(t, pos, "a scanner buffer that may be empty")
			}
		} else {
			n.split = args[1]
		}
		st.heap[p.obj] = &n
		return ret(st, nil)
	case "(*bufio.Scanner).Scan":
		return &modelResult{x.scan(t, args[0], pos)}
	case "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text", "(*bufio.Scanner).Err":
		p, ok := x.derefVal(t, args[0], pos)
		if !ok {
			return &modelResult{}
		}
		x.access(t, p, false, pos)
		sc, ok := x.content(st, p.obj).(*ScanV)
		if !ok {
			return ret(st, x.havocResult(fn.Signature))
		}
		switch name[len("(*bufio.Scanner)."):] {
		case "Err":
			return ret(st, sc.err)
		case "Text":
			return ret(st, x.seqOf(st, sc.tok.(SliceV)))
		}
		return ret(st, sc.tok)

	// twirp errors
	case "github.com/twitchtv/twirp.InvalidArgumentError", "github.com/twitchtv/twirp.RequiredArgumentError":
		return ret(st, x.codeError("invalid_argument"))
	case "github.com/twitchtv/twirp.InternalError", "github.com/twitchtv/twirp.InternalErrorWith", "github.com/twitchtv/twirp.InternalErrorf":
		return ret(st, x.codeError("internal"))
	case "github.com/twitchtv/twirp.NotFoundError":
		return ret(st, x.codeError("not_found"))
	case "github.com/twitchtv/twirp.NewError", "github.com/twitchtv/twirp.NewErrorf":
		code := "?"
		if s, ok := seqString(term(0)); ok {
			code = s
		}
		return ret(st, x.codeError(code))

	case "net.Dial", "net.DialTimeout":
		pre := st.fork()
		bad := st.fork()
		conn := IfaceV{ref: FreshR("conn", bigOne, nil)}
		good := TupleV{conn, nilErr}
		x.recordEvent(st, pre, name, nil, args, good)
		err := TupleV{IfaceV{ref: I(0)}, IfaceV{ref: FreshR("err", bigOne, nil)}}
		x.recordEvent(bad, pre, name, nil, args, err)
		return &modelResult{[]Outcome{{st, good}, {bad, err}}}
	case "github.com/tarm/serial.OpenPort":
		pre := st.fork()
		bad := st.fork()
		p, ok := args[0].(PtrV)
		if !ok {
			x.oblige(t, "panic", "the configuration is not nil", pos, False)
			return &modelResult{}
		}
		cfg, ok := x.content(st, p.obj).(StructV)
		if !ok || len(p.path) > 0 {
			x.give_up("serial.OpenPort: unknown configuration")
		}
		args = append(append([]Value{}, cfg.f...), p)
		o := x.newObj("port", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), true)
		st.heap[o.id] = OpaqueV{ref: FreshR("port", bigOne, nil)}
		good := TupleV{PtrV{obj: o.id}, nilErr}
		x.recordEvent(st, pre, name, nil, args, good)
		err := TupleV{NilV{}, IfaceV{ref: FreshR("err", bigOne, nil)}}
		x.recordEvent(bad, pre, name, nil, args, err)
		return &modelResult{[]Outcome{{st, good}, {bad, err}}}

	case "(net/http.HandlerFunc).ServeHTTP":
		f, ok := args[0].(FuncV)
		if !ok {
			return nil
		}
		if f.fn != nil {
			return &modelResult{x.callStatic(t, f.fn, f.bind, args[1:], pos)}
		}
		x.recordEvent(st, st, "handler", nil, append([]Value{f}, args[1:]...), nil)
		return ret(st, nil)
	case "(net/http.Header).Set", "(net/http.Header).Add":
		x.recordEvent(st, st, name, nil, args, nil)
		return ret(st, nil)
	case "github.com/spf13/viper.GetString", "github.com/spf13/viper.GetBool":
		// settings are read after start-up: the same key gives the same value
		key, ok := seqString(term(0))
		if !ok {
			x.give_up("a setting of an unknown name")
		}
		v := x.setting(fn.Name() == "GetBool", key)
		x.recordEvent(st, st, name, nil, args, v)
		return ret(st, v)
	case "github.com/spf13/viper.SetEnvPrefix", "github.com/spf13/viper.AutomaticEnv", "github.com/spf13/pflag.Parse":
		x.recordEvent(st, st, name, nil, args, nil)
		return ret(st, nil)
	case "github.com/spf13/viper.BindPFlags": // fails for no flag set but nil
		v := IfaceV{ref: I(0)}
		x.recordEvent(st, st, name, nil, args, v)
		return ret(st, v)
	case "github.com/spf13/pflag.Bool", "github.com/spf13/pflag.String":
		v := x.havocResult(fn.Signature)
		x.recordEvent(st, st, name, nil, args, v)
		return ret(st, v)
	case "(*net/http.Server).ListenAndServe", "(*net/http.Server).Close":
		// serving ends with an error
		v := IfaceV{ref: FreshR("err", bigOne, nil)}
		x.recordEvent(st, st, name, nil, args, v)
		return ret(st, v)
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		code := Value(I(1))
		if name == "os.Exit" {
			code = args[0]
		}
		if st.inGo > 0 {
			return nil
		}
		x.recordEvent(st, st, "os.Exit", nil, []Value{code}, nil)
		if x.mute == 0 {
			x.exits = append(x.exits, Outcome{st, nil})
		}
		return &modelResult{}
	}
	if strings.HasPrefix(name, "log/slog.") || strings.HasPrefix(name, "(*log/slog.") || strings.HasPrefix(name, "(log/slog.") {
		return ret(st, x.havocResult(fn.Signature))
	}
	if strings.HasPrefix(name, "(*github.com/gorilla/mux.") || strings.HasPrefix(name, "github.com/gorilla/mux.") {
		v := x.havocResult(fn.Signature)
		if fn.Signature.Results().Len() == 1 {
			v = OpaqueV{ref: FreshR("mux", bigOne, nil), typ: fn.Signature.Results().At(0).Type()}
			// a method that returns a value of its receiver's type returns the receiver
			if rc := fn.Signature.Recv(); rc != nil && types.Identical(rc.Type(), fn.Signature.Results().At(0).Type()) && !strings.HasPrefix(fn.Name(), "Get") && fn.Name() != "Get" {
				v = args[0]
			}
		}
		x.recordEvent(st, st, name, nil, args, v)
		return ret(st, v)
	}
	if x.initMode {
		return ret(st, x.havocResult(fn.Signature))
	}
	if m := x.rpcModel(t, fn, name, args, pos); m != nil {
		return m
	}
	return nil
}

func (x *Exec) timeType(fn *ssa.Function) types.Type {
	for _, p := range x.prog.ssa.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Pkg.Scope().Lookup("Time").Type()
		}
	}
	return types.Typ[types.Int64]
}

func satSub(a, b *Term) *Term {
	d := Sub2(a, b)
	hi := new(big.Int).Sub(new(big.Int).Lsh(bigOne, 63), bigOne)
	lo := new(big.Int).Neg(new(big.Int).Lsh(bigOne, 63))
	return Ite(Le(IB(hi), d), IB(hi), Ite(Le(d, IB(lo)), IB(lo), d))
}

func seqString(t *Term) (string, bool) {
	var sb strings.Builder
	for _, p := range pieces(t) {
		if p.op != OUnit || !p.args[0].isInt() {
			return "", false
		}
		sb.WriteByte(byte(p.args[0].k.Int64()))
	}
	return sb.String(), true
}

func (x *Exec) codeError(code string) IfaceV {
	e := x.newError()
	if x.codes == nil {
		x.codes = map[*Term]string{}
	}
	x.codes[e.ref] = code
	return e
}

// derefVal is deref for a value.
func (x *Exec) derefVal(t *Thread, v Value, pos token.Pos) (PtrV, bool) {
	switch p := v.(type) {
	case PtrV:
		return p, true
	case NilV:
		x.oblige(t, "panic", "pointer is not nil", pos, False)
		return PtrV{}, false
	case OpaqueV:
		if !x.oblige(t, "panic", "pointer is not nil", pos, Ne(p.ref, I(0))) {
			return PtrV{}, false
		}
	}
	o := x.newObj("opaque", types.Typ[types.Int], true)
	o.initial = OpaqueV{ref: FreshR("opaque", bigOne, nil)}
	return PtrV{obj: o.id}, true
}

// ---------- connections

func connKey(iv IfaceV) string { return fmt.Sprintf("%d", iv.ref.id) }

// stream is the n-th stream of bytes read from a connection by the target.
func (x *Exec) streamVar(iv IfaceV, n int) *Term {
	if x.streams == nil {
		x.streams = map[string]*Term{}
	}
	k := fmt.Sprintf("%s/%d", connKey(iv), n)
	if s, ok := x.streams[k]; ok {
		return s
	}
	s := Fresh("R", SSeq)
	x.streams[k] = s
	return s
}

// io notes an access to a connection.
func (x *Exec) io(st *State, iv IfaceV, read bool) {
	k := connKey(iv)
	st.ghost["dio:"+k] = Add(ghostInt(st, "dio:"+k), I(1))
	locks := map[string]bool{}
	for _, l := range append(append([]string{}, st.outer...), heldLocks(st)...) {
		if x.isGlobalLock(l) {
			locks[l] = true
		}
	}
	x.ioLocks(st, locks)
	if read {
		st.ghost["reads"] = Add(ghostInt(st, "reads"), I(1))
		if st.ghost["readtx:"+k] == nil {
			st.ghost["readtx:"+k] = ghostSeq(st, "tx:"+k)
		}
	}
}

// LockSet is a ghost set of lock acquisitions.
type LockSet string

func (x *Exec) ioLocks(st *State, locks map[string]bool) {
	cur, ok := st.ghost["iolocks"].(LockSet)
	if ok {
		keep := map[string]bool{}
		for _, l := range strings.Split(string(cur), "|") {
			if l != "" && locks[l] {
				keep[l] = true
			}
		}
		locks = keep
	}
	st.ghost["iolocks"] = LockSet(strings.Join(sortedKeys(locks), "|"))
}

// invokeModel calls a method of an interface whose dynamic type is unknown.
func (x *Exec) invokeModel(t *Thread, c *ssa.CallCommon, iv IfaceV, args []Value, pos token.Pos) []Outcome {
	st := t.st
	m := c.Method.Name()
	it := typeName(c.Value.Type())
	sig := c.Method.Type().(*types.Signature)
	k := connKey(iv)
	if f, ok := x.mirror[iv.ref]; ok {
		if fn := x.prog.ssa.LookupMethod(f.typ, c.Method.Pkg(), m); fn != nil {
			return x.callStatic(t, fn, nil, append([]Value{f.val}, args...), pos)
		}
	}
	switch {
	case m == "Error" && sig.Params().Len() == 0:
		return outs1(st, Fresh("errstr", SSeq))
	case m == "Write" && strings.HasPrefix(it, "io."):
		s, ok := args[0].(SliceV)
		if !ok {
			x.give_up("write of %T", args[0])
		}
		if s.obj != 0 {
			x.access(t, PtrV{obj: s.obj}, false, pos)
		}
		b := x.seqOf(st, s)
		x.io(st, iv, false)
		bad := st.fork()
		st.ghost["tx:"+k] = Concat(ghostSeq(st, "tx:"+k), b)
		n := FreshR("n", bigZero, maxLen)
		bad.assume(Le(n, s.len))
		bad.ghost["tx:"+k] = Concat(ghostSeq(bad, "tx:"+k), Sub(b, I(0), n))
		bad.ghost["wfail"] = True
		return []Outcome{{st, TupleV{s.len, nilErr}}, {bad, TupleV{n, IfaceV{ref: FreshR("werr", bigOne, nil)}}}}
	case m == "Read" && strings.HasPrefix(it, "io."):
		x.io(st, iv, true)
		if st.inGo == 0 {
			x.oblige(t, "wait", "waiting for the unit's reply also waits on a timer", pos, False)
		}
		x.unsupported(t, pos, "direct read from the connection")
		return nil
	case m == "Close":
		x.recordEvent(st, st, "Close", nil, []Value{iv}, nil)
		return outs1(st, x.havocResult(sig))
	}
	pre := st.fork()
	v := x.havocResult(sig)
	name := it + "." + m
	if strings.HasPrefix(it, "context.") {
		return outs1(st, v)
	}
	x.recordEvent(st, pre, name, nil, append([]Value{iv}, args...), v)
	if !strings.HasPrefix(it, modulePath) && !strings.HasPrefix(it, "net/http.") && !strings.HasPrefix(it, "github.com/twitchtv/twirp.") {
		x.unsupported(t, pos, "call of %s, which has no model", name)
	}
	return outs1(st, v)
}

// scan is bufio.Scanner.Scan for every chunking of the stream.
func (x *Exec) scan(t *Thread, recv Value, pos token.Pos) []Outcome {
	p, ok := x.derefVal(t, recv, pos)
	if !ok {
		return nil
	}
	st := t.st
	x.access(t, p, true, pos)
	sc, ok := x.content(st, p.obj).(*ScanV)
	if !ok {
		// a scanner made elsewhere
		st.ghost["reads"] = Add(ghostInt(st, "reads"), I(1))
		if st.inGo == 0 {
			x.oblige(t, "wait", "waiting for the unit's reply also waits on a timer", pos, False)
		}
		return outs1(st, Fresh("scan", SBool))
	}
	if st.inGo == 0 {
		if !x.oblige(t, "wait", "waiting for the unit's reply also waits on a timer", pos, False) {
			return nil
		}
	}
	if sc.split == nil {
		x.unsupported(t, pos, "scanner with the default split function")
		return nil
	}
	x.io(st, sc.conn, true)
	n := *sc
	if n.stream == nil {
		k := "rxn:" + connKey(sc.conn)
		cnt := ghostInt(st, k)
		if !cnt.isInt() {
			x.give_up("symbolic number of streams")
		}
		n.stream = x.streamVar(sc.conn, int(cnt.k.Int64()))
		st.ghost[k] = Add(cnt, I(1))
	}
	// the previous token's memory is reused
	if tok, ok := n.tok.(SliceV); ok && tok.obj != 0 {
		if c, ok := x.content(st, tok.obj).(*Term); ok {
			f := Fresh("reused", SSeq)
			st.assume(Eq(Len(f), Len(c)))
			st.heap[tok.obj] = f
		}
	}
	n.tok = SliceV{0, I(0), I(0), I(0), True}
	if n.done {
		st.heap[p.obj] = &n
		return outs1(st, False)
	}
	rest := Sub2(Len(n.stream), n.pos)
	var outs []Outcome
	finish := func(s *State, ns ScanV, ok bool) {
		c := ns
		s.heap[p.obj] = &c
		outs = append(outs, Outcome{s, B(ok)})
	}
	// one call of the split function stands for every amount of data available
	{
		atEOF := Fresh("eof", SBool)
		var most *big.Int
		if n.limit.isInt() {
			if n.limit.k.Sign() < 0 {
				n.limit = I(0)
			}
			most = n.limit.k
		}
		d := FreshR("avail", bigZero, most)
		s := st.fork()
		if n.buf != 0 {
			if c, ok := x.content(s, n.buf).(*Term); ok {
				f := Fresh("scanned", SSeq)
				s.assume(Eq(Len(f), Len(c)))
				s.heap[n.buf] = f
			}
		}
		if most == nil && !s.assume(Le(d, n.limit)) {
			return outs
		}
		if !s.assume(Or(And(atEOF, Eq(d, rest)), And(Not(atEOF), Le(I(1), d), Le(d, rest)))) {
			return outs
		}
		data := Sub(n.stream, n.pos, d)
		ex := Fresh("buf", SSeq)
		o := x.newObj("buffer", types.NewArray(types.Typ[types.Uint8], -1), true)
		s.heap[o.id] = Concat(data, ex)
		sl := SliceV{o.id, I(0), d, Add(d, Len(ex)), False}
		before := s.heap
		beforeCopy := copyMap(before)
		wr := copyMap(s.written)
		for _, oc := range x.dispatchFn(&Thread{s, t.fr}, n.split, []Value{sl, atEOF}, pos) {
			r := oc.val.(TupleV)
			adv, tok, err := r[0].(*Term), r[1], r[2].(IfaceV)
			q := oc.st
			// the split function reports an error
			errNil := q.simp(Eq(err.ref, I(0)))
			if errNil != True {
				e := q.fork()
				if e.assume(Not(errNil)) && x.feasible(e) {
					ns := n
					ns.err, ns.done = err, true
					finish(e, ns, false)
				}
				if !q.assume(errNil) {
					continue
				}
			}
			// advance outside the data is an error
			inR := q.simp(And(Ge0(adv), Le(adv, d)))
			if inR != True {
				e := q.fork()
				if e.assume(Not(inR)) && x.feasible(e) {
					ns := n
					ns.err, ns.done = x.newError(), true
					finish(e, ns, false)
				}
				if !q.assume(inR) {
					continue
				}
			}
			ts, ok := tok.(SliceV)
			if !ok {
				if _, isnil := tok.(NilV); isnil {
					ts = SliceV{0, I(0), I(0), I(0), True}
				} else {
					x.give_up("token %T", tok)
				}
			}
			// a token
			nilc := q.simp(ts.isnil)
			if nilc != True {
				e := q.fork()
				if e.assume(Not(nilc)) && x.feasible(e) {
					zero := e.simp(Eq(adv, I(0)))
					if zero != False {
						z := e.fork()
						if z.assume(zero) && x.feasible(z) {
							x.unsupported(&Thread{z, t.fr}, pos, "a token without progress")
						}
						if !e.assume(Not(zero)) {
							continue
						}
					}
					ns := n
					ns.pos = Add(n.pos, adv)
					ns.tok = ts
					finish(e, ns, true)
				}
				if !q.assume(nilc) {
					continue
				}
			}
			if !x.feasible(q) {
				continue
			}
			// no token: progress without a token starts over with other state
			zero := q.simp(Eq(adv, I(0)))
			if zero != True {
				z := q.fork()
				if z.assume(Not(zero)) && x.feasible(z) {
					x.unsupported(&Thread{z, t.fr}, pos, "progress without a token")
				}
				if !q.assume(zero) || !x.feasible(q) {
					continue
				}
			}
			again := q.fork()
			if again.assume(Not(atEOF)) && x.feasible(again) {
				// asked again with more data: nothing may have changed
				for id := range again.written {
					if wr[id] && again.heap[id] == nil {
						continue
					}
					if x.objs[id].fresh && beforeCopy[id] == nil {
						continue // allocated by the split function
					}
					if id == o.id {
						continue
					}
					if e := x.safeEq(beforeCopy[id], again.heap[id]); e != True {
						if e == nil {
							e = False
						}
						if !x.holdsQuick(again, e) {
							x.unsupported(&Thread{again, t.fr}, pos, "the split function changes %s without a token", x.objs[id].name)
						}
					}
				}
				// the buffer is full
				f := again.fork()
				if f.assume(Eq(d, n.limit)) && x.feasible(f) {
					ns := n
					ns.err, ns.done = x.newError(), true
					finish(f, ns, false)
				}
			}
			if !q.assume(atEOF) || !x.feasible(q) {
				continue
			}
			// end of the stream or a read error
			ns := n
			ns.done = true
			finish(q.fork(), ns, false)
			ns.err = IfaceV{ref: FreshR("rerr", bigOne, nil)}
			q.ghost["rfail"] = True
			finish(q, ns, false)
		}
	}
	return outs
}

func (x *Exec) safeEq(a, b Value) *Term {
	if a == nil || b == nil {
		return nil
	}
	return x.valueEq(a, b)
}

func (x *Exec) holdsQuick(st *State, c *Term) bool {
	c = st.simp(c)
	if c.isBool() {
		return c == True
	}
	r, _ := prove(append(st.pc[:len(st.pc):len(st.pc)], x.entryAssume...), c, 0)
	return r == Valid
}

// dispatchFn calls a function value.
func (x *Exec) dispatchFn(t *Thread, fn Value, args []Value, pos token.Pos) []Outcome {
	switch f := fn.(type) {
	case FuncV:
		if f.fn != nil {
			return x.callStatic(t, f.fn, f.bind, args, pos)
		}
		if f.name != "" {
			x.give_up("call of an unknown function %s", f.name)
		}
	}
	x.give_up("call of %T", fn)
	return nil
}

// pkgKey is the key of the function under verification.
func (x *Exec) pkgKey() string {
	if x.tgt == nil || x.tgt.con == nil {
		return ""
	}
	return x.tgt.con.key
}

// setting is the value of a configuration setting.
func (x *Exec) setting(boolean bool, key string) Value {
	if x.settings == nil {
		x.settings = map[string]Value{}
	}
	k := fmt.Sprint(boolean, key)
	if x.settings[k] == nil {
		sort := SSeq
		if boolean {
			sort = SBool
		}
		x.settings[k] = Fresh("setting."+key, sort)
	}
	return x.settings[k]
}
