package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is the activation of one function on one path.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	depth  int
	loops  *loopInfo
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

func (f *Frame) fork() *Frame {
	n := *f
	n.regs = copyMap(f.regs)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

// Thread is a path inside one function activation.
type Thread struct {
	st *State
	fr *Frame
}

// Outcome is the end of a call on one path.
type Outcome struct {
	st  *State
	val Value // TupleV for several results, nil for none
}

// Obligation is one verification condition.
type Obligation struct {
	kind  string // panic, ensures, frame, lock, wait, race, terminates, invariant, unsupported, requires
	desc  string
	fn    string
	pos   string
	pc    []*Term
	goal  *Term
	trace []string
	props []string // properties the clause belongs to (nil: every property of the target)
	label string
	res   Result
	by    string
	alts  []*Term // alternative goals: one of them suffices (witness candidates)
	state *State
}

// Exec explores the paths of one target.
type Exec struct {
	prog        *Program
	objs        map[int]*Object
	nextObj     int
	entryAssume []*Term
	obls        []*Obligation
	mute        int
	globalObjs  map[*ssa.Global]int
	target      string
	useCuts     bool
	noCut       map[string]bool
	unsup       []string // constructs the engine could not follow
	nextErr     int64
	exits       []Outcome // where the program ends
	settings    map[string]Value
	depth       int
	steps       int
	maxSteps    int
	callstack   []*ssa.Function
	env         *specEnv // of the target
	used        map[string]bool
	inlined     map[string]bool
	loopStat    map[string]int
	initMode    bool
	lockEdges   map[string]bool
	effects     *effects
	conns       map[string]bool
	appendForks bool
	failed      string
	trusted     map[string]bool
	refute      int // >0: unroll loops this many times instead of using invariants
	allStates   []*State
	fromInit    map[int]int
	wraps       map[*Term][]*Term
	errText     map[*Term]string
	codes       map[*Term]string
	streams     map[string]*Term
	mirror      map[*Term]IfaceV
	tgt         *Target
	ver         *Verifier
	inLoop      int
	escaped     map[int]bool
	acquired    map[string]LockRef // locks taken by the target
	effWrites   map[string]bool
	conflict    bool
	evFuncs     map[string]bool
	loopNotes   []string
	watches     []*watch
	recorded    map[string]bool
	trial       []*loop
	noUnroll    map[*ssa.BasicBlock]bool
	loopMemo    map[*ssa.BasicBlock]map[string]bool
	noMemo      bool
}

func newExec(p *Program) *Exec {
	x := &Exec{prog: p, objs: map[int]*Object{}, globalObjs: map[*ssa.Global]int{}, noCut: map[string]bool{},
		used: map[string]bool{}, inlined: map[string]bool{}, loopStat: map[string]int{}, lockEdges: map[string]bool{},
		conns: map[string]bool{}, trusted: map[string]bool{}, fromInit: map[int]int{}, maxSteps: 60000,
		acquired: map[string]LockRef{}, effWrites: map[string]bool{}, evFuncs: map[string]bool{},
		noUnroll: map[*ssa.BasicBlock]bool{}, loopMemo: map[*ssa.BasicBlock]map[string]bool{},
		errText: map[*Term]string{}, codes: map[*Term]string{}}
	if h := p.initHeap; h != nil {
		// values made by package initialisation keep their identity
		x.nextErr = h.x.nextErr
		for k, v := range h.x.errText {
			x.errText[k] = v
		}
		for k, v := range h.x.codes {
			x.codes[k] = v
		}
		x.wraps = copyMap(h.x.wraps)
	}
	return x
}

type tooComplex struct{ why string }

func (x *Exec) give_up(format string, a ...interface{}) {
	panic(tooComplex{fmt.Sprintf(format, a...)})
}

func (x *Exec) where(fr *Frame, pos token.Pos) string {
	if !pos.IsValid() && fr != nil {
		pos = fr.fn.Pos()
	}
	p := x.prog.fset.Position(pos)
	f := p.Filename
	if strings.HasPrefix(f, x.prog.dir+"/") {
		f = f[len(x.prog.dir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// oblige records a verification condition and assumes it afterwards.
// It reports whether the path continues.
func (x *Exec) oblige(th *Thread, kind, desc string, pos token.Pos, goal *Term) bool {
	g := th.st.simp(goal)
	if g == True {
		x.countTrivial(kind)
		return true
	}
	if x.mute == 0 {
		fn := ""
		if th.fr != nil {
			fn = funcName(th.fr.fn)
		}
		o := &Obligation{kind: kind, desc: desc, fn: fn, pos: x.where(th.fr, pos),
			pc: th.st.pc[:len(th.st.pc):len(th.st.pc)], goal: g, trace: th.st.trace, state: th.st}
		x.obls = append(x.obls, o)
	}
	return th.st.assume(g)
}

var trivial = map[string]int{}

func (x *Exec) countTrivial(kind string) {
	if x.mute == 0 {
		trivial[kind]++
		x.loopStat["trivial:"+kind]++
	}
}

// unsupported records a construct outside the engine's reach.
func (x *Exec) unsupported(th *Thread, pos token.Pos, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if x.mute == 0 {
		fn := ""
		if th != nil && th.fr != nil {
			fn = funcName(th.fr.fn)
		}
		o := &Obligation{kind: "unsupported", desc: msg, fn: fn, goal: False}
		if th != nil {
			o.pos = x.where(th.fr, pos)
			o.pc = th.st.pc[:len(th.st.pc):len(th.st.pc)]
			o.trace = th.st.trace
			o.state = th.st
		}
		x.obls = append(x.obls, o)
	}
}

func funcName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	s := f.String()
	s = strings.ReplaceAll(s, modulePath+"/", "")
	s = strings.ReplaceAll(s, modulePath+".", "main.")
	return s
}

// feasible checks whether a path can be taken.
func (x *Exec) feasible(st *State) bool {
	for _, c := range st.pc {
		if c == False {
			return false
		}
	}
	if pastStop() {
		x.give_up("out of time")
	}
	r, _ := checkAbs(append(append([]*Term{}, st.pc...), x.entryAssume...), 400)
	return r != "unsat"
}

// ---------- memory

func (x *Exec) content(st *State, obj int) Value {
	if v, ok := st.heap[obj]; ok {
		return v
	}
	o := x.objs[obj]
	return o.initial
}

func (x *Exec) setContent(st *State, obj int, v Value) {
	st.heap[obj] = v
	st.written[obj] = true
}

func (x *Exec) globalObj(g *ssa.Global) int {
	if id, ok := x.globalObjs[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	o := x.newObj(globalName(g), t, false)
	o.global = g
	x.globalObjs[g] = o.id
	if x.initMode {
		o.initial = x.zeroValue(t)
		return o.id
	}
	if x.prog.constGlobals[g] {
		v, ok := x.prog.initHeap.value(x, g)
		if ok {
			o.initial = v
			o.readonly = true
			return o.id
		}
	}
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modulePath) {
		o.initial = x.symValue(t, o.name, false, 3)
	} else {
		o.initial = x.externGlobal(g, t)
	}
	return o.id
}

func (x *Exec) externGlobal(g *ssa.Global, t types.Type) Value {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if _, ok := t.Underlying().(*types.Interface); ok {
		return IfaceV{ref: I(x.prog.externRef(name))}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		_ = p
		return OpaqueV{ref: I(x.prog.externRef(name)), typ: t}
	}
	return x.symValue(t, name, false, 1)
}

func globalName(g *ssa.Global) string {
	p := g.Pkg.Pkg.Path()
	if p == modulePath {
		return "main." + g.Name()
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		p = p[i+1:]
	}
	return p + "." + g.Name()
}

// load reads through a pointer.
func (x *Exec) load(th *Thread, p PtrV, pos token.Pos) Value {
	x.access(th, p, false, pos)
	v := x.content(th.st, p.obj)
	for _, s := range p.path {
		v = x.selectVal(th, v, s)
	}
	return v
}

func (x *Exec) selectVal(th *Thread, v Value, s Sel) Value {
	switch c := v.(type) {
	case StructV:
		if s.idx == nil {
			return c.f[s.field]
		}
	case ArrayV:
		if s.idx != nil && s.idx.isInt() {
			return c.e[s.idx.k.Int64()]
		}
		if s.idx != nil {
			// symbolic index: merge
			var r Value
			for i := len(c.e) - 1; i >= 0; i-- {
				if r == nil {
					r = c.e[i]
					continue
				}
				r = x.mergeIte(Eq(s.idx, I(int64(i))), c.e[i], r)
				if r == nil {
					x.give_up("symbolic index into array of references")
				}
			}
			return r
		}
	case *Term:
		if s.idx != nil && c.sort == SSeq {
			return th.st.nth(c, s.idx)
		}
	case SplitV:
		return c.at(th.st, s.idx)
	case OpaqueV:
		return OpaqueV{ref: UF("field", SInt, c.ref, I(int64(s.field))), typ: nil}
	}
	x.give_up("select %v of %T", s, v)
	return nil
}

func (x *Exec) updateVal(v Value, path []Sel, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch c := v.(type) {
	case StructV:
		fs := append([]Value{}, c.f...)
		fs[s.field] = x.updateVal(c.f[s.field], path[1:], nv)
		return StructV{fs}
	case ArrayV:
		if s.idx.isInt() {
			es := append([]Value{}, c.e...)
			i := s.idx.k.Int64()
			es[i] = x.updateVal(c.e[i], path[1:], nv)
			return ArrayV{es}
		}
	case *Term:
		if c.sort == SSeq && s.idx != nil {
			return SeqSet(c, s.idx, Unit(nv.(*Term)))
		}
	case OpaqueV:
		return OpaqueV{ref: FreshR("opaque", bigOne, nil), typ: c.typ}
	}
	x.give_up("update of %T at %v", v, s)
	return nil
}

func (x *Exec) store(th *Thread, p PtrV, v Value, pos token.Pos) {
	x.access(th, p, true, pos)
	th.st.writes[fmt.Sprintf("%d:%s", p.obj, pathKey(p.path))] = true
	if len(p.path) == 0 {
		x.setContent(th.st, p.obj, v)
		return
	}
	x.setContent(th.st, p.obj, x.updateVal(x.content(th.st, p.obj), p.path, v))
}

// access checks sharing and lock discipline for one memory access.
func (x *Exec) access(th *Thread, p PtrV, write bool, pos token.Pos) {
	if why, ok := th.st.detach[p.obj]; ok && th.st.inGo == 0 {
		x.oblige(th, "race", "access to memory shared with an abandoned goroutine ("+why+")", pos, False)
	}
	o := x.objs[p.obj]
	if th.st.stale[p.obj] {
		panic(restartForks{})
	}
	if write {
		for m := o.movedFrom; m != 0; m = x.objs[m].movedFrom {
			th.st.stale[m] = true
		}
	}
	if write && th.st.moved[p.obj] {
		panic(restartForks{})
	}
	if o.readonly && write && !x.initMode {
		x.oblige(th, "frame", "write to the constant package variable "+o.name, pos, False)
	}
	x.guardCheck(th, p, o, write, pos)
}

// seqOf is the content of a byte slice.
func (x *Exec) seqOf(st *State, s SliceV) *Term {
	if s.obj == 0 || s.len == I(0) {
		return Empty
	}
	c, ok := x.content(st, s.obj).(*Term)
	if !ok {
		x.give_up("bytes of a non-byte slice")
	}
	return st.sub(c, s.off, s.len)
}

// newBytes allocates a byte slice with the given content and unknown spare capacity.
func (x *Exec) newBytes(st *State, name string, content *Term, exact bool) SliceV {
	o := x.newObj(name, types.NewArray(types.Typ[types.Uint8], -1), true)
	cp := Len(content)
	full := content
	if !exact {
		ex := Fresh(name+".spare", SSeq)
		full = Concat(content, ex)
		cp = Add(Len(content), Len(ex))
	}
	st.heap[o.id] = full
	return SliceV{o.id, I(0), Len(content), cp, False}
}

// ---------- constants

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return x.zeroValue(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		return x.zeroValue(c.Type())
	}
	s, _ := basicSort(b)
	switch s {
	case SBool:
		return B(constant.BoolVal(c.Value))
	case SSeq:
		return SeqStr(constant.StringVal(c.Value))
	case SInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return I(i)
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return IB(n)
	default:
		f, _ := constant.Float64Val(c.Value)
		return FConst(s, f)
	}
}

func (x *Exec) val(th *Thread, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return PtrV{obj: x.globalObj(c)}
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Builtin:
		return FuncV{name: "builtin:" + c.Name()}
	case *ssa.FreeVar:
		for i, f := range th.fr.fn.FreeVars {
			if f == c {
				return th.fr.regs[th.fr.fn.FreeVars[i]]
			}
		}
	}
	r, ok := th.fr.regs[v]
	if !ok {
		x.give_up("no value for %s in %s", v.Name(), th.fr.fn)
	}
	return r
}

func (x *Exec) term(th *Thread, v ssa.Value) *Term {
	t, ok := x.val(th, v).(*Term)
	if !ok {
		x.give_up("%s of %s is not scalar", v.Name(), th.fr.fn)
	}
	return t
}

// wrapInt reduces t to the range of an integer type.
func (x *Exec) wrapInt(th *Thread, t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	iv := th.st.iv(t)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return t
	}
	in := And(Le(IB(lo), t), Le(t, IB(hi)))
	if th.st.simp(in) == True {
		return t
	}
	if hi.BitLen() >= 31 && !x.initMode {
		// wide types rarely wrap: ask the solver before introducing a modulus
		if r, _ := prove(append(th.st.pc[:len(th.st.pc):len(th.st.pc)], x.entryAssume...), in, 0); r == Valid {
			th.st.assume(in)
			return t
		}
	}
	n := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	if lo.Sign() == 0 {
		return Mod(t, IB(n))
	}
	return Add(Mod(Sub2(t, IB(lo)), IB(n)), IB(lo))
}

// ---------- running

// run explores threads until they return or satisfy stop at a block entry.
func (x *Exec) run(ts []*Thread, stop func(*Thread) bool) (stopped []*Thread, outs []Outcome) {
	work := append([]*Thread{}, ts...)
	for len(work) > 0 {
		th := work[len(work)-1]
		work = work[:len(work)-1]
		next, st, os := x.runBlock(th, stop)
		work = append(work, next...)
		stopped = append(stopped, st...)
		outs = append(outs, os...)
		x.steps++
		if x.steps > x.maxSteps {
			x.give_up("more than %d steps", x.maxSteps)
		}
	}
	return
}

// runBlock executes from the thread's position to the end of its block.
func (x *Exec) runBlock(th *Thread, stop func(*Thread) bool) (next, stopped []*Thread, outs []Outcome) {
	work := []*Thread{th}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		ins := t.fr.block.Instrs[t.fr.pc]
		switch i := ins.(type) {
		case *ssa.If:
			c := t.st.simp(x.term(t, i.Cond))
			if n := len(x.trial); n > 0 && c != True && c != False && x.trial[n-1].header == t.fr.block {
				panic(abortTrial{x.trial[n-1]})
			}
			for k, cc := range []*Term{c, Not(c)} {
				if cc == False {
					continue
				}
				n := t
				if c != True && c != False {
					n = &Thread{t.st.fork(), t.fr.fork()}
					if !n.st.assume(cc) {
						continue
					}
					if !x.feasible(n.st) {
						continue
					}
				}
				a, b, o := x.jump(n, t.fr.block.Succs[k], stop)
				next, stopped, outs = append(next, a...), append(stopped, b...), append(outs, o...)
			}
		case *ssa.Jump:
			a, b, o := x.jump(t, t.fr.block.Succs[0], stop)
			next, stopped, outs = append(next, a...), append(stopped, b...), append(outs, o...)
		case *ssa.Return:
			var v Value
			switch len(i.Results) {
			case 0:
			case 1:
				v = x.val(t, i.Results[0])
			default:
				tv := TupleV{}
				for _, r := range i.Results {
					tv = append(tv, x.val(t, r))
				}
				v = tv
			}
			outs = append(outs, Outcome{t.st, v})
		case *ssa.Panic:
			x.oblige(t, "panic", "explicit panic is unreachable", i.Pos(), False)
		default:
			for _, n := range x.step(t, ins) {
				n.fr.pc++
				work = append(work, n)
			}
		}
	}
	return
}

// jump moves a thread to a successor block, evaluating phis.
func (x *Exec) jump(th *Thread, to *ssa.BasicBlock, stop func(*Thread) bool) (next, stopped []*Thread, outs []Outcome) {
	from := th.fr.block
	idx := -1
	for k, p := range to.Preds {
		if p == from {
			idx = k
		}
	}
	vals := map[ssa.Value]Value{}
	pc := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = x.val(th, phi.Edges[idx])
		pc++
	}
	for k, v := range vals {
		th.fr.regs[k] = v
	}
	th.fr.prev = from
	th.fr.block = to
	th.fr.pc = pc
	if stop != nil && stop(th) {
		return nil, []*Thread{th}, nil
	}
	if l := th.fr.loops.header[to]; l != nil && !l.blocks[from] {
		ex, o := x.enterLoop(th, l, stop)
		for _, e := range ex {
			if stop != nil && stop(e) {
				stopped = append(stopped, e)
				continue
			}
			next = append(next, e)
		}
		return next, stopped, o
	}
	return []*Thread{th}, nil, nil
}

// callFunc executes a function body.
func (x *Exec) callFunc(st *State, fn *ssa.Function, bind []Value, args []Value) []Outcome {
	if fn.Blocks == nil {
		x.give_up("no body: %s", fn)
	}
	if len(x.callstack) > 60 {
		x.give_up("call depth at %s", fn)
	}
	for _, f := range x.callstack {
		if f == fn {
			x.give_up("recursive call of %s", fn)
		}
	}
	if os.Getenv("GOVER_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%*scall %s mute=%d\n", len(x.callstack), "", fn, x.mute)
	}
	x.callstack = append(x.callstack, fn)
	defer func() { x.callstack = x.callstack[:len(x.callstack)-1] }()
	if x.mute == 0 {
		x.inlined[funcName(fn)] = true
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0], loops: x.prog.loopsOf(fn)}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = bind[i]
	}
	th := &Thread{st, fr}
	if l := fr.loops.header[fn.Blocks[0]]; l != nil {
		x.give_up("loop at function entry")
	}
	_, outs := x.run([]*Thread{th}, nil)
	return outs
}
