package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// effects of a verified function on what its callers can see.
type effects struct {
	acquired map[string]LockRef
	globals  map[string]*ssa.Global // written
	params   map[int]bool           // written through
	writes   bool                   // writes to a connection
	reads    bool                   // reads from a connection
	streams  int
	timed    bool
	fresh    bool // results do not share memory with anything else
}

// Target is one function to verify against its contract.
type Target struct {
	con         *Contract
	fn          *ssa.Function
	bh          *Behaviour // nil: the contract itself
	forever     bool
	onIteration func(x *Exec, head, back *Thread)
}

// TargetResult is the outcome of verifying a target.
type TargetResult struct {
	con     *Contract
	bh      *Behaviour
	name    string
	obls    []*Obligation
	eff     *effects
	tags    []string
	paths   int
	trivial int
	aborted string
	elapsed time.Duration
	inlined []string
	used    []string
	trusted []string
	notes   []string
	edges   []string
	vacuous []string
	busy    bool
}

// failed obligations
func (r *TargetResult) failures() []*Obligation {
	var fs []*Obligation
	for _, o := range r.obls {
		if o.res != Valid {
			fs = append(fs, o)
		}
	}
	return fs
}

// Verifier runs targets on demand.
type Verifier struct {
	prog     *Program
	spec     *Spec
	results  map[string]*TargetResult
	order    []string
	slow     int
	deadline time.Time
	stack    []string
	noApply  map[string]bool
	verbose  bool
}

// resolve binds contracts to the functions of the current tree.
func (v *Verifier) resolve() {
	for _, c := range v.spec.contracts {
		c.fn = v.lookup(c.key)
	}
	// exported functions without a contract get one without conditions
	for _, a := range v.spec.autos {
		p := v.prog.pkgByShort(a[0])
		if p == nil {
			continue
		}
		for _, f := range v.prog.allFuncs() {
			if f.Pkg != p || f.Parent() != nil || f.Synthetic != "" || f.Blocks == nil || isInit(f) {
				continue
			}
			if f.Object() == nil || !f.Object().Exported() {
				continue
			}
			if v.contractOf(f) != nil {
				continue
			}
			c := &Contract{key: keyOf(f), fn: f, props: a[1:], auto: true, modifyAny: true, inline: true}
			for _, pr := range f.Params {
				c.params = append(c.params, pr.Name())
			}
			if v.spec.byKey[c.key] == nil {
				v.spec.byKey[c.key] = c
				v.spec.contracts = append(v.spec.contracts, c)
			}
		}
	}
}

// keyOf renders a function as in contracts: pkg.F or pkg.(*T).M.
func keyOf(f *ssa.Function) string {
	n := funcName(f)
	if strings.HasPrefix(n, "(*") {
		i := strings.Index(n, ".")
		return n[2:i] + ".(*" + n[i+1:]
	}
	if strings.HasPrefix(n, "(") {
		i := strings.Index(n, ".")
		return n[1:i] + "." + strings.Replace(n[i+1:], ")", "", 1)
	}
	return n
}

func (v *Verifier) lookup(key string) *ssa.Function {
	i := strings.Index(key, ".")
	if i < 0 {
		return nil
	}
	p := v.prog.pkgByShort(key[:i])
	if p == nil {
		return nil
	}
	rest := key[i+1:]
	if strings.HasPrefix(rest, "(*") {
		j := strings.Index(rest, ")")
		return v.prog.lookupFunc(p, "*"+rest[2:j], rest[j+2:])
	}
	if j := strings.Index(rest, "."); j >= 0 {
		return v.prog.lookupFunc(p, rest[:j], rest[j+1:])
	}
	return v.prog.lookupFunc(p, "", rest)
}

func (v *Verifier) contractOf(f *ssa.Function) *Contract {
	for _, c := range v.spec.contracts {
		if c.fn == f {
			return c
		}
	}
	return nil
}

// usable returns the contract to apply at a call of f, or nil.
func (v *Verifier) usable(x *Exec, f *ssa.Function) *Contract {
	c := v.contractOf(f)
	if c == nil || c.inline || c.modifyAny || x.tgt != nil && x.tgt.con == c || v.noApply[c.key] {
		return nil
	}
	if len(f.Params) != len(c.params) {
		return nil
	}
	for _, s := range v.stack {
		if s == c.key {
			return nil
		}
	}
	if v.reaches(f, x.evFuncs) {
		return nil
	}
	if !x.useCuts {
		return nil
	}
	r := v.run(c, nil)
	if r.aborted != "" || r.eff == nil || !r.eff.fresh {
		return nil
	}
	for _, o := range r.failures() {
		switch o.kind {
		case "panic", "terminates", "wait", "race", "ensures":
			// what else is stated about returns still holds
		default:
			return nil
		}
	}
	if len(r.eff.globals) > 0 || len(r.eff.params) > 0 {
		return nil
	}
	return c
}

// reaches: a call of f may lead to one of the named functions.
func (v *Verifier) reaches(f *ssa.Function, names map[string]bool) bool {
	if len(names) == 0 {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function, top bool) bool
	walk = func(g *ssa.Function, top bool) bool {
		if seen[g] || !inModule(g) {
			return false
		}
		seen[g] = true
		if !top && names[funcName(g)] {
			return true
		}
		for _, a := range g.AnonFuncs {
			if walk(a, false) {
				return true
			}
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && walk(h, false) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f, true)
}

func (v *Verifier) isAbstract(x *Exec, name string) bool {
	return x.tgt != nil && !x.recorded[name]
}

// aliases: two arguments may share memory.
func (x *Exec) aliases(con *Contract, args []Value) bool {
	seen := map[int]bool{}
	for _, a := range args {
		o := 0
		switch p := a.(type) {
		case PtrV:
			o = p.obj
		case SliceV:
			o = p.obj
		}
		if o != 0 {
			if seen[o] {
				return true
			}
			seen[o] = true
		}
	}
	return false
}

// tagsOf are the properties a contract serves.
func tagsOf(c *Contract) []string {
	m := map[string]bool{}
	for _, p := range c.props {
		m[p] = true
	}
	add := func(cs []Clause) {
		for _, cl := range cs {
			for _, p := range cl.props {
				m[p] = true
			}
		}
	}
	add(c.ensures)
	add(c.each)
	for _, b := range c.behaviours {
		add(b.ensures)
	}
	return sortedKeys(m)
}

// run verifies a contract (or one of its behaviours), once.
func (v *Verifier) run(c *Contract, bh *Behaviour) *TargetResult {
	name := c.key
	if bh != nil {
		name += "/" + bh.name
	}
	if r, ok := v.results[name]; ok {
		return r
	}
	if c.fn == nil {
		r := &TargetResult{con: c, bh: bh, name: name, tags: tagsOf(c), aborted: "the function does not exist"}
		v.results[name] = r
		return r
	}
	v.stack = append(v.stack, c.key)
	start := time.Now()
	var best *TargetResult
	for _, mode := range []struct{ cuts, memo bool }{{true, true}, {true, false}, {false, true}} {
		if best != nil && (!v.deadline.IsZero() && time.Now().After(v.deadline) || pastStop()) {
			break
		}
		r := v.attempt(c, bh, mode.cuts, mode.memo)
		r.name = name
		if best == nil || len(r.failures()) < len(best.failures()) || best.aborted != "" && r.aborted == "" {
			best = r
		}
		if r.aborted == "" && len(r.failures()) == 0 {
			best = r
			break
		}
		// without cuts only if contracts of callees were applied
		if mode.cuts && mode.memo && r.aborted == "" && len(r.notes) == 0 {
			continue
		}
		if mode.cuts && !mode.memo && len(r.used) == 0 {
			break
		}
	}
	best.elapsed = time.Since(start)
	v.stack = v.stack[:len(v.stack)-1]
	v.results[name] = best
	v.order = append(v.order, name)
	if v.verbose {
		fmt.Fprintf(os.Stderr, "%-50s %3d paths %4d obligations (+%d trivial) %d failed %.1fs %s\n", name, best.paths, len(best.obls), best.trivial, len(best.failures()), best.elapsed.Seconds(), best.aborted)
		for _, o := range best.failures() {
			fmt.Fprintf(os.Stderr, "    %s %v %s [%s] %s: %s\n", o.res, o.props, o.kind, o.label, o.pos, o.desc)
		}
	}
	return best
}

// attempt executes the target symbolically and proves its obligations.
func (v *Verifier) attempt(c *Contract, bh *Behaviour, cuts, memo bool) (res *TargetResult) {
	res = v.attempt1(c, bh, cuts, memo, false)
	if res.aborted == "restart" {
		res = v.attempt1(c, bh, cuts, memo, true)
	}
	return res
}

func (v *Verifier) attempt1(c *Contract, bh *Behaviour, cuts, memo, forks bool) (res *TargetResult) {
	res = &TargetResult{con: c, bh: bh, tags: tagsOf(c)}
	x := newExec(v.prog)
	x.ver = v
	x.useCuts = cuts
	x.noMemo = !memo
	x.appendForks = forks
	x.tgt = &Target{con: c, fn: c.fn, bh: bh, forever: c.forever}
	x.recorded = map[string]bool{}
	for _, e := range c.events {
		x.evFuncs[v.eventName(e)] = true
	}
	for _, e := range c.records {
		x.evFuncs[v.eventName(e)] = true
		x.recorded[v.eventName(e)] = true
	}
	x.target = c.key
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case tooComplex:
				res.aborted = e.why
			case specErr:
				res.aborted = "contract: " + e.msg
			case restartForks:
				res.aborted = "restart"
				return
			default:
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				res.aborted = fmt.Sprintf("internal: %v", r)
			}
			o := &Obligation{kind: "unsupported", fn: c.key, desc: "the function is within reach of the verifier: " + res.aborted, goal: False}
			v.attribute(res, o)
			res.obls = append(res.obls, o)
		}
	}()
	f := c.fn
	if len(f.Params) != len(c.params) {
		panic(tooComplex{fmt.Sprintf("the contract of %s names %d parameters, the function has %d", c.key, len(c.params), len(f.Params))})
	}
	st := newState()
	env := &specEnv{x: x, ver: v, con: c, names: map[string]SV{}, st: st}
	for i, p := range f.Params {
		a := x.symValue(p.Type(), p.Name(), false, 3)
		if g := v.addrOf(c, c.params[i]); g != nil && types.Identical(g.Type(), p.Type()) {
			a = PtrV{obj: x.globalObj(g)}
		}
		env.args = append(env.args, a)
		env.names[c.params[i]] = SV{a, p.Type(), nil}
		// interface arguments are not nil, like pointers
		if iv, ok := a.(IfaceV); ok {
			st.assume(Ne(iv.ref, I(0)))
		}
	}
	x.env = env
	env.pre = st
	pre0 := *env
	pre0.st = st
	pre0.assume = true
	for _, cl := range c.requires {
		x.specAssume(&pre0, cl.e, st)
	}
	if bh != nil {
		env.inst = map[string]*Term{}
		for i, p := range bh.params {
			t := v.logical(p, bh.sorts[i])
			env.names[p] = SV{v: t}
		}
		pre1 := *env
		pre1.st = st
		pre1.assume = true
		for _, cl := range bh.assumes {
			x.specAssume(&pre1, cl.e, st)
		}
	}
	x.clock(st)
	st.ghost["start"] = st.ghost["now"]
	env.pre = st.fork()
	if !x.feasible(st) {
		panic(tooComplex{"the assumptions are contradictory"})
	}
	if c.forever && len(c.each) > 0 {
		x.tgt.onIteration = func(x *Exec, head, back *Thread) {
			e := *env
			e.pre, e.st = head.st, back.st
			for _, cl := range c.each {
				x.checkClause(&e, cl, back.st, c.key, "each iteration")
			}
		}
	}
	outs := x.callFunc(st, f, nil, env.args)
	if len(x.exits) > 0 {
		if f.Signature.Results().Len() > 0 {
			x.give_up("the function ends the program")
		}
		for i := range x.exits {
			x.exits[i].st.locks = nil
			x.exits[i].st.pending = nil
		}
		outs = append(outs, x.exits...)
	}
	if c.applyRes != nil {
		outs = x.applyResult(env, outs)
	}
	ensures := c.ensures
	if bh != nil {
		ensures = bh.ensures
	}
	covered := map[string]bool{}
	eff := &effects{acquired: x.acquired, globals: map[string]*ssa.Global{}, params: map[int]bool{}, fresh: true}
	for _, o := range outs {
		if !x.feasible(o.st) {
			continue
		}
		res.paths++
		if t, ok := o.st.ghost["now"].(*Term); ok {
			_ = t
		}
		x.advance(o.st)
		th := &Thread{o.st, nil}
		// goroutines left running
		for _, g := range o.st.pending {
			x.detachAll(o.st, g, "it outlives the call")
			n := "a function"
			if g.fn.fn != nil {
				n = funcName(g.fn.fn)
			}
			o.st.trace = append(o.st.trace, "leaves "+n+" running")
		}
		for k := range o.st.locks {
			x.oblige(th, "lock", k+" is released on return", c.fn.Pos(), False)
		}
		e := *env
		e.st = o.st
		e.names = copyMap(env.names)
		x.bindResults(&e, o.val)
		for i := range ensures {
			if x.checkClause(&e, ensures[i], o.st, c.key, "on return") {
				covered[ensures[i].label+ensures[i].text] = true
			}
		}
		x.noteEffects(eff, env, o)
		if !c.modifyAny {
			x.checkFrame(env, o, c)
		}
	}
	for _, cl := range ensures {
		if !covered[cl.label+cl.text] {
			res.vacuous = append(res.vacuous, cl.label)
		}
	}
	// locks taken in a consistent order
	res.edges = sortedKeys(x.lockEdges)
	res.eff = eff
	res.obls = x.obls
	res.trivial = 0
	for k, n := range x.loopStat {
		if strings.HasPrefix(k, "trivial:") {
			res.trivial += n
		}
	}
	res.inlined = sortedKeys(x.inlined)
	res.used = sortedKeys(x.used)
	res.trusted = sortedKeys(x.trusted)
	res.notes = x.loopNotes
	for _, o := range res.obls {
		v.attribute(res, o)
	}
	v.discharge(x, res.obls)
	if res.paths == 0 && !c.forever {
		failed := false
		for _, o := range res.obls {
			failed = failed || o.res != Valid
		}
		if !failed {
			panic(tooComplex{"no path returns"})
		}
	}
	return res
}

func (v *Verifier) logical(name, sort string) *Term {
	switch sort {
	case "byte":
		return FreshR(name, bigZero, big64(255))
	case "bytes":
		return Fresh(name, SSeq)
	case "bool":
		return Fresh(name, SBool)
	}
	return FreshR(name, nil, nil)
}

func (v *Verifier) eventName(e string) string {
	e = strings.Trim(e, "\"")
	if f := v.lookup(e); f != nil {
		return funcName(f)
	}
	return e
}

// bindResults names the results of the function under verification.
func (x *Exec) bindResults(e *specEnv, val Value) {
	rs := e.con.fn.Signature.Results()
	for i, n := range e.con.results {
		if i >= rs.Len() {
			panic(specErr{fmt.Sprintf("%s: the contract names %d results, the function has %d", e.con.pos, len(e.con.results), rs.Len())})
		}
		v := val
		if tv, ok := val.(TupleV); ok && rs.Len() > 1 {
			v = tv[i]
		}
		e.names[n] = SV{v, rs.At(i).Type(), nil}
	}
}

// specAssume adds a condition to a path.
func (x *Exec) specAssume(e *specEnv, n *Node, st *State) {
	switch {
	case n.op == "bin" && n.s == "&&":
		x.specAssume(e, n.kids[0], st)
		x.specAssume(e, n.kids[1], st)
		return
	}
	st.assume(e.boolean(n))
}

type goalItem struct {
	assume []*Term
	goal   *Term
	alts   []*Term
}

// goals splits a condition into independently provable parts.
func (x *Exec) goals(e *specEnv, n *Node) []goalItem {
	switch n.op {
	case "bin":
		switch n.s {
		case "==>":
			a := e.st.simp(e.boolean(n.kids[0]))
			if a == False {
				return nil
			}
			e2 := *e
			e2.st = e.st.fork()
			if !e2.st.assume(a) {
				return nil
			}
			var r []goalItem
			for _, g := range x.tryGoals(&e2, n.kids[1], e.st) {
				g.assume = append([]*Term{a}, g.assume...)
				r = append(r, g)
			}
			return r
		case "&&":
			r := x.goals(e, n.kids[0])
			if e.st.simp(e.boolean(n.kids[0])) == False {
				return r // the rest may speak of things that do not exist then
			}
			return append(r, x.goals(e, n.kids[1])...)
		case "<==>":
			l := &Node{op: "bin", s: "==>", kids: n.kids, pos: n.pos}
			r := &Node{op: "bin", s: "==>", kids: []*Node{n.kids[1], n.kids[0]}, pos: n.pos}
			return append(x.goals(e, l), x.goals(e, r)...)
		}
	case "let":
		return x.goals(e.with(n.s, e.eval(n.kids[0])), n.kids[1])
	case "if":
		c := e.st.simp(e.boolean(n.kids[0]))
		var r []goalItem
		for i, cc := range []*Term{c, Not(c)} {
			if cc == False {
				continue
			}
			e2 := *e
			e2.st = e.st.fork()
			if !e2.st.assume(cc) {
				continue
			}
			for _, g := range x.tryGoals(&e2, n.kids[1+i], e.st) {
				g.assume = append([]*Term{cc}, g.assume...)
				r = append(r, g)
			}
		}
		return r
	case "call":
		if d, ok := e.ver.spec.defs[n.s]; ok && len(d.params) == len(n.kids) {
			m := *e
			m.names = copyMap(e.names)
			for i, p := range d.params {
				m.names[p] = e.eval(n.kids[i])
			}
			return x.goals(&m, d.body)
		}
	case "id":
		if _, ok := e.names[n.s]; !ok {
			if d, ok := e.ver.spec.defs[n.s]; ok && len(d.params) == 0 {
				return x.goals(e, d.body)
			}
		}
	case "exists":
		if e.assume {
			break
		}
		e.witness = nil
		var alts []*Term
		for _, w := range e.witnesses() {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); !ok {
							panic(r)
						}
					}
				}()
				if t := e.st.simp(e.with(n.s, SV{v: w}).boolean(n.kids[0])); t != False {
					alts = append(alts, t)
				}
			}()
		}
		return []goalItem{{goal: Or(alts...), alts: alts}}
	}
	return []goalItem{{goal: e.boolean(n)}}
}

// tryGoals is goals for a part that matters only under some condition: if it cannot be stated
// here, that condition must not hold.
// addrOf finds the variable whose address a parameter holds, by the contract.
func (v *Verifier) addrOf(c *Contract, param string) *ssa.Global {
	for _, cl := range c.requires {
		e := cl.e
		if e.op != "call" || e.s != "isaddr" || len(e.kids) != 2 || e.kids[0].op != "id" || e.kids[0].s != param {
			continue
		}
		for _, p := range v.prog.ssa.AllPackages() {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok && globalName(g) == e.kids[1].s {
					return g
				}
			}
		}
	}
	return nil
}

func (x *Exec) tryGoals(e *specEnv, n *Node, st *State) (r []goalItem) {
	defer func() {
		if p := recover(); p != nil {
			se, ok := p.(specErr)
			if !ok {
				panic(p)
			}
			r = []goalItem{{goal: False}}
			st.trace = append(st.trace[:len(st.trace):len(st.trace)], "contract: "+se.msg)
		}
	}()
	return x.goals(e, n)
}

// checkClause records the obligations of a condition. It reports whether the
// condition says something on this path.
func (x *Exec) checkClause(e *specEnv, cl Clause, st *State, fn, when string) bool {
	var items []goalItem
	func() {
		defer func() {
			if r := recover(); r != nil {
				se, ok := r.(specErr)
				if !ok {
					panic(r)
				}
				// a condition that cannot be stated on this path is not met by it
				items = []goalItem{{goal: False}}
				st.trace = append(st.trace[:len(st.trace):len(st.trace)], "contract: "+se.msg)
			}
		}()
		items = x.goals(e, cl.e)
	}()
	for _, g := range items {
		s2 := st
		if len(g.assume) > 0 {
			s2 = st.fork()
			dead := false
			for _, a := range g.assume {
				if !s2.assume(a) {
					dead = true
				}
			}
			if dead {
				continue
			}
		}
		t := s2.simp(g.goal)
		if t == True {
			x.countTrivial("ensures")
			continue
		}
		if x.mute > 0 {
			continue
		}
		x.obls = append(x.obls, &Obligation{kind: "ensures", label: cl.label, desc: cl.text, fn: fn, pos: when, props: cl.props,
			pc: s2.pc[:len(s2.pc):len(s2.pc)], goal: t, alts: g.alts, trace: st.trace, state: st})
	}
	return len(items) > 0
}

// noteEffects collects what callers can observe.
func (x *Exec) noteEffects(eff *effects, env *specEnv, o Outcome) {
	for id := range o.st.written {
		ob := x.objs[id]
		if ob.fresh {
			continue
		}
		if ob.global != nil {
			eff.globals[globalName(ob.global)] = ob.global
			continue
		}
		found := false
		for i, a := range env.args {
			switch p := a.(type) {
			case PtrV:
				if p.obj == id {
					eff.params[i] = true
					found = true
				}
			case SliceV:
				if p.obj == id {
					eff.params[i] = true
					found = true
				}
			case StructV:
				for _, f := range p.f {
					if s, ok := f.(SliceV); ok && s.obj == id {
						eff.params[i] = true
						found = true
					}
				}
			}
		}
		if !found {
			eff.fresh = false
		}
	}
	for k := range o.st.ghost {
		switch {
		case strings.HasPrefix(k, "tx:"):
			eff.writes = true
		case strings.HasPrefix(k, "rxn:"), k == "reads":
			eff.reads = true
			if n, ok := o.st.ghost[k].(*Term); ok && strings.HasPrefix(k, "rxn:") && n.isInt() {
				if m := int(n.k.Int64()); m > eff.streams {
					eff.streams = m
				}
			}
		case k == "timedout":
			eff.timed = true
		}
	}
	// results must be new memory
	var walk func(v Value, d int) bool
	walk = func(v Value, d int) bool {
		switch c := v.(type) {
		case SliceV:
			return c.obj == 0 || x.objs[c.obj].fresh && o.st.detach[c.obj] == "" && !x.sharesBuffer(o.st, c.obj)
		case PtrV:
			ob := x.objs[c.obj]
			if ob.readonly {
				return true
			}
			if !ob.fresh {
				return false
			}
			if d > 3 {
				return true
			}
			return walk(x.content(o.st, c.obj), d+1)
		case StructV:
			for _, f := range c.f {
				if !walk(f, d) {
					return false
				}
			}
		case TupleV:
			for _, f := range c {
				if !walk(f, d) {
					return false
				}
			}
		case IfaceV:
			if c.typ != nil {
				return walk(c.val, d)
			}
		}
		return true
	}
	if !walk(o.val, 0) {
		eff.fresh = false
	}
}

// sharesBuffer: the memory belongs to a scanner's buffer, which the scanner reuses.
func (x *Exec) sharesBuffer(st *State, obj int) bool { return x.objs[obj].name == "buffer" }

// checkFrame: nothing outside the contract's modifies clause is written.
func (x *Exec) checkFrame(env *specEnv, o Outcome, c *Contract) {
	ok := map[int]bool{}
	for _, m := range c.modifies {
		for i, p := range c.params {
			if p != m {
				continue
			}
			switch a := env.args[i].(type) {
			case PtrV:
				ok[a.obj] = true
			case SliceV:
				ok[a.obj] = true
			}
		}
		for g, id := range x.globalObjs {
			if globalName(g) == m {
				ok[id] = true
			}
		}
	}
	for id := range o.st.written {
		ob := x.objs[id]
		if ob.fresh || ok[id] {
			continue
		}
		was := x.content(env.pre, id)
		now := x.content(o.st, id)
		if e := x.safeEq(was, now); e != nil {
			x.oblige(&Thread{o.st, nil}, "frame", ob.name+" keeps its value", c.fn.Pos(), e)
			continue
		}
		x.oblige(&Thread{o.st, nil}, "frame", ob.name+" keeps its value", c.fn.Pos(), False)
	}
}

// attribute assigns an obligation to properties.
func (v *Verifier) attribute(r *TargetResult, o *Obligation) {
	if o.props != nil {
		return
	}
	pick := func(want ...string) []string {
		var ps []string
		for _, t := range r.tags {
			for _, w := range want {
				if t == w {
					ps = append(ps, t)
				}
			}
		}
		return ps
	}
	lib := strings.HasPrefix(r.con.key, "libcomfo.")
	srv := strings.HasPrefix(r.con.key, "comfoserver.")
	switch o.kind {
	case "panic", "terminates":
		if lib {
			o.props = []string{"C14"}
			return
		}
	case "wait":
		o.props = []string{"C08"}
		return
	case "lock", "guard":
		if srv {
			o.props = []string{"C21"}
			return
		}
		if ps := pick("C07", "C10"); lib && len(ps) > 0 {
			o.props = ps
			return
		}
	case "unsupported":
		// nothing is known about these either
		ps := append([]string{}, r.tags...)
		if lib {
			ps = append(ps, "C08", "C14")
		} else if srv {
			ps = append(ps, "C21")
		}
		o.props = ps
		return
	}
	o.props = r.tags
}

// discharge proves obligations in parallel.
func (v *Verifier) discharge(x *Exec, obls []*Obligation) {
	var wg sync.WaitGroup
	var refuted sync.Map
	sem := make(chan bool, 8)
	for _, o := range obls {
		if o.res == Valid && o.by != "" {
			continue
		}
		wg.Add(1)
		sem <- true
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					o.res, o.by = Unknown, fmt.Sprint(r)
				}
			}()
			ck := o.kind + o.label + o.desc
			if _, ok := refuted.Load(ck); ok && o.kind == "ensures" {
				o.res, o.by = Unknown, "not tried: refuted on another path"
				return
			}
			defer func() {
				if o.res == Invalid {
					refuted.Store(ck, true)
				}
			}()
			as := append(append([]*Term{}, o.pc...), x.entryAssume...)
			slow := v.slow
			if atomic.LoadInt64(&slowLeft) <= 0 {
				slow = 0
			}
			if !v.deadline.IsZero() && time.Now().After(v.deadline) {
				slow = 0
			}
			o.res, o.by = proveObl(as, o, slow)
			if d := os.Getenv("GOVER_FAIL"); d != "" && o.res != Valid {
				dumpFail(d, as, o)
			}
		}(o)
	}
	wg.Wait()
}

// slowLeft is what remains of the time for difficult obligations, in nanoseconds.
var slowLeft int64 = 1 << 62

func proveObl(as []*Term, o *Obligation, slow int) (Result, string) {
	for _, a := range as {
		if a == False {
			return Valid, "simplifier"
		}
	}
	if len(o.alts) > 0 {
		sort.SliceStable(o.alts, func(i, j int) bool { return termSize(o.alts[i]) < termSize(o.alts[j]) })
		for _, alt := range o.alts {
			if r, by := proveCases(as, alt, 0); r == Valid {
				return r, by
			}
		}
		if slow > 0 {
			for _, alt := range o.alts {
				if r, by := proveCases(as, alt, slow); r == Valid {
					return r, by
				}
			}
		}
		if len(o.alts) > 1 {
			return proveCases(as, o.goal, slow)
		}
		return proveCases(as, o.goal, 0)
	}
	if o.goal == False {
		// only an unreachable path discharges it
		if s, by := checkSat(as, unfoldRounds, 2500, slow); s == "unsat" {
			return Valid, by
		} else if s == "sat" {
			if s2, by2 := checkSat(as, unfoldRounds+2, 2500, slow); s2 == "unsat" {
				return Valid, by2
			}
			return Invalid, by
		}
		return Unknown, "no answer"
	}
	return proveCases(as, o.goal, slow)
}

// proveCases first tries the goal as a whole, then with all assumptions.
func proveCases(as []*Term, goal *Term, slow int) (Result, string) {
	r, by := prove(as, goal, slow)
	if r == Valid {
		return r, by
	}
	// the path itself may be impossible
	if s, b := checkSat(as, unfoldRounds, 700, 0); s == "unsat" {
		return Valid, b
	}
	return r, by
}

func termSize(t *Term) int {
	n := 0
	Walk([]*Term{t}, map[*Term]bool{}, func(*Term) { n++ })
	return n
}

// ---------- contracts at calls

func isConn(t types.Type) bool {
	n := typeName(t)
	return strings.HasPrefix(n, "io.") && t.Underlying() != nil
}

// takeLocks models the locks a callee takes and releases.
func (x *Exec) takeLocks(t *Thread, eff *effects, args []Value, pos token.Pos) bool {
	for _, k := range sortedKeys(eff.acquired) {
		r := eff.acquired[k]
		var p PtrV
		if r.global != nil {
			p = PtrV{x.globalObj(r.global), r.path}
		} else if r.param >= 0 && r.param < len(args) {
			q, ok := args[r.param].(PtrV)
			if !ok {
				continue
			}
			p = PtrV{q.obj, append(append([]Sel{}, q.path...), r.path...)}
		} else {
			// memory a constant variable points to
			id := x.objByName(lockOwner(k))
			if id == 0 {
				if t.st.locks[k] != nil {
					x.oblige(t, "lock", k+" is not already held when it is acquired", pos, False)
					return false
				}
				continue
			}
			p = PtrV{id, r.path}
		}
		key := x.lockKey(p)
		if t.st.locks[key] != nil {
			x.oblige(t, "lock", key+" is not already held when a callee acquires it", pos, False)
			return false
		}
		for h := range t.st.locks {
			x.lockEdges[h+" < "+key] = true
		}
		if t.st.inGo == 0 && x.mute == 0 {
			x.noteLock(p, key, r.write)
		}
		if x.evFuncs["lock "+key] {
			x.recordEvent(t.st, t.st, "lock "+key, nil, nil, nil)
		}
		if ghostInt(t.st, "acq:"+key) != I(0) {
			x.havocGuarded(t.st, p)
		}
		t.st.ghost["acq:"+key] = I(1)
	}
	return true
}

// lockOwner is the name of the object a lock key belongs to: "*libcomfo.pm.f" is in "*libcomfo.pm".
func lockOwner(k string) string {
	p := strings.SplitN(k, ".", 3)
	if len(p) < 2 {
		return k
	}
	return p[0] + "." + p[1]
}

func (x *Exec) objByName(n string) int {
	for id, o := range x.objs {
		if o.name == n {
			return id
		}
	}
	return 0
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(t *Thread, f *ssa.Function, con *Contract, args []Value, pos token.Pos, ev bool) []Outcome {
	v := x.ver
	r := v.run(con, nil)
	st := t.st
	x.used[con.key] = true
	pre := st.fork()
	env := &specEnv{x: x, ver: v, con: con, args: args, names: map[string]SV{}, st: st, pre: pre}
	ce := &callEffects{tx: map[string]*Term{}, readtx: map[string]*Term{}, wfail: False, timedout: False, stream: map[string]int{}}
	var conns []IfaceV
	for i, p := range f.Params {
		env.names[con.params[i]] = SV{args[i], p.Type(), nil}
		if iv, ok := args[i].(IfaceV); ok && isConn(p.Type()) {
			conns = append(conns, iv)
			n := ghostInt(st, "rxn:"+connKey(iv))
			if !n.isInt() {
				x.give_up("symbolic number of streams")
			}
			ce.stream[connKey(iv)] = int(n.k.Int64())
			if !x.oblige(t, "panic", "connection is not nil in call of "+con.key, pos, Ne(iv.ref, I(0))) {
				return nil
			}
		}
	}
	for _, cl := range con.requires {
		g := env.boolean(cl.e)
		if st.simp(g) == True {
			x.countTrivial("requires")
			continue
		}
		if x.mute == 0 {
			x.obls = append(x.obls, &Obligation{kind: "requires", label: cl.label, desc: con.key + " requires " + cl.text, fn: x.target, props: cl.props,
				pos: x.where(t.fr, pos), pc: st.pc[:len(st.pc):len(st.pc)], goal: g, trace: st.trace, state: st})
		}
		st.assume(g)
	}
	if !x.takeLocks(t, r.eff, args, pos) {
		return nil
	}
	x.advance(st)
	if r.eff.writes {
		ce.wfail = Fresh("wfail", SBool)
	}
	if r.eff.timed {
		ce.timedout = Fresh("timedout", SBool)
	}
	ret := x.freshResult(st, f.Signature)
	env.call = ce
	env.assume = true
	x.bindResults(env, ret)
	unproved := map[string]bool{}
	for _, o := range r.failures() {
		unproved[o.label+"\x00"+o.desc] = true
	}
	for _, cl := range con.ensures {
		if !v.historic(cl.e, map[string]bool{}) && !unproved[cl.label+"\x00"+cl.text] {
			st.assume(env.boolean(cl.e))
		}
	}
	uses := x.tgt.con.uses
	if x.tgt.bh != nil {
		uses = append(append([]useClause{}, uses...), x.tgt.bh.uses...)
	}
	for _, u := range uses {
		if u.fn != con.key {
			continue
		}
		for _, b := range con.behaviours {
			if b.name != u.behaviour {
				continue
			}
			br := v.run(con, b)
			if br.aborted != "" || len(br.failures()) > 0 {
				continue
			}
			x.used[con.key+"/"+b.name] = true
			m := *env
			m.names = copyMap(env.names)
			for i, p := range b.params {
				// logical arguments are evaluated in the caller
				m.names[p] = SV{v: x.callerTerm(t, u.args[i])}
			}
			// assumptions are conditions on the entry of the callee
			var hyp []*Term
			h := m
			h.assume = false
			h.st = pre
			for _, cl := range b.assumes {
				hyp = append(hyp, h.boolean(cl.e))
			}
			var con []*Term
			for _, cl := range b.ensures {
				if !v.historic(cl.e, map[string]bool{}) {
					con = append(con, m.boolean(cl.e))
				}
			}
			st.assume(Implies(And(hyp...), And(con...)))
		}
	}
	for _, c := range conns {
		k := connKey(c)
		if r.eff.writes {
			if ce.tx[k] == nil {
				ce.tx[k] = Fresh("tx", SSeq)
			}
			before := ghostSeq(st, "tx:"+k)
			if r.eff.reads && st.ghost["readtx:"+k] == nil {
				w := ce.readtx[k]
				if w == nil {
					w = Fresh("readtx", SSeq)
				}
				st.ghost["readtx:"+k] = Concat(before, w)
			}
			st.ghost["tx:"+k] = Concat(before, ce.tx[k])
		} else if r.eff.reads && st.ghost["readtx:"+k] == nil {
			st.ghost["readtx:"+k] = ghostSeq(st, "tx:"+k)
		}
		if r.eff.reads {
			st.ghost["rxn:"+k] = Add(ghostInt(st, "rxn:"+k), I(int64(maxInt(r.eff.streams, 1))))
		}
		if r.eff.reads || r.eff.writes {
			locks := map[string]bool{}
			for _, l := range append(append([]string{}, st.outer...), heldLocks(st)...) {
				if x.isGlobalLock(l) {
					locks[l] = true
				}
			}
			if len(r.eff.acquired) == 0 {
				x.ioLocks(st, locks)
			} else {
				st.ghost["excl:"+k] = True
			}
		}
	}
	if r.eff.reads {
		if ce.reads == nil {
			ce.reads = FreshR("reads", bigZero, nil)
		}
		st.ghost["reads"] = Add(ghostInt(st, "reads"), ce.reads)
	}
	if ce.wfail != False {
		st.ghost["wfail"] = Or(ghostBool(st, "wfail"), ce.wfail)
	}
	if ce.timedout != False {
		st.ghost["timedout"] = Or(ghostBool(st, "timedout"), ce.timedout)
	}
	if ev {
		x.recordEvent(st, pre, funcName(f), f, args, ret)
	}
	// the two outcomes of an error result are explored separately by the caller's tests
	return outs1(st, ret)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// callerTerm evaluates a logical argument with the names of the target.
func (x *Exec) callerTerm(t *Thread, n *Node) *Term {
	e := *x.env
	e.st = x.env.pre
	v := e.eval(n)
	if s, ok := v.v.(*Term); ok {
		return s
	}
	return e.toSeq(n, v)
}

// freshResult is an arbitrary result made of new memory.
func (x *Exec) freshResult(st *State, sig *types.Signature) Value {
	n := len(x.entryAssume)
	rs := sig.Results()
	var v Value
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		v = x.symValue(rs.At(0).Type(), "ret", true, 2)
	default:
		v = x.symValue(rs, "ret", true, 2)
	}
	for _, a := range x.entryAssume[n:] {
		st.assume(a)
	}
	x.entryAssume = x.entryAssume[:n]
	return v
}

// abstractCall keeps a call as an event with an arbitrary result.
// confined: a call of f from another package that imports f's cannot touch the caller's memory or locks,
// because f gets only numbers and interfaces of unknown content and returns no pointers.
func confined(from, f *ssa.Function, args []Value) bool {
	if from.Pkg == nil || f.Pkg == nil || from.Pkg == f.Pkg || f.Parent() != nil {
		return false
	}
	for _, a := range args {
		switch v := a.(type) {
		case *Term:
		case IfaceV:
			if v.typ != nil {
				return false
			}
		default:
			return false
		}
	}
	var flat func(t types.Type) bool
	flat = func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if !flat(u.Field(i).Type()) {
					return false
				}
			}
			return true
		case *types.Interface:
			return typeName(t) == "error"
		}
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if !flat(f.Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func (x *Exec) abstractCall(t *Thread, f *ssa.Function, args []Value, pos token.Pos) []Outcome {
	v := x.ver
	st := t.st
	con := v.contractOf(f)
	if con == nil {
		con = &Contract{key: keyOf(f), fn: f, auto: true, modifyAny: true, inline: true}
		for _, p := range f.Params {
			con.params = append(con.params, p.Name())
		}
		v.spec.contracts = append(v.spec.contracts, con)
	}
	pre := st.fork()
	if x.tgt != nil && confined(x.tgt.con.fn, f, args) {
		x.used[con.key+" (another package, no shared memory)"] = true
		x.advance(st)
		ret := x.freshResult(st, f.Signature)
		x.recordEvent(st, pre, funcName(f), f, args, ret)
		return outs1(st, ret)
	}
	x.used[con.key+" (effects)"] = true
	r := v.run(con, nil)
	if r.eff == nil {
		x.give_up("the effects of %s are unknown: %s", con.key, r.aborted)
	}
	if !x.takeLocks(t, r.eff, args, pos) {
		return nil
	}
	for _, k := range sortedKeys(r.eff.globals) {
		g := r.eff.globals[k]
		id := x.globalObj(g)
		st.heap[id] = x.havocVal(x.content(st, id), globalName(g), st, x.objs[id].typ)
		st.written[id] = true
	}
	for i := range r.eff.params {
		switch p := args[i].(type) {
		case PtrV:
			o := x.objs[p.obj]
			if len(p.path) == 0 {
				if o.readonly {
					x.oblige(t, "frame", "write to the constant package variable "+o.name, pos, False)
					return nil
				}
				st.heap[p.obj] = x.havocVal(x.content(st, p.obj), o.name, st, o.typ)
				st.written[p.obj] = true
				continue
			}
			c := x.content(st, p.obj)
			old := c
			ok := true
			ty := o.typ
			for _, s := range p.path {
				sv, is := old.(StructV)
				if !is {
					ok = false
					break
				}
				old = sv.f[s.field]
				ty = ty.Underlying().(*types.Struct).Field(s.field).Type()
			}
			if !ok {
				x.give_up("effects of %s on part of an object", con.key)
			}
			st.heap[p.obj] = x.updateVal(c, p.path, x.havocVal(old, o.name, st, ty))
			st.written[p.obj] = true
		case SliceV:
			if p.obj != 0 {
				ct, ok := x.content(st, p.obj).(*Term)
				if !ok {
					x.give_up("effects of %s on a slice", con.key)
				}
				h := Fresh("havoc", SSeq)
				st.assume(Eq(Len(h), Len(ct)))
				st.heap[p.obj] = h
				st.written[p.obj] = true
			}
		default:
			x.give_up("effects of %s on %T", con.key, args[i])
		}
	}
	x.advance(st)
	ret := x.freshResult(st, f.Signature)
	x.recordEvent(st, pre, funcName(f), f, args, ret)
	return outs1(st, ret)
}

// applyResult calls the function or handler the target returned.
func (x *Exec) applyResult(env *specEnv, outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		e := *env
		e.st = o.st
		fnv := o.val
		// parameters of the call
		iv, ok := fnv.(IfaceV)
		if !ok || iv.typ == nil {
			x.give_up("the result is not a known handler")
		}
		m := x.prog.ssa.LookupMethod(iv.typ, nil, "ServeHTTP")
		if m == nil {
			x.give_up("the result is not a handler")
		}
		args := []Value{iv.val}
		ps := m.Signature.Params()
		for i, n := range env.con.applyRes.params {
			a := x.symValue(ps.At(i).Type(), n, false, 2)
			if w, ok := a.(IfaceV); ok {
				o.st.assume(Ne(w.ref, I(0)))
			}
			args = append(args, a)
			env.names[n] = SV{a, ps.At(i).Type(), nil}
		}
		fr := &Frame{fn: env.con.fn, regs: map[ssa.Value]Value{}}
		env.pre = o.st.fork() // old(...) is the state in which the handler is called
		for _, r := range x.callStatic(&Thread{o.st, fr}, m, nil, args, env.con.fn.Pos()) {
			res = append(res, Outcome{r.st, o.val})
		}
	}
	return res
}

var _ = big.NewInt

// dumpFail writes a failed obligation in readable form (development).
func dumpFail(dir string, as []*Term, o *Obligation) {
	n := atomic.AddInt64(&queryN, 1)
	var sb strings.Builder
	fmt.Fprintf(&sb, "; %v %s [%s] %s: %s\n", o.res, o.kind, o.label, o.pos, o.desc)
	for _, t := range o.trace {
		fmt.Fprintf(&sb, "; trace %s\n", t)
	}
	for _, a := range as {
		fmt.Fprintf(&sb, "; pc %s\n", a)
	}
	fmt.Fprintf(&sb, "; goal %s\n", o.goal)
	for _, a := range o.alts {
		fmt.Fprintf(&sb, "; alt %s\n", a)
	}
	rel := relevant(as, o.goal)
	sc, _ := Query{append(rel, Not(o.goal)), unfoldRounds, true}.build(false)
	os.WriteFile(fmt.Sprintf("%s/fail%d.txt", dir, n), []byte(sb.String()), 0o644)
	os.WriteFile(fmt.Sprintf("%s/fail%d.smt2", dir, n), []byte("(set-logic ALL)\n(set-option :model true)\n"+sc+"(check-sat)\n(get-model)\n"), 0o644)
}

// historyFuncs talk about what the callee did or knows; its caller cannot assume them.
var historyFuncs = map[string]bool{"n": true, "arg": true, "ret": true, "order": true, "events": true, "held": true, "heldset": true, "heldlockof": true,
	"selected": true, "code": true, "period": true, "now": true, "start": true, "wraps": true, "typeis": true, "exclusive_io": true, "directio": true, "rfail": true,
	"timer_ok": true}

func (v *Verifier) historic(n *Node, seen map[string]bool) bool {
	if n == nil {
		return false
	}
	if n.op == "call" && historyFuncs[n.s] {
		return true
	}
	if d := v.spec.defs[n.s]; d != nil && !seen[n.s] {
		seen[n.s] = true
		if v.historic(d.body, seen) {
			return true
		}
	}
	for _, k := range n.kids {
		if v.historic(k, seen) {
			return true
		}
	}
	return false
}
