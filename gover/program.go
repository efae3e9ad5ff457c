package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// stdSource are packages of the standard library whose functions are verified
// from their source where they have no model.
var stdSource = []string{"slices", "maps", "cmp", "math", "math/bits", "encoding/binary", "unicode/utf8", "bytes", "strings", "io", "errors"}

func inStd(f *ssa.Function) bool {
	if f.Pkg == nil {
		if o := f.Origin(); o != nil && o != f {
			return inStd(o)
		}
		if p := f.Parent(); p != nil {
			return inStd(p)
		}
		return false
	}
	return slices.Contains(stdSource, f.Pkg.Pkg.Path())
}

const modulePath = "github.com/ti-mo/comfo"

// Program is /repo in SSA form.
type Program struct {
	module       string
	dir          string
	fset         *token.FileSet
	ssa          *ssa.Program
	pkgs         map[string]*ssa.Package // by import path
	constGlobals map[*ssa.Global]bool
	initHeap     *initState
	mu           sync.Mutex
	externs      map[string]int64
	loops        map[*ssa.Function]*loopInfo
	addrTaken    map[*ssa.Function]bool
	rets         map[*ssa.Function]bool
}

// initState is the state after package initialisation.
type initState struct {
	x       *Exec
	st      *State
	failed  map[string]string // package path -> reason
	unknown map[*ssa.Global]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
		Dir: dir,
	}
	ps, err := packages.Load(cfg, append([]string{"./..."}, stdSource...)...)
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{module: modulePath, dir: dir, fset: prog.Fset, ssa: prog, pkgs: map[string]*ssa.Package{},
		constGlobals: map[*ssa.Global]bool{}, externs: map[string]int64{}, loops: map[*ssa.Function]*loopInfo{}}
	var order []*ssa.Package
	for _, q := range ps {
		if sp := prog.Package(q.Types); sp != nil && strings.HasPrefix(q.PkgPath, modulePath) {
			p.pkgs[q.PkgPath] = sp
			order = append(order, sp)
		}
	}
	sort.Slice(order, func(i, j int) bool {
		return dependsOn(order[j].Pkg, order[i].Pkg) || !dependsOn(order[i].Pkg, order[j].Pkg) && order[i].Pkg.Path() < order[j].Pkg.Path()
	})
	p.findConstGlobals()
	p.runInit(order)
	return p, nil
}

func dependsOn(a, b *types.Package) bool {
	seen := map[*types.Package]bool{}
	var f func(p *types.Package) bool
	f = func(p *types.Package) bool {
		if seen[p] {
			return false
		}
		seen[p] = true
		for _, q := range p.Imports() {
			if q == b || q.Path() == b.Path() || f(q) {
				return true
			}
		}
		return false
	}
	return a != b && f(a)
}

func (p *Program) externRef(name string) int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.externs[name]; ok {
		return r
	}
	r := 1000000 + int64(len(p.externs)) // positive: an unknown value may be the same
	p.externs[name] = r
	return r
}

// allFuncs are the functions of the module, including methods and closures.
func (p *Program) allFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(p.ssa) {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath) && f.Blocks != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return fs
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// findConstGlobals finds package variables that keep their initial value:
// nothing outside package initialisation stores to them or takes their address.
func (p *Program) findConstGlobals() {
	bad := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(p.ssa) {
		if f.Blocks == nil {
			continue
		}
		init := isInit(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if init {
						continue
					}
					switch i := ins.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.DebugRef:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if onlyLoaded(i.(ssa.Value)) {
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				p.constGlobals[g] = true
			}
		}
	}
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoaded(i) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyLoaded(i) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// runInit executes package initialisation symbolically. Globals it cannot
// follow stay unconstrained.
func (p *Program) runInit(order []*ssa.Package) {
	x := newExec(p)
	x.initMode = true
	x.mute = 1
	is := &initState{x: x, st: newState(), failed: map[string]string{}, unknown: map[*ssa.Global]bool{}}
	for _, sp := range order {
		f := sp.Func("init")
		if f == nil {
			continue
		}
		if strings.HasPrefix(sp.Pkg.Path(), modulePath+"/rpc") {
			// generated registration code; none of its globals matters
			is.failed[sp.Pkg.Path()] = "generated code"
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					is.failed[sp.Pkg.Path()] = fmt.Sprint(r)
					if os.Getenv("GOVER_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init of %s: %v\n", sp.Pkg.Path(), r)
					}
				}
			}()
			st := is.st.fork()
			outs := x.runInitFunc(st, f)
			if outs == nil {
				is.failed[sp.Pkg.Path()] = "did not complete"
				return
			}
			is.st = outs
		}()
	}
	p.initHeap = is
}

// runInitFunc runs a package initialiser on its single concrete path.
func (x *Exec) runInitFunc(st *State, f *ssa.Function) *State {
	fr := &Frame{fn: f, regs: map[ssa.Value]Value{}, block: f.Blocks[0], loops: x.prog.loopsOf(f)}
	th := &Thread{st, fr}
	x.callstack = []*ssa.Function{f}
	_, outs := x.run([]*Thread{th}, nil)
	x.callstack = nil
	var best *State
	for _, o := range outs {
		// the guard variable splits off the path that does nothing
		if best == nil || len(o.st.written) > len(best.written) {
			best = o.st
		}
	}
	return best
}

// value copies the initial value of a constant global into another execution.
func (is *initState) value(x *Exec, g *ssa.Global) (Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	if _, bad := is.failed[g.Pkg.Pkg.Path()]; bad {
		return nil, false
	}
	id, ok := is.x.globalObjs[g]
	if !ok {
		// never mentioned by the initialiser: zero value
		return x.zeroValue(g.Type().(*types.Pointer).Elem()), true
	}
	v := is.copyVal(x, is.x.content(is.st, id))
	switch p := v.(type) {
	case PtrV:
		if len(p.path) == 0 && x.objs[p.obj].global == nil {
			x.objs[p.obj].name = "*" + globalName(g)
		}
	case ChanV:
		x.objs[p.obj].name = globalName(g)
	case SliceV:
		if p.obj != 0 && x.objs[p.obj].global == nil {
			x.objs[p.obj].name = globalName(g) + "[]"
		}
	}
	return v, true
}

func (is *initState) copyObj(x *Exec, id int) int {
	if n, ok := x.fromInit[id]; ok {
		return n
	}
	src := is.x.objs[id]
	if src.global != nil {
		n := x.globalObj(src.global)
		x.fromInit[id] = n
		return n
	}
	o := x.newObj(src.name, src.typ, false)
	o.attrs = src.attrs
	o.readonly = true
	x.fromInit[id] = o.id
	o.initial = is.copyVal(x, is.x.content(is.st, id))
	return o.id
}

func (is *initState) copyVal(x *Exec, v Value) Value {
	switch c := v.(type) {
	case SliceV:
		if c.obj != 0 {
			c.obj = is.copyObj(x, c.obj)
		}
		return c
	case PtrV:
		c.obj = is.copyObj(x, c.obj)
		return c
	case MapV:
		c.obj = is.copyObj(x, c.obj)
		return c
	case ChanV:
		c.obj = is.copyObj(x, c.obj)
		return c
	case StructV:
		fs := make([]Value, len(c.f))
		for i := range fs {
			fs[i] = is.copyVal(x, c.f[i])
		}
		return StructV{fs}
	case ArrayV:
		es := make([]Value, len(c.e))
		for i := range es {
			es[i] = is.copyVal(x, c.e[i])
		}
		return ArrayV{es}
	case IfaceV:
		if c.typ != nil {
			c.val = is.copyVal(x, c.val)
		}
		return c
	case FuncV:
		bs := make([]Value, len(c.bind))
		for i := range bs {
			bs[i] = is.copyVal(x, c.bind[i])
		}
		c.bind = bs
		return c
	case MapContent:
		n := MapContent{}
		for i := range c.keys {
			n.keys = append(n.keys, is.copyVal(x, c.keys[i]))
			n.vals = append(n.vals, is.copyVal(x, c.vals[i]))
		}
		return n
	case TupleV:
		n := make(TupleV, len(c))
		for i := range n {
			n[i] = is.copyVal(x, c[i])
		}
		return n
	}
	return v
}

// ---------- loops

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	header map[*ssa.BasicBlock]*loop
}

func (p *Program) loopsOf(f *ssa.Function) *loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loops[f]; ok {
		return l
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.header[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	p.loops[f] = li
	return li
}

// lookupFunc resolves "libcomfo.Func" or "libcomfo.(*T).Method" or "libcomfo.T.Method".
func (p *Program) lookupFunc(pkg *ssa.Package, recv string, name string) *ssa.Function {
	if recv == "" {
		if name == "init" { // the one written in the package
			if pkg.Func("init#2") != nil {
				return nil
			}
			name = "init#1"
		}
		return pkg.Func(name)
	}
	ptr := strings.HasPrefix(recv, "*")
	tn := strings.TrimPrefix(recv, "*")
	m, ok := pkg.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = m.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(pkg.Pkg, name)
	if sel == nil {
		return nil
	}
	f := p.ssa.MethodValue(sel)
	return f
}

func (p *Program) pkgByShort(short string) *ssa.Package {
	for path, sp := range p.pkgs {
		if path == modulePath && short == "main" || strings.HasSuffix(path, "/"+short) {
			return sp
		}
	}
	return nil
}
