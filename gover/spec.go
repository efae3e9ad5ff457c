package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---------- syntax

// Node is an expression of the contract language.
type Node struct {
	op   string // int, str, id, call, field, index, slice, un, bin, if, let, exists, old
	s    string
	n    *big.Int
	kids []*Node
	pos  string
}

// Clause is one named, tagged condition.
type Clause struct {
	props []string
	label string
	text  string
	e     *Node
}

// Behaviour is a set of conditions under further assumptions over logical variables.
type Behaviour struct {
	name    string
	params  []string
	sorts   []string
	assumes []Clause
	ensures []Clause
	uses    []useClause
}

type useClause struct {
	fn, behaviour string
	args          []*Node
}

// Contract is the specification of one function.
type Contract struct {
	key        string // pkg.Func, pkg.T.M or pkg.(*T).M
	params     []string
	results    []string
	requires   []Clause
	ensures    []Clause
	each       []Clause // iteration contract of an endless loop
	behaviours []*Behaviour
	uses       []useClause
	events     []string // called functions kept as events, without following them
	records    []string // followed, and recorded
	modifies   []string
	modifyAny  bool
	forever    bool
	inline     bool // never applied at calls
	abstract   bool
	applyRes   *applyResult
	props      []string
	fn         *ssa.Function
	pos        string
	auto       bool
}

// applyResult calls the function value the target returned.
type applyResult struct {
	params []string
	kind   string
}

// Lemma is a statement over the specification functions.
type Lemma struct {
	Clause
	params []string
	sorts  []string
}

// Spec is the parsed set of contracts.
type Spec struct {
	defs      map[string]*def
	contracts []*Contract
	byKey     map[string]*Contract
	lemmas    []*Lemma
	autos     [][]string // package, props
}

type def struct {
	params []string
	body   *Node
}

type token_ struct {
	kind string // id, int, str, op, eof
	s    string
	pos  string
}

type parser struct {
	toks []token_
	i    int
}

func lex(src, pos string) []token_ {
	var ts []token_
	rs := []rune(src)
	ops := []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "++", "(", ")", "[", "]", ",", ":", ".", "+", "-", "*", "/", "%", "<", ">", "!", "="}
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			ts = append(ts, token_{"id", string(rs[i:j]), pos})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			ts = append(ts, token_{"int", string(rs[i:j]), pos})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			ts = append(ts, token_{"str", string(rs[i+1 : j]), pos})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:]), o) {
					ts = append(ts, token_{"op", o, pos})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("%s: unexpected character %q", pos, c))
			}
		}
	}
	return append(ts, token_{"eof", "", pos})
}

func (p *parser) peek() token_ { return p.toks[p.i] }
func (p *parser) next() token_ { t := p.toks[p.i]; p.i++; return t }
func (p *parser) accept(s string) bool {
	if t := p.peek(); (t.kind == "op" || t.kind == "id") && t.s == s {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("%s: expected %q, found %q", p.peek().pos, s, p.peek().s))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "++": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Node {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.kind != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Node
		if t.s == "==>" {
			r = p.expr(pr) // right associative
		} else {
			r = p.expr(pr + 1)
		}
		l = &Node{op: "bin", s: t.s, kids: []*Node{l, r}, pos: t.pos}
	}
}

func (p *parser) unary() *Node {
	t := p.peek()
	if t.kind == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Node{op: "un", s: t.s, kids: []*Node{p.unary()}, pos: t.pos}
	}
	if t.kind == "id" {
		switch t.s {
		case "if":
			p.next()
			c := p.expr(1)
			p.expect("then")
			a := p.expr(1)
			p.expect("else")
			b := p.expr(1)
			return &Node{op: "if", kids: []*Node{c, a, b}, pos: t.pos}
		case "let":
			p.next()
			n := p.next().s
			p.expect("=")
			v := p.expr(1)
			p.expect("in")
			b := p.expr(1)
			return &Node{op: "let", s: n, kids: []*Node{v, b}, pos: t.pos}
		case "exists":
			p.next()
			n := p.next().s
			p.expect(":")
			b := p.expr(1)
			return &Node{op: "exists", s: n, kids: []*Node{b}, pos: t.pos}
		}
	}
	return p.postfix()
}

func (p *parser) postfix() *Node {
	t := p.next()
	var n *Node
	switch t.kind {
	case "int":
		k, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic(t.pos + ": bad number " + t.s)
		}
		n = &Node{op: "int", n: k, pos: t.pos}
	case "str":
		n = &Node{op: "str", s: t.s, pos: t.pos}
	case "id":
		n = &Node{op: "id", s: t.s, pos: t.pos}
	default:
		if t.s != "(" {
			panic(fmt.Sprintf("%s: unexpected %q", t.pos, t.s))
		}
		n = p.expr(1)
		p.expect(")")
	}
	for {
		switch {
		case p.accept("."):
			f := p.next()
			n = &Node{op: "field", s: f.s, kids: []*Node{n}, pos: f.pos}
		case p.accept("("):
			c := &Node{op: "call", s: n.s, pos: n.pos}
			if n.op != "id" {
				panic(n.pos + ": call of a non-name")
			}
			for !p.accept(")") {
				c.kids = append(c.kids, p.expr(1))
				if !p.accept(",") {
					p.expect(")")
					break
				}
			}
			n = c
		case p.accept("["):
			var a, b *Node
			if p.peek().s != ":" {
				a = p.expr(1)
			}
			if p.accept(":") {
				if p.peek().s != "]" {
					b = p.expr(1)
				}
				p.expect("]")
				n = &Node{op: "slice", kids: []*Node{n, a, b}, pos: n.pos}
			} else {
				p.expect("]")
				n = &Node{op: "index", kids: []*Node{n, a}, pos: n.pos}
			}
		default:
			return n
		}
	}
}

func parseExpr(s, pos string) *Node {
	p := &parser{toks: lex(s, pos)}
	n := p.expr(1)
	if p.peek().kind != "eof" {
		panic(fmt.Sprintf("%s: trailing %q", pos, p.peek().s))
	}
	return n
}

func splitList(s string) []string {
	var r []string
	for _, f := range strings.Split(s, ",") {
		if f = strings.TrimSpace(f); f != "" {
			r = append(r, f)
		}
	}
	return r
}

// loadSpec parses every contract file of a directory.
func loadSpec(dir string) *Spec {
	sp := &Spec{defs: map[string]*def{}, byKey: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parseFile(filepath.Base(f), string(b))
	}
	return sp
}

func (sp *Spec) parseFile(name, src string) {
	// statements start in column 0 or with a keyword; deeper lines continue them
	type stmt struct{ text, pos string }
	var stmts []stmt
	kw := map[string]bool{"def": true, "func": true, "requires": true, "ensures": true, "behaviour": true, "assumes": true, "use": true,
		"events": true, "records": true, "modifies": true, "forever": true, "each": true, "inline": true, "abstract": true, "lemma": true, "auto": true, "apply": true, "props": true}
	for i, l := range strings.Split(src, "\n") {
		if k := strings.Index(l, "#"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return !unicode.IsLetter(r) })
		if len(w) > 0 && strings.HasPrefix(t, w[0]) && kw[w[0]] && (len(t) == len(w[0]) || t[len(w[0])] == ' ') {
			stmts = append(stmts, stmt{t, fmt.Sprintf("%s:%d", name, i+1)})
		} else {
			if len(stmts) == 0 {
				panic(fmt.Sprintf("%s:%d: no statement to continue", name, i+1))
			}
			stmts[len(stmts)-1].text += " " + t
		}
	}
	var c *Contract
	var bh *Behaviour
	sig := func(s, pos string) (string, []string, []string) {
		// NAME(params) (results), where NAME may contain (*T)
		i := strings.Index(s, "(")
		if i >= 0 && strings.HasPrefix(s[i:], "(*") {
			j := strings.Index(s[i+1:], "(")
			i = i + 1 + j
		}
		key := strings.TrimSpace(s[:i])
		rest := s[i:]
		j := strings.Index(rest, ")")
		params := splitList(rest[1:j])
		rest = strings.TrimSpace(rest[j+1:])
		var res []string
		if strings.HasPrefix(rest, "(") {
			res = splitList(strings.TrimSuffix(rest[1:], ")"))
		}
		return key, params, res
	}
	clause := func(s, pos string) Clause {
		var cl Clause
		s = strings.TrimSpace(s)
		if strings.HasPrefix(s, "[") {
			j := strings.Index(s, "]")
			cl.props = splitList(s[1:j])
			s = strings.TrimSpace(s[j+1:])
		}
		if strings.HasPrefix(s, "\"") {
			j := strings.Index(s[1:], "\"")
			cl.label = s[1 : j+1]
			s = strings.TrimSpace(s[j+2:])
			s = strings.TrimSpace(strings.TrimPrefix(s, ":"))
		}
		cl.text = s
		cl.e = parseExpr(s, pos)
		return cl
	}
	names := func(ps []string) (n, s []string) {
		for _, p := range ps {
			k := strings.SplitN(p, ":", 2)
			n = append(n, strings.TrimSpace(k[0]))
			if len(k) > 1 {
				s = append(s, strings.TrimSpace(k[1]))
			} else {
				s = append(s, "int")
			}
		}
		return
	}
	for _, st := range stmts {
		w := strings.SplitN(st.text, " ", 2)
		rest := ""
		if len(w) > 1 {
			rest = strings.TrimSpace(w[1])
		}
		switch w[0] {
		case "def":
			i := strings.Index(rest, "=")
			head := strings.TrimSpace(rest[:i])
			d := &def{body: parseExpr(rest[i+1:], st.pos)}
			if k := strings.Index(head, "("); k >= 0 {
				d.params = splitList(strings.TrimSuffix(head[k+1:], ")"))
				head = strings.TrimSpace(head[:k])
			}
			sp.defs[head] = d
		case "func":
			key, ps, rs := sig(rest, st.pos)
			c = &Contract{key: key, params: ps, results: rs, pos: st.pos}
			bh = nil
			sp.contracts = append(sp.contracts, c)
			sp.byKey[key] = c
		case "requires":
			c.requires = append(c.requires, clause(rest, st.pos))
		case "ensures":
			if bh != nil {
				bh.ensures = append(bh.ensures, clause(rest, st.pos))
			} else {
				c.ensures = append(c.ensures, clause(rest, st.pos))
			}
		case "each":
			c.each = append(c.each, clause(rest, st.pos))
		case "behaviour":
			key, ps, _ := sig(rest, st.pos)
			bh = &Behaviour{name: key}
			bh.params, bh.sorts = names(ps)
			c.behaviours = append(c.behaviours, bh)
		case "assumes":
			bh.assumes = append(bh.assumes, clause(rest, st.pos))
		case "use":
			n := parseExpr(rest[strings.LastIndex(rest[:strings.Index(rest, "(")], ".")+1:], st.pos)
			u := useClause{fn: rest[:strings.LastIndex(rest[:strings.Index(rest, "(")], ".")], behaviour: n.s, args: n.kids}
			if bh != nil {
				bh.uses = append(bh.uses, u)
			} else {
				c.uses = append(c.uses, u)
			}
		case "events":
			c.events = append(c.events, splitList(rest)...)
		case "records":
			c.records = append(c.records, splitList(rest)...)
		case "modifies":
			if rest == "any" {
				c.modifyAny = true
			} else {
				c.modifies = append(c.modifies, splitList(rest)...)
			}
		case "forever":
			c.forever = true
		case "inline":
			c.inline = true
		case "abstract":
			c.abstract = true
		case "props":
			c.props = splitList(rest)
		case "apply":
			_, ps, _ := sig(rest, st.pos)
			c.applyRes = &applyResult{params: ps}
		case "lemma":
			key, ps, _ := sig(rest[:strings.Index(rest, ":=")], st.pos)
			l := &Lemma{Clause: clause(rest[strings.Index(rest, ":=")+2:], st.pos)}
			if l.label == "" {
				l.label = key
			}
			l.params, l.sorts = names(ps)
			sp.lemmas = append(sp.lemmas, l)
		case "auto":
			f := strings.Fields(rest)
			sp.autos = append(sp.autos, f)
		}
	}
}

// ---------- evaluation

// SV is a value of the contract language with its Go type (nil for logical values).
type SV struct {
	v  Value
	t  types.Type
	st *State // memory it refers to (nil: the current one)
}

// specEnv evaluates conditions of one contract.
type specEnv struct {
	x       *Exec
	ver     *Verifier
	con     *Contract
	args    []Value
	names   map[string]SV
	pre     *State
	st      *State
	assume  bool // conditions are assumed: existential variables are arbitrary
	base    map[string]interface{}
	call    *callEffects // at a call: what the callee did
	inst    map[string]*Term
	witness []*Term
	binds   []map[string]*Node
}

// callEffects are the ghost effects of an applied contract.
type callEffects struct {
	reads    *Term
	tx       map[string]*Term
	readtx   map[string]*Term
	wfail    *Term
	timedout *Term
	stream   map[string]int
}

type specErr struct{ msg string }

func (e *specEnv) fail(n *Node, format string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s: %s", n.pos, fmt.Sprintf(format, a...))})
}

func (e *specEnv) with(name string, v SV) *specEnv {
	n := *e
	n.names = copyMap(e.names)
	n.names[name] = v
	return &n
}

func (e *specEnv) state(sv SV) *State {
	if sv.st != nil {
		return sv.st
	}
	return e.st
}

func (e *specEnv) boolean(n *Node) *Term {
	v := e.eval(n)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		e.fail(n, "not a condition")
	}
	return t
}

func (e *specEnv) integer(n *Node) *Term {
	t, ok := e.eval(n).v.(*Term)
	if !ok || t.sort != SInt {
		e.fail(n, "not a number")
	}
	return t
}

// seq coerces to a byte sequence.
func (e *specEnv) seq(n *Node) *Term { return e.toSeq(n, e.eval(n)) }

func (e *specEnv) toSeq(n *Node, v SV) *Term {
	switch c := v.v.(type) {
	case *Term:
		if c.sort == SSeq {
			return c
		}
	case SliceV:
		if c.obj == 0 {
			return Empty
		}
		ct, ok := e.x.content(e.state(v), c.obj).(*Term)
		if !ok {
			e.fail(n, "not bytes")
		}
		return e.state(v).sub(ct, c.off, c.len)
	case NilV:
		return Empty
	case PtrV:
		d := e.derefSV(n, v)
		if t, ok := d.v.(*Term); ok && t.sort == SSeq {
			return t
		}
	}
	e.fail(n, "not a byte sequence (%T)", v.v)
	return nil
}

func (e *specEnv) derefSV(n *Node, v SV) SV {
	p, ok := v.v.(PtrV)
	if !ok {
		return v
	}
	c := e.x.content(e.state(v), p.obj)
	for _, s := range p.path {
		switch d := c.(type) {
		case StructV:
			c = d.f[s.field]
		case ArrayV:
			if !s.idx.isInt() {
				e.fail(n, "symbolic index")
			}
			c = d.e[s.idx.k.Int64()]
		case *Term:
			c = Nth(d, s.idx)
		default:
			e.fail(n, "cannot follow a pointer into %T", c)
		}
	}
	var t types.Type
	if v.t != nil {
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
	} else if len(p.path) == 0 {
		t = e.x.objs[p.obj].typ
	}
	return SV{c, t, v.st}
}

func (e *specEnv) field(n *Node, v SV, name string) SV {
	if iv, ok := v.v.(IfaceV); ok && iv.typ != nil {
		v = SV{iv.val, iv.typ, v.st}
	}
	if _, ok := v.v.(PtrV); ok {
		v = e.derefSV(n, v)
	}
	if tv, ok := v.v.(TupleV); ok && v.t == nil {
		_ = tv
	}
	if v.t == nil {
		e.fail(n, "field %s of an untyped value %T", name, v.v)
	}
	obj, path, _ := types.LookupFieldOrMethod(v.t, true, e.pkgOf(v.t), name)
	if obj == nil {
		e.fail(n, "no field %s in %s", name, v.t)
	}
	for _, i := range path {
		if _, ok := v.v.(PtrV); ok {
			v = e.derefSV(n, v)
		}
		st, ok := v.t.Underlying().(*types.Struct)
		s, ok2 := v.v.(StructV)
		if !ok || !ok2 {
			e.fail(n, "field %s of %T", name, v.v)
		}
		v = SV{s.f[i], st.Field(i).Type(), v.st}
	}
	return v
}

func (e *specEnv) pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// name text of an event argument
func (e *specEnv) text(n *Node) string {
	switch n.op {
	case "str":
		return n.s
	case "id":
		if d, ok := e.ver.spec.defs[n.s]; ok && len(d.params) == 0 {
			return e.text(d.body)
		}
		if v, ok := e.names[n.s]; ok {
			if t, ok := v.v.(*Term); ok && t.sort == SSeq {
				if s, ok := seqString(t); ok {
					return s
				}
			}
		}
	}
	e.fail(n, "expected a name")
	return ""
}

// evText is the name of an event; functions may be written as in contracts
func (e *specEnv) evText(n *Node) string { return e.ver.eventName(e.text(n)) }

func (e *specEnv) event(n *Node, name string, k int) *Event {
	if k > 0 {
		if v, ok := e.st.ghost[fmt.Sprintf("ev:%s#%d", name, k)].(*Event); ok {
			return v
		}
	}
	if k == 0 {
		if v, ok := e.st.ghost["last:"+name].(*Event); ok {
			return v
		}
	}
	e.fail(n, "no event %s #%d on this path", name, k)
	return nil
}

func (e *specEnv) connKeyOf(n *Node, v SV) string {
	switch c := v.v.(type) {
	case IfaceV:
		return connKey(c)
	}
	e.fail(n, "not a connection")
	return ""
}

func (e *specEnv) eval(n *Node) SV {
	switch n.op {
	case "int":
		return SV{v: IB(n.n)}
	case "str":
		return SV{v: SeqStr(n.s)}
	case "id":
		return e.ident(n)
	case "field":
		if n.kids[0].op == "id" {
			if _, ok := e.names[n.kids[0].s]; !ok {
				if p := e.ver.prog.pkgByShort(n.kids[0].s); p != nil {
					return e.global(n, p, n.s)
				}
			}
		}
		return e.field(n, e.eval(n.kids[0]), n.s)
	case "un":
		if n.s == "!" {
			return SV{v: Not(e.boolean(n.kids[0]))}
		}
		return SV{v: Neg(e.integer(n.kids[0]))}
	case "if":
		c := e.st.simp(e.boolean(n.kids[0]))
		if c == True {
			return e.eval(n.kids[1])
		}
		if c == False {
			return e.eval(n.kids[2])
		}
		a, b := e.eval(n.kids[1]), e.eval(n.kids[2])
		m := e.x.mergeIte(c, a.v, b.v)
		if m == nil {
			e.fail(n, "cannot merge")
		}
		return SV{m, a.t, a.st}
	case "let":
		return e.with(n.s, e.eval(n.kids[0])).eval(n.kids[1])
	case "exists":
		if e.assume {
			return e.with(n.s, SV{v: Fresh("F", SSeq)}).eval(n.kids[0])
		}
		var alts []*Term
		for _, w := range e.witnesses() {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); !ok {
							panic(r)
						}
					}
				}()
				alts = append(alts, e.with(n.s, SV{v: w}).boolean(n.kids[0]))
			}()
		}
		return SV{v: Or(alts...)}
	case "bin":
		return SV{v: e.binary(n)}
	case "index":
		v := e.eval(n.kids[0])
		return SV{v: e.st.nth(e.toSeq(n, v), e.integer(n.kids[1]))}
	case "slice":
		s := e.seq(n.kids[0])
		lo := I(0)
		if n.kids[1] != nil {
			lo = e.integer(n.kids[1])
		}
		hi := Len(s)
		if n.kids[2] != nil {
			hi = e.integer(n.kids[2])
		}
		return SV{v: e.st.sub(s, lo, Sub2(hi, lo))}
	case "call":
		return e.callExpr(n)
	}
	e.fail(n, "unknown expression")
	return SV{}
}

// witnesses are the candidates for an existential sequence.
func (e *specEnv) witnesses() []*Term {
	if e.witness != nil {
		return e.witness
	}
	seen := map[*Term]bool{}
	r := []*Term{}
	streams := map[*Term]bool{}
	for _, s := range e.x.streams {
		streams[s] = true
	}
	all := append([]*Term{}, e.st.pc...)
	for _, k := range sortedInts(func() map[int]bool {
		m := map[int]bool{}
		for id := range e.st.heap {
			m[id] = true
		}
		return m
	}()) {
		switch t := e.st.heap[k].(type) {
		case *Term:
			all = append(all, t)
		case *ScanV:
			if tok, ok := t.tok.(SliceV); ok {
				all = append(all, e.x.seqOf(e.st, tok))
			}
		}
	}
	Walk(all, map[*Term]bool{}, func(t *Term) {
		if t.sort != SSeq || seen[t] {
			return
		}
		if t.op == OVar && strings.HasPrefix(t.name, "F!") || t.op == OSub && streams[t.args[0]] {
			seen[t] = true
			r = append(r, t)
		}
	})
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	e.witness = r
	return r
}

func (e *specEnv) global(n *Node, p *ssa.Package, name string) SV {
	switch m := p.Members[name].(type) {
	case *ssa.Global:
		id := e.x.globalObj(m)
		return SV{e.x.content(e.st, id), m.Type().(*types.Pointer).Elem(), nil}
	case *ssa.NamedConst:
		return SV{e.x.constVal(m.Value), m.Type(), nil}
	}
	e.fail(n, "no variable or constant %s.%s", p.Pkg.Name(), name)
	return SV{}
}

func (e *specEnv) ident(n *Node) SV {
	if v, ok := e.names[n.s]; ok {
		return v
	}
	switch n.s {
	case "true":
		return SV{v: True}
	case "false":
		return SV{v: False}
	case "nil":
		return SV{v: NilV{}}
	}
	if d, ok := e.ver.spec.defs[n.s]; ok && len(d.params) == 0 {
		return e.eval(d.body)
	}
	e.fail(n, "unknown name %s", n.s)
	return SV{}
}

// isNil is the condition that a value is nil.
func (e *specEnv) isNil(n *Node, v Value) *Term {
	switch c := v.(type) {
	case IfaceV:
		return Eq(c.ref, I(0))
	case NilV:
		return True
	case SliceV:
		return c.isnil
	case PtrV, MapV, ChanV:
		return False
	case OpaqueV:
		return Eq(c.ref, I(0))
	case FuncV:
		return False
	}
	e.fail(n, "cannot be nil: %T", v)
	return nil
}

func (e *specEnv) binary(n *Node) *Term {
	switch n.s {
	case "==>":
		a := e.st.simp(e.boolean(n.kids[0]))
		if a == False {
			return True
		}
		return Implies(a, e.boolean(n.kids[1]))
	case "&&":
		a := e.st.simp(e.boolean(n.kids[0]))
		if a == False {
			return False
		}
		return And(a, e.boolean(n.kids[1]))
	case "||":
		a := e.st.simp(e.boolean(n.kids[0]))
		if a == True {
			return True
		}
		return Or(a, e.boolean(n.kids[1]))
	case "<==>":
		return Eq(e.boolean(n.kids[0]), e.boolean(n.kids[1]))
	case "==", "!=":
		a, b := e.eval(n.kids[0]), e.eval(n.kids[1])
		var r *Term
		_, an := a.v.(NilV)
		_, bn := b.v.(NilV)
		ta, oka := a.v.(*Term)
		tb, okb := b.v.(*Term)
		if oka && okb {
			if (ta.sort == SF32 || ta.sort == SF64) && tb.sort == SInt {
				tb = FFromI(ta.sort, tb)
			} else if (tb.sort == SF32 || tb.sort == SF64) && ta.sort == SInt {
				ta = FFromI(tb.sort, ta)
			}
		}
		// an interface holding a pointer equals that pointer
		if ai, ok := a.v.(IfaceV); ok && ai.typ != nil {
			switch bp := b.v.(type) {
			case PtrV, OpaqueV:
				return e.x.valueEq(ai.val, bp)
			}
		}
		switch {
		case bn:
			r = e.isNil(n, a.v)
		case an:
			r = e.isNil(n, b.v)
		case oka && okb && ta.sort == tb.sort && (ta.sort == SF32 || ta.sort == SF64):
			r = FCmp("eq", ta, tb)
		case oka && okb && ta.sort == tb.sort:
			r = Eq(ta, tb)
		case oka && ta.sort == SSeq || okb && tb.sort == SSeq:
			r = Eq(e.toSeq(n, a), e.toSeq(n, b))
		default:
			if a.st != nil || b.st != nil || true {
				r = e.deepEq(n, a, b)
			}
		}
		if r == nil {
			e.fail(n, "cannot compare %T and %T", a.v, b.v)
		}
		if n.s == "!=" {
			return Not(r)
		}
		return r
	case "++":
		// flattened by the caller through eval
		return Concat(e.seq(n.kids[0]), e.seq(n.kids[1]))
	}
	av, bv := e.eval(n.kids[0]), e.eval(n.kids[1])
	a, ok1 := av.v.(*Term)
	b, ok2 := bv.v.(*Term)
	if !ok1 || !ok2 {
		e.fail(n, "operator %s on %T and %T", n.s, av.v, bv.v)
	}
	if a.sort == SF32 || a.sort == SF64 {
		if b.sort == SInt {
			b = FFromI(a.sort, b)
		}
		switch n.s {
		case "<":
			return FCmp("lt", a, b)
		case "<=":
			return FCmp("leq", a, b)
		case ">":
			return FCmp("lt", b, a)
		case ">=":
			return FCmp("leq", b, a)
		case "+":
			return FArith("add", a, b)
		case "-":
			return FArith("sub", a, b)
		case "*":
			return FArith("mul", a, b)
		case "/":
			return FArith("div", a, b)
		}
	}
	if a.sort != SInt || b.sort != SInt {
		e.fail(n, "operator %s on non-numbers", n.s)
	}
	switch n.s {
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Lt(b, a)
	case ">=":
		return Le(b, a)
	case "+":
		return Add(a, b)
	case "-":
		return Sub2(a, b)
	case "*":
		return Mul(a, b)
	case "/":
		return Div(a, b)
	case "%":
		return Mod(a, b)
	}
	e.fail(n, "operator %s", n.s)
	return nil
}

// deepEq compares values of structs field by field, following nothing.
func (e *specEnv) deepEq(n *Node, a, b SV) *Term {
	sa, ok1 := a.v.(StructV)
	sb, ok2 := b.v.(StructV)
	if ok1 && ok2 && len(sa.f) == len(sb.f) {
		cs := []*Term{}
		for i := range sa.f {
			c := e.deepEq(n, SV{v: sa.f[i], st: a.st}, SV{v: sb.f[i], st: b.st})
			if c == nil {
				return nil
			}
			cs = append(cs, c)
		}
		return And(cs...)
	}
	ta, oka := a.v.(*Term)
	tb, okb := b.v.(*Term)
	if oka && okb && (ta.sort == SF32 || ta.sort == SF64) {
		return Eq(ta, tb)
	}
	if _, ok := a.v.(SliceV); ok {
		if x, ok := b.v.(SliceV); ok {
			_ = x
			return Eq(e.toSeq(n, a), e.toSeq(n, b))
		}
	}
	return e.x.valueEq(a.v, b.v)
}

func (e *specEnv) oldEnv() *specEnv {
	n := *e
	n.st = e.pre
	return &n
}

func (e *specEnv) callExpr(n *Node) SV {
	if d, ok := e.ver.spec.defs[n.s]; ok {
		if len(d.params) != len(n.kids) {
			e.fail(n, "%s takes %d arguments", n.s, len(d.params))
		}
		m := *e
		m.names = copyMap(e.names)
		for i, p := range d.params {
			v := e.eval(n.kids[i])
			m.names[p] = v
		}
		return m.eval(d.body)
	}
	arg := func(i int) *Node {
		if i >= len(n.kids) {
			e.fail(n, "%s: missing argument", n.s)
		}
		return n.kids[i]
	}
	x := e.x
	switch n.s {
	case "old":
		o := e.oldEnv()
		v := o.eval(arg(0))
		if v.st == nil {
			v.st = e.pre
		}
		return v
	case "len":
		v := e.eval(arg(0))
		if s, ok := v.v.(SliceV); ok {
			return SV{v: s.len}
		}
		return SV{v: Len(e.toSeq(n, v))}
	case "bytes":
		return SV{v: e.seq(arg(0))}
	case "seq":
		var ps []*Term
		for _, k := range n.kids {
			v := e.eval(k)
			t, ok := v.v.(*Term)
			if !ok || t.sort != SInt {
				e.fail(n, "seq of non-numbers")
			}
			ps = append(ps, Unit(t))
		}
		return SV{v: Concat(ps...)}
	case "ESC", "UE":
		return SV{v: UF(n.s, SSeq, e.seq(arg(0)))}
	case "SUM", "FC":
		return SV{v: UF(n.s, SInt, e.seq(arg(0)))}
	case "SZ":
		return SV{v: UF(n.s, SInt, e.seq(arg(0)), e.integer(arg(1)))}
	case "TRIM":
		return SV{v: UF("TRIM", SSeq, e.seq(arg(0)))}
	case "prefix":
		return SV{v: prefixOf(e.seq(arg(0)), e.seq(arg(1)))}
	case "hasat": // hasat(s, o, t): t occurs in s at offset o
		s, o, t := e.seq(arg(0)), e.integer(arg(1)), e.seq(arg(2))
		return SV{v: And(Ge0(o), Le(Add(o, Len(t)), Len(s)), Eq(Sub(s, o, Len(t)), t))}
	case "f32":
		v := e.eval(arg(0))
		t := v.v.(*Term)
		if t.sort == SInt {
			return SV{v: FFromI(SF32, t)}
		}
		return SV{v: FFromF(SF32, t)}
	case "f64":
		v := e.eval(arg(0))
		t := v.v.(*Term)
		if t.sort == SInt {
			return SV{v: FFromI(SF64, t)}
		}
		return SV{v: FFromF(SF64, t)}
	case "trunc":
		return SV{v: FToI(e.eval(arg(0)).v.(*Term))}
	case "isnan":
		t := e.eval(arg(0)).v.(*Term)
		return SV{v: Not(FCmp("eq", t, t))}
	case "iszero":
		v := e.eval(arg(0))
		z := x.zeroValue(v.t)
		r := e.zeroEq(n, v, z)
		return SV{v: r}
	case "deref":
		return e.derefSV(n, e.eval(arg(0)))
	case "same":
		a, b := e.eval(arg(0)), e.eval(arg(1))
		r := x.valueEq(a.v, b.v)
		if r == nil {
			r = False
		}
		return SV{v: r}
	case "unchanged":
		a := e.eval(arg(0))
		b := e.oldEnv().eval(arg(0))
		r := e.deepEq(n, a, SV{b.v, b.t, e.pre})
		if r == nil {
			e.fail(n, "cannot compare %T with its old value", a.v)
		}
		return SV{v: r}
	case "isfresh":
		switch p := e.eval(arg(0)).v.(type) {
		case PtrV:
			return SV{v: B(x.objs[p.obj].fresh)}
		case SliceV:
			return SV{v: B(p.obj == 0 || x.objs[p.obj].fresh)}
		}
		return SV{v: False}
	case "typeis":
		v := e.eval(arg(0))
		want := e.text(arg(1))
		iv, ok := v.v.(IfaceV)
		if !ok || iv.typ == nil {
			return SV{v: False}
		}
		return SV{v: B(strings.ReplaceAll(iv.typ.String(), modulePath+"/", "") == want)}
	// connections
	case "stream":
		v := e.eval(arg(0))
		iv, ok := v.v.(IfaceV)
		if !ok {
			e.fail(n, "stream of %T", v.v)
		}
		k := 0
		if e.call != nil {
			k = e.call.stream[connKey(iv)]
		}
		return SV{v: x.streamVar(iv, k)}
	case "tx":
		k := e.connKeyOf(n, e.eval(arg(0)))
		if e.call != nil {
			if t := e.call.tx[k]; t != nil {
				return SV{v: t}
			}
			t := Fresh("tx", SSeq)
			e.call.tx[k] = t
			return SV{v: t}
		}
		return SV{v: ghostSeq(e.st, "tx:"+k)}
	case "readtx": // what had been written when the first byte was read (all of it, if nothing was)
		k := e.connKeyOf(n, e.eval(arg(0)))
		if e.call != nil {
			if t := e.call.readtx[k]; t != nil {
				return SV{v: t}
			}
			t := Fresh("readtx", SSeq)
			e.call.readtx[k] = t
			return SV{v: t}
		}
		if t, ok := e.st.ghost["readtx:"+k].(*Term); ok {
			return SV{v: t}
		}
		return SV{v: ghostSeq(e.st, "tx:"+k)}
	case "reads":
		if e.call != nil {
			if e.call.reads == nil {
				e.call.reads = FreshR("reads", bigZero, nil)
			}
			return SV{v: e.call.reads}
		}
		return SV{v: ghostInt(e.st, "reads")}
	case "wfail":
		if e.call != nil {
			return SV{v: e.call.wfail}
		}
		return SV{v: ghostBool(e.st, "wfail")}
	case "rfail":
		return SV{v: ghostBool(e.st, "rfail")}
	case "timedout":
		if e.call != nil {
			return SV{v: e.call.timedout}
		}
		return SV{v: ghostBool(e.st, "timedout")}
	case "directio":
		return SV{v: ghostInt(e.st, "dio:"+e.connKeyOf(n, e.eval(arg(0))))}
	case "exclusive_io": // all I/O happened within one acquisition of one exclusive lock of the package
		l, ok := e.st.ghost["iolocks"].(LockSet)
		return SV{v: B(!ok || string(l) != "")}
	case "timer_ok":
		c := e.field(n, e.eval(arg(0)), "C")
		ch, ok := c.v.(ChanV)
		if !ok {
			return SV{v: False}
		}
		return SV{v: x.timerGood(e.st, ch)}
	// events
	case "n":
		return SV{v: ghostInt(e.st, "n:"+e.evText(arg(0)))}
	case "arg":
		ev := e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64()))
		i := int(e.integer(arg(2)).k.Int64())
		if i >= len(ev.args) {
			e.fail(n, "event has %d arguments", len(ev.args))
		}
		var t types.Type
		if ev.fn != nil {
			t = ev.fn.Params[i].Type()
		}
		return SV{ev.args[i], t, &State{heap: ev.heap}}
	case "ret":
		ev := e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64()))
		i := int(e.integer(arg(2)).k.Int64())
		var t types.Type
		if ev.fn != nil {
			t = ev.fn.Signature.Results().At(i).Type()
		}
		if tv, ok := ev.ret.(TupleV); ok {
			return SV{tv[i], t, &State{heap: ev.heap}}
		}
		return SV{ev.ret, t, &State{heap: ev.heap}}
	case "order":
		return SV{v: e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64())).seq}
	case "events":
		return SV{v: ghostInt(e.st, "seq")}
	case "setting": // setting(name): a configuration setting
		return SV{v: x.setting(false, e.text(arg(0)))}
	case "when": // when(event, k, expr): expr in the memory an event found
		ev := e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64()))
		m := *e
		m.st = &State{heap: ev.heap}
		return m.eval(arg(2))
	case "at": // when an event happened
		return SV{v: e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64())).at}
	case "unbuffered":
		c, ok := e.eval(arg(0)).v.(ChanV)
		if !ok {
			return SV{v: False}
		}
		k, ok := x.objs[c.obj].attrs["cap"].(*Term)
		return SV{v: B(ok && k == I(0))}
	case "held": // held(event, k, lock): the exclusive locks held when it happened include lock
		ev := e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64()))
		want := e.text(arg(2))
		for _, l := range ev.locks {
			if l == want || strings.HasPrefix(l, want+"#") {
				return SV{v: True}
			}
		}
		return SV{v: False}
	case "heldlockof": // heldlockof(event, k, function): an exclusive lock taken by the function was held when it happened
		ev := e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64()))
		c := e.ver.spec.byKey[e.text(arg(2))]
		if c == nil {
			e.fail(n, "no contract for %s", e.text(arg(2)))
		}
		eff := e.ver.run(c, nil).eff
		if eff == nil {
			return SV{v: False} // not understood: reported there
		}
		for _, r := range eff.acquired {
			if r.param >= 0 || !r.write {
				continue
			}
			for _, l := range ev.locks {
				if l == r.key || strings.HasPrefix(l, r.key+"#") {
					return SV{v: True}
				}
			}
		}
		return SV{v: False}
	case "heldset": // number of exclusive lock acquisitions common to two events
		a := e.event(n, e.evText(arg(0)), int(e.integer(arg(1)).k.Int64()))
		b := e.event(n, e.evText(arg(2)), int(e.integer(arg(3)).k.Int64()))
		c := 0
		for _, p := range a.locks {
			for _, q := range b.locks {
				if p == q && x.isGlobalLock(p) {
					c++
				}
			}
		}
		return SV{v: I(int64(c))}
	case "isaddr": // isaddr(p, "pkg.var"): p is the address of this variable
		p, ok := e.eval(arg(0)).v.(PtrV)
		if !ok {
			return SV{v: False}
		}
		o := x.objs[p.obj]
		return SV{v: B(o.global != nil && len(p.path) == 0 && o.name == e.text(arg(1)))}
	case "selected":
		tv, ok := e.st.ghost["select"].(TupleV)
		if !ok {
			return SV{v: False}
		}
		r := x.valueEq(tv[0], e.eval(arg(0)).v)
		if r == nil {
			r = False
		}
		return SV{v: r}
	case "code":
		iv, ok := e.eval(arg(0)).v.(IfaceV)
		want := e.text(arg(1))
		if !ok {
			return SV{v: False}
		}
		return SV{v: B(x.codes[iv.ref] == want)}
	case "period":
		v := e.eval(arg(0))
		c := e.field(n, v, "C")
		ch, ok := c.v.(ChanV)
		if !ok {
			return SV{v: I(-1)}
		}
		if d, ok := x.objs[ch.obj].attrs["dur"].(*Term); ok {
			return SV{v: d}
		}
		return SV{v: I(-1)}
	case "now":
		return SV{v: x.clock(e.st)}
	case "start":
		if t, ok := e.st.ghost["start"].(*Term); ok {
			return SV{v: t}
		}
		return SV{v: x.clock(e.st)}
	case "timeout_error": // an error that says the operation timed out
		a, ok := e.eval(arg(0)).v.(IfaceV)
		if !ok {
			return SV{v: False}
		}
		says := func(r *Term) *Term { return UF("timeouterr", SBool, r) }
		alts := []*Term{says(a.ref)}
		if e.call != nil {
			return SV{v: alts[0]}
		}
		for r, s := range x.errText {
			l := strings.ToLower(s)
			if strings.Contains(l, "timed out") || strings.Contains(l, "timeout") || strings.Contains(l, "time out") {
				alts = append(alts, Eq(a.ref, r))
				for w, cs := range x.wraps {
					for _, c := range cs {
						if c == r {
							alts = append(alts, Eq(a.ref, w))
						}
					}
				}
			}
		}
		for w, cs := range x.wraps {
			for _, c := range cs {
				alts = append(alts, And(Eq(a.ref, w), says(c)))
			}
		}
		return SV{v: Or(alts...)}
	case "wraps": // wraps(err, cause)
		a, ok1 := e.eval(arg(0)).v.(IfaceV)
		b, ok2 := e.eval(arg(1)).v.(IfaceV)
		if !ok1 || !ok2 {
			return SV{v: False}
		}
		r := []*Term{Eq(a.ref, b.ref)}
		for _, w := range x.wraps[a.ref] {
			r = append(r, Eq(w, b.ref))
		}
		return SV{v: Or(r...)}
	}
	e.fail(n, "unknown function %s", n.s)
	return SV{}
}

// zeroEq: the value is the zero value (slices: empty).
func (e *specEnv) zeroEq(n *Node, v SV, z Value) *Term {
	switch c := v.v.(type) {
	case StructV:
		zs := z.(StructV)
		var cs []*Term
		for i := range c.f {
			cs = append(cs, e.zeroEq(n, SV{v: c.f[i], st: v.st}, zs.f[i]))
		}
		return And(cs...)
	case SliceV:
		return Eq(c.len, I(0))
	case *Term:
		return Eq(c, z.(*Term))
	case IfaceV:
		return Eq(c.ref, I(0))
	case NilV:
		return True
	case OpaqueV:
		return Eq(c.ref, I(0))
	}
	if r := e.x.valueEq(v.v, z); r != nil {
		return r
	}
	return False
}
