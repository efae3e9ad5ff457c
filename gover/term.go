package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// Sort of a term.
type Sort uint8

const (
	SInt Sort = iota
	SBool
	SSeq // (Seq Int), elements 0..255
	SF32
	SF64
)

func (s Sort) String() string {
	switch s {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SSeq:
		return "(Seq Int)"
	case SF32:
		return "Float32"
	case SF64:
		return "Float64"
	}
	return "?"
}

// Op is a term constructor.
type Op uint8

const (
	OVar    Op = iota
	OInt       // integer literal
	OBool      // boolean literal
	OLin       // k + sum(coef*atom)
	OMul       // product of two non-constant terms
	ODiv       // Euclidean division
	OMod       // Euclidean modulo
	OGe0       // arg >= 0
	OEq0       // arg == 0
	OEq        // equality of non-integers
	OAnd       // n-ary
	OOr        // n-ary
	ONot       //
	OIte       //
	OLen       // sequence length
	ONth       // sequence element
	OUnit      // one-element sequence
	OEmpty     // empty sequence
	OConcat    // n-ary
	OSub       // sub-sequence (s, off, len)
	OUF        // application of a named function
	OFConst    // float literal (bits in i)
	OFOp       // float operation by SMT name
	OFFromI    // integer to float
	OFToI      // float to integer, truncated
	OFFromF    // float to float
	OBits      // bitwise operation by name on non-negative integers: and, or, xor
	OZeros     // n zero bytes
	OForall    // not used in code terms
)

// Term is a hash-consed term.
type Term struct {
	op      Op
	sort    Sort
	args    []*Term
	k       *big.Int   // OInt, OLin constant, OFConst bits
	co      []*big.Int // OLin coefficients, parallel to args
	name    string
	b       bool
	id      int
	iv      *interval // static interval for SInt
	freshNo int64     // number of a variable
}

type interval struct{ lo, hi *big.Int } // nil: unbounded

// Terms is the hash-consing table.
type termTable struct {
	mu   sync.RWMutex
	m    map[string]*Term
	next int
}

var tt = &termTable{m: map[string]*Term{}}

func big64(n int64) *big.Int { return big.NewInt(n) }

var (
	bigZero = big64(0)
	bigOne  = big64(1)
)

func (t *termTable) mk(op Op, s Sort, name string, k *big.Int, co []*big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + op))
	sb.WriteByte(byte('a' + s))
	sb.WriteString(name)
	sb.WriteByte('|')
	if k != nil {
		sb.WriteString(k.String())
	}
	for i, a := range args {
		sb.WriteByte(',')
		if co != nil {
			sb.WriteString(co[i].String())
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	t.mu.RLock()
	r, ok := t.m[key]
	t.mu.RUnlock()
	if ok {
		return r
	}
	r = &Term{op: op, sort: s, args: append([]*Term{}, args...), k: k, co: co, name: name}
	if s == SInt {
		r.iv = r.computeIv()
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if q, ok := t.m[key]; ok {
		return q
	}
	r.id = t.next
	t.next++
	t.m[key] = r
	return r
}

// ---------- constants and variables

func I(n int64) *Term        { return tt.mk(OInt, SInt, "", big64(n), nil) }
func IB(n *big.Int) *Term    { return tt.mk(OInt, SInt, "", new(big.Int).Set(n), nil) }
func (t *Term) isInt() bool  { return t.op == OInt }
func (t *Term) isBool() bool { return t.op == OBool }

var (
	True  = tt.mk(OBool, SBool, "true", nil, nil)
	False = tt.mk(OBool, SBool, "false", nil, nil)
	Empty = tt.mk(OEmpty, SSeq, "", nil, nil)
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshN int64

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// Fresh yields a new variable.
func Fresh(name string, s Sort) *Term {
	n := atomic.AddInt64(&freshN, 1)
	t := tt.mk(OVar, s, fmt.Sprintf("%s!%d", sanitize(name), n), nil, nil)
	t.freshNo = n
	return t
}

// FreshR yields a new integer variable with a static range.
func FreshR(name string, lo, hi *big.Int) *Term {
	n := atomic.AddInt64(&freshN, 1)
	t := tt.mk(OVar, SInt, fmt.Sprintf("%s!%d", sanitize(name), n), nil, nil)
	t.freshNo = n
	t.iv = &interval{lo, hi}
	return t
}

// ---------- intervals

func ivConst(k *big.Int) *interval { return &interval{k, k} }

func (t *Term) computeIv() *interval {
	switch t.op {
	case OInt:
		return ivConst(t.k)
	case OLen:
		return &interval{bigZero, maxLen}
	case ONth:
		return &interval{bigZero, big64(255)}
	case OMod:
		if t.args[1].isInt() {
			return &interval{bigZero, new(big.Int).Sub(t.args[1].k, bigOne)}
		}
	case ODiv:
		if t.args[1].isInt() && t.args[1].k.Sign() > 0 {
			a := t.args[0].iv
			r := &interval{}
			if a.lo != nil {
				r.lo = new(big.Int).Div(a.lo, t.args[1].k)
			}
			if a.hi != nil {
				r.hi = new(big.Int).Div(a.hi, t.args[1].k)
			}
			return r
		}
		if a, d := t.args[0].iv, t.args[1].iv; a.lo != nil && a.lo.Sign() >= 0 && d.lo != nil && d.lo.Sign() > 0 {
			return &interval{bigZero, a.hi}
		}
	case OIte:
		return ivJoin(t.args[1].iv, t.args[2].iv)
	case OLin:
		return linIv(t, func(a *Term) *interval { return a.iv })
	case OMul:
		a, b := t.args[0].iv, t.args[1].iv
		if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			r := &interval{lo: new(big.Int).Mul(a.lo, b.lo)}
			if a.hi != nil && b.hi != nil {
				r.hi = new(big.Int).Mul(a.hi, b.hi)
			}
			return r
		}
	case OBits:
		a, b := t.args[0].iv, t.args[1].iv
		if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			r := &interval{lo: bigZero}
			if t.name == "and" {
				r.hi = a.hi
				if r.hi == nil || b.hi != nil && b.hi.Cmp(r.hi) < 0 {
					r.hi = b.hi
				}
			} else if a.hi != nil && b.hi != nil {
				n := a.hi.BitLen()
				if b.hi.BitLen() > n {
					n = b.hi.BitLen()
				}
				r.hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(n)), bigOne)
			}
			return r
		}
	case OUF:
		switch t.name {
		case "FC", "SUM":
			return &interval{lo: bigZero}
		case "SZ":
			return &interval{lo: bigZero}
		}
	}
	return &interval{}
}

var maxLen = new(big.Int).Lsh(bigOne, 48) // no byte slice is longer than 2^48

func ivJoin(a, b *interval) *interval {
	r := &interval{}
	if a.lo != nil && b.lo != nil {
		r.lo = a.lo
		if b.lo.Cmp(a.lo) < 0 {
			r.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		r.hi = a.hi
		if b.hi.Cmp(a.hi) > 0 {
			r.hi = b.hi
		}
	}
	return r
}

func ivMeet(a, b *interval) *interval {
	r := &interval{a.lo, a.hi}
	if b == nil {
		return r
	}
	if b.lo != nil && (r.lo == nil || b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if b.hi != nil && (r.hi == nil || b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}

func linIv(t *Term, f func(*Term) *interval) *interval {
	lo, hi := new(big.Int).Set(t.k), new(big.Int).Set(t.k)
	lok, hik := true, true
	for i, a := range t.args {
		iv := f(a)
		c := t.co[i]
		l, h := iv.lo, iv.hi
		if c.Sign() < 0 {
			l, h = h, l
		}
		if l == nil {
			lok = false
		} else if lok {
			lo.Add(lo, new(big.Int).Mul(c, l))
		}
		if h == nil {
			hik = false
		} else if hik {
			hi.Add(hi, new(big.Int).Mul(c, h))
		}
	}
	r := &interval{}
	if lok {
		r.lo = lo
	}
	if hik {
		r.hi = hi
	}
	return r
}

// ---------- linear arithmetic

type lin struct {
	k *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(t, bigOne)
	return l
}

func (l *lin) add(t *Term, c *big.Int) {
	switch t.op {
	case OInt:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(c, t.co[i]))
		}
	default:
		l.addAtom(t, c)
	}
}

func (l *lin) addAtom(a *Term, c *big.Int) {
	if o, ok := l.m[a]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = s
		}
	} else if c.Sign() != 0 {
		l.m[a] = new(big.Int).Set(c)
	}
}

func (l lin) term() *Term {
	if len(l.m) == 0 {
		return IB(l.k)
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.k.Sign() == 0 && l.m[atoms[0]].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	co := make([]*big.Int, len(atoms))
	for i, a := range atoms {
		co[i] = l.m[a]
	}
	return tt.mk(OLin, SInt, "", new(big.Int).Set(l.k), co, atoms...)
}

func Add(ts ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, bigOne)
	}
	return l.term()
}

func Sub2(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big64(-1))
	return l.term()
}

func Neg(a *Term) *Term { return Sub2(I(0), a) }

func Scale(a *Term, c *big.Int) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(a, c)
	return l.term()
}

func Mul(a, b *Term) *Term {
	if a.isInt() {
		return Scale(b, a.k)
	}
	if b.isInt() {
		return Scale(a, b.k)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return tt.mk(OMul, SInt, "", nil, nil, a, b)
}

// Div is Euclidean (SMT-LIB) division.
func Div(a, b *Term) *Term {
	if b.isInt() && b.k.Sign() > 0 {
		if a.isInt() {
			q := new(big.Int)
			q.DivMod(a.k, b.k, new(big.Int))
			return IB(q)
		}
		if b.k.Cmp(bigOne) == 0 {
			return a
		}
		if a.iv.lo != nil && a.iv.hi != nil && a.iv.lo.Sign() >= 0 && a.iv.hi.Cmp(b.k) < 0 {
			return I(0)
		}
		// (b*x + r) / b with 0 <= r < b
		if a.op == OLin {
			q := lin{new(big.Int), map[*Term]*big.Int{}}
			r := lin{new(big.Int), map[*Term]*big.Int{}}
			qk, rk := new(big.Int).DivMod(a.k, b.k, new(big.Int))
			q.k.Set(qk)
			r.k.Set(rk)
			for i, x := range a.args {
				qq, rr := new(big.Int).DivMod(a.co[i], b.k, new(big.Int))
				if rr.Sign() == 0 {
					q.addAtom(x, qq)
				} else {
					r.addAtom(x, a.co[i])
				}
			}
			rt := r.term()
			if rt.iv.lo != nil && rt.iv.hi != nil && rt.iv.lo.Sign() >= 0 && rt.iv.hi.Cmp(b.k) < 0 {
				return q.term()
			}
			if len(q.m) > 0 || q.k.Sign() != 0 {
				return Add(q.term(), tt.mk(ODiv, SInt, "", nil, nil, rt, b))
			}
		}
		if a.op == ODiv && a.args[1].isInt() && a.args[1].k.Sign() > 0 {
			return Div(a.args[0], IB(new(big.Int).Mul(a.args[1].k, b.k)))
		}
	}
	return tt.mk(ODiv, SInt, "", nil, nil, a, b)
}

// Mod is Euclidean (SMT-LIB) modulo.
func Mod(a, b *Term) *Term {
	if b.isInt() && b.k.Sign() > 0 {
		if a.isInt() {
			return IB(new(big.Int).Mod(a.k, b.k))
		}
		if a.iv.lo != nil && a.iv.hi != nil && a.iv.lo.Sign() >= 0 && a.iv.hi.Cmp(b.k) < 0 {
			return a
		}
		// reduce coefficients and drop inner mods whose modulus is a multiple of b
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		src := toLin(a)
		changed := false
		for x, c := range src.m {
			if x.op == OMod && x.args[1].isInt() && new(big.Int).Mod(x.args[1].k, b.k).Sign() == 0 {
				l.add(x.args[0], c)
				changed = true
			} else {
				l.addAtom(x, c)
			}
		}
		l.k.Add(l.k, src.k)
		l2 := lin{new(big.Int).Mod(l.k, b.k), map[*Term]*big.Int{}}
		for x, c := range l.m {
			cc := new(big.Int).Mod(c, b.k)
			if cc.Cmp(c) != 0 {
				changed = true
			}
			l2.addAtom(x, cc)
		}
		if l2.k.Cmp(l.k) != 0 {
			changed = true
		}
		if changed {
			return Mod(l2.term(), b)
		}
	}
	return tt.mk(OMod, SInt, "", nil, nil, a, b)
}

// ---------- booleans

func Ge0(a *Term) *Term {
	if a.isInt() {
		return B(a.k.Sign() >= 0)
	}
	if a.iv.lo != nil && a.iv.lo.Sign() >= 0 {
		return True
	}
	if a.iv.hi != nil && a.iv.hi.Sign() < 0 {
		return False
	}
	if a.op == OLin {
		// divide by the gcd of the coefficients
		g := new(big.Int)
		for _, c := range a.co {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			l := lin{new(big.Int), map[*Term]*big.Int{}}
			l.k = new(big.Int).Div(a.k, g) // floor
			for i, x := range a.args {
				l.addAtom(x, new(big.Int).Div(a.co[i], g))
			}
			return Ge0(l.term())
		}
	}
	return tt.mk(OGe0, SBool, "", nil, nil, a)
}

func Le(a, b *Term) *Term { return Ge0(Sub2(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(Add(Sub2(b, a), I(-1))) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts differ: %s %s / %s %s", a, a.sort, b, b.sort))
	}
	switch a.sort {
	case SInt:
		d := Sub2(a, b)
		if d.isInt() {
			return B(d.k.Sign() == 0)
		}
		if d.iv.lo != nil && d.iv.lo.Sign() > 0 || d.iv.hi != nil && d.iv.hi.Sign() < 0 {
			return False
		}
		if d.op == OLin && d.co[0].Sign() < 0 {
			d = Neg(d)
		}
		if d.op == OLin {
			g := new(big.Int)
			for _, c := range d.co {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bigOne) > 0 && new(big.Int).Mod(d.k, g).Sign() != 0 {
				return False
			}
		}
		// ite(c, k1, k2) == k
		if d.op == OIte {
			return Ite(d.args[0], Eq(d.args[1], I(0)), Eq(d.args[2], I(0)))
		}
		if x, y := a, b; true {
			if y.op == OIte {
				x, y = y, x
			}
			if x.op == OIte && (x.args[1].isInt() || x.args[2].isInt()) && y.isInt() {
				return Ite(x.args[0], Eq(x.args[1], y), Eq(x.args[2], y))
			}
		}
		return tt.mk(OEq0, SBool, "", nil, nil, d)
	case SBool:
		if a.isBool() {
			a, b = b, a
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
			return False
		}
	case SSeq:
		if r := seqEq(a, b); r != nil {
			return r
		}
	case SF32, SF64:
		// this is identity of float values, not IEEE equality
		if a.op == OFConst && b.op == OFConst {
			return B(a.k.Cmp(b.k) == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, SBool, "", nil, nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(a *Term) *Term {
	switch a.op {
	case OBool:
		return B(a == False)
	case ONot:
		return a.args[0]
	case OGe0:
		return Ge0(Add(Neg(a.args[0]), I(-1)))
	}
	return tt.mk(ONot, SBool, "", nil, nil, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(ts []*Term) bool
	walk = func(ts []*Term) bool {
		for _, t := range ts {
			if t == False || seen[Not(t)] {
				return false
			}
			if t == True || seen[t] {
				continue
			}
			if t.op == OAnd {
				if !walk(t.args) {
					return false
				}
				continue
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	if !walk(ts) {
		return False
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk(OAnd, SBool, "", nil, nil, out...)
}

func Or(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	for i, t := range ts {
		ns[i] = Not(t)
	}
	r := And(ns...)
	if r.op == OAnd {
		as := make([]*Term, len(r.args))
		for i, t := range r.args {
			as[i] = Not(t)
		}
		return tt.mk(OOr, SBool, "", nil, nil, as...)
	}
	return Not(r)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isBool() || b.isBool() {
			return And(Or(Not(c), a), Or(c, b))
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return tt.mk(OIte, a.sort, "", nil, nil, c, a, b)
}

// ---------- sequences

func Unit(e *Term) *Term { return tt.mk(OUnit, SSeq, "", nil, nil, e) }

func SeqStr(s string) *Term {
	ps := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		ps[i] = Unit(I(int64(s[i])))
	}
	return Concat(ps...)
}

func Zeros(n *Term) *Term {
	if n.isInt() && n.k.IsInt64() && n.k.Int64() <= 64 {
		ps := make([]*Term, n.k.Int64())
		for i := range ps {
			ps[i] = Unit(I(0))
		}
		return Concat(ps...)
	}
	return tt.mk(OZeros, SSeq, "", nil, nil, n)
}

func pieces(t *Term) []*Term {
	switch t.op {
	case OConcat:
		return t.args
	case OEmpty:
		return nil
	}
	return []*Term{t}
}

func Concat(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		if t.sort != SSeq {
			panic("Concat of " + t.String())
		}
		for _, p := range pieces(t) {
			if Len(p) == I(0) {
				continue
			}
			if n := len(ps); n > 0 {
				if j := joinPieces(ps[n-1], p); j != nil {
					ps[n-1] = j
					continue
				}
			}
			ps = append(ps, p)
		}
	}
	switch len(ps) {
	case 0:
		return Empty
	case 1:
		return ps[0]
	}
	return tt.mk(OConcat, SSeq, "", nil, nil, ps...)
}

// joinPieces merges adjacent pieces of the same sequence.
func joinPieces(a, b *Term) *Term {
	base := func(t *Term) (*Term, *Term, *Term) {
		switch t.op {
		case OSub:
			return t.args[0], t.args[1], t.args[2]
		case OUnit:
			if t.args[0].op == ONth {
				return t.args[0].args[0], t.args[0].args[1], I(1)
			}
		}
		return nil, nil, nil
	}
	sa, oa, la := base(a)
	sb, ob, lb := base(b)
	if sa != nil && sa == sb && Add(oa, la) == ob {
		return Sub(sa, oa, Add(la, lb))
	}
	if a.op == OZeros && b.op == OZeros {
		return Zeros(Add(a.args[0], b.args[0]))
	}
	return nil
}

func Len(t *Term) *Term {
	switch t.op {
	case OEmpty:
		return I(0)
	case OUnit:
		return I(1)
	case OConcat:
		ls := make([]*Term, len(t.args))
		for i, a := range t.args {
			ls[i] = Len(a)
		}
		return Add(ls...)
	case OSub:
		return t.args[2]
	case OZeros:
		return t.args[0]
	case OIte:
		a, b := Len(t.args[1]), Len(t.args[2])
		if a == b {
			return a
		}
		return Ite(t.args[0], a, b)
	}
	return tt.mk(OLen, SInt, "", nil, nil, t)
}

// Sub is the sub-sequence of t at off with length n; callers guarantee
// 0 <= off, 0 <= n, off+n <= len(t).
func Sub(t, off, n *Term) *Term {
	return subD(t, off, n, func(c *Term) *Term { return c })
}

// subD is Sub with conditions decided by dec.
func subD(t, off, n *Term, dec func(*Term) *Term) *Term {
	if n == I(0) {
		return Empty
	}
	if off == I(0) && n == Len(t) {
		return t
	}
	switch t.op {
	case OSub:
		return subD(t.args[0], Add(t.args[1], off), n, dec)
	case OZeros:
		return Zeros(n)
	case OIte:
		// keep
	case OConcat:
		// find pieces by syntactically decidable positions
		pos := I(0)
		end := Add(off, n)
		var out []*Term
		started := false
		cur := off
		for i, p := range t.args {
			l := Len(p)
			next := Add(pos, l)
			if !started {
				d := Sub2(cur, pos) // offset into this piece
				if ge := dec(Ge0(d)); ge == True {
					if dec(Lt(d, l)) == True || (d == I(0)) {
						started = true
					} else if dec(Ge0(Sub2(d, l))) == True {
						pos = next
						continue
					} else {
						break
					}
				} else {
					break
				}
			}
			// started: cur lies within p
			d := Sub2(cur, pos)
			rem := Sub2(end, cur)
			left := Sub2(l, d)
			if rem == left || dec(Le(rem, left)) == True {
				out = append(out, subD(p, d, rem, dec))
				return Concat(out...)
			}
			if dec(Le(left, rem)) == True {
				out = append(out, subD(p, d, left, dec))
				cur = next
				pos = next
				if cur == end {
					return Concat(out...)
				}
				_ = i
				continue
			}
			break
		}
	}
	return tt.mk(OSub, SSeq, "", nil, nil, t, off, n)
}

func Tail(t, off *Term) *Term { return Sub(t, off, Sub2(Len(t), off)) }

// Nth is element i of t; callers guarantee 0 <= i < len(t).
func Nth(t, i *Term) *Term {
	switch t.op {
	case OUnit:
		return t.args[0]
	case OSub:
		return Nth(t.args[0], Add(t.args[1], i))
	case OZeros:
		return I(0)
	case OConcat:
		pos := I(0)
		for _, p := range t.args {
			l := Len(p)
			d := Sub2(i, pos)
			if Ge0(d) != True {
				break
			}
			if Lt(d, l) == True {
				return Nth(p, d)
			}
			if Ge0(Sub2(d, l)) == True {
				pos = Add(pos, l)
				continue
			}
			break
		}
		// from the end
		epos := Len(t)
		for j := len(t.args) - 1; j >= 0; j-- {
			p := t.args[j]
			l := Len(p)
			st := Sub2(epos, l)
			d := Sub2(i, st)
			if Lt(i, epos) != True {
				break
			}
			if Ge0(d) == True {
				return Nth(p, d)
			}
			epos = st
		}
	}
	return tt.mk(ONth, SInt, "", nil, nil, t, i)
}

// SeqSet replaces the elements of t at off by v.
func SeqSet(t, off, v *Term) *Term {
	n := Len(v)
	return Concat(Sub(t, I(0), off), v, Tail(t, Add(off, n)))
}

// seqEq decides or simplifies an equality of sequences, or returns nil.
func seqEq(a, b *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	// strip equal prefixes and suffixes
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if len(pa) == 0 && len(pb) == 0 {
		return True
	}
	var conds []*Term
	for len(pa) > 0 && len(pb) > 0 && pa[0].op == OUnit && pb[0].op == OUnit {
		conds = append(conds, Eq(pa[0].args[0], pb[0].args[0]))
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1].op == OUnit && pb[len(pb)-1].op == OUnit {
		conds = append(conds, Eq(pa[len(pa)-1].args[0], pb[len(pb)-1].args[0]))
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	x, y := Concat(pa...), Concat(pb...)
	if x == y {
		return And(conds...)
	}
	le := Eq(Len(x), Len(y))
	if le == False {
		return False
	}
	if x == Empty || y == Empty {
		return And(append(conds, le)...)
	}
	if x == a && y == b {
		return nil
	}
	if x.id > y.id {
		x, y = y, x
	}
	return And(append(conds, tt.mk(OEq, SBool, "", nil, nil, x, y))...)
}

// ---------- named functions

func UF(name string, s Sort, args ...*Term) *Term {
	switch name {
	case "SUM", "ESC":
		// homomorphisms (lemmas sum_cat, esc_cat, proved on every run)
		t := args[0]
		if t.op == OEmpty {
			if name == "SUM" {
				return I(0)
			}
			return Empty
		}
		if t.op == OConcat {
			rs := make([]*Term, len(t.args))
			for i, p := range t.args {
				rs[i] = UF(name, s, p)
			}
			if name == "SUM" {
				return Add(rs...)
			}
			return Concat(rs...)
		}
		if t.op == OUnit {
			e := t.args[0]
			if name == "SUM" {
				return e
			}
			if c := Eq(e, I(7)); c.isBool() {
				if c == True {
					return SeqStr("\x07\x07")
				}
				return t
			}
		}
	case "UE":
		t := args[0]
		if t.op == OEmpty {
			return Empty
		}
	case "FC":
		if args[0].op == OEmpty {
			return I(0)
		}
	}
	return tt.mk(OUF, s, name, nil, nil, args...)
}

// ---------- bit operations on non-negative integers

func BitOp(name string, a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		r := new(big.Int)
		switch name {
		case "and":
			r.And(a.k, b.k)
		case "or":
			r.Or(a.k, b.k)
		case "xor":
			r.Xor(a.k, b.k)
		}
		return IB(r)
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.k.Sign() == 0 {
			if name == "and" {
				return I(0)
			}
			return a
		}
		if name == "and" {
			// mask of low bits
			m := new(big.Int).Add(b.k, bigOne)
			if m.BitLen() > 0 && new(big.Int).And(m, b.k).Sign() == 0 {
				return Mod(a, IB(m))
			}
		}
	}
	if name == "or" || name == "xor" {
		// disjoint bits: a multiple of 2^k, b < 2^k
		for n := 0; n < 2; n++ {
			if tz := trailingZeros(a); tz > 0 && b.iv.hi != nil && b.iv.lo != nil && b.iv.lo.Sign() >= 0 && b.iv.hi.BitLen() <= tz {
				return Add(a, b)
			}
			a, b = b, a
		}
		if name == "or" && a == b {
			return a
		}
		if name == "xor" && a == b {
			return I(0)
		}
	}
	if name == "and" && a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBits, SInt, name, nil, nil, a, b)
}

func trailingZeros(t *Term) int {
	switch t.op {
	case OInt:
		if t.k.Sign() == 0 {
			return 64
		}
		return int(t.k.TrailingZeroBits())
	case OLin:
		n := 64
		if t.k.Sign() != 0 {
			n = int(t.k.TrailingZeroBits())
		}
		for i, c := range t.co {
			m := int(new(big.Int).Abs(c).TrailingZeroBits()) + trailingZeros(t.args[i])
			if m < n {
				n = m
			}
		}
		return n
	case OMod:
		if t.args[1].isInt() {
			n := trailingZeros(t.args[0])
			if m := int(t.args[1].k.TrailingZeroBits()); m < n {
				n = m
			}
			return n
		}
	}
	return 0
}

// ---------- floats

func F32C(f float32) *Term {
	return tt.mk(OFConst, SF32, "", new(big.Int).SetUint64(uint64(math.Float32bits(f))), nil)
}
func F64C(f float64) *Term {
	return tt.mk(OFConst, SF64, "", new(big.Int).SetUint64(math.Float64bits(f)), nil)
}

func (t *Term) f64() float64 {
	if t.sort == SF32 {
		return float64(math.Float32frombits(uint32(t.k.Uint64())))
	}
	return math.Float64frombits(t.k.Uint64())
}

func FConst(s Sort, f float64) *Term {
	if s == SF32 {
		return F32C(float32(f))
	}
	return F64C(f)
}

// exactInt returns the integer a float term equals (never minus zero), if it is
// small enough to be represented exactly.
func exactInt(t *Term) *Term {
	var r *Term
	switch t.op {
	case OFFromI:
		r = t.args[0]
	case OFConst:
		f := t.f64()
		if math.IsNaN(f) || f != math.Trunc(f) || math.Abs(f) > 1<<50 || f == 0 && math.Signbit(f) {
			return nil
		}
		r = I(int64(f))
	default:
		return nil
	}
	if !fitsExactly(t.sort, r) {
		return nil
	}
	return r
}

func fitsExactly(s Sort, i *Term) bool {
	bits := uint(24)
	if s == SF64 {
		bits = 53
	}
	m := new(big.Int).Lsh(bigOne, bits)
	return i.iv.lo != nil && i.iv.hi != nil && new(big.Int).Neg(m).Cmp(i.iv.lo) <= 0 && i.iv.hi.Cmp(m) <= 0
}

// FArith: add sub mul div neg
func FArith(op string, a ...*Term) *Term {
	if len(a) == 2 {
		if p, q := exactInt(a[0]), exactInt(a[1]); p != nil && q != nil && !(p.isInt() && q.isInt()) {
			var r *Term
			switch op {
			case "add":
				r = Add(p, q)
			case "sub":
				r = Sub2(p, q)
			case "mul":
				// a product of zero and a negative number is minus zero
				if q.isInt() && q.k.Sign() > 0 || p.isInt() && p.k.Sign() > 0 {
					r = Mul(p, q)
				}
			}
			if r != nil && fitsExactly(a[0].sort, r) {
				return FFromI(a[0].sort, r)
			}
		}
	}
	all := true
	for _, x := range a {
		all = all && x.op == OFConst
	}
	if all {
		if a[0].sort == SF32 {
			x := float32(a[0].f64())
			if op == "neg" {
				return F32C(-x)
			}
			y := float32(a[1].f64())
			switch op {
			case "add":
				return F32C(x + y)
			case "sub":
				return F32C(x - y)
			case "mul":
				return F32C(x * y)
			case "div":
				return F32C(x / y)
			}
		} else {
			x := a[0].f64()
			if op == "neg" {
				return F64C(-x)
			}
			y := a[1].f64()
			switch op {
			case "add":
				return F64C(x + y)
			case "sub":
				return F64C(x - y)
			case "mul":
				return F64C(x * y)
			case "div":
				return F64C(x / y)
			}
		}
	}
	return tt.mk(OFOp, a[0].sort, op, nil, nil, a...)
}

// FCmp: lt leq eq
func FCmp(op string, a, b *Term) *Term {
	if a.op == OFConst && b.op == OFConst {
		x, y := a.f64(), b.f64()
		switch op {
		case "lt":
			return B(x < y)
		case "leq":
			return B(x <= y)
		case "eq":
			return B(x == y)
		}
	}
	if p, q := exactInt(a), exactInt(b); p != nil && q != nil {
		switch op {
		case "lt":
			return Lt(p, q)
		case "leq":
			return Le(p, q)
		case "eq":
			return Eq(p, q)
		}
	}
	return tt.mk(OFOp, SBool, op, nil, nil, a, b)
}

func FFromI(s Sort, a *Term) *Term {
	if a.isInt() && a.k.IsInt64() {
		if s == SF32 {
			return F32C(float32(a.k.Int64()))
		}
		return F64C(float64(a.k.Int64()))
	}
	return tt.mk(OFFromI, s, "", nil, nil, a)
}

func FToI(a *Term) *Term {
	if a.op == OFConst {
		f := a.f64()
		if !math.IsNaN(f) && math.Abs(f) < 1e18 {
			return I(int64(f))
		}
	}
	if r := exactInt(a); r != nil {
		return r
	}
	return tt.mk(OFToI, SInt, "", nil, nil, a)
}

func FFromF(s Sort, a *Term) *Term {
	if a.sort == s {
		return a
	}
	if a.op == OFConst {
		return FConst(s, a.f64())
	}
	if r := exactInt(a); r != nil && fitsExactly(s, r) {
		return FFromI(s, r)
	}
	return tt.mk(OFFromF, s, "", nil, nil, a)
}

// ---------- substitution and traversal

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OVar, OInt, OBool, OEmpty, OFConst:
		return t
	case OLin:
		l := lin{new(big.Int).Set(t.k), map[*Term]*big.Int{}}
		for i, a := range as {
			l.add(a, t.co[i])
		}
		return l.term()
	case OMul:
		return Mul(as[0], as[1])
	case ODiv:
		return Div(as[0], as[1])
	case OMod:
		return Mod(as[0], as[1])
	case OGe0:
		return Ge0(as[0])
	case OEq0:
		return Eq(as[0], I(0))
	case OEq:
		return Eq(as[0], as[1])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case ONot:
		return Not(as[0])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OLen:
		return Len(as[0])
	case ONth:
		return Nth(as[0], as[1])
	case OUnit:
		return Unit(as[0])
	case OConcat:
		return Concat(as...)
	case OSub:
		return Sub(as[0], as[1], as[2])
	case OZeros:
		return Zeros(as[0])
	case OUF:
		return UF(t.name, t.sort, as...)
	case OFOp:
		if t.sort == SBool {
			return FCmp(t.name, as[0], as[1])
		}
		return FArith(t.name, as...)
	case OFFromI:
		return FFromI(t.sort, as[0])
	case OFToI:
		return FToI(as[0])
	case OFFromF:
		return FFromF(t.sort, as[0])
	case OBits:
		return BitOp(t.name, as[0], as[1])
	}
	panic("rebuild")
}

// Subst replaces terms by terms, bottom up.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if r, ok := m[t]; ok {
			memo[t] = r
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as)
			if rr, ok := m[r]; ok {
				r = rr
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// Walk visits every distinct sub-term once.
func Walk(ts []*Term, seen map[*Term]bool, f func(*Term)) {
	for _, t := range ts {
		if seen[t] {
			continue
		}
		seen[t] = true
		Walk(t.args, seen, f)
		f(t)
	}
}

// ---------- printing (SMT-LIB)

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (t *Term) String() string { return t.smt(nil) }

func (t *Term) smt(names map[*Term]string) string { return t.print(names, false) }

// String of a sort when sequences are abstracted to an uninterpreted sort.
func (s Sort) abs(abs bool) string {
	if abs && s == SSeq {
		return "Sq"
	}
	return s.String()
}

// print renders a term. With abs, sequence operations are uninterpreted functions.
func (t *Term) print(names map[*Term]string, abs bool) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	}
	a := func(i int) string { return t.args[i].print(names, abs) }
	if abs {
		switch t.op {
		case OLen:
			return "(sq.len " + a(0) + ")"
		case ONth:
			return "(sq.nth " + a(0) + " " + a(1) + ")"
		case OUnit:
			return "(sq.unit " + a(0) + ")"
		case OEmpty:
			return "sq.empty"
		case OSub:
			return "(sq.sub " + a(0) + " " + a(1) + " " + a(2) + ")"
		case OZeros:
			return "(sq.zeros " + a(0) + ")"
		case OConcat:
			r := a(len(t.args) - 1)
			for i := len(t.args) - 2; i >= 0; i-- {
				r = "(sq.cat " + a(i) + " " + r + ")"
			}
			return r
		}
	}
	switch t.op {
	case OVar:
		return "|" + t.name + "|"
	case OInt:
		return smtInt(t.k)
	case OBool:
		return t.name
	case OLin:
		var sb strings.Builder
		sb.WriteString("(+")
		if t.k.Sign() != 0 || len(t.args) == 1 {
			sb.WriteString(" " + smtInt(t.k))
		}
		for i := range t.args {
			if t.co[i].Cmp(bigOne) == 0 {
				sb.WriteString(" " + a(i))
			} else {
				sb.WriteString(" (* " + smtInt(t.co[i]) + " " + a(i) + ")")
			}
		}
		sb.WriteString(")")
		return sb.String()
	case OMul:
		return "(* " + a(0) + " " + a(1) + ")"
	case ODiv:
		return "(div " + a(0) + " " + a(1) + ")"
	case OMod:
		return "(mod " + a(0) + " " + a(1) + ")"
	case OGe0:
		return "(>= " + a(0) + " 0)"
	case OEq0:
		return "(= " + a(0) + " 0)"
	case OEq:
		return "(= " + a(0) + " " + a(1) + ")"
	case OAnd, OOr:
		var sb strings.Builder
		sb.WriteString(map[Op]string{OAnd: "(and", OOr: "(or"}[t.op])
		for i := range t.args {
			sb.WriteString(" " + a(i))
		}
		sb.WriteString(")")
		return sb.String()
	case ONot:
		return "(not " + a(0) + ")"
	case OIte:
		return "(ite " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OLen:
		return "(seq.len " + a(0) + ")"
	case ONth:
		return "(seq.nth " + a(0) + " " + a(1) + ")"
	case OUnit:
		return "(seq.unit " + a(0) + ")"
	case OEmpty:
		return "(as seq.empty (Seq Int))"
	case OConcat:
		var sb strings.Builder
		sb.WriteString("(seq.++")
		for i := range t.args {
			sb.WriteString(" " + a(i))
		}
		sb.WriteString(")")
		return sb.String()
	case OSub:
		return "(seq.extract " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OZeros:
		return "(ZEROS " + a(0) + ")"
	case OUF:
		if len(t.args) == 0 {
			return "|" + t.name + "|"
		}
		var sb strings.Builder
		sb.WriteString("(|" + t.name + "|")
		for i := range t.args {
			sb.WriteString(" " + a(i))
		}
		sb.WriteString(")")
		return sb.String()
	case OFConst:
		if t.sort == SF32 {
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.k.Uint64())
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k.Uint64())
	case OFOp:
		switch t.name {
		case "add", "sub", "mul", "div":
			return "(fp." + t.name + " RNE " + a(0) + " " + a(1) + ")"
		case "neg":
			return "(fp.neg " + a(0) + ")"
		}
		return "(fp." + t.name + " " + a(0) + " " + a(1) + ")"
	case OFFromI:
		return "((_ to_fp " + fpw(t.sort) + ") RNE ((_ int2bv 64) " + a(0) + "))"
	case OFToI:
		return "(S2I ((_ fp.to_sbv 64) RTZ " + a(0) + "))"
	case OFFromF:
		return "((_ to_fp " + fpw(t.sort) + ") RNE " + a(0) + ")"
	case OBits:
		return "(bv2nat (bv" + t.name + " ((_ int2bv 64) " + a(0) + ") ((_ int2bv 64) " + a(1) + ")))"
	}
	return "?"
}

func fpw(s Sort) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}
