package main

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// State is one symbolic execution path.
type State struct {
	heap    map[int]Value
	written map[int]bool    // objects stored to since entry
	writes  map[string]bool // paths stored to
	pc      []*Term
	pcset   map[*Term]bool
	bounds  map[*Term]*interval
	ghost   map[string]Value
	locks   map[string]*lockInfo // held locks
	pending []*goroutine         // started, not yet run
	detach  map[int]string       // objects shared with an abandoned goroutine
	trace   []string             // human-readable decisions
	lockSeq int
	inGo    int          // depth of goroutine execution
	outer   []string     // locks held by waiting goroutines
	reread  bool         // guarded memory was read under several acquisitions
	moved   map[int]bool // memory an append moved away from
	stale   map[int]bool // memory that may have changed through such an alias
}

type lockInfo struct {
	write bool
	n     int // readers
	acq   int // acquisition number
	names string
}

type goroutine struct {
	fn   FuncV
	call *ssa.CallCommon
	args []Value
	recv Value
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) fork() *State {
	n := *s
	n.heap = copyMap(s.heap)
	n.written = copyMap(s.written)
	n.writes = copyMap(s.writes)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = copyMap(s.pcset)
	n.bounds = copyMap(s.bounds)
	n.ghost = copyMap(s.ghost)
	n.locks = map[string]*lockInfo{}
	for k, v := range s.locks {
		c := *v
		n.locks[k] = &c
	}
	n.pending = append([]*goroutine{}, s.pending...)
	n.detach = copyMap(s.detach)
	n.moved = copyMap(s.moved)
	n.stale = copyMap(s.stale)
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return &n
}

func newState() *State {
	return &State{
		heap: map[int]Value{}, written: map[int]bool{}, writes: map[string]bool{}, pcset: map[*Term]bool{},
		bounds: map[*Term]*interval{}, ghost: map[string]Value{}, locks: map[string]*lockInfo{},
		detach: map[int]string{}, moved: map[int]bool{}, stale: map[int]bool{},
	}
}

// iv is the interval of a term under the path condition.
func (s *State) iv(t *Term) *interval {
	if t.sort != SInt {
		return &interval{}
	}
	if b, ok := s.bounds[t]; ok {
		return b
	}
	switch t.op {
	case OLin:
		return ivMeet(linIv(t, s.iv), t.iv)
	case OIte:
		return ivMeet(ivJoin(s.iv(t.args[1]), s.iv(t.args[2])), t.iv)
	case ODiv:
		if t.args[1].isInt() && t.args[1].k.Sign() > 0 {
			a := s.iv(t.args[0])
			r := &interval{}
			if a.lo != nil {
				r.lo = new(big.Int).Div(a.lo, t.args[1].k)
			}
			if a.hi != nil {
				r.hi = new(big.Int).Div(a.hi, t.args[1].k)
			}
			return ivMeet(r, t.iv)
		}
		if a, d := s.iv(t.args[0]), s.iv(t.args[1]); a.lo != nil && a.lo.Sign() >= 0 && d.lo != nil && d.lo.Sign() > 0 {
			return ivMeet(&interval{bigZero, a.hi}, t.iv)
		}
	case OLen:
		return t.iv
	}
	return t.iv
}

// simp decides a condition from the path condition's intervals, if possible.
func (s *State) simp(c *Term) *Term {
	if c.isBool() {
		return c
	}
	if s.pcset[c] {
		return True
	}
	if s.pcset[Not(c)] {
		return False
	}
	switch c.op {
	case OGe0:
		iv := s.iv(c.args[0])
		if iv.lo != nil && iv.lo.Sign() >= 0 {
			return True
		}
		if iv.hi != nil && iv.hi.Sign() < 0 {
			return False
		}
	case OEq0:
		iv := s.iv(c.args[0])
		if iv.lo != nil && iv.lo.Sign() > 0 || iv.hi != nil && iv.hi.Sign() < 0 {
			return False
		}
		if iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
			return True
		}
	case ONot:
		return Not(s.simp(c.args[0]))
	case OAnd:
		ns := make([]*Term, len(c.args))
		for i, a := range c.args {
			ns[i] = s.simp(a)
		}
		return And(ns...)
	case OOr:
		ns := make([]*Term, len(c.args))
		for i, a := range c.args {
			ns[i] = s.simp(a)
		}
		return Or(ns...)
	}
	return c
}

// assume adds a condition to the path; false if it is obviously contradictory.
func (s *State) assume(c *Term) bool {
	c = s.simp(c)
	if c == True {
		return true
	}
	if c == False {
		s.pc = append(s.pc, False)
		return false
	}
	if c.op == OAnd {
		for _, a := range c.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if s.pcset[c] {
		return true
	}
	s.pc = append(s.pc, c)
	s.pcset[c] = true
	s.refine(c)
	return true
}

func (s *State) refine(c *Term) {
	switch c.op {
	case OGe0:
		s.refineGe(c.args[0])
	case OEq0:
		s.refineGe(c.args[0])
		s.refineGe(Neg(c.args[0]))
	case ONot:
		if e := c.args[0]; e.op == OEq0 {
			// strict at an interval end
			t := e.args[0]
			iv := s.iv(t)
			if iv.lo != nil && iv.lo.Sign() == 0 {
				s.refineGe(Add(t, I(-1)))
			}
			if iv.hi != nil && iv.hi.Sign() == 0 {
				s.refineGe(Add(Neg(t), I(-1)))
			}
			// x != k at the end of x's own interval
			if t.op == OLin && len(t.args) == 1 && new(big.Int).Abs(t.co[0]).Cmp(bigOne) == 0 {
				v := t.args[0]
				k := new(big.Int).Neg(t.k)
				k.Mul(k, t.co[0])
				iv := s.iv(v)
				if iv.lo != nil && iv.lo.Cmp(k) == 0 {
					s.setBound(v, &interval{lo: new(big.Int).Add(k, bigOne)})
				}
				if iv.hi != nil && iv.hi.Cmp(k) == 0 {
					s.setBound(v, &interval{hi: new(big.Int).Sub(k, bigOne)})
				}
			}
		}
	}
}

func (s *State) setBound(t *Term, iv *interval) {
	if t.isInt() {
		return
	}
	s.bounds[t] = ivMeet(s.iv(t), iv)
}

// refineGe uses lin >= 0 to tighten every atom.
func (s *State) refineGe(l *Term) {
	if l.op != OLin {
		s.setBound(l, &interval{lo: bigZero})
		return
	}
	s.setBound(l, &interval{lo: bigZero})
	for i, a := range l.args {
		// co*a >= -(rest)
		rest := lin{new(big.Int).Set(l.k), map[*Term]*big.Int{}}
		for j, b := range l.args {
			if j != i {
				rest.addAtom(b, l.co[j])
			}
		}
		r := rest.term()
		var riv *interval
		if r.op == OLin {
			riv = linIv(r, s.iv)
		} else {
			riv = s.iv(r)
		}
		if riv.hi == nil {
			continue
		}
		m := new(big.Int).Neg(riv.hi) // co*a >= m
		c := l.co[i]
		q, rem := new(big.Int).QuoRem(m, c, new(big.Int))
		if c.Sign() > 0 {
			// a >= ceil(m/c)
			if rem.Sign() != 0 && m.Sign() > 0 {
				q.Add(q, bigOne)
			}
			s.setBound(a, &interval{lo: q})
		} else {
			// a <= floor(m/c)
			if rem.Sign() != 0 && (m.Sign() < 0) == (c.Sign() < 0) {
				// positive quotient: truncation is floor
			} else if rem.Sign() != 0 {
				q.Sub(q, bigOne)
			}
			s.setBound(a, &interval{hi: q})
		}
	}
}

// nth is element i of t, using what the path knows about i.
func (s *State) nth(t, i *Term) *Term {
	if t.op == OSub {
		return s.nth(t.args[0], Add(t.args[1], i))
	}
	if t.op != OConcat {
		return Nth(t, i)
	}
	ps := pieces(t)
	pos := I(0)
	lo := 0
	for lo < len(ps) {
		d := Sub2(i, pos)
		l := Len(ps[lo])
		if s.simp(Lt(d, l)) == True {
			return s.nth(ps[lo], d)
		}
		if s.simp(Ge0(Sub2(d, l))) == True {
			pos = Add(pos, l)
			lo++
			continue
		}
		break
	}
	if lo >= len(ps) {
		return Nth(t, i)
	}
	return Nth(Concat(ps[lo:]...), Sub2(i, pos))
}

// sub is the sub-sequence of t, using what the path knows about its bounds.
func (s *State) sub(t, off, n *Term) *Term {
	return subD(t, off, n, s.simp)
}
