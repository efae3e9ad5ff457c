package main

import (
	"math/big"
)

// flatten splits conjunctions.
func flatten(as []*Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if t == True || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OAnd {
			for _, a := range t.args {
				f(a)
			}
			return
		}
		r = append(r, t)
	}
	for _, a := range as {
		f(a)
	}
	return r
}

func occurs(v, t *Term) bool {
	found := false
	Walk([]*Term{t}, map[*Term]bool{}, func(x *Term) {
		if x == v {
			found = true
		}
	})
	return found
}

// solved finds a variable an assumption determines.
func solved(a *Term) (v, def *Term) {
	switch a.op {
	case OVar:
		if a.sort == SBool {
			return a, True
		}
	case ONot:
		if x := a.args[0]; x.op == OVar {
			return x, False
		}
	case OEq0:
		t := a.args[0]
		if t.op == OVar {
			return t, I(0)
		}
		if t.op != OLin {
			return nil, nil
		}
		// the youngest variable with a unit coefficient
		for i, x := range t.args {
			if x.op != OVar || new(big.Int).Abs(t.co[i]).Cmp(bigOne) != 0 {
				continue
			}
			if v != nil && x.id < v.id {
				continue
			}
			d := Sub2(t, Scale(x, t.co[i]))
			if t.co[i].Sign() > 0 {
				d = Neg(d)
			}
			if occurs(x, d) {
				continue
			}
			v, def = x, d
		}
	case OEq:
		x, y := a.args[0], a.args[1]
		if x.op != OVar || y.op == OVar && y.id > x.id {
			x, y = y, x
		}
		if x.op == OVar && (x.sort == SSeq || x.sort == SBool) && !occurs(x, y) {
			return x, y
		}
	}
	return
}

// squeeze turns two inequalities that leave one value into an equation.
func squeeze(as []*Term) {
	ge := map[*Term]bool{}
	for _, a := range as {
		if a.op == OGe0 {
			ge[a.args[0]] = true
		}
	}
	for i, a := range as {
		if a.op != OGe0 {
			continue
		}
		t := a.args[0]
		n := Neg(t)
		iv := n.iv
		if ge[n] || iv != nil && iv.lo != nil && iv.lo.Sign() == 0 {
			as[i] = Eq(t, I(0))
			continue
		}
		// k - v >= 0 and v >= k
		if t.op == OLin && len(t.args) == 1 && new(big.Int).Abs(t.co[0]).Cmp(bigOne) == 0 {
			v := t.args[0]
			if v.iv == nil {
				continue
			}
			k := new(big.Int).Neg(new(big.Int).Mul(t.k, t.co[0]))
			if t.co[0].Sign() < 0 && v.iv.lo != nil && v.iv.lo.Cmp(k) == 0 || t.co[0].Sign() > 0 && v.iv.hi != nil && v.iv.hi.Cmp(k) == 0 {
				as[i] = Eq(t, I(0))
			}
		}
	}
}

// solveEqs eliminates variables that the assumptions determine. The result is
// equisatisfiable: the eliminated variables' ranges are kept as assumptions.
func solveEqs(as []*Term, goal *Term) ([]*Term, *Term) {
	as = flatten(as)
	done := map[*Term]bool{}
	for round := 0; round < 60; round++ {
		m := map[*Term]*Term{}
		squeeze(as)
		var extra []*Term
		for i, a := range as {
			v, d := solved(a)
			if v == nil || done[v] || m[v] != nil {
				continue
			}
			// one at a time unless independent
			ok := true
			for w, e := range m {
				if occurs(w, d) || occurs(v, e) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			m[v] = d
			done[v] = true
			as[i] = True
			if v.sort == SInt {
				if v.iv.lo != nil {
					extra = append(extra, Ge0(Sub2(d, IB(v.iv.lo))))
				}
				if v.iv.hi != nil {
					extra = append(extra, Ge0(Sub2(IB(v.iv.hi), d)))
				}
			}
		}
		if len(m) == 0 {
			break
		}
		for i := range as {
			as[i] = Subst(as[i], m)
		}
		for i := range extra {
			extra[i] = Subst(extra[i], m)
		}
		goal = Subst(goal, m)
		as = flatten(append(as, extra...))
		for _, a := range as {
			if a == False {
				return []*Term{False}, goal
			}
		}
	}
	return as, goal
}
