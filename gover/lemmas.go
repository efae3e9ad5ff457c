package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
)

// The facts that smt.go adds to queries (lemmaFacts, the distribution of SUM and
// ESC over concatenation in UF) are lemmas about the specification functions.
// Every run proves them by induction: one query for the base case and one for the
// step, over sequences, with only the defining equations at the terms named.
type provedLemma struct {
	name, stmt string
	cases      []lemmaCase
}

type lemmaCase struct {
	name   string
	decl   string
	facts  []string
	goal   string
	result string
	by     string
}

func sLen(t string) string    { return "(seq.len " + t + ")" }
func sNth(t, i string) string { return "(seq.nth " + t + " " + i + ")" }
func sTail(t, i string) string {
	return "(seq.extract " + t + " " + i + " (- " + sLen(t) + " " + i + "))"
}

// sDef is the defining equation of a specification function, as in unfoldDef.
func sDef(fn, t string, n string) string {
	L, h := sLen(t), sNth(t, "0")
	r1, r2 := sTail(t, "1"), sTail(t, "2")
	ite := func(c, a, b string) string { return "(ite " + c + " " + a + " " + b + ")" }
	empty := "(= " + L + " 0)"
	isCmd := func(e string) string { return "(or (= " + e + " 243) (= " + e + " 240) (= " + e + " 15))" }
	two := "(>= " + L + " 2)"
	switch fn {
	case "SUM":
		return "(= (SUM " + t + ") " + ite(empty, "0", "(+ "+h+" (SUM "+r1+"))") + ")"
	case "ESC":
		return "(= (ESC " + t + ") " + ite(empty, eps, "(seq.++ "+ite("(= "+h+" 7)", "(seq.++ (seq.unit 7) (seq.unit 7))", "(seq.unit "+h+")")+" (ESC "+r1+"))") + ")"
	case "UE":
		return "(= (UE " + t + ") " + ite(empty, eps, ite("(= "+h+" 7)",
			ite("(and "+two+" (= "+sNth(t, "1")+" 7))", "(seq.++ (seq.unit 7) (UE "+r2+"))", "(UE "+r1+")"),
			"(seq.++ (seq.unit "+h+") (UE "+r1+"))")) + ")"
	case "FC":
		return "(= (FC " + t + ") " + ite(empty, "0", ite("(and "+two+" (= "+h+" 7) "+isCmd(sNth(t, "1"))+")", "0", "(+ 1 (FC "+r1+"))")) + ")"
	case "SZ":
		return "(= (SZ " + t + " " + n + ") " + ite("(<= "+n+" 0)", "0", ite(empty, n,
			ite("(and "+two+" (= "+h+" 7) (= "+sNth(t, "1")+" 7))", "(+ 2 (SZ "+r2+" (- "+n+" 1)))", "(+ 1 (SZ "+r1+" (- "+n+" 1)))"))) + ")"
	}
	panic(fn)
}

const eps = "(as seq.empty (Seq Int))"

const lemmaHeader = `(set-logic ALL)
(declare-fun SUM ((Seq Int)) Int)
(declare-fun ESC ((Seq Int)) (Seq Int))
(declare-fun UE ((Seq Int)) (Seq Int))
(declare-fun FC ((Seq Int)) Int)
(declare-fun SZ ((Seq Int) Int) Int)
(declare-const h Int)
(declare-const h2 Int)
(declare-const n Int)
(declare-const r (Seq Int))
(declare-const s (Seq Int))
(declare-const u (Seq Int))
(assert (and (<= 0 h) (<= h 255) (<= 0 h2) (<= h2 255)))
`

func builtinLemmas() []*provedLemma {
	hr := "(seq.++ (seq.unit h) r)"
	// every non-empty sequence is h ++ r; induction is on its length
	tails := []string{
		"(= " + sLen(hr) + " (+ 1 (seq.len r)))", "(= " + sNth(hr, "0") + " h)", "(= " + sTail(hr, "1") + " r)",
	}
	step := func(fs ...string) []string { return append(append([]string{}, tails...), fs...) }
	cases := func(base []string, baseGoal string, stepF []string, goal string) []lemmaCase {
		return []lemmaCase{{name: "empty", facts: base, goal: baseGoal}, {name: "step", facts: step(stepF...), goal: goal}}
	}
	var ls []*provedLemma
	add := func(name, stmt string, cs []lemmaCase) { ls = append(ls, &provedLemma{name, stmt, cs}) }

	sumB := func(t string) string {
		return "(and (<= 0 (SUM " + t + ")) (<= (SUM " + t + ") (* 255 (seq.len " + t + "))))"
	}
	add("sum_bounds", "0 <= SUM(t) <= 255*len(t)", cases([]string{sDef("SUM", eps, "")}, sumB(eps), []string{sDef("SUM", hr, ""), sumB("r")}, sumB(hr)))
	escB := func(t string) string {
		return "(and (<= (seq.len " + t + ") (seq.len (ESC " + t + "))) (<= (seq.len (ESC " + t + ")) (* 2 (seq.len " + t + "))))"
	}
	add("esc_len", "len(t) <= len(ESC(t)) <= 2*len(t)", cases([]string{sDef("ESC", eps, "")}, escB(eps), []string{sDef("ESC", hr, ""), escB("r")}, escB(hr)))
	ue := func(t string) string { return "(<= (seq.len (UE " + t + ")) (seq.len " + t + "))" }
	// strong induction: the tail after two elements is covered as well
	hr2 := "(seq.++ (seq.unit h) (seq.unit h2) r)"
	hr1 := "(seq.unit h)"
	add("ue_len", "len(UE(t)) <= len(t)", []lemmaCase{
		{name: "empty", facts: []string{sDef("UE", eps, "")}, goal: ue(eps)},
		{name: "one", facts: []string{sDef("UE", hr1, ""), sDef("UE", eps, ""), "(= " + sTail(hr1, "1") + " " + eps + ")"}, goal: ue(hr1)},
		{name: "step", facts: []string{sDef("UE", hr2, ""), "(= " + sTail(hr2, "1") + " (seq.++ (seq.unit h2) r))", "(= " + sTail(hr2, "2") + " r)", ue("r"), ue("(seq.++ (seq.unit h2) r)")}, goal: ue(hr2)},
	})
	fc := func(t string) string { return "(and (<= 0 (FC " + t + ")) (<= (FC " + t + ") (seq.len " + t + ")))" }
	add("fc_bounds", "0 <= FC(t) <= len(t)", cases([]string{sDef("FC", eps, "")}, fc(eps), []string{sDef("FC", hr, ""), fc("r")}, fc(hr)))
	sz := func(t, n string) string {
		return "(and (<= 0 (SZ " + t + " " + n + ")) (<= " + n + " (SZ " + t + " " + n + ")))"
	}
	n1 := "(- n 1)"
	add("sz_bounds", "0 <= SZ(t, n) and n <= SZ(t, n)", []lemmaCase{
		{name: "empty", facts: []string{sDef("SZ", eps, "n")}, goal: sz(eps, "n")},
		{name: "one", facts: []string{sDef("SZ", hr1, "n"), sDef("SZ", eps, n1), "(= " + sTail(hr1, "1") + " " + eps + ")"}, goal: sz(hr1, "n")},
		{name: "step", facts: []string{sDef("SZ", hr2, "n"), "(= " + sTail(hr2, "1") + " (seq.++ (seq.unit h2) r))", "(= " + sTail(hr2, "2") + " r)", sz("r", n1), sz("(seq.++ (seq.unit h2) r)", n1)}, goal: sz(hr2, "n")},
	})
	// the escaped form of h ++ r
	escHR := "(= (ESC " + hr + ") (seq.++ (ite (= h 7) (seq.++ (seq.unit 7) (seq.unit 7)) (seq.unit h)) (ESC r)))"
	add("esc_step", "ESC(h ++ r) is the escaped h followed by ESC(r)", []lemmaCase{{name: "all", facts: step(sDef("ESC", hr, "")), goal: escHR}})
	seven := "(seq.++ (seq.unit 7) (seq.unit 7) (ESC r))"
	one := "(seq.++ (seq.unit h) (ESC r))"
	add("ue_esc", "UE(ESC(t)) == t", []lemmaCase{
		{name: "empty", facts: []string{sDef("ESC", eps, ""), sDef("UE", eps, ""), "(= (ESC " + eps + ") " + eps + ")"}, goal: "(= (UE (ESC " + eps + ")) " + eps + ")"},
		{name: "step, escaped byte", facts: []string{"(= h 7)", "(= (ESC " + hr + ") " + seven + ")", sDef("UE", seven, ""), "(= " + sTail(seven, "2") + " (ESC r))", "(= " + sNth(seven, "0") + " 7)", "(= " + sNth(seven, "1") + " 7)", "(= (UE (ESC r)) r)"}, goal: "(= (UE (ESC " + hr + ")) " + hr + ")"},
		{name: "step, other byte", facts: []string{"(not (= h 7))", "(= (ESC " + hr + ") " + one + ")", sDef("UE", one, ""), "(= " + sTail(one, "1") + " (ESC r))", "(= " + sNth(one, "0") + " h)", "(= (UE (ESC r)) r)"}, goal: "(= (UE (ESC " + hr + ")) " + hr + ")"},
	})
	cat := func(f, op, a, b string) string {
		return "(= (" + f + " (seq.++ " + a + " " + b + ")) (" + op + " (" + f + " " + a + ") (" + f + " " + b + ")))"
	}
	hrs := "(seq.++ (seq.unit h) r s)"
	catF := func(f string) []string {
		return step("(= (seq.++ "+hr+" s) "+hrs+")", "(= "+sTail(hrs, "1")+" (seq.++ r s))", "(= "+sNth(hrs, "0")+" h)", sDef(f, hrs, ""), sDef(f, hr, ""))
	}
	add("sum_cat", "SUM(a ++ b) == SUM(a) + SUM(b)", cases([]string{sDef("SUM", eps, ""), "(= (seq.++ " + eps + " s) s)"}, cat("SUM", "+", eps, "s"), append(catF("SUM"), cat("SUM", "+", "r", "s")), cat("SUM", "+", hr, "s")))
	add("esc_cat", "ESC(a ++ b) == ESC(a) ++ ESC(b)", cases([]string{sDef("ESC", eps, ""), "(= (seq.++ " + eps + " s) s)"}, cat("ESC", "seq.++", eps, "s"), append(catF("ESC"), cat("ESC", "seq.++", "r", "s")), cat("ESC", "seq.++", hr, "s")))
	// SZ(ESC(d) ++ s, len(d)) == len(ESC(d)), by induction on d
	szE := func(t, n, d string) string { return "(= (SZ " + t + " " + n + ") (seq.len (ESC " + d + ")))" }
	sevenS := "(seq.++ (seq.unit 7) (seq.unit 7) (ESC r) s)"
	oneS := "(seq.++ (seq.unit h) (ESC r) s)"
	rs := "(seq.++ (ESC r) s)"
	add("sz_esc", "if ESC(d) is a prefix of t then SZ(t, len(d)) == len(ESC(d))", []lemmaCase{
		{name: "empty", facts: []string{sDef("ESC", eps, ""), sDef("SZ", "s", "0")}, goal: szE("s", "0", eps)},
		{name: "step, escaped byte", facts: []string{"(= h 7)", "(= n (+ 1 (seq.len r)))", "(= (ESC " + hr + ") " + seven + ")", sDef("SZ", sevenS, "n"), "(= " + sTail(sevenS, "2") + " " + rs + ")", "(= " + sNth(sevenS, "0") + " 7)", "(= " + sNth(sevenS, "1") + " 7)", szE(rs, n1, "r")}, goal: szE(sevenS, "n", hr)},
		{name: "step, other byte", facts: []string{"(not (= h 7))", "(= n (+ 1 (seq.len r)))", "(= (ESC " + hr + ") " + one + ")", sDef("SZ", oneS, "n"), "(= " + sTail(oneS, "1") + " " + rs + ")", "(= " + sNth(oneS, "0") + " h)", szE(rs, n1, "r")}, goal: szE(oneS, "n", hr)},
	})
	// a proper prefix t of ESC(d): ESC(d) == t ++ s, s not empty
	szP := func(t, n string) string { return "(<= (seq.len " + t + ") (SZ " + t + " " + n + "))" }
	hu := "(seq.++ (seq.unit h) u)"
	su := "(seq.++ (seq.unit 7) (seq.unit 7) u)"
	add("sz_prefix", "if t is a proper prefix of ESC(d) then len(t) <= SZ(t, len(d))", []lemmaCase{
		{name: "nothing read", facts: []string{sDef("SZ", eps, "n"), "(<= 0 n)"}, goal: szP(eps, "n")},
		{name: "empty has no proper prefix", facts: []string{sDef("ESC", eps, ""), "(= (ESC " + eps + ") (seq.++ u s))"}, goal: "(= (seq.len s) 0)"},
		{name: "step, other byte: first element", facts: []string{"(not (= h 7))", "(= (seq.++ (seq.unit h) (ESC r)) (seq.++ (seq.unit h2) u s))"}, goal: "(and (= h h2) (= (ESC r) (seq.++ u s)))"},
		{name: "step, other byte", facts: []string{"(not (= h 7))", "(= n (+ 1 (seq.len r)))", sDef("SZ", hu, "n"), "(= " + sTail(hu, "1") + " u)", "(= " + sNth(hu, "0") + " h)", szP("u", n1)}, goal: szP(hu, "n")},
		{name: "step, half of an escaped byte", facts: []string{"(= n (+ 1 (seq.len r)))", sDef("SZ", "(seq.unit 7)", "n"), sDef("SZ", eps, n1), "(= " + sTail("(seq.unit 7)", "1") + " " + eps + ")"}, goal: szP("(seq.unit 7)", "n")},
		{name: "step, escaped byte: first elements", facts: []string{"(= (seq.++ (seq.unit 7) (seq.unit 7) (ESC r)) (seq.++ (seq.unit h) (seq.unit h2) u s))"}, goal: "(and (= h 7) (= h2 7) (= (ESC r) (seq.++ u s)))"},
		{name: "step, escaped byte", facts: []string{"(= n (+ 1 (seq.len r)))", sDef("SZ", su, "n"), "(= " + sTail(su, "2") + " u)", "(= " + sNth(su, "0") + " 7)", "(= " + sNth(su, "1") + " 7)", szP("u", n1)}, goal: szP(su, "n")},
	})
	return ls
}

// proveLemmas proves the built-in lemmas; it returns the number of queries and the failures.
func proveLemmas() (n int, failed []string, by map[string]int) {
	by = map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, l := range builtinLemmas() {
		for i := range l.cases {
			c := &l.cases[i]
			n++
			wg.Add(1)
			go func(l *provedLemma, c *lemmaCase) {
				defer wg.Done()
				slots <- struct{}{}
				defer func() { <-slots }()
				var sb strings.Builder
				for _, f := range c.facts {
					sb.WriteString("(assert " + f + ")\n")
				}
				sc := strings.TrimPrefix(lemmaHeader, "(set-logic ALL)\n") + sb.String() + "(assert (not " + c.goal + "))\n"
				for _, s := range []string{"z3-new", "cvc5", "z3"} {
					if r := oneShot(context.Background(), s, sc, 20); r == "unsat" {
						mu.Lock()
						by[s]++
						mu.Unlock()
						return
					}
				}
				mu.Lock()
				failed = append(failed, fmt.Sprintf("lemma %s (%s): case %s", l.name, l.stmt, c.name))
				mu.Unlock()
			}(l, c)
		}
	}
	wg.Wait()
	return
}

// runLemma proves a lemma stated in the contracts.
func (v *Verifier) runLemma(l *Lemma) *Obligation {
	o := &Obligation{kind: "lemma", label: l.label, desc: l.text, fn: "contracts", props: l.props}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.res, o.by = Unknown, fmt.Sprint(r)
			}
		}()
		x := newExec(v.prog)
		x.ver = v
		st := newState()
		e := &specEnv{x: x, ver: v, names: map[string]SV{}, st: st, pre: st}
		for i, p := range l.params {
			e.names[p] = SV{v: v.logical(p, l.sorts[i])}
		}
		o.res, o.by = Valid, "simplifier"
		for _, g := range x.goals(e, l.e) {
			s2 := st.fork()
			dead := false
			for _, a := range g.assume {
				dead = dead || !s2.assume(a)
			}
			if dead {
				continue
			}
			t := s2.simp(g.goal)
			if t == True {
				continue
			}
			r, by := prove(s2.pc, t, v.slow)
			if r != Valid {
				o.res, o.by = r, by
				return
			}
			o.by = by
		}
	}()
	return o
}
