package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// hardStop is when symbolic execution gives up.
var hardStop time.Time

func pastStop() bool { return !hardStop.IsZero() && time.Now().After(hardStop) }

// commonAssumptions hold for every check.
var commonAssumptions = []string{
	"the verification-condition generator (gover), go/packages and go/ssa translate the source faithfully; z3 and cvc5 answer unsat only for unsatisfiable queries",
	"the models of standard-library and dependency functions listed in trusted_base state what those functions do",
	"pointer and interface arguments of the functions under contract are not nil; memory is not exhausted; int has 64 bits",
	"no other goroutine changes memory that the code does not guard with a lock (accesses to lock-guarded fields are checked, C21)",
}

type failure struct {
	Target     string   `json:"target"`
	Kind       string   `json:"kind"`
	Obligation string   `json:"obligation"`
	Text       string   `json:"text"`
	Where      string   `json:"where,omitempty"`
	Result     string   `json:"result"`
	By         string   `json:"by"`
	Path       []string `json:"path,omitempty"`
}

func has(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

// wanted: the target contributes to the property.
func (v *Verifier) wanted(c *Contract, b *Behaviour, prop string) bool {
	var cs [][]Clause
	if b == nil {
		// panics and endless loops anywhere in the library, waits anywhere in it, locks anywhere in the server
		lib := strings.HasPrefix(c.key, "libcomfo.")
		srv := strings.HasPrefix(c.key, "comfoserver.")
		if lib && (prop == "C14" || prop == "C08") || srv && prop == "C21" {
			return true
		}
	}
	if b != nil {
		cs = [][]Clause{b.ensures}
	} else {
		cs = [][]Clause{c.requires, c.ensures, c.each}
		if has(c.props, prop) {
			return true
		}
	}
	for _, l := range cs {
		for _, cl := range l {
			if has(cl.props, prop) {
				return true
			}
		}
	}
	return false
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	dir := fs.String("dir", "/repo", "")
	root := fs.String("root", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	noReplay := fs.Bool("noreplay", false, "")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	t0 := time.Now()
	budget := 560 * time.Second
	slow := 5
	slowLeft = int64(100 * time.Second)
	if *tier == "thorough" {
		slowLeft = int64(3000 * time.Second)
		budget = 3000 * time.Second
		slow = 60
	}
	hardStop = t0.Add(budget)
	p, err := loadProgram(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	v := &Verifier{prog: p, spec: loadSpec(filepath.Join(*root, "contracts")), results: map[string]*TargetResult{}, slow: slow, noApply: map[string]bool{},
		deadline: t0.Add(budget * 3 / 4), verbose: os.Getenv("GOVER_VERBOSE") != ""}
	v.resolve()

	var fails []failure
	obligations, discharged := 0, 0
	nLemma, bad, lby := proveLemmas()
	obligations += nLemma
	discharged += nLemma - len(bad)
	for _, b := range bad {
		fails = append(fails, failure{Target: "lemmas", Kind: "lemma", Obligation: b, Result: "unknown"})
	}
	for k, n := range lby {
		stats.Lock()
		stats.tiers["lemma:"+k] += n
		stats.Unlock()
	}
	for _, l := range v.spec.lemmas {
		if !has(l.props, *prop) {
			continue
		}
		o := v.runLemma(l)
		obligations++
		if o.res == Valid {
			discharged++
		} else {
			fails = append(fails, failure{Target: "lemmas", Kind: "lemma", Obligation: o.label, Text: o.desc, Result: o.res.String(), By: o.by})
		}
	}
	ran := map[string]*TargetResult{}
	own := 0
	collect := func(r *TargetResult) {
		for _, o := range r.failures() {
			if has(o.props, *prop) {
				fails = append(fails, failure{r.name, o.kind, o.label, o.desc, o.pos, o.res.String(), o.by, o.trace})
			}
		}
		for _, o := range r.obls {
			if has(o.props, *prop) {
				own++
			}
		}
		own += r.trivial
		ran[r.name] = r
	}
	known := knownFindings(filepath.Join(*root, "known_findings.txt"), *prop)
	// one target with a failed obligation is enough for an alarm
	enough := func() bool { return len(fails) > 0 && len(known) == 0 }
	for _, c := range v.spec.contracts {
		if v.wanted(c, nil, *prop) && !enough() {
			collect(v.run(c, nil))
		}
		for _, b := range c.behaviours {
			if v.wanted(c, b, *prop) && !enough() {
				collect(v.run(c, b))
			}
		}
	}
	if *prop == "C21" {
		if cyc := lockCycle(ran); cyc != "" {
			fails = append(fails, failure{Target: "lock order", Kind: "lock", Obligation: "locks are acquired in one order", Text: cyc, Result: "invalid"})
		}
		obligations++
		if len(fails) == 0 {
			discharged++
		}
	}
	// evidence
	var funcs, inl, trusted, support []string
	paths, trivial := 0, 0
	set := func(dst *[]string, src []string) {
		for _, s := range src {
			if !has(*dst, s) {
				*dst = append(*dst, s)
			}
		}
		sort.Strings(*dst)
	}
	byBackend := map[string]int{}
	kinds := map[string]int{}
	var vac []string
	perTarget := map[string]string{}
	for name, r := range v.results {
		n, ok := 0, 0
		for _, o := range r.obls {
			n++
			if o.res == Valid {
				ok++
				byBackend[o.by]++
			}
			kinds[o.kind]++
		}
		obligations += n + r.trivial
		discharged += ok + r.trivial
		byBackend["simplifier"] += r.trivial
		paths += r.paths
		trivial += r.trivial
		if ran[name] != nil {
			funcs = append(funcs, name)
		} else {
			support = append(support, name)
		}
		set(&inl, r.inlined)
		set(&trusted, r.trusted)
		for _, x := range r.vacuous {
			vac = append(vac, name+": "+x)
		}
		perTarget[name] = fmt.Sprintf("%d paths, %d obligations, %d more by simplification, %.1f s", r.paths, n, r.trivial, r.elapsed.Seconds())
	}
	sort.Strings(funcs)
	sort.Strings(support)
	sort.Strings(vac)
	if len(funcs) == 0 && len(v.spec.lemmas) == 0 || own == 0 && *prop != "C01" {
		fails = append(fails, failure{Target: "contracts", Kind: "vacuity", Obligation: "the property has obligations", Result: "invalid"})
	}
	cov := map[string]interface{}{
		"obligations": obligations, "discharged": discharged,
		"checker_cmd":              fmt.Sprintf("cd /verif && ./check.sh %s %s", *prop, *tier),
		"trusted_base":             append([]string{"gover (VC generator)", "go/ssa", "z3 4.8.12", "z3-new", "cvc5 1.1.2"}, trusted...),
		"functions_under_contract": funcs, "contracts_of_callees": support, "executed_in_place": inl,
		"obligations_of_this_property": own, "paths": paths, "by_backend": byBackend, "by_kind": kinds,
		"induction_lemma_queries": nLemma, "solver_seconds": float64(stats.nanos) / 1e9, "solver_queries": atomic.LoadInt64(&queryN),
		"per_target": perTarget, "stages": stats.tiers, "clauses_never_relevant": vac,
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": commonAssumptions, "violations": len(fails), "wall_s": time.Since(t0).Seconds(),
	}
	write := func() {
		ev["wall_s"] = time.Since(t0).Seconds()
		os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	}
	if len(fails) == 0 {
		write()
		fmt.Printf("%s: %d obligations discharged (%d of this property) for %d functions and behaviours in %.1f s\n", *prop, discharged, own, len(v.results), time.Since(t0).Seconds())
		return
	}
	// failures listed as known findings do not count
	var left []failure
	for _, f := range fails {
		hit := ""
		for _, k := range known {
			if strings.Contains(f.Target+" "+f.Kind+" ["+f.Obligation+"] "+f.Where, k.site) {
				hit = k.what
			}
		}
		if hit != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, hit)
		} else {
			left = append(left, f)
		}
	}
	fails = left
	ev["violations"] = len(fails)
	if len(fails) == 0 {
		write()
		return
	}
	// a failed obligation: look for an input that shows it on the real code
	for _, f := range fails {
		fmt.Printf("failed: %s %s [%s] %s %s (%s)\n", f.Target, f.Kind, f.Obligation, f.Where, f.Text, f.Result)
	}
	os.MkdirAll(filepath.Join(*root, "evidence", "replay"), 0o755)
	rp := filepath.Join(*root, "evidence", "replay", *prop+".json")
	rep := map[string]interface{}{"property": *prop, "failed_obligations": fails}
	found := false
	if !*noReplay {
		cmd := exec.Command(filepath.Join(*root, "replay", "run.sh"), *prop, *dir)
		cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+*tier)
		out, rerr := cmd.CombinedOutput()
		s := string(out)
		if len(s) > 20000 {
			s = s[:20000]
		}
		rep["replay_command"] = fmt.Sprintf("/verif/replay/run.sh %s %s", *prop, *dir)
		rep["replay_output"] = s
		if e, ok := rerr.(*exec.ExitError); ok && e.ExitCode() == 1 && strings.Contains(s, "REPRODUCED property="+*prop+" ") {
			found = true
			for _, l := range strings.Split(s, "\n") {
				if strings.Contains(l, "REPRODUCED") {
					fmt.Println(strings.TrimSpace(l))
					break
				}
			}
		}
	}
	rep["failing_input_found"] = found
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	write()
	if found {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
	}
	os.Exit(1)
}

// lockCycle looks for a cycle in the order in which locks are acquired.
func lockCycle(rs map[string]*TargetResult) string {
	next := map[string][]string{}
	for _, r := range rs {
		for _, e := range r.edges {
			if i := strings.Index(e, " < "); i > 0 {
				next[e[:i]] = append(next[e[:i]], e[i+3:])
			}
		}
	}
	var cyc string
	state := map[string]int{}
	var visit func(n string, path []string)
	visit = func(n string, path []string) {
		if cyc != "" || state[n] == 2 {
			return
		}
		if state[n] == 1 {
			cyc = strings.Join(append(path, n), " -> ")
			return
		}
		state[n] = 1
		for _, m := range next[n] {
			visit(m, append(path, n))
		}
		state[n] = 2
	}
	for _, n := range sortedKeys(next) {
		visit(n, nil)
	}
	return cyc
}

// known is an entry of the known-findings file: "finding: property=<id> site=<failed obligation> what fails".
type knownFinding struct{ site, what string }

func knownFindings(file, prop string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + prop + " site=\""
		if !strings.HasPrefix(l, p) {
			continue
		}
		l = l[len(p):]
		if i := strings.Index(l, "\" "); i > 0 {
			r = append(r, knownFinding{l[:i], l[i+2:]})
		}
	}
	return r
}
