package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// cmdVerify is for development: verify the functions whose contract key contains a string.
func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	dir := fs.String("dir", "/repo", "")
	spec := fs.String("spec", "/verif/contracts", "")
	only := fs.String("only", "", "")
	slow := fs.Int("slow", 5, "")
	verb := fs.Bool("v", false, "")
	fs.Parse(args)
	t0 := time.Now()
	p, err := loadProgram(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	v := &Verifier{prog: p, spec: loadSpec(*spec), results: map[string]*TargetResult{}, slow: *slow, noApply: map[string]bool{}, verbose: true}
	v.resolve()
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	for _, c := range v.spec.contracts {
		if *only != "" && !strings.Contains(c.key, *only) {
			continue
		}
		r := v.run(c, nil)
		if *verb {
			fmt.Println("tags", r.tags, "inlined", r.inlined, "used", r.used, "trusted", r.trusted, "notes", r.notes, "edges", r.edges, "vacuous", r.vacuous)
			for _, o := range r.obls {
				fmt.Println("   ", o.res, o.by, o.props, o.kind, o.label, o.pos, o.desc)
			}
		}
		for _, b := range c.behaviours {
			v.run(c, b)
		}
	}
	if *only == "" || *only == "lemma" {
		n, bad, by := proveLemmas()
		fmt.Fprintf(os.Stderr, "lemmas: %d queries, failed %q, by %v, %.1fs\n", n, bad, by, time.Since(t0).Seconds())
		for _, l := range v.spec.lemmas {
			o := v.runLemma(l)
			fmt.Fprintf(os.Stderr, "lemma %s: %v %s\n", o.label, o.res, o.by)
		}
	}
	fmt.Fprintf(os.Stderr, "total %.1fs, solver %v %v\n", time.Since(t0).Seconds(), stats.by, stats.tiers)
}
