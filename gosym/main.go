// Command gosym executes the property harnesses of /verif/harness symbolically over the SSA form of the
// repository's current source and decides every assertion with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(harness string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: harness,
		Env: append(goEnv(), "CGO_ENABLED=0"),
	}
	init, err := packages.Load(cfg, "./props")
	if err != nil {
		return nil, err
	}
	if n := packages.PrintErrors(init); n > 0 {
		return nil, fmt.Errorf("%d load errors", n)
	}
	prog, pkgs := ssautil.AllPackages(init, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, harness: pkgs[0]}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	return P, nil
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Match    string `json:"match"`  // prefix of the failing assertion's message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func findings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		var f finding
		if l, ok := strings.CutPrefix(l, "known: "); ok && json.Unmarshal([]byte(l), &f) == nil {
			r = append(r, f)
		}
	}
	return r
}

func main() {
	root := flag.String("root", "/verif", "the /verif directory")
	budget := flag.Int("budget", 0, "seconds of exploration")
	verbose := flag.Bool("v", false, "print details")
	workers := flag.Int("j", 8, "workers")
	replayF := flag.String("replay", "", "replay a violation file")
	flag.Parse()
	if flag.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym [flags] PROPERTY quick|thorough")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	prop := flag.Arg(0)
	tier := "quick"
	if flag.NArg() > 1 {
		tier = flag.Arg(1)
	}
	t0 := time.Now()
	harness := filepath.Join(*root, "harness")
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	rep := newReplayer(harness, tmp)
	code := 2
	defer func() { rep.close(); os.RemoveAll(tmp); os.Exit(code) }()
	if *replayF != "" {
		code = doReplay(rep, *replayF)
		return
	}
	built := make(chan error, 1)
	go func() { rep.mu.Lock(); _, err := rep.build(false); rep.mu.Unlock(); built <- err }()
	P, err := load(harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return
	}
	if err := <-built; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	loadT := time.Since(t0)
	// the harness of a property is the function props.<ID> (or props.<ID>_...)
	var entry *ssa.Function
	for n, m := range P.harness.Members {
		if f, ok := m.(*ssa.Function); ok && (n == prop || strings.HasPrefix(n, prop+"_")) && f.Signature.Params().Len() == 0 {
			entry = f
		}
	}
	if entry == nil {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return
	}
	ex := newExplorer(P, prop, entry)
	ex.rep = rep
	ex.workers = *workers
	ex.thorough = tier == "thorough"
	b := 420
	if ex.thorough {
		b = 3000
		ex.assertMs = 60000
		ex.branchMs = 10000
	}
	if *budget > 0 {
		b = *budget
	}
	ex.deadline = time.Now().Add(time.Duration(b) * time.Second)
	fs := findings(*root)
	for _, f := range fs {
		if f.Property == prop && f.Status == "known" {
			ex.known[f.Match] = true
		}
	}
	ex.run()
	wall := time.Since(t0)

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var funcs []string
	for k := range ex.covered {
		funcs = append(funcs, strings.ReplaceAll(k, repoModule+"/", ""))
	}
	sort.Strings(funcs)
	cov := map[string]interface{}{
		"states":                        ex.completed,
		"transitions":                   ex.pathDecs,
		"traces_validated_against_impl": ex.validated,
		"samples":                       sampleText(ex),
		"meaning":                       "states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = branch and choice decisions on all explored paths; traces_validated_against_impl = path models run on the native build with equal observations",
		"paths_total":                   ex.paths,
		"paths_infeasible":              ex.infeasible,
		"paths_outside_assumptions":     ex.assumed,
		"paths_beyond_bounds":           ex.aborted,
		"paths_not_encodable":           ex.unsup,
		"assertions_discharged_by_solver": ex.discharged,
		"assertions_decided_by_folding": ex.folded,
		"assertions_discharged_over_reals": ex.realDischarged,
		"assertions_inconclusive":       ex.inconcl,
		"unconfirmed_candidates":        ex.unconf,
		"crosschecked_with_cvc5":        ex.crossed,
		"crosscheck_disagreements":      ex.crossDisagree,
		"solver_queries":                ex.queries,
		"solver_unknown":                ex.unknowns,
		"solver_seconds":                ex.solverTime.Seconds(),
		"native_runs":                   rep.runs,
		"encoding_mismatches":           ex.mismatches,
		"encoding_mismatch_examples":    ex.mismatchEx,
		"functions_encoded":             funcs,
		"instructions_executed":         ex.steps,
		"reach":                         ex.reach,
		"notes":                         ex.notes,
		"load_seconds":                  loadT.Seconds(),
		"exhaustive":                    len(ex.aborted) == 0 && len(ex.unsup) == 0 && len(ex.inconcl) == 0 && !ex.stop,
	}
	assumptions := []string{
		"inputs are restricted to the harness bounds and Assume calls (see DESIGN.md and harness/props)",
		"standard-library stubs: fmt, strconv number text, encoding/xml decoder, math transcendental functions (uninterpreted), reflection-based defaults",
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": len(ex.viol),
	}
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	eb, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	os.WriteFile(filepath.Join(*root, "evidence", prop+".json"), eb, 0o644)

	fmt.Printf("%s %s: %d paths completed (%d infeasible, %d outside assumptions), %d+%d+%d assertions discharged (solver+folding+reals), %d queries, solver %.1fs, wall %.1fs (load %.1fs), %d functions, %d validated natively, %d mismatches, %d steps\n",
		prop, tier, ex.completed, ex.infeasible, ex.assumed, ex.discharged, ex.folded, ex.realDischarged, ex.queries, ex.solverTime.Seconds(), wall.Seconds(), loadT.Seconds(), len(funcs), ex.validated, ex.mismatches, ex.steps)
	pr := func(what string, m map[string]int) {
		ks := sortedKeys(m)
		for i, k := range ks {
			if i >= 12 && !*verbose {
				fmt.Printf("  %s: ... %d more kinds\n", what, len(ks)-i)
				break
			}
			fmt.Printf("  %s: %s (%d)\n", what, k, m[k])
		}
	}
	pr("beyond bounds", ex.aborted)
	pr("not encodable", ex.unsup)
	pr("inconclusive", ex.inconcl)
	pr("unconfirmed candidate", ex.unconf)
	pr("panicking paths", ex.panics)
	for _, m := range ex.mismatchEx {
		fmt.Println("  mismatch:", m)
	}
	if *verbose {
		pr("reach", ex.reach)
		for _, f := range funcs {
			fmt.Println("  encoded:", f)
		}
	}
	for _, f := range fs {
		if f.Property == prop && f.Status == "known" {
			if ex.knownHit[f.Match] != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
			}
		}
	}
	if len(ex.viol) > 0 {
		c := ex.viol[0]
		dir := filepath.Join(*root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, prop+".json")
		jb, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "thorough": ex.thorough, "message": c.Msg, "found_by": c.Origin, "inputs": c.Inputs, "native": c.Native}, "", " ")
		os.WriteFile(file, jb, 0o644)
		fmt.Printf("  %s (%s)\n", c.Msg, c.Origin)
		for _, i := range c.Inputs {
			fmt.Printf("    %s = %s\n", i.N, pretty(i))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		code = 1
		return
	}
	if ex.completed == 0 && len(ex.knownHit) == 0 {
		fmt.Fprintln(os.Stderr, "no path completed: the check decided nothing")
		code = 2
		return
	}
	code = 0
}

func pretty(i witIn) string {
	u, _ := strconv.ParseUint(i.V, 0, 64)
	tt := NewTermTab()
	switch i.K {
	case "f64":
		return fmt.Sprint(tt.mk(OConst, SF64, u, "").f())
	case "f32":
		return fmt.Sprint(tt.mk(OConst, SF32, u, "").f())
	case "i64":
		return fmt.Sprint(int64(u))
	case "bool":
		return fmt.Sprint(u == 1)
	case "u8":
		return strconv.QuoteRune(rune(u))
	}
	return fmt.Sprint(u)
}

func sampleText(ex *Explorer) []interface{} {
	r := []interface{}{}
	for _, w := range ex.samples {
		m := map[string]string{}
		for _, i := range w {
			m[i.N] = pretty(i)
		}
		r = append(r, m)
	}
	return r
}

func doReplay(rep *Replayer, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string
		Thorough bool
		Inputs   []witIn
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rs := rep.run(f.Property, f.Thorough, f.Inputs, true)
	jb, _ := json.MarshalIndent(rs, "", " ")
	fmt.Println(string(jb))
	if rs != nil && rs.Status == "ok" {
		return 0
	}
	return 1
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
}

var _ = runtime.NumCPU
var _ = types.Typ
