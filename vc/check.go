package main

// The check of one property: verify every function and lemma under contract for it against the current source,
// run the bounded checks that stand in for functions out of reach, and report.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var deadline time.Time

type finding struct {
	Property, Status, Obligation, Key, What string
}

func loadFindings() (out []finding) {
	b, err := os.ReadFile(verifDir() + "/known-findings.txt")
	if err != nil {
		return nil
	}
	// known: property=<id> key=<failure class> <what>   or   known: property=<id> obligation=<name> <what>
	// fixed: property=<id> <commit> <what>              (suppresses nothing)
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.Fields(l)
		if len(w) < 3 || w[0] != "known:" || !strings.HasPrefix(w[1], "property=") {
			continue
		}
		f := finding{Property: w[1][len("property="):], Status: "known", What: strings.Join(w[3:], " ")}
		switch {
		case strings.HasPrefix(w[2], "key="):
			f.Key = w[2][len("key="):]
		case strings.HasPrefix(w[2], "obligation="):
			f.Obligation = w[2][len("obligation="):]
		}
		out = append(out, f)
	}
	return out
}

type propConf struct {
	Level       string   `json:"level"`
	Explanation string   `json:"explanation"`
	Bounded     []string `json:"bounded"` // functions decided by a bounded check only, with the bound
	Assumptions []string `json:"assumptions"`
	Hunt        []string `json:"hunt"`      // additional test files
	Functions   []string `json:"functions"` // not under contract for this property but checked as well
}

type huntFail struct{ key, input, msg string }

type huntResult struct {
	ran       bool
	note      string
	evals     int
	distinct  int
	rule      string
	samples   []string
	fails     []huntFail
	secs      float64
	cmd       string
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	prop := fs.String("prop", "", "property")
	noProof := fs.Bool("noproof", false, "only the bounded checks")
	noHunt := fs.Bool("nohunt", false, "only the proof")
	if fs.Parse(args) != nil {
		return 2
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	opt := verifyOpts{ms: 20000, candMs: 5000, par: 8, backends: []int{0, 1, 2}}
	budget := 560 * time.Second
	if tier == "thorough" {
		opt.ms, opt.candMs, opt.backends = 60000, 10000, []int{0, 1, 2}
		budget = 3600 * time.Second
	}
	deadline = t0.Add(budget)
	if err := loadRepo(repoDir()); err != nil {
		fmt.Println("load:", err)
		return 2
	}
	indexFns()
	loadHints()
	conf := map[string]*propConf{}
	if b, err := os.ReadFile(verifDir() + "/conf.json"); err == nil {
		if err := json.Unmarshal(b, &conf); err != nil {
			fmt.Println("conf.json:", err)
			return 2
		}
	}
	pc := conf[*prop]
	if pc == nil {
		pc = &propConf{Level: "proof"}
	}
	known := loadFindings()
	var failures []string // what failed, for the replay file
	var knownSeen = map[string]bool{}
	isKnown := func(obl, key string) bool {
		for _, k := range known {
			if k.Property == *prop && k.Status == "known" && ((obl != "" && k.Obligation == obl) || (key != "" && k.Key == key)) {
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
				return true
			}
		}
		return false
	}
	var results []*FnResult
	proofBad := 0
	nobl, ndis, ntriv := 0, 0, 0
	var funcs, missing []map[string]any
	trusted := map[string]bool{}
	backend := map[string]int{}
	inlinedAll := map[string]bool{}
	var specErr error
	if !*noProof {
		spec := loadSpecs(verifDir() + "/contracts")
		spec.project(*prop)
		specErr = setupSpec(spec)
		if specErr != nil {
			proofBad++
			failures = append(failures, "specification does not fit the source: "+specErr.Error())
		} else {
			for _, n := range spec.order {
				c := spec.contracts[n]
				if c.extern || c.iface || c.trusted || !hasProp(c, *prop) {
					continue
				}
				r := verifyFn(spec, c, opt)
				results = append(results, r)
			}
			for _, l := range spec.lemmas {
				if hasStr(l.props, *prop) {
					results = append(results, verifyLemma(spec, l, opt))
				}
			}
			for _, r := range results {
				if r.missing {
					exp := false
					p := strings.Split(r.name, ".")
					exp = ast.IsExported(p[len(p)-1]) && ast.IsExported(p[0])
					missing = append(missing, map[string]any{"function": r.name, "exported": exp})
					if exp {
						proofBad++
						failures = append(failures, "function under contract not found: "+r.name)
					}
					continue
				}
				bad := 0
				for _, o := range r.obls {
					nobl++
					switch o.status {
					case "unsat":
						ndis++
						backend[o.backend]++
					case "trivial":
						ndis++
						ntriv++
					}
				}
				for _, o := range r.failed {
					name := r.name + ": " + o.label
					if isKnown(name, "") {
						continue
					}
					bad++
					failures = append(failures, fmt.Sprintf("obligation %s at %s not discharged (%s)\n  path: %v\n  goal: %s\n  solver output: %s", name, o.pos, o.status, o.path, trunc(o.goal.smt(), 2000), trunc(o.output, 3000)))
				}
				if r.problem != "" && !isKnown(r.name+": problem", "") {
					bad++
					failures = append(failures, fmt.Sprintf("%s: %s", r.name, r.problem))
				}
				if r.vacuous {
					bad++
					failures = append(failures, fmt.Sprintf("%s: the contract is vacuous on this source (no return is reachable under the assumptions)", r.name))
				}
				if bad > 0 {
					proofBad++
				}
				for _, a := range r.assumed {
					trusted[a] = true
				}
				for _, a := range r.inlined {
					inlinedAll[a] = true
				}
				funcs = append(funcs, map[string]any{"function": r.name, "obligations": len(r.obls), "failed": len(r.failed), "paths": r.paths, "inlined": r.inlined, "callees_by_contract": r.called, "rounds": r.rounds, "seconds": round2(r.secs)})
			}
			if nobl == 0 && pc.Level == "proof" {
				proofBad++
				failures = append(failures, "no obligations were generated")
			}
		}
	}
	proofSecs := time.Since(t0).Seconds()
	var hr huntResult
	if !*noHunt {
		hr = runHunt(*prop, pc, tier, seed, proofBad > 0)
	}
	var concrete []huntFail
	for _, f := range hr.fails {
		if !isKnown("", f.key) {
			concrete = append(concrete, f)
		}
	}
	// evidence
	violation := proofBad > 0 || len(concrete) > 0
	nv := 0
	if violation {
		nv = 1
	}
	var ex []string
	for _, a := range sortedKeys(trusted) {
		ex = append(ex, a)
	}
	base := []string{"vc: the condition generator in /verif/vc (go/ssa to SMT) and golang.org/x/tools/go/ssa", "z3 (z3-new), cvc5", "Go compiler and runtime"}
	assumptions := append([]string{}, pc.Assumptions...)
	for _, a := range ex {
		assumptions = append(assumptions, "assumed contract: "+a)
	}
	cov := map[string]any{
		"obligations": nobl, "discharged": ndis, "discharged_without_solver": ntriv,
		"checker_cmd":             "bin/lpgvc check -prop " + *prop,
		"trusted_base":            base,
		"functions_under_contract": funcs, "missing_contract_targets": missing,
		"inlined_functions": sortedKeys(inlinedAll), "backends": backend,
		"solver_seconds": secsMap(), "proof_seconds": round2(proofSecs),
		"bounded_only": pc.Bounded,
	}
	if len(hr.samples) == 0 {
		hr.samples = []string{"none"}
	}
	cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = hr.evals, hr.distinct, hr.rule, hr.samples
	cov["bounded_check"] = map[string]any{"ran": hr.ran, "note": hr.note, "seconds": round2(hr.secs), "command": hr.cmd, "counted_as_proved": false}
	if pc.Explanation != "" {
		cov["explanation"] = pc.Explanation
	}
	ev := map[string]any{"property": *prop, "tier": tier, "seed": seed, "level": pc.Level, "coverage": cov, "assumptions": assumptions, "wall_s": round2(time.Since(t0).Seconds()), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(verifDir()+"/evidence", 0o755)
	os.WriteFile(verifDir()+"/evidence/"+*prop+".json", b, 0o644)
	fmt.Printf("%s: %d functions and lemmas, %d obligations, %d discharged (%d trivially); bounded cases %d; %.1fs\n", *prop, len(results), nobl, ndis, ntriv, hr.evals, time.Since(t0).Seconds())
	if hr.note != "" {
		fmt.Println("bounded check:", hr.note)
	}
	if !violation {
		return 0
	}
	dir := verifDir() + "/evidence/replay"
	os.MkdirAll(dir, 0o755)
	path := fmt.Sprintf("%s/%s.txt", dir, *prop)
	var w bytes.Buffer
	fmt.Fprintf(&w, "property %s\ntier %s seed %d\n", *prop, tier, seed)
	for _, f := range concrete {
		fmt.Fprintf(&w, "\nfailing input (run on the real code), class %s:\n%s\nwhat fails: %s\n", f.key, f.input, f.msg)
	}
	if len(concrete) > 0 {
		fmt.Fprintf(&w, "\nre-run: %s\n", hr.cmd)
	}
	if len(failures) > 0 {
		fmt.Fprintf(&w, "\nfailed obligations:\n")
		for _, f := range failures {
			fmt.Fprintf(&w, "- %s\n", f)
		}
		fmt.Fprintf(&w, "\nre-run: cd %s && bin/lpgvc check -prop %s\n", verifDir(), *prop)
	}
	os.WriteFile(path, w.Bytes(), 0o644)
	for i, f := range concrete {
		if i < 3 {
			fmt.Printf("failing input [%s]: %s: %s\n", f.key, trunc(f.input, 600), trunc(f.msg, 400))
		}
	}
	for i, f := range failures {
		if i < 6 {
			fmt.Println("failed:", trunc(f, 400))
		}
	}
	suffix := ""
	if len(concrete) == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, path, suffix)
	return 1
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func secsMap() map[string]float64 {
	m := map[string]float64{}
	for k, v := range solverSecs {
		m[k] = round2(v)
	}
	return m
}

// runHunt runs the bounded check of a property: /verif/hunt/common_test.go and /verif/hunt/<prop>_test.go, overlaid on the package.
func runHunt(prop string, pc *propConf, tier string, seed int, failing bool) (hr huntResult) {
	t0 := time.Now()
	defer func() { hr.secs = time.Since(t0).Seconds() }()
	low := strings.ToLower(prop)
	files := []string{"common_test.go", low + "_test.go"}
	files = append(files, pc.Hunt...)
	if _, err := os.Stat(filepath.Join(verifDir(), "hunt", low+"_test.go")); err != nil {
		hr.note = "none for this property"
		return
	}
	repl := map[string]string{}
	for _, f := range files {
		repl[filepath.Join(repoDir(), "zz_verif_"+f)] = filepath.Join(verifDir(), "hunt", f)
	}
	// the repository's own tests are not part of this build
	ents, _ := os.ReadDir(repoDir())
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			repl[filepath.Join(repoDir(), e.Name())] = ""
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(scratch, "hunt.test")
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier)
	if failing {
		env = append(env, "VERIF_FAILING=1")
	}
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", ovf, "-c", "-o", bin, ".")
	cmd.Dir, cmd.Env = repoDir(), env
	if out, err := cmd.CombinedOutput(); err != nil {
		hr.note = "does not compile against this source: " + trunc(string(out), 600)
		return
	}
	hr.ran = true
	limit := 100 * time.Second
	if failing {
		limit = 200 * time.Second
	}
	if tier == "thorough" {
		limit = 1500 * time.Second
	}
	hr.cmd = fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bin/lpgvc check -noproof -prop %s", seed, tier, prop)
	run := func(extra ...string) (string, bool) {
		ctx, cancel := context.WithTimeout(context.Background(), limit+30*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif"+prop+"$", "-test.timeout", "0")
		c.Dir, c.Env = scratch, append(append(env, "VERIF_LIMIT="+strconv.Itoa(int(limit.Seconds()))), extra...)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
		var buf bytes.Buffer
		c.Stdout, c.Stderr = &buf, &buf
		err := c.Run()
		return buf.String(), err == nil
	}
	out, ok := run()
	parse := func(out string) {
		for _, l := range strings.Split(out, "\n") {
			switch {
			case strings.HasPrefix(l, "VERIF-FAIL "):
				var f struct{ Key, Input, Msg string }
				if json.Unmarshal([]byte(l[len("VERIF-FAIL "):]), &f) == nil {
					hr.fails = append(hr.fails, huntFail{f.Key, f.Input, f.Msg})
				}
			case strings.HasPrefix(l, "VERIF-DONE "):
				var d struct {
					Evals, Distinct int
					Rule            string
					Samples         []string
				}
				if json.Unmarshal([]byte(l[len("VERIF-DONE "):]), &d) == nil {
					hr.evals, hr.distinct, hr.rule, hr.samples = d.Evals, d.Distinct, d.Rule, d.Samples
				}
			}
		}
	}
	parse(out)
	if !ok && len(hr.fails) == 0 {
		// the process died (stack exhausted, deadlock): find the case
		out2, ok2 := run("VERIF_TRACE=1")
		last := ""
		for _, l := range strings.Split(out2, "\n") {
			if strings.HasPrefix(l, "VERIF-CASE ") {
				last = l[len("VERIF-CASE "):]
			}
		}
		if !ok2 {
			i := strings.Index(out2, "fatal error:")
			if i < 0 {
				i = strings.Index(out2, "panic:")
			}
			if i < 0 {
				i = max(0, len(out2)-600)
			}
			hr.fails = append(hr.fails, huntFail{"crash", last, "the process dies: " + trunc(out2[i:], 600)})
		}
	}
	sort.SliceStable(hr.fails, func(i, j int) bool { return len(hr.fails[i].input) < len(hr.fails[j].input) })
	return
}
