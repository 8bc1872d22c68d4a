package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime/debug"
	"strings"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func repoDir() string {
	if d := os.Getenv("VC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: lpgvc fn NAME...|list|check -prop Cxx|ssa NAME")
	}
	var err error
	scratch, err = os.MkdirTemp("", "lpgvc")
	if err != nil {
		fatal("%v", err)
	}
	code := 0
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "internal error: %v\n", r)
			if os.Getenv("VC_DEBUG") != "" {
				debug.PrintStack()
			}
			code = 2
		}
		os.RemoveAll(scratch)
		os.Exit(code)
	}()
	go func() {
		c := make(chan os.Signal, 1)
		signal.Notify(c, os.Interrupt)
		<-c
		os.RemoveAll(scratch)
		os.Exit(2)
	}()
	if os.Args[1] == "check" {
		code = cmdCheck(os.Args[2:])
		return
	}
	if err := loadRepo(repoDir()); err != nil {
		fmt.Println("load:", err)
		code = 2
		return
	}
	indexFns()
	if os.Args[1] == "ssa" {
		for _, n := range os.Args[2:] {
			if f := fnIndex[n]; f != nil {
				f.WriteTo(os.Stdout)
				for _, a := range f.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	spec := loadSpecs(verifDir() + "/contracts")
	if p := os.Getenv("VC_PROP"); p != "" {
		spec.project(p)
	}
	if err := setupSpec(spec); err != nil {
		fmt.Println(err)
		code = 2
		return
	}
	switch os.Args[1] {
	case "list":
		for _, n := range sortedKeys(fnIndex) {
			c := spec.contracts[n]
			if c != nil {
				fmt.Printf("%-60s %v\n", n, c.props)
			} else {
				fmt.Println(n)
			}
		}
	case "fn":
		opt := verifyOpts{ms: 10000, candMs: 4000, par: 8, backends: []int{0, 1, 2}, verbose: true}
		names := os.Args[2:]
		if len(names) == 1 && (names[0] == "all" || strings.HasPrefix(names[0], "prop:")) {
			want := strings.TrimPrefix(names[0], "prop:")
			names = nil
			for _, n := range spec.order {
				c := spec.contracts[n]
				if c.extern || c.iface || c.trusted {
					continue
				}
				if want != "all" && !hasProp(c, want) {
					continue
				}
				names = append(names, n)
			}
			opt.verbose = os.Getenv("VC_V") != ""
		}
		for _, l := range spec.lemmas {
			if len(os.Args) == 3 && (os.Args[2] == "all" || strings.HasPrefix(os.Args[2], "prop:") && hasStr(l.props, os.Args[2][5:])) {
				names = append(names, "lemma "+l.name)
			}
		}
		newHints := map[string]fnHint{}
		if os.Getenv("VC_HINTS") == "" {
			loadHints()
		} else {
			defer func() {
				b, _ := json.MarshalIndent(newHints, "", " ")
				_ = os.WriteFile(verifDir()+"/hints.json", append(b, '\n'), 0o644)
			}()
		}
		for _, n := range names {
			t0 := time.Now()
			var r *FnResult
			if strings.HasPrefix(n, "lemma ") {
				for _, l := range spec.lemmas {
					if "lemma "+l.name == n {
						r = verifyLemma(spec, l, opt)
					}
				}
			} else {
				c := spec.contracts[n]
				if c == nil {
					fmt.Println("no contract for", n)
					continue
				}
				r = verifyFn(spec, c, opt)
			}
			nt := 0
			for _, o := range r.obls {
				if o.status == "trivial" {
					nt++
				}
			}
			if r.ok() && r.fn != nil && len(r.dropped) > 0 {
				newHints[n] = fnHint{fnHash(r.fn), r.dropped}
			}
			fmt.Printf("%s: ok=%v paths=%d obligations=%d trivial=%d failed=%d rounds=%d %.1fs %s missing=%v vacuous=%v inlined=%v\n", n, r.ok(), r.paths, len(r.obls), nt, len(r.failed), r.rounds, time.Since(t0).Seconds(), r.problem, r.missing, r.vacuous, r.inlined)
			if os.Getenv("VC_SLOW") != "" {
				for _, o := range r.obls {
					if o.secs > 1.0 {
						fmt.Printf("   slow %.1fs %s at %s [%s %s] %v\n", o.secs, o.label, o.pos, o.status, o.backend, o.path)
						if d := os.Getenv("VC_SLOWDIR"); d != "" {
							_ = os.WriteFile(fmt.Sprintf("%s/%s_%03.0f.smt2", d, strings.ReplaceAll(o.label, " ", "_"), o.secs*10), []byte(script(spec, o, false)), 0o644)
						}
					}
				}
			}
			for i, o := range r.failed {
				if i > 12 {
					fmt.Println("   ...")
					break
				}
				fmt.Printf("   FAILED %s at %s [%s] path %v\n     goal %s\n", o.label, o.pos, o.status, o.path, trunc(o.goal.smt(), 600))
				if strings.Contains(o.output, "error") {
					fmt.Println("     ", trunc(o.output, 500))
				}
				if d := os.Getenv("VC_KEEP"); d != "" && o.script != "" {
					b, _ := os.ReadFile(o.script)
					os.MkdirAll(d, 0o755)
					os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", d, sanitize(n), i), b, 0o644)
				}
			}
		}
		for _, b := range sortedKeys(solverSecs) {
			fmt.Printf("solver %s: %d runs %.1fs\n", b, solverCount[b], solverSecs[b])
		}
	}
}

func hasStr(l []string, p string) bool {
	for _, q := range l {
		if q == p {
			return true
		}
	}
	return false
}

func hasProp(c *Contract, p string) bool {
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}
