package lpg

// Shared part of the bounded checks: run cases on the real code, report the first failing ones.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

type vhunt struct {
	rule     string
	rnd      *rand.Rand
	thorough bool
	failing  bool // a proof obligation failed: search longer
	trace    bool
	end      time.Time
	evals    int
	seen     map[uint64]bool
	samples  []string
	failed   map[string]int
	current  atomic.Value
	started  atomic.Int64
}

func newHunt(rule string) *vhunt {
	debug.SetMaxStack(64 << 20)
	h := &vhunt{rule: rule, seen: map[uint64]bool{}, failed: map[string]int{}}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	h.rnd = rand.New(rand.NewSource(int64(seed)*7919 + 17))
	h.thorough = os.Getenv("VERIF_TIER") == "thorough"
	h.failing = os.Getenv("VERIF_FAILING") != ""
	h.trace = os.Getenv("VERIF_TRACE") != ""
	lim, _ := strconv.Atoi(os.Getenv("VERIF_LIMIT"))
	if lim == 0 {
		lim = 60
	}
	h.end = time.Now().Add(time.Duration(lim-15) * time.Second)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if s := h.started.Load(); s != 0 && time.Now().UnixNano()-s > int64(10*time.Second) {
				in, _ := h.current.Load().(string)
				h.report("does-not-terminate", in, "the case does not terminate within 10 seconds")
				h.done()
				os.Exit(1)
			}
		}
	}()
	return h
}

// n scales a number of random cases by tier.
func (h *vhunt) n(quick int) int {
	if h.thorough {
		return quick * 20
	}
	if h.failing {
		return quick * 4
	}
	return quick
}

func (h *vhunt) over() bool { return time.Now().After(h.end) || len(h.failed) > 3 }

func (h *vhunt) report(key, input, msg string) {
	h.failed[key]++
	if h.failed[key] > 1 {
		return
	}
	b, _ := json.Marshal(map[string]string{"Key": key, "Input": input, "Msg": msg})
	fmt.Printf("\nVERIF-FAIL %s\n", b)
}

func (h *vhunt) done() {
	d, _ := json.Marshal(map[string]any{"Evals": h.evals, "Distinct": len(h.seen), "Rule": h.rule, "Samples": h.samples})
	fmt.Printf("\nVERIF-DONE %s\n", d)
}

// vfail is a failed expectation inside a case.
type vfail struct{ key, msg string }

func vmust(cond bool, key, format string, args ...any) {
	if !cond {
		panic(vfail{key, fmt.Sprintf(format, args...)})
	}
}

// try runs f and returns the failure, if any.
func (h *vhunt) try(input string, f func()) (fl *vfail) {
	h.current.Store(input)
	if h.trace {
		fmt.Printf("\nVERIF-CASE %s\n", input)
	}
	h.started.Store(time.Now().UnixNano())
	defer h.started.Store(0)
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(vfail); ok {
				fl = &v
				return
			}
			where := ""
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				l = strings.TrimSpace(l)
				if strings.Contains(l, ".go:") && !strings.Contains(l, "zz_verif") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "hunt/") && !strings.Contains(l, "debug/stack") {
					if i := strings.LastIndex(l, "/"); i >= 0 {
						l = l[i+1:]
					}
					where = strings.Split(l, " ")[0]
					break
				}
			}
			fl = &vfail{"panic", fmt.Sprintf("panic: %v at %s", r, where)}
		}
	}()
	f()
	return nil
}

// check runs one case; nontrivial counts it as distinct and non-trivial.
func (h *vhunt) check(input string, nontrivial bool, f func()) bool {
	h.evals++
	if nontrivial {
		x := fnv.New64a()
		x.Write([]byte(input))
		h.seen[x.Sum64()] = true
		if len(h.samples) < 3 && h.evals%37 == 1 {
			s := input
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			h.samples = append(h.samples, s)
		}
	}
	if fl := h.try(input, f); fl != nil {
		h.report(fl.key, input, fl.msg)
		return false
	}
	return true
}

// shrink removes operations from a failing sequence while it keeps failing with the same class.
func vshrink[T any](h *vhunt, ops []T, fails func([]T) *vfail) ([]T, *vfail) {
	fl := fails(ops)
	if fl == nil {
		return ops, nil
	}
	for size := len(ops) / 2; size >= 1; {
		cut := false
		for i := 0; i+size <= len(ops); i++ {
			t := append(append([]T{}, ops[:i]...), ops[i+size:]...)
			if g := fails(t); g != nil && g.key == fl.key {
				ops, fl, cut = t, g, true
				break
			}
		}
		if !cut {
			size /= 2
		}
	}
	return ops, fl
}

// seqs runs a sequence case with shrinking.
func vseq[T any](h *vhunt, ops []T, show func([]T) string, f func([]T)) bool {
	h.evals++
	in := show(ops)
	x := fnv.New64a()
	x.Write([]byte(in))
	if len(ops) > 1 {
		h.seen[x.Sum64()] = true
		if len(h.samples) < 3 && h.evals%37 == 1 {
			s := in
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			h.samples = append(h.samples, s)
		}
	}
	fl := h.try(in, func() { f(ops) })
	if fl == nil {
		return true
	}
	if h.failed[fl.key] > 0 {
		h.failed[fl.key]++
		return false
	}
	small, f2 := vshrink(h, ops, func(o []T) *vfail { return h.try(show(o), func() { f(o) }) })
	if f2 == nil {
		small, f2 = ops, fl
	}
	h.report(f2.key, show(small), f2.msg)
	return false
}

func vdone(t *testing.T, h *vhunt) {
	h.done()
	if len(h.failed) > 0 {
		t.Fail()
	}
}
