package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one entry point.
type Harness struct {
	Name     string
	Prop     string
	Pkg      string // directory name below internal/verifh
	Doc      string
	Thorough bool // only in the thorough tier
	NoVal    bool
	Fake     bool
	Budget   time.Duration
	Steps    int64 // bound per path, in millions of instructions
	Alloc    int64 // bound of one allocation, in MiB
	fn       *ssa.Function
	Params   map[string]int
	tier     string
	mu       sync.Mutex
}

func (h *Harness) param(n string, q, t int) int {
	v := q
	if h.tier == "thorough" {
		v = t
	}
	h.mu.Lock()
	h.Params[n] = v
	h.mu.Unlock()
	return v
}

// Explorer drives the exploration of one harness.
type Explorer struct {
	h        *Harness
	mu       sync.Mutex
	cond     *sync.Cond
	work     [][]Dec
	active   int
	stop     bool
	deadline time.Time

	paths, done, infeasible, violated int
	decisions                         int64
	steps                             int64
	incon                             map[string]int
	viols                             map[string][]*Violation
	asserts                           map[string]int
	covers                            map[string]bool
	fns                               map[string]bool
	unknowns, hashes                  int
	samples                           []Sample
	sampleEvery                       int
	leftover                          int
	dbg                               bool
}

// Sample is a completed path with a model, used for validation against the real code.
type Sample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Obs    []string          `json:"obs"`
}

func newExplorer(h *Harness) *Explorer {
	x := &Explorer{h: h, incon: map[string]int{}, viols: map[string][]*Violation{}, asserts: map[string]int{},
		covers: map[string]bool{}, fns: map[string]bool{}, sampleEvery: 1}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) push(p *Path, d Dec) {
	pre := make([]Dec, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	x.mu.Lock()
	x.work = append(x.work, pre)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) noteUnknown() { x.mu.Lock(); x.unknowns++; x.mu.Unlock() }
func (x *Explorer) noteHash()    { x.mu.Lock(); x.hashes++; x.mu.Unlock() }
func (x *Explorer) noteAssert(l string) {
	x.mu.Lock()
	x.asserts[l]++
	x.mu.Unlock()
}
func (x *Explorer) noteCover(l string) { x.mu.Lock(); x.covers[l] = true; x.mu.Unlock() }
func (x *Explorer) noteInconclusive(s string) {
	x.mu.Lock()
	x.incon[s]++
	x.mu.Unlock()
}

func (x *Explorer) addViolation(v *Violation) {
	top := v.Where
	if i := strings.Index(top, " < "); i > 0 {
		top = top[:i]
	}
	k := v.Kind + "|" + v.Label + "|" + v.KnownAs
	if v.Kind == "crash" || v.Kind == "alloc" || v.Kind == "race" {
		k += "|" + top
	}
	x.mu.Lock()
	if len(x.viols[k]) < 4 {
		x.viols[k] = append(x.viols[k], v)
	}
	if v.Kind == "spin" {
		x.deadline = time.Now() // every further path may take as long
	}
	x.mu.Unlock()
}

// worker explores until no work is left.
func (x *Explorer) worker(e *Engine) {
	for {
		x.mu.Lock()
		for len(x.work) == 0 && x.active > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.work) == 0 {
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		if time.Now().After(x.deadline) {
			x.leftover = len(x.work)
			x.stop = true
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		pre := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.active++
		x.mu.Unlock()
		p := runPath(e, x, x.h, pre)
		x.finish(p)
		x.mu.Lock()
		x.active--
		x.mu.Unlock()
		x.cond.Broadcast()
	}
}

func (x *Explorer) finish(p *Path) {
	var s *Sample
	// sample models only for completed paths (exponentially thinned)
	if p.res.kind == "done" && !x.h.NoVal && len(p.known) == 0 {
		x.mu.Lock()
		take := x.done%x.sampleEvery == 0
		x.mu.Unlock()
		if take && p.lastModel != nil {
			s = &Sample{Inputs: p.assign(p.lastModel), Obs: p.obsUnder(p.lastModel)}
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.paths++
	x.decisions += int64(len(p.decs))
	x.steps += p.steps
	for f := range p.trackFns {
		x.fns[f] = true
	}
	switch p.res.kind {
	case "done":
		x.done++
		if s != nil {
			x.samples = append(x.samples, *s)
			if len(x.samples) >= 40 {
				var t []Sample
				for i := 0; i < len(x.samples); i += 2 {
					t = append(t, x.samples[i])
				}
				x.samples = t
				x.sampleEvery *= 2
			}
		}
	case "infeasible":
		x.infeasible++
	case "violated":
		x.violated++
	default:
		x.incon[p.res.kind+": "+p.res.msg]++
		if x.dbg {
			fmt.Fprintln(os.Stderr, "path:", p.res.kind, p.res.msg)
		}
	}
	if x.dbg && x.paths%1000 == 0 {
		fmt.Fprintf(os.Stderr, "  %d paths, %d queued, %d viol\n", x.paths, len(x.work), len(x.viols))
	}
}

func (p *Path) obsUnder(m *Model) []string {
	var r []string
	for _, o := range p.obs {
		switch o.s {
		case "i", "b":
			r = append(r, fmt.Sprintf("%s=%d", o.name, m.eval(o.t[0])))
		case "nil":
			r = append(r, o.name+"=nil")
		default:
			var sb strings.Builder
			for _, t := range o.t {
				fmt.Fprintf(&sb, "%02x", m.eval(t))
			}
			r = append(r, o.name+"="+sb.String())
		}
	}
	return r
}

// explore runs the whole exploration with n workers.
func explore(engines []*Engine, h *Harness, budget time.Duration, dbg bool) *Explorer {
	x := newExplorer(h)
	x.dbg = dbg
	x.deadline = time.Now().Add(budget)
	x.work = [][]Dec{nil}
	var wg sync.WaitGroup
	for _, e := range engines {
		wg.Add(1)
		go func(e *Engine) {
			defer wg.Done()
			x.worker(e)
		}(e)
	}
	wg.Wait()
	if x.leftover > 0 {
		x.incon[fmt.Sprintf("time bound reached with %d queued prefixes", x.leftover)]++
	}
	return x
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (h *Harness) copyParams() map[string]int {
	h.mu.Lock()
	defer h.mu.Unlock()
	r := map[string]int{}
	for k, v := range h.Params {
		r[k] = v
	}
	return r
}
