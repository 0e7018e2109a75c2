package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type HReport struct {
	x                   *Explorer
	st                  solverStats
	dur                 time.Duration
	validated, diverged int
	divNotes            []string
}

type Report struct {
	prop, tier string
	start      time.Time
	hs         []*HReport
	solver     solverStats
}

// KnownFinding is one committed entry of known_findings.json.
type KnownFinding struct {
	Property string   `json:"property"`
	ID       string   `json:"id"`
	Labels   []string `json:"labels"`
	Where    []string `json:"where"` // call sites, alternative to tagging by the harness
	What     string   `json:"what"`
}

type knownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type native struct {
	dir  string
	bins map[string]string // pkg|race
	ov   map[string]string
	fail map[string]string
}

func newNative(ov map[string]string) *native {
	d, err := os.MkdirTemp("", "verifnat")
	if err != nil {
		fail("%v", err)
	}
	return &native{dir: d, bins: map[string]string{}, ov: ov, fail: map[string]string{}}
}

func (n *native) clean() { os.RemoveAll(n.dir) }

func (n *native) bin(pkg string, race, fake bool) (string, error) {
	k := fmt.Sprintf("%s_%v_%v", pkg, fake, race)
	if b, ok := n.bins[k]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", n.fail[k])
		}
		return b, nil
	}
	rep := map[string]string{}
	for dst, src := range n.ov {
		rep[dst] = src
	}
	ovf := filepath.Join(n.dir, "ov.json")
	if err := writeJSON(ovf, map[string]interface{}{"Replace": rep}); err != nil {
		return "", err
	}
	out := filepath.Join(n.dir, "bin_"+k)
	args := []string{"build", "-overlay", ovf, "-o", out}
	if race {
		args = append(args, "-race")
	}
	if fake {
		args = append(args, "-tags=faketime")
	}
	args = append(args, "./internal/verifh/"+pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = *fRepo
	if race {
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	} else {
		cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	}
	b, err := cmd.CombinedOutput()
	if err != nil {
		n.bins[k] = ""
		n.fail[k] = fmt.Sprintf("native build: %v: %s", err, b)
		return "", fmt.Errorf("%s", n.fail[k])
	}
	n.bins[k] = out
	return out, nil
}

type natResult struct {
	violated  []string
	obs       []string
	done      bool
	assumeBad bool
	crash     string
	oom       bool
	alloc     uint64
	timeout   bool
	deadlock  bool
	cpu       time.Duration
	race      bool
	code      int
	out       string
}

type replayFile struct {
	Harness   string            `json:"harness"`
	Pkg       string            `json:"pkg"`
	Tier      string            `json:"tier"`
	Inputs    map[string]uint64 `json:"inputs"`
	Sched     []SchedStep       `json:"sched,omitempty"`
	Violation *Violation        `json:"violation,omitempty"`
	How       string            `json:"how,omitempty"`
}

func (n *native) run(bin, file string, timeout time.Duration, seed int, env ...string) natResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", `ulimit -v 10000000 2>/dev/null; exec "$0" "$@"`, bin, file)
	if strings.HasSuffix(bin, "_true") { // race detector needs address space
		cmd = exec.CommandContext(ctx, bin, file)
	}
	cmd.Env = append(os.Environ(), "VERIF_JITTER="+strconv.Itoa(seed), "GORACE=halt_on_error=1 exitcode=66")
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	r := natResult{out: unplay(out.String())}
	if ctx.Err() != nil {
		r.timeout = true
	}
	if cmd.ProcessState != nil {
		r.cpu = cmd.ProcessState.UserTime()
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		} else {
			r.code = -1
		}
	}
	for _, l := range strings.Split(r.out, "\n") {
		switch {
		case strings.HasPrefix(l, "VIOLATED "):
			r.violated = append(r.violated, l[9:])
		case strings.HasPrefix(l, "OBS "):
			r.obs = append(r.obs, l[4:])
		case l == "DONE":
			r.done = true
		case strings.HasPrefix(l, "ASSUME-FAILED"):
			r.assumeBad = true
		case strings.HasPrefix(l, "ALLOC "):
			r.alloc, _ = strconv.ParseUint(l[6:], 10, 64)
		case strings.HasPrefix(l, "fatal error: all goroutines are asleep"), strings.HasPrefix(l, "DEADLOCK"):
			r.deadlock = true
		case strings.Contains(l, "out of memory"), strings.Contains(l, "cannot allocate memory"):
			r.oom = true
			r.crash = l
		case strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "goroutine stack exceeds"):
			if r.crash == "" {
				r.crash = l
			}
		case strings.HasPrefix(l, "WARNING: DATA RACE"):
			r.race = true
		}
	}
	return r
}

// unplay strips the playback headers that fake-time binaries put before each write.
func unplay(s string) string {
	if !strings.Contains(s, "\x00\x00PB") {
		return s
	}
	var sb strings.Builder
	for {
		i := strings.Index(s, "\x00\x00PB")
		if i < 0 || len(s) < i+16 {
			sb.WriteString(s)
			return sb.String()
		}
		sb.WriteString(s[:i])
		s = s[i+16:]
	}
}

// confirm replays a violation against the real code.
func (n *native) confirm(v *Violation, h *Harness, file string) (bool, string) {
	race := v.Kind == "race"
	bin, err := n.bin(h.Pkg, race, h.Fake)
	if err != nil {
		return false, err.Error()
	}
	tries := 1
	if len(v.Sched) > 0 {
		tries = 3
	}
	if v.Explored {
		tries = 60
	}
	if v.Kind == "spin" && tries > 5 {
		tries = 5
	}
	limit := time.Now().Add(60 * time.Second)
	note := ""
	for i := 0; i < tries && (i == 0 || time.Now().Before(limit)); i++ {
		to := 30 * time.Second
		if v.Kind == "deadlock" {
			to = 15 * time.Second
		}
		var env []string
		if v.Kind == "spin" {
			env = []string{"VERIF_LINGER=1"}
			to = 10 * time.Second
		}
		r := n.run(bin, file, to, i, env...)
		ok := false
		switch v.Kind {
		case "assert":
			ok = len(r.violated) > 0
		case "crash":
			ok = r.crash != "" || r.oom
		case "alloc":
			ok = r.oom || r.alloc > 48<<20 || r.crash != ""
		case "spin":
			ok = r.timeout || r.cpu > 1500*time.Millisecond
		case "deadlock":
			ok = r.timeout || r.deadlock
		case "race":
			ok = r.race || strings.Contains(r.crash, "concurrent map") || r.crash != ""
		}
		if !ok && (len(r.violated) > 0 || r.crash != "" && !r.assumeBad) {
			ok = true
		}
		tail := r.out
		if len(tail) > 1500 {
			tail = tail[:1500]
		}
		note = fmt.Sprintf("native run %d: code=%d violated=%v crash=%q timeout=%v deadlock=%v race=%v alloc=%d assume-failed=%v done=%v", i+1, r.code, r.violated, r.crash, r.timeout, r.deadlock, r.race, r.alloc, r.assumeBad, r.done)
		if ok {
			if *fReplay != "" {
				fmt.Println(tail)
			}
			return true, note
		}
		if r.assumeBad && !v.Explored {
			break
		}
	}
	return false, note
}

func (r *Report) finish(ovPaths map[string]string) int {
	nat := newNative(ovPaths)
	defer nat.clean()
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fail("known_findings.json: %v", err)
		}
	}
	isKnown := func(v *Violation) *KnownFinding {
		for i := range kf.Findings {
			f := &kf.Findings[i]
			if f.Property != v.Prop {
				continue
			}
			site := false
			for _, w := range f.Where {
				site = site || strings.Contains(v.Where, w)
			}
			for _, id := range strings.Split(v.KnownAs, ",") {
				site = site || f.ID == id
			}
			if !site {
				continue
			}
			for _, l := range f.Labels {
				if strings.HasPrefix(v.Label, l) {
					return f
				}
			}
		}
		return nil
	}
	rdir := filepath.Join(*fVerif, "replay")
	os.MkdirAll(rdir, 0o755)
	exit := 0
	nviol := 0
	var unconfirmed, confirmed []string
	knownSeen := map[string]bool{}
	n := 0
	for _, hr := range r.hs {
		h := hr.x.h
		for _, k := range sortedKeys(hr.x.viols) {
			vs := hr.x.viols[k]
			if f := isKnown(vs[0]); f != nil {
				if !knownSeen[f.ID] {
					knownSeen[f.ID] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.Property, f.What)
				}
				continue
			}
			if *fNoReplay {
				fmt.Printf("SYMBOLIC-VIOLATION property=%s harness=%s label=%q\n", h.Prop, h.Name, vs[0].Label)
				exit = 1
				continue
			}
			okAny := false
			var note string
			for i, v := range vs {
				if i >= 3 {
					break
				}
				n++
				file := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", h.Prop, h.Name, n))
				writeJSON(file, &replayFile{Harness: h.Name, Pkg: h.Pkg, Tier: r.tier, Inputs: v.Inputs, Sched: v.Sched, Violation: v,
					How: "bash /verif/replay.sh " + file})
				var ok bool
				ok, note = nat.confirm(v, h, file)
				if ok {
					okAny = true
					nviol++
					exit = 1
					fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, file)
					fmt.Printf("  harness %s: %s (%s) at %s\n  inputs: %s\n  %s\n", h.Name, v.Label, v.Kind, v.Where, fmtInputs(v.Inputs), note)
					confirmed = append(confirmed, h.Name+": "+v.Label)
					break
				}
			}
			if !okAny {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s at %s (%s)", h.Name, vs[0].Label, vs[0].Where, note))
				fmt.Printf("UNCONFIRMED property=%s harness=%s label=%q (symbolic counterexample that did not reproduce natively; not reported)\n  %s\n", h.Prop, h.Name, vs[0].Label, note)
			}
		}
	}
	// validation of the encoding against the real code
	valEnd := time.Now().Add(40 * time.Second)
	if exit == 0 && !*fNoReplay {
		for _, hr := range r.hs {
			if hr.x.h.NoVal || len(hr.x.samples) == 0 {
				continue
			}
			bin, err := nat.bin(hr.x.h.Pkg, false, hr.x.h.Fake)
			if err != nil {
				hr.divNotes = append(hr.divNotes, err.Error())
				continue
			}
			max := 8
			if r.tier == "thorough" {
				max = 20
			}
			for i, s := range hr.x.samples {
				if i >= max || time.Now().After(valEnd) {
					break
				}
				file := filepath.Join(nat.dir, "val.json")
				writeJSON(file, &replayFile{Harness: hr.x.h.Name, Pkg: hr.x.h.Pkg, Tier: r.tier, Inputs: s.Inputs})
				nr := nat.run(bin, file, 30*time.Second, 0)
				same := nr.done && len(nr.violated) == 0 && !nr.assumeBad && strings.Join(nr.obs, "\n") == strings.Join(s.Obs, "\n")
				if same {
					hr.validated++
				} else {
					hr.diverged++
					if len(hr.divNotes) < 3 {
						hr.divNotes = append(hr.divNotes, fmt.Sprintf("inputs {%s}: symbolic obs %v, native obs %v done=%v violated=%v crash=%q assume-failed=%v timeout=%v", fmtInputs(s.Inputs), s.Obs, nr.obs, nr.done, nr.violated, nr.crash, nr.assumeBad, nr.timeout))
					}
				}
			}
		}
	}
	r.evidence(nviol, confirmed, unconfirmed, knownSeen)
	inc := 0
	for _, hr := range r.hs {
		inc += len(hr.x.incon)
		if *fDebug {
			for _, s := range hr.divNotes {
				fmt.Fprintf(os.Stderr, "DIVERGED %s %s\n", hr.x.h.Name, s)
			}
			if hr.validated+hr.diverged > 0 {
				fmt.Fprintf(os.Stderr, "validated %s: %d ok %d diverged\n", hr.x.h.Name, hr.validated, hr.diverged)
			}
		}
	}
	if exit == 0 {
		if inc == 0 {
			fmt.Printf("OK property=%s: no violation within the stated bounds (%d harnesses, %d queries, %.1fs)\n", r.prop, len(r.hs), r.solver.queries, time.Since(r.start).Seconds())
		} else {
			fmt.Printf("OK property=%s: no violation found, with reduced bounds (see inconclusive in the evidence file) (%d harnesses, %d queries, %.1fs)\n", r.prop, len(r.hs), r.solver.queries, time.Since(r.start).Seconds())
			for _, hr := range r.hs {
				for _, k := range sortedKeys(hr.x.incon) {
					fmt.Printf("  inconclusive %s x%d: %.300s\n", hr.x.h.Name, hr.x.incon[k], k)
				}
			}
		}
	}
	return exit
}

func (r *Report) evidence(nviol int, confirmed, unconfirmed []string, known map[string]bool) {
	if r.prop == "" {
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var states, trans, validated, diverged int64
	fns := map[string]bool{}
	var hs []map[string]interface{}
	var samples []interface{}
	for _, hr := range r.hs {
		x := hr.x
		states += int64(x.paths)
		trans += x.decisions
		validated += int64(hr.validated)
		diverged += int64(hr.diverged)
		for f := range x.fns {
			fns[f] = true
		}
		m := map[string]interface{}{
			"harness": x.h.Name, "claim": x.h.Doc, "bounds": x.h.Params,
			"paths": x.paths, "paths_completed": x.done, "paths_cut_by_assumption": x.infeasible, "paths_violating": x.violated,
			"decisions": x.decisions, "instructions": x.steps,
			"queries": hr.st.queries, "sat": hr.st.sats, "unsat": hr.st.unsats, "solver_unknown": hr.st.unknown,
			"solver_s": hr.st.dur.Seconds(), "wall_s": hr.dur.Seconds(),
			"assertions_checked": x.asserts, "reached": sortedKeys(x.covers), "symbolic_hashes": x.hashes,
			"exhaustive_within_bounds": len(x.incon) == 0,
		}
		if len(x.incon) > 0 {
			m["inconclusive"] = x.incon
		}
		if hr.validated+hr.diverged > 0 {
			m["native_validation"] = map[string]interface{}{"agree": hr.validated, "disagree": hr.diverged, "notes": hr.divNotes}
		}
		hs = append(hs, m)
		for i, s := range x.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": x.h.Name, "inputs": s.Inputs, "observed": s.Obs})
		}
		if len(x.samples) == 0 {
			samples = append(samples, map[string]interface{}{"harness": x.h.Name, "paths": x.paths, "note": "schedule-dependent harness; no input samples"})
		}
	}
	sort.Slice(samples, func(i, j int) bool { return fmt.Sprint(samples[i]) < fmt.Sprint(samples[j]) })
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"native_disagreements": diverged,
		"harnesses":            hs, "functions_encoded": sortedKeys(fns),
		"queries": r.solver.queries, "solver_s": r.solver.dur.Seconds(), "solver_unknown": r.solver.unknown,
		"explanation": "states = symbolic paths (each stands for all inputs satisfying its path condition), transitions = branch, choice and scheduling decisions taken on them",
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_counterexamples"] = unconfirmed
	}
	if len(confirmed) > 0 {
		cov["confirmed_violations"] = confirmed
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = sortedKeys(known)
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the go/ssa translation and the engine's instruction semantics (cross-checked on sampled paths by native runs)",
			"SHA-256 is modelled as an uninterpreted function without collisions on symbolic inputs, the real function on concrete inputs",
			"logging has no effect; sync.Pool never returns a used object; time is virtual",
			"all claims are bounded: see bounds and inconclusive per harness",
		},
		"wall_s": time.Since(r.start).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	if err := writeJSON(filepath.Join(*fVerif, "evidence", r.prop+".json"), ev); err != nil {
		fail("%v", err)
	}
}
