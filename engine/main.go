package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fRepo     = flag.String("repo", "/repo", "repository under test")
	fVerif    = flag.String("verif", "/verif", "verification directory")
	fProp     = flag.String("prop", "", "property id")
	fHarness  = flag.String("harness", "", "only this harness (debug)")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fDebug    = flag.Bool("debug", false, "")
	fBudget   = flag.Duration("budget", 0, "total exploration budget")
	fWorkers  = flag.Int("workers", 8, "")
	fNoReplay = flag.Bool("noreplay", false, "")
	fReplay   = flag.String("replay", "", "run one recorded counterexample against the real code")
)

type harnessDecl struct {
	name, prop, pkg, doc  string
	thorough, noval, fake bool
	budget                time.Duration
	steps, alloc          int64
}

type redirectDecl struct{ from, fn string }

// scanHarnesses reads the directives of one harness package.
func scanHarnesses(dir, pkg string) (hs []harnessDecl, rs []redirectDecl, err error) {
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	files = append(files, included("", dir)...)
	for _, f := range files {
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			var doc []string
			for _, c := range fd.Doc.List {
				t := strings.TrimPrefix(c.Text, "//")
				switch {
				case strings.HasPrefix(t, "verif:harness "):
					h := harnessDecl{name: fd.Name.Name, pkg: pkg}
					for _, w := range strings.Fields(t)[1:] {
						switch {
						case strings.HasPrefix(w, "prop="):
							h.prop = w[5:]
						case w == "thorough":
							h.thorough = true
						case w == "faketime":
							h.fake = true
						case w == "noval":
							h.noval = true
						case strings.HasPrefix(w, "budget="):
							h.budget, _ = time.ParseDuration(w[7:])
						case strings.HasPrefix(w, "steps="): // in millions
							h.steps, _ = strconv.ParseInt(w[6:], 10, 64)
						case strings.HasPrefix(w, "alloc="): // in MiB
							h.alloc, _ = strconv.ParseInt(w[6:], 10, 64)
						}
					}
					h.doc = strings.TrimSpace(strings.Join(doc, " "))
					hs = append(hs, h)
				case strings.HasPrefix(t, "verif:replace "):
					rs = append(rs, redirectDecl{strings.TrimSpace(t[14:]), fd.Name.Name})
				default:
					doc = append(doc, strings.TrimSpace(t))
				}
			}
			for i := range hs {
				if hs[i].name == fd.Name.Name && hs[i].doc == "" {
					hs[i].doc = strings.TrimSpace(strings.Join(doc, " "))
				}
			}
		}
	}
	return hs, rs, nil
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	start := time.Now()
	var rf replayFile
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			fail("%v", err)
		}
		if err := json.Unmarshal(b, &rf); err != nil {
			fail("%v", err)
		}
		*fHarness = rf.Harness
	}
	tier := *fTier
	root := filepath.Join(*fVerif, "harness")
	pkgsDir := filepath.Join(root, "internal", "verifh")
	ents, err := os.ReadDir(pkgsDir)
	if err != nil {
		fail("%v", err)
	}
	type pk struct {
		name string
		hs   []harnessDecl
		rs   []redirectDecl
	}
	var todo []pk
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		hs, rs, err := scanHarnesses(filepath.Join(pkgsDir, e.Name()), e.Name())
		if err != nil {
			fail("%v", err)
		}
		var sel []harnessDecl
		for _, h := range hs {
			if *fHarness != "" && h.name != *fHarness {
				continue
			}
			if *fProp != "" && h.prop != *fProp {
				continue
			}
			if h.thorough && tier != "thorough" && *fHarness == "" {
				continue
			}
			sel = append(sel, h)
		}
		if len(sel) > 0 {
			todo = append(todo, pk{e.Name(), sel, rs})
		}
	}
	if len(todo) == 0 {
		fail("no harness for property %s", *fProp)
	}
	nh := 0
	for _, p := range todo {
		nh += len(p.hs)
	}
	total := *fBudget
	if total == 0 {
		total = 300 * time.Second
		if tier == "thorough" {
			total = 700 * time.Second
		}
	}
	rep := &Report{prop: *fProp, tier: tier, start: start}
	solver := solverStats{}
	hend := time.Now().Add(total)
	left := nh
	tmp, err := os.MkdirTemp("", "verifeng")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(tmp)
	ov, ovPaths, err := overlayFor(*fRepo, root, tmp)
	if err != nil {
		fail("%v", err)
	}
	for _, pkd := range todo {
		// generated main, for both the symbolic load and native builds
		all, _, _ := scanHarnesses(filepath.Join(pkgsDir, pkd.name), pkd.name)
		gen := "package main\n\nimport verifrt \"" + rtPath + "\"\n\nfunc main() {\n\tverifrt.Main(map[string]func(){\n"
		for _, h := range all {
			gen += fmt.Sprintf("\t\t%q: %s,\n", h.name, h.name)
		}
		gen += "\t})\n}\n"
		gf := filepath.Join(tmp, pkd.name+"_main.go")
		if err := os.WriteFile(gf, []byte(gen), 0o644); err != nil {
			fail("%v", err)
		}
		dst := filepath.Join(*fRepo, "internal/verifh", pkd.name, "zz_main.go")
		ov[dst] = []byte(gen)
		ovPaths[dst] = gf
	}
	if *fReplay != "" {
		nat := newNative(ovPaths)
		ok, note := nat.confirm(rf.Violation, &Harness{Name: rf.Harness, Pkg: rf.Pkg, Fake: todo[0].hs[0].fake}, *fReplay)
		nat.clean()
		os.RemoveAll(tmp)
		fmt.Printf("reproduced=%v %s\n", ok, note)
		if ok {
			os.Exit(1)
		}
		os.Exit(0)
	}
	for _, pkd := range todo {
		t0 := time.Now()
		l, err := load(*fRepo, ov, "./internal/verifh/"+pkd.name)
		if err != nil {
			fail("load: %v", err)
		}
		l.prog.Build()
		t1 := time.Now()
		glob, engines, failed := setupEngines(l, *fWorkers, pkd.rs)
		_ = glob
		if *fDebug {
			fmt.Fprintf(os.Stderr, "load %v init %v failed %d\n", t1.Sub(t0), time.Since(t1), len(failed))
			for _, k := range sortedKeys(failed) {
				if failed[k] != "skipped" {
					fmt.Fprintf(os.Stderr, "  init %s: %.300s\n", k, failed[k])
				}
			}
		}
		for _, hd := range pkd.hs {
			fn := l.main.Func(hd.name)
			if fn == nil {
				fail("no function %s", hd.name)
			}
			h := &Harness{Name: hd.name, Prop: hd.prop, Pkg: pkd.name, Doc: hd.doc, NoVal: hd.noval, Fake: hd.fake, Steps: hd.steps, Alloc: hd.alloc, fn: fn, Params: map[string]int{}, tier: tier}
			b := time.Until(hend) / time.Duration(left)
			left--
			if hd.budget > 0 && hd.budget < b {
				b = hd.budget
			}
			if b < 5*time.Second {
				b = 5 * time.Second
			}
			th := time.Now()
			for _, e := range engines {
				e.solver.reset()
			}
			x := explore(engines, h, b, *fDebug)
			var st solverStats
			for _, e := range engines {
				st.add(e.solver)
			}
			solver.merge(st)
			rep.hs = append(rep.hs, &HReport{x: x, st: st, dur: time.Since(th)})
			if *fDebug {
				fmt.Fprintf(os.Stderr, "%s: paths=%d done=%d infeasible=%d violated=%d decisions=%d steps=%d queries=%d (%v) unknown=%d in %v params=%v\n",
					hd.name, x.paths, x.done, x.infeasible, x.violated, x.decisions, x.steps, st.queries, st.dur.Round(time.Millisecond), st.unknown, time.Since(th).Round(time.Millisecond), h.Params)
				for _, k := range sortedKeys(x.incon) {
					fmt.Fprintf(os.Stderr, "  INCONCLUSIVE x%d %s\n", x.incon[k], k)
				}
				for _, k := range sortedKeys(x.viols) {
					v := x.viols[k][0]
					fmt.Fprintf(os.Stderr, "  VIOL %s [%s] known=%q at %s\n", v.Label, v.Kind, v.KnownAs, v.Where)
					fmt.Fprintf(os.Stderr, "       %v\n", fmtInputs(v.Inputs))
				}
				fmt.Fprintf(os.Stderr, "  asserts=%v covers=%v\n", x.asserts, sortedKeys(x.covers))
			}
		}
		for _, e := range engines {
			e.solver.close()
		}
		l = nil
		runtime.GC()
	}
	rep.solver = solver
	code := rep.finish(ovPaths)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func fmtInputs(m map[string]uint64) string {
	var sb strings.Builder
	for i, k := range sortedKeys(m) {
		if i > 60 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%x ", k, m[k])
	}
	return sb.String()
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "verifeng: "+f+"\n", a...)
	os.Exit(3)
}

type solverStats struct {
	queries, sats, unsats, unknown int64
	dur                            time.Duration
}

func (s *solverStats) add(v *Solver) {
	s.queries += v.queries
	s.sats += v.sats
	s.unsats += v.unsats
	s.unknown += v.unknown
	s.dur += v.dur
}

func (s *solverStats) merge(o solverStats) {
	s.queries += o.queries
	s.sats += o.sats
	s.unsats += o.unsats
	s.unknown += o.unknown
	s.dur += o.dur
}

func newEngine(l *Loaded, g *Globals, cfg *Config) *Engine {
	return &Engine{l: l, lay: newLayouts(), code: map[*ssa.Function]*cfn{}, glob: g, cfg: cfg,
		mcache: map[mkey]*ssa.Function{}, impl: map[implKey]bool{}, hasht: nil}
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "os", "syscall", "net", "internal/poll", "internal/cpu",
		"crypto/tls", "crypto/x509", "net/http", "testing", "os/exec", "os/user", "internal/godebugs", "golang.org/x/sys/unix",
		"sync", "internal/sync", "sync/atomic", "internal/reflectlite", "log", "github.com/sirupsen/logrus", "flag", "internal/abi", "golang.org/x/net/http2":
		return true
	}
	if strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "crypto/internal/") && path != "crypto/internal/rand" || strings.HasPrefix(path, "vendor/") && path != "vendor/golang.org/x/net/http/httpguts" {
		return true
	}
	return false
}

func setupEngines(l *Loaded, n int, rs []redirectDecl) (*Globals, []*Engine, map[string]string) {
	g := &Globals{unique: map[string]Ptr{}, objs: map[*ssa.Global]*Obj{}, uninit: map[*Obj]string{}, failed: map[string]string{}, redirect: map[string]*ssa.Function{}}
	cfg := &Config{maxSteps: 20_000_000, maxDepth: 3000, allocLimit: 1 << 20, maxConc: 600, repoPrefix: modPath}
	e0 := newEngine(l, g, cfg)
	e0.cfg = &Config{maxSteps: 200_000_000, maxDepth: 3000, allocLimit: 1 << 40, maxConc: 10}
	var pkgs []*ssa.Package
	for _, p := range l.prog.AllPackages() {
		pkgs = append(pkgs, p)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, p := range pkgs {
		var names []string
		for nm := range p.Members {
			names = append(names, nm)
		}
		sort.Strings(names)
		for _, nm := range names {
			if gl, ok := p.Members[nm].(*ssa.Global); ok {
				z := e0.zeroCells(derefT(gl.Type()))
				c := make([]Value, len(z))
				copy(c, z)
				g.nobj++
				g.objs[gl] = &Obj{cells: c, id: g.nobj, lbl: gl.String(), foreign: !strings.HasPrefix(p.Pkg.Path(), modPath)}
			}
		}
	}
	failed := e0.initPackages(l.main, skipInit)
	g.failed = failed
	for _, r := range rs {
		g.redirect[r.from] = l.main.Func(r.fn)
	}
	var es []*Engine
	for i := 0; i < n; i++ {
		e := newEngine(l, g, cfg)
		s, err := newSolver(20000)
		if err != nil {
			fail("solver: %v", err)
		}
		e.solver = s
		es = append(es, e)
	}
	return g, es, failed
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
