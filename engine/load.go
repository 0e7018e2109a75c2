package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vulpemventures/neutrino-elements"

// Loaded is the SSA program for one harness package.
type Loaded struct {
	prog *ssa.Program
	fset *token.FileSet
	main *ssa.Package
	pkgs map[string]*ssa.Package
}

// included lists the files named in a package's include file: files of other harness packages, and the
// sources of a command of the repository (repo:DIR), which is laid into the harness package as it is,
// with its main function renamed to programMain.
func included(repo, dir string) []string {
	b, err := os.ReadFile(filepath.Join(dir, "include"))
	if err != nil {
		return nil
	}
	var out []string
	for _, f := range strings.Fields(string(b)) {
		if strings.HasPrefix(f, "sub:") || strings.HasPrefix(f, "type:") || strings.HasPrefix(f, "text:") {
			continue
		}
		if d := strings.TrimPrefix(f, "repo:"); d != f {
			if repo == "" {
				continue
			}
			fs, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
			for _, f := range fs {
				if !strings.HasSuffix(f, "_test.go") {
					out = append(out, f)
				}
			}
			continue
		}
		out = append(out, filepath.Join(dir, f))
	}
	return out
}

// substitutions are the calls of a command's sources that are redirected to the harness (sub:FUNC=FUNC),
// natively as well as symbolically; type:TYPE=TYPE does the same to a type
// and text:NAME=GLOB gives the harness the contents of the repository's files as a variable.
func substitutions(dir, prefix string) (out [][2]string) {
	b, _ := os.ReadFile(filepath.Join(dir, "include"))
	for _, f := range strings.Fields(string(b)) {
		if d := strings.TrimPrefix(f, prefix); d != f {
			if i := strings.Index(d, "="); i > 0 {
				out = append(out, [2]string{d[:i], d[i+1:]})
			}
		}
	}
	return
}

var packageClause = regexp.MustCompile(`(?m)^package \w+`)

var mainFunc = regexp.MustCompile(`(?m)^func main\(\)`)

// overlayFor builds the overlay map: every file below harness root is laid over repo.
func overlayFor(repo, harness, tmp string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	paths := map[string]string{}
	err := filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			for _, f := range included(repo, p) {
				b, err := os.ReadFile(f)
				if err != nil {
					return err
				}
				rel, _ := filepath.Rel(harness, p)
				dst := filepath.Join(repo, rel, "in_"+filepath.Base(filepath.Dir(f))+"_"+filepath.Base(f))
				if strings.HasPrefix(f, repo+string(filepath.Separator)) {
					b = mainFunc.ReplaceAll(b, []byte("func programMain()"))
					b = packageClause.ReplaceAll(b, []byte("package main"))
					for _, r := range substitutions(p, "type:") {
						re := regexp.MustCompile(`\b` + regexp.QuoteMeta(r[0]) + `\b`)
						if re.Match(b) {
							b = append(re.ReplaceAll(b, []byte(r[1])), ("\nvar _ " + r[0] + "\n")...)
						}
					}
					for _, r := range substitutions(p, "sub:") {
						if o := string(b); strings.Contains(o, r[0]+"(") {
							b = []byte(strings.ReplaceAll(o, r[0]+"(", r[1]+"(") + "\nvar _ = " + r[0] + "\n")
						}
					}
					dst = filepath.Join(repo, rel, "cmd_"+filepath.Base(f))
					f = filepath.Join(tmp, "cmd_"+filepath.Base(p)+"_"+filepath.Base(f))
					if err := os.WriteFile(f, b, 0o644); err != nil {
						return err
					}
				}
				ov[dst] = b
				paths[dst] = f
			}
			for _, t := range substitutions(p, "text:") {
				src := "package main\n\nvar " + t[0] + " = []string{\n"
				fs, _ := filepath.Glob(filepath.Join(repo, t[1]))
				sort.Strings(fs)
				for _, f := range fs {
					b, err := os.ReadFile(f)
					if err != nil {
						return err
					}
					src += strconv.Quote(string(b)) + ",\n"
				}
				src += "}\n"
				rel, _ := filepath.Rel(harness, p)
				dst := filepath.Join(repo, rel, "text_"+t[0]+".go")
				f := filepath.Join(tmp, "text_"+filepath.Base(p)+"_"+t[0]+".go")
				if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
					return err
				}
				ov[dst] = []byte(src)
				paths[dst] = f
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, rel)
		ov[dst] = b
		paths[dst] = p
		return nil
	})
	return ov, paths, err
}

func load(repo string, ov map[string][]byte, pattern string) (*Loaded, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Fset:       fset,
		Overlay:    ov,
		Env:        append(os.Environ(), "CGO_ENABLED=0"),
		BuildFlags: []string{"-tags=purego,math_big_pure_go"},
	}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, initial := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	l := &Loaded{prog: prog, fset: fset, main: initial[0], pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		l.pkgs[p.Pkg.Path()] = p
	}
	return l, nil
}
