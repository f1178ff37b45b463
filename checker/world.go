package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/woven-planet/go-zserio"

// World is the loaded program: the repository's packages and, on demand, the
// code the repository's generator emits for the schema corpus.
type World struct {
	mod        *modref
	globalRefs map[*ssa.Global][]ssa.Instruction
	Repo       string
	Verif      string
	Scratch    string
	Fset       *token.FileSet

	Pkgs   map[string]*packages.Package // by import path
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package
	AllFns []*ssa.Function // every function with a body in the repo's own packages

	Gen      []*packages.Package // generated packages
	GenSSA   map[string]*ssa.Package
	GenFns   []*ssa.Function
	genPaths []string
	GenFails map[string]string // corpus entry -> generator error output

	static map[string][2]any // runtime array traits variables -> how they write
}

func (w *World) env(gowork string) []string {
	// The toolchain the repository is built with; exec.LookPath and the go
	// list driver both use the process environment.
	if _, err := os.Stat("/opt/veriftools/go1.24.13/bin/go"); err == nil {
		if !strings.HasPrefix(os.Getenv("PATH"), "/opt/veriftools/go1.24.13/bin:") {
			os.Setenv("PATH", "/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"))
		}
		os.Setenv("GOROOT", "/opt/veriftools/go1.24.13")
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	for k, v := range map[string]string{"GOWORK": gowork, "GOFLAGS": "", "GOPROXY": "off", "GOTOOLCHAIN": "local", "CGO_ENABLED": "0", "GOENV": "off"} {
		os.Setenv(k, v)
	}
	return os.Environ()
}

func inParser(path string) bool { return strings.HasSuffix(path, "/internal/parser") }

// LoadWorld type-checks the repository's current sources and builds SSA.
// Patterns name the repository packages; withGen also generates and loads the
// schema corpus (a build step, the same one build.sh performs).
func LoadWorld(repo, verif string, gen bool) (*World, error) {
	w := &World{Repo: repo, Verif: verif, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, GenSSA: map[string]*ssa.Package{}, GenFails: map[string]string{}}
	var err error
	w.Scratch, err = os.MkdirTemp("", "zsv-")
	if err != nil {
		return nil, err
	}
	gowork := "off"
	patterns := []string{modPath, modPath + "/zstream", modPath + "/ztype", modPath + "/internal/...", modPath + "/cmd/..."}
	if gen {
		gowork, err = w.generateCorpus()
		if err != nil {
			return w, err
		}
		// wildcards skip directories called testdata, so list them one by one
		patterns = append(patterns, w.genPaths...)
	}
	w.Fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Fset: w.Fset,
		Env:  w.env(gowork),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return w, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, "gen/") {
				continue // reported by the property that decides buildability
			}
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return w, errors.New("repository does not type-check: " + strings.Join(errs, "; "))
	}
	var good []*packages.Package
	for _, p := range pkgs {
		if len(p.Errors) == 0 {
			good = append(good, p)
		} else {
			w.Gen = append(w.Gen, p) // keep for the report; no SSA
		}
	}
	prog, sp := ssautil.Packages(good, ssa.BuilderMode(0))
	prog.Build()
	w.Prog = prog
	for i, p := range good {
		if strings.HasPrefix(p.PkgPath, "gen/") {
			w.Gen = append(w.Gen, p)
			w.GenSSA[p.PkgPath] = sp[i]
			continue
		}
		w.Pkgs[p.PkgPath] = p
		w.SSA[p.PkgPath] = sp[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "package initializer") {
			continue
		}
		pk := fnPkg(fn)
		if pk == nil {
			continue
		}
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		if _, ok := w.Pkgs[pk.Path()]; ok {
			w.AllFns = append(w.AllFns, fn)
		} else if strings.HasPrefix(pk.Path(), "gen/") {
			w.GenFns = append(w.GenFns, fn)
		}
	}
	// AllFunctions only reaches what is referenced; add every declared member.
	seen := map[*ssa.Function]bool{}
	for _, f := range append(append([]*ssa.Function{}, w.AllFns...), w.GenFns...) {
		seen[f] = true
	}
	var addFn func(f *ssa.Function, gen bool)
	addFn = func(f *ssa.Function, gen bool) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		if !seen[f] {
			seen[f] = true
			if gen {
				w.GenFns = append(w.GenFns, f)
			} else {
				w.AllFns = append(w.AllFns, f)
			}
		}
		for _, a := range f.AnonFuncs {
			addFn(a, gen)
		}
	}
	each := func(p *packages.Package, gen bool) {
		for _, obj := range p.TypesInfo.Defs {
			if fo, ok := obj.(*types.Func); ok {
				addFn(prog.FuncValue(fo), gen)
			}
		}
	}
	for _, p := range w.Pkgs {
		each(p, false)
	}
	for _, p := range w.Gen {
		if len(p.Errors) == 0 {
			each(p, true)
		}
	}
	srt := func(fs []*ssa.Function) {
		sort.Slice(fs, func(i, j int) bool {
			if a, b := fs[i].String(), fs[j].String(); a != b {
				return a < b
			}
			return fs[i].Pos() < fs[j].Pos()
		})
	}
	srt(w.AllFns)
	srt(w.GenFns)
	sort.Slice(w.Gen, func(i, j int) bool { return w.Gen[i].PkgPath < w.Gen[j].PkgPath })
	return w, nil
}

func (w *World) Close() {
	if w == nil {
		return
	}
	if os.Getenv("ZSV_KEEP") != "" {
		fmt.Println("scratch", w.Scratch)
		return
	}
	if w != nil && w.Scratch != "" && strings.Contains(w.Scratch, "zsv-") {
		_ = os.RemoveAll(w.Scratch)
	}
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	return nil
}

// short renders a function name without the module path.
func short(fn *ssa.Function) string {
	return strings.NewReplacer(modPath+"/internal/", "", modPath+"/", "", modPath+".", "zserio.", modPath, "zserio", "gen/", "gen/").Replace(fn.String())
}

// FnsIn lists the repository functions of the given packages (paths relative
// to the module; "" is the root package).
func (w *World) FnsIn(rel ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, r := range rel {
		if r == "" {
			want[modPath] = true
		} else {
			want[modPath+"/"+r] = true
		}
	}
	var out []*ssa.Function
	for _, f := range w.AllFns {
		if p := fnPkg(f); p != nil && want[p.Path()] {
			out = append(out, f)
		}
	}
	return out
}

func run(dir string, env []string, stdout *bytes.Buffer, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = env
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if stdout != nil {
		cmd.Stdout = stdout
	} else {
		cmd.Stdout = &eb
	}
	err := cmd.Run()
	return eb.String(), err
}

type corpusEntry struct {
	root, pkg string
	files     []string // relative to Repo, or absolute
	witness   bool
}

func (w *World) corpus() ([]corpusEntry, error) {
	var out []corpusEntry
	zs, _ := filepath.Glob(filepath.Join(w.Repo, "testdata", "*.zs"))
	sort.Strings(zs)
	for _, f := range zs {
		b := strings.TrimSuffix(filepath.Base(f), ".zs")
		out = append(out, corpusEntry{"gen/testdata", b, []string{"testdata/" + b + ".zs"}, false})
	}
	var refs []string
	_ = filepath.Walk(filepath.Join(w.Repo, "testdata", "reference_modules"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".zs") {
			r, _ := filepath.Rel(w.Repo, p)
			refs = append(refs, r)
		}
		return nil
	})
	sort.Strings(refs)
	for _, d := range []string{"core.types", "core.instantiations", "testobject1.testobject"} {
		out = append(out, corpusEntry{"gen/github.com/woven-planet/go-zserio/testdata", "reference_modules." + d, refs, false})
	}
	ts, _ := filepath.Glob(filepath.Join(w.Repo, "test", "reference", "*", "schema.zs"))
	sort.Strings(ts)
	for _, f := range ts {
		d := filepath.Base(filepath.Dir(f))
		out = append(out, corpusEntry{"gen/github.com/woven-planet/go-zserio/testdata", d + ".schema", []string{"test/reference/" + d + "/schema.zs"}, false})
	}
	ws, _ := filepath.Glob(filepath.Join(w.Verif, "schemas", "*.zs"))
	sort.Strings(ws)
	for _, f := range ws {
		b := strings.TrimSuffix(filepath.Base(f), ".zs")
		out = append(out, corpusEntry{"gen/witness", b, []string{f}, true})
	}
	// a directory holds the packages of one schema
	ds, _ := filepath.Glob(filepath.Join(w.Verif, "schemas", "*", "*.zs"))
	sort.Strings(ds)
	byDir := map[string][]string{}
	for _, f := range ds {
		byDir[filepath.Dir(f)] = append(byDir[filepath.Dir(f)], f)
	}
	for _, f := range ds {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		name, _, _ := strings.Cut(strings.TrimPrefix(string(b), "package "), ";")
		out = append(out, corpusEntry{"gen/witness", name, byDir[filepath.Dir(f)], true})
	}
	if len(out) < 10 {
		return nil, fmt.Errorf("schema corpus too small: %d entries", len(out))
	}
	return out, nil
}

// generateCorpus builds cmd/go-zserio from the working tree and runs it over
// the corpus into the scratch directory.
func (w *World) generateCorpus() (string, error) {
	gendir := filepath.Join(w.Scratch, "gen")
	if err := os.MkdirAll(gendir, 0o755); err != nil {
		return "", err
	}
	goVersion := "1.24.4"
	if b, err := os.ReadFile(filepath.Join(w.Repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
				goVersion = f[1]
			}
		}
	}
	if err := os.WriteFile(filepath.Join(gendir, "go.mod"), []byte("module gen\n\ngo "+goVersion+"\n"), 0o644); err != nil {
		return "", err
	}
	gowork := filepath.Join(w.Scratch, "go.work")
	if err := os.WriteFile(gowork, []byte("go "+goVersion+"\n\nuse (\n\t"+w.Repo+"\n\t./gen\n)\n"), 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(w.Scratch, "go-zserio")
	env := w.env(gowork)
	if out, err := run(w.Repo, env, nil, "go", "build", "-o", bin, "./cmd/go-zserio"); err != nil {
		return "", fmt.Errorf("build of cmd/go-zserio failed: %v: %s", err, out)
	}
	entries, err := w.corpus()
	if err != nil {
		return "", err
	}
	type res struct {
		e   corpusEntry
		out string
		err error
	}
	ch := make(chan res, len(entries))
	sem := make(chan struct{}, 8)
	for _, e := range entries {
		go func(e corpusEntry) {
			sem <- struct{}{}
			defer func() { <-sem }()
			args := append([]string{"generate", "--out", "-", "--rootpackage", e.root, "--only", e.pkg, "--sql"}, e.files...)
			var ob bytes.Buffer
			msg, err := run(w.Repo, env, &ob, bin, args...)
			if err == nil {
				dir := filepath.Join(append([]string{w.Scratch}, append(strings.Split(e.root, "/"), strings.Split(strings.ToLower(e.pkg), ".")...)...)...)
				if err = os.MkdirAll(dir, 0o755); err == nil {
					err = os.WriteFile(filepath.Join(dir, "schema.zs.go"), ob.Bytes(), 0o644)
				}
			}
			ch <- res{e, msg, err}
		}(e)
	}
	defer func() { sort.Strings(w.genPaths) }()
	for range entries {
		r := <-ch
		if r.err == nil {
			w.genPaths = append(w.genPaths, r.e.root+"/"+strings.ReplaceAll(strings.ToLower(r.e.pkg), ".", "/"))
		}
		if r.err != nil {
			w.GenFails[r.e.root+" "+r.e.pkg] = fmt.Sprintf("%v: %s", r.err, strings.TrimSpace(r.out))
		}
	}
	return gowork, nil
}
