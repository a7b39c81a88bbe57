package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// listPkg is the subset of `go list -json` that the loader needs.
type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, Version, GoVersion string }
}

type loadCfg struct {
	repo     string
	stubs    string // /verif/stubs: <importpath>/*.go replaces the package; EXCLUDE lists dropped files
	overlay  map[string]string
	goBin    string
	patterns []string
	tags     string
}

type loadedPkg struct {
	lp    *listPkg
	files []*ast.File
	pkg   *types.Package
	info  *types.Info
	deps  []string
	stub  bool
	errs  []error
}

type Loader struct {
	cfg   loadCfg
	fset  *token.FileSet
	list  map[string]*listPkg
	pkgs  map[string]*loadedPkg
	order []*loadedPkg
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off")
	return env
}

func (l *Loader) goList() error {
	ov := map[string]map[string]string{"Replace": l.cfg.overlay}
	f, err := os.CreateTemp("", "symgo-overlay-*.json")
	if err != nil {
		return err
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(ov)
	f.Close()
	args := []string{"list", "-deps", "-e", "-overlay", f.Name(), "-json=ImportPath,Dir,GoFiles,ImportMap,Standard,Module"}
	if l.cfg.tags != "" {
		args = append(args, "-tags", l.cfg.tags)
	}
	args = append(args, l.cfg.patterns...)
	cmd := exec.Command(l.cfg.goBin, args...)
	cmd.Dir = l.cfg.repo
	cmd.Env = goEnv()
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	dec := json.NewDecoder(out)
	for dec.More() {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			break
		}
		l.list[p.ImportPath] = p
	}
	if err := cmd.Wait(); err != nil {
		return fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	return nil
}

// Load parses and type-checks everything reachable from the patterns, honouring stubs.
func Load(cfg loadCfg) (*Loader, error) {
	l := &Loader{cfg: cfg, fset: token.NewFileSet(), list: map[string]*listPkg{}, pkgs: map[string]*loadedPkg{}}
	if err := l.goList(); err != nil {
		return nil, err
	}
	// discover reachable packages by parsing (parallel per wave)
	wave := append([]string{}, cfg.patterns...)
	for i := range wave {
		if strings.HasPrefix(wave[i], "./") {
			wave[i] = "github.com/pojntfx/stfs/" + strings.TrimPrefix(wave[i], "./")
		}
	}
	var mu sync.Mutex
	for len(wave) > 0 {
		var wg sync.WaitGroup
		next := map[string]bool{}
		var ferr error
		sem := make(chan bool, runtime.NumCPU())
		for _, ip := range wave {
			mu.Lock()
			_, done := l.pkgs[ip]
			if !done {
				l.pkgs[ip] = nil
			}
			mu.Unlock()
			if done {
				continue
			}
			wg.Add(1)
			sem <- true
			go func(ip string) {
				defer func() { <-sem; wg.Done() }()
				lp, err := l.parsePkg(ip)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					ferr = err
					return
				}
				l.pkgs[ip] = lp
				for _, d := range lp.deps {
					if d != "unsafe" && d != "C" {
						if _, ok := l.pkgs[d]; !ok {
							next[d] = true
						}
					}
				}
			}(ip)
		}
		wg.Wait()
		if ferr != nil {
			return nil, ferr
		}
		wave = wave[:0]
		for d := range next {
			wave = append(wave, d)
		}
		sort.Strings(wave)
	}
	if err := l.typecheck(); err != nil {
		return nil, err
	}
	l.buildSSA()
	return l, nil
}

func (l *Loader) parsePkg(ip string) (*loadedPkg, error) {
	lp := &loadedPkg{lp: l.list[ip]}
	dir := filepath.Join(l.cfg.stubs, ip)
	var files []string
	if st, err := os.Stat(dir); err == nil && st.IsDir() {
		ents, _ := os.ReadDir(dir)
		excl := map[string]bool{}
		hasGo := false
		for _, e := range ents {
			if e.Name() == "EXCLUDE" {
				b, _ := os.ReadFile(filepath.Join(dir, "EXCLUDE"))
				for _, f := range strings.Fields(string(b)) {
					excl[f] = true
				}
			}
			if strings.HasSuffix(e.Name(), ".go") {
				files = append(files, filepath.Join(dir, e.Name()))
				hasGo = true
			}
		}
		if len(excl) > 0 && lp.lp != nil {
			for _, f := range lp.lp.GoFiles {
				if !excl[f] {
					files = append(files, filepath.Join(lp.lp.Dir, f))
				}
			}
			hasGo = true
		}
		lp.stub = hasGo
	}
	if !lp.stub {
		if lp.lp == nil {
			return nil, fmt.Errorf("package %s not listed", ip)
		}
		for _, f := range lp.lp.GoFiles {
			if filepath.IsAbs(f) {
				files = append(files, f)
			} else {
				files = append(files, filepath.Join(lp.lp.Dir, f))
			}
		}
	}
	if lp.lp == nil {
		lp.lp = &listPkg{ImportPath: ip}
	}
	deps := map[string]bool{}
	for _, f := range files {
		real := f
		if r, ok := l.cfg.overlay[f]; ok {
			real = r
		}
		src, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(l.fset, f, src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		lp.files = append(lp.files, af)
		for _, im := range af.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if m, ok := lp.lp.ImportMap[p]; ok {
				p = m
			}
			deps[p] = true
		}
	}
	for d := range deps {
		lp.deps = append(lp.deps, d)
	}
	sort.Strings(lp.deps)
	return lp, nil
}

type impFn func(path string) (*types.Package, error)

func (f impFn) Import(path string) (*types.Package, error) { return f(path) }

func (l *Loader) typecheck() error {
	done := map[string]chan struct{}{}
	for ip := range l.pkgs {
		done[ip] = make(chan struct{})
	}
	var visit func(ip string, st map[string]int) error
	st := map[string]int{}
	visit = func(ip string, st map[string]int) error {
		if ip == "unsafe" || ip == "C" {
			return nil
		}
		if st[ip] == 2 {
			return nil
		}
		if st[ip] == 1 {
			return fmt.Errorf("import cycle at %s", ip)
		}
		st[ip] = 1
		p := l.pkgs[ip]
		for _, d := range p.deps {
			if err := visit(d, st); err != nil {
				return err
			}
		}
		st[ip] = 2
		l.order = append(l.order, p)
		return nil
	}
	var ips []string
	for ip := range l.pkgs {
		ips = append(ips, ip)
	}
	sort.Strings(ips)
	for _, ip := range ips {
		if err := visit(ip, st); err != nil {
			return err
		}
	}
	sizes := types.SizesFor("gc", "amd64")
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, p := range l.order {
		wg.Add(1)
		go func(p *loadedPkg) {
			defer wg.Done()
			ip := p.lp.ImportPath
			defer close(done[ip])
			for _, d := range p.deps {
				if c, ok := done[d]; ok {
					<-c
				}
			}
			sem <- true
			defer func() { <-sem }()
			p.info = &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Instances: map[*ast.Ident]types.Instance{},
				Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
				Scopes: map[ast.Node]*types.Scope{}, FileVersions: map[*ast.File]string{},
			}
			gv := ""
			if p.lp.Module != nil && p.lp.Module.GoVersion != "" {
				gv = "go" + p.lp.Module.GoVersion
			}
			conf := types.Config{
				Sizes:     sizes,
				GoVersion: gv,
				Error:     func(err error) { p.errs = append(p.errs, err) },
				Importer: impFn(func(path string) (*types.Package, error) {
					if path == "unsafe" {
						return types.Unsafe, nil
					}
					if m, ok := p.lp.ImportMap[path]; ok {
						path = m
					}
					q := l.pkgs[path]
					if q == nil || q.pkg == nil {
						return nil, fmt.Errorf("no package %s", path)
					}
					return q.pkg, nil
				}),
			}
			p.pkg, _ = conf.Check(ip, l.fset, p.files, p.info)
		}(p)
	}
	wg.Wait()
	for _, p := range l.order {
		if len(p.errs) > 0 {
			// errors in the standard library or stubs are ours; in the repo they mean it does not compile
			return fmt.Errorf("type errors in %s: %v", p.lp.ImportPath, p.errs[0])
		}
	}
	return nil
}

func (l *Loader) buildSSA() {
	l.Prog = ssa.NewProgram(l.fset, ssa.InstantiateGenerics)
	l.SSA = map[string]*ssa.Package{}
	l.Prog.CreatePackage(types.Unsafe, nil, nil, true)
	for _, p := range l.order {
		l.SSA[p.lp.ImportPath] = l.Prog.CreatePackage(p.pkg, p.files, p.info, true)
	}
}
