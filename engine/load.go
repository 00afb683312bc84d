package main

// Loading /repo's current source (plus overlaid harnesses) into SSA.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var interpStd = map[string]bool{
	"errors": true, "io": true, "bufio": true, "bytes": true, "strings": true, "sort": true,
	"unicode/utf8": true, "math/bits": true, "internal/stringslite": true, "internal/bytealg": true,
	"slices": true, "cmp": true, "math": true, "strconv": true, "internal/strconv": true,
	"sync/atomic": true, "path/filepath": true, "internal/filepathlite": true, "path": true,
}

// buildOverlay maps harness files into /repo. Files of package dir p live in
// harness/<p>/; names start with zz_verif_.
func buildOverlay(repo, hdir string, pkgs []string) map[string]string {
	m := map[string]string{}
	add := func(sub, dst string) {
		es, err := os.ReadDir(filepath.Join(hdir, sub))
		if err != nil {
			return
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				m[filepath.Join(repo, dst, "zz_verif_"+e.Name())] = filepath.Join(hdir, sub, e.Name())
			}
		}
	}
	add("vsym", "internal/vsym")
	add("vmodel", "internal/vmodel")
	for _, p := range pkgs {
		if _, err := os.Stat(filepath.Join(hdir, "ext", p)); err == nil {
			add("ext/"+p, "internal/vh/"+p)
			continue
		}
		d := p
		if p == "root" {
			d = "."
		}
		add("pkg/"+strings.ReplaceAll(p, "/", "_"), d)
	}
	return m
}

// mainSource is the generated command that pulls all harness packages in.
func (s *Setup) mainSource() string {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"" + vsymPkg + "\"\n\t_ \"" + modelPkg + "\"\n")
	for _, p := range s.pkgs {
		ip := s.importPath(p)
		sb.WriteString("\t_ \"" + ip + "\"\n")
	}
	sb.WriteString(")\n\nfunc main() {\n\tf := vsym.Lookup(os.Args[1])\n\tif f == nil {\n\t\tprintln(\"no such harness\")\n\t\tos.Exit(45)\n\t}\n\tf()\n\tvsym.Done()\n}\n")
	return sb.String()
}

type Setup struct {
	repo    string
	overlay map[string]string // dst -> src
	ovJSON  string
	work    string
	hdir    string
	pkgs    []string
}

func newSetup(repo, hdir, work string, pkgs []string) (*Setup, error) {
	s := &Setup{repo: repo, hdir: hdir, work: work, pkgs: pkgs}
	s.overlay = buildOverlay(repo, hdir, pkgs)
	os.MkdirAll(work, 0o755)
	mp := filepath.Join(work, "main.go.txt")
	if err := os.WriteFile(mp, []byte(s.mainSource()), 0o644); err != nil {
		return nil, err
	}
	s.overlay[filepath.Join(repo, "internal/vsymmain/main.go")] = mp
	if err := s.commands(); err != nil {
		return nil, err
	}
	b, _ := json.Marshal(map[string]any{"Replace": s.overlay})
	s.ovJSON = filepath.Join(work, "overlay.json")
	return s, os.WriteFile(s.ovJSON, b, 0o644)
}

// commands makes packages out of the commands which harness package cli calls:
// copies of their current source with another package name.
func (s *Setup) commands() error {
	has := false
	for _, p := range s.pkgs {
		has = has || p == "cli"
	}
	if !has {
		return nil
	}
	dir := filepath.Join(s.repo, "cmd/gini")
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	put := func(name string, src []byte) error {
		f := filepath.Join(s.work, "cli_"+name+".txt")
		s.overlay[filepath.Join(s.repo, "internal/vh/clicmd", "zz_verif_"+name)] = f
		return os.WriteFile(f, src, 0o644)
	}
	re := regexp.MustCompile(`(?m)^package main\b`)
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		if err := put(n, re.ReplaceAll(b, []byte("package clicmd"))); err != nil {
			return err
		}
	}
	return put("verifshim.go", []byte("package clicmd\n\n// Main is the command.\nfunc Main() { main() }\n"))
}

func (s *Setup) load() (*Prog, error) {
	ov := map[string][]byte{}
	for dst, src := range s.overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     s.repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "CGO_ENABLED=0", "GO111MODULE=on"),
	}
	pk, err := packages.Load(cfg, modPath+"/internal/vsymmain")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("source does not type-check with the harness: %s", strings.Join(errs, "; "))
	}
	sp, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	p := &Prog{prog: sp, pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{},
		fset: sp.Fset, interp: map[string]bool{}, itab: map[itabKey]*Fn{}}
	for _, q := range sp.AllPackages() {
		path := q.Pkg.Path()
		p.pkgs[path] = q
		if strings.HasPrefix(path, modPath) || interpStd[path] {
			p.interp[path] = true
		}
	}
	for path, q := range p.pkgs {
		if p.interp[path] {
			q.Build()
		}
	}
	rtErrType = types.NewNamed(types.NewTypeName(0, nil, "runtime.Error", nil), types.Typ[types.String], nil)
	return p, nil
}

// initialise runs the package initialisers concretely.
func (p *Prog) initialise(mainPath string, bin string) error {
	j := &Job{prog: p, harness: "init", maxSteps: 50_000_000, maxAlloc: 1 << 24, workers: 1, ifconv: false, params: map[string]int{}}
	j.reach = map[string]int64{}
	j.incompl = map[string]int64{}
	w := &Worker{job: j}
	st := &State{id: newStateID(), wk: w, model: newModel(), nextID: 1}
	for _, q := range p.prog.AllPackages() {
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := deref(g.Type())
				var o *Obj
				if p.interp[q.Pkg.Path()] {
					lay := layoutOf(t)
					o = st.alloc(lay.size(), lay, g.String())
				} else {
					o = st.allocGlobalStub(t, g.String())
				}
				p.globals[g] = o
			}
		}
	}
	g := &Goro{id: 0}
	st.gs = []*Goro{g}
	mp := p.pkgs[mainPath]
	fn := p.fnOf(mp.Func("init"))
	p.resolve(fn)
	st.pushFrame(g, fn, nil, nil, -1, false)
	st.run()
	if st.flag != fEnd {
		return fmt.Errorf("package initialisation: %s", st.endWhy)
	}
	p.initSt = st
	return nil
}

func (st *State) allocGlobalStub(t types.Type, name string) (o *Obj) {
	defer func() {
		if recover() != nil {
			o = st.alloc(1, nil, name)
		}
	}()
	lay := layoutOf(t)
	n := lay.size()
	if n > 4096 {
		n = 1
	}
	return st.alloc(n, lay, name)
}

func (p *Prog) harnessFn(s *Setup, name string) *Fn {
	i := strings.LastIndex(name, ".")
	pk := p.pkgs[s.importPath(name[:i])]
	if pk == nil {
		return nil
	}
	f := pk.Func(name[i+1:])
	if f == nil {
		return nil
	}
	fn := p.fnOf(f)
	p.resolve(fn)
	return fn
}

func (p *Prog) stubsUsed() map[string]bool {
	m := map[string]bool{}
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, f := range p.fns {
		if f.resolved && !f.isInit && (f.intr != nil || f.redirect != nil) && !strings.HasPrefix(f.name, vsymPkg) && !strings.HasPrefix(f.name, modelPkg) {
			m[f.name] = true
		}
	}
	return m
}
