package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Atheer-Ganayem/SnapWS"

// Program is the resolved, type-checked program under analysis in SSA form.
type Program struct {
	rolesMemo *Roles
	Pkgs      []*packages.Package
	SSA       *ssa.Program
	Lib       *ssa.Package // the root package snapws
	Funcs     []*ssa.Function
	NFiles    int
	NPkgs     int
	queuedT   []string
	modes     map[string]string
	Facts
}

func buildEnv() {
	set := func(k, v string) { os.Setenv(k, v) }
	root := "/opt/veriftools/go1.24.13"
	if _, err := os.Stat(root + "/bin/go"); err == nil {
		set("PATH", root+"/bin:"+os.Getenv("PATH"))
		set("GOROOT", root)
	}
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("GOWORK", "off")
	set("GOENV", "off")
	set("GOTELEMETRY", "off")
	set("GOFLAGS", "-mod=readonly")
}

func load(dir string) (*Program, error) {
	buildEnv()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir: dir,
		Env: os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Pkgs: pkgs}
	var errs []string
	for _, pk := range pkgs {
		p.NPkgs++
		p.NFiles += len(pk.CompiledGoFiles)
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p.SSA = prog
	for i, sp := range spkgs {
		if sp != nil && pkgs[i].PkgPath == modPath {
			p.Lib = sp
		}
	}
	if p.Lib == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	// every function of the library package, including methods and closures
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Lib.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(prog.FuncValue(n.Method(i)))
			}
		}
	}
	p.sortFuncs()
	p.facts()
	return p, nil
}

func (p *Program) sortFuncs() {
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
}

func isLibPkg(p *types.Package) bool { return p != nil && p.Path() == modPath }

// namedOf returns the named type (origin) behind t, dereferencing one pointer.
func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Origin()
	}
	return nil
}

// libStruct returns the name of the library struct type behind t ("" if none).
func libStruct(t types.Type) string {
	n := namedOf(t)
	if n == nil || !isLibPkg(n.Obj().Pkg()) {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	return n.Obj().Name()
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
