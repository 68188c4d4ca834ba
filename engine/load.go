package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/adamcolton/parlex"

type setup struct {
	repo, harness string
	overlay       map[string]string // virtual file -> real file
	modfile       string
}

// newSetup lays the harness packages over /repo/zzverif.
func newSetup(repo, harness string) (*setup, error) {
	s := &setup{repo: repo, harness: harness, overlay: map[string]string{}, modfile: "/opt/vp/mod/go.mod"}
	b, err := os.ReadFile("/opt/vp/mod/overlay.json")
	if err != nil {
		return nil, err
	}
	var ov struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &ov); err != nil {
		return nil, err
	}
	for k, v := range ov.Replace {
		if v != "" {
			s.overlay[filepath.Join(repo, strings.TrimPrefix(k, "/repo"))] = v
		}
	}
	err = filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, p)
		s.overlay[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return s, err
}

func (s *setup) env() []string {
	var e []string
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "GOFLAGS=") {
			e = append(e, v)
		}
	}
	return append(e, "GO111MODULE=on", "GOFLAGS=", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

// harnesses lists the exported functions of a harness package whose name starts with H.
func harnesses(dir string) ([]string, error) {
	fs := token.NewFileSet()
	ps, err := parser.ParseDir(fs, dir, nil, 0)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H") && len(fd.Type.Params.List) == 0 {
					names = append(names, fd.Name.Name)
				}
			}
		}
	}
	sort.Strings(names)
	return names, nil
}

// load type-checks the harness package and everything it needs from the
// current tree and builds SSA.
func (s *setup) load(pkg string) (*Program, *ssa.Package, error) {
	ov := map[string][]byte{}
	for k, v := range s.overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: s.repo, Overlay: ov,
		BuildFlags: []string{"-modfile=" + s.modfile, "-mod=readonly"}, Env: s.env()}
	ps, err := packages.Load(cfg, modPath+"/zzverif/"+pkg)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{ssa: prog, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{}, impl: map[implKey]bool{}, repoPfx: modPath,
		sizes: types.SizesFor("gc", "amd64")}
	ep := prog.ImportedPackage("errors")
	if ep == nil {
		return nil, nil, fmt.Errorf("package errors not loaded")
	}
	p.errorStr = types.NewPointer(ep.Pkg.Scope().Lookup("errorString").Type())
	return p, pkgs[0], nil
}
