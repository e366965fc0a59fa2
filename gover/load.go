package main

// Loading /repo's current source (plus the contract overlay) and building SSA.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath  = "github.com/Foxcapades/lib-go-raml/v0"
	pkgRaml  = modPath + "/pkg/raml"
	pkgInt   = modPath + "/internal/raml"
	pkgBuild = modPath + "/pkg/raml/rbuild"
	pkgParse = modPath + "/pkg/raml/rparse"
	pkgVC    = modPath + "/internal/vc"
	pkgXyml  = "github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	pkgGomp  = "github.com/Foxcapades/gomp/v1/pkg/gomp"
	pkgOpt   = "github.com/Foxcapades/goop/v1/pkg/option"
	pkgYaml  = "gopkg.in/yaml.v3"
)

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	tps  map[string]*types.Package
}

var repoDir = "/repo"

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOSUMDB=off")
	return env
}

type loadErrs []packages.Error

func (l loadErrs) Error() string {
	var errs []string
	for _, e := range l {
		errs = append(errs, e.Error())
	}
	sort.Strings(errs)
	if len(errs) > 12 {
		errs = errs[:12]
	}
	return strings.Join(errs, "\n")
}

// loadFitting loads the source with the contracts that type-check against it.
// A contract (or a helper of contracts) the source no longer fits is blanked
// out; the contracts lost that way are returned with the reason.
func loadFitting(overlay map[string][]byte) (*Program, map[string]string, error) {
	lost := map[string]string{}
	for round := 0; ; round++ {
		p, err := load(overlay, false)
		errs, ok := err.(loadErrs)
		if err == nil || !ok || round > 20 {
			return p, lost, err
		}
		changed := false
		for _, e := range errs {
			parts := strings.Split(e.Pos, ":")
			if len(parts) < 2 {
				continue
			}
			src, mine := overlay[parts[0]]
			if !mine {
				continue
			}
			line, _ := strconv.Atoi(parts[1])
			if out, name := blank(parts[0], src, line); out != nil {
				overlay[parts[0]] = out
				changed = true
				if strings.HasPrefix(name, "VcC") {
					lost[name] = e.Error()
				}
			}
		}
		if !changed {
			return p, lost, err
		}
	}
}

// blank removes the declaration (or import) at a line of a contract file.
func blank(file string, src []byte, line int) ([]byte, string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		return nil, ""
	}
	wipe := func(n ast.Node) []byte {
		out := append([]byte{}, src...)
		for i := fs.Position(n.Pos()).Offset; i < fs.Position(n.End()).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		return out
	}
	within := func(n ast.Node) bool {
		return fs.Position(n.Pos()).Line <= line && line <= fs.Position(n.End()).Line
	}
	for _, d := range f.Decls {
		if !within(d) {
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			return wipe(d), d.Name.Name
		case *ast.GenDecl:
			if d.Lparen.IsValid() {
				for _, s := range d.Specs {
					if within(s) {
						return wipe(s), ""
					}
				}
			}
			return wipe(d), ""
		}
	}
	return nil, ""
}

// load type-checks the repository (all packages its contracts mention) with
// the given overlay and builds SSA for it and for the dependency packages that
// are executed rather than modelled.
func load(overlay map[string][]byte, typesOnly bool) (*Program, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	cfg := &packages.Config{Mode: mode, Dir: repoDir, Env: goEnv(), Overlay: overlay}
	pats := []string{"./v0/pkg/...", "./v0/internal/...", pkgXyml, pkgGomp, pkgOpt}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs loadErrs
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e)
		}
	})
	if len(errs) > 0 {
		return nil, errs
	}
	out := &Program{pkgs: map[string]*ssa.Package{}, tps: map[string]*types.Package{}}
	packages.Visit(ps, nil, func(p *packages.Package) { out.tps[p.PkgPath] = p.Types })
	if typesOnly {
		return out, nil
	}
	prog, _ := ssautil.AllPackages(ps, 0)
	out.prog = prog
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		out.pkgs[path] = p
		if strings.HasPrefix(path, modPath) || path == pkgXyml || path == pkgGomp || path == pkgOpt || path == "errors" || path == "strings" {
			p.Build()
		}
	}
	return out, nil
}
