package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const ohPath = "github.com/michaelmacinnis/oh"
const zzPath = ohPath + "/internal/zzverif"

// embedVar is a //go:embed string variable and its contents.
type embedVar struct {
	g *ssa.Global
	s string
}

var embeds []embedVar

var inited = map[string]bool{
	"errors": false, "io": true, "strconv": true, "strings": true, "bytes": true,
	"bufio": true, "sort": true, "math": true, "math/bits": true, "path": true,
	"io/fs": true, "path/filepath": true, "internal/filepathlite": true, "slices": true, "regexp": true,
	"regexp/syntax": true, "unicode": true, "unicode/utf8": true,
	"internal/oserror": true, "internal/stringslite": true, "cmp": true, "maps": true,
	"internal/bytealg": false, "math/big": true, "container/list": true, "context": true,
	"unicode/utf16": true, "iter": true, "github.com/peterh/liner": true,
}

func allowPkg(path string) bool {
	if strings.HasPrefix(path, ohPath) || strings.HasPrefix(path, "github.com/michaelmacinnis/") || strings.HasPrefix(path, "github.com/docopt/") {
		return true
	}
	return inited[path]
}

// load type-checks the program rooted at the given patterns (with harness
// files laid over the repository) and builds its SSA form.
func load(repo string, overlay map[string][]byte, patterns []string, tags string) (*Program, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, fmt.Sprintf("%s: %s", p.PkgPath, e))
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, globals: map[*ssa.Global]int32{}, models: map[string]*ssa.Function{}}
	P = p
	p.intr = intrinsics()

	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, ohPath) {
			return
		}
		sp := prog.Package(pk.Types)
		if sp == nil {
			return
		}
		for i, f := range pk.Syntax {
			_ = i
			findEmbeds(p, pk, sp, f, overlay)
			if strings.HasPrefix(pk.PkgPath, zzPath) {
				findReplacements(p, sp, f)
			}
		}
	})
	sx := p.pkg(sxPath)
	if sx == nil {
		return nil, nil, fmt.Errorf("harness support package not loaded")
	}
	sx.Build()
	rt := sx.Type("RuntimeError")
	p.rtErr = rt.Type()
	p.loadModels(sx)
	return p, pkgs, nil
}

func (p *Program) pkg(path string) *ssa.Package { return p.prog.ImportedPackage(path) }

// loadModels registers replacement bodies: a function Model_x_y_Name of the
// support package replaces x/y.Name, and MModel_x_y_T_Name replaces method
// (*x/y.T).Name.
func (p *Program) loadModels(sx *ssa.Package) {
	for name, m := range sx.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		if s, ok := strings.CutPrefix(name, "Model_"); ok {
			i := strings.LastIndex(s, "_")
			p.models[strings.ReplaceAll(s[:i], "_", "/")+"."+s[i+1:]] = f
		}
		if s, ok := strings.CutPrefix(name, "MModel_"); ok {
			i := strings.LastIndex(s, "_")
			j := strings.LastIndex(s[:i], "_")
			p.models["(*"+strings.ReplaceAll(s[:j], "_", "/")+"."+s[j+1:i]+")."+s[i+1:]] = f
		}
	}
}

// findReplacements registers functions marked "sx:replace NAME".
func findReplacements(p *Program, sp *ssa.Package, f *ast.File) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil || fd.Recv != nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if name, ok := strings.CutPrefix(c.Text, "//sx:replace "); ok {
				if fn := sp.Func(fd.Name.Name); fn != nil {
					p.models[strings.TrimSpace(name)] = fn
				}
			}
		}
	}
}

func findEmbeds(p *Program, pk *packages.Package, sp *ssa.Package, f *ast.File, overlay map[string][]byte) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range gd.Specs {
			vs, ok := s.(*ast.ValueSpec)
			if !ok || len(vs.Names) != 1 {
				continue
			}
			doc := vs.Doc
			if doc == nil {
				doc = gd.Doc
			}
			if doc == nil {
				continue
			}
			for _, c := range doc.List {
				rest, ok := strings.CutPrefix(c.Text, "//go:embed ")
				if !ok {
					continue
				}
				dir := filepath.Dir(pk.Fset.Position(f.Pos()).Filename)
				path := filepath.Join(dir, strings.TrimSpace(rest))
				b, ok := overlay[path]
				if !ok {
					b, _ = os.ReadFile(path)
				}
				g := sp.Var(vs.Names[0].Name)
				if g != nil {
					if bt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
						embeds = append(embeds, embedVar{g, string(b)})
					}
				}
			}
		}
	}
}

func (w *Worker) setEmbeds() {
	for _, e := range embeds {
		*w.global(P.globalIdx(e.g)) = e.s
	}
}
