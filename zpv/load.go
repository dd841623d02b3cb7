package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the type-checked program with its SSA form.
type Loaded struct {
	dir   string
	mod   string
	fset  *token.FileSet
	pkgs  map[string]*packages.Package
	prog  *ssa.Program
	ssa   map[string]*ssa.Package
	loops map[*ssa.Function]map[*ssa.BasicBlock]*Loop
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func load(dir string, overlay map[string][]byte) (*Loaded, error) {
	ld := &Loaded{dir: dir, fset: token.NewFileSet(), pkgs: map[string]*packages.Package{}, ssa: map[string]*ssa.Package{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedDeps | packages.NeedModule | packages.NeedExportFile | packages.NeedTypesSizes,
		Dir: dir, Fset: ld.fset, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		ld.pkgs[p.PkgPath] = p
		if p.Module != nil && p.Module.Main {
			ld.mod = p.Module.Path
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		ld.ssa[pkgs[i].PkgPath] = p
	}
	prog.Build()
	ld.prog = prog
	return ld, nil
}

func (ld *Loaded) isRepo(p *ssa.Package) bool {
	return p != nil && ld.ssa[p.Pkg.Path()] != nil
}

func (ld *Loaded) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ld.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(ld.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func (ld *Loaded) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	m, ok := ld.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*Loop{}
		for _, t := range fn.Blocks {
			for _, h := range t.Succs {
				if !h.Dominates(t) {
					continue
				}
				lp := m[h]
				if lp == nil {
					lp = &Loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
					m[h] = lp
				}
				work := []*ssa.BasicBlock{t}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
		ld.loops[fn] = m
	}
	return m[b]
}

// inLoop reports whether the block is part of a loop.
func (ld *Loaded) inLoop(fn *ssa.Function, b *ssa.BasicBlock) bool {
	ld.loopAt(fn, b)
	for _, lp := range ld.loops[fn] {
		if lp.body[b] {
			return true
		}
	}
	return false
}
