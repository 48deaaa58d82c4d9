package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is one loaded module with its SSA form.
type Program struct {
	dir   string
	name  string
	fset  *token.FileSet
	pkgs  []*packages.Package
	prog  *ssa.Program
	main  *ssa.Package
	mpkg  *packages.Package
	root  string
	mu    sync.Mutex
	built map[*ssa.Package]bool
	asg   map[*ssa.Global]bool
	watch map[ssa.Instruction]uint // instructions whose execution is recorded
}

// loadProgram type-checks the package in dir (and its dependencies) from source.
func loadProgram(root, dir, name string) (*Program, error) {
	p := &Program{dir: dir, name: name, root: root, fset: token.NewFileSet(), built: map[*ssa.Package]bool{}}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Fset: p.fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOARCH="+goarch, "GOOS=linux", "CGO_ENABLED=0", "GOWORK=off", "GOSUMDB=off"),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	p.pkgs = pkgs
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages in %s", len(pkgs), dir)
	}
	for _, e := range pkgs[0].Errors {
		return nil, fmt.Errorf("%s", e)
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	p.main = sp[0]
	p.mpkg = pkgs[0]
	if p.main == nil {
		return nil, fmt.Errorf("no SSA package for %s", dir)
	}
	for _, q := range prog.AllPackages() {
		if q == p.main || inlinePkgs[q.Pkg.Path()] {
			p.build(q)
		}
	}
	return p, nil
}

func (p *Program) build(pkg *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
}

func (p *Program) ownPkg(pkg *ssa.Package) bool { return pkg == p.main }

// pure standard packages whose source is analysed in place
var inlinePkgs = map[string]bool{
	"encoding/binary": true, "math/bits": true, "math": true, "slices": true, "bytes": true,
	"internal/byteorder": true, "cmp": true, "unsafe": true, "errors": true, "sort": true, "maps": true,
}

func (p *Program) inlinable(fn *ssa.Function) bool {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil {
		// synthetic wrappers, bound methods, closures of shared helpers
		if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") {
			return true // forwards to one method, which is judged by itself
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg() == p.main.Pkg || inlinePkgs[o.Pkg().Path()]
		}
		return fn.Synthetic != ""
	}
	return pkg == p.main || inlinePkgs[pkg.Pkg.Path()]
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// assigned reports whether package-level variable g is stored to (or its
// address escapes) anywhere outside package initialisation.
func (p *Program) assigned(g *ssa.Global) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.asg == nil {
		p.asg = map[*ssa.Global]bool{}
		for fn := range ssautil.AllFunctions(p.prog) {
			if fn.Pkg != p.main && !(fn.Pkg == nil && fn.Synthetic == "") {
				continue
			}
			if fn.Synthetic == "package initializer" || fn.Name() == "init" && fn.Synthetic != "" || fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init#") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.X == gl {
							continue
						}
						if v, ok := in.(ssa.Value); ok && onlyLoaded(v, gl, 0) {
							continue
						}
						p.asg[gl] = true
					}
				}
			}
		}
	}
	return p.asg[g]
}

// onlyLoaded reports whether v is the address of a part of what base points to
// and is used for nothing but loading.
func onlyLoaded(v ssa.Value, base ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if x.X != base {
			return false
		}
	case *ssa.IndexAddr:
		if x.X != base {
			return false
		}
	default:
		return false
	}
	if d > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !onlyLoaded(r.(ssa.Value), v, d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ownFn reports whether f belongs to the analysed package (closures included).
func (p *Program) ownFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.Pkg == p.main
}

// ownFuncs lists every function of the analysed package, in source order.
func (p *Program) ownFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if p.ownFn(f) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}
