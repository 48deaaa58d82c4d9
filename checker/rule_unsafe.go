package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var sizes32 = types.SizesFor("gc", "386")

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func pointerFree(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsNumeric|types.IsBoolean) != 0 && u.Kind() != types.Uintptr
	case *types.Array:
		return pointerFree(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !pointerFree(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// unsafeRule decides C20 for a set of functions: memory is only ever viewed
// as a type of the same size and no stricter alignment, one element at a time.
func unsafeRule(r *ruleResult, rule string, funcs []*ssa.Function, pos func(token.Pos) string) {
	calls := map[*ssa.Function][]*ssa.CallCommon{}
	addrTaken := map[*ssa.Function]bool{}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil {
						calls[t] = append(calls[t], c.Common())
					}
				}
				for i, op := range in.Operands(nil) {
					if t, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().Value == t {
							continue
						}
						addrTaken[t] = true
					}
				}
			}
		}
	}
	// origins of an unsafe.Pointer: the pointer types it was made from
	var origins func(v ssa.Value, seen map[ssa.Value]bool) ([]types.Type, string)
	origins = func(v ssa.Value, seen map[ssa.Value]bool) ([]types.Type, string) {
		if seen[v] {
			return nil, ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Convert:
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				// a pointer into an array or slice element views that element
				return []types.Type{pt.Elem()}, ""
			}
			return nil, "is made from " + x.X.Type().String()
		case *ssa.ChangeType:
			return origins(x.X, seen)
		case *ssa.Phi:
			var out []types.Type
			for _, e := range x.Edges {
				o, why := origins(e, seen)
				if why != "" {
					return nil, why
				}
				out = append(out, o...)
			}
			return out, ""
		case *ssa.Const:
			return nil, "is a constant"
		case *ssa.Parameter:
			f := x.Parent()
			if addrTaken[f] || f.Object() != nil && f.Object().Exported() || f.Parent() != nil || len(calls[f]) == 0 {
				return nil, "comes from an arbitrary caller"
			}
			k := 0
			for i, p := range f.Params {
				if p == x {
					k = i
				}
			}
			var out []types.Type
			for _, c := range calls[f] {
				o, why := origins(c.Args[k], seen)
				if why != "" {
					return nil, why
				}
				out = append(out, o...)
			}
			return out, ""
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || len(f.Blocks) == 0 {
				return nil, "comes from a call"
			}
			var out []types.Type
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					o, why := origins(ret.Results[0], seen)
					if why != "" {
						return nil, why
					}
					out = append(out, o...)
				}
			}
			return out, ""
		}
		return nil, fmt.Sprintf("has an unknown origin (%T)", v)
	}
	for _, f := range funcs {
		r.count("functions", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				r.count("instructions", 1)
				at := pos(in.Pos())
				switch x := in.(type) {
				case *ssa.Convert:
					from, to := x.X.Type(), x.Type()
					switch {
					case isUnsafePtr(from) && isUintptr(to), isUintptr(from) && isUnsafePtr(to):
						r.checked++
						r.fail("C20", rule, at, f.String(), "converts between unsafe.Pointer and uintptr (pointer arithmetic)")
					case isUnsafePtr(from):
						pt, ok := to.Underlying().(*types.Pointer)
						if !ok {
							continue
						}
						r.checked++
						r.count("reinterpretations", 1)
						os, why := origins(x.X, map[ssa.Value]bool{})
						if why == "" && len(os) == 0 {
							why = "has no known origin"
						}
						if why != "" {
							r.fail("C20", rule, at, f.String(), "views memory as %s through a pointer that %s", pt.Elem(), why)
							continue
						}
						for _, o := range os {
							if msg := viewable(o, pt.Elem()); msg != "" {
								r.fail("C20", rule, at, f.String(), "%s", msg)
							}
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "Slice", "String", "StringData", "SliceData", "Add":
							r.checked++
							r.fail("C20", rule, at, f.String(), "uses unsafe.%s (a fabricated header or pointer arithmetic)", bi.Name())
						}
					}
				}
				if v, ok := in.(ssa.Value); ok && mentionsHeader(v.Type(), 0) {
					r.checked++
					r.fail("C20", rule, at, f.String(), "uses a reflect slice or string header")
				}
			}
		}
	}
}

// viewable reports why memory holding an o may not be viewed as a t.
func viewable(o, t types.Type) string {
	if !pointerFree(o) || !pointerFree(t) {
		return fmt.Sprintf("views a %s as a %s, which are not plain numbers", o, t)
	}
	for _, sz := range []types.Sizes{sizes, sizes32} {
		if sz.Sizeof(o) != sz.Sizeof(t) {
			return fmt.Sprintf("views a %s (%d bytes) as a %s (%d bytes)", o, sz.Sizeof(o), t, sz.Sizeof(t))
		}
		if sz.Alignof(t) > sz.Alignof(o) {
			return fmt.Sprintf("views a %s as a %s, which needs a stricter alignment", o, t)
		}
	}
	return ""
}

func mentionsHeader(t types.Type, d int) bool {
	if d > 3 {
		return false
	}
	switch u := t.(type) {
	case *types.Pointer:
		return mentionsHeader(u.Elem(), d+1)
	case *types.Named:
		o := u.Obj()
		return o.Pkg() != nil && o.Pkg().Path() == "reflect" && (o.Name() == "SliceHeader" || o.Name() == "StringHeader")
	}
	return false
}

// ruleUnsafe runs C20 over one version's package.
func ruleUnsafe(p *Program, ver string) *ruleResult {
	r := &ruleResult{}
	rule := ver + "/reinterpretation"
	unsafeRule(r, rule, p.ownFuncs(), p.pos)
	for _, f := range p.mpkg.OtherFiles {
		if strings.HasSuffix(f, ".s") || strings.HasSuffix(f, ".c") {
			r.fail("C20", rule, f, "", "the package contains non-Go code")
		}
	}
	for _, f := range p.mpkg.Syntax {
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				r.fail("C20", rule, p.pos(im.Pos()), "", "the package uses cgo")
			}
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:linkname") {
					r.fail("C20", rule, p.pos(c.Pos()), "", "the package links to another package's internals")
				}
			}
		}
	}
	r.notes = append(r.notes, fmt.Sprintf("%s: %d functions, %d reinterpretations", ver, r.analysed["functions"], r.analysed["reinterpretations"]))
	return r
}

// unsafeSelfTest checks that the rule still fires on each construct it rules
// out, and not on the accepted one.
func unsafeSelfTest() string {
	src := `package p
import "unsafe"
func good(d []float32, i int) uint32 { return *(*uint32)(unsafe.Pointer(&d[i])) }
func bad1(d []float32, i int) uint64 { return *(*uint64)(unsafe.Pointer(&d[i])) }
func bad2(d []byte, i int) *byte { return (*byte)(unsafe.Pointer(uintptr(unsafe.Pointer(&d[0])) + uintptr(i))) }
func bad3(d []float32, n int) []uint32 { return unsafe.Slice((*uint32)(unsafe.Pointer(&d[0])), n) }
func bad4(d [4]byte) uint32 { return *(*uint32)(unsafe.Pointer(&d)) }
`
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "p.go", src, 0)
	if err != nil {
		return err.Error()
	}
	pkg, _, err := ssautil.BuildPackage(&types.Config{Importer: unsafeOnly{}}, fset, types.NewPackage("p", "p"), []*ast.File{f}, ssa.InstantiateGenerics)
	if err != nil {
		return err.Error()
	}
	for n, want := range map[string]bool{"good": false, "bad1": true, "bad2": true, "bad3": true, "bad4": true} {
		r := &ruleResult{}
		unsafeRule(r, "selftest", []*ssa.Function{pkg.Func(n)}, func(token.Pos) string { return "" })
		if (len(r.viol) > 0) != want {
			return "the rule misjudges " + n
		}
	}
	return ""
}

type unsafeOnly struct{}

func (unsafeOnly) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}
