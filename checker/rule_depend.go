package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// depRule decides C31: the text generated for a template is a function of
// that template alone. It computes the backward slice of everything stored as
// a template's text (data and control dependences, through calls, closures,
// cells and objects), and requires that the slice contains nothing that
// differs between runs and no state that one template's round leaves for
// another's.
type depRule struct {
	p *Program
	g *genRule
	r *ruleResult

	fns     []*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	extCall map[*ssa.Function][]ssa.CallInstruction // handed to outside code here
	makes   map[*ssa.Function][]*ssa.MakeClosure
	infos   map[*ssa.Function]*fnInfo
	par     map[ssa.Value]ssa.Value // object classes
	muts    []mutation
	loops   []*ckLoop
	headIf  map[*ssa.BasicBlock]bool
	mapPar  map[ssa.Value]ssa.Value // classes of maps from strings to texts
	private map[ssa.Value]bool      // ... whose keys are taken from texts: not the template set
	stored  []*ssa.MapUpdate        // where a template's text is stored

	vals    map[ssa.Value]bool
	blks    map[*ssa.BasicBlock]bool
	classes map[ssa.Value]bool
	queue   []ssa.Value
}

// mutation is an instruction that changes the object base points into.
type mutation struct {
	in   ssa.Instruction
	base ssa.Value
}

// ckLoop is a loop whose rounds must not depend on each other.
type ckLoop struct {
	l     *loop
	fn    *ssa.Function
	next  *ssa.Next // over a map
	reach map[*ssa.Function]bool
	what  string
}

const depID = "generation/text"

func newDepRule(p *Program) *depRule {
	d := &depRule{p: p, r: &ruleResult{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, extCall: map[*ssa.Function][]ssa.CallInstruction{},
		makes: map[*ssa.Function][]*ssa.MakeClosure{}, infos: map[*ssa.Function]*fnInfo{}, par: map[ssa.Value]ssa.Value{}, headIf: map[*ssa.BasicBlock]bool{},
		mapPar: map[ssa.Value]ssa.Value{}, private: map[ssa.Value]bool{}, vals: map[ssa.Value]bool{}, blks: map[*ssa.BasicBlock]bool{}, classes: map[ssa.Value]bool{}}
	d.g = &genRule{p: p, r: &ruleResult{}, visited: map[ssa.Instruction]bool{}, loops: map[*ssa.Next]*frame{}}
	d.g.se = &strEval{own: p.ownFn}
	d.g.se.leaf = d.g.leaf
	return d
}

func ruleDepends(p *Program) *ruleResult {
	d := newDepRule(p)
	guardRule(d.r, "C31", depID, d.run)
	return d.r
}

func (d *depRule) bad(in ssa.Instruction, format string, a ...interface{}) {
	pos, fn := "?", ""
	if in != nil && in.Parent() != nil {
		fn = in.Parent().String()
		pos = d.p.pos(in.Pos())
		if !in.Pos().IsValid() {
			pos = d.p.pos(in.Parent().Pos())
			for _, b := range in.Block().Instrs {
				if b.Pos().IsValid() {
					pos = d.p.pos(b.Pos())
					break
				}
			}
		}
	}
	d.r.fail("C31", depID, pos, fn, format, a...)
}

// what may differ between two runs over the same templates
var ambient = map[string]bool{
	"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.ExpandEnv": true, "os.Getpid": true, "os.Getppid": true, "os.Hostname": true,
	"os.Getwd": true, "os.Executable": true, "os.UserHomeDir": true, "os.UserCacheDir": true, "os.UserConfigDir": true, "os.Getuid": true, "os.Geteuid": true,
	"os.Getgid": true, "os.TempDir": true, "os.CreateTemp": true, "os.MkdirTemp": true, "maps.Keys": false,
}

var ambientPkgs = map[string]bool{
	"time": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "runtime": true, "runtime/debug": true, "os/user": true,
	"hash/maphash": true, "net": true, "os/exec": true, "testing": true, "expvar": true, "unique": true,
}

// outside functions that change nothing they are given
var pureCalls = map[string]bool{
	"fmt": true, "strings": true, "strconv": true, "regexp": true, "errors": true, "unicode": true, "unicode/utf8": true, "path": true,
	"path/filepath": true, "bytes": true, "math": true, "math/bits": true, "flag": true, "os": true, "io/ioutil": true, "io/fs": true, "go/token": true, "log": true,
}

func (d *depRule) isPure(cm *ssa.CallCommon) bool {
	if cm.IsInvoke() {
		switch cm.Method.Name() {
		case "Error", "String", "Name", "Size", "Mode", "IsDir", "ModTime", "Sys", "Info", "Type", "GoString":
			return true
		}
		return false
	}
	f := cm.StaticCallee()
	if f == nil {
		return false
	}
	n := calleeName(cm)
	pkg := pkgOf(f)
	if strings.HasPrefix(n, "fmt.F") || strings.HasPrefix(n, "fmt.Append") || strings.HasPrefix(n, "(*bytes.") || strings.HasPrefix(n, "(*strings.Builder") || strings.HasPrefix(n, "(*strings.Reader") || strings.HasPrefix(n, "(*log.Logger)") {
		return false
	}
	return pureCalls[pkg]
}

func pkgOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func pointerLike(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return false // errors do not change
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike(u.At(i).Type()) {
				return true
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	}
	return false
}

func (d *depRule) info(f *ssa.Function) *fnInfo {
	if d.infos[f] == nil {
		d.infos[f] = analyzeCFG(f)
	}
	return d.infos[f]
}

func (d *depRule) find(v ssa.Value) ssa.Value {
	for d.par[v] != nil && d.par[v] != v {
		v = d.par[v]
	}
	return v
}

func (d *depRule) union(a, b ssa.Value) {
	if a == nil || b == nil || !pointerLike(a.Type()) || !pointerLike(b.Type()) {
		return
	}
	for _, v := range []ssa.Value{a, b} {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
			return
		}
		if d.tmap(v) {
			return
		}
	}
	x, y := d.find(a), d.find(b)
	if x != y {
		d.par[x] = y
	}
}

// callees lists the own functions a call may run.
func (d *depRule) callees(cm *ssa.CallCommon) []*ssa.Function {
	if cm.IsInvoke() {
		var out []*ssa.Function
		for _, f := range d.fns {
			if f.Signature.Recv() != nil && f.Name() == cm.Method.Name() {
				out = append(out, f)
			}
		}
		return out
	}
	if f := cm.StaticCallee(); f != nil {
		if d.p.ownFn(f) && len(f.Blocks) > 0 {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := cm.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range d.fns {
		if types.Identical(f.Signature, cm.Signature()) {
			out = append(out, f)
		}
	}
	return out
}

// literals lists the own functions among a call's arguments.
func (d *depRule) literals(cm *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	for _, a := range cm.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		v := d.g.se.resolve(fval{a, nil}).v
		switch f := v.(type) {
		case *ssa.Function:
			if d.p.ownFn(f) && len(f.Blocks) > 0 {
				out = append(out, f)
			}
		case *ssa.MakeClosure:
			out = append(out, f.Fn.(*ssa.Function))
		case *ssa.Const:
		default:
			for _, f := range d.fns {
				if types.Identical(f.Signature, a.Type().Underlying()) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func returnsOf(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// prepare collects the generator's functions, objects, maps and loops.
func (d *depRule) prepare() bool {
	main := d.p.main.Func("main")
	if main == nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !d.p.ownFn(f) {
			return
		}
		seen[f] = true
		d.fns = append(d.fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if t, ok := (*op).(*ssa.Function); ok {
						visit(t)
					}
				}
				if m, ok := in.(*ssa.MakeInterface); ok {
					ms := d.p.prog.MethodSets.MethodSet(m.X.Type())
					for i := 0; i < ms.Len(); i++ {
						visit(d.p.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	visit(main)
	visit(d.p.main.Func("init"))
	d.indexMaps()
	d.index()
	d.findLoops()
	return true
}

func (d *depRule) run() {
	if !d.prepare() {
		d.bad(nil, "the generator has no main function")
		return
	}
	// what is stored as a template's text
	sinks := 0
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if d.tmap(x.Map) && !d.g.localConstMap(x.Map) {
						sinks++
						d.stored = append(d.stored, x)
						d.want(x.Value)
						d.wantBlock(b)
					}
				case ssa.CallInstruction:
					cm := x.Common()
					switch n := calleeName(cm); n {
					case "(*os.File).Write", "(*os.File).WriteString", "os.WriteFile", "io/ioutil.WriteFile", "io.WriteString":
						if n == "io.WriteString" && !isFileType(cm.Args[0]) {
							continue
						}
						sinks++
						d.want(cm.Args[1])
					}
				}
			}
		}
	}
	if sinks == 0 {
		d.bad(nil, "nothing that is stored as a template's text was found")
		return
	}
	for {
		for len(d.queue) > 0 {
			v := d.queue[len(d.queue)-1]
			d.queue = d.queue[:len(d.queue)-1]
			d.expand(v)
		}
		n := len(d.vals) + len(d.blks)
		for _, m := range d.muts {
			if d.classes[d.find(m.base)] {
				d.wantInstr(m.in)
			}
		}
		if len(d.queue) == 0 && n == len(d.vals)+len(d.blks) {
			break
		}
	}
	d.judge()
	d.r.count("functions", len(d.fns))
	d.r.count("values in the slice", len(d.vals))
	d.r.notes = append(d.r.notes, fmt.Sprintf("generation: text stored at %d places; slice of %d values and %d blocks; %d loops over templates or maps; %d mutations", sinks, len(d.vals), len(d.blks), len(d.loops), len(d.muts)))
}

func isFileType(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	p, ok := v.Type().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "File" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os"
}

/* ---- template maps ---- */

// tmap reports whether v is a set of templates: a map from names to texts.
func (d *depRule) tmap(v ssa.Value) bool {
	return isTemplateMap(v.Type()) && !d.private[d.mapFind(v)]
}

func (d *depRule) mapFind(v ssa.Value) ssa.Value {
	for d.mapPar[v] != nil && d.mapPar[v] != v {
		v = d.mapPar[v]
	}
	return v
}

// indexMaps groups the values that may hold the same map from strings to
// texts, and finds those groups whose keys all come from texts.
func (d *depRule) indexMaps() {
	isMap := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		t := v.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return isTemplateMap(t)
	}
	union := func(a, b ssa.Value) {
		if !isMap(a) || !isMap(b) {
			return
		}
		if _, ok := b.(*ssa.Const); ok {
			return
		}
		x, y := d.mapFind(a), d.mapFind(b)
		if x != y {
			d.mapPar[x] = y
		}
	}
	type fieldKey struct {
		t types.Type
		i int
	}
	fields := map[fieldKey]ssa.Value{}
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						union(x, e)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						union(x, x.X)
					}
				case *ssa.Store:
					union(x.Addr, x.Val)
				case *ssa.ChangeType:
					union(x, x.X)
				case *ssa.FieldAddr:
					k := fieldKey{x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field}
					if o := fields[k]; o != nil {
						union(x, o)
					}
					fields[k] = x
				case *ssa.Field:
					k := fieldKey{x.X.Type(), x.Field}
					if o := fields[k]; o != nil {
						union(x, o)
					}
					fields[k] = x
				case *ssa.MakeClosure:
					fn := x.Fn.(*ssa.Function)
					for i, bd := range x.Bindings {
						union(fn.FreeVars[i], bd)
					}
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); ok {
						for _, cf := range d.callees(&c.Call) {
							for _, r := range returnsOf(cf) {
								if x.Index < len(r.Results) {
									union(x, r.Results[x.Index])
								}
							}
						}
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				val, _ := in.(ssa.Value)
				fs := d.callees(cm)
				for _, cf := range fs {
					args := cm.Args
					if cm.IsInvoke() {
						args = append([]ssa.Value{cm.Value}, args...)
					}
					for i, a := range args {
						if i < len(cf.Params) {
							union(cf.Params[i], a)
						}
					}
					for _, r := range returnsOf(cf) {
						for _, v := range r.Results {
							union(val, v)
						}
					}
				}
				if len(fs) == 0 { // outside code may hand on any of them
					for _, a := range cm.Args {
						union(val, a)
						union(cm.Args[0], a)
					}
				}
			}
		}
	}
	textual := map[ssa.Value]bool{}
	named := map[ssa.Value]bool{}
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && isTemplateMap(u.Map.Type()) {
					k := d.mapFind(u.Map)
					if d.fromText(u.Key) {
						textual[k] = true
					} else {
						named[k] = true
					}
				}
			}
		}
	}
	for k := range textual {
		if !named[k] {
			d.private[k] = true
		}
	}
}

// fromText reports whether a string is taken from a template's text: every
// variable part of it comes from bytes or from a match in bytes.
func (d *depRule) fromText(k ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	found := false
	var w func(v ssa.Value) bool
	w = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !w(e) {
					return false
				}
			}
			return true
		case *ssa.Convert:
			if s, ok := x.X.Type().Underlying().(*types.Slice); ok && isBytesOrString(s) {
				found = true
				return true
			}
			return w(x.X)
		case *ssa.BinOp:
			return w(x.X) && w(x.Y)
		case *ssa.MakeInterface:
			return w(x.X)
		case *ssa.Slice:
			return w(x.X)
		case *ssa.IndexAddr:
			return w(x.X)
		case *ssa.Index:
			return w(x.X)
		case *ssa.Lookup: // a table: constant texts chosen by a text
			return w(x.Index) && d.g.localConstMap(x.X)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch u := r.(type) {
				case *ssa.Store:
					if u.Addr == x && !w(u.Val) {
						return false
					}
				case *ssa.IndexAddr:
					for _, r2 := range *u.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == u && !w(st.Val) {
							return false
						}
					}
				}
			}
			return true
		case *ssa.FreeVar:
			for _, f := range d.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						m, ok := in.(*ssa.MakeClosure)
						if !ok || m.Fn != x.Parent() {
							continue
						}
						for i, fv := range x.Parent().FreeVars {
							if fv == x && !w(m.Bindings[i]) {
								return false
							}
						}
					}
				}
			}
			return true
		case *ssa.UnOp:
			return x.Op == token.MUL && w(x.X)
		case *ssa.Extract:
			return w(x.Tuple)
		case *ssa.Parameter:
			if s, ok := x.Type().Underlying().(*types.Slice); ok && isBytesOrString(s) {
				found = true
				return true
			}
			ok := false
			for _, f := range d.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						c, isCall := in.(ssa.CallInstruction)
						if !isCall {
							continue
						}
						for _, cf := range d.callees(c.Common()) {
							for i, p := range cf.Params {
								if cf != x.Parent() || p != x || c.Common().IsInvoke() || i >= len(c.Common().Args) {
									continue
								}
								if !w(c.Common().Args[i]) {
									return false
								}
								ok = true
							}
						}
					}
				}
			}
			return ok
		case *ssa.Call:
			n := calleeName(&x.Call)
			if strings.HasPrefix(n, "(*regexp.Regexp).") {
				found = true
				return true
			}
			if strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "fmt.S") {
				for _, a := range x.Call.Args {
					if !w(a) {
						return false
					}
				}
				return true
			}
			if f := x.Call.StaticCallee(); f != nil && d.p.ownFn(f) {
				for _, r := range returnsOf(f) {
					for _, v := range r.Results {
						if !w(v) {
							return false
						}
					}
				}
				return len(f.Blocks) > 0
			}
			return false
		}
		return false
	}
	return w(k) && found
}

// index builds callers, object classes and mutations.
func (d *depRule) index() {
	mut := func(in ssa.Instruction, base ssa.Value) {
		d.muts = append(d.muts, mutation{in, base})
	}
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					d.union(x, x.X)
				case *ssa.IndexAddr:
					d.union(x, x.X)
				case *ssa.Field:
					d.union(x, x.X)
				case *ssa.Index:
					d.union(x, x.X)
				case *ssa.Slice:
					d.union(x, x.X)
				case *ssa.Phi:
					for _, e := range x.Edges {
						d.union(x, e)
					}
				case *ssa.Convert:
					d.union(x, x.X)
				case *ssa.ChangeType:
					d.union(x, x.X)
				case *ssa.ChangeInterface:
					d.union(x, x.X)
				case *ssa.MakeInterface:
					d.union(x, x.X)
				case *ssa.TypeAssert:
					d.union(x, x.X)
				case *ssa.SliceToArrayPointer:
					d.union(x, x.X)
				case *ssa.Extract:
					if _, ok := x.Tuple.(*ssa.Next); !ok {
						if _, ok := x.Tuple.(*ssa.Lookup); !ok {
							d.union(x, x.Tuple)
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						d.union(x, x.X)
					}
				case *ssa.Store:
					d.union(x.Addr, x.Val)
					mut(x, x.Addr)
				case *ssa.MapUpdate:
					if !d.tmap(x.Map) {
						d.union(x.Map, x.Value)
						d.union(x.Map, x.Key)
						mut(x, x.Map)
					}
				case *ssa.Lookup:
					if !d.tmap(x.X) {
						d.union(x, x.X)
					}
				case *ssa.Send:
					mut(x, x.Chan)
				case *ssa.MakeClosure:
					fn := x.Fn.(*ssa.Function)
					d.makes[fn] = append(d.makes[fn], x)
					for i, bd := range x.Bindings {
						d.union(fn.FreeVars[i], bd)
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				val, _ := in.(ssa.Value)
				if bi, ok := cm.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						d.union(val, cm.Args[0])
						if len(cm.Args) > 1 {
							mut(in, cm.Args[0])
							if pointerLikeElem(cm.Args[1].Type()) {
								d.union(val, cm.Args[1])
							}
						}
					case "copy", "delete", "clear":
						if !d.tmap(cm.Args[0]) {
							mut(in, cm.Args[0])
						}
					}
					continue
				}
				if fs := d.callees(cm); len(fs) > 0 {
					for _, cf := range fs {
						d.callers[cf] = append(d.callers[cf], c)
						args := cm.Args
						if cm.IsInvoke() {
							args = append([]ssa.Value{cm.Value}, args...)
						}
						for i, a := range args {
							if i < len(cf.Params) {
								d.union(cf.Params[i], a)
							}
						}
						if val != nil {
							for _, r := range returnsOf(cf) {
								for _, v := range r.Results {
									d.union(val, v)
								}
							}
						}
					}
					continue
				}
				// outside code
				lits := d.literals(cm)
				args := cm.Args
				if cm.IsInvoke() {
					args = append([]ssa.Value{cm.Value}, args...)
				}
				pure := d.isPure(cm) || toConsole(cm)
				for _, lf := range lits {
					d.extCall[lf] = append(d.extCall[lf], c)
					for _, p := range lf.Params {
						for _, a := range args {
							d.union(p, a)
						}
					}
				}
				for _, a := range args {
					if !pointerLike(a.Type()) {
						continue
					}
					if _, ok := a.Type().Underlying().(*types.Signature); ok {
						continue
					}
					if val != nil && pointerLike(val.Type()) && (!pure || aliases(calleeName(cm))) {
						d.union(val, a)
					}
					if !pure {
						d.union(a, args[0])
						mut(in, a)
					}
				}
			}
		}
	}
}

// toConsole reports whether a call prints on standard output or standard error.
func toConsole(cm *ssa.CallCommon) bool {
	if !strings.HasPrefix(calleeName(cm), "fmt.F") || len(cm.Args) == 0 {
		return false
	}
	v := cm.Args[0]
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
}

// pure functions whose result shares memory with what they are given
func aliases(n string) bool {
	switch {
	case n == "io/ioutil.NopCloser", strings.HasPrefix(n, "bytes.Trim"), strings.HasPrefix(n, "bytes.Fields"), strings.HasPrefix(n, "bytes.Split"),
		strings.HasPrefix(n, "bytes.Cut"), strings.HasPrefix(n, "bytes.New"):
		return true
	}
	return false
}

// outside functions that hand out memory of their own making
func makesOwn(n string) bool {
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch n {
	case "io.ReadAll", "io/ioutil.ReadAll", "slices.Clone", "maps.Clone", "slices.Concat", "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).ReadString":
		return true
	}
	return false
}

func pointerLikeElem(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && pointerLike(s.Elem())
}

/* ---- loops ---- */

func (d *depRule) findLoops() {
	for _, f := range d.fns {
		fi := d.info(f)
		for _, b := range f.Blocks {
			l := fi.loops[b]
			if l == nil {
				continue
			}
			c := &ckLoop{l: l, fn: f, reach: d.reachOf(l)}
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
					c.next = nx
					c.what = "the order in which a map is gone through"
					if rg, ok := nx.Iter.(*ssa.Range); ok && d.tmap(rg.X) {
						c.what = "the templates handled before"
					}
				}
			}
			if c.next == nil {
				in := d.takesUp(c)
				if in == nil {
					continue
				}
				c.what = "the templates handled before"
			}
			d.loops = append(d.loops, c)
			d.headIf[b] = true
		}
	}
}

// reachOf lists the own functions run from inside a loop.
func (d *depRule) reachOf(l *loop) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	scan := func(b *ssa.BasicBlock) {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, f := range d.callees(c.Common()) {
				visit(f)
			}
			for _, f := range d.literals(c.Common()) {
				visit(f)
			}
		}
	}
	visit = func(f *ssa.Function) {
		if out[f] {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			scan(b)
		}
	}
	for b := range l.blocks {
		scan(b)
	}
	return out
}

func (c *ckLoop) inside(in ssa.Instruction) bool {
	if in.Parent() == c.fn {
		return c.l.blocks[in.Block()]
	}
	return c.reach[in.Parent()]
}

// takesUp reports an update, made in the loop, of a template's text whose name
// is determined in the loop.
func (d *depRule) takesUp(c *ckLoop) ssa.Instruction {
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if ok && d.tmap(u.Map) && !d.g.localConstMap(u.Map) && c.inside(u) && d.ownKey(c, u.Key) {
					return u
				}
			}
		}
	}
	return nil
}

// ownKey reports whether a name is determined inside the loop's round.
func (d *depRule) ownKey(c *ckLoop, k ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value) bool
	w = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		v = d.g.se.resolve(fval{v, nil}).v
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return false
		case *ssa.Parameter:
			ok := false
			for i, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, cs := range d.callers[x.Parent()] {
					a := cs.Common().Args
					if !c.inside(cs) || i >= len(a) {
						continue
					}
					if !w(a[i]) {
						return false
					}
					ok = true
				}
				if len(d.extCall[x.Parent()]) > 0 {
					ok = true
				}
			}
			return ok
		case *ssa.FreeVar:
			for _, m := range d.makes[x.Parent()] {
				for i, fv := range x.Parent().FreeVars {
					if fv == x && !w(m.Bindings[i]) {
						return false
					}
				}
			}
			return len(d.makes[x.Parent()]) > 0
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al := cellOf(x.X, d); al != nil {
					sts := allStores(al)
					for _, st := range sts {
						if c.inside(st) && !w(st.Val) {
							return false
						}
					}
					for _, st := range sts {
						if c.inside(st) {
							return true
						}
					}
					return false
				}
			}
			return c.inside(x)
		case *ssa.Phi:
			return c.inside(x) && x.Block() != c.l.head
		case ssa.Instruction:
			return c.inside(x)
		}
		return false
	}
	return w(k)
}

// cellOf is the local variable an address denotes.
func cellOf(a ssa.Value, d *depRule) *ssa.Alloc {
	switch x := a.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		ms := d.makes[x.Parent()]
		if len(ms) == 0 {
			return nil
		}
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				return cellOf(ms[0].Bindings[i], d)
			}
		}
	}
	return nil
}

/* ---- the slice ---- */

func (d *depRule) want(v ssa.Value) {
	if v == nil || d.vals[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	d.vals[v] = true
	d.queue = append(d.queue, v)
	if pointerLike(v.Type()) && !d.tmap(v) {
		d.classes[d.find(v)] = true
	}
}

// wantInstr takes in a mutation.
func (d *depRule) wantInstr(in ssa.Instruction) {
	d.wantBlock(in.Block())
	if v, ok := in.(ssa.Value); ok {
		d.want(v)
		return
	}
	switch x := in.(type) {
	case *ssa.Store:
		d.want(x.Val)
		d.wantAddr(x.Addr)
		return
	case ssa.CallInstruction: // go, defer
		d.wantCall(x, nil)
		return
	}
	for _, op := range in.Operands(nil) {
		d.want(*op)
	}
}

// wantAddr takes in what decides which cell an address denotes.
func (d *depRule) wantAddr(a ssa.Value) {
	switch x := a.(type) {
	case *ssa.IndexAddr:
		d.want(x.X)
		d.wantIndex(x, x.Index)
	case *ssa.FieldAddr:
		d.wantAddr(x.X)
	default:
		d.want(a)
	}
}

// wantIndex takes in an index, unless it is the position of the element a
// checked loop is at, which stands for the element itself.
func (d *depRule) wantIndex(at ssa.Instruction, i ssa.Value) {
	for _, c := range d.loops {
		if c.fn == at.Parent() && c.l.blocks[at.Block()] && d.position(c, i) {
			return
		}
	}
	d.want(i)
}

// position reports whether i is the loop's own counter.
func (d *depRule) position(c *ckLoop, i ssa.Value) bool {
	for n := 0; n < 4; n++ {
		switch x := i.(type) {
		case *ssa.Phi:
			return x.Block() == c.l.head
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); !ok || x.Op != token.ADD {
				return false
			}
			i = x.X
		case *ssa.Convert:
			i = x.X
		default:
			return false
		}
	}
	return false
}

// wantBlock takes in what decides whether block b runs.
func (d *depRule) wantBlock(b *ssa.BasicBlock) {
	if d.blks[b] {
		return
	}
	d.blks[b] = true
	f := b.Parent()
	fi := d.info(f)
	pdoms := func(a, x *ssa.BasicBlock) bool { // a postdominates x
		for n := 0; x != nil && n <= len(f.Blocks); n++ {
			if x == a {
				return true
			}
			x = fi.ipdom[x]
		}
		return false
	}
	for _, p := range f.Blocks {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || d.headIf[p] {
			continue
		}
		dep := false
		for _, s := range p.Succs {
			if pdoms(b, s) && !(p != b && pdoms(b, p)) {
				dep = true
			}
		}
		if dep {
			d.want(iff.Cond)
			d.wantBlock(p)
		}
	}
	for _, c := range d.callers[f] {
		d.wantBlock(c.Block())
	}
	for _, c := range d.extCall[f] {
		d.wantBlock(c.Block())
	}
}

func (d *depRule) wantCall(c ssa.CallInstruction, v ssa.Value) {
	cm := c.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" && d.tmap(cm.Args[0]) {
			d.bad(c, "a template's text depends on how many templates there are")
		}
		for _, a := range cm.Args {
			d.want(a)
		}
		return
	}
	fs := d.callees(cm)
	if len(fs) > 0 {
		if cm.StaticCallee() == nil {
			d.want(cm.Value)
		}
		for _, f := range fs {
			for _, r := range returnsOf(f) {
				for _, x := range r.Results {
					d.want(x)
				}
				d.wantBlock(r.Block())
			}
		}
		return
	}
	// outside code: the result depends on all it is given
	if f := cm.StaticCallee(); f != nil {
		n := calleeName(cm)
		if ambient[n] || ambientPkgs[pkgOf(f)] {
			d.bad(c, "a template's text depends on %s, which differs from run to run", n)
		}
	}
	if cm.IsInvoke() {
		d.want(cm.Value)
	}
	for _, a := range cm.Args {
		d.want(a)
	}
	for _, f := range d.literals(cm) {
		for _, r := range returnsOf(f) {
			for _, x := range r.Results {
				d.want(x)
			}
			d.wantBlock(r.Block())
		}
	}
}

func (d *depRule) expand(v ssa.Value) {
	switch x := v.(type) {
	case *ssa.Global:
		if x.Pkg != d.p.main {
			if n := x.Pkg.Pkg.Path() + "." + x.Name(); n == "os.Args" || ambientPkgs[x.Pkg.Pkg.Path()] || n == "crypto/rand.Reader" {
				d.r.fail("C31", depID, "?", "", "a template's text depends on %s, which differs from run to run", n)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, c := range d.callers[f] {
				cm := c.Common()
				args := cm.Args
				if cm.IsInvoke() {
					args = append([]ssa.Value{cm.Value}, args...)
				}
				if i < len(args) {
					d.want(args[i])
				}
			}
		}
		for _, c := range d.extCall[f] {
			cm := c.Common()
			if cm.IsInvoke() {
				d.want(cm.Value)
			}
			for _, a := range cm.Args {
				if _, ok := a.Type().Underlying().(*types.Signature); !ok {
					d.want(a)
				}
			}
		}
	case *ssa.FreeVar:
		for _, m := range d.makes[x.Parent()] {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					d.want(m.Bindings[i])
				}
			}
		}
	case *ssa.Alloc:
	case *ssa.Phi:
		for i, e := range x.Edges {
			d.want(e)
			p := x.Block().Preds[i]
			d.wantBlock(p)
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && !d.headIf[p] {
				d.want(iff.Cond)
			}
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && !nx.IsString {
			if rg, ok := nx.Iter.(*ssa.Range); ok && d.tmap(rg.X) {
				if x.Index == 1 || x.Index == 2 {
					d.crossing(x)
				}
				return
			}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
				if fs := d.callees(&c.Call); len(fs) > 0 {
					if c.Call.StaticCallee() == nil {
						d.want(c.Call.Value)
					}
					for _, f := range fs {
						for _, r := range returnsOf(f) {
							if x.Index < len(r.Results) {
								d.want(r.Results[x.Index])
							}
							d.wantBlock(r.Block())
						}
					}
					return
				}
			}
		}
		d.want(x.Tuple)
	case *ssa.MakeClosure: // what it reads is taken in where it is read
	case *ssa.Next:
		d.want(x.Iter)
	case *ssa.Range:
		d.want(x.X)
	case *ssa.Lookup:
		d.want(x.Index)
		if d.tmap(x.X) && !d.g.localConstMap(x.X) {
			d.lookup(x)
			return
		}
		d.want(x.X)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if d.sorted(ia.X) {
					return // an element of a list put in order
				}
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && d.keys(ia.X) {
					return // a template's name
				}
				d.want(ia.X)
				d.wantIndex(ia, ia.Index)
				return
			}
			d.wantAddr(x.X)
			if g, ok := x.X.(*ssa.Global); ok {
				d.want(g)
			}
		case token.ARROW:
			d.bad(x, "a template's text depends on what is received from a channel")
		default:
			d.want(x.X)
		}
	case *ssa.IndexAddr:
		d.want(x.X)
		d.wantIndex(x, x.Index)
	case *ssa.Index:
		d.want(x.X)
		d.wantIndex(x, x.Index)
	case *ssa.Slice:
		if x.High != nil && isZero(x.High) && (x.Low == nil || isZero(x.Low)) {
			return // empty: a new start in old storage
		}
		for _, op := range x.Operands(nil) {
			d.want(*op)
		}
	case *ssa.Select:
		d.bad(x, "a template's text depends on what is received from a channel")
	case *ssa.Call:
		d.wantCall(x, x)
	case ssa.Instruction:
		for _, op := range x.Operands(nil) {
			d.want(*op)
		}
	}
}

// sorted reports whether a list is put in order somewhere.
func (d *depRule) sorted(v ssa.Value) bool {
	cl := d.find(v)
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if i := strings.IndexByte(n, '['); i > 0 {
					n = n[:i]
				}
				switch n {
				case "sort.Strings", "slices.Sort", "slices.SortFunc", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.SortStableFunc":
					a := c.Common().Args[0]
					if m, ok := a.(*ssa.MakeInterface); ok {
						a = m.X
					}
					if d.find(a) == cl {
						return true
					}
				}
			}
		}
	}
	if c, ok := d.g.se.resolve(fval{v, nil}).v.(*ssa.Call); ok && strings.HasPrefix(calleeName(&c.Call), "slices.Sorted") {
		return true
	}
	return false
}

// keys reports whether a list holds names of templates.
func (d *depRule) keys(v ssa.Value) bool {
	for n := 0; n < 6; n++ {
		v = d.g.se.resolve(fval{v, nil}).v
		p, ok := v.(*ssa.Parameter)
		if !ok {
			break
		}
		cs := d.callers[p.Parent()]
		if len(cs) != 1 {
			break
		}
		for i, q := range p.Parent().Params {
			if q == p && i < len(cs[0].Common().Args) {
				v = cs[0].Common().Args[i]
			}
		}
	}
	return d.g.keySlice(fval{v, &frame{}}, map[ssa.Value]bool{})
}

// crossing reports names or texts of a nested loop over all templates.
func (d *depRule) crossing(x *ssa.Extract) {
	nx := x.Tuple.(*ssa.Next)
	for _, c := range d.loops {
		if c.next != nx && c.what == "the templates handled before" && c.inside(nx) {
			d.bad(nx, "a template's text depends on the other templates, which are gone through here")
		}
	}
}

// lookup requires that a text looked up is that of the round's own template.
func (d *depRule) lookup(x *ssa.Lookup) {
	d.r.checked++
	k := d.g.se.resolve(fval{x.Index, nil}).v
	if _, ok := k.(*ssa.Const); ok {
		d.bad(x, "a template's text depends on another one, looked up by name")
		return
	}
	for _, c := range d.loops {
		if c.what == "the templates handled before" && c.inside(x) && !d.ownKey(c, x.Index) {
			d.bad(x, "a template's text depends on one looked up under a name not determined by the template being handled")
			return
		}
	}
}

/* ---- verdict ---- */

func (d *depRule) judge() {
	for _, c := range d.loops {
		d.r.checked++
		d.r.count("loops", 1)
		for _, in := range c.l.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if ok && d.vals[ph] && !d.steady(c, ph) {
				d.bad(ph, "a template's text depends on %s: %s is carried from one round of the loop to the next", c.what, phName(ph))
			}
		}
		for _, u := range d.stored {
			if !c.inside(u) {
				continue
			}
			d.r.checked++
			sites, via := d.rootsVia(u.Value)
			if old := d.oldStorage(c, via); old != "" {
				d.bad(u, "a template's text depends on %s: the memory it is kept in is used again in the next round (%s)", c.what, old)
			}
			for _, site := range sites {
				if in, ok := site.(ssa.Instruction); ok && !c.inside(in) {
					d.bad(u, "a template's text depends on %s: the memory it is kept in outlives the round (%s)", c.what, siteName(d.p, site))
					break
				}
			}
		}
		for _, m := range d.muts {
			if !d.classes[d.find(m.base)] || !c.inside(m.in) {
				continue
			}
			d.r.checked++
			if u, ok := m.in.(*ssa.MapUpdate); ok && c.next != nil {
				if e, ok := d.g.se.resolve(fval{u.Key, nil}).v.(*ssa.Extract); ok && e.Tuple == c.next && e.Index == 1 {
					continue // one entry per round
				}
			}
			for _, site := range d.roots(m.base) {
				if in, ok := site.(ssa.Instruction); ok && c.inside(in) {
					continue
				}
				if d.fresh(c, site) {
					continue
				}
				d.bad(m.in, "a template's text depends on %s: what is changed here outlives the round (%s)", c.what, siteName(d.p, site))
				break
			}
		}
	}
}

// oldStorage names a variable, carried from round to round, whose storage is
// given a new start by x[:0] on the way to a stored text.
func (d *depRule) oldStorage(c *ckLoop, via map[ssa.Value]bool) string {
	for v := range via {
		s, ok := v.(*ssa.Slice)
		if !ok || s.High == nil || !isZero(s.High) {
			continue
		}
		switch x := s.X.(type) {
		case *ssa.Phi:
			if x.Block() == c.l.head {
				return phName(x)
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				continue
			}
			if al := cellOf(x.X, d); al != nil {
				if !c.inside(al) {
					return al.Comment
				}
				continue
			}
			switch g := x.X.(type) {
			case *ssa.Global:
				return g.Name()
			case *ssa.FieldAddr:
				return "a field"
			}
		}
	}
	return ""
}

func phName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func siteName(p *Program, v ssa.Value) string {
	if v.Pos().IsValid() {
		return "made at " + p.pos(v.Pos())
	}
	return v.Name()
}

// steady reports whether a value carried around the loop never changes.
func (d *depRule) steady(c *ckLoop, ph *ssa.Phi) bool {
	var one ssa.Value
	for _, e := range ph.Edges {
		if e == ph {
			continue
		}
		if one != nil && one != e {
			return false
		}
		one = e
	}
	return true
}

// roots lists the places the object v points into may have been made.
func (d *depRule) roots(v ssa.Value) []ssa.Value {
	r, _ := d.rootsVia(v)
	return r
}

// rootsVia also tells what was passed on the way to the roots.
func (d *depRule) rootsVia(v ssa.Value) ([]ssa.Value, map[ssa.Value]bool) {
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
		case *ssa.Phi:
			for _, e := range x.Edges {
				w(e)
			}
		case *ssa.FieldAddr:
			w(x.X)
		case *ssa.IndexAddr:
			w(x.X)
		case *ssa.Field:
			w(x.X)
		case *ssa.Index:
			w(x.X)
		case *ssa.Slice:
			w(x.X)
		case *ssa.Convert:
			if pointerLike(x.Type()) != pointerLike(x.X.Type()) {
				out[v] = true // a copy
				return
			}
			w(x.X)
		case *ssa.ChangeType:
			w(x.X)
		case *ssa.ChangeInterface:
			w(x.X)
		case *ssa.MakeInterface:
			w(x.X)
		case *ssa.TypeAssert:
			w(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al := cellOf(x.X, d); al != nil {
					for _, st := range allStores(al) {
						w(st.Val)
					}
					return
				}
				w(x.X)
				return
			}
			out[v] = true
		case *ssa.Parameter:
			n := 0
			for i, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, c := range d.callers[x.Parent()] {
					cm := c.Common()
					args := cm.Args
					if cm.IsInvoke() {
						args = append([]ssa.Value{cm.Value}, args...)
					}
					if i < len(args) {
						w(args[i])
						n++
					}
				}
			}
			for _, c := range d.extCall[x.Parent()] {
				cm := c.Common()
				n++
				if cv, ok := c.(ssa.Value); ok {
					out[cv] = true // made for the call
				}
				if d.isPure(cm) {
					continue
				}
				for _, a := range cm.Args {
					if pointerLike(a.Type()) {
						if _, ok := a.Type().Underlying().(*types.Signature); !ok {
							w(a)
						}
					}
				}
			}
		case *ssa.FreeVar:
			for _, m := range d.makes[x.Parent()] {
				for i, fv := range x.Parent().FreeVars {
					if fv == x {
						w(m.Bindings[i])
					}
				}
			}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				if fs := d.callees(&t.Call); len(fs) > 0 {
					for _, f := range fs {
						for _, r := range returnsOf(f) {
							if x.Index < len(r.Results) {
								w(r.Results[x.Index])
							}
						}
					}
					return
				}
				w(t)
			default:
				out[v] = true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					w(x.Call.Args[0])
					out[v] = true
				}
				return
			}
			if fs := d.callees(&x.Call); len(fs) > 0 {
				for _, f := range fs {
					for _, r := range returnsOf(f) {
						for _, res := range r.Results {
							if types.AssignableTo(res.Type(), x.Type()) {
								w(res)
							}
						}
					}
				}
				return
			}
			out[v] = true
			if makesOwn(calleeName(&x.Call)) {
				return
			}
			if !d.isPure(&x.Call) || aliases(calleeName(&x.Call)) {
				if x.Call.IsInvoke() {
					w(x.Call.Value)
				} else if len(x.Call.Args) > 0 && pointerLike(x.Call.Args[0].Type()) {
					w(x.Call.Args[0])
				}
			}
		default:
			out[v] = true
		}
	}
	w(v)
	var r []ssa.Value
	for v := range out {
		if al, ok := v.(*ssa.Alloc); ok {
			if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
				continue
			}
		}
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, seen
}

// fresh reports whether an object made outside the loop is given a new start
// in every round before anything else happens to it: in the loop's body, or in
// a function run from there that alone uses it.
func (d *depRule) fresh(c *ckLoop, site ssa.Value) bool {
	type use struct {
		in    ssa.Instruction
		start bool
	}
	var uses []use
	seen := map[ssa.Value]bool{}
	whole := map[ssa.Value]bool{site: true}
	holds := map[ssa.Value]bool{}
	escapes := false
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						fv := x.Fn.(*ssa.Function).FreeVars[i]
						whole[fv] = whole[fv] || whole[v]
						holds[fv] = holds[fv] || holds[v]
						w(fv)
					}
				}
				continue
			case *ssa.FieldAddr:
				w(x)
				continue
			case *ssa.IndexAddr:
				w(x)
				continue
			case *ssa.MakeInterface:
				w(x)
				continue
			case *ssa.Slice:
				w(x)
				uses = append(uses, use{x, false})
				continue
			case *ssa.Phi:
				w(x)
				continue
			case *ssa.UnOp:
				if x.Op == token.MUL && holds[v] {
					w(x) // a variable holding the object
				}
				uses = append(uses, use{x, false})
				continue
			case *ssa.Store:
				if x.Addr == v {
					uses = append(uses, use{x, whole[v]})
					continue
				}
				al := cellOf(x.Addr, d)
				if al == nil || len(allStores(al)) != 1 {
					escapes = true
					return
				}
				holds[al] = true
				w(al)
				continue
			case *ssa.Call:
				n := calleeName(&x.Call)
				if len(x.Call.Args) > 0 && x.Call.Args[0] == v && (strings.HasSuffix(n, ").Reset") || strings.HasSuffix(n, ").Truncate") && isZero(x.Call.Args[1])) {
					uses = append(uses, use{x, true})
					continue
				}
				for _, f := range d.callees(&x.Call) {
					for i, a := range x.Call.Args {
						if a == v && i < len(f.Params) && !x.Call.IsInvoke() {
							w(f.Params[i])
						}
					}
				}
			}
			uses = append(uses, use{u, false})
		}
	}
	w(site)
	// a variable read only to get at the object is not a use of it
	var list []use
	for _, u := range uses {
		if ld, ok := u.in.(*ssa.UnOp); ok && seen[ld] {
			continue
		}
		if st, ok := u.in.(*ssa.Store); ok && seen[st.Val] {
			continue
		}
		if c.inside(u.in) {
			list = append(list, u)
		}
	}
	if escapes {
		return false
	}
	for _, s := range list {
		if !s.start {
			continue
		}
		g := s.in.Parent()
		ok := true
		for _, u := range list {
			var at []ssa.Instruction
			if u.in.Parent() == g {
				at = append(at, u.in)
			} else if within(u.in.Parent(), g) || d.onlyFrom(u.in.Parent(), g) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && d.leadsTo(ci, u.in.Parent()) {
							at = append(at, in)
						}
					}
				}
			} else {
				ok = false
			}
			for _, in := range at {
				if g == c.fn && !c.l.blocks[in.Block()] {
					continue
				}
				if in.Block() == s.in.Block() {
					ok = ok && (in == s.in || before(s.in, in))
				} else {
					ok = ok && s.in.Block().Dominates(in.Block())
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// within reports whether function f is written inside g.
func within(f, g *ssa.Function) bool {
	for f = f.Parent(); f != nil; f = f.Parent() {
		if f == g {
			return true
		}
	}
	return false
}

// onlyFrom reports whether f is called from g and from nowhere else.
func (d *depRule) onlyFrom(f, g *ssa.Function) bool {
	if len(d.callers[f]) == 0 || len(d.extCall[f]) > 0 {
		return false
	}
	for _, c := range d.callers[f] {
		if c.Parent() != g && !within(c.Parent(), g) {
			return false
		}
	}
	return true
}

func isZero(v ssa.Value) bool {
	n, ok := kInt(v)
	return ok && n == 0
}

// leadsTo reports whether a call may run function f.
func (d *depRule) leadsTo(c ssa.CallInstruction, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var w func(g *ssa.Function) bool
	var at func(c ssa.CallInstruction) bool
	at = func(c ssa.CallInstruction) bool {
		for _, g := range append(d.callees(c.Common()), d.literals(c.Common())...) {
			if w(g) {
				return true
			}
		}
		return false
	}
	w = func(g *ssa.Function) bool {
		if g == f {
			return true
		}
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && at(ci) {
					return true
				}
			}
		}
		return false
	}
	return at(c)
}
