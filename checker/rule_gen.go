package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genRule decides C23 over the generator's SSA form: which file-system calls
// it can reach, and, for each output it opens, that the path is the template's
// name without "_" and ".go" plus ".generated.go", that the old content is cut
// off, and that exactly the generated text is written on every path.
type genRule struct {
	p  *Program
	r  *ruleResult
	se *strEval

	writers int
	visited map[ssa.Instruction]bool
	chdir   bool
	loops   map[*ssa.Next]*frame // output loops seen

	updates  []mapUpd // updates of template maps, in context
	removals []mapRem
	listing  int
	outputs  []fval // the maps and name lists the output loops run over
}

type mapUpd struct {
	in *ssa.MapUpdate
	fr *frame
}

type mapRem struct {
	in ssa.Instruction
	m  fval
}

const genID = "generation/outputs"

func ruleGenerator(p *Program) *ruleResult {
	g := &genRule{p: p, r: &ruleResult{}, visited: map[ssa.Instruction]bool{}, loops: map[*ssa.Next]*frame{}}
	g.se = &strEval{own: p.ownFn}
	g.se.leaf = g.leaf
	guardRule(g.r, "C23", genID, g.run)
	return g.r
}

func (g *genRule) fail(in ssa.Instruction, format string, a ...interface{}) {
	pos, fn := "?", ""
	if in != nil {
		pos = g.p.pos(in.Pos())
		if in.Parent() != nil {
			fn = in.Parent().String()
			if !in.Pos().IsValid() {
				pos = g.p.pos(in.Parent().Pos())
			}
		}
	}
	g.r.fail("C23", genID, pos, fn, format, a...)
}

// packages without effects on the file system (as far as they are used here)
var pureGenPkgs = map[string]bool{
	"fmt": true, "flag": true, "strings": true, "bytes": true, "strconv": true, "regexp": true, "regexp/syntax": true,
	"sort": true, "errors": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"math": true, "math/bits": true, "go/token": true, "go/ast": true, "go/parser": true, "go/format": true,
	"go/printer": true, "go/scanner": true, "text/template": true, "log": true, "time": true, "slices": true,
	"maps": true, "cmp": true, "io": true, "bufio": true, "io/fs": true, "runtime": true, "sync": true,
	"github.com/dave/jennifer/jen": true, "encoding/binary": true, "context": true, "unsafe": true, "iter": true,
}

var readOnlyOS = map[string]bool{
	"os.Open": true, "os.Stat": true, "os.Lstat": true, "os.ReadFile": true, "os.ReadDir": true, "os.Getwd": true,
	"os.Chdir": true, "os.Exit": true, "os.Getenv": true, "os.LookupEnv": true, "os.IsNotExist": true, "os.IsExist": true,
	"os.IsPermission": true, "os.Executable": true, "os.ExpandEnv": true, "os.DirFS": true, "os.SameFile": true, "os.Getpid": true,
	"(*os.File).Read": true, "(*os.File).ReadAt": true, "(*os.File).Readdir": true, "(*os.File).ReadDir": true,
	"(*os.File).Readdirnames": true, "(*os.File).Stat": true, "(*os.File).Close": true, "(*os.File).Chdir": true,
	"(*os.File).Name": true, "(*os.File).Sync": true, "(*os.File).Fd": false,
	"io/ioutil.ReadAll": true, "io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true, "io/ioutil.NopCloser": true,
	"(os.FileMode).IsDir": true, "(os.FileMode).IsRegular": true, "(*os.PathError).Error": true,
}

// calls that write, examined one by one
var writerCalls = map[string]bool{
	"os.OpenFile": true, "os.Create": true, "os.WriteFile": true, "io/ioutil.WriteFile": true,
	"(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).Truncate": true,
	"os.Truncate": false,
}

func (g *genRule) run() {
	main := g.p.main.Func("main")
	if main == nil {
		g.fail(nil, "the generator has no main function")
		return
	}
	// everything reachable
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || reach[f] || len(f.Blocks) == 0 || !g.p.ownFn(f) {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if t, ok := (*op).(*ssa.Function); ok {
						visit(t)
					}
				}
				if m, ok := in.(*ssa.MakeInterface); ok {
					ms := g.p.prog.MethodSets.MethodSet(m.X.Type())
					for i := 0; i < ms.Len(); i++ {
						visit(g.p.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	visit(main)
	visit(g.p.main.Func("init"))
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	var writeSites []ssa.CallInstruction
	for _, f := range fs {
		g.r.count("functions", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := in.(*ssa.Go); ok {
					g.fail(in, "starts a goroutine, so the outputs' order and completeness cannot be established")
				}
				if g.external(c) {
					writeSites = append(writeSites, c)
				}
			}
		}
	}
	// outputs, in context
	g.walk(&frame{fn: main}, map[*ssa.Function]bool{})
	g.carried()
	if g.writers == 0 {
		g.fail(nil, "no call that opens an output file was found in the code main reaches")
	}
	for _, c := range writeSites {
		if !g.visited[c] {
			g.r.checked++
			g.fail(c, "%s is not part of writing an output file", calleeName(c.Common()))
		}
	}
	g.r.notes = append(g.r.notes, fmt.Sprintf("generation: %d functions reachable from main, %d external calls, %d output writers, %d template-map updates", len(fs), g.r.analysed["external calls"], g.writers, g.r.analysed["template-map updates"]))
}

// external classifies a call; it reports whether the call may write files.
func (g *genRule) external(c ssa.CallInstruction) bool {
	cm := c.Common()
	if _, ok := cm.Value.(*ssa.Builtin); ok {
		return false
	}
	if cm.IsInvoke() {
		return false // what it may reach was made into an interface elsewhere
	}
	f := cm.StaticCallee()
	if f == nil {
		return false // a function value: its body is analysed where it is made
	}
	if g.p.ownFn(f) || f.Synthetic == "package initializer" || f.Name() == "init" && f.Signature.Recv() == nil {
		return false
	}
	g.r.checked++
	g.r.count("external calls", 1)
	n := calleeName(cm)
	if n == "(*os.File).Chdir" || n == "os.Chdir" {
		g.chdir = true
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch {
	case writerCalls[n]:
		return true
	case readOnlyOS[n]:
	case pkg == "github.com/dave/jennifer/jen" && strings.HasSuffix(n, ".Save"):
		g.fail(c, "%s writes a file", n)
	case pureGenPkgs[pkg]:
	default:
		g.fail(c, "calls %s, which is not known to leave other files alone", n)
	}
	return false
}

// walk visits calls in their calling contexts.
func (g *genRule) walk(fr *frame, stack map[*ssa.Function]bool) {
	if stack[fr.fn] {
		return
	}
	stack[fr.fn] = true
	defer delete(stack, fr.fn)
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if isTemplateMap(x.Map.Type()) {
					g.updates = append(g.updates, mapUpd{x, fr})
				}
				g.mapUpdate(x, fr)
			case ssa.CallInstruction:
				cm := x.Common()
				switch n := calleeName(cm); n {
				case "builtin.delete", "builtin.clear":
					if isTemplateMap(cm.Args[0].Type()) {
						g.removals = append(g.removals, mapRem{x, fval{cm.Args[0], fr}})
					}
				case "os.OpenFile", "os.Create":
					g.open(x, n, fr)
				case "os.WriteFile", "io/ioutil.WriteFile":
					g.visited[x] = true
					g.writers++
					g.path(x, fval{cm.Args[0], fr})
					g.written(x, []ssa.Instruction{x}, fval{cm.Args[1], fr}, fval{cm.Args[0], fr}, fr)
				}
				f := cm.StaticCallee()
				if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
					f = mc.Fn.(*ssa.Function)
				}
				if f != nil && g.p.ownFn(f) && len(f.Blocks) > 0 && fr.depth < 12 {
					nf := enter(cm, x, fr)
					nf.fn = f
					g.walk(nf, stack)
				}
				// function literals handed to others run in this context
				for _, a := range cm.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						lf := mc.Fn.(*ssa.Function)
						nf := &frame{fn: lf, up: fr, site: x, depth: fr.depth + 1}
						for _, bd := range mc.Bindings {
							nf.frees = append(nf.frees, fval{bd, fr})
						}
						g.walk(nf, stack)
					} else if lf, ok := a.(*ssa.Function); ok && g.p.ownFn(lf) {
						g.walk(&frame{fn: lf, up: fr, site: x, depth: fr.depth + 1}, stack)
					}
				}
			}
		}
	}
}

func isTemplateMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && isBytesOrString(m.Elem())
}

// leaf gives a template's name its known shape.
func (g *genRule) leaf(x fval) ([]piece, bool) {
	if g.isKey(x) {
		return []piece{{lit: "_"}, {sym: "S"}, {lit: ".go"}}, true
	}
	// the directory flag
	if u, ok := x.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if u2, ok := u.X.(*ssa.UnOp); ok && u2.Op == token.MUL {
			if gl, ok := u2.X.(*ssa.Global); ok && g.isFlag(gl, "directory") {
				return []piece{{sym: "dir"}}, true
			}
		}
	}
	return nil, false
}

// isFlag reports whether global gl holds the named string flag.
func (g *genRule) isFlag(gl *ssa.Global, name string) bool {
	n := 0
	ok := false
	for _, f := range g.p.ownFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isSt := in.(*ssa.Store)
				if !isSt || st.Addr != gl {
					continue
				}
				n++
				if c, isC := st.Val.(*ssa.Call); isC && calleeName(&c.Call) == "flag.String" {
					s, _ := kStr(c.Call.Args[0])
					ok = s == name
				}
			}
		}
	}
	return ok && n == 1
}

func kStr(v ssa.Value) (string, bool) { return constStr(v) }

// isKey reports whether x is the name of a template, "_"+S+".go".
func (g *genRule) isKey(x fval) bool {
	x = g.se.resolve(x)
	switch v := x.v.(type) {
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok && v.Index == 1 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return isTemplateMap(rg.X.Type())
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			return g.keySlice(fval{ia.X, x.fr}, map[ssa.Value]bool{})
		}
	case *ssa.Phi:
		return false
	}
	return false
}

// keySlice reports whether every element of x is a template name.
func (g *genRule) keySlice(x fval, seen map[ssa.Value]bool) bool {
	x = g.se.resolve(x)
	if seen[x.v] {
		return true
	}
	seen[x.v] = true
	switch v := x.v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		n, ok := g.se.cint(fval{v.Len, x.fr})
		return ok && n == 0
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok {
			if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				if n, ok := g.se.cint(fval{v.High, x.fr}); v.High != nil && ok && n == 0 || at.Len() == 0 {
					return true
				}
			}
		}
		es, ok := g.se.sliceLit(x)
		if !ok {
			return false
		}
		for _, e := range es {
			if !g.isKey(e) && !g.namesTemplate(e, nil) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !g.keySlice(fval{e, x.fr}, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if calleeName(&v.Call) == "builtin.append" && len(v.Call.Args) == 2 {
			return g.keySlice(fval{v.Call.Args[0], x.fr}, seen) && g.keySlice(fval{v.Call.Args[1], x.fr}, seen)
		}
		if f := v.Call.StaticCallee(); f != nil && g.p.ownFn(f) && x.fr.depth < 8 {
			nf := enter(&v.Call, v, x.fr)
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(r.Results) != 1 || !g.keySlice(fval{r.Results[0], nf}, seen) {
						return false
					}
				}
			}
			return true
		}
	case *ssa.Extract:
		// filepath.Glob("_*.go")
		if c, ok := v.Tuple.(*ssa.Call); ok && v.Index == 0 && calleeName(&c.Call) == "path/filepath.Glob" {
			ps, ok := g.se.str(fval{c.Call.Args[0], x.fr})
			return ok && len(ps) == 1 && ps[0].lit == "_*.go"
		}
	}
	return false
}

/* ---- template names ---- */

// mapUpdate checks the key of an entry added to a template map.
func (g *genRule) mapUpdate(x *ssa.MapUpdate, fr *frame) {
	if !isTemplateMap(x.Map.Type()) {
		return
	}
	if g.localConstMap(x.Map) {
		return
	}
	g.r.checked++
	g.r.count("template-map updates", 1)
	k := fval{x.Key, fr}
	if g.isKey(k) || g.namesTemplate(k, x) {
		return
	}
	g.fail(x, "a file is added to the set of templates whose name is not known to start with \"_\" and end in \".go\"")
}

// localConstMap reports whether a map is a literal table with constant keys.
func (g *genRule) localConstMap(m ssa.Value) bool {
	mm, ok := m.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, r := range *mm.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			if _, ok := u.Key.(*ssa.Const); !ok {
				return false
			}
		case *ssa.Lookup, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

type nameFacts struct{ prefix, suffix bool }

// namesTemplate reports whether the conditions on the way to at (or to the
// place where k is used) say that k starts with "_" and ends in ".go".
func (g *genRule) namesTemplate(k fval, at ssa.Instruction) bool {
	if at == nil {
		rk := g.se.resolve(k)
		in, ok := rk.v.(ssa.Instruction)
		if !ok {
			return false
		}
		// the use: any append/store in the same function
		for _, u := range *rk.v.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Val == rk.v {
				at = st
			}
		}
		if at == nil {
			at = in
		}
	}
	var nf nameFacts
	fr := k.fr
	blk := at.Block()
	for blk != nil {
		g.dominators(blk, fr, func(cond fval, truth bool) {
			f := g.implied(cond, truth, k, 0)
			nf.prefix = nf.prefix || f.prefix
			nf.suffix = nf.suffix || f.suffix
		})
		if nf.prefix && nf.suffix || fr == nil || fr.site == nil {
			break
		}
		blk, fr = fr.site.Block(), fr.up
	}
	return nf.prefix && nf.suffix
}

// dominators reports the branch conditions that hold in block b.
func (g *genRule) dominators(b *ssa.BasicBlock, fr *frame, f func(fval, bool)) {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range p.Succs {
			if s == d && len(d.Preds) == 1 {
				f(fval{iff.Cond, fr}, i == 0)
			} else if s == d || len(d.Preds) > 1 {
				// d is entered only through the other branch's exits: the
				// branch taken is known when the other side cannot reach d
				o := p.Succs[1-i]
				if o != s && !reachesAvoiding(o, d, p) && (s == d || reachesAvoiding(s, d, p)) {
					f(fval{iff.Cond, fr}, i == 0)
				}
			}
		}
	}
}

// reachesAvoiding reports whether to is reachable from from without passing avoid.
func reachesAvoiding(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	var w func(b *ssa.BasicBlock) bool
	w = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if w(s) {
				return true
			}
		}
		return false
	}
	return w(from)
}

// implied lists what cond having the given truth value says about name k.
func (g *genRule) implied(cond fval, truth bool, k fval, d int) nameFacts {
	if d > 12 {
		return nameFacts{}
	}
	cond = g.se.resolve(cond)
	lit := func(v ssa.Value) string {
		ps, ok := g.se.str(fval{v, cond.fr})
		if ok && len(ps) == 1 && ps[0].sym == "" {
			return ps[0].lit
		}
		return ""
	}
	same := func(v ssa.Value) bool { return g.canon(fval{v, cond.fr}, 0) == g.canon(k, 0) }
	switch v := cond.v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return g.implied(fval{v.X, cond.fr}, !truth, k, d+1)
		}
	case *ssa.BinOp:
		if v.Op == token.EQL && truth || v.Op == token.NEQ && !truth {
			for _, pr := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
				c, ok := g.se.resolve(fval{pr[0], cond.fr}).v.(*ssa.Call)
				if ok && (calleeName(&c.Call) == "path/filepath.Ext" || calleeName(&c.Call) == "path.Ext") && same(c.Call.Args[0]) && lit(pr[1]) == ".go" {
					return nameFacts{suffix: true}
				}
				if sx, si, ok := strIndex(g.se.resolve(fval{pr[0], cond.fr}).v); ok && same(sx) {
					i, ok1 := g.se.cint(fval{si, cond.fr})
					ch, ok2 := kInt(g.se.resolve(fval{pr[1], cond.fr}).v)
					if ok1 && ok2 && i == 0 && ch == '_' {
						return nameFacts{prefix: true}
					}
				}
				if sl, ok := g.se.resolve(fval{pr[0], cond.fr}).v.(*ssa.Slice); ok && same(sl.X) && sl.Low == nil && lit(pr[1]) == "_" {
					if h, ok := g.se.cint(fval{sl.High, cond.fr}); sl.High != nil && ok && h == 1 {
						return nameFacts{prefix: true}
					}
				}
			}
		}
	case *ssa.Call:
		if truth {
			switch calleeName(&v.Call) {
			case "strings.HasPrefix":
				if same(v.Call.Args[0]) && strings.HasPrefix(lit(v.Call.Args[1]), "_") {
					return nameFacts{prefix: true}
				}
			case "strings.HasSuffix":
				if same(v.Call.Args[0]) && strings.HasSuffix(lit(v.Call.Args[1]), ".go") {
					return nameFacts{suffix: true}
				}
			}
		}
		if f := v.Call.StaticCallee(); f != nil && g.p.ownFn(f) && len(f.Blocks) > 0 && cond.fr.depth < 8 {
			return g.impliedByReturn(f, 0, enter(&v.Call, v, cond.fr), truth, k, d)
		}
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok {
			break
		}
		switch calleeName(&c.Call) {
		case "path/filepath.Match", "path.Match":
			if truth && v.Index == 0 && same(c.Call.Args[1]) && lit(c.Call.Args[0]) == "_*.go" {
				return nameFacts{true, true}
			}
		case "strings.CutPrefix":
			if truth && v.Index == 1 && same(c.Call.Args[0]) && strings.HasPrefix(lit(c.Call.Args[1]), "_") {
				return nameFacts{prefix: true}
			}
		case "strings.CutSuffix":
			if truth && v.Index == 1 && same(c.Call.Args[0]) && strings.HasSuffix(lit(c.Call.Args[1]), ".go") {
				return nameFacts{suffix: true}
			}
		}
		if f := c.Call.StaticCallee(); f != nil && g.p.ownFn(f) && len(f.Blocks) > 0 && cond.fr.depth < 8 {
			return g.impliedByReturn(f, v.Index, enter(&c.Call, c, cond.fr), truth, k, d)
		}
	case *ssa.Phi:
		res := nameFacts{true, true}
		any := false
		for i, e := range v.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && (c.Value.String() == "true") != truth {
				continue
			}
			f := g.implied(fval{e, cond.fr}, truth, k, d+1)
			p := v.Block().Preds[i]
			g.dominators(p, cond.fr, func(c fval, t bool) {
				h := g.implied(c, t, k, d+2)
				f.prefix, f.suffix = f.prefix || h.prefix, f.suffix || h.suffix
			})
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				h := g.implied(fval{iff.Cond, cond.fr}, p.Succs[0] == v.Block(), k, d+2)
				f.prefix, f.suffix = f.prefix || h.prefix, f.suffix || h.suffix
			}
			res.prefix, res.suffix = res.prefix && f.prefix, res.suffix && f.suffix
			any = true
		}
		if any {
			return res
		}
	}
	return nameFacts{}
}

// strIndex splits s[i].
func strIndex(v ssa.Value) (s, i ssa.Value, ok bool) {
	switch x := v.(type) {
	case *ssa.Index:
		return x.X, x.Index, isBytesOrString(x.X.Type())
	case *ssa.Lookup:
		return x.X, x.Index, isBytesOrString(x.X.Type())
	}
	return nil, nil, false
}

func (g *genRule) impliedByReturn(f *ssa.Function, idx int, fr *frame, truth bool, k fval, d int) nameFacts {
	res := nameFacts{true, true}
	any := false
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		if c, ok := r.Results[idx].(*ssa.Const); ok && c.Value != nil && (c.Value.String() == "true") != truth {
			continue
		}
		h := g.implied(fval{r.Results[idx], fr}, truth, k, d+1)
		g.dominators(b, fr, func(c fval, t bool) {
			x := g.implied(c, t, k, d+2)
			h.prefix, h.suffix = h.prefix || x.prefix, h.suffix || x.suffix
		})
		res.prefix, res.suffix = res.prefix && h.prefix, res.suffix && h.suffix
		any = true
	}
	if !any {
		return nameFacts{}
	}
	return res
}

// canon names a value so that two reads of the same file's name agree.
func (g *genRule) canon(x fval, d int) string {
	x = g.se.resolve(x)
	if d < 6 {
		switch v := x.v.(type) {
		case *ssa.Call:
			if v.Call.IsInvoke() && v.Call.Method.Name() == "Name" && len(v.Call.Args) == 0 {
				return "name(" + g.canon(fval{v.Call.Value, x.fr}, d+1) + ")"
			}
			if n := calleeName(&v.Call); n == "path/filepath.Base" || n == "path.Base" {
				return g.canon(fval{v.Call.Args[0], x.fr}, d+1)
			}
		case *ssa.UnOp:
			if ia, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL {
				return "elem(" + g.canon(fval{ia.X, x.fr}, d+1) + "," + g.canon(fval{ia.Index, x.fr}, d+1) + ")"
			}
		}
	}
	if c, ok := x.v.(*ssa.Const); ok {
		return c.String()
	}
	return fmt.Sprintf("%p/%p", x.v, x.fr)
}

/* ---- outputs ---- */

// path checks the name of an output file.
func (g *genRule) path(in ssa.Instruction, x fval) {
	g.r.checked++
	ps, ok := g.se.str(x)
	if !ok {
		g.fail(in, "the name of the file written here cannot be established as <template name without \"_\" and \".go\">.generated.go")
		return
	}
	q := ps
	inDir := false
	if len(q) > 0 && q[0].lit == "./" {
		q = q[1:]
	} else if len(q) > 0 && q[0].sym == "" && strings.HasPrefix(q[0].lit, "./") {
		q = normPieces(append([]piece{{lit: q[0].lit[2:]}}, q[1:]...))
	}
	if len(q) == 4 && q[0].sym == "dir" && q[1].lit == "/" {
		q, inDir = q[2:], true
	}
	if !samePieces(q, []piece{{sym: "S"}, {lit: ".generated.go"}}) {
		g.fail(in, "for the template \"_\"+S+\".go\" the file written is %s, want <S>+\".generated.go\"", piecesStr(ps))
		return
	}
	if !inDir && !g.chdir {
		g.fail(in, "the output path is relative, but the generator never changes to the template directory")
	}
}

// open follows one file opened for writing.
func (g *genRule) open(c ssa.CallInstruction, name string, fr *frame) {
	cm := c.Common()
	trunc := name == "os.Create"
	if name == "os.OpenFile" {
		g.r.checked++
		fl, ok := g.se.cint(fval{cm.Args[1], fr})
		if !ok {
			fl, ok = g.flags(fval{cm.Args[1], fr})
		}
		if !ok {
			g.visited[c] = true
			g.writers++
			g.fail(c, "the open flags cannot be established")
			return
		}
		acc := int(fl) & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
		if acc == os.O_RDONLY && int(fl)&(os.O_CREATE|os.O_TRUNC) == 0 {
			g.visited[c] = true
			return
		}
		if acc == os.O_RDONLY {
			g.fail(c, "the output is created or truncated but not opened for writing")
		}
		if int(fl)&os.O_APPEND != 0 {
			g.fail(c, "the output is opened for appending")
		}
		if int(fl)&os.O_EXCL != 0 {
			g.fail(c, "the output is opened with O_EXCL, so an existing one is not replaced")
		}
		if int(fl)&os.O_CREATE == 0 {
			g.fail(c, "the output is opened without O_CREATE, so a missing one is not made")
		}
		trunc = int(fl)&os.O_TRUNC != 0
	}
	g.visited[c] = true
	g.writers++
	g.path(c, fval{cm.Args[0], fr})
	call, ok := c.(*ssa.Call)
	if !ok {
		g.fail(c, "the opened output is discarded")
		return
	}
	var h ssa.Value
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
			h = e
		}
	}
	if h == nil {
		g.fail(c, "the opened output is never written")
		return
	}
	w := &handle{g: g, open: c}
	w.follow(h, fr, 0)
	if w.bad {
		return
	}
	g.r.checked++
	if !trunc && !w.truncated {
		g.fail(c, "the output is opened without O_TRUNC and never truncated to zero first, so the tail of a longer previous version stays")
	}
	if len(w.writes) == 0 {
		g.fail(c, "nothing is written to the opened output")
		return
	}
	for _, wr := range w.writes {
		if w.data[wr].v == nil {
			g.fail(wr, "what is written here cannot be established")
			return
		}
	}
	// all writes must be alternatives in one function, one after the open
	var first = w.writes[0]
	g.written(c, w.writes, w.data[first], fval{cm.Args[0], fr}, w.frames[first])
	for _, wr := range w.writes[1:] {
		g.contents(wr, w.data[wr], fval{cm.Args[0], fr})
	}
}

func (g *genRule) flags(x fval) (int64, bool) {
	x = g.se.resolve(x)
	if n, ok := kInt(x.v); ok {
		return n, true
	}
	switch v := x.v.(type) {
	case *ssa.BinOp:
		a, ok1 := g.flags(fval{v.X, x.fr})
		b, ok2 := g.flags(fval{v.Y, x.fr})
		if ok1 && ok2 {
			switch v.Op {
			case token.OR:
				return a | b, true
			case token.ADD:
				return a + b, true
			case token.AND_NOT:
				return a &^ b, true
			case token.AND:
				return a & b, true
			}
		}
	case *ssa.UnOp:
		// a package variable that is set once, by its initialiser
		if gl, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && !g.p.assigned(gl) {
			if ini := g.p.main.Func("init"); ini != nil {
				for _, b := range ini.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == gl {
							return g.flags(fval{st.Val, nil})
						}
					}
				}
			}
		}
	}
	return 0, false
}

// handle follows the uses of an opened file.
type handle struct {
	g         *genRule
	open      ssa.Instruction
	writes    []ssa.Instruction
	data      map[ssa.Instruction]fval
	frames    map[ssa.Instruction]*frame
	truncated bool
	bad       bool
}

func (h *handle) wrote(in ssa.Instruction, data fval, fr *frame) {
	if h.data == nil {
		h.data, h.frames = map[ssa.Instruction]fval{}, map[ssa.Instruction]*frame{}
	}
	h.writes = append(h.writes, in)
	h.data[in] = data
	h.frames[in] = fr
}

func (h *handle) unknown(in ssa.Instruction, what string) {
	h.bad = true
	h.g.fail(in, "the output file is %s, so what is written to it cannot be established", what)
}

func (h *handle) follow(v ssa.Value, fr *frame, d int) {
	g := h.g
	if d > 8 {
		h.unknown(h.open, "passed around too deeply")
		return
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp: // comparison with nil
		case *ssa.ChangeType:
			h.follow(x, fr, d+1)
		case *ssa.ChangeInterface:
			h.follow(x, fr, d+1)
		case *ssa.MakeInterface:
			h.follow(x, fr, d+1)
		case *ssa.Phi:
			h.follow(x, fr, d+1)
		case *ssa.Store:
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || singleStore(al) != x {
				h.unknown(x, "stored")
				return
			}
			for _, r := range *al.Referrers() {
				switch l := r.(type) {
				case *ssa.UnOp:
					h.follow(l, fr, d+1)
				case *ssa.MakeClosure:
					h.closure(l, al, fr, d)
				}
			}
		case *ssa.MakeClosure:
			h.closure(x, v, fr, d)
		case *ssa.Return:
			h.unknown(x, "returned to a caller")
		case ssa.CallInstruction:
			cm := x.Common()
			n := calleeName(cm)
			if cm.IsInvoke() {
				switch cm.Method.Name() {
				case "Write":
					h.wrote(x, fval{cm.Args[0], fr}, fr)
				case "Close", "Name", "Stat":
				default:
					h.unknown(x, "used through "+n)
				}
				continue
			}
			switch n {
			case "(*os.File).Write", "(*os.File).WriteString":
				if cm.Args[0] == v {
					g.visited[x] = true
					h.wrote(x, fval{cm.Args[1], fr}, fr)
				}
			case "(*os.File).Truncate":
				g.visited[x] = true
				k, ok := g.se.cint(fval{cm.Args[1], fr})
				if !ok || k != 0 {
					h.unknown(x, "truncated to a length other than zero")
					return
				}
				h.truncated = true
				for _, w := range h.writes {
					if w.Block() == x.Block() && before(w, x) || w.Block() != x.Block() && reachesAvoiding(w.Block(), x.Block(), x.Block().Parent().Blocks[0]) {
						h.unknown(x, "truncated after it was written")
						return
					}
				}
			case "io.WriteString":
				h.wrote(x, fval{cm.Args[1], fr}, fr)
			case "io.Copy":
				if cm.Args[0] == v {
					src := g.se.resolve(fval{cm.Args[1], fr})
					if m, ok := src.v.(*ssa.MakeInterface); ok {
						src = g.se.resolve(fval{m.X, src.fr})
					}
					if c, ok := src.v.(*ssa.Call); ok {
						switch calleeName(&c.Call) {
						case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
							h.wrote(x, fval{c.Call.Args[0], src.fr}, fr)
							continue
						}
					}
				}
				h.unknown(x, "filled by io.Copy")
			case "fmt.Fprint":
				es, ok := g.se.sliceLit(fval{cm.Args[1], fr})
				if ok && len(es) == 1 {
					e := g.se.resolve(es[0])
					if m, ok := e.v.(*ssa.MakeInterface); ok {
						if b, ok := m.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
							h.wrote(x, fval{m.X, e.fr}, fr)
							continue
						}
					}
				}
				h.unknown(x, "written by fmt.Fprint")
			case "fmt.Fprintf":
				f, _ := g.se.str(fval{cm.Args[1], fr})
				es, ok := g.se.sliceLit(fval{cm.Args[2], fr})
				if ok && len(es) == 1 && len(f) == 1 && (f[0].lit == "%s" || f[0].lit == "%v") {
					e := g.se.resolve(es[0])
					if m, ok := e.v.(*ssa.MakeInterface); ok && (f[0].lit == "%s" || isStringIface(g.se, e)) {
						h.wrote(x, fval{m.X, e.fr}, fr)
						continue
					}
				}
				h.unknown(x, "written by fmt.Fprintf")
			case "bufio.NewWriter", "bufio.NewWriterSize":
				h.unknown(x, "buffered")
			default:
				if readOnlyOS[n] {
					continue
				}
				f := cm.StaticCallee()
				if f == nil || !g.p.ownFn(f) || len(f.Blocks) == 0 {
					h.unknown(x, "passed to "+n)
					return
				}
				nf := enter(cm, x, fr)
				for i, a := range cm.Args {
					if a == v {
						h.follow(f.Params[i], nf, d+1)
					}
				}
			}
		default:
			h.unknown(u, "used in a way that is not followed")
			return
		}
	}
}

func (h *handle) closure(mc *ssa.MakeClosure, v ssa.Value, fr *frame, d int) {
	f := mc.Fn.(*ssa.Function)
	nf := &frame{fn: f, up: fr, depth: fr.depth + 1}
	for _, b := range mc.Bindings {
		nf.frees = append(nf.frees, fval{b, fr})
	}
	for i, b := range mc.Bindings {
		if b != v {
			continue
		}
		fv := f.FreeVars[i]
		if _, isPtr := v.(*ssa.Alloc); isPtr {
			for _, r := range *fv.Referrers() {
				if l, ok := r.(*ssa.UnOp); ok {
					h.follow(l, nf, d+1)
				}
			}
		} else {
			h.follow(fv, nf, d+1)
		}
	}
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// contents requires data to be exactly the text generated for the template
// whose output path is.
func (g *genRule) contents(in ssa.Instruction, data, path fval) *ssa.Next {
	g.r.checked++
	x := g.se.resolve(data)
	if sl, ok := x.v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		if _, isPtr := sl.X.Type().Underlying().(*types.Pointer); !isPtr {
			x = g.se.resolve(fval{sl.X, x.fr})
		}
	}
	switch v := x.v.(type) {
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok && v.Index == 2 {
			if rg, ok := nx.Iter.(*ssa.Range); ok && isTemplateMap(rg.X.Type()) {
				if g.pathKey(path) != fmt.Sprintf("next:%p", nx) {
					g.fail(in, "the text written does not belong to the template the output file is named after")
				}
				g.outputs = append(g.outputs, fval{rg.X, x.fr})
				return nx
			}
		}
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 {
			return g.lookup(in, lk, x.fr, path)
		}
	case *ssa.Lookup:
		return g.lookup(in, v, x.fr, path)
	}
	g.fail(in, "what is written is not the whole generated text of one template")
	return nil
}

func (g *genRule) lookup(in ssa.Instruction, lk *ssa.Lookup, fr *frame, path fval) *ssa.Next {
	k := fval{lk.Index, fr}
	if !isTemplateMap(lk.X.Type()) || !g.isKey(k) {
		g.fail(in, "what is written is not the generated text of one template")
		return nil
	}
	if g.pathKey(path) != g.keyID(k) {
		g.fail(in, "the text written does not belong to the template the output file is named after")
	}
	g.outputs = append(g.outputs, fval{lk.X, fr})
	rk := g.se.resolve(k)
	switch v := rk.v.(type) {
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				g.outputs = append(g.outputs, fval{rg.X, rk.fr})
			}
			return nx
		}
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			g.outputs = append(g.outputs, fval{ia.X, rk.fr})
		}
	}
	return nil
}

// origins lists the places a collection comes from.
func (g *genRule) origins(x fval, seen map[ssa.Value]bool, f func(fval)) {
	x = g.se.resolve(x)
	if seen[x.v] {
		return
	}
	seen[x.v] = true
	results := func(c *ssa.Call, idx int) bool {
		fn := c.Call.StaticCallee()
		if fn == nil || !g.p.ownFn(fn) || len(fn.Blocks) == 0 || depthOf(x.fr) > 10 {
			return false
		}
		nf := enter(&c.Call, c, x.fr)
		nf.fn = fn
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				g.origins(fval{r.Results[idx], nf}, seen, f)
			}
		}
		return true
	}
	switch v := x.v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			g.origins(fval{e, x.fr}, seen, f)
		}
		return
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok && results(c, v.Index) {
			return
		}
	case *ssa.Call:
		switch n := calleeName(&v.Call); {
		case n == "builtin.append":
			f(x)
			g.origins(fval{v.Call.Args[0], x.fr}, seen, f)
			return
		case strings.HasPrefix(n, "maps.Clone"):
			g.origins(fval{v.Call.Args[0], x.fr}, seen, f)
			return
		case results(v, 0):
			return
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			a := g.se.resolve(fval{v.X, x.fr})
			if al, ok := a.v.(*ssa.Alloc); ok {
				for _, st := range allStores(al) {
					g.origins(fval{st.Val, a.fr}, seen, f)
				}
				return
			}
		}
	}
	f(x)
}

// allStores lists the stores to a local variable, closures included.
func allStores(v ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr == v {
				out = append(out, u)
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					out = append(out, allStores(u.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return out
}

// carried requires that nothing is lost between the set of templates read and
// the set whose outputs are written: where the names of one set are moved to
// another, every round that meets no error must move its name.
func (g *genRule) carried() {
	seen := map[ssa.Value]bool{}
	var work []fval
	push := func(x fval) {
		g.origins(x, map[ssa.Value]bool{}, func(o fval) {
			if !seen[o.v] {
				seen[o.v] = true
				work = append(work, o)
			}
		})
	}
	for _, o := range g.outputs {
		push(o)
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		type move struct {
			in ssa.Instruction
			fr *frame
		}
		byLoop := map[ssa.Value][]move{}
		var order []ssa.Value
		src := map[ssa.Value]fval{}
		add := func(k fval, in ssa.Instruction, fr *frame) {
			k = g.se.resolve(k)
			var id ssa.Value
			var from fval
			switch v := k.v.(type) {
			case *ssa.Extract:
				nx, ok := v.Tuple.(*ssa.Next)
				if !ok || v.Index != 1 {
					return
				}
				rg, ok := nx.Iter.(*ssa.Range)
				if !ok || !isTemplateMap(rg.X.Type()) {
					return
				}
				id, from = nx, fval{rg.X, k.fr}
			case *ssa.UnOp:
				ia, ok := v.X.(*ssa.IndexAddr)
				if !ok || !g.isKey(k) || !g.listsKeys(fval{ia.X, k.fr}) {
					return
				}
				id, from = v, fval{ia.X, k.fr}
			default:
				return
			}
			same := false
			g.origins(from, map[ssa.Value]bool{}, func(q fval) { same = same || q.v == o.v })
			if same {
				return
			}
			if byLoop[id] == nil {
				order = append(order, id)
			}
			byLoop[id] = append(byLoop[id], move{in, fr})
			src[id] = from
		}
		switch v := o.v.(type) {
		case *ssa.MakeMap:
			for _, u := range g.updates {
				u := u
				into := false
				g.origins(fval{u.in.Map, u.fr}, map[ssa.Value]bool{}, func(q fval) { into = into || q.v == o.v })
				if into {
					add(fval{u.in.Key, u.fr}, u.in, u.fr)
				}
			}
		case *ssa.Call:
			if calleeName(&v.Call) == "builtin.append" && len(v.Call.Args) == 2 {
				if es, ok := g.se.sliceLit(fval{v.Call.Args[1], o.fr}); ok {
					for _, e := range es {
						add(e, v, o.fr)
					}
				} else {
					push(fval{v.Call.Args[1], o.fr})
				}
			}
		}
		for _, id := range order {
			ms := byLoop[id]
			g.r.checked++
			var evs []ssa.Instruction
			for _, m := range ms {
				evs = append(evs, m.in)
			}
			g.everyRound(evs, id, ms[0].fr)
			push(src[id])
		}
	}
	for _, d := range g.removals {
		hit := false
		g.origins(d.m, map[ssa.Value]bool{}, func(q fval) { hit = hit || seen[q.v] })
		if hit {
			g.r.checked++
			if withoutError(d.in.Block()) {
				g.fail(d.in, "templates are taken out of the set whose outputs are written")
			}
		}
	}
}

// withoutError reports whether b is reached without a reported error.
func withoutError(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(x *ssa.BasicBlock) bool
	w = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for i, s := range x.Succs {
			if !errEdge(x, i) && w(s) {
				return true
			}
		}
		return false
	}
	return w(b.Parent().Blocks[0])
}

// listsKeys reports whether a list is made of the keys of a template map.
func (g *genRule) listsKeys(x fval) bool {
	if g.listing > 6 {
		return false
	}
	g.listing++
	defer func() { g.listing-- }()
	found := false
	g.origins(x, map[ssa.Value]bool{}, func(o fval) {
		c, ok := o.v.(*ssa.Call)
		if !ok || calleeName(&c.Call) != "builtin.append" || len(c.Call.Args) != 2 {
			return
		}
		es, ok := g.se.sliceLit(fval{c.Call.Args[1], o.fr})
		if !ok {
			found = found || g.listsKeys(fval{c.Call.Args[1], o.fr})
			return
		}
		for _, e := range es {
			k := g.se.resolve(e)
			if ex, ok := k.v.(*ssa.Extract); ok {
				if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 1 {
					if rg, ok := nx.Iter.(*ssa.Range); ok && isTemplateMap(rg.X.Type()) {
						found = true
					}
				}
			} else if u, ok := k.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.X != c.Call.Args[0] && g.isKey(k) {
					found = found || g.listsKeys(fval{ia.X, k.fr})
				}
			}
		}
	})
	return found
}

// everyRound requires each error-free round of the loop that yields id to
// reach one of the events.
func (g *genRule) everyRound(events []ssa.Instruction, id ssa.Value, fr *frame) {
	at := id.(ssa.Instruction)
	in := events[0]
	for ; fr != nil; fr = fr.up {
		set := map[*ssa.BasicBlock]bool{}
		for _, e := range events {
			if e.Parent() == fr.fn {
				set[e.Block()] = true
			}
		}
		var head *ssa.BasicBlock
		start := []*ssa.BasicBlock{fr.fn.Blocks[0]}
		if at.Parent() == fr.fn {
			head = at.Block()
			if _, ok := at.(*ssa.Next); ok {
				start = []*ssa.BasicBlock{head.Succs[0]}
			} else {
				// an element of a list: the loop around the place it is taken out
				start = []*ssa.BasicBlock{head}
				for head != nil && !(len(head.Preds) > 1 && len(head.Succs) == 2 && reachesAvoiding(at.Block(), head, fr.fn.Blocks[0])) {
					head = head.Idom()
				}
				if head == nil {
					return
				}
			}
		}
		if !g.mustPassMsg(in, start, set, head, "there is a path without a reported error on which a template is left out of the set whose outputs are written") {
			return
		}
		if head != nil || fr.site == nil {
			return
		}
		events = []ssa.Instruction{fr.site}
	}
}

func (g *genRule) keyID(k fval) string {
	k = g.se.resolve(k)
	if e, ok := k.v.(*ssa.Extract); ok {
		if nx, ok := e.Tuple.(*ssa.Next); ok {
			return fmt.Sprintf("next:%p", nx)
		}
	}
	return g.canon(k, 0)
}

// pathKey identifies the template name a path is built from.
func (g *genRule) pathKey(path fval) string {
	id := ""
	old := g.se.leaf
	g.se.leaf = func(x fval) ([]piece, bool) {
		if g.isKey(x) {
			n := g.keyID(x)
			if id != "" && id != n {
				id = "mixed"
			} else {
				id = n
			}
		}
		return old(x)
	}
	g.se.str(path)
	g.se.leaf = old
	return id
}

// written requires that, in every iteration over the generated texts, the
// write happens exactly once unless an error was reported.
func (g *genRule) written(in ssa.Instruction, writes []ssa.Instruction, data, path fval, fr *frame) {
	nx := g.contents(writes[0], data, path)
	// climb from the write to the loop over the templates
	events := writes
	// the open must lead to the write
	for {
		if fr == nil {
			return
		}
		var loopHead *ssa.BasicBlock
		var start []*ssa.BasicBlock
		if nx != nil && nx.Parent() == fr.fn {
			loopHead = nx.Block()
		} else if nx == nil {
			loopHead = g.keyLoop(path, fr.fn)
		}
		set := map[*ssa.BasicBlock]bool{}
		for _, e := range events {
			if e.Block().Parent() == fr.fn {
				set[e.Block()] = true
			}
		}
		if loopHead != nil {
			if iff, ok := loopHead.Instrs[len(loopHead.Instrs)-1].(*ssa.If); ok {
				_ = iff
				start = []*ssa.BasicBlock{loopHead.Succs[0]}
			}
		} else {
			start = []*ssa.BasicBlock{fr.fn.Blocks[0]}
		}
		g.r.checked++
		g.mustPass(in, start, set, loopHead)
		// at most once
		for b := range set {
			n := 0
			for _, e := range events {
				if e.Block() == b {
					n++
				}
			}
			if n > 1 || g.again(b, set, loopHead) {
				g.fail(in, "the output may be written more than once for one template")
				return
			}
		}
		if loopHead != nil {
			return
		}
		if fr.site == nil {
			g.fail(in, "the loop over the templates that leads to this write cannot be found")
			return
		}
		events = []ssa.Instruction{fr.site}
		fr = fr.up
	}
}

// keyLoop finds the loop in f over a slice of template names.
func (g *genRule) keyLoop(path fval, f *ssa.Function) *ssa.BasicBlock {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			if _, ok := u.X.(*ssa.IndexAddr); !ok {
				continue
			}
			if g.canon(fval{u, nil}, 0) == "" {
				continue
			}
			if t, ok := u.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.String {
				continue
			}
			for d := b; d != nil; d = d.Idom() {
				if len(d.Preds) > 1 && len(d.Succs) == 2 && reachesAvoiding(b, d, f.Blocks[0]) {
					return d
				}
			}
		}
	}
	return nil
}

// errEdge reports whether the i-th successor of b is taken on a reported error.
func errEdge(b *ssa.BasicBlock, i int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isErr := func(v ssa.Value) bool {
		return types.Identical(v.Type(), types.Universe.Lookup("error").Type())
	}
	isNil := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value == nil
	}
	if !(isErr(c.X) && isNil(c.Y) || isErr(c.Y) && isNil(c.X)) {
		return false
	}
	switch c.Op {
	case token.NEQ:
		return i == 0
	case token.EQL:
		return i == 1
	}
	return false
}

// mustPass requires every path from start to pass a block of set before it
// returns to head, returns, or leaves the loop.
func (g *genRule) mustPass(in ssa.Instruction, start []*ssa.BasicBlock, set map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) {
	g.mustPassMsg(in, start, set, head, "there is a path without a reported error on which a template's output is not written")
}

func (g *genRule) mustPassMsg(in ssa.Instruction, start []*ssa.BasicBlock, set map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, msg string) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock, done bool) bool
	seenD := map[*ssa.BasicBlock]bool{}
	w = func(b *ssa.BasicBlock, done bool) bool {
		if b == head {
			return done
		}
		if set[b] {
			done = true
		}
		if done {
			if seenD[b] {
				return true
			}
			seenD[b] = true
		} else {
			if seen[b] {
				return true
			}
			seen[b] = true
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				return true
			}
			// a normal return before all templates were handled
			return done && head == nil
		}
		for i, s := range b.Succs {
			if errEdge(b, i) {
				continue
			}
			if !w(s, done) {
				return false
			}
		}
		return true
	}
	for _, s := range start {
		if !w(s, false) {
			g.fail(in, "%s", msg)
			return false
		}
	}
	return true
}

// again reports whether block b reaches a write again within one iteration.
func (g *genRule) again(b *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(x *ssa.BasicBlock) bool
	w = func(x *ssa.BasicBlock) bool {
		if x == head || seen[x] {
			return false
		}
		seen[x] = true
		if set[x] {
			return true
		}
		for _, s := range x.Succs {
			if w(s) {
				return true
			}
		}
		return false
	}
	for _, s := range b.Succs {
		if w(s) {
			return true
		}
	}
	return false
}
