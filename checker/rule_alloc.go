package main

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// allocRule decides C26 for one version: no construct that allocates on the
// heap lies on a success path of an operation that must not allocate. Which
// values escape is taken from the compiler's escape analysis of the same
// source; everything else is read off the SSA form.
type allocRule struct {
	p    *Program
	ver  string
	r    *ruleResult
	esc  map[string][]string // file:line -> "escapes"/"moved" messages
	inl  map[string]bool     // file:line:col -> a call inlined there
	api  map[*ssa.Function]string
	call map[*ssa.Function][]*ssa.Call // success-path call sites, by callee
	live map[*ssa.Function]bool
	from map[*ssa.Function]string
	hits []allocHit
	ext  map[*ssa.Function]bool // functions of other packages used as values
}

// allocHit is an allocating construct found on a path to a return.
type allocHit struct {
	in ssa.Instruction
	v  Viol
}

var escLine = regexp.MustCompile(`^(?:\./)?([^:]+\.go):(\d+):(\d+): (.*)$`)

// escapeSites compiles a scratch copy of the package with -m.
func escapeSites(dir, scratch string) (map[string][]string, map[string]bool, error) {
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		return nil, nil, err
	}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	for _, e := range es {
		n := e.Name()
		if e.Type().IsRegular() && !strings.HasSuffix(n, "_test.go") && (strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum") {
			if err := copyFile(filepath.Join(scratch, n), filepath.Join(dir, n)); err != nil {
				return nil, nil, err
			}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "go", "build", "-gcflags=-m", ".")
	c.Dir = scratch
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GOARCH=amd64", "GOOS=linux", "CGO_ENABLED=0")
	out, err := c.CombinedOutput()
	if err != nil {
		return nil, nil, fmt.Errorf("%v: %s", err, firstLines(out))
	}
	sites, inl := map[string][]string{}, map[string]bool{}
	n := 0
	for _, l := range strings.Split(string(out), "\n") {
		m := escLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		n++
		k := filepath.Base(m[1]) + ":" + m[2]
		switch {
		case strings.HasSuffix(m[4], "escapes to heap"), strings.HasPrefix(m[4], "moved to heap"):
			sites[k] = append(sites[k], m[4])
		case strings.HasPrefix(m[4], "inlining call to"):
			inl[k+":"+m[3]] = true
		}
	}
	if n == 0 {
		return nil, nil, fmt.Errorf("the compiler reported nothing")
	}
	return sites, inl, nil
}

func ruleAlloc(p *Program, ver, dir, scratch string) *ruleResult {
	a := &allocRule{p: p, ver: ver, r: &ruleResult{}, api: map[*ssa.Function]string{}, call: map[*ssa.Function][]*ssa.Call{}, live: map[*ssa.Function]bool{}, ext: map[*ssa.Function]bool{}, from: map[*ssa.Function]string{}}
	rule := ver + "/allocation"
	var err error
	a.esc, a.inl, err = escapeSites(dir, scratch)
	if err != nil {
		a.r.fail("C26", rule, dir, "", "the compiler's escape analysis is not available: %v", err)
		return a.r
	}
	typs := []string{"MiniBuffer"}
	if ver == "v3" {
		typs = append(typs, "Buffer")
	}
	for _, t := range typs {
		for _, name := range expected(ver, t) {
			o, _ := describe(ver, name)
			if o.class == "grow" || o.class == "new" || t == "Buffer" && o.class == "typedR" {
				continue
			}
			fn := p.method(t, o.name)
			if fn == nil {
				a.r.fail("C26", rule, "?", t+"."+o.name, "%s.%s is missing", t, o.name)
				continue
			}
			a.api[fn] = t + "." + o.name
		}
	}
	a.r.count("operations of "+ver, len(a.api))
	var roots []*ssa.Function
	for f := range a.api {
		roots = append(roots, f)
	}
	sort.Slice(roots, func(i, j int) bool { return a.api[roots[i]] < a.api[roots[j]] })
	for _, f := range roots {
		a.visit(f, a.api[f], rule)
	}
	var fs []*ssa.Function
	for f := range a.live {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		a.check(f, rule)
	}
	a.settle()
	a.r.count("functions on success paths", len(fs))
	a.r.notes = append(a.r.notes, fmt.Sprintf("%s: %d operations, %d functions on their success paths, %d escape sites reported by the compiler", ver, len(a.api), len(fs), len(a.esc)))
	return a.r
}

// successBlocks are the blocks from which a normal return is reachable.
func successBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	ok := map[*ssa.BasicBlock]bool{}
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		if ok[b] {
			return
		}
		ok[b] = true
		for _, p := range b.Preds {
			mark(p)
		}
	}
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		if _, r := b.Instrs[len(b.Instrs)-1].(*ssa.Return); r {
			mark(b)
		}
	}
	return ok
}

// returns reports whether a function can return at all.
func canReturn(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return true
	}
	return successBlocks(f)[f.Blocks[0]]
}

// liveInstrs yields the instructions of f that lie on a path to a return,
// stopping a block at a call that never returns.
func liveInstrs(f *ssa.Function, own func(*ssa.Function) bool, yield func(ssa.Instruction)) {
	ok := successBlocks(f)
	for _, b := range f.Blocks {
		if !ok[b] {
			continue
		}
		end := len(b.Instrs)
		stop := false
		for i, in := range b.Instrs {
			if c, isC := in.(*ssa.Call); isC {
				if t := c.Call.StaticCallee(); t != nil && t != f && own(t) && !canReturn(t) {
					end, stop = i+1, true
					break
				}
			}
		}
		if stop {
			// everything in this block leads to that panic
			continue
		}
		for _, in := range b.Instrs[:end] {
			yield(in)
		}
	}
}

func (a *allocRule) visit(f *ssa.Function, from, rule string) {
	if a.live[f] {
		return
	}
	a.live[f] = true
	a.from[f] = from
	liveInstrs(f, a.p.ownFn, func(in ssa.Instruction) {
		// function values made here may be called from here on
		for _, t := range funcValues(in) {
			if a.p.ownFn(t) && len(t.Blocks) > 0 {
				a.visit(t, from, rule)
			} else {
				a.ext[t] = true
			}
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cm := c.Common()
		if cm.IsInvoke() {
			ts, _ := a.p.implementers(cm)
			for _, t := range ts {
				a.visit(t, from, rule)
			}
			return
		}
		t := cm.StaticCallee()
		if t == nil {
			return
		}
		if a.p.ownFn(t) && len(t.Blocks) > 0 {
			if cc, ok := in.(*ssa.Call); ok {
				a.call[t] = append(a.call[t], cc)
			}
			a.visit(t, from, rule)
		}
	})
}

// implementers are the package's own methods that a call through an interface
// may reach; all reports that there can be no others, the interface being one
// that only the package itself can name.
func (p *Program) implementers(cm *ssa.CallCommon) (ts []*ssa.Function, all bool) {
	it, ok := cm.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, false
	}
	own := p.main.Pkg
	if n, ok := cm.Value.Type().(*types.Named); ok && n.Obj().Pkg() == own && !n.Obj().Exported() {
		all = true
	}
	if pk := cm.Method.Pkg(); pk == own && !cm.Method.Exported() {
		all = true
	}
	prog := p.main.Prog
	for _, t := range prog.RuntimeTypes() {
		if types.IsInterface(t) || !types.Implements(t, it) {
			continue
		}
		sel := prog.MethodSets.MethodSet(t).Lookup(cm.Method.Pkg(), cm.Method.Name())
		if sel == nil {
			return ts, false
		}
		f := prog.MethodValue(sel)
		// the method itself rather than the wrapper made for the pointer
		if o := prog.FuncValue(sel.Obj().(*types.Func)); o != nil && p.ownFn(o) {
			f = o
		}
		if f == nil || len(f.Blocks) == 0 || !p.ownFn(f) {
			return ts, false
		}
		ts = append(ts, f)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	return ts, all && len(ts) > 0
}

// funcValues are the functions in uses as values.
func funcValues(in ssa.Instruction) (r []*ssa.Function) {
	var callee ssa.Value
	if c, ok := in.(ssa.CallInstruction); ok {
		callee = c.Common().Value
		if _, ok := callee.(*ssa.Function); !ok {
			callee = nil
		}
	}
	skipped := false
	for _, op := range in.Operands(nil) {
		t, ok := (*op).(*ssa.Function)
		if !ok {
			continue
		}
		if !skipped && callee == ssa.Value(t) {
			skipped = true
			continue
		}
		r = append(r, t)
	}
	return r
}

// ownValue reports whether function value v can only be one made by the
// package's own code: those are checked wherever they are made.
func (a *allocRule) ownValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function, *ssa.MakeClosure, *ssa.Const:
		return true
	case *ssa.Parameter:
		f := x.Parent()
		return f.Parent() != nil || f.Object() != nil && !f.Object().Exported() || f.Synthetic != ""
	case *ssa.FreeVar:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.ownValue(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return a.ownValue(x.X, seen)
	case *ssa.UnOp:
		switch x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return x.Op == token.MUL
		}
	case *ssa.Call:
		t := x.Call.StaticCallee()
		return t != nil && a.p.ownFn(t)
	}
	return false
}

var allocFree = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.Mutex).TryLock": true,
	"(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"math.Float32bits": true, "math.Float64bits": true, "math.Float32frombits": true, "math.Float64frombits": true,
	"runtime.KeepAlive": true, "bytes.Equal": true, "bytes.Compare": true,
}

// stdAllocates reports why a standard function may allocate, from its source.
func (a *allocRule) stdAllocates(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[f] || allocFree[f.String()] {
		return ""
	}
	seen[f] = true
	if o := f.Origin(); o != nil && allocFree[o.String()] {
		return ""
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "math/bits" {
		return ""
	}
	if len(f.Blocks) == 0 {
		return "calls " + f.String() + ", whose allocations are unknown"
	}
	why := ""
	liveInstrs(f, func(*ssa.Function) bool { return false }, func(in ssa.Instruction) {
		if why != "" {
			return
		}
		if al, ok := in.(*ssa.Alloc); ok && !al.Heap {
			return
		}
		if s := allocKind(in); s != "" {
			why = "calls " + f.String() + ", which may allocate (" + s + ")"
			return
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if _, b := c.Common().Value.(*ssa.Builtin); b {
				return
			}
			if t := c.Common().StaticCallee(); t != nil {
				why = a.stdAllocates(t, seen)
			} else {
				why = "calls " + f.String() + ", which makes a dynamic call"
			}
		}
	})
	return why
}

// allocKind names the way an instruction may allocate.
func allocKind(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Alloc:
		if x.Heap && sizes.Sizeof(x.Type().(*types.Pointer).Elem()) > 0 {
			return "variable " + x.Comment
		}
	case *ssa.MakeSlice:
		if n, ok := kInt(x.Cap); ok && n == 0 {
			return ""
		}
		return "make of a slice"
	case *ssa.MakeMap:
		return "make of a map"
	case *ssa.MakeChan:
		return "make of a channel"
	case *ssa.MakeClosure:
		return "function literal"
	case *ssa.Go:
		return "go statement"
	case *ssa.MakeInterface:
		switch x.X.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return ""
		}
		if _, ok := x.X.(*ssa.Const); ok {
			return ""
		}
		if sizes.Sizeof(x.X.Type()) == 0 {
			return ""
		}
		return "conversion to an interface"
	case *ssa.Convert:
		if isBytesOrString(x.Type()) && isBytesOrString(x.X.Type()) || isStr(x.Type()) && !isStr(x.X.Type()) {
			return "string conversion"
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type()) {
			return "string concatenation"
		}
	case *ssa.MapUpdate:
		return "map update"
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return "append"
		}
	}
	return ""
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (a *allocRule) line(pos token.Pos) (string, string) {
	q := a.p.fset.Position(pos)
	k := filepath.Base(q.Filename) + ":" + strconv.Itoa(q.Line)
	return k, k + ":" + strconv.Itoa(q.Column)
}

// describes reports whether compiler message m is about construct in.
func describes(m string, in ssa.Instruction) bool {
	if v := strings.TrimPrefix(m, "moved to heap: "); v != m {
		al, ok := in.(*ssa.Alloc)
		return ok && al.Comment == v
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		switch {
		case isVarName(x):
			return false
		case x.Comment == "varargs":
			return strings.HasPrefix(m, "... argument")
		case x.Comment == "new":
			return strings.HasPrefix(m, "new(")
		case x.Comment == "makeslice":
			return strings.HasPrefix(m, "make(")
		}
		return strings.Contains(m, "{")
	case *ssa.MakeClosure:
		if x.Fn.(*ssa.Function).Synthetic != "" {
			return !strings.HasPrefix(m, "make(") && !strings.HasPrefix(m, "func literal")
		}
		return strings.HasPrefix(m, "func literal")
	case *ssa.MakeInterface:
		return !strings.HasPrefix(m, "make(") && !strings.HasPrefix(m, "func literal") && !strings.HasPrefix(m, "... argument")
	}
	return true
}

// onHeap reports whether the compiler puts construct in, written in the
// function it stands in, on the heap.
func (a *allocRule) onHeap(in ssa.Instruction, pos token.Pos) bool {
	k, _ := a.line(pos)
	for _, m := range a.esc[k] {
		if describes(m, in) {
			return true
		}
	}
	return false
}

// isVarName reports whether an allocation is a declared variable.
func isVarName(al *ssa.Alloc) bool {
	switch al.Comment {
	case "complit", "slicelit", "makeslice", "new", "varargs", "":
		return false
	}
	return true
}

// heapInCallers reports whether, with f inlined into each of its callers, the
// construct is still put on the heap somewhere.
func (a *allocRule) heapInCallers(in ssa.Instruction, f *ssa.Function, d int) bool {
	if a.api[f] != "" || d > 6 || f.Object() != nil && f.Object().Exported() || len(a.call[f]) == 0 {
		return true
	}
	for _, c := range a.call[f] {
		k, kc := a.line(c.Pos())
		if !a.inl[kc] {
			return true
		}
		heap := false
		for _, m := range a.esc[k] {
			heap = heap || describes(m, in)
		}
		if heap && a.heapInCallers(in, c.Parent(), d+1) {
			return true
		}
	}
	return false
}

func (a *allocRule) check(f *ssa.Function, rule string) {
	loops := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if reachesAvoiding(s, b, nil) {
				loops[b] = true
			}
		}
	}
	liveInstrs(f, a.p.ownFn, func(in ssa.Instruction) {
		a.r.count("instructions on success paths", 1)
		pos := in.Pos()
		bad := func(format string, x ...interface{}) {
			at := pos
			if !at.IsValid() {
				at = f.Pos()
			}
			a.hits = append(a.hits, allocHit{in, Viol{Prop: "C26", Case: rule, Fn: f.String(), Pos: a.p.pos(at), What: fmt.Sprintf("%s, on a success path of %s", fmt.Sprintf(format, x...), a.from[f])}})
		}
		if d, ok := in.(*ssa.Defer); ok && loops[in.Block()] {
			a.r.checked++
			_ = d
			bad("a deferred call in a loop allocates")
			return
		}
		if s := allocKind(in); s != "" {
			a.r.checked++
			switch x := in.(type) {
			case *ssa.MakeSlice:
				bad("make([]%s) with a variable size allocates", x.Type().Underlying().(*types.Slice).Elem())
				return
			case *ssa.MakeMap, *ssa.MakeChan, *ssa.MapUpdate, *ssa.Go:
				bad("%s allocates", s)
				return
			case ssa.CallInstruction:
				bad("%s may allocate", s)
				return
			case *ssa.Convert, *ssa.BinOp:
				bad("%s may allocate", s)
				return
			}
			if mi, ok := in.(*ssa.MakeInterface); ok && !pos.IsValid() {
				pos = mi.X.Pos()
			}
			if mc, ok := in.(*ssa.MakeClosure); ok && !pos.IsValid() {
				pos = mc.Fn.Pos()
			}
			if !pos.IsValid() {
				bad("%s may allocate", s)
				return
			}
			if a.onHeap(in, pos) && a.heapInCallers(in, f, 0) {
				bad("%s is allocated on the heap", s)
			}
			return
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cm := c.Common()
		if _, b := cm.Value.(*ssa.Builtin); b {
			return
		}
		a.r.checked++
		if cm.IsInvoke() {
			if pk := cm.Method.Pkg(); pk != nil && pk.Path() == "encoding/binary" && !strings.HasPrefix(cm.Method.Name(), "Append") && cm.Method.Name() != "String" {
				return
			}
			if _, all := a.p.implementers(cm); !all {
				bad("calls %s, whose allocations are unknown", calleeName(cm))
			}
			return
		}
		t := cm.StaticCallee()
		if t == nil {
			if !a.ownValue(cm.Value, map[ssa.Value]bool{}) {
				bad("makes a dynamic call, whose allocations are unknown")
				return
			}
			for t := range a.ext {
				if types.Identical(t.Signature, cm.Signature()) {
					if why := a.stdAllocates(t, map[*ssa.Function]bool{}); why != "" {
						bad("%s", why)
					}
				}
			}
			return
		}
		if a.p.ownFn(t) && len(t.Blocks) > 0 {
			return
		}
		if why := a.stdAllocates(t, map[*ssa.Function]bool{}); why != "" {
			bad("%s", why)
		}
	})
}

// settle reports the constructs found, except those that the path analysis of
// the operations shows to be executed only on the way to a panic (such as an
// error value boxed by a helper whose caller then panics with it).
func (a *allocRule) settle() {
	if len(a.hits) == 0 {
		return
	}
	keep := a.executed()
	for _, h := range a.hits {
		if keep == nil || keep[h.in] {
			a.r.viol = append(a.r.viol, h.v)
		} else {
			a.r.count("constructs executed on the way to a panic only", 1)
		}
	}
}

// executed runs the unrestricted case of every operation that reaches one of
// the constructs found and yields those met by an execution that returns; nil
// means this could not be established.
func (a *allocRule) executed() map[ssa.Instruction]bool {
	watch := map[ssa.Instruction]uint{}
	at := map[*ssa.Function]bool{}
	for _, h := range a.hits {
		if _, ok := watch[h.in]; !ok {
			watch[h.in] = uint(len(watch))
			at[h.in.Parent()] = true
		}
	}
	if len(watch) > 64 {
		return nil
	}
	prefixes := map[string]bool{}
	for f, name := range a.api {
		seen := map[*ssa.Function]bool{}
		var reach func(f *ssa.Function) bool
		reach = func(f *ssa.Function) bool {
			if at[f] {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, t := range funcValues(in) {
						if a.p.ownFn(t) && reach(t) {
							return true
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						if t := c.Common().StaticCallee(); t != nil && a.p.ownFn(t) && reach(t) {
							return true
						}
					}
				}
			}
			return false
		}
		if reach(f) {
			prefixes[a.ver+"."+name+"/any"] = true
		}
	}
	var cases []Case
	got := map[string]bool{}
	for _, c := range buildCases(a.p, a.ver, "quick") {
		k := c.ID
		if i := strings.Index(k, "/any"); i >= 0 {
			k = k[:i+4]
		}
		if prefixes[k] {
			got[k] = true
			cases = append(cases, c)
		}
	}
	if len(got) != len(prefixes) || len(cases) == 0 {
		return nil
	}
	a.p.watch = watch
	defer func() { a.p.watch = nil }()
	var met uint64
	bad := false
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan Case)
	start := time.Now()
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				mu.Lock()
				done := bad || bits.OnesCount64(met) == len(watch) || time.Since(start) > runTime/2
				bad = bad || time.Since(start) > runTime/2
				mu.Unlock()
				if done {
					continue
				}
				s := c.Run()
				var m uint64
				u := len(s.outs) == 0
				for _, o := range s.outs {
					switch o.kind {
					case 'r':
						m |= o.st.met
					case 'p':
					default:
						u = true
					}
				}
				mu.Lock()
				met |= m
				bad = bad || u
				mu.Unlock()
			}
		}()
	}
	for _, c := range cases {
		ch <- c
	}
	close(ch)
	wg.Wait()
	if bad {
		return nil
	}
	keep := map[ssa.Instruction]bool{}
	for in, k := range watch {
		if met>>k&1 == 1 {
			keep[in] = true
		}
	}
	a.r.count("cases run to see which of the constructs a returning execution meets", len(cases))
	return keep
}
