package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fileRule decides C28 (a file that cannot be read or written affects only
// itself) and C29 (every template is taken up) by following the generator's
// SSA paths from one event over an abstract state that knows which errors are
// nil, which conditions hold, and whether the file entered the template set.
type fileRule struct {
	g      *genRule
	p      *Program
	r      *ruleResult
	prop   string
	rule   string
	frames map[string]*frame
	infos  map[*ssa.Function]*fnInfo

	// the run at hand
	fail     *wat            // the operation that fails (C28)
	names    map[string]bool // the entry's name (C29)
	loop     *loop
	loopFr   *frame
	ext      *frame // the callback taking the place of a loop
	site     *ssa.BasicBlock
	opens    bool // C28: the failing operation opens or reads
	complete bool // C29 mode
	collect  bool // C29: the loop collects templates
	nonEmpty bool
	seen     map[string]bool
	steps    int
	report   map[string]bool
}

// wat is an instruction in a calling context.
type wat struct {
	in ssa.Instruction
	fr *frame
}

func ruleFiles(p *Program, prop string) *ruleResult {
	r := &ruleResult{}
	w := &fileRule{p: p, r: r, prop: prop, frames: map[string]*frame{}, infos: map[*ssa.Function]*fnInfo{}, report: map[string]bool{}}
	w.rule = "generation/files"
	w.g = &genRule{p: p, r: &ruleResult{}, visited: map[ssa.Instruction]bool{}, loops: map[*ssa.Next]*frame{}}
	w.g.se = &strEval{own: p.ownFn}
	w.g.se.leaf = w.g.leaf
	guardRule(r, prop, w.rule, func() {
		if prop == "C28" {
			w.runFailures()
		} else {
			w.runComplete()
		}
	})
	return r
}

func (w *fileRule) bad(in ssa.Instruction, format string, a ...interface{}) {
	pos, fn := "?", ""
	if in != nil {
		pos = w.p.pos(in.Pos())
		if in.Parent() != nil {
			fn = in.Parent().String()
			if !in.Pos().IsValid() {
				pos = w.p.pos(in.Parent().Pos())
			}
		}
	}
	k := pos + fmt.Sprintf(format, a...)
	if w.report[k] {
		return
	}
	w.report[k] = true
	w.r.fail(w.prop, w.rule, pos, fn, format, a...)
}

/* ---- contexts ---- */

// callee finds the function a call runs when it is one of the generator's own.
func (w *fileRule) callee(cm *ssa.CallCommon, fr *frame) (*ssa.Function, *ssa.MakeClosure, *frame) {
	if cm.IsInvoke() {
		x := w.g.se.resolve(fval{cm.Value, fr})
		if m, ok := x.v.(*ssa.MakeInterface); ok {
			if f := w.p.prog.LookupMethod(m.X.Type(), cm.Method.Pkg(), cm.Method.Name()); f != nil && w.p.ownFn(f) && len(f.Blocks) > 0 {
				return f, nil, nil
			}
		}
		return nil, nil, nil
	}
	x := w.g.se.resolve(fval{cm.Value, fr})
	switch v := x.v.(type) {
	case *ssa.Function:
		if w.p.ownFn(v) && len(v.Blocks) > 0 {
			return v, nil, nil
		}
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		if len(f.Blocks) > 0 {
			return f, v, x.fr
		}
	}
	return nil, nil, nil
}

func depthOf(fr *frame) int {
	if fr == nil {
		return 0
	}
	return fr.depth
}

// enterAt is the (one) frame of function f called at site from fr.
func (w *fileRule) enterAt(f *ssa.Function, mc *ssa.MakeClosure, mcFr *frame, cm *ssa.CallCommon, site ssa.Instruction, fr *frame, tag string) *frame {
	k := fmt.Sprintf("%p/%p/%p/%s", site, fr, f, tag)
	if nf := w.frames[k]; nf != nil {
		return nf
	}
	nf := &frame{fn: f, up: fr, site: site, depth: depthOf(fr) + 1}
	if cm != nil {
		if cm.IsInvoke() {
			x := w.g.se.resolve(fval{cm.Value, fr})
			if m, ok := x.v.(*ssa.MakeInterface); ok {
				nf.args = append(nf.args, fval{m.X, x.fr})
			} else {
				nf.args = append(nf.args, fval{})
			}
		}
		for _, a := range cm.Args {
			nf.args = append(nf.args, fval{a, fr})
		}
	}
	if mc != nil {
		for _, b := range mc.Bindings {
			nf.frees = append(nf.frees, fval{b, mcFr})
		}
	}
	w.frames[k] = nf
	return nf
}

// each visits every instruction reachable from main, in context. ext is the
// innermost frame of a callback handed to code outside the generator.
func (w *fileRule) each(f func(in ssa.Instruction, fr, ext *frame)) {
	main := w.p.main.Func("main")
	if main == nil {
		w.bad(nil, "the generator has no main function")
		return
	}
	stack := map[*ssa.Function]bool{}
	var walk func(fr, ext *frame)
	walk = func(fr, ext *frame) {
		if stack[fr.fn] || fr.depth > 12 {
			return
		}
		stack[fr.fn] = true
		defer delete(stack, fr.fn)
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				f(in, fr, ext)
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				if cf, mc, mf := w.callee(cm, fr); cf != nil {
					walk(w.enterAt(cf, mc, mf, cm, in, fr, ""), ext)
					continue
				}
				for _, a := range cm.Args {
					x := w.g.se.resolve(fval{a, fr})
					switch v := x.v.(type) {
					case *ssa.MakeClosure:
						nf := w.enterAt(v.Fn.(*ssa.Function), v, x.fr, nil, in, fr, "ext")
						walk(nf, nf)
					case *ssa.Function:
						if w.p.ownFn(v) && len(v.Blocks) > 0 {
							nf := w.enterAt(v, nil, nil, nil, in, fr, "ext")
							walk(nf, nf)
						}
					}
				}
			}
		}
	}
	mf := w.frames["main"]
	if mf == nil {
		mf = &frame{fn: main}
		w.frames["main"] = mf
	}
	walk(mf, nil)
}

// perFile finds the loop (or callback) that handles one file per round around
// an instruction: the outermost loop of the topmost frame that has one.
func (w *fileRule) perFile(in ssa.Instruction, fr, ext *frame) (*loop, *frame, *ssa.BasicBlock) {
	if ext != nil {
		return nil, ext, nil
	}
	var l *loop
	var lf *frame
	var lb *ssa.BasicBlock
	for b := in.Block(); ; {
		for _, c := range w.info(fr.fn).loops {
			if c.blocks[b] && (lf != fr || len(c.blocks) > len(l.blocks)) {
				l, lf, lb = c, fr, b
			}
		}
		if fr.site == nil {
			break
		}
		b, fr = fr.site.Block(), fr.up
	}
	return l, lf, lb
}

func (w *fileRule) info(f *ssa.Function) *fnInfo {
	if w.infos[f] == nil {
		w.infos[f] = analyzeCFG(f)
	}
	return w.infos[f]
}

/* ---- which calls touch files ---- */

// fileOp classifies an external call: whether it can fail on one file, and
// whether its failing means that a file's contents are not known completely.
func (w *fileRule) fileOp(c ssa.CallInstruction, fr *frame) (op, reads bool) {
	cm := c.Common()
	if !hasError(cm) {
		return false, false
	}
	if cm.IsInvoke() {
		if w.isFile(fval{cm.Value, fr}) {
			return true, strings.HasPrefix(cm.Method.Name(), "Read")
		}
		return false, false
	}
	switch n := calleeName(cm); n {
	case "os.Open", "os.ReadFile", "io/ioutil.ReadFile", "io/fs.ReadFile":
		return true, true
	case "os.OpenFile":
		fl, ok := w.g.se.cint(fval{cm.Args[1], fr})
		return true, ok && fl == 0
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Stat", "os.Lstat", "(*os.File).Stat", "(*os.File).Close", "(*os.File).Sync", "(*os.File).Write", "(*os.File).WriteString", "(*os.File).Truncate", "(*os.File).Seek", "io.WriteString":
		if n == "io.WriteString" {
			return w.isFile(fval{cm.Args[0], fr}), false
		}
		return true, false
	case "(*os.File).Read", "(*os.File).ReadAt":
		return true, true
	case "io.ReadAll", "io/ioutil.ReadAll":
		return w.isFile(fval{cm.Args[0], fr}), true
	case "io.ReadFull", "io.ReadAtLeast":
		return w.isFile(fval{cm.Args[0], fr}), true
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		if w.isFile(fval{cm.Args[1], fr}) {
			return true, true
		}
		return w.isFile(fval{cm.Args[0], fr}), false
	case "(*bytes.Buffer).ReadFrom":
		return w.isFile(fval{cm.Args[1], fr}), true
	case "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo", "(*strings.Reader).WriteTo":
		return w.isFile(fval{cm.Args[1], fr}), false
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return w.isFile(fval{cm.Args[0], fr}) && !w.isStd(fval{cm.Args[0], fr}), false
	case "(*bufio.Scanner).Err":
		return true, true
	case "(*bufio.Reader).Read", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes":
		return true, true
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Flush":
		return true, false
	}
	return false, false
}

func hasError(cm *ssa.CallCommon) bool {
	res := cm.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isErrType(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (w *fileRule) isStd(x fval) bool {
	x = w.g.se.resolve(x)
	if m, ok := x.v.(*ssa.MakeInterface); ok {
		x = w.g.se.resolve(fval{m.X, x.fr})
	}
	if u, ok := x.v.(*ssa.UnOp); ok {
		if gl, ok := u.X.(*ssa.Global); ok {
			return gl.Name() == "Stdout" || gl.Name() == "Stderr"
		}
	}
	return false
}

// isFile reports whether a value is (an interface holding) an *os.File.
func (w *fileRule) isFile(x fval) bool {
	x = w.g.se.resolve(x)
	t := x.v.Type()
	if m, ok := x.v.(*ssa.MakeInterface); ok {
		t = m.X.Type()
		if c, ok := w.g.se.resolve(fval{m.X, x.fr}).v.(*ssa.Call); ok && len(c.Call.Args) > 0 {
			// a reader or writer wrapped around the file
			switch calleeName(&c.Call) {
			case "bufio.NewReader", "bufio.NewWriter", "bufio.NewReaderSize", "bufio.NewWriterSize", "io.LimitReader", "io.TeeReader":
				return w.isFile(fval{c.Call.Args[0], x.fr})
			}
		}
	}
	return t.String() == "*os.File" || t.String() == "io/fs.File"
}

// ends reports whether a call never returns.
func endsProgram(n string) bool {
	switch n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit", "syscall.Exit",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf":
		return true
	}
	return false
}

/* ---- abstract state ---- */

type aval byte

const (
	aUnknown aval = iota
	aNil
	aSet // not nil
	aTrue
	aFalse
	aFailed // the error of the failing operation (not nil, not io.EOF)
	aBroken // a result of the failing operation
)

type wstate struct {
	vals   map[string]aval
	defers map[*frame][]ssa.Instruction
	cells  map[string]aval
	open   map[string]ssa.Instruction // C29: files opened in this round and not closed
	inSet  bool                       // the file is in the template set
	lap    bool                       // past the end of the round
}

func (s *wstate) clone() *wstate {
	n := &wstate{vals: make(map[string]aval, len(s.vals)+4), cells: make(map[string]aval, len(s.cells)+2), inSet: s.inSet, lap: s.lap}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	if len(s.open) > 0 {
		n.open = map[string]ssa.Instruction{}
		for k, v := range s.open {
			n.open[k] = v
		}
	}
	if len(s.defers) > 0 {
		n.defers = map[*frame][]ssa.Instruction{}
		for k, v := range s.defers {
			n.defers[k] = v
		}
	}
	return n
}

func (s *wstate) key() string {
	var ks []string
	for k, v := range s.vals {
		if v != aUnknown {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	for k, v := range s.cells {
		if v != aUnknown {
			ks = append(ks, fmt.Sprintf("*%s=%d", k, v))
		}
	}
	for k, v := range s.defers {
		if len(v) > 0 {
			ks = append(ks, fmt.Sprintf("d%p=%d", k, len(v)))
		}
	}
	for k := range s.open {
		ks = append(ks, "o"+k)
	}
	sort.Strings(ks)
	return fmt.Sprintf("%v/%v/%s", s.inSet, s.lap, strings.Join(ks, ";"))
}

func vkey(v ssa.Value, fr *frame) string { return fmt.Sprintf("%p.%p", v, fr) }

func (w *fileRule) get(s *wstate, v ssa.Value, fr *frame) aval {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			switch c.Type().Underlying().(type) {
			case *types.Basic, *types.Struct, *types.Array:
				return aUnknown
			}
			return aNil
		}
		if c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				return aTrue
			}
			return aFalse
		}
		return aUnknown
	case *ssa.Function, *ssa.MakeClosure:
		return aSet
	case *ssa.Global:
		return aSet
	}
	if a, ok := s.vals[vkey(v, fr)]; ok {
		return a
	}
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		x := w.g.se.resolve(fval{v, fr})
		if x.v != v {
			return w.get(s, x.v, x.fr)
		}
	}
	return aUnknown
}

// cell names a memory location, "" when it is not followed.
func (w *fileRule) cell(addr ssa.Value, fr *frame, d int) string {
	x := w.g.se.resolve(fval{addr, fr})
	switch v := x.v.(type) {
	case *ssa.Alloc:
		return vkey(v, x.fr)
	case *ssa.Global:
		return fmt.Sprintf("%p", v)
	case *ssa.FieldAddr:
		if d < 4 {
			if b := w.cell(v.X, x.fr, d+1); b != "" {
				return fmt.Sprintf("%s.%d", b, v.Field)
			}
		}
	}
	return ""
}

func zeroOf(t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return aFalse
		}
		return aUnknown
	case *types.Struct, *types.Array:
		return aUnknown
	}
	return aNil
}

// put records a value, keeping only what matters.
func (w *fileRule) put(s *wstate, v ssa.Value, fr *frame, a aval) {
	if a == aUnknown {
		delete(s.vals, vkey(v, fr))
		return
	}
	s.vals[vkey(v, fr)] = a
}

/* ---- following paths ---- */

type wpos struct {
	fr   *frame
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
}

const maxFileSteps = 400000

type wdone struct{ why string }

// follow explores every path from pos.
func (w *fileRule) follow(pos wpos, s *wstate) {
	for {
		w.steps++
		if w.steps > maxFileSteps {
			panic(wdone{"too many paths"})
		}
		if pos.idx == 0 {
			if w.boundary(pos, s) {
				return
			}
			k := fmt.Sprintf("%p.%d.%d/%s", pos.fr, pos.b.Index, idxOf(pos.prev), s.key())
			if w.seen[k] {
				return
			}
			w.seen[k] = true
			// phis read the state before the block
			var upd []aval
			var phis []*ssa.Phi
			for _, in := range pos.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e := aUnknown
				for i, p := range pos.b.Preds {
					if p == pos.prev {
						e = w.get(s, ph.Edges[i], pos.fr)
					}
				}
				phis, upd = append(phis, ph), append(upd, e)
			}
			for i, ph := range phis {
				w.put(s, ph, pos.fr, upd[i])
			}
			pos.idx = len(phis)
		}
		in := pos.b.Instrs[pos.idx]
		switch x := in.(type) {
		case *ssa.Jump:
			pos = wpos{pos.fr, pos.b.Succs[0], pos.b, 0}
			continue
		case *ssa.If:
			switch w.cond(s, x.Cond, pos.fr) {
			case aTrue:
				w.assume(s, x.Cond, pos.fr, true)
				pos = wpos{pos.fr, pos.b.Succs[0], pos.b, 0}
			case aFalse:
				w.assume(s, x.Cond, pos.fr, false)
				pos = wpos{pos.fr, pos.b.Succs[1], pos.b, 0}
			default:
				t := s.clone()
				w.assume(t, x.Cond, pos.fr, true)
				w.follow(wpos{pos.fr, pos.b.Succs[0], pos.b, 0}, t)
				w.assume(s, x.Cond, pos.fr, false)
				pos = wpos{pos.fr, pos.b.Succs[1], pos.b, 0}
			}
			continue
		case *ssa.Panic:
			w.leaves(in, s, "panics")
			return
		case *ssa.Return:
			if pos.fr == w.loopFr && !s.lap && w.ext == nil {
				w.leaves(in, s, "returns")
				return
			}
			if w.ext == pos.fr {
				w.extReturn(x, s)
				return
			}
			if pos.fr.site == nil {
				return
			}
			up := pos.fr.up
			site := pos.fr.site
			if c, ok := site.(*ssa.Call); ok {
				if len(x.Results) == 1 {
					w.put(s, c, up, w.get(s, x.Results[0], pos.fr))
				} else {
					for i, r := range x.Results {
						a := w.get(s, r, pos.fr)
						k := fmt.Sprintf("%s#%d", vkey(c, up), i)
						if a == aUnknown {
							delete(s.vals, k)
						} else {
							s.vals[k] = a
						}
					}
				}
			}
			w.drop(s, pos.fr)
			i := indexIn(site)
			if _, ok := site.(*ssa.RunDefers); !ok {
				i++
			}
			pos = wpos{up, site.Block(), nil, i}
			continue
		case *ssa.Defer:
			if cf, _, _ := w.callee(&x.Call, pos.fr); cf != nil {
				if s.defers == nil {
					s.defers = map[*frame][]ssa.Instruction{}
				}
				s.defers[pos.fr] = append(append([]ssa.Instruction{}, s.defers[pos.fr]...), x)
			} else if pos.fr != w.loopFr || w.ext != nil {
				w.closes(s, &x.Call, pos.fr) // runs before the round ends
			}
		case *ssa.RunDefers:
			if ds := s.defers[pos.fr]; len(ds) > 0 {
				d := ds[len(ds)-1].(*ssa.Defer)
				s.defers[pos.fr] = ds[:len(ds)-1]
				cf, mc, mf := w.callee(&d.Call, pos.fr)
				if cf != nil && pos.fr.depth < 12 {
					nf := w.enterAt(cf, mc, mf, &d.Call, x, pos.fr, fmt.Sprintf("%p", d))
					w.bindArgs(s, nf, &d.Call, pos.fr)
					pos = wpos{nf, cf.Blocks[0], nil, 0}
					continue
				}
			}
		case *ssa.Call:
			if cf, mc, mf := w.callee(&x.Call, pos.fr); cf != nil && depthOf(pos.fr) < 12 && !w.active(pos.fr, cf) {
				nf := w.enterAt(cf, mc, mf, &x.Call, x, pos.fr, "")
				w.bindArgs(s, nf, &x.Call, pos.fr)
				pos = wpos{nf, cf.Blocks[0], nil, 0}
				continue
			}
			if endsProgram(calleeName(&x.Call)) {
				w.leaves(in, s, "ends the program")
				return
			}
			w.call(x, s, pos.fr)
		case *ssa.MapUpdate:
			if isTemplateMap(x.Map.Type()) && !w.g.localConstMap(x.Map) {
				s.inSet = true
			}
		case *ssa.Store:
			if c := w.cell(x.Addr, pos.fr, 0); c != "" {
				a := w.get(s, x.Val, pos.fr)
				if a == aUnknown {
					delete(s.cells, c)
				} else {
					s.cells[c] = a
				}
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				w.put(s, v, pos.fr, w.value(s, v, pos.fr))
			}
		}
		pos.idx++
	}
}

func idxOf(b *ssa.BasicBlock) int {
	if b == nil {
		return -1
	}
	return b.Index
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return 0
}

func (w *fileRule) active(fr *frame, f *ssa.Function) bool {
	for ; fr != nil; fr = fr.up {
		if fr.fn == f {
			return true
		}
	}
	return false
}

// drop forgets what belongs to a frame that has returned.
func (w *fileRule) drop(s *wstate, fr *frame) {
	suf := fmt.Sprintf(".%p", fr)
	for k := range s.vals {
		if strings.HasSuffix(k, suf) || strings.Contains(k, suf+"#") {
			delete(s.vals, k)
		}
	}
	delete(s.defers, fr)
}

func (w *fileRule) bindArgs(s *wstate, nf *frame, cm *ssa.CallCommon, fr *frame) {
	k := 0
	if cm.IsInvoke() {
		k = 1
	}
	for i, p := range nf.fn.Params {
		if i >= k && i-k < len(cm.Args) {
			w.put(s, p, nf, w.get(s, cm.Args[i-k], fr))
		}
	}
}

// value evaluates an instruction without effects.
func (w *fileRule) value(s *wstate, v ssa.Value, fr *frame) aval {
	switch x := v.(type) {
	case *ssa.Alloc:
		c := vkey(x, fr)
		for k := range s.cells {
			if k == c || strings.HasPrefix(k, c+".") {
				delete(s.cells, k)
			}
		}
		t := x.Type().(*types.Pointer).Elem()
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if z := zeroOf(st.Field(i).Type()); z != aUnknown {
					s.cells[fmt.Sprintf("%s.%d", c, i)] = z
				}
			}
		} else if z := zeroOf(t); z != aUnknown {
			s.cells[c] = z
		}
		return aSet
	case *ssa.Extract:
		return s.vals[fmt.Sprintf("%s#%d", vkey(x.Tuple, fr), x.Index)]
	case *ssa.MakeInterface:
		if a := w.get(s, x.X, fr); a == aBroken {
			return aBroken
		}
		return aSet
	case *ssa.ChangeInterface:
		return w.get(s, x.X, fr)
	case *ssa.ChangeType:
		return w.get(s, x.X, fr)
	case *ssa.Convert:
		if w.get(s, x.X, fr) == aBroken {
			return aBroken
		}
	case *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
		return aSet
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			switch w.cond(s, x.X, fr) {
			case aTrue:
				return aFalse
			case aFalse:
				return aTrue
			}
		case token.MUL:
			if c := w.cell(x.X, fr, 0); c != "" {
				if a, ok := s.cells[c]; ok {
					return a
				}
				if gl, ok := w.g.se.resolve(fval{x.X, fr}).v.(*ssa.Global); ok && isErrType(x.Type()) && gl.Pkg != nil {
					return aSet // a fixed error value
				}
			}
		}
	case *ssa.BinOp:
		return w.compare(s, x, fr)
	}
	return aUnknown
}

// cond is the truth of a condition.
func (w *fileRule) cond(s *wstate, v ssa.Value, fr *frame) aval {
	a := w.get(s, v, fr)
	if a == aTrue || a == aFalse {
		return a
	}
	if w.complete && !s.lap {
		return w.nameCond(v, fr)
	}
	return aUnknown
}

// assume records what a branch taken on an unknown condition says.
func (w *fileRule) assume(s *wstate, v ssa.Value, fr *frame, truth bool) {
	a := aFalse
	if truth {
		a = aTrue
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if c, ok := pr[1].(*ssa.Const); ok && c.Value == nil && w.get(s, pr[0], fr) == aUnknown {
				n := aSet
				if (b.Op == token.EQL) == truth {
					n = aNil
				}
				w.put(s, pr[0], fr, n)
				if u, ok := pr[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if c := w.cell(u.X, fr, 0); c != "" {
						s.cells[c] = n
					}
				}
			}
		}
	}
	_ = a
}

func (w *fileRule) compare(s *wstate, b *ssa.BinOp, fr *frame) aval {
	if b.Op != token.EQL && b.Op != token.NEQ {
		return aUnknown
	}
	p, q := w.get(s, b.X, fr), w.get(s, b.Y, fr)
	eq := aUnknown
	isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }
	switch {
	case isNil(b.X) || isNil(b.Y):
		o := p
		if isNil(b.X) {
			o = q
		}
		switch o {
		case aNil:
			eq = aTrue
		case aSet, aFailed:
			eq = aFalse
		}
	case p == aNil && (q == aSet || q == aFailed), q == aNil && (p == aSet || p == aFailed):
		eq = aFalse
	case p == aFailed && w.fixedErr(b.Y, fr) || q == aFailed && w.fixedErr(b.X, fr):
		eq = aFalse
	case (p == aTrue || p == aFalse) && (q == aTrue || q == aFalse):
		eq = aFalse
		if p == q {
			eq = aTrue
		}
	}
	if eq != aUnknown && b.Op == token.NEQ {
		if eq == aTrue {
			return aFalse
		}
		return aTrue
	}
	return eq
}

func (w *fileRule) fixedErr(v ssa.Value, fr *frame) bool {
	u, ok := w.g.se.resolve(fval{v, fr}).v.(*ssa.UnOp)
	if !ok {
		return false
	}
	gl, ok := u.X.(*ssa.Global)
	return ok && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "io"
}

// call gives an outside call's results.
func (w *fileRule) call(c *ssa.Call, s *wstate, fr *frame) {
	cm := &c.Call
	set := func(i int, a aval) {
		k := fmt.Sprintf("%s#%d", vkey(c, fr), i)
		if cm.Signature().Results().Len() == 1 {
			k = vkey(c, fr)
		}
		if a == aUnknown {
			delete(s.vals, k)
		} else {
			s.vals[k] = a
		}
	}
	n := calleeName(cm)
	if n == "builtin.delete" && isTemplateMap(cm.Args[0].Type()) {
		s.inSet = false
		return
	}
	if n == "builtin.append" && w.complete && w.collects(c, fr) {
		s.inSet = true
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		_ = b
		w.put(s, c, fr, aUnknown)
		return
	}
	res := cm.Signature().Results()
	broken := false
	failing := w.fail != nil && !s.lap && w.fail.in == ssa.Instruction(c) && w.fail.fr == fr
	if cm.IsInvoke() && w.get(s, cm.Value, fr) == aBroken {
		broken = true
	}
	var args []ssa.Value
	args = append(args, cm.Args...)
	for _, a := range args {
		if w.get(s, a, fr) == aBroken {
			broken = true
		}
	}
	op, _ := w.fileOp(c, fr)
	if w.complete && !s.lap {
		switch n {
		case "os.Open", "os.OpenFile", "os.Create", "os.CreateTemp":
			if s.open == nil {
				s.open = map[string]ssa.Instruction{}
			}
			s.open[vkey(c, fr)] = c
		}
		w.closes(s, cm, fr)
	}
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		a := aUnknown
		switch {
		case failing || broken && op:
			a = aBroken
			if isErrType(t) {
				a = aFailed
			}
		case n == "fmt.Errorf" || n == "errors.New":
			a = aSet
			for _, x := range args {
				if w.get(s, x, fr) == aFailed {
					a = aFailed
				}
			}
		case isErrType(t) && w.complete && !s.lap:
			a = aNil // every operation succeeds
		case w.complete && !s.lap:
			a = w.entryCond(c, fr)
		case n == "errors.Is" && len(args) == 2 && w.get(s, args[0], fr) == aFailed && w.fixedErr(args[1], fr):
			a = aFalse
		}
		set(i, a)
	}
}

// closes records that a call closes a file opened in this round.
func (w *fileRule) closes(s *wstate, cm *ssa.CallCommon, fr *frame) {
	var h ssa.Value
	switch {
	case cm.IsInvoke() && cm.Method.Name() == "Close":
		h = cm.Value
	case calleeName(cm) == "(*os.File).Close":
		h = cm.Args[0]
	default:
		return
	}
	x := w.g.se.resolve(fval{h, fr})
	if m, ok := x.v.(*ssa.MakeInterface); ok {
		x = w.g.se.resolve(fval{m.X, x.fr})
	}
	if e, ok := x.v.(*ssa.Extract); ok {
		if c, ok := e.Tuple.(*ssa.Call); ok {
			if cf, _, _ := w.callee(&c.Call, x.fr); cf == nil {
				delete(s.open, vkey(c, x.fr))
				return
			}
		}
	}
	s.open = nil // some file; which one is not followed
}

/* ---- where a round ends ---- */

// leaks reports the files a round leaves open.
func (w *fileRule) leaks(s *wstate) {
	for _, in := range s.open {
		w.bad(in, "the file opened here is still open when the next file's turn comes, so the number of files that can be handled is bounded by the process's file handles")
	}
}

// boundary reports whether the path is over at the start of pos.b.
func (w *fileRule) boundary(pos wpos, s *wstate) bool {
	if w.ext != nil || pos.fr != w.loopFr {
		return false
	}
	if s.lap {
		if pos.b == w.site || !w.loop.blocks[pos.b] {
			if pos.b == w.site {
				w.nonEmpty = true
			}
			return true
		}
		return false
	}
	if pos.b == w.loop.head && pos.prev != nil {
		w.roundOver(pos.b.Instrs[0], s)
		if w.complete {
			return true
		}
		s.lap = true
		return false
	}
	if !w.loop.blocks[pos.b] {
		in := pos.b.Instrs[0]
		if pos.prev != nil {
			in = pos.prev.Instrs[len(pos.prev.Instrs)-1]
		}
		w.leaves(in, s, "leaves the loop over the files")
		return true
	}
	return false
}

func (w *fileRule) roundOver(in ssa.Instruction, s *wstate) {
	if w.complete {
		w.leaks(s)
		if w.collect && !s.inSet {
			w.bad(w.loop.head.Instrs[0], "a readable template (\"_\"+S+\".go\", not a directory) can be passed over: a path through the loop that collects the templates does not take it up")
		}
		return
	}
	if w.opens && s.inSet {
		w.bad(w.fail.in, "when this fails the file still enters the set of templates, so its output is replaced although its contents are not known")
	}
}

func (w *fileRule) leaves(in ssa.Instruction, s *wstate, how string) {
	if s.lap {
		return
	}
	if w.complete {
		w.bad(in, "on a readable template, without any error, the generator %s before the remaining files are handled", how)
		return
	}
	at := ""
	if in != nil && in.Pos().IsValid() {
		at = " at " + w.p.pos(in.Pos())
	}
	w.bad(w.fail.in, "when this fails for one file the generator %s%s, so the remaining files are not handled", how, at)
}

// extReturn judges the end of a callback that stands for a loop.
func (w *fileRule) extReturn(r *ssa.Return, s *wstate) {
	for _, v := range r.Results {
		a := w.get(s, v, w.ext)
		if isErrType(v.Type()) && a != aNil || a == aFalse {
			w.leaves(r, s, "stops the iteration")
			return
		}
	}
	if w.complete {
		w.leaks(s)
		if w.collect && !s.inSet {
			w.bad(r, "a readable template (\"_\"+S+\".go\", not a directory) can be passed over by the callback that collects the templates")
		}
	} else if w.opens && s.inSet {
		w.bad(w.fail.in, "when this fails the file still enters the set of templates, so its output is replaced although its contents are not known")
	}
}

func (w *fileRule) begin() {
	w.seen = map[string]bool{}
	w.steps = 0
	w.nonEmpty = false
}

func (w *fileRule) explore(in ssa.Instruction, f func()) {
	defer func() {
		if x := recover(); x != nil {
			d, ok := x.(wdone)
			if !ok {
				panic(x)
			}
			w.bad(in, "the paths from here cannot be followed (%s)", d.why)
		}
	}()
	f()
}

/* ---- C28 ---- */

func (w *fileRule) runFailures() {
	n := 0
	w.each(func(in ssa.Instruction, fr, ext *frame) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		if cf, _, _ := w.callee(&c.Call, fr); cf != nil {
			return
		}
		op, reads := w.fileOp(c, fr)
		if !op {
			return
		}
		l, lf, lb := w.perFile(in, fr, ext)
		if l == nil && ext == nil {
			return
		}
		w.r.checked++
		w.r.count("file operations", 1)
		n++
		w.begin()
		w.fail = &wat{in, fr}
		w.loop, w.loopFr, w.site, w.ext, w.opens = l, lf, lb, ext, reads
		w.explore(in, func() {
			w.follow(wpos{fr, in.Block(), nil, indexIn(in)}, &wstate{vals: map[string]aval{}, cells: map[string]aval{}})
		})
		if ext == nil && !w.nonEmpty && len(w.r.viol) == 0 {
			w.bad(in, "when this fails for one file no further file is handled")
		}
	})
	if n == 0 {
		w.bad(nil, "no operation on a single file was found in a loop over files")
	}
	w.r.notes = append(w.r.notes, fmt.Sprintf("generation: %d file operations followed on failure", n))
}

/* ---- C29 ---- */

// collects reports whether an append adds a template's name to a list.
func (w *fileRule) collects(c *ssa.Call, fr *frame) bool {
	if len(c.Call.Args) != 2 {
		return false
	}
	st, ok := c.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if b, ok := st.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return false
	}
	es, ok := w.g.se.sliceLit(fval{c.Call.Args[1], fr})
	if !ok || len(es) != 1 {
		return false
	}
	if w.g.isKey(es[0]) {
		return false
	}
	return w.g.namesTemplate(es[0], c)
}

func (w *fileRule) runComplete() {
	type lp struct {
		l    *loop
		head *ssa.BasicBlock
		fr   *frame
		ext  *frame
		keys map[string]bool
		read bool
		open bool
		upd  bool
		at   ssa.Instruction
	}
	var lps []*lp
	w.each(func(in ssa.Instruction, fr, ext *frame) {
		key := fval{}
		read, open := false, false
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if !isTemplateMap(x.Map.Type()) || w.g.localConstMap(x.Map) {
				return
			}
			key = fval{x.Key, fr}
		case *ssa.Call:
			if cf, _, _ := w.callee(&x.Call, fr); cf != nil {
				return
			}
			if calleeName(&x.Call) == "builtin.append" && w.collects(x, fr) {
				es, _ := w.g.se.sliceLit(fval{x.Call.Args[1], fr})
				key = es[0]
				read = true
			} else if op, rd := w.fileOp(x, fr); op {
				read = rd
				open = true
			} else {
				w.listing(x, fr)
				return
			}
		default:
			return
		}
		l, lf, _ := w.perFile(in, fr, ext)
		if l == nil && ext == nil {
			return
		}
		var q *lp
		for _, o := range lps {
			if o.fr == lf && o.ext == ext && (l == nil || o.head == l.head) {
				q = o
			}
		}
		if q == nil {
			q = &lp{l: l, fr: lf, ext: ext, keys: map[string]bool{}, at: in}
			if l != nil {
				q.head = l.head
			}
			lps = append(lps, q)
		}
		q.read = q.read || read
		q.open = q.open || open
		if key.v != nil {
			q.upd = true
			q.keys[w.g.canon(key, 0)] = true
		}
	})
	n := 0
	for _, q := range lps {
		w.collect = q.read && q.upd
		if !w.collect && !q.open {
			continue
		}
		if w.collect {
			n++
			w.r.count("collecting loops", 1)
		} else {
			w.r.count("other loops over files", 1)
		}
		w.r.checked++
		w.begin()
		w.fail, w.complete = nil, true
		w.loop, w.loopFr, w.site, w.ext, w.names = q.l, q.fr, nil, q.ext, q.keys
		st := func() *wstate { return &wstate{vals: map[string]aval{}, cells: map[string]aval{}} }
		w.explore(q.at, func() {
			if q.l == nil {
				w.follow(wpos{q.fr, q.fr.fn.Blocks[0], nil, 0}, st())
				return
			}
			for _, sc := range q.l.head.Succs {
				if q.l.blocks[sc] {
					w.follow(wpos{q.fr, sc, q.l.head, 0}, st())
				}
			}
		})
		w.complete = false
	}
	if n == 0 {
		w.bad(nil, "the loop that collects the templates cannot be found")
	}
	w.r.notes = append(w.r.notes, fmt.Sprintf("generation: %d loops that collect templates followed", n))
}

// listing checks that a directory is listed completely.
func (w *fileRule) listing(c *ssa.Call, fr *frame) {
	cm := &c.Call
	switch n := calleeName(cm); n {
	case "(*os.File).Readdir", "(*os.File).ReadDir", "(*os.File).Readdirnames":
		w.r.checked++
		w.r.count("directory listings", 1)
		k, ok := w.g.se.cint(fval{cm.Args[1], fr})
		if !ok || k > 0 {
			w.bad(c, "the directory is listed in part only: the number of entries asked for is not known to be zero or negative")
		}
	case "path/filepath.Glob", "io/fs.Glob":
		w.r.checked++
		w.r.count("directory listings", 1)
		ps, ok := w.g.se.str(fval{cm.Args[len(cm.Args)-1], fr})
		pat := ""
		if ok && len(ps) > 0 && ps[len(ps)-1].sym == "" {
			pat = ps[len(ps)-1].lit
			pat = pat[strings.LastIndex(pat, "/")+1:]
		}
		switch pat {
		case "_*.go", "*.go", "_*", "*", "_*.*", "*.*":
		default:
			w.bad(c, "the pattern listed does not match every template name \"_\"+S+\".go\"")
		}
	}
}

// entryCond is what a question about a template's directory entry answers.
func (w *fileRule) entryCond(c *ssa.Call, fr *frame) aval {
	cm := &c.Call
	name := ""
	if cm.IsInvoke() {
		name = cm.Method.Name()
	} else if f := cm.StaticCallee(); f != nil {
		name = f.Name()
	}
	if name == "IsDir" {
		return aFalse
	}
	return w.nameCond(c, fr)
}

// nameCond decides a condition about the name "_"+S+".go".
func (w *fileRule) nameCond(v ssa.Value, fr *frame) aval {
	old := w.g.se.leaf
	w.g.se.leaf = func(x fval) ([]piece, bool) {
		if w.names[w.g.canon(x, 0)] {
			return []piece{{lit: "_"}, {sym: "S"}, {lit: ".go"}}, true
		}
		return old(x)
	}
	defer func() { w.g.se.leaf = old }()
	tf := func(b bool) aval {
		if b {
			return aTrue
		}
		return aFalse
	}
	str := func(x ssa.Value) ([]piece, bool) { return w.g.se.str(fval{x, fr}) }
	lit := func(ps []piece) (string, bool) {
		if len(ps) == 0 {
			return "", true
		}
		if len(ps) == 1 && ps[0].sym == "" {
			return ps[0].lit, true
		}
		return "", false
	}
	affix := func(x, y ssa.Value, suffix bool) aval {
		a, ok1 := str(x)
		b, ok2 := str(y)
		l, ok3 := lit(b)
		if !ok1 || !ok2 || !ok3 {
			return aUnknown
		}
		if m, ok := lit(a); ok {
			if suffix {
				return tf(strings.HasSuffix(m, l))
			}
			return tf(strings.HasPrefix(m, l))
		}
		e := a[0]
		if suffix {
			e = a[len(a)-1]
		}
		if e.sym != "" {
			return tfIf(l == "", aTrue)
		}
		if suffix {
			if strings.HasSuffix(e.lit, l) {
				return aTrue
			}
			return tfIf(!strings.HasSuffix(l, e.lit), aFalse)
		}
		if strings.HasPrefix(e.lit, l) {
			return aTrue
		}
		return tfIf(!strings.HasPrefix(l, e.lit), aFalse)
	}
	match := func(pat, x ssa.Value) aval {
		p, ok1 := str(pat)
		l, ok2 := lit(p)
		a, ok3 := str(x)
		if ok1 && ok2 && ok3 && samePieces(a, []piece{{lit: "_"}, {sym: "S"}, {lit: ".go"}}) {
			switch l {
			case "_*.go", "*.go", "_*", "*", "_*.*", "*.*":
				return aTrue
			}
		}
		return aUnknown
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch w.nameCond(x.X, fr) {
			case aTrue:
				return aFalse
			case aFalse:
				return aTrue
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			switch calleeName(&c.Call) {
			case "path/filepath.Match", "path.Match":
				if x.Index == 0 {
					return match(c.Call.Args[0], c.Call.Args[1])
				}
			case "strings.CutPrefix":
				if x.Index == 1 {
					return affix(c.Call.Args[0], c.Call.Args[1], false)
				}
			case "strings.CutSuffix":
				if x.Index == 1 {
					return affix(c.Call.Args[0], c.Call.Args[1], true)
				}
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "strings.HasPrefix", "bytes.HasPrefix":
			return affix(x.Call.Args[0], x.Call.Args[1], false)
		case "strings.HasSuffix", "bytes.HasSuffix":
			return affix(x.Call.Args[0], x.Call.Args[1], true)
		}
	case *ssa.BinOp:
		neg := func(a aval) aval {
			if x.Op == token.NEQ {
				switch a {
				case aTrue:
					return aFalse
				case aFalse:
					return aTrue
				}
			}
			return a
		}
		// a bit of the file mode
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if b, ok := pr[0].(*ssa.BinOp); ok && b.Op == token.AND && strings.HasSuffix(b.Type().String(), "FileMode") && (isDirBit(b.X) || isDirBit(b.Y)) {
					if k, ok := kInt(pr[1]); ok && k == 0 {
						return neg(aTrue)
					}
					return neg(aFalse)
				}
			}
		}
		if isBytesOrString(x.X.Type()) && (x.Op == token.EQL || x.Op == token.NEQ) {
			ext := func(y ssa.Value) bool {
				c, ok := w.g.se.resolve(fval{y, fr}).v.(*ssa.Call)
				if !ok {
					return false
				}
				n := calleeName(&c.Call)
				if n != "path/filepath.Ext" && n != "path.Ext" {
					return false
				}
				rf := w.g.se.resolve(fval{y, fr}).fr
				a, ok := w.g.se.str(fval{c.Call.Args[0], rf})
				return ok && samePieces(a, []piece{{lit: "_"}, {sym: "S"}, {lit: ".go"}})
			}
			get := func(y ssa.Value) ([]piece, bool) {
				if ext(y) {
					return []piece{{lit: ".go"}}, true
				}
				return str(y)
			}
			a, ok1 := get(x.X)
			b, ok2 := get(x.Y)
			if !ok1 || !ok2 {
				return aUnknown
			}
			if samePieces(a, b) {
				return neg(aTrue)
			}
			la, ok1 := lit(a)
			lb, ok2 := lit(b)
			switch {
			case ok1 && ok2:
				return neg(tf(la == lb))
			case ok2 && litMisfit(a, lb), ok1 && litMisfit(b, la):
				return neg(aFalse)
			}
			return aUnknown
		}
		// a byte of the name, or its length
		for i, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := w.g.se.cint(fval{pr[1], fr})
			if !ok {
				continue
			}
			if sx, si, ok := strIndex(w.g.se.resolve(fval{pr[0], fr}).v); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
				ix, ok := w.g.se.cint(fval{si, fr})
				a, ok2 := str(sx)
				if ok && ok2 && len(a) > 0 && a[0].sym == "" && ix >= 0 && ix < int64(len(a[0].lit)) {
					return neg(tf(int64(a[0].lit[ix]) == k))
				}
			}
			if c, ok := w.g.se.resolve(fval{pr[0], fr}).v.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.len" {
				a, ok := str(c.Call.Args[0])
				if !ok {
					continue
				}
				min, open := int64(0), false
				for _, p := range a {
					min += int64(len(p.lit))
					open = open || p.sym != ""
				}
				op := x.Op
				if i == 1 {
					op = swapOp(op)
				}
				switch {
				case op == token.GTR && min > k, op == token.GEQ && min >= k, op == token.NEQ && min > k:
					return aTrue
				case op == token.LSS && min >= k, op == token.LEQ && min > k, op == token.EQL && min > k:
					return aFalse
				case !open && op == token.EQL:
					return tf(min == k)
				}
			}
		}
	case *ssa.Phi, *ssa.Parameter:
		r := w.g.se.resolve(fval{v, fr})
		if r.v != v {
			return w.nameCond(r.v, r.fr)
		}
	}
	return aUnknown
}

// isDirBit reports whether a mode mask asks for nothing but "is a directory".
func isDirBit(v ssa.Value) bool {
	k, ok := kInt(v)
	return ok && uint64(k) == 1<<31
}

func tfIf(c bool, a aval) aval {
	if c {
		return a
	}
	return aUnknown
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.GTR:
		return token.LSS
	case token.LSS:
		return token.GTR
	case token.GEQ:
		return token.LEQ
	case token.LEQ:
		return token.GEQ
	}
	return op
}

// litMisfit reports whether a string of the form a can never equal l.
func litMisfit(a []piece, l string) bool {
	min := 0
	for _, p := range a {
		min += len(p.lit)
	}
	if min > len(l) {
		return true
	}
	if len(a) > 0 && a[0].sym == "" && !strings.HasPrefix(l, a[0].lit) {
		return true
	}
	if n := len(a); n > 0 && a[n-1].sym == "" && !strings.HasSuffix(l, a[n-1].lit) {
		return true
	}
	return false
}
