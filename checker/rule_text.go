package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textRule decides C33: what is stored as a template's text is that text with
// its magic comments replaced and nothing else changed. It follows every
// stored text back to where it was read and accepts, on the way, only copies,
// replacements of the matches of the magic comments' expression, and loops
// that copy the text between the matches piece by piece. The expression
// itself is examined as an automaton.
type textRule struct {
	d  *depRule
	r  *ruleResult
	at ssa.Instruction // the sink being judged

	done map[ssa.Value]bool
	ok   map[ssa.Value]bool
	srcs int
	maps map[ssa.Value]bool // classes of maps of texts
	regs map[string]string  // expression -> what is wrong with it

	nCopies, nReplace, nLoops int
}

const textID = "generation/verbatim"

const magicPrefix = "//generator:complex "

func ruleVerbatim(p *Program) *ruleResult {
	d := newDepRule(p)
	t := &textRule{d: d, r: d.r, done: map[ssa.Value]bool{}, ok: map[ssa.Value]bool{}, regs: map[string]string{}}
	guardRule(d.r, "C33", textID, t.run)
	return d.r
}

func (t *textRule) bad(in ssa.Instruction, format string, a ...interface{}) bool {
	pos, fn := "?", ""
	if in != nil && in.Parent() != nil {
		fn = in.Parent().String()
		pos = t.d.p.pos(in.Pos())
		if !in.Pos().IsValid() {
			pos = t.d.p.pos(in.Parent().Pos())
			for _, o := range in.Block().Instrs {
				if o.Pos().IsValid() {
					pos = t.d.p.pos(o.Pos())
					break
				}
			}
		}
	}
	t.r.fail("C33", textID, pos, fn, format, a...)
	return false
}

func (t *textRule) run() {
	d := t.d
	if !d.prepare() {
		t.bad(nil, "the generator has no main function")
		return
	}
	// the maps whose texts are written out, and those their texts come from
	t.maps = map[ssa.Value]bool{}
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || toConsole(c.Common()) || !writes(c.Common()) {
					continue
				}
				for _, a := range c.Common().Args {
					if !isBytesOrString(a.Type()) {
						continue
					}
					for _, o := range t.origins(a) {
						if m := mapOf(o); m != nil && d.tmap(m) {
							t.maps[d.mapFind(m)] = true
						}
					}
				}
			}
		}
	}
	if len(t.maps) == 0 {
		t.bad(nil, "no text that is written to a file was found to come from a set of templates")
		return
	}
	sinks := 0
	judged := map[*ssa.MapUpdate]bool{}
	for more := true; more; {
		more = false
		for _, f := range d.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.MapUpdate)
					if !ok || judged[u] || !d.tmap(u.Map) || !t.maps[d.mapFind(u.Map)] {
						continue
					}
					judged[u] = true
					more = true
					sinks++
					t.at = in
					if c, ok := u.Value.(*ssa.Const); ok {
						t.bad(in, "a template's text is replaced by the constant %s", c)
						continue
					}
					t.text(u.Value)
				}
			}
		}
	}
	if sinks == 0 {
		t.bad(nil, "nothing that is stored as a template's text was found")
		return
	}
	t.inPlace()
	if t.srcs == 0 {
		t.bad(nil, "no text that is read from a file was found behind what is stored")
	}
	if t.nReplace+t.nLoops == 0 {
		t.bad(nil, "no replacement of magic comments was found behind what is stored")
	}
	t.r.count("stored texts", sinks)
	t.r.notes = append(t.r.notes, fmt.Sprintf("generation: %d stored texts followed back through %d copies to %d reads; %d replacements, %d piecewise loops, %d expressions examined",
		sinks, t.nCopies, t.srcs, t.nReplace, t.nLoops, len(t.regs)))
}

// writes reports whether a call may write what it is given to a file.
func writes(cm *ssa.CallCommon) bool {
	n := base(calleeName(cm))
	if cm.IsInvoke() {
		n = cm.Method.Name()
	}
	n = n[strings.LastIndexByte(n, '.')+1:]
	return strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Fprint") || strings.HasPrefix(n, "New") || n == "ReadFrom"
}

// mapOf names the map a value is looked up in or ranged over.
func mapOf(v ssa.Value) ssa.Value {
	if e, ok := v.(*ssa.Extract); ok {
		if n, ok := e.Tuple.(*ssa.Next); ok && e.Index != 2 {
			_ = n
			return nil
		}
		v, _ = e.Tuple.(ssa.Value)
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		return x.X
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			return r.X
		}
	}
	return nil
}

// origins follows copies, locals, parameters, results, fields and elements of
// slices to the values' definitions.
func (t *textRule) origins(v ssa.Value) []ssa.Value {
	d := t.d
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value)
	stores := func(self ssa.Value, match func(st *ssa.Store) bool) {
		n := 0
		for _, f := range d.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && match(st) {
						n++
						w(st.Val)
					}
				}
			}
		}
		if n == 0 {
			out = append(out, self)
		}
	}
	field := func(self ssa.Value, st types.Type, i int) {
		stores(self, func(s *ssa.Store) bool {
			fa, ok := s.Addr.(*ssa.FieldAddr)
			return ok && fa.Field == i && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), st)
		})
	}
	var load func(self, a ssa.Value, depth int)
	load = func(self, a ssa.Value, depth int) {
		if al := cellOf(a, d); al != nil {
			sts := allStores(al)
			for _, st := range sts {
				w(st.Val)
			}
			n := len(sts)
			for _, st := range t.outStores(al) {
				w(st.Val)
				n++
			}
			if n == 0 {
				out = append(out, self)
			}
			return
		}
		switch x := a.(type) {
		case *ssa.Global:
			stores(self, func(s *ssa.Store) bool { return s.Addr == x })
		case *ssa.FieldAddr:
			field(self, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
		case *ssa.IndexAddr:
			k := d.find(x)
			stores(self, func(s *ssa.Store) bool {
				ia, ok := s.Addr.(*ssa.IndexAddr)
				return ok && types.Identical(s.Val.Type(), self.Type()) && (d.find(ia) == k || !pointerLike(s.Val.Type()))
			})
		case *ssa.Parameter:
			if depth > 8 {
				out = append(out, self)
				return
			}
			n := 0
			t.args(x, func(a ssa.Value) { n++; load(self, a, depth+1) })
			if n == 0 {
				out = append(out, self)
			}
		default:
			out = append(out, self)
		}
	}
	w = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				w(e)
			}
		case *ssa.Convert:
			if isBytesOrString(x.Type()) && isBytesOrString(x.X.Type()) {
				w(x.X)
				return
			}
			out = append(out, v)
		case *ssa.ChangeType:
			w(x.X)
		case *ssa.ChangeInterface:
			w(x.X)
		case *ssa.MakeInterface:
			w(x.X)
		case *ssa.TypeAssert:
			if !x.CommaOk {
				w(x.X)
				return
			}
			out = append(out, v)
		case *ssa.Slice:
			if wholeSlice(x) {
				w(x.X)
				return
			}
			out = append(out, v)
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				load(v, x.X, 0)
			case token.ARROW:
				n := 0
				for _, f := range d.fns {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if s, ok := in.(*ssa.Send); ok && types.Identical(s.X.Type(), x.Type()) {
								n++
								w(s.X)
							}
						}
					}
				}
				if n == 0 {
					out = append(out, v)
				}
			default:
				out = append(out, v)
			}
		case *ssa.Field:
			field(v, x.X.Type(), x.Field)
		case *ssa.Parameter:
			n := 0
			t.args(x, func(a ssa.Value) { n++; w(a) })
			if n == 0 || len(d.extCall[x.Parent()]) > 0 {
				out = append(out, v)
			}
		case *ssa.FreeVar:
			n := 0
			for _, m := range d.makes[x.Parent()] {
				for i, fv := range x.Parent().FreeVars {
					if fv == x {
						w(m.Bindings[i])
						n++
					}
				}
			}
			if n == 0 {
				out = append(out, v)
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if fs := d.callees(&c.Call); len(fs) > 0 {
					for _, f := range fs {
						for _, r := range returnsOf(f) {
							if x.Index < len(r.Results) {
								w(r.Results[x.Index])
							}
						}
					}
					return
				}
			}
			out = append(out, v)
		case *ssa.Call:
			if fs := d.callees(&x.Call); len(fs) > 0 {
				for _, f := range fs {
					for _, r := range returnsOf(f) {
						if len(r.Results) == 1 {
							w(r.Results[0])
						}
					}
				}
				return
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	w(v)
	return out
}

// outStores lists the stores other functions make through the address of a local.
func (t *textRule) outStores(al *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	for _, ref := range *al.Referrers() {
		c, ok := ref.(ssa.CallInstruction)
		if !ok {
			continue
		}
		for _, f := range t.d.callees(c.Common()) {
			for i, a := range c.Common().Args {
				if a != al || i >= len(f.Params) {
					continue
				}
				for _, r := range *f.Params[i].Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == f.Params[i] {
						out = append(out, st)
					}
				}
			}
		}
	}
	return out
}

// args lists what a parameter is given by own calls.
func (t *textRule) args(x *ssa.Parameter, f func(ssa.Value)) {
	for i, p := range x.Parent().Params {
		if p != x {
			continue
		}
		for _, c := range t.d.callers[x.Parent()] {
			cm := c.Common()
			args := cm.Args
			if cm.IsInvoke() {
				args = append([]ssa.Value{cm.Value}, args...)
			}
			if i < len(args) {
				f(args[i])
			}
		}
	}
}

func wholeSlice(x *ssa.Slice) bool {
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		return false
	}
	if x.Low != nil {
		if n, ok := kInt(x.Low); !ok || n != 0 {
			return false
		}
	}
	return x.High == nil || isLenOf(x.High, x.X)
}

func isLenOf(n, v ssa.Value) bool {
	c, ok := n.(*ssa.Call)
	return ok && calleeName(&c.Call) == "builtin.len" && c.Call.Args[0] == v
}

// text requires v to be a template's text, as read or with its magic comments
// replaced.
func (t *textRule) text(v ssa.Value) bool {
	good := true
	os := t.origins(v)
	// if rest := text[last:]; the rest is only added where there is one
	var tail *ssa.Call
	for _, o := range os {
		if c, ok := o.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.append" && len(c.Call.Args) > 1 && ifMore(c.Block(), stripConv(c.Call.Args[1])) {
			tail = c
		}
	}
	if tail != nil {
		before := map[ssa.Value]bool{}
		for _, o := range t.origins(tail.Call.Args[0]) {
			before[o] = true
		}
		var rest []ssa.Value
		for _, o := range os {
			if !before[o] {
				rest = append(rest, o)
			}
		}
		os = rest
	}
	for _, o := range os {
		if !t.def(o) {
			good = false
		}
	}
	return good
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || !isBytesOrString(c.X.Type()) {
			return v
		}
		v = c.X
	}
}

// ifMore reports whether block b is entered exactly where there is something
// in the piece v: text[last:] under last < len(text), or rest under len(rest) > 0.
func ifMore(b *ssa.BasicBlock, v ssa.Value) bool {
	if len(b.Preds) != 1 {
		return false
	}
	iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
	if !ok || b.Preds[0].Succs[0] != b {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := c.X, c.Y, c.Op
	if op == token.GTR {
		x, y, op = y, x, token.LSS
	}
	if s, ok := v.(*ssa.Slice); ok && s.High == nil && s.Low != nil {
		return (op == token.LSS || op == token.NEQ) && x == s.Low && isLenOf(y, s.X)
	}
	return (op == token.LSS || op == token.NEQ) && isZero(x) && isLenOf(y, v) || op == token.NEQ && isZero(y) && isLenOf(x, v)
}

// def judges one definition; while a definition is being judged it is taken
// to be right, as in a loop that only passes a text on.
func (t *textRule) def(o ssa.Value) bool {
	if t.done[o] {
		return t.ok[o]
	}
	t.done[o], t.ok[o] = true, true
	t.r.checked++
	r := t.def0(o)
	t.ok[o] = r
	return r
}

func (t *textRule) def0(o ssa.Value) bool {
	d := t.d
	in, _ := o.(ssa.Instruction)
	if in == nil {
		in = t.at
	}
	switch x := o.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" {
			return true // where there is no text
		}
		return t.bad(t.at, "the constant %s is stored as a template's text", x)
	case *ssa.Lookup:
		if d.tmap(x.X) {
			t.maps[d.mapFind(x.X)] = true
			return true
		}
	case *ssa.Extract:
		if m := mapOf(x); m != nil && d.tmap(m) {
			t.maps[d.mapFind(m)] = true
			return true
		}
		switch y := x.Tuple.(type) {
		case *ssa.Call:
			return t.call(y, x)
		}
	case *ssa.Call:
		return t.call(x, x)
	case *ssa.MakeSlice:
		return t.made(x)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
				return true
			}
		}
		if x.High != nil {
			if n, ok := kInt(x.High); ok && n == 0 {
				return true // an empty start
			}
			// data[:n] of what n bytes were read into
			if t.readInto(x) {
				t.srcs++
				return true
			}
		}
		return t.bad(in, "only a part of the text is kept here (%s)", exprOf(x))
	case *ssa.Parameter:
		return t.bad(t.at, "the text stored here comes from a call outside the generator: parameter %s of %s", x.Name(), x.Parent())
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return t.assembled(x, x)
		}
	}
	return t.bad(in, "not recognised as a template's text: %s", exprOf(o))
}

func exprOf(v ssa.Value) string {
	if in, ok := v.(ssa.Instruction); ok {
		s := in.String()
		if len(s) > 90 {
			s = s[:90] + "…"
		}
		return s
	}
	return v.Name()
}

func base(n string) string {
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	return n
}

// call judges a text made by a call.
func (t *textRule) call(c *ssa.Call, v ssa.Value) bool {
	cm := &c.Call
	n := base(calleeName(cm))
	switch n {
	case "os.ReadFile", "io/ioutil.ReadFile", "io/fs.ReadFile":
		t.srcs++
		return true
	case "io.ReadAll", "io/ioutil.ReadAll":
		return t.reader(c, cm.Args[0])
	case "bytes.Clone", "slices.Clone", "strings.Clone":
		t.nCopies++
		return t.text(cm.Args[0])
	case "(*regexp.Regexp).ReplaceAllFunc", "(*regexp.Regexp).ReplaceAllStringFunc":
		t.nReplace++
		a := t.regex(c, cm.Args[0])
		return t.text(cm.Args[1]) && a
	case "builtin.append", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		return t.assembled(c, v)
	}
	return t.bad(c, "the template's text goes through %s, which may change more than its magic comments", n)
}

// reader requires r to deliver a file's text as it is.
func (t *textRule) reader(at ssa.Instruction, r ssa.Value) bool {
	for _, o := range t.origins(r) {
		switch x := o.(type) {
		case *ssa.Const:
			continue
		case *ssa.Call:
			switch base(calleeName(&x.Call)) {
			case "bufio.NewReader", "bufio.NewReaderSize":
				if !t.reader(at, x.Call.Args[0]) {
					return false
				}
				continue
			case "bytes.NewReader", "strings.NewReader":
				if !t.text(x.Call.Args[0]) {
					return false
				}
				continue
			case "os.Open", "os.OpenFile":
				t.srcs++
				continue
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				switch n := base(calleeName(&c.Call)); {
				case n == "os.Open", n == "os.OpenFile", c.Call.IsInvoke() && c.Call.Method.Name() == "Open":
					t.srcs++
					continue
				}
			}
		}
		return t.bad(at, "what is read here is not plainly a file's contents: %s", exprOf(o))
	}
	return true
}

// made judges a slice of fixed length that is filled afterwards.
func (t *textRule) made(m *ssa.MakeSlice) bool {
	n := 0
	good := true
	use := func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			c, ok := ref.(*ssa.Call)
			if !ok {
				continue
			}
			switch base(calleeName(&c.Call)) {
			case "builtin.copy":
				if c.Call.Args[0] == v {
					n++
					t.nCopies++
					if !t.sameLen(m.Len, c.Call.Args[1]) {
						good = t.bad(c, "the text is copied into a slice that is not made with its length")
					} else if !t.text(c.Call.Args[1]) {
						good = false
					}
				}
			case "io.ReadFull":
				if c.Call.Args[1] == v {
					n++
					good = t.reader(c, c.Call.Args[0]) && good
				}
			case "(*os.File).Read", "(*os.File).ReadAt":
				if c.Call.Args[1] == v {
					n++
					t.srcs++
				}
			}
		}
	}
	use(m)
	for _, ref := range *m.Referrers() {
		if s, ok := ref.(*ssa.Slice); ok && wholeSlice(s) {
			use(s)
		}
	}
	if z, ok := kInt(m.Len); ok && z == 0 {
		return true
	}
	if n == 0 {
		return t.bad(m, "a slice is stored as a template's text, and no text is copied into it")
	}
	return good
}

// sameLen reports whether n is the length of the text v is.
func (t *textRule) sameLen(n, v ssa.Value) bool {
	for _, o := range t.origins(n) {
		c, ok := o.(*ssa.Call)
		if !ok || calleeName(&c.Call) != "builtin.len" {
			return false
		}
		a := c.Call.Args[0]
		if a == v {
			continue
		}
		// the same text named twice
		xs, ys := t.origins(a), t.origins(v)
		if len(xs) != 1 || len(ys) != 1 {
			return false
		}
		if xs[0] != ys[0] {
			l1, ok1 := xs[0].(*ssa.Lookup)
			l2, ok2 := ys[0].(*ssa.Lookup)
			if !ok1 || !ok2 || l1.X != l2.X || l1.Index != l2.Index {
				return false
			}
		}
	}
	return true
}

// readInto reports whether x is b[:n] where n bytes have just been read into b.
func (t *textRule) readInto(x *ssa.Slice) bool {
	if x.Low != nil {
		if n, ok := kInt(x.Low); !ok || n != 0 {
			return false
		}
	}
	for _, o := range t.origins(x.High) {
		e, ok := o.(*ssa.Extract)
		if !ok || e.Index != 0 {
			return false
		}
		c, ok := e.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		n := base(calleeName(&c.Call))
		var buf, rd ssa.Value
		switch {
		case n == "(*os.File).Read" || n == "(*bufio.Reader).Read":
			rd, buf = c.Call.Args[0], c.Call.Args[1]
		case n == "io.ReadFull":
			rd, buf = c.Call.Args[0], c.Call.Args[1]
		case c.Call.IsInvoke() && c.Call.Method.Name() == "Read":
			rd, buf = c.Call.Value, c.Call.Args[0]
		default:
			return false
		}
		if t.d.find(buf) != t.d.find(x.X) || !t.reader(c, rd) {
			return false
		}
	}
	return true
}

// readText returns a definition of v, the storage of a slice, that is a
// template's text; nil if there is none.
func (t *textRule) readText(v ssa.Value) ssa.Value {
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value) ssa.Value
	w = func(v ssa.Value) ssa.Value {
		if seen[v] {
			return nil
		}
		seen[v] = true
		for _, o := range t.storage(v) {
			if m := mapOf(o); m != nil && t.maps[t.d.mapFind(m)] {
				return o
			}
			switch x := o.(type) {
			case *ssa.Slice:
				if r := w(x.X); r != nil {
					return r
				}
			case *ssa.Call:
				switch base(calleeName(&x.Call)) {
				case "builtin.append":
					if r := w(x.Call.Args[0]); r != nil {
						return r
					}
				case "os.ReadFile", "io/ioutil.ReadFile", "io/fs.ReadFile", "io.ReadAll", "io/ioutil.ReadAll":
					return o
				}
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					switch base(calleeName(&c.Call)) {
					case "os.ReadFile", "io/ioutil.ReadFile", "io/fs.ReadFile", "io.ReadAll", "io/ioutil.ReadAll":
						return o
					}
				}
			}
		}
		return nil
	}
	return w(v)
}

// storage follows a slice of bytes to where its storage comes from.
func (t *textRule) storage(v ssa.Value) []ssa.Value {
	if c, ok := v.(*ssa.Convert); ok && isBytesOrString(c.X.Type()) && !types.Identical(c.Type().Underlying(), c.X.Type().Underlying()) {
		return nil // a copy
	}
	return t.origins(v)
}

// inPlace looks for bytes of a text that are changed where they stand.
func (t *textRule) inPlace() {
	for _, f := range t.d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var dst ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isBytesOrString(ia.X.Type()) {
						dst = ia.X
					}
				case *ssa.Call:
					if n := calleeName(&x.Call); (n == "builtin.copy" || n == "builtin.clear") && isBytesOrString(x.Call.Args[0].Type()) {
						dst = x.Call.Args[0]
					}
				}
				if dst == nil {
					continue
				}
				if o := t.readText(dst); o != nil {
					t.bad(in, "bytes of a template's text are changed where they stand")
				}
			}
		}
	}
}

/* ---- texts put together from pieces ---- */

// part is one piece added to a text under construction.
type part struct {
	in   ssa.Instruction
	data ssa.Value // nil: a byte or a formatted value
	file ssa.Value // a reader whose contents are added
}

// assembled judges a text that is put together by append, + or a buffer.
func (t *textRule) assembled(at ssa.Instruction, v ssa.Value) bool {
	parts, ok := t.parts(at, v)
	if !ok {
		return false
	}
	var segs, whole, other []part
	for _, p := range parts {
		if p.file != nil {
			if !t.reader(p.in, p.file) {
				return false
			}
			whole = append(whole, p)
			continue
		}
		if p.data == nil {
			other = append(other, p)
			continue
		}
		p.data = stripConv(p.data)
		if s, ok := p.data.(*ssa.Slice); ok && !wholeSlice(s) && isBytesOrString(s.X.Type()) {
			if s.High != nil && t.chunk(s) {
				whole = append(whole, p)
			} else {
				segs = append(segs, p)
			}
			continue
		}
		other = append(other, p)
	}
	if len(segs) == 0 {
		for _, p := range other {
			if p.data == nil || !t.text(p.data) {
				if p.data == nil {
					t.bad(p.in, "something is added to the template's text outside the replacement of its magic comments")
				}
				return false
			}
			whole = append(whole, p)
		}
		if len(whole) != 1 {
			return t.bad(at, "the text is put together from %d texts", len(whole))
		}
		t.nCopies++
		return true
	}
	if len(whole) > 0 {
		return t.bad(whole[0].in, "a whole text is added to one that is put together piece by piece")
	}
	return t.piecewise(at, segs, other)
}

// chunk reports whether s is the part of a buffer that has just been read into.
func (t *textRule) chunk(s *ssa.Slice) bool {
	for _, o := range t.origins(s.High) {
		e, ok := o.(*ssa.Extract)
		if !ok || e.Index != 0 {
			return false
		}
		c, ok := e.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		n := base(calleeName(&c.Call))
		if n != "(*os.File).Read" && n != "(*bufio.Reader).Read" && n != "io.ReadFull" && !(c.Call.IsInvoke() && c.Call.Method.Name() == "Read") {
			return false
		}
	}
	return t.readInto(s)
}

// parts collects the pieces of a text under construction.
func (t *textRule) parts(at ssa.Instruction, v ssa.Value) ([]part, bool) {
	if c, ok := v.(*ssa.Call); ok {
		switch calleeName(&c.Call) {
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
			return t.bufferParts(c)
		}
	}
	var out []part
	seen := map[ssa.Value]bool{}
	good := true
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		for _, o := range t.origins(v) {
			if seen[o] {
				continue
			}
			seen[o] = true
			t.done[o], t.ok[o] = true, true
			switch x := o.(type) {
			case *ssa.Const:
				if x.Value != nil && x.Value.Kind() == constant.String && constant.StringVal(x.Value) != "" {
					good = t.bad(at, "the constant %s begins a template's text", x)
				}
				continue
			case *ssa.Call:
				if calleeName(&x.Call) == "builtin.append" {
					w(x.Call.Args[0])
					if len(x.Call.Args) > 1 {
						p := part{in: x, data: x.Call.Args[1]}
						if s, ok := p.data.(*ssa.Slice); ok {
							if _, ok := s.X.Type().Underlying().(*types.Pointer); ok {
								p.data = nil // listed bytes
							}
						}
						out = append(out, p)
					}
					continue
				}
			case *ssa.BinOp:
				if x.Op == token.ADD {
					// out + piece, or out + (piece + piece)
					w(x.X)
					var leaves func(v ssa.Value)
					leaves = func(v ssa.Value) {
						if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
							leaves(b.X)
							leaves(b.Y)
							return
						}
						out = append(out, part{in: x, data: v})
					}
					leaves(x.Y)
					continue
				}
			case *ssa.MakeSlice:
				if n, ok := kInt(x.Len); ok && n == 0 {
					continue
				}
			case *ssa.Slice:
				if x.High != nil {
					if n, ok := kInt(x.High); ok && n == 0 {
						if o := t.readText(x.X); o != nil {
							good = t.bad(x, "the new text is written over the text it is made from (%s)", exprOf(o))
						}
						continue
					}
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
						continue
					}
				}
			}
			// the start is a text itself
			in, ok := o.(ssa.Instruction)
			if !ok {
				in = at
			}
			out = append(out, part{in: in, data: o})
			delete(t.done, o)
		}
	}
	delete(t.done, v)
	w(v)
	return out, good
}

// bufferParts collects what is written into a buffer.
func (t *textRule) bufferParts(c *ssa.Call) ([]part, bool) {
	d := t.d
	roots := map[ssa.Value]bool{}
	var out []part
	for _, o := range t.origins(c.Call.Args[0]) {
		switch x := o.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr:
			roots[o] = true
		case *ssa.Call:
			n := calleeName(&x.Call)
			if n == "bytes.NewBuffer" || n == "bytes.NewBufferString" {
				roots[o] = true
				if !t.emptyText(x.Call.Args[0]) {
					out = append(out, part{in: x, data: x.Call.Args[0]})
				}
				continue
			}
			return nil, t.bad(c, "the buffer's contents are not known: it comes from %s", n)
		default:
			return nil, t.bad(c, "the buffer's contents are not known: it is %s", exprOf(o))
		}
	}
	same := func(v ssa.Value) bool {
		for _, o := range t.origins(v) {
			if roots[o] {
				return true
			}
			if fa, ok := o.(*ssa.FieldAddr); ok {
				for r := range roots {
					if ra, ok := r.(*ssa.FieldAddr); ok && ra.Field == fa.Field && types.Identical(ra.X.Type(), fa.X.Type()) {
						return true
					}
				}
			}
		}
		return false
	}
	good := true
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := k.Common()
				if len(d.callees(cm)) > 0 {
					continue // followed to the parameters
				}
				args := cm.Args
				if cm.IsInvoke() {
					args = append([]ssa.Value{cm.Value}, args...)
				}
				hit := -1
				for i, a := range args {
					if isBufferLike(a.Type()) && same(a) {
						hit = i
						break
					}
				}
				if hit < 0 {
					continue
				}
				n := calleeName(cm)
				m := n[strings.LastIndexByte(n, '.')+1:]
				if cm.IsInvoke() {
					m = cm.Method.Name()
				}
				if hit == 0 && (strings.HasPrefix(n, "(*bytes.Buffer)") || strings.HasPrefix(n, "(*strings.Builder)") || cm.IsInvoke()) {
					switch m {
					case "Bytes", "String", "Len", "Cap", "Reset", "Grow", "Available":
					case "Write", "WriteString":
						out = append(out, part{in: in, data: args[1]})
					case "WriteByte", "WriteRune":
						out = append(out, part{in: in})
					case "ReadFrom":
						out = append(out, part{in: in, file: args[1]})
					case "Truncate":
						if z, ok := kInt(args[1]); !ok || z != 0 {
							good = t.bad(in, "a part of the text is cut off here")
						}
					default:
						good = t.bad(in, "the buffer that holds a template's text is used by %s", n)
					}
					continue
				}
				switch base(n) {
				case "io.Copy", "io.CopyBuffer":
					if hit == 0 {
						out = append(out, part{in: in, file: args[1]})
						continue
					}
				case "io.WriteString":
					out = append(out, part{in: in, data: args[1]})
					continue
				}
				out = append(out, part{in: in})
			}
		}
	}
	return out, good
}

func isBufferLike(ty types.Type) bool {
	if _, ok := ty.Underlying().(*types.Interface); ok {
		return !types.Identical(ty, types.Universe.Lookup("error").Type())
	}
	p, ok := ty.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := p.Elem().String()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

func (t *textRule) emptyText(v ssa.Value) bool {
	for _, o := range t.origins(v) {
		switch x := o.(type) {
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" {
				continue
			}
		case *ssa.MakeSlice:
			if n, ok := kInt(x.Len); ok && n == 0 {
				continue
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
					continue
				}
			}
		}
		return false
	}
	return true
}

// piecewise judges a loop over the matches of an expression in a text that
// copies the text before each match, adds what the match is replaced by, and
// copies the rest after the last one.
func (t *textRule) piecewise(at ssa.Instruction, segs, other []part) bool {
	d := t.d
	f := segs[0].in.Parent()
	for _, p := range segs {
		if p.in.Parent() != f {
			return t.bad(p.in, "the pieces of a text are copied in different functions")
		}
	}
	info := d.info(f)
	inner := func(b *ssa.BasicBlock) *loop {
		var best *loop
		for _, l := range info.loops {
			if l.blocks[b] && (best == nil || best.blocks[l.head]) {
				best = l
			}
		}
		return best
	}
	// the pieces between matches, and what remains
	var gaps, tails []part
	var text ssa.Value
	for _, p := range segs {
		s := p.data.(*ssa.Slice)
		if text == nil {
			text = s.X
		}
		if s.High == nil || isLenOf(s.High, s.X) {
			tails = append(tails, p)
		} else {
			gaps = append(gaps, p)
		}
	}
	if len(gaps) != 1 {
		return t.bad(at, "%d parts of the text are copied between its magic comments, not one", len(gaps))
	}
	gap := gaps[0]
	gs := gap.data.(*ssa.Slice)
	lp := inner(gap.in.Block())
	if lp == nil {
		return t.bad(gap.in, "a part of the text is copied outside a loop over its magic comments")
	}
	// match[k] read from the bounds of a match
	bound := func(v ssa.Value) (m ssa.Value, k int64, ok bool) {
		u, isU := v.(*ssa.UnOp)
		if !isU || u.Op != token.MUL {
			return nil, 0, false
		}
		ia, isI := u.X.(*ssa.IndexAddr)
		if !isI {
			return nil, 0, false
		}
		k, ok = kInt(ia.Index)
		return ia.X, k, ok
	}
	m, k, ok := bound(gs.High)
	if !ok || k != 0 {
		return t.bad(gap.in, "the part copied between magic comments does not end where one begins")
	}
	sameMatch := func(a ssa.Value) bool {
		if a == m {
			return true
		}
		x, ok1 := a.(*ssa.UnOp)
		y, ok2 := m.(*ssa.UnOp)
		if !ok1 || !ok2 {
			return false
		}
		xi, ok1 := x.X.(*ssa.IndexAddr)
		yi, ok2 := y.X.(*ssa.IndexAddr)
		return ok1 && ok2 && xi.X == yi.X && xi.Index == yi.Index
	}
	var latches []*ssa.BasicBlock
	for _, p := range lp.head.Preds {
		if lp.blocks[p] {
			latches = append(latches, p)
		}
	}
	good := true
	first := gap.in.Block() // where it is decided that the piece is copied
	if p := first.Preds; len(p) == 1 && p[0].Succs[0] == first && lp.blocks[p[0]] {
		if iff, ok := p[0].Instrs[len(p[0].Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok {
				from := func(v ssa.Value) bool {
					if gs.Low == nil {
						return isZero(v)
					}
					return v == gs.Low
				}
				to := func(v ssa.Value) bool {
					m2, k, ok := bound(v)
					return ok && k == 0 && sameMatch(m2)
				}
				if (c.Op == token.LSS || c.Op == token.NEQ) && from(c.X) && to(c.Y) || (c.Op == token.GTR || c.Op == token.NEQ) && to(c.X) && from(c.Y) {
					first = p[0]
				}
			}
		}
	}
	for _, l := range latches {
		if !first.Dominates(l) {
			good = t.bad(gap.in, "a round over a magic comment can end without copying the text before it")
		}
	}
	for _, o := range other {
		if o.in.Parent() != f || !lp.blocks[o.in.Block()] {
			// an own function called from the loop may add the replacement
			if o.in.Parent() != f {
				continue
			}
			if s := o.data; s != nil {
				if ph, ok := s.(*ssa.Phi); ok && ph.Block() == lp.head {
					tails = append(tails, o)
					continue
				}
			}
			good = t.bad(o.in, "something is added to the template's text outside the replacement of its magic comments")
			continue
		}
		if gap.in.Block() == o.in.Block() && !before(gap.in, o.in) || !first.Dominates(o.in.Block()) {
			good = t.bad(o.in, "a replacement is added before the text that precedes its magic comment")
		}
	}
	if len(tails) != 1 || lp.blocks[tails[0].in.Block()] {
		return t.bad(at, "what follows the last magic comment is not copied once after the others")
	}
	tail := tails[0]
	where := tail.in.Block()
	if ifMore(where, tail.data) {
		where = where.Preds[0]
	}
	if at.Parent() == f && !where.Dominates(at.Block()) {
		return t.bad(tail.in, "what follows the last magic comment is not always copied")
	}
	ts, _ := tail.data.(*ssa.Slice)
	whole := false // every match is found in what remains
	if gs.Low == nil || isZero(gs.Low) {
		whole = true
	}
	cursorOK := func(ph *ssa.Phi, first func(ssa.Value) bool, next func(ssa.Value) bool) bool {
		for i, e := range ph.Edges {
			if lp.blocks[ph.Block().Preds[i]] {
				if !next(e) {
					return false
				}
			} else if !first(e) {
				return false
			}
		}
		return true
	}
	t.nLoops++
	if whole {
		// rest = rest[m[1]:] each round; the tail is rest
		ph, ok := gs.X.(*ssa.Phi)
		if !ok || ph.Block() != lp.head || ts != nil && (ts.X != ph || ts.Low != nil && !isZero(ts.Low)) || ts == nil && tail.data != ssa.Value(ph) {
			return t.bad(gap.in, "the rest of the text after each magic comment is not what is searched next")
		}
		var firsts []ssa.Value
		if !cursorOK(ph, func(v ssa.Value) bool { firsts = append(firsts, v); return true }, func(v ssa.Value) bool {
			s, ok := v.(*ssa.Slice)
			if !ok || s.X != ph || s.High != nil || s.Low == nil {
				return false
			}
			m2, k, ok := bound(s.Low)
			return ok && k == 1 && sameMatch(m2)
		}) {
			return t.bad(gap.in, "the search does not go on where the magic comment ends")
		}
		c, ok := m.(*ssa.Call)
		if !ok || !strings.HasPrefix(calleeName(&c.Call), "(*regexp.Regexp).Find") || !strings.HasSuffix(calleeName(&c.Call), "Index") || c.Call.Args[1] != ph {
			return t.bad(gap.in, "the bounds used here are not those of a match in the rest of the text")
		}
		good = t.regex(c, c.Call.Args[0]) && good
		for _, v := range firsts {
			good = t.text(v) && good
		}
		return good
	}
	// last = m[1] each round; the tail is text[last:]
	ph, ok := gs.Low.(*ssa.Phi)
	if !ok || ph.Block() != lp.head || ts == nil || ts.Low != ph || ts.X != gs.X {
		return t.bad(gap.in, "the text is not copied from where the last magic comment ended")
	}
	if !cursorOK(ph, isZero, func(v ssa.Value) bool {
		m2, k, ok := bound(v)
		return ok && k == 1 && sameMatch(m2)
	}) {
		return t.bad(gap.in, "the text is not copied from where the last magic comment ended")
	}
	ld, ok := m.(*ssa.UnOp)
	if !ok {
		return t.bad(gap.in, "the bounds used here are not those of a match in the text")
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return t.bad(gap.in, "the bounds used here are not those of a match in the text")
	}
	c, ok := ia.X.(*ssa.Call)
	n := ""
	if ok {
		n = calleeName(&c.Call)
	}
	if !strings.HasPrefix(n, "(*regexp.Regexp).FindAll") || !strings.HasSuffix(n, "Index") || c.Call.Args[1] != gs.X {
		return t.bad(gap.in, "the bounds used here are not those of a match in the text")
	}
	if z, ok := kInt(c.Call.Args[2]); !ok || z >= 0 {
		good = t.bad(c, "not all magic comments are found")
	}
	if !everyIndex(ia.Index, ia.X, lp) {
		good = t.bad(gap.in, "the loop does not go over every match in turn")
	}
	good = t.regex(c, c.Call.Args[0]) && good
	return t.text(gs.X) && good
}

// everyIndex reports whether i runs over all indexes of xs in the loop.
func everyIndex(i, xs ssa.Value, lp *loop) bool {
	step := func(v ssa.Value, ph *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ph {
			return false
		}
		n, ok := kInt(b.Y)
		return ok && n == 1
	}
	var ph *ssa.Phi
	from := int64(0)
	switch x := i.(type) {
	case *ssa.BinOp: // range: i+1 from -1
		p, ok := x.X.(*ssa.Phi)
		if !ok || !step(x, p) {
			return false
		}
		ph, from = p, -1
	case *ssa.Phi:
		ph = x
	default:
		return false
	}
	if ph.Block() != lp.head {
		return false
	}
	for j, e := range ph.Edges {
		if lp.blocks[ph.Block().Preds[j]] {
			if !step(e, ph) {
				return false
			}
		} else if n, ok := kInt(e); !ok || n != from {
			return false
		}
	}
	// left only when the matches are used up
	for b := range lp.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for si, s := range b.Succs {
			if lp.blocks[s] {
				continue
			}
			if !ok || si != 1 {
				return false
			}
			c, ok := iff.Cond.(*ssa.BinOp)
			if !ok || c.Op != token.LSS || c.X != i || !isLenOf(c.Y, xs) {
				return false
			}
		}
	}
	return true
}

/* ---- the expression ---- */

// regex requires v to be the expression of a magic comment.
func (t *textRule) regex(at ssa.Instruction, v ssa.Value) bool {
	good := true
	for _, o := range t.origins(v) {
		var c *ssa.Call
		switch x := o.(type) {
		case *ssa.Const:
			continue
		case *ssa.Call:
			c = x
		case *ssa.Extract:
			c, _ = x.Tuple.(*ssa.Call)
		}
		n := ""
		if c != nil {
			n = calleeName(&c.Call)
		}
		posix := n == "regexp.MustCompilePOSIX" || n == "regexp.CompilePOSIX"
		if n != "regexp.MustCompile" && n != "regexp.Compile" && !posix {
			return t.bad(at, "the expression for magic comments is not known: %s", exprOf(o))
		}
		ps, ok := t.d.g.se.str(fval{c.Call.Args[0], nil})
		pat := ""
		for _, p := range ps {
			if p.sym != "" {
				ok = false
			}
			pat += p.lit
		}
		if !ok {
			return t.bad(c, "the expression for magic comments is not a constant")
		}
		why, ok := t.regs[pat]
		if !ok {
			why = examine(pat, posix)
			t.regs[pat] = why
			t.r.checked += 4
		}
		if why != "" {
			good = t.bad(c, "%s", why)
		}
	}
	return good
}

// examine says what is wrong with an expression for magic comments: it must
// match whole lines only, all beginning as magic comments do, and every magic
// comment there is.
func examine(pat string, posix bool) string {
	flags := syntax.Perl
	if posix {
		flags = syntax.POSIX
	}
	re, err := syntax.Parse(pat, flags)
	if err != nil {
		return "the expression for magic comments cannot be parsed: " + err.Error()
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return "the expression for magic comments cannot be compiled: " + err.Error()
	}
	const begin = syntax.EmptyBeginLine | syntax.EmptyBeginText
	const end = syntax.EmptyEndLine | syntax.EmptyEndText
	isRune := func(op syntax.InstOp) bool {
		return op == syntax.InstRune || op == syntax.InstRune1 || op == syntax.InstRuneAny || op == syntax.InstRuneAnyNotNL
	}
	// closure lists what is reached without reading, and whether a line
	// boundary of the given kind was crossed on the way
	closure := func(from []uint32, kind syntax.EmptyOp) (with, without map[uint32]bool) {
		with, without = map[uint32]bool{}, map[uint32]bool{}
		var w func(pc uint32, crossed bool)
		w = func(pc uint32, crossed bool) {
			s := without
			if crossed {
				s = with
			}
			if s[pc] {
				return
			}
			s[pc] = true
			switch in := &prog.Inst[pc]; in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				w(in.Out, crossed)
				w(in.Arg, crossed)
			case syntax.InstCapture, syntax.InstNop:
				w(in.Out, crossed)
			case syntax.InstEmptyWidth:
				w(in.Out, crossed || syntax.EmptyOp(in.Arg)&kind != 0)
			}
		}
		for _, pc := range from {
			w(pc, false)
		}
		return
	}
	start := uint32(prog.Start)
	_, free := closure([]uint32{start}, begin)
	for pc := range free {
		if in := &prog.Inst[pc]; isRune(in.Op) || in.Op == syntax.InstMatch {
			return fmt.Sprintf("the expression %q also matches after the beginning of a line: code that quotes a magic comment would be changed", pat)
		}
	}
	for pc := range prog.Inst {
		in := &prog.Inst[pc]
		if !isRune(in.Op) {
			continue
		}
		if in.Op == syntax.InstRuneAny || in.Op != syntax.InstRuneAnyNotNL && in.MatchRune('\n') {
			return fmt.Sprintf("a match of the expression %q may take in the end of its line, so that lines around a magic comment are lost", pat)
		}
		_, free := closure([]uint32{in.Out}, end)
		for q := range free {
			if prog.Inst[q].Op == syntax.InstMatch {
				return fmt.Sprintf("a match of the expression %q may end before its line does, so that the rest of the line remains", pat)
			}
		}
	}
	// every match begins as magic comments do
	cur := []uint32{start}
	for i, r := range magicPrefix {
		with, without := closure(cur, 0)
		for pc := range with {
			without[pc] = true
		}
		var next []uint32
		for pc := range without {
			in := &prog.Inst[pc]
			switch {
			case in.Op == syntax.InstMatch:
				return fmt.Sprintf("the expression %q matches lines that are no magic comments", pat)
			case isRune(in.Op):
				if !in.MatchRune(r) || in.Op != syntax.InstRune1 && !(in.Op == syntax.InstRune && onlyRune(in, r)) {
					return fmt.Sprintf("the expression %q matches lines that do not begin with %q: other comments would be changed", pat, magicPrefix[:i+1])
				}
				next = append(next, in.Out)
			}
		}
		cur = next
	}
	// every magic comment is matched, wherever it stands
	var rx *regexp.Regexp
	if posix {
		rx, err = regexp.CompilePOSIX(pat)
	} else {
		rx, err = regexp.Compile(pat)
	}
	if err != nil {
		return "the expression for magic comments cannot be compiled: " + err.Error()
	}
	var doc strings.Builder
	var lines []string
	for _, recv := range []string{"Buffer", "MiniBuffer"} {
		for _, rw := range []string{"Read", "Write"} {
			for _, kind := range []string{"I", "U", "F"} {
				for _, bits := range []string{"16", "32", "64"} {
					for _, order := range []string{"BE", "LE"} {
						lines = append(lines, magicPrefix+strings.Join([]string{recv, rw, kind, bits, order}, " "))
					}
				}
			}
		}
	}
	doc.WriteString("package p\n")
	for i, l := range lines {
		if i%3 == 0 {
			doc.WriteString("\n")
		}
		doc.WriteString(l + "\n")
	}
	text := strings.TrimSuffix(doc.String(), "\n") // the last one ends the text
	found := rx.FindAllString(text, -1)
	for i, l := range lines {
		if i >= len(found) || found[i] != l {
			return fmt.Sprintf("the expression %q does not find the magic comment %q", pat, l)
		}
	}
	return ""
}

func onlyRune(in *syntax.Inst, r rune) bool {
	if len(in.Rune) == 1 {
		return in.Rune[0] == r && syntax.Flags(in.Arg)&syntax.FoldCase == 0
	}
	return len(in.Rune) == 2 && in.Rune[0] == r && in.Rune[1] == r
}
