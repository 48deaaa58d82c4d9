package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// frame is one calling context: the values bound to a function's parameters.
type frame struct {
	fn    *ssa.Function
	args  []fval
	frees []fval
	up    *frame
	site  ssa.Instruction
	depth int
}

// fval is a value in a calling context.
type fval struct {
	v  ssa.Value
	fr *frame
}

// piece is a literal or a named unknown part of a string.
type piece struct {
	lit string
	sym string
}

func piecesStr(ps []piece) string {
	if len(ps) == 0 {
		return `""`
	}
	var out []string
	for _, p := range ps {
		if p.sym != "" {
			out = append(out, "<"+p.sym+">")
		} else {
			out = append(out, fmt.Sprintf("%q", p.lit))
		}
	}
	return strings.Join(out, "+")
}

func normPieces(ps []piece) []piece {
	var out []piece
	for _, p := range ps {
		if p.sym == "" {
			if p.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].sym == "" {
				out[n-1].lit += p.lit
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func samePieces(a, b []piece) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// strEval evaluates strings over literals and named parts.
type strEval struct {
	own   func(*ssa.Function) bool
	leaf  func(fval) ([]piece, bool) // problem-specific leaves
	depth int
}

// resolve follows copies, parameters, single-assignment locals and phis that
// all agree to the value's definition.
func (se *strEval) resolve(x fval) fval {
	for i := 0; i < 64; i++ {
		switch v := x.v.(type) {
		case *ssa.Parameter:
			if x.fr == nil || x.fr.fn != v.Parent() {
				return x
			}
			k := -1
			for j, p := range x.fr.fn.Params {
				if p == v {
					k = j
				}
			}
			if k < 0 || k >= len(x.fr.args) || x.fr.args[k].v == nil {
				return x
			}
			x = x.fr.args[k]
		case *ssa.FreeVar:
			if x.fr == nil || x.fr.fn != v.Parent() {
				return x
			}
			k := -1
			for j, p := range x.fr.fn.FreeVars {
				if p == v {
					k = j
				}
			}
			if k < 0 || k >= len(x.fr.frees) || x.fr.frees[k].v == nil {
				return x
			}
			x = x.fr.frees[k]
		case *ssa.ChangeType:
			x = fval{v.X, x.fr}
		case *ssa.ChangeInterface:
			x = fval{v.X, x.fr}
		case *ssa.Convert:
			// string <-> []byte keep the bytes
			if isBytesOrString(v.Type()) && isBytesOrString(v.X.Type()) {
				x = fval{v.X, x.fr}
				continue
			}
			return x
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return x
			}
			a := se.resolve(fval{v.X, x.fr})
			al, ok := a.v.(*ssa.Alloc)
			if !ok {
				return x
			}
			s := singleStore(al)
			if s == nil {
				return x
			}
			x = fval{s.Val, a.fr}
		case *ssa.Phi:
			var one fval
			for _, e := range v.Edges {
				if e == v {
					continue
				}
				if one.v == nil {
					one = fval{e, x.fr}
				} else if one.v != e {
					return x
				}
			}
			if one.v == nil {
				return x
			}
			x = one
		default:
			return x
		}
	}
	return x
}

func isBytesOrString(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// singleStore finds the only store to a local that is otherwise just loaded.
func singleStore(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr != al || st != nil {
				return nil
			}
			st = u
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// captured: only if no closure stores to it
			for i, b := range u.Bindings {
				if b != al {
					continue
				}
				fv := u.Fn.(*ssa.Function).FreeVars[i]
				for _, r2 := range *fv.Referrers() {
					if l, ok := r2.(*ssa.UnOp); !ok || l.Op != token.MUL {
						return nil
					}
				}
			}
		default:
			return nil
		}
	}
	return st
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func kInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.Value)
	return n, ok
}

// calleeName is the qualified name of a call's static target.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + c.Value.Type().String() + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Object() != nil {
			if fo, ok := f.Object().(*types.Func); ok {
				return fo.FullName()
			}
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "?"
}

// varargs yields the values of a slice literal built for a variadic call.
func (se *strEval) sliceLit(x fval) ([]fval, bool) {
	x = se.resolve(x)
	if c, ok := x.v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := x.v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]fval, at.Len())
	for _, r := range *al.Referrers() {
		switch u := r.(type) {
		case *ssa.IndexAddr:
			k, ok := kInt(u.Index)
			if !ok || k < 0 || k >= at.Len() {
				return nil, false
			}
			for _, r2 := range *u.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != u || out[k].v != nil {
					return nil, false
				}
				out[k] = fval{st.Val, x.fr}
			}
		case *ssa.Slice:
			if u != sl {
				return nil, false
			}
		case *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	for _, o := range out {
		if o.v == nil {
			return nil, false
		}
	}
	return out, true
}

func (se *strEval) str(x fval) ([]piece, bool) {
	ps, ok := se.str0(x)
	return normPieces(ps), ok
}

func (se *strEval) str0(x fval) ([]piece, bool) {
	if se.depth > 60 {
		return nil, false
	}
	se.depth++
	defer func() { se.depth-- }()
	if se.leaf != nil {
		if ps, ok := se.leaf(x); ok {
			return ps, true
		}
	}
	x = se.resolve(x)
	if se.leaf != nil {
		if ps, ok := se.leaf(x); ok {
			return ps, true
		}
	}
	if s, ok := constStr(x.v); ok {
		return []piece{{lit: s}}, true
	}
	sub := func(v ssa.Value) ([]piece, bool) { return se.str(fval{v, x.fr}) }
	switch v := x.v.(type) {
	case *ssa.MakeInterface:
		return sub(v.X)
	case *ssa.BinOp:
		if v.Op != token.ADD {
			return nil, false
		}
		a, ok1 := sub(v.X)
		b, ok2 := sub(v.Y)
		if !ok1 || !ok2 {
			return nil, false
		}
		return append(append([]piece{}, a...), b...), true
	case *ssa.Phi:
		var one []piece
		for i, e := range v.Edges {
			if e == v {
				continue
			}
			p, ok := sub(e)
			if !ok || i > 0 && !samePieces(one, p) {
				return nil, false
			}
			one = p
		}
		return one, true
	case *ssa.Slice:
		ps, ok := sub(v.X)
		if !ok {
			return nil, false
		}
		return se.slice(ps, v, x.fr)
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok {
			return nil, false
		}
		if v.Index == 0 {
			switch calleeName(&c.Call) {
			case "strings.CutPrefix":
				return se.trim(c, x.fr, true)
			case "strings.CutSuffix":
				return se.trim(c, x.fr, false)
			case "path/filepath.Abs":
				return sub(c.Call.Args[0])
			}
		}
		return se.inline(c, v.Index, x.fr)
	case *ssa.Call:
		a := v.Call.Args
		switch calleeName(&v.Call) {
		case "strings.TrimPrefix":
			return se.trim(v, x.fr, true)
		case "strings.TrimSuffix":
			return se.trim(v, x.fr, false)
		case "strings.Clone", "bytes.Clone", "slices.Clone":
			return sub(a[0])
		case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
			return se.builder(v, x.fr)
		case "builtin.append":
			p, ok := sub(a[0])
			q, ok2 := sub(a[1])
			if !ok || !ok2 || !isBytesOrString(v.Type()) {
				return nil, false
			}
			return append(append([]piece{}, p...), q...), true
		case "regexp.QuoteMeta":
			p, ok := sub(a[0])
			out := ""
			for _, q := range p {
				ok = ok && q.sym == ""
				out += q.lit
			}
			return []piece{{lit: regexp.QuoteMeta(out)}}, ok
		case "strings.Repeat":
			p, ok := sub(a[0])
			n, ok2 := se.cint(fval{a[1], x.fr})
			if !ok || !ok2 || n < 0 || n > 100 {
				return nil, false
			}
			var out []piece
			for ; n > 0; n-- {
				out = append(out, p...)
			}
			return out, true
		case "strings.Replace":
			ps, ok := sub(a[0])
			old, ok1 := sub(a[1])
			nw, ok2 := sub(a[2])
			n, ok3 := kInt(se.resolve(fval{a[3], x.fr}).v)
			if !ok || !ok1 || !ok2 || !ok3 || n != 1 || len(old) != 1 || old[0].sym != "" || len(ps) == 0 || ps[0].sym != "" {
				return nil, false
			}
			if !strings.HasPrefix(ps[0].lit, old[0].lit) {
				return nil, false
			}
			out := append([]piece{}, nw...)
			out = append(out, piece{lit: ps[0].lit[len(old[0].lit):]})
			return append(out, ps[1:]...), true
		case "strings.Join":
			es, ok := se.sliceLit(fval{a[0], x.fr})
			sep, ok2 := sub(a[1])
			if !ok || !ok2 {
				return nil, false
			}
			var out []piece
			for i, e := range es {
				if i > 0 {
					out = append(out, sep...)
				}
				p, ok := se.str(e)
				if !ok {
					return nil, false
				}
				out = append(out, p...)
			}
			return out, true
		case "path/filepath.Join", "path.Join":
			es, ok := se.sliceLit(fval{a[0], x.fr})
			if !ok {
				return nil, false
			}
			var out []piece
			for _, e := range es {
				p, ok := se.str(e)
				if !ok {
					return nil, false
				}
				if len(p) == 0 || len(p) == 1 && p[0].lit == "." {
					continue
				}
				if len(out) > 0 {
					out = append(out, piece{lit: "/"})
				}
				out = append(out, p...)
			}
			return out, true
		case "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash", "path.Clean":
			return sub(a[0])
		case "path/filepath.Base", "path.Base":
			ps, ok := sub(a[0])
			if !ok {
				return nil, false
			}
			for i := len(ps) - 1; i >= 0; i-- {
				if ps[i].sym == "" {
					if k := strings.LastIndex(ps[i].lit, "/"); k >= 0 {
						return append([]piece{{lit: ps[i].lit[k+1:]}}, ps[i+1:]...), true
					}
				} else if ps[i].sym != "S" {
					return nil, false
				}
			}
			return ps, true
		case "path/filepath.Ext", "path.Ext":
			ps, ok := sub(a[0])
			if !ok || len(ps) == 0 || ps[len(ps)-1].sym != "" {
				return nil, false
			}
			l := ps[len(ps)-1].lit
			k := strings.LastIndexByte(l, '.')
			if k < 0 {
				return nil, false
			}
			return []piece{{lit: l[k:]}}, true
		case "fmt.Sprintf":
			f, ok := sub(a[0])
			es, ok2 := se.sliceLit(fval{a[1], x.fr})
			if !ok || !ok2 || len(f) != 1 || f[0].sym != "" {
				return nil, false
			}
			return se.format(f[0].lit, es)
		case "fmt.Sprint":
			es, ok := se.sliceLit(fval{a[0], x.fr})
			if !ok {
				return nil, false
			}
			var out []piece
			for _, e := range es {
				if !isStringIface(se, e) {
					return nil, false
				}
				p, ok := se.str(e)
				if !ok {
					return nil, false
				}
				out = append(out, p...)
			}
			return out, true
		}
		return se.inline(v, 0, x.fr)
	}
	return nil, false
}

// builder evaluates the text gathered in a local builder by a sequence of
// writes that every execution of the call at c has passed through exactly once.
func (se *strEval) builder(c *ssa.Call, fr *frame) ([]piece, bool) {
	al, ok := c.Call.Args[0].(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	type write struct {
		in   ssa.Instruction
		call *ssa.CallCommon
	}
	var ws []write
	collect := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeName(&call.Call)
		k := n[strings.LastIndexByte(n, '.')+1:]
		switch k {
		case "String", "Bytes", "Len", "Cap", "Grow":
			return len(call.Call.Args) > 0 && call.Call.Args[0] == al
		case "WriteString", "WriteByte", "WriteRune", "Write", "Fprintf", "Fprint":
		default:
			return false
		}
		for _, a := range call.Call.Args[1:] {
			if a == al {
				return false
			}
		}
		ws = append(ws, write{in, &call.Call})
		return true
	}
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface:
			for _, w := range *u.Referrers() {
				if _, ok := w.(*ssa.DebugRef); !ok && !collect(w) {
					return nil, false
				}
			}
		default:
			if !collect(u) {
				return nil, false
			}
		}
	}
	at := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			return at(a) < at(b)
		}
		return a.Block().Dominates(b.Block())
	}
	var out []piece
	n := len(ws)
	ord := make([]*write, n)
	for i := range ws {
		w := &ws[i]
		if w.in.Block() != al.Block() { // not to be repeated
			for _, s := range w.in.Block().Succs {
				if reachesAvoiding(s, w.in.Block(), nil) {
					return nil, false
				}
			}
		}
		if before(c, w.in) {
			continue
		}
		if !before(w.in, c) {
			return nil, false
		}
		k := 0
		for j := range ws {
			if j != i && before(ws[j].in, w.in) {
				k++
			}
		}
		if ord[k] != nil {
			return nil, false
		}
		ord[k] = w
	}
	for _, w := range ord {
		if w == nil {
			continue
		}
		a := w.call.Args
		nm := calleeName(w.call)
		var p []piece
		ok := false
		switch nm[strings.LastIndexByte(nm, '.')+1:] {
		case "WriteString", "Write":
			p, ok = se.str(fval{a[1], fr})
		case "WriteByte", "WriteRune":
			var k int64
			k, ok = kInt(se.resolve(fval{a[1], fr}).v)
			p = []piece{{lit: string(rune(k))}}
			if nm[strings.LastIndexByte(nm, '.')+1:] == "WriteByte" {
				p = []piece{{lit: string([]byte{byte(k)})}}
			}
		case "Fprintf":
			f, ok1 := se.str(fval{a[1], fr})
			es, ok2 := se.sliceLit(fval{a[2], fr})
			if ok1 && ok2 && len(f) == 1 && f[0].sym == "" {
				p, ok = se.format(f[0].lit, es)
			}
		}
		if !ok {
			return nil, false
		}
		out = append(out, p...)
	}
	return out, true
}

func isStringIface(se *strEval, e fval) bool {
	e = se.resolve(e)
	if m, ok := e.v.(*ssa.MakeInterface); ok {
		b, ok := m.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	b, ok := e.v.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (se *strEval) format(f string, es []fval) ([]piece, bool) {
	var out []piece
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, piece{lit: string(f[i])})
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		switch f[i] {
		case '%':
			out = append(out, piece{lit: "%"})
		case 's', 'v':
			if k >= len(es) || !isStringIface(se, es[k]) {
				return nil, false
			}
			p, ok := se.str(es[k])
			if !ok {
				return nil, false
			}
			k++
			out = append(out, p...)
		default:
			return nil, false
		}
	}
	if k != len(es) {
		return nil, false
	}
	return out, true
}

func (se *strEval) trim(c *ssa.Call, fr *frame, prefix bool) ([]piece, bool) {
	ps, ok := se.str(fval{c.Call.Args[0], fr})
	q, ok2 := se.str(fval{c.Call.Args[1], fr})
	if !ok || !ok2 || len(q) > 1 || len(q) == 1 && q[0].sym != "" {
		return nil, false
	}
	if len(q) == 0 {
		return ps, true
	}
	cut := q[0].lit
	if len(ps) == 0 {
		return ps, true
	}
	out := append([]piece{}, ps...)
	if prefix {
		if out[0].sym != "" {
			return nil, false
		}
		l := out[0].lit
		switch {
		case strings.HasPrefix(l, cut):
			out[0].lit = l[len(cut):]
		case len(out) > 1 && strings.HasPrefix(cut, l):
			return nil, false
		}
		return out, true
	}
	n := len(out) - 1
	if out[n].sym != "" {
		return nil, false
	}
	l := out[n].lit
	switch {
	case strings.HasSuffix(l, cut):
		out[n].lit = l[:len(l)-len(cut)]
	case len(out) > 1 && strings.HasSuffix(cut, l):
		return nil, false
	}
	return out, true
}

func (se *strEval) slice(ps []piece, v *ssa.Slice, fr *frame) ([]piece, bool) {
	out := append([]piece{}, ps...)
	if v.High != nil {
		h := se.resolve(fval{v.High, fr})
		b, ok := h.v.(*ssa.BinOp)
		if !ok || b.Op != token.SUB {
			return nil, false
		}
		ln, ok := se.resolve(fval{b.X, h.fr}).v.(*ssa.Call)
		if !ok || calleeName(&ln.Call) != "builtin.len" {
			return nil, false
		}
		x, ok := se.str(fval{ln.Call.Args[0], h.fr})
		if !ok || !samePieces(x, normPieces(ps)) {
			return nil, false
		}
		k, ok := se.cint(fval{b.Y, h.fr})
		n := len(out) - 1
		if !ok || n < 0 || out[n].sym != "" || k < 0 || int(k) > len(out[n].lit) {
			return nil, false
		}
		out[n].lit = out[n].lit[:len(out[n].lit)-int(k)]
	}
	if v.Low != nil {
		k, ok := se.cint(fval{v.Low, fr})
		if !ok || len(out) == 0 || out[0].sym != "" || k < 0 || int(k) > len(out[0].lit) {
			return nil, false
		}
		out[0].lit = out[0].lit[k:]
	}
	return normPieces(out), true
}

func (se *strEval) cint(x fval) (int64, bool) {
	x = se.resolve(x)
	if n, ok := kInt(x.v); ok {
		return n, true
	}
	if c, ok := x.v.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.len" {
		ps, ok := se.str(fval{c.Call.Args[0], x.fr})
		if !ok {
			return 0, false
		}
		n := 0
		for _, p := range ps {
			if p.sym != "" {
				return 0, false
			}
			n += len(p.lit)
		}
		return int64(n), true
	}
	if b, ok := x.v.(*ssa.BinOp); ok {
		p, ok1 := se.cint(fval{b.X, x.fr})
		q, ok2 := se.cint(fval{b.Y, x.fr})
		if ok1 && ok2 {
			switch b.Op {
			case token.ADD:
				return p + q, true
			case token.SUB:
				return p - q, true
			}
		}
	}
	return 0, false
}

// enter makes the frame of a call of an analysed function.
func enter(c *ssa.CallCommon, site ssa.Instruction, fr *frame) *frame {
	f := c.StaticCallee()
	d := 0
	if fr != nil {
		d = fr.depth
	}
	nf := &frame{fn: f, up: fr, site: site, depth: d + 1}
	for _, a := range c.Args {
		nf.args = append(nf.args, fval{a, fr})
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			nf.frees = append(nf.frees, fval{b, fr})
		}
	}
	return nf
}

// inline evaluates the index-th result of a call of an analysed function.
func (se *strEval) inline(c *ssa.Call, index int, fr *frame) ([]piece, bool) {
	f := c.Call.StaticCallee()
	if f == nil || !se.own(f) || len(f.Blocks) == 0 || fr != nil && fr.depth > 8 {
		return nil, false
	}
	nf := enter(&c.Call, c, fr)
	var one []piece
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if index >= len(r.Results) {
			return nil, false
		}
		p, ok := se.str(fval{r.Results[index], nf})
		if !ok || n > 0 && !samePieces(p, one) {
			return nil, false
		}
		one = p
		n++
	}
	return one, n > 0
}
