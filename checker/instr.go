package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// require splits c on cond: states where it holds continue, the others fail.
func (e *Engine) require(c Conf, cond Bool) (ok, bad []Conf) {
	br, _ := e.decide(c.st.f, c.st.pc, cond)
	for i, b := range br {
		var d Conf
		if i == len(br)-1 {
			d = c
			d.st.f, d.st.pc = b.f, b.pc
		} else {
			d = c.fork(b.f, b.pc)
		}
		if b.cond {
			ok = append(ok, d)
		} else {
			bad = append(bad, d)
		}
	}
	return
}

// requireAll checks conditions in order, raising a run-time panic where one fails.
func (e *Engine) requireAll(c Conf, kind string, pos token.Pos, res *result, conds ...Bool) []Conf {
	cs := []Conf{c}
	for _, q := range conds {
		var nx []Conf
		for _, d := range cs {
			ok, bad := e.require(d, q)
			nx = append(nx, ok...)
			for _, b := range bad {
				e.rtPanic(b, kind, pos, res)
			}
		}
		cs = nx
	}
	return cs
}

func ge(e *Engine, l *Lin) Bool { return e.linBool('g', l) }

// setAlts assigns each alternative to v.
func (e *Engine) setAlts(c Conf, v ssa.Value, as []alt) []Conf {
	var out []Conf
	for i, a := range as {
		d := c
		if i < len(as)-1 {
			d = c.fork(a.f, c.st.pc)
		} else {
			d.st.f = a.f
		}
		d.set(v, a.v)
		out = append(out, d)
	}
	return out
}

func (e *Engine) stepIn(c Conf, in ssa.Instruction, res *result) []Conf {
	same := []Conf{c}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return same
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := &Obj{typ: t, name: x.Comment}
		e.fillObj(o, e.zero(t), t)
		id := e.newObj(c.st, o)
		c.set(x, e.ptrTo(c.st, id))
		return same
	case *ssa.BinOp:
		return e.binOp(c, x, res)
	case *ssa.UnOp:
		return e.unOp(c, x, res)
	case *ssa.Convert:
		return e.convert(c, x, x.X, x.Type(), res)
	case *ssa.ChangeType:
		c.set(x, e.get(c, x.X))
		return same
	case *ssa.ChangeInterface:
		c.set(x, e.get(c, x.X))
		return same
	case *ssa.MakeInterface:
		v := e.get(c, x.X)
		c.set(x, Iface{T: x.X.Type(), V: v})
		return same
	case *ssa.MakeClosure:
		f := Func{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.get(c, b))
		}
		c.set(x, f)
		return same
	case *ssa.TypeAssert:
		return e.typeAssert(c, x, res)
	case *ssa.Extract:
		t, ok := e.get(c, x.Tuple).(Tuple)
		if !ok {
			unsup("extract from unknown tuple")
		}
		c.set(x, t[x.Index])
		return same
	case *ssa.FieldAddr:
		p, ok := e.get(c, x.X).(Ptr)
		if !ok {
			unsup("field of unknown pointer")
		}
		if p.O == 0 {
			e.rtPanic(c, "nil dereference", x.Pos(), res)
			return nil
		}
		c.set(x, Ptr{O: p.O, F: append(p.F[:len(p.F):len(p.F)], x.Field), I: p.I})
		return same
	case *ssa.Field:
		s, ok := e.get(c, x.X).(Struct)
		if !ok || x.Field >= len(s.F) {
			c.set(x, e.top(x.Type(), "field"))
			return same
		}
		c.set(x, s.F[x.Field])
		return same
	case *ssa.IndexAddr:
		return e.indexAddr(c, x, res)
	case *ssa.MakeMap:
		id := e.newObj(c.st, &Obj{typ: x.Type(), name: "map", root: MapC{init: e.tr.initPhase}})
		c.set(x, MapV{id})
		return same
	case *ssa.MapUpdate:
		m, ok := e.get(c, x.Map).(MapV)
		if !ok {
			unsup("change of an unknown map")
		}
		if m.O == 0 {
			e.rtPanic(c, "assignment to entry in nil map", x.Pos(), res)
			return nil
		}
		e.putMap(c, m, e.get(c, x.Key), e.get(c, x.Value), x.Pos())
		return same
	case *ssa.Lookup:
		if _, ok := under(x.X.Type()).(*types.Map); ok {
			return e.lookMap(c, x)
		}
		t, ok := e.get(c, x.X).(Str)
		if !ok {
			unsup("lookup in an unknown string or a map")
		}
		i := e.lin(e.getInt(c, x.Index))
		a := e.strArr(t, types.Typ[types.Uint8])
		var out []Conf
		for _, d := range e.requireAll(c, "index out of range", x.Pos(), res, ge(e, i), ge(e, linConst(int64(len(t.S))-1).sub(i))) {
			out = append(out, e.setReads(d, x, a, i)...)
		}
		return out
	case *ssa.Index:
		if t, ok := e.get(c, x.X).(Str); ok {
			i := e.lin(e.getInt(c, x.Index))
			a := e.strArr(t, types.Typ[types.Uint8])
			var out []Conf
			for _, d := range e.requireAll(c, "index out of range", x.Pos(), res, ge(e, i), ge(e, linConst(int64(len(t.S))-1).sub(i))) {
				out = append(out, e.setReads(d, x, a, i)...)
			}
			return out
		}
		a, ok := e.get(c, x.X).(ArrV)
		if !ok {
			unsup("index of unknown array value")
		}
		i := e.lin(e.getInt(c, x.Index))
		var out []Conf
		for _, d := range e.requireAll(c, "index out of range", x.Pos(), res, ge(e, i), ge(e, linConst(a.N-1).sub(i))) {
			out = append(out, e.setReads(d, x, a.A, a.Off.add(i))...)
		}
		return out
	case *ssa.Slice:
		return e.sliceOp(c, x, res)
	case *ssa.SliceToArrayPointer:
		s, ok := e.get(c, x.X).(Slice)
		if !ok {
			unsup("slice to array pointer")
		}
		n := under(x.Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		var out []Conf
		for _, d := range e.requireAll(c, "slice to array pointer", x.Pos(), res, ge(e, s.Len.addInt(-n))) {
			d.set(x, Ptr{O: s.O, I: s.Off})
			out = append(out, d)
		}
		return out
	case *ssa.MakeSlice:
		return e.makeSlice(c, x, res)
	case *ssa.Store:
		p, ok := e.get(c, x.Addr).(Ptr)
		if !ok {
			unsup("store through unknown pointer")
		}
		if p.O == 0 {
			e.rtPanic(c, "nil dereference", x.Pos(), res)
			return nil
		}
		e.store1(c, p, e.get(c, x.Val), x.Val.Type(), x.Pos())
		return same
	case *ssa.Call:
		return e.callInstr(c, x, x.Common(), x.Pos(), res)
	case *ssa.Defer:
		d := &deferred{call: x.Common(), pos: x.Pos()}
		d.fn, d.args = e.callOperands(c, x.Common())
		c.fr.defers = append(c.fr.defers[:len(c.fr.defers):len(c.fr.defers)], d)
		return same
	case *ssa.Phi:
		unsup("stray phi")
	case *ssa.Go:
		e.tr.note("go", e.posStr(x.Pos()), c.fr.fi.fn)
		unsup("goroutine started")
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		unsup("channel operation")
	}
	unsup("instruction %T", in)
	return nil
}

func (e *Engine) setReads(c Conf, v ssa.Value, a *Arr, x *Lin) []Conf {
	var as []alt
	for _, r := range e.readLazy(c.st.f, a, x) {
		as = append(as, alt{r.f, r.v})
	}
	return e.setAlts(c, v, as)
}

func (e *Engine) binOp(c Conf, x *ssa.BinOp, res *result) []Conf {
	a, b := e.get(c, x.X), e.get(c, x.Y)
	ia, ok1 := a.(Int)
	ib, ok2 := b.(Int)
	if ok1 && ok2 && (x.Op == token.EQL || x.Op == token.NEQ) && ia.L == nil && ib.L != nil && e.wide(ia) {
		c.set(x, e.freshBool("wide"))
		return []Conf{c}
	}
	if ok1 && ok2 && isFloat(x.X.Type()) {
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			c.set(x, e.freshBool("fcmp"))
		default:
			c.set(x, e.top(x.Type(), "float"))
		}
		return []Conf{c}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		var r Bool
		if ok1 && ok2 {
			r = e.cmpInt(x.Op, ia, ib)
		} else {
			r = e.eqVals(c, a, b)
			if x.Op == token.NEQ {
				r = e.notBool(r)
			}
		}
		c.set(x, r)
		return []Conf{c}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ok1 && ok2 {
			c.set(x, e.cmpInt(x.Op, ia, ib))
			return []Conf{c}
		}
		c.set(x, e.freshBool("cmp"))
		return []Conf{c}
	}
	if !ok1 || !ok2 {
		if sa, ok := a.(Str); ok && x.Op == token.ADD {
			if sb, ok := b.(Str); ok {
				c.set(x, Str{sa.S + sb.S})
				return []Conf{c}
			}
		}
		if ba, ok := a.(Bool); ok {
			if bb, ok := b.(Bool); ok && ba.K == 'b' && bb.K == 'b' {
				var n Node
				switch x.Op {
				case token.AND:
					n = e.b.and(ba.N, bb.N)
				case token.OR:
					n = e.b.or(ba.N, bb.N)
				default:
					unsup("boolean operation")
				}
				c.set(x, Bool{K: 'b', N: n})
				return []Conf{c}
			}
		}
		c.set(x, e.top(x.Type(), "op"))
		return []Conf{c}
	}
	switch x.Op {
	case token.QUO, token.REM:
		var out []Conf
		for _, d := range e.requireAll(c, "division by zero", x.Pos(), res, e.cmpInt(token.NEQ, ib, Int{W: ib.W, S: ib.S, L: linConst(0)})) {
			out = append(out, e.setAlts(d, x, e.binInt(d.st.f, x.Op, ia, ib, d.st.pc))...)
		}
		return out
	case token.SHL, token.SHR:
		cs := []Conf{c}
		if ib.S {
			cs = e.requireAll(c, "negative shift amount", x.Pos(), res, e.cmpInt(token.GEQ, ib, Int{W: ib.W, S: ib.S, L: linConst(0)}))
		}
		var out []Conf
		for _, d := range cs {
			out = append(out, e.setAlts(d, x, e.shift(d.st.f, x.Op, ia, ib, d.st.pc))...)
		}
		return out
	}
	return e.setAlts(c, x, e.binInt(c.st.f, x.Op, ia, ib, c.st.pc))
}

// shift handles amounts known only as a value between 0 and 7 by splitting.
func (e *Engine) shift(f Facts, op token.Token, x, y Int, pc Node) []alt {
	l := e.lin(y)
	if l.isConst() {
		return e.binInt(f, op, x, y, pc)
	}
	if e.entails(f, l) && e.entails(f, linConst(7).sub(l)) {
		var out []alt
		for k := int64(0); k < 8; k++ {
			if g, ok := e.assumeEq(f, l.addInt(-k)); ok {
				out = append(out, e.binInt(g, op, x, Int{W: y.W, S: y.S, L: linConst(k)}, pc)...)
			}
		}
		return out
	}
	if e.entails(f, l.addInt(-int64(x.W))) && (op == token.SHL || !x.S) {
		return one(f, Int{W: x.W, S: x.S, L: linConst(0)})
	}
	return one(f, e.freshShift(x))
}

// wide reports whether x depends on so many bits that a test of it would be
// intractable; such tests are left open.
func (e *Engine) wide(x Int) bool {
	seen, at := map[Node]bool{}, map[int32]bool{}
	for _, n := range x.B {
		e.b.support(n, seen, at)
	}
	return len(at) > bddWide
}

func (e *Engine) eqVals(c Conf, a, b Val) Bool {
	t, fa := Bool{K: 'b', N: bTrue}, Bool{K: 'b', N: bFalse}
	mk := func(x bool) Bool {
		if x {
			return t
		}
		return fa
	}
	switch x := a.(type) {
	case Int:
		if y, ok := b.(Int); ok {
			return e.cmpInt(token.EQL, x, y)
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			if y.K == 'b' && y.N == bTrue {
				return x
			}
			if y.K == 'b' && y.N == bFalse {
				return e.notBool(x)
			}
			if x.K == 'b' && x.N == bTrue {
				return y
			}
			if x.K == 'b' && x.N == bFalse {
				return e.notBool(y)
			}
			if x.K == 'b' && y.K == 'b' {
				return Bool{K: 'b', N: e.b.not(e.b.xor(x.N, y.N))}
			}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.O == 0 || y.O == 0 {
				return mk(x.O == y.O)
			}
			if e.sameVal(x, y) {
				return t
			}
			if x.O != y.O {
				return fa
			}
		}
	case Slice:
		if y, ok := b.(Slice); ok { // only against nil
			if y.O == 0 {
				x, y = y, x
			}
			if x.O == 0 {
				return mk(y.O == 0)
			}
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.T == nil || y.T == nil {
				return mk(x.T == nil && y.T == nil)
			}
			if !types.Identical(x.T, y.T) {
				return fa
			}
			return e.eqVals(c, x.V, y.V)
		}
	case Func:
		if y, ok := b.(Func); ok {
			xn, yn := x.Fn == nil && x.Blt == nil, y.Fn == nil && y.Blt == nil
			if xn || yn {
				return mk(xn && yn)
			}
		}
	case Str:
		if y, ok := b.(Str); ok {
			return mk(x == y)
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			return mk(x == y)
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x.F) == len(y.F) {
			r := bTrue
			for i := range x.F {
				q := e.eqVals(c, x.F[i], y.F[i])
				if q.K != 'b' {
					return e.freshBool("eq")
				}
				r = e.b.and(r, q.N)
			}
			return Bool{K: 'b', N: r}
		}
	}
	return e.freshBool("eq")
}

func (e *Engine) unOp(c Conf, x *ssa.UnOp, res *result) []Conf {
	v := e.get(c, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsup("load through unknown pointer")
		}
		if p.O == 0 {
			e.rtPanic(c, "nil dereference", x.Pos(), res)
			return nil
		}
		return e.setAlts(c, x, e.load(c, p, x.Type(), x.Pos()))
	case token.NOT:
		b, ok := v.(Bool)
		if !ok {
			unsup("negation")
		}
		c.set(x, e.notBool(b))
		return []Conf{c}
	case token.SUB:
		i, ok := v.(Int)
		if !ok || isFloat(x.Type()) {
			c.set(x, e.top(x.Type(), "neg"))
			return []Conf{c}
		}
		return e.setAlts(c, x, e.wrap(c.st.f, e.lin(i).neg(), i.W, i.S))
	case token.XOR:
		i, ok := v.(Int)
		if !ok {
			unsup("complement")
		}
		if i.L != nil {
			if i.S {
				c.set(x, Int{W: i.W, S: true, L: i.L.neg().addInt(-1)})
			} else {
				_, hi := typeRange(i.W, false)
				c.set(x, Int{W: i.W, L: i.L.neg().addC(hi)})
			}
			return []Conf{c}
		}
		r := make([]Node, i.W)
		for k := range r {
			r[k] = e.b.not(i.B[k])
		}
		c.set(x, Int{W: i.W, S: i.S, B: r})
		return []Conf{c}
	}
	unsup("operation %s", x)
	return nil
}

func (e *Engine) convert(c Conf, v ssa.Value, xv ssa.Value, to types.Type, res *result) []Conf {
	x := e.get(c, xv)
	from := xv.Type()
	if i, ok := x.(Int); ok {
		w, s, num := numType(to)
		switch {
		case num && isFloat(from) != isFloat(to):
			c.set(v, e.top(to, "conv"))
			return []Conf{c}
		case num && isFloat(to):
			if w == i.W {
				c.set(v, x)
			} else {
				c.set(v, e.top(to, "conv"))
			}
			return []Conf{c}
		case num:
			return e.setAlts(c, v, e.convInt(c.st.f, i, w, s))
		}
		unsup("conversion of a number to %s", to)
	}
	switch p := x.(type) {
	case Ptr:
		// pointer <-> unsafe.Pointer: the address is unchanged
		switch t := under(to).(type) {
		case *types.Pointer:
			c.set(v, p)
			return []Conf{c}
		case *types.Basic:
			if t.Kind() == types.UnsafePointer {
				c.set(v, p)
				return []Conf{c}
			}
		}
		unsup("conversion of a pointer to %s", to)
	case Str, Slice, Opaque:
		e.nfresh++
		if sl, ok := under(to).(*types.Slice); ok {
			if t, ok := p.(Str); ok && isByteType(sl.Elem()) {
				c.set(v, e.strBytes(c.st, t, sl.Elem()))
				return []Conf{c}
			}
			unsup("conversion to %s", to)
		}
		c.set(v, Opaque{T: to, ID: e.nfresh})
		return []Conf{c}
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (e *Engine) typeAssert(c Conf, x *ssa.TypeAssert, res *result) []Conf {
	i, ok := e.get(c, x.X).(Iface)
	if !ok {
		unsup("type assertion on unknown value")
	}
	hit := false
	if i.T != nil {
		if it, isI := under(x.AssertedType).(*types.Interface); isI {
			hit = types.Implements(i.T, it)
		} else {
			hit = types.Identical(i.T, x.AssertedType)
		}
	}
	var v Val
	if hit {
		if _, isI := under(x.AssertedType).(*types.Interface); isI {
			v = i
		} else {
			v = i.V
		}
	} else {
		v = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		n := bFalse
		if hit {
			n = bTrue
		}
		c.set(x, Tuple{v, Bool{K: 'b', N: n}})
		return []Conf{c}
	}
	if !hit {
		e.rtPanic(c, "type assertion", x.Pos(), res)
		return nil
	}
	c.set(x, v)
	return []Conf{c}
}

func (e *Engine) indexAddr(c Conf, x *ssa.IndexAddr, res *result) []Conf {
	i := e.lin(e.getInt(c, x.Index))
	var out []Conf
	switch s := e.get(c, x.X).(type) {
	case Slice:
		for _, d := range e.requireAll(c, "index out of range", x.Pos(), res, ge(e, i), ge(e, s.Len.sub(i).addInt(-1))) {
			d.set(x, Ptr{O: s.O, I: s.Off.add(i)})
			out = append(out, d)
		}
		return out
	case Ptr:
		if s.O == 0 {
			e.rtPanic(c, "nil dereference", x.Pos(), res)
			return nil
		}
		n := under(x.X.Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s.I == nil || len(s.F) > 0 {
			unsup("element of an array inside a struct")
		}
		for _, d := range e.requireAll(c, "index out of range", x.Pos(), res, ge(e, i), ge(e, linConst(n-1).sub(i))) {
			d.set(x, Ptr{O: s.O, I: s.I.add(i)})
			out = append(out, d)
		}
		return out
	}
	unsup("index of unknown value")
	return nil
}

func (e *Engine) sliceOp(c Conf, x *ssa.Slice, res *result) []Conf {
	var s Slice
	switch v := e.get(c, x.X).(type) {
	case Slice:
		s = v
	case Ptr:
		if v.O == 0 {
			e.rtPanic(c, "nil dereference", x.Pos(), res)
			return nil
		}
		at := under(x.X.Type()).(*types.Pointer).Elem().Underlying().(*types.Array)
		if v.I == nil || len(v.F) > 0 {
			unsup("slice of an array inside a struct")
		}
		s = Slice{O: v.O, Off: v.I, Len: linConst(at.Len()), Cap: linConst(at.Len()), Elem: at.Elem()}
	case Str:
		lo, hi := int64(0), int64(len(v.S))
		for _, b := range []struct {
			v  ssa.Value
			to *int64
		}{{x.Low, &lo}, {x.High, &hi}} {
			if b.v != nil {
				k, ok := e.lin(e.getInt(c, b.v)).constVal()
				if !ok {
					unsup("slice of a string")
				}
				*b.to = k
			}
		}
		if lo < 0 || hi > int64(len(v.S)) || lo > hi {
			e.rtPanic(c, "slice bounds out of range", x.Pos(), res)
			return nil
		}
		c.set(x, Str{v.S[lo:hi]})
		return []Conf{c}
	default:
		unsup("slice of unknown value")
	}
	lo := linConst(0)
	if x.Low != nil {
		lo = e.lin(e.getInt(c, x.Low))
	}
	hi := s.Len
	var conds []Bool
	max := s.Cap
	if x.Max != nil {
		max = e.lin(e.getInt(c, x.Max))
		conds = append(conds, ge(e, max), ge(e, s.Cap.sub(max)))
	}
	if x.High != nil {
		hi = e.lin(e.getInt(c, x.High))
		conds = append(conds, ge(e, hi), ge(e, max.sub(hi)))
	}
	conds = append(conds, ge(e, lo), ge(e, hi.sub(lo)))
	var out []Conf
	for _, d := range e.requireAll(c, "slice bounds out of range", x.Pos(), res, conds...) {
		r := s
		r.Off, r.Len, r.Cap = s.Off.add(lo), hi.sub(lo), max.sub(lo)
		d.set(x, r)
		out = append(out, d)
	}
	return out
}

// the largest allocation (in bytes) the runtime accepts on the analysed platform
var maxAlloc = pow2(48)

// a size far enough below that for growing to succeed
var roomy = pow2(44)

func (e *Engine) makeSlice(c Conf, x *ssa.MakeSlice, res *result) []Conf {
	elem := under(x.Type()).(*types.Slice).Elem()
	n, cp := e.lin(e.getInt(c, x.Len)), e.lin(e.getInt(c, x.Cap))
	sz := sizes.Sizeof(elem)
	if sz == 0 {
		sz = 1
	}
	lim := linC(maxAlloc.divFloor(sz))
	conds := []Bool{ge(e, n), ge(e, cp.sub(n)), ge(e, lim.sub(cp))}
	var out []Conf
	for _, d := range e.requireAll(c, "makeslice", x.Pos(), res, conds...) {
		id := e.newObj(d.st, &Obj{arr: e.newArr('z', elem), n: cp, typ: elem, name: "make"})
		d.set(x, Slice{O: id, Off: linConst(0), Len: n, Cap: cp, Elem: elem})
		out = append(out, d)
	}
	return out
}

/* ---- memory ---- */

func (e *Engine) load(c Conf, p Ptr, t types.Type, pos token.Pos) []alt {
	o := c.st.heap[p.O]
	if o == nil {
		unsup("load from unknown object")
	}
	e.touch(c, p, false, pos)
	f := c.st.f
	if o.arr != nil && len(p.F) > 0 {
		// a field of an element
		var out []alt
		for _, r := range e.readArr(f, o.arr, p.I) {
			v, ft := e.fieldOf(r.v, o.arr.elem, p.F)
			out = append(out, alt{r.f, e.retype(v, ft, t)})
		}
		return out
	}
	if o.arr != nil {
		if at, ok := under(t).(*types.Array); ok {
			return one(f, ArrV{A: o.arr, Off: p.I, N: at.Len()})
		}
		var out []alt
		for _, r := range e.readLazy(f, o.arr, p.I) {
			out = append(out, alt{r.f, e.retype(r.v, o.arr.elem, t)})
		}
		return out
	}
	v, ft := e.fieldOf(o.root, o.typ, p.F)
	return one(f, e.retype(v, ft, t))
}

func (e *Engine) fieldOf(v Val, ft types.Type, path []int) (Val, types.Type) {
	for _, i := range path {
		s, ok := v.(Struct)
		if !ok || i >= len(s.F) {
			unsup("load of an unknown field")
		}
		v = s.F[i]
		ft = under(ft).(*types.Struct).Field(i).Type()
	}
	return v, ft
}

// readLazy reads a cell; inside a loop being summarised a read that would
// split is kept as one deferred value instead.
func (e *Engine) readLazy(f Facts, a *Arr, x *Lin) []rdAlt {
	r := e.readArr(f, a, x)
	if len(r) > 1 && e.lazy > 0 {
		if v, ok := e.lazyRead(a, x); ok {
			return []rdAlt{{f, v}}
		}
	}
	return r
}

// retype reinterprets a stored word as another type of the same size.
func (e *Engine) retype(v Val, from, to types.Type) Val {
	i, ok := v.(Int)
	w, s, num := numType(to)
	if !ok {
		if num && !types.Identical(under(from), under(to)) {
			unsup("reinterpreting %s as %s", from, to)
		}
		return v
	}
	if !num {
		unsup("reinterpreting %s as %s", from, to)
	}
	if i.W != w {
		unsup("reinterpreting %d-bit memory as %s", i.W, to)
	}
	if i.S == s && isFloat(from) == isFloat(to) {
		return i
	}
	if isFloat(to) {
		return Int{W: w, B: e.bits(i)}
	}
	return e.fromBits(e.bits(i), w, s)
}

func (e *Engine) store1(c Conf, p Ptr, v Val, t types.Type, pos token.Pos) {
	o := c.st.heap[p.O]
	if o == nil {
		unsup("store to unknown object")
	}
	e.touch(c, p, true, pos)
	n := *o
	var upd func(cur Val, ct types.Type, path []int) Val
	upd = func(cur Val, ct types.Type, path []int) Val {
		if len(path) == 0 {
			return e.retype(v, t, ct)
		}
		s, ok := cur.(Struct)
		if !ok || path[0] >= len(s.F) {
			unsup("store to an unknown field")
		}
		r := Struct{T: s.T, F: append([]Val(nil), s.F...)}
		r.F[path[0]] = upd(s.F[path[0]], under(ct).(*types.Struct).Field(path[0]).Type(), path[1:])
		return r
	}
	if o.arr != nil && len(p.F) > 0 {
		// a field of an element: the element is read, changed and put back
		r := e.readArr(c.st.f, o.arr, p.I)
		if len(r) != 1 || e.lazy > 0 {
			unsup("store to a field of an element that is not known")
		}
		n.arr = o.arr.write(&Wr{kind: 'p', idx: p.I, val: upd(r[0].v, o.arr.elem, p.F)})
		c.st.heap[p.O] = &n
		return
	}
	if o.arr != nil {
		if a, ok := v.(ArrV); ok {
			n.arr = e.copyInto(c.st.f, o.arr, p.I, a.A, a.Off, linConst(a.N))
		} else {
			n.arr = o.arr.write(&Wr{kind: 'p', idx: p.I, val: e.retype(v, t, o.arr.elem)})
		}
		c.st.heap[p.O] = &n
		return
	}
	n.root = upd(o.root, o.typ, p.F)
	c.st.heap[p.O] = &n
}

// copyInto writes n cells of src (from) over dst (at); short constant lengths
// become individual writes.
func (e *Engine) copyInto(f Facts, dst *Arr, at *Lin, src *Arr, from *Lin, n *Lin) *Arr {
	if k, ok := n.constVal(); ok && k <= 64 {
		var vs []Val
		for i := int64(0); i < k; i++ {
			r := e.readArr(f, src, from.addInt(i))
			if len(r) != 1 {
				vs = nil
				break
			}
			vs = append(vs, e.retype(r[0].v, src.elem, dst.elem))
		}
		if k == 0 || vs != nil {
			for i, v := range vs {
				dst = dst.write(&Wr{kind: 'p', idx: at.addInt(int64(i)), val: v})
			}
			return dst
		}
	}
	return dst.write(&Wr{kind: 'c', start: at, len: n, src: src, srcStart: from})
}

// mapKey yields a comparable form of a map key that is known.
func mapKey(v Val) (interface{}, bool) {
	switch k := v.(type) {
	case Str:
		return k.S, true
	case Int:
		if k.L != nil {
			if n, ok := k.L.constVal(); ok {
				return n, true
			}
		}
	}
	return nil, false
}

func (e *Engine) putMap(c Conf, m MapV, key, val Val, pos token.Pos) {
	o := *c.st.heap[m.O]
	mc := o.root.(MapC)
	k, ok := mapKey(key)
	if !ok {
		unsup("change of a map at an unknown key")
	}
	if e.lazy > 0 {
		unsup("change of a map in a loop")
	}
	if mc.init && !e.tr.initPhase {
		e.tr.note("global-write", "a map made by package initialisation at "+e.posStr(pos), c.fr.fi.fn)
	}
	mc.K, mc.V = append([]Val(nil), mc.K...), append([]Val(nil), mc.V...)
	at := -1
	for i := range mc.K {
		if q, _ := mapKey(mc.K[i]); q == k {
			at = i
		}
	}
	if at < 0 {
		mc.K, mc.V = append(mc.K, key), append(mc.V, val)
	} else {
		mc.V[at] = val
	}
	o.root = mc
	c.st.heap[m.O] = &o
}

// lookMap looks a key up, splitting on which of the map's keys it is.
func (e *Engine) lookMap(c Conf, x *ssa.Lookup) []Conf {
	m, ok := e.get(c, x.X).(MapV)
	if !ok {
		unsup("lookup in an unknown map")
	}
	var mc MapC
	if m.O != 0 {
		mc = c.st.heap[m.O].root.(MapC)
	}
	set := func(d Conf, v Val, found bool) Conf {
		if x.CommaOk {
			n := bFalse
			if found {
				n = bTrue
			}
			v = Tuple{v, Bool{K: 'b', N: n}}
		}
		d.set(x, v)
		return d
	}
	var out []Conf
	rest := []Conf{c}
	key := e.get(c, x.Index)
	for i, k := range mc.K {
		var left []Conf
		for _, d := range rest {
			switch kv := key.(type) {
			case Str:
				if kv == k {
					out = append(out, set(d, mc.V[i], true))
				} else {
					left = append(left, d)
				}
			case Int:
				hit, miss := e.require(d, e.linBool('e', e.lin(kv).sub(e.lin(k.(Int)))))
				for _, h := range hit {
					out = append(out, set(h, mc.V[i], true))
				}
				left = append(left, miss...)
			default:
				unsup("lookup of a key that is neither a number nor a known string")
			}
		}
		rest = left
	}
	for _, d := range rest {
		out = append(out, set(d, e.zero(under(x.X.Type()).(*types.Map).Elem()), false))
	}
	return out
}

// touch records an access for the lock and effect rules.
func (e *Engine) touch(c Conf, p Ptr, write bool, pos token.Pos) {
	if !pos.IsValid() {
		pos = e.curPos
	}
	st := c.st
	o := st.heap[p.O]
	if o != nil && o.glob != nil {
		if write && !e.tr.initPhase {
			e.tr.note("global-write", o.glob.String()+" at "+e.posStr(pos), c.fr.fi.fn)
		}
		if !write {
			e.tr.globalReads[o.glob] = true
		}
		return
	}
	guarded := ""
	switch {
	case p.O == e.recv && e.recv != 0 && len(p.F) > 0:
		guarded = e.tr.fieldName(p.F[0])
		if st := structOf(o); write && st != nil && p.F[0] < st.NumFields() && isMutex(st.Field(p.F[0]).Type()) {
			unsup("the buffer's lock is overwritten")
		}
	case p.O == e.recv && e.recv != 0:
		// the whole buffer at once
		st := structOf(o)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if isMutex(st.Field(i).Type()) && !write {
				continue
			}
			e.touch(c, Ptr{O: p.O, F: []int{i}}, write, pos)
		}
		return
	case p.O == e.store && e.store != 0:
		guarded = "contents"
	default:
		if write && o != nil && o.ext && p.O != e.recv {
			e.tr.extWrite(p.O, o.name, e.posStr(pos))
		}
		return
	}
	if st.held == 0 || (write && st.held > 1) {
		st.out = true
		if true {
			e.tr.unlocked(guarded, write, e.posStr(pos), c.fr.fi.fn)
		}
	} else if !st.cur {
		st.cur = true
		st.nsec++
	}
	if true {
		e.tr.access(guarded, write, e.posStr(pos), c.fr.fi.fn)
	}
}

// structOf is the struct type of an object, if it is one.
func structOf(o *Obj) *types.Struct {
	if o == nil || o.typ == nil {
		return nil
	}
	st, _ := under(o.typ).(*types.Struct)
	return st
}

func (e *Engine) posStr(p token.Pos) string {
	return e.prog.pos(p)
}

func isByteType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
