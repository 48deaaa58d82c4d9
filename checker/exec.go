package main

import (
	"fmt"
	"go/token"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation in the (context-sensitive, call-inlining) analysis.
type Frame struct {
	fi     *fnInfo
	env    []Val
	defers []*deferred
	depth  int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type Conf struct {
	st *State
	fr *Frame
}

func (c Conf) clone() Conf {
	f := *c.fr
	f.env = append([]Val(nil), c.fr.env...)
	f.defers = c.fr.defers[:len(c.fr.defers):len(c.fr.defers)]
	return Conf{c.st.clone(), &f}
}

// fork clones c with new facts and path condition.
func (c Conf) fork(f Facts, pc Node) Conf {
	n := c.clone()
	n.st.f, n.st.pc = f, pc
	return n
}

// RtPanic is a run-time error raised by the language.
type RtPanic struct{ kind string }

// Outcome is one way a call can end.
type Outcome struct {
	kind byte // 'r' returns, 'p' panics, 'd' blocks forever or fatal, 'u' undecided
	st   *State
	v    Val
	msg  string
	pos  token.Pos
	fn   string
}

type stop struct {
	c    Conf
	blk  *ssa.BasicBlock
	from *ssa.BasicBlock
	phis []Val
}

type result struct {
	stops []stop
	outs  []Outcome
}

func (r *result) merge(o *result) {
	r.stops = append(r.stops, o.stops...)
	r.outs = append(r.outs, o.outs...)
}

type stopSet map[*ssa.BasicBlock]bool

func (s stopSet) with(bs ...*ssa.BasicBlock) stopSet {
	n := make(stopSet, len(s)+len(bs))
	for k := range s {
		n[k] = true
	}
	for _, b := range bs {
		if b != nil {
			n[b] = true
		}
	}
	return n
}

const maxDepth = 60

// call analyses fn in state st.
func (e *Engine) call(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) []Outcome {
	e.stat.calls++
	if fn.Blocks == nil && fn.Pkg != nil {
		e.prog.build(fn.Pkg)
	}
	if outs, ok := e.model(st, fn, args, pos); ok {
		return outs
	}
	if fn.Blocks == nil {
		e.tr.external(fn, pos, e)
		return []Outcome{{kind: 'u', st: st, msg: "call to " + fn.String() + ", whose body is not available", pos: pos}}
	}
	if !e.prog.inlinable(fn) {
		e.tr.external(fn, pos, e)
		return []Outcome{{kind: 'u', st: st, msg: "call to " + fn.String() + " is outside the analysed packages", pos: pos}}
	}
	if e.depth > maxDepth {
		return []Outcome{{kind: 'u', st: st, msg: "recursion too deep at " + fn.String(), pos: pos}}
	}
	fi := e.info(fn)
	if fi.irred {
		return []Outcome{{kind: 'u', st: st, msg: "irreducible control flow in " + fn.String(), pos: pos}}
	}
	e.tr.funcs[fn] = true
	fr := &Frame{fi: fi, env: make([]Val, fi.n)}
	for i, p := range fn.Params {
		fr.env[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.reg[p]] = bind[i]
	}
	e.depth++
	res := &result{}
	e.runBlock(Conf{st, fr}, fn.Blocks[0], 0, stopSet{}, res)
	e.depth--
	if len(res.stops) != 0 {
		return append(res.outs, Outcome{kind: 'u', st: st, msg: "internal: stray stop", pos: pos})
	}
	return res.outs
}

func (e *Engine) get(c Conf, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return Func{Fn: x}
	case *ssa.Builtin:
		return Func{Blt: x}
	case *ssa.Global:
		return e.globalPtr(c.st, x)
	}
	r := c.fr.env[c.fr.fi.reg[v]]
	if r == nil {
		unsup("value %s of %s is not available here", v.Name(), c.fr.fi.fn)
	}
	return r
}

func (e *Engine) getInt(c Conf, v ssa.Value) Int {
	x, ok := e.get(c, v).(Int)
	if !ok {
		unsup("integer operand %s", v)
	}
	return x
}

func (c Conf) set(v ssa.Value, x Val) { c.fr.env[c.fr.fi.reg[v]] = x }

func (e *Engine) globalPtr(st *State, g *ssa.Global) Val {
	if id, ok := e.globals[g]; ok {
		if _, ok := st.heap[id]; ok {
			return e.ptrTo(st, id)
		}
	}
	e.nobj++
	id := e.nobj
	e.globals[g] = id
	t := g.Type().(*types.Pointer).Elem()
	o := &Obj{typ: t, glob: g, ext: true, name: g.String()}
	if e.prog.ownPkg(g.Pkg) {
		e.fillObj(o, e.zero(t), t)
	} else {
		e.fillObj(o, e.top(t, g.Name()), t)
	}
	st.heap[id] = o
	return e.ptrTo(st, id)
}

func (e *Engine) fillObj(o *Obj, v Val, t types.Type) {
	if a, ok := v.(ArrV); ok {
		o.arr, o.n = a.A, linConst(a.N)
		return
	}
	if at, ok := under(t).(*types.Array); ok {
		o.arr, o.n = e.newArr('u', at.Elem()), linConst(at.Len())
		return
	}
	o.root = v
}

func (e *Engine) ptrTo(st *State, id ObjID) Ptr {
	if st.heap[id].arr != nil {
		return Ptr{O: id, I: linConst(0)}
	}
	return Ptr{O: id}
}

func (e *Engine) bail(c Conf, res *result, pos token.Pos, format string, a ...interface{}) {
	res.outs = append(res.outs, Outcome{kind: 'u', st: c.st, msg: fmt.Sprintf(format, a...), pos: pos, fn: c.fr.fi.fn.String()})
}

// runBlock analyses blk from instruction i on, until a stop block, a return or a panic.
func (e *Engine) runBlock(c Conf, blk *ssa.BasicBlock, i int, stops stopSet, res *result) {
	for ; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			e.curPos = p
		}
		e.fuel--
		e.stat.instr++
		if e.fuel&0xff == 0 && time.Now().After(e.deadline) {
			e.fuel = -1
		}
		if e.fuel < 0 {
			e.bail(c, res, in.Pos(), "analysis budget exhausted")
			return
		}
		switch x := in.(type) {
		case *ssa.Jump:
			e.next(c, blk, blk.Succs[0], stops, res)
			return
		case *ssa.If:
			e.runIf(c, blk, x, stops, res)
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
				v = Tuple{}
			case 1:
				v = e.get(c, x.Results[0])
			default:
				var t Tuple
				for _, r := range x.Results {
					t = append(t, e.get(c, r))
				}
				v = t
			}
			res.outs = append(res.outs, Outcome{kind: 'r', st: c.st, v: v, pos: x.Pos()})
			return
		case *ssa.Panic:
			e.doPanic(c, e.get(c, x.X), x.Pos(), res)
			return
		case *ssa.RunDefers:
			cs := e.runDefers(c, res)
			if len(cs) == 1 {
				c = cs[0]
				continue
			}
			for _, d := range cs {
				e.runBlock(d, blk, i+1, stops, res)
			}
			return
		}
		if k, ok := e.watch[in]; ok {
			c.st.met |= 1 << k
		}
		cs := e.step(c, in, res)
		if len(cs) == 1 {
			c = cs[0]
			continue
		}
		for _, d := range cs {
			e.runBlock(d, blk, i+1, stops, res)
		}
		return
	}
}

// step evaluates a non-control instruction, returning the continuing states.
func (e *Engine) step(c Conf, in ssa.Instruction, res *result) (out []Conf) {
	n0 := len(e.b.nodes)
	switch in.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Convert:
		n := n0 + bddStep
		if b, ok := in.(*ssa.BinOp); ok && types.Identical(b.Type().Underlying(), types.Typ[types.Bool]) {
			n = n0 + bddTest
		}
		if n < bddLimit+e.b.lost {
			e.b.limit = n
			defer func() { e.b.limit = bddLimit + e.b.lost }()
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				e.bail(c, res, in.Pos(), "%s (%s)", x.msg, in)
			case overflow128:
				e.bail(c, res, in.Pos(), "bound arithmetic overflow (%s)", in)
			case bddOverflow:
				if v, ok := in.(ssa.Value); ok && e.b.lost < 3*bddLimit {
					switch in.(type) {
					case *ssa.BinOp, *ssa.UnOp, *ssa.Convert:
						// any value of the type
						e.b.lost += len(e.b.nodes) - n0
						e.b.limit = bddLimit + e.b.lost
						c.set(v, e.top(v.Type(), "wide"))
						out = []Conf{c}
						return
					}
				}
				e.bail(c, res, in.Pos(), "bit-level function too large (%s)", in)
			default:
				panic(r)
			}
			out = nil
		}
	}()
	return e.stepIn(c, in, res)
}

func (e *Engine) phiVals(c Conf, from, to *ssa.BasicBlock) []Val {
	var vs []Val
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		switch ed := ph.Edges[pi].(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			v = e.get(c, ed)
		default:
			v = c.fr.env[c.fr.fi.reg[ed]]
		}
		vs = append(vs, v)
	}
	return vs
}

func setPhis(c Conf, b *ssa.BasicBlock, vs []Val) {
	for i, v := range vs {
		c.set(b.Instrs[i].(*ssa.Phi), v)
	}
}

func (e *Engine) next(c Conf, from, to *ssa.BasicBlock, stops stopSet, res *result) {
	s := stop{c: c, blk: to, from: from, phis: e.phiVals(c, from, to)}
	if stops[to] {
		res.stops = append(res.stops, s)
		return
	}
	e.enter(s, stops, res)
}

func (e *Engine) enter(s stop, stops stopSet, res *result) {
	setPhis(s.c, s.blk, s.phis)
	if l := s.c.fr.fi.loops[s.blk]; l != nil && (s.from == nil || !l.blocks[s.from]) {
		e.runLoop(s, l, stops, res)
		return
	}
	e.runBlock(s.c, s.blk, len(s.phis), stops, res)
}

func (e *Engine) runIf(c Conf, blk *ssa.BasicBlock, x *ssa.If, stops stopSet, res *result) {
	cond, ok := e.get(c, x.Cond).(Bool)
	if !ok {
		e.bail(c, res, x.Pos(), "unknown branch condition")
		return
	}
	br, konst := e.decide(c.st.f, c.st.pc, cond)
	if !konst && len(e.tr.exitTest) > 0 {
		e.tr.noteTest(e, c.fr.fi, blk)
	}
	if len(br) == 0 {
		return // contradictory state
	}
	tgt := func(b branch) *ssa.BasicBlock {
		if b.cond {
			return blk.Succs[0]
		}
		return blk.Succs[1]
	}
	if len(br) == 1 {
		c.st.f, c.st.pc = br[0].f, br[0].pc
		e.next(c, blk, tgt(br[0]), stops, res)
		return
	}
	e.stat.forks++
	join := c.fr.fi.ipdom[blk]
	st2 := stops
	if join != nil && !stops[join] {
		st2 = stops.with(join)
	}
	var side [2]result
	for i, b := range br {
		d := c
		if i < len(br)-1 {
			d = c.fork(b.f, b.pc)
		} else {
			d.st.f, d.st.pc = b.f, b.pc
		}
		k := 0
		if b.cond {
			k = 1
		}
		e.next(d, blk, tgt(b), st2, &side[k])
	}
	pf := c.st.f
	_ = pf
	e.joinSides(cond, join, &side[1], &side[0], stops, res)
}

// joinSides merges the states of both sides of a bit-level condition where
// possible and continues at the join.
func (e *Engine) joinSides(cond Bool, join *ssa.BasicBlock, t, f *result, stops stopSet, res *result) {
	var tj, fj []stop
	split := func(r *result) (at []stop) {
		for _, s := range r.stops {
			if s.blk == join {
				at = append(at, s)
			} else {
				res.stops = append(res.stops, s)
			}
		}
		return at
	}
	tj, fj = split(t), split(f)
	to, fo := t.outs, f.outs
	if cond.K == 'b' {
		usedF := make([]bool, len(fj))
		var merged []stop
	outer:
		for _, a := range tj {
			for j, b := range fj {
				if usedF[j] {
					continue
				}
				if m, ok := e.mergeStops(cond.N, a, b); ok {
					e.stat.merges++
					usedF[j] = true
					merged = append(merged, m)
					continue outer
				}
			}
			merged = append(merged, a)
		}
		for j, b := range fj {
			if !usedF[j] {
				merged = append(merged, b)
			}
		}
		tj, fj = merged, nil
		usedO := make([]bool, len(fo))
	outer2:
		for _, a := range to {
			if a.kind == 'r' {
				for j, b := range fo {
					if usedO[j] || b.kind != 'r' {
						continue
					}
					if m, ok := e.mergeOut(cond.N, a, b); ok {
						e.stat.merges++
						usedO[j] = true
						res.outs = append(res.outs, m)
						continue outer2
					}
				}
			}
			res.outs = append(res.outs, a)
		}
		for j, b := range fo {
			if !usedO[j] {
				res.outs = append(res.outs, b)
			}
		}
	} else {
		res.outs = append(res.outs, to...)
		res.outs = append(res.outs, fo...)
	}
	for _, s := range append(tj, fj...) {
		if stops[s.blk] {
			res.stops = append(res.stops, s)
		} else {
			e.enter(s, stops, res)
		}
	}
}

func sameFacts(a, b Facts) bool {
	if len(a.ls) != len(b.ls) {
		return false
	}
	for i := range a.ls {
		if a.ls[i] != b.ls[i] && !a.ls[i].equal(b.ls[i]) {
			return a.key() == b.key()
		}
	}
	return true
}

func (e *Engine) mergeStates(c Node, a, b *State) (*State, bool) {
	if !sameFacts(a.f, b.f) || a.held != b.held || a.met != b.met {
		return nil, false
	}
	m := a.clone()
	m.pc = e.b.or(a.pc, b.pc)
	if b.acq > m.acq {
		m.acq = b.acq
	}
	if b.nsec > m.nsec {
		m.nsec = b.nsec
	}
	m.cur = a.cur || b.cur
	m.out = a.out || b.out
	if len(a.panics) != len(b.panics) {
		return nil, false
	}
	for id, ob := range b.heap {
		oa, ok := a.heap[id]
		if !ok {
			m.heap[id] = ob
			continue
		}
		if oa == ob {
			continue
		}
		n := *oa
		if oa.arr != nil {
			if ob.arr == nil {
				return nil, false
			}
			ar, ok := e.mergeArr(c, a.f, oa.arr, ob.arr)
			if !ok {
				return nil, false
			}
			n.arr = ar
		} else {
			v, ok := e.mergeVal(c, oa.root, ob.root)
			if !ok {
				return nil, false
			}
			n.root = v
		}
		m.heap[id] = &n
	}
	return m, true
}

func (e *Engine) mergeArr(c Node, f Facts, a, b *Arr) (*Arr, bool) {
	if a == b {
		return a, true
	}
	if a.id != b.id {
		return nil, false
	}
	var ea, eb []*Wr
	wa, wb := a.ws, b.ws
	for wa != wb {
		da, db := 0, 0
		if wa != nil {
			da = wa.n
		}
		if wb != nil {
			db = wb.n
		}
		if da >= db {
			ea = append(ea, wa)
			wa = wa.prev
		} else {
			eb = append(eb, wb)
			wb = wb.prev
		}
	}
	var idx []*Lin
	va, vb := map[string]Val{}, map[string]Val{}
	collect := func(ws []*Wr, m map[string]Val) bool {
		for _, w := range ws { // newest first
			if w.kind != 'p' {
				return false
			}
			k := w.idx.Key()
			if _, ok := m[k]; ok {
				continue
			}
			m[k] = w.val
			dup := false
			for _, i := range idx {
				if i.Key() == k {
					dup = true
				} else if !e.entailsNe(f, i.sub(w.idx)) {
					return false
				}
			}
			if !dup {
				idx = append(idx, w.idx)
			}
		}
		return true
	}
	if !collect(ea, va) || !collect(eb, vb) {
		return nil, false
	}
	base := *a
	base.ws = wa
	r := &base
	for _, i := range idx {
		k := i.Key()
		x, okx := va[k]
		y, oky := vb[k]
		if !okx || !oky {
			rd := e.readArr(f, &base, i)
			if len(rd) != 1 {
				return nil, false
			}
			if !okx {
				x = rd[0].v
			} else {
				y = rd[0].v
			}
		}
		v, ok := e.mergeVal(c, x, y)
		if !ok {
			return nil, false
		}
		r = r.write(&Wr{kind: 'p', idx: i, val: v})
	}
	return r, true
}

func linEq(a, b *Lin) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.equal(b)
}

// mergeVal returns "if c then a else b" when the domain can express it.
func (e *Engine) mergeVal(c Node, a, b Val) (Val, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case Int:
		y, ok := b.(Int)
		if !ok || x.W != y.W || x.S != y.S {
			return nil, false
		}
		if x.L != nil && y.L != nil {
			if x.L.equal(y.L) {
				return x, true
			}
			if (!x.L.isConst() || !y.L.isConst()) && x.W > 16 {
				return nil, false
			}
		} else if (x.L != nil && !x.L.isConst() || y.L != nil && !y.L.isConst()) && x.W > 16 {
			return nil, false
		}
		bx, by := e.bits(x), e.bits(y)
		r := make([]Node, x.W)
		for i := range r {
			r[i] = e.b.ite(c, bx[i], by[i])
		}
		return e.fromBits(r, x.W, x.S), true
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return nil, false
		}
		if x.K == 'b' && y.K == 'b' {
			return Bool{K: 'b', N: e.b.ite(c, x.N, y.N)}, true
		}
		if x.K == y.K && linEq(x.L, y.L) {
			return x, true
		}
		return nil, false
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		r := Struct{T: x.T}
		for i := range x.F {
			v, ok := e.mergeVal(c, x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			r.F = append(r.F, v)
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var r Tuple
		for i := range x {
			v, ok := e.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r = append(r, v)
		}
		return r, true
	}
	if e.sameVal(a, b) {
		return a, true
	}
	return nil, false
}

// sameVal reports syntactic identity of abstract values.
func (e *Engine) sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Int:
		y, ok := b.(Int)
		if !ok || x.W != y.W || x.S != y.S {
			return false
		}
		if x.L != nil && y.L != nil {
			return x.L.equal(y.L)
		}
		bx, by := e.bits(x), e.bits(y)
		for i := range bx {
			if bx[i] != by[i] {
				return false
			}
		}
		return true
	case Bool:
		y, ok := b.(Bool)
		return ok && x.K == y.K && x.N == y.N && linEq(x.L, y.L)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.O != y.O || len(x.F) != len(y.F) || !linEq(x.I, y.I) {
			return false
		}
		for i := range x.F {
			if x.F[i] != y.F[i] {
				return false
			}
		}
		return true
	case Slice:
		y, ok := b.(Slice)
		return ok && x.O == y.O && x.Off.equal(y.Off) && x.Len.equal(y.Len) && x.Cap.equal(y.Cap)
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.T == nil) != (y.T == nil) {
			return false
		}
		return x.T == nil || types.Identical(x.T, y.T) && e.sameVal(x.V, y.V)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Func:
		y, ok := b.(Func)
		if !ok || x.Fn != y.Fn || x.Blt != y.Blt || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !e.sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case Str:
		y, ok := b.(Str)
		return ok && x == y
	case ArrV:
		y, ok := b.(ArrV)
		return ok && x.A == y.A && x.N == y.N && linEq(x.Off, y.Off)
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case MapC:
		y, ok := b.(MapC)
		return ok && e.sameVal(Tuple(x.K), Tuple(y.K)) && e.sameVal(Tuple(x.V), Tuple(y.V))
	case Opaque:
		y, ok := b.(Opaque)
		return ok && x.ID == y.ID && x.ID != 0
	case RtPanic:
		y, ok := b.(RtPanic)
		return ok && x == y
	}
	return false
}

func (e *Engine) mergeStops(c Node, a, b stop) (stop, bool) {
	if len(a.c.fr.defers) != len(b.c.fr.defers) {
		return stop{}, false
	}
	for i := range a.c.fr.defers {
		if a.c.fr.defers[i] != b.c.fr.defers[i] {
			return stop{}, false
		}
	}
	st, ok := e.mergeStates(c, a.c.st, b.c.st)
	if !ok {
		return stop{}, false
	}
	fr := *a.c.fr
	fi := fr.fi
	fr.env = append([]Val(nil), a.c.fr.env...)
	for i := range fr.env {
		va, vb := a.c.fr.env[i], b.c.fr.env[i]
		if va == nil && vb == nil {
			continue
		}
		if va != nil && vb != nil {
			if v, ok := e.mergeVal(c, va, vb); ok {
				fr.env[i] = v
				continue
			}
		}
		if d := fi.defB[i]; d == nil || (d != a.blk && d.Dominates(a.blk)) {
			return stop{}, false
		}
		fr.env[i] = nil
	}
	s := stop{c: Conf{st, &fr}, blk: a.blk, from: a.from}
	for i := range a.phis {
		if a.phis[i] == nil || b.phis[i] == nil {
			s.phis = append(s.phis, nil)
			continue
		}
		v, ok := e.mergeVal(c, a.phis[i], b.phis[i])
		if !ok {
			return stop{}, false
		}
		s.phis = append(s.phis, v)
	}
	return s, true
}

func (e *Engine) mergeOut(c Node, a, b Outcome) (Outcome, bool) {
	v, ok := e.mergeVal(c, a.v, b.v)
	if !ok {
		return a, false
	}
	st, ok := e.mergeStates(c, a.st, b.st)
	if !ok {
		return a, false
	}
	a.v, a.st = v, st
	return a, true
}

/* ---- panics and deferred calls ---- */

type panicInfo struct {
	v         Val
	recovered bool
}

func (e *Engine) rtPanic(c Conf, kind string, pos token.Pos, res *result) {
	e.doPanic(c, RtPanic{kind}, pos, res)
}

func (e *Engine) doPanic(c Conf, v Val, pos token.Pos, res *result) {
	if p := pos; !p.IsValid() {
		pos = e.curPos
	}
	if len(c.fr.defers) == 0 {
		res.outs = append(res.outs, Outcome{kind: 'p', st: c.st, v: v, pos: pos, fn: c.fr.fi.fn.String()})
		return
	}
	c.st.panics = append(c.st.panics[:len(c.st.panics):len(c.st.panics)], panicInfo{v: v})
	for _, d := range e.runDefers(c, res) {
		n := len(d.st.panics)
		p := d.st.panics[n-1]
		d.st.panics = d.st.panics[: n-1 : n-1]
		if !p.recovered {
			res.outs = append(res.outs, Outcome{kind: 'p', st: d.st, v: p.v, pos: pos, fn: c.fr.fi.fn.String()})
			continue
		}
		if rb := d.fr.fi.fn.Recover; rb != nil {
			e.runBlock(d, rb, 0, stopSet{}, res)
			continue
		}
		var v Val = Tuple{}
		if r := d.fr.fi.fn.Signature.Results(); r.Len() == 1 {
			v = e.zero(r.At(0).Type())
		} else if r.Len() > 1 {
			v = e.zero(r)
		}
		res.outs = append(res.outs, Outcome{kind: 'r', st: d.st, v: v, pos: pos})
	}
}

// runDefers runs the pending deferred calls, last first.
func (e *Engine) runDefers(c Conf, res *result) []Conf {
	cs := []Conf{c}
	for {
		var nx []Conf
		busy := false
		for _, d := range cs {
			n := len(d.fr.defers)
			if n == 0 {
				nx = append(nx, d)
				continue
			}
			busy = true
			df := d.fr.defers[n-1]
			d.fr.defers = d.fr.defers[: n-1 : n-1]
			for _, o := range e.callVal(d, df.call, df.fn, df.args, df.pos) {
				switch o.kind {
				case 'r':
					k := Conf{o.st, d.fr}.cloneFrame()
					nx = append(nx, k)
				case 'p':
					// a new panic replaces the current one
					k := Conf{o.st, d.fr}.cloneFrame()
					if m := len(k.st.panics); m > 0 {
						k.st.panics = append(k.st.panics[:m-1:m-1], panicInfo{v: o.v})
						nx = append(nx, k)
					} else {
						e.doPanic(k, o.v, o.pos, res)
					}
				default:
					res.outs = append(res.outs, o)
				}
			}
		}
		cs = nx
		if !busy {
			return cs
		}
	}
}

func (c Conf) cloneFrame() Conf {
	f := *c.fr
	f.env = append([]Val(nil), c.fr.env...)
	f.defers = c.fr.defers[:len(c.fr.defers):len(c.fr.defers)]
	return Conf{c.st, &f}
}
