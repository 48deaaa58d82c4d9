package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callOperands(c Conf, cc *ssa.CallCommon) (Val, []Val) {
	fn := e.get(c, cc.Value)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, e.get(c, a))
	}
	return fn, args
}

// callVal performs a call whose operands are evaluated.
func (e *Engine) callVal(c Conf, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos) []Outcome {
	if cc.IsInvoke() {
		i, ok := fv.(Iface)
		if !ok {
			return []Outcome{{kind: 'u', st: c.st, msg: "call through an unknown interface value", pos: pos}}
		}
		if i.T == nil {
			return []Outcome{{kind: 'p', st: c.st, v: RtPanic{"nil dereference"}, pos: pos}}
		}
		m := e.prog.lookupMethod(i.T, cc.Method)
		if m == nil {
			return []Outcome{{kind: 'u', st: c.st, msg: "method " + cc.Method.Name() + " not resolved", pos: pos}}
		}
		return e.call(c.st, m, append([]Val{i.V}, args...), nil, pos)
	}
	f, ok := fv.(Func)
	if !ok {
		return []Outcome{{kind: 'u', st: c.st, msg: "call of an unknown function value", pos: pos}}
	}
	if f.Blt != nil {
		return e.builtin(c, f.Blt, cc, args, pos)
	}
	if f.Fn == nil {
		return []Outcome{{kind: 'p', st: c.st, v: RtPanic{"nil dereference"}, pos: pos}}
	}
	return e.call(c.st, f.Fn, args, f.Bind, pos)
}

func (e *Engine) callInstr(c Conf, x *ssa.Call, cc *ssa.CallCommon, pos token.Pos, res *result) []Conf {
	fv, args := e.callOperands(c, cc)
	outs := e.callVal(c, cc, fv, args, pos)
	var cs []Conf
	for i, o := range outs {
		d := Conf{o.st, c.fr}
		if i < len(outs)-1 {
			d = d.cloneFrame()
		} else {
			d = d.cloneFrame()
		}
		switch o.kind {
		case 'r':
			d.set(x, o.v)
			cs = append(cs, d)
		case 'p':
			e.doPanic(d, o.v, o.pos, res)
		default:
			res.outs = append(res.outs, o)
		}
	}
	return cs
}

func ret(st *State, v Val) []Outcome { return []Outcome{{kind: 'r', st: st, v: v}} }

// altsOut turns value alternatives into outcomes.
func altsOut(c Conf, as []alt) []Outcome {
	var out []Outcome
	for i, a := range as {
		st := c.st
		if i < len(as)-1 {
			st = st.clone()
		}
		st.f = a.f
		out = append(out, Outcome{kind: 'r', st: st, v: a.v})
	}
	return out
}

func (e *Engine) builtin(c Conf, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				outs = []Outcome{{kind: 'u', st: c.st, msg: u.msg, pos: pos}}
				return
			}
			panic(r)
		}
	}()
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			l := x.Len
			if b.Name() == "cap" {
				l = x.Cap
			}
			return ret(c.st, Int{W: wordW, S: true, L: l})
		case Str:
			return ret(c.st, Int{W: wordW, S: true, L: linConst(int64(len(x.S)))})
		case ArrV:
			return ret(c.st, Int{W: wordW, S: true, L: linConst(x.N)})
		case MapV:
			n := 0
			if x.O != 0 {
				n = len(c.st.heap[x.O].root.(MapC).K)
			}
			return ret(c.st, Int{W: wordW, S: true, L: linConst(int64(n))})
		case Ptr:
			if at, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				if a, ok := at.Elem().Underlying().(*types.Array); ok {
					return ret(c.st, Int{W: wordW, S: true, L: linConst(a.Len())})
				}
			}
		}
		unsup("len of unknown value")
	case "copy":
		dst, ok1 := args[0].(Slice)
		src, ok2 := args[1].(Slice)
		if t, ok := args[1].(Str); ok && ok1 {
			src, ok2 = e.strBytes(c.st, t, dst.Elem), true
		}
		if !ok1 || !ok2 {
			unsup("copy of unknown values")
		}
		br, _ := e.decide(c.st.f, c.st.pc, ge(e, dst.Len.sub(src.Len)))
		var out []Outcome
		for _, q := range br {
			d := c.fork(q.f, q.pc)
			n := dst.Len
			if q.cond {
				n = src.Len
			}
			e.copySlices(d, dst, src, n, pos)
			out = append(out, Outcome{kind: 'r', st: d.st, v: Int{W: wordW, S: true, L: n}})
		}
		return out
	case "append":
		dst, ok1 := args[0].(Slice)
		src, ok2 := args[1].(Slice)
		if t, ok := args[1].(Str); ok && ok1 {
			src, ok2 = e.strBytes(c.st, t, dst.Elem), true
		}
		if !ok1 || !ok2 {
			unsup("append of unknown values")
		}
		return e.appendOp(c, dst, src, pos)
	case "recover":
		n := len(c.st.panics)
		if n == 0 || c.st.panics[n-1].recovered {
			return ret(c.st, Iface{})
		}
		ps := append([]panicInfo(nil), c.st.panics...)
		ps[n-1].recovered = true
		c.st.panics = ps
		v := ps[n-1].v
		if i, ok := v.(Iface); ok {
			return ret(c.st, i)
		}
		return ret(c.st, Iface{T: types.Universe.Lookup("error").Type(), V: v})
	case "min", "max":
		x, ok1 := args[0].(Int)
		if len(args) != 2 || !ok1 {
			unsup("%s", b.Name())
		}
		y := args[1].(Int)
		var out []Outcome
		br, _ := e.decide(c.st.f, c.st.pc, e.cmpInt(token.LEQ, x, y))
		for _, q := range br {
			d := c.fork(q.f, q.pc)
			v := x
			if q.cond != (b.Name() == "min") {
				v = y
			}
			out = append(out, Outcome{kind: 'r', st: d.st, v: v})
		}
		return out
	case "clear":
		s, ok := args[0].(Slice)
		if !ok {
			unsup("clear")
		}
		if s.O != 0 {
			z := e.newArr('z', s.Elem)
			e.copyCells(c, s, z, linConst(0), s.Len, pos)
		}
		return ret(c.st, Tuple{})
	case "print", "println":
		return ret(c.st, Tuple{})
	case "ssa:wrapnilchk":
		return ret(c.st, args[0])
	case "SliceData", "StringData", "String", "Slice", "Add":
		e.tr.note("unsafe", "unsafe."+b.Name()+" at "+e.posStr(pos), c.fr.fi.fn)
		unsup("unsafe.%s", b.Name())
	}
	unsup("builtin %s", b.Name())
	return nil
}

// strBytes lays a known string out as fresh storage.
func (e *Engine) strBytes(st *State, s Str, elem types.Type) Slice {
	n := int64(len(s.S))
	id := e.newObj(st, &Obj{arr: e.strArr(s, elem), n: linConst(n), typ: elem, name: "string"})
	return Slice{O: id, Off: linConst(0), Len: linConst(n), Cap: linConst(n), Elem: elem}
}

func (e *Engine) strArr(s Str, elem types.Type) *Arr {
	if len(s.S) > 256 {
		unsup("bytes of a long string")
	}
	a := e.newArr('z', elem)
	w, sg, _ := numType(elem)
	for i := 0; i < len(s.S); i++ {
		if s.S[i] != 0 {
			a = a.write(&Wr{kind: 'p', idx: linConst(int64(i)), val: Int{W: w, S: sg, L: linConst(int64(s.S[i]))}})
		}
	}
	return a
}

func (e *Engine) copySlices(c Conf, dst, src Slice, n *Lin, pos token.Pos) {
	if k, ok := n.constVal(); ok && k <= 0 {
		return
	}
	if src.O == 0 || dst.O == 0 {
		return
	}
	so := c.st.heap[src.O]
	if so == nil || so.arr == nil {
		unsup("copy from unknown storage")
	}
	if !e.entails(c.st.f, n.neg()) {
		e.touch(c, Ptr{O: src.O, I: src.Off}, false, pos)
	}
	e.copyCells(c, dst, so.arr, src.Off, n, pos)
}

func (e *Engine) copyCells(c Conf, dst Slice, src *Arr, from, n *Lin, pos token.Pos) {
	do := c.st.heap[dst.O]
	if do == nil || do.arr == nil {
		unsup("copy to unknown storage")
	}
	if !e.entails(c.st.f, n.neg()) {
		e.touch(c, Ptr{O: dst.O, I: dst.Off}, true, pos)
	}
	nd := *do
	nd.arr = e.copyInto(c.st.f, do.arr, dst.Off, src, from, n)
	c.st.heap[dst.O] = &nd
}

func (e *Engine) appendOp(c Conf, dst, src Slice, pos token.Pos) []Outcome {
	nl := dst.Len.add(src.Len)
	if e.entails(c.st.f, src.Len.neg()) {
		return ret(c.st, dst) // nothing appended
	}
	var out []Outcome
	br, _ := e.decide(c.st.f, c.st.pc, ge(e, dst.Cap.sub(nl)))
	for _, q := range br {
		if len(br) > 1 && (e.appends == "move" && q.cond || e.appends == "stay" && !q.cond) {
			continue
		}
		d := c.fork(q.f, q.pc)
		if q.cond {
			t := dst
			t.Off = dst.Off.add(dst.Len)
			e.copySlices(d, t, src, src.Len, pos)
			r := dst
			r.Len = nl
			out = append(out, Outcome{kind: 'r', st: d.st, v: r})
			continue
		}
		// reallocation: fresh storage of at least the new length
		w := e.newSym(e.freshName("cap"), I128{}, maxAlloc)
		e.syms[w].fresh = true
		cp := e.symLin(w)
		f, ok := e.assume(d.st.f, cp.sub(nl))
		if !ok {
			continue
		}
		d.st.f = f
		a := e.newArr('u', dst.Elem)
		if dst.O != 0 {
			do := d.st.heap[dst.O]
			if do == nil || do.arr == nil {
				unsup("append to unknown storage")
			}
			if !e.entails(d.st.f, dst.Len.neg()) {
				e.touch(d, Ptr{O: dst.O, I: dst.Off}, false, pos)
			}
			a = e.copyInto(d.st.f, a, linConst(0), do.arr, dst.Off, dst.Len)
		}
		if src.O != 0 {
			so := d.st.heap[src.O]
			if so == nil || so.arr == nil {
				unsup("append from unknown storage")
			}
			e.touch(d, Ptr{O: src.O, I: src.Off}, false, pos)
			a = e.copyInto(d.st.f, a, dst.Len, so.arr, src.Off, src.Len)
		}
		id := e.newObj(d.st, &Obj{arr: a, n: cp, typ: dst.Elem, name: "append"})
		out = append(out, Outcome{kind: 'r', st: d.st, v: Slice{O: id, Off: linConst(0), Len: nl, Cap: cp, Elem: dst.Elem}})
	}
	return out
}

// model gives the meaning of functions that are not analysed from source.
func (e *Engine) model(st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if fn.Signature.Recv() != nil && pkg == "sync" {
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok && isMutex(p.Elem()) {
			return e.lockModel(st, fn.Name(), args, pos), true
		}
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil && !e.prog.ownPkg(fn.Pkg) {
		return ret(st, Tuple{}), true // imported packages initialise themselves
	}
	switch pkg {
	case "math":
		switch fn.Name() {
		case "Float32bits", "Float64bits", "Float32frombits", "Float64frombits":
			i := args[0].(Int)
			return ret(st, e.retypeTo(i, fn.Signature.Results().At(0).Type())), true
		}
	case "math/bits":
		if v, ok := e.bitsModel(fn.Name(), args); ok {
			return ret(st, v), true
		}
	case "internal/bytealg":
		if fn.Name() == "MakeNoZero" {
			n, ok := args[0].(Int)
			if ok && n.L != nil {
				return e.makeNoZero(st, n, pos), true
			}
		}
	case "runtime":
		if fn.Name() == "KeepAlive" {
			return ret(st, Tuple{}), true
		}
	}
	return nil, false
}

func (e *Engine) retypeTo(i Int, t types.Type) Val {
	w, s, _ := numType(t)
	if isFloat(t) {
		return Int{W: w, B: e.bits(i)}
	}
	return e.fromBits(e.bits(i), w, s)
}

func (e *Engine) bitsModel(name string, args []Val) (Val, bool) {
	i, ok := args[0].(Int)
	if !ok {
		return nil, false
	}
	b := e.bits(i)
	r := make([]Node, len(b))
	switch name {
	case "ReverseBytes16", "ReverseBytes32", "ReverseBytes64":
		for k := range b {
			r[k] = b[(len(b)/8-1-k/8)*8+k%8]
		}
	case "Reverse8", "Reverse16", "Reverse32", "Reverse64":
		for k := range b {
			r[k] = b[len(b)-1-k]
		}
	default:
		return nil, false
	}
	return e.fromBits(r, i.W, i.S), true
}

func (e *Engine) lockModel(st *State, name string, args []Val, pos token.Pos) []Outcome {
	p, ok := args[0].(Ptr)
	if !ok || p.O == 0 {
		return []Outcome{{kind: 'p', st: st, v: RtPanic{"nil dereference"}, pos: pos}}
	}
	if o := st.heap[p.O]; p.O != e.recv && (e.recv != 0 || o == nil || o.ext) {
		return []Outcome{{kind: 'u', st: st, msg: "operation on a mutex outside the receiver", pos: pos}}
	}
	switch name {
	case "Lock", "RLock":
		if name == "RLock" && st.held > 1 {
			// recursive read locking can deadlock with a waiting writer
			return []Outcome{{kind: 'd', st: st, msg: "read lock taken while already held", pos: pos}}
		}
		if st.held != 0 {
			return []Outcome{{kind: 'd', st: st, msg: "lock taken while already held by this operation", pos: pos}}
		}
		st.held = 1
		if name == "RLock" {
			st.held = 2
		}
		st.acq++
		st.cur = false
		e.tr.lock(true, e.posStr(pos))
		return ret(st, Tuple{})
	case "Unlock", "RUnlock":
		want := 1
		if name == "RUnlock" {
			want = 2
		}
		if st.held != want {
			return []Outcome{{kind: 'd', st: st, msg: "unlock of a lock that is not held", pos: pos}}
		}
		st.held = 0
		st.cur = false
		e.tr.lock(false, e.posStr(pos))
		return ret(st, Tuple{})
	case "TryLock", "TryRLock":
		fail := st.clone()
		out := []Outcome{{kind: 'r', st: fail, v: Bool{K: 'b', N: bFalse}}}
		if st.held == 0 {
			st.held = 1
			if name == "TryRLock" {
				st.held = 2
			}
			st.acq++
			st.cur = false
			out = append(out, Outcome{kind: 'r', st: st, v: Bool{K: 'b', N: bTrue}})
		}
		return out
	}
	return []Outcome{{kind: 'u', st: st, msg: "mutex operation " + name, pos: pos}}
}

// makeNoZero models internal/bytealg.MakeNoZero: n bytes of fresh storage with
// unspecified contents and a capacity of at least n.
func (e *Engine) makeNoZero(st *State, i Int, pos token.Pos) []Outcome {
	n := e.lin(i)
	var out []Outcome
	try := func(s *State, c Bool, then func(*State)) {
		br, _ := e.decide(s.f, s.pc, c)
		for _, q := range br {
			t := s.clone()
			t.f, t.pc = q.f, q.pc
			if q.cond {
				then(t)
			} else {
				out = append(out, Outcome{kind: 'p', st: t, v: RtPanic{"makeslice"}, pos: pos})
			}
		}
	}
	try(st, ge(e, n), func(s *State) {
		try(s, ge(e, linC(maxAlloc).sub(n)), func(s *State) {
			w := e.newSym(e.freshName("cap"), I128{}, maxAlloc)
			e.syms[w].fresh = true
			cp := e.symLin(w)
			f, ok := e.assume(s.f, cp.sub(n))
			if !ok {
				return
			}
			s.f = f
			id := e.newObj(s, &Obj{arr: e.newArr('u', byteType), n: cp, typ: byteType, name: "make"})
			out = append(out, Outcome{kind: 'r', st: s, v: Slice{O: id, Off: linConst(0), Len: n, Cap: cp, Elem: byteType}})
		})
	})
	return out
}
