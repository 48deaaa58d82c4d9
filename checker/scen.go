package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Viol is one obligation that could not be discharged.
type Viol struct {
	Prop string `json:"property"`
	Case string `json:"case"`
	What string `json:"what"`
	Pos  string `json:"at"`
	Fn   string `json:"function"`
	Key  string `json:"key,omitempty"`
}

// Scn is one contract case: a method, a class of receivers and arguments, and
// the obligations its outcomes must meet.
type Scn struct {
	skipped bool
	posArg  bool // the position argument of a bit operation has been made
	p       *Program
	ver     string
	typ     string
	name    string
	id      string
	fn      *ssa.Function
	e       *Engine
	st      *State

	named *types.Named
	recv  ObjID
	store ObjID
	arr0  *Arr
	buf0  Slice
	L, C  *Lin
	Off   *Lin
	BOff  *Lin
	data  map[ObjID]bool // caller memory that must stay as it is
	outO  map[ObjID]bool // caller memory the operation may write
	errs  map[string]Struct
	props []string

	outs  []Outcome
	viol  []Viol
	obl   map[string]int
	funcs map[string]bool
	seen  map[string]bool
}

type baseState struct {
	err string
}

const bigLen = 47

func findNamed(p *Program, typ string) *types.Named {
	o := p.main.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Program) method(typ, name string) *ssa.Function {
	n := findNamed(p, typ)
	if n == nil {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(types.NewPointer(n)).Lookup(p.main.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

type scnError struct{ msg string }

// newScn prepares an analysis of p.typ.name with initialised package state.
func newScn(p *Program, ver, typ, name, variant string) *Scn {
	s := &Scn{p: p, ver: ver, typ: typ, name: name, e: newEngine(p), data: map[ObjID]bool{}, outO: map[ObjID]bool{}, obl: map[string]int{}, seen: map[string]bool{}}
	s.id = fmt.Sprintf("%s.%s.%s/%s", ver, typ, name, variant)
	if strings.HasPrefix(name, "New") {
		s.fn = p.main.Func(name)
	} else {
		s.fn = p.method(typ, name)
	}
	s.st = &State{pc: bTrue, heap: map[ObjID]*Obj{}}
	return s
}

// initPkg analyses the package's initialisation.
func (s *Scn) initPkg() error {
	e := s.e
	e.tr.initPhase = true
	fn := s.p.main.Func("init")
	outs := e.call(s.st, fn, nil, nil, fn.Pos())
	e.tr.initPhase = false
	e.tr.notes = map[Note]bool{}
	e.tr.globalReads = map[*ssa.Global]bool{}
	if len(outs) != 1 || outs[0].kind != 'r' {
		m := "package initialisation could not be analysed"
		if len(outs) > 0 {
			m += ": " + outs[0].msg
		}
		return fmt.Errorf("%s", m)
	}
	s.st = outs[0].st
	s.errs = map[string]Struct{}
	et := findNamed(s.p, "Error")
	for _, m := range s.p.main.Members {
		g, ok := m.(*ssa.Global)
		if !ok || et == nil {
			continue
		}
		if !types.Identical(g.Type().(*types.Pointer).Elem(), et) {
			continue
		}
		pt := e.globalPtr(s.st, g).(Ptr)
		if v, ok := s.st.heap[pt.O].root.(Struct); ok {
			s.errs[g.Name()] = v
		}
	}
	return nil
}

func (s *Scn) assume(l *Lin) bool {
	f, ok := s.e.assume(s.st.f, l)
	if ok {
		s.st.f = f
	}
	return ok
}

func (s *Scn) newInt64(name string) *Lin {
	lo, hi := typeRange(64, true)
	if wordW == 32 && name != "old" {
		// what a buffer can have there and as much again around it: byte offsets
		// and counts that fit an int, eight times that for bit positions
		lo, hi = typeRange(32, true)
		bit := name == "boff"
		if strings.Contains(s.name, "Bit") {
			switch {
			case name == "at" || name == "d" || name == "pos":
				bit = true
			case strings.HasPrefix(name, "arg") && !strings.HasSuffix(s.name, "Next") && !s.posArg:
				bit, s.posArg = true, true
			}
		}
		if bit {
			lo, hi = typeRange(35, true)
		}
	}
	return s.e.symLin(s.e.newSym(name, lo, hi))
}

func (s *Scn) newLen(name string, max I128) *Lin {
	return s.e.symLin(s.e.newSym(name, I128{}, max))
}

func i64v(l *Lin) Int { return Int{W: 64, S: true, L: l} }

// newSlice makes a caller slice of n elements (with spare capacity).
func (s *Scn) newSlice(elem types.Type, name string, n *Lin) Slice {
	e := s.e
	a := e.newArr('a', elem)
	e.tr.names[a.id] = name
	sz := sizes.Sizeof(elem)
	if sz == 0 {
		sz = 1
	}
	c := s.newLen("cap("+name+")", maxAlloc.divFloor(sz))
	s.assume(c.sub(n))
	id := e.newObj(s.st, &Obj{arr: a, n: c, typ: elem, ext: true, name: name})
	return Slice{O: id, Off: linConst(0), Len: n, Cap: c, Elem: elem}
}

// receiver builds a consistent receiver with arbitrary contents and cursors.
func (s *Scn) receiver(nilBuf bool) error {
	e := s.e
	s.named = findNamed(s.p, s.typ)
	if s.named == nil {
		return fmt.Errorf("type %s is missing", s.typ)
	}
	stt, ok := s.named.Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("type %s is not a struct", s.typ)
	}
	roles := s.p.roles(s.typ)
	byteT := types.Typ[types.Uint8]
	if nilBuf {
		s.L, s.C = linConst(0), linConst(0)
		s.buf0 = Slice{Off: linConst(0), Len: linConst(0), Cap: linConst(0), Elem: byteT}
	} else {
		s.L = s.newLen("len", maxAlloc)
		s.C = s.newLen("spare", maxAlloc)
		s.assume(s.C.sub(s.L))
		a := e.newArr('a', byteT)
		e.tr.names[a.id] = "buf"
		s.store = e.newObj(s.st, &Obj{arr: a, n: s.C, typ: byteT, ext: true, name: "buffer contents"})
		s.arr0 = a
		s.buf0 = Slice{O: s.store, Off: linConst(0), Len: s.L, Cap: s.C, Elem: byteT}
		e.store = s.store
	}
	s.Off, s.BOff = s.newInt64("off"), s.newInt64("boff")
	root := Struct{T: s.named}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		e.tr.fields = append(e.tr.fields, f.Name())
		var v Val
		switch roles[i] {
		case "buf":
			v = s.buf0
		case "cap":
			v = i64v(s.L)
		case "bcap":
			v = i64v(s.L.mul(8))
		case "off":
			v = i64v(s.Off)
		case "boff":
			v = i64v(s.BOff)
		default:
			if isMutex(f.Type()) {
				v = Struct{T: f.Type()}
			} else {
				v = e.top(f.Type(), f.Name())
			}
		}
		root.F = append(root.F, v)
	}
	s.recv = e.newObj(s.st, &Obj{root: root, typ: s.named, ext: true, name: "receiver"})
	e.recv = s.recv
	return nil
}

// roles maps struct fields to what they hold, by name or through the accessors.
func (p *Program) roles(typ string) map[int]string {
	n := findNamed(p, typ)
	r := map[int]string{}
	if n == nil {
		return r
	}
	stt, ok := n.Underlying().(*types.Struct)
	if !ok {
		return r
	}
	have := map[string]bool{}
	for i := 0; i < stt.NumFields(); i++ {
		switch nm := stt.Field(i).Name(); nm {
		case "buf", "cap", "bcap", "off", "boff":
			r[i] = nm
			have[nm] = true
		}
	}
	acc := map[string][]string{"off": {"Offset", "ByteOffset"}, "boff": {"BitOffset"}}
	for _, role := range []string{"off", "boff"} {
		if have[role] {
			continue
		}
		for _, m := range acc[role] {
			fn := p.method(typ, m)
			if fn == nil {
				continue
			}
			// the single integer field the accessor reads
			cand := -1
			cnt := 0
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok {
						if bt, ok := stt.Field(fa.Field).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int64 {
							if cand != fa.Field {
								cnt++
							}
							cand = fa.Field
						}
					}
				}
			}
			if cnt == 1 && r[cand] == "" {
				r[cand] = role
			}
		}
	}
	return r
}

/* ---- running and judging ---- */

// run analyses the method on the prepared state.
func (s *Scn) run(args ...Val) {
	all := args
	if s.recv != 0 {
		all = append([]Val{Ptr{O: s.recv}}, args...)
	}
	s.e.tr.globalReads = map[*ssa.Global]bool{}
	s.outs = s.e.call(s.st.clone(), s.fn, all, nil, s.fn.Pos())
	var os []Outcome
	for _, o := range s.outs {
		if o.st.pc == bFalse || s.e.infeasible(o.st.f.ls) {
			continue
		}
		os = append(os, o)
	}
	s.outs = os
	for _, o := range s.outs {
		if o.kind == 'u' {
			for _, p := range s.props {
				s.fail(p, o, "%s", "cannot be established: "+o.msg)
			}
		}
	}
	if len(s.outs) == 0 {
		for _, p := range s.props {
			s.fail(p, Outcome{}, "no outcome found (analysis vacuous)")
		}
	}
}

func (s *Scn) fail(prop string, o Outcome, format string, a ...interface{}) {
	v := Viol{Prop: prop, Case: s.id, What: fmt.Sprintf(format, a...)}
	if o.pos.IsValid() {
		v.Pos = s.e.posStr(o.pos)
	} else if s.fn != nil {
		v.Pos = s.e.posStr(s.fn.Pos())
	}
	v.Fn = o.fn
	if v.Fn == "" && s.fn != nil {
		v.Fn = s.fn.String()
	}
	k := v.Prop + v.What + v.Pos
	if !s.seen[k] {
		s.seen[k] = true
		s.viol = append(s.viol, v)
	}
}

// must registers one obligation and reports whether it holds.
func (s *Scn) must(prop string, ok bool, o Outcome, format string, a ...interface{}) bool {
	s.obl[prop]++
	if !ok {
		s.fail(prop, o, format, a...)
	}
	return ok
}

func (s *Scn) eq(prop string, o Outcome, a, b *Lin, what string) bool {
	return s.must(prop, s.e.entailsEq(o.st.f, a.sub(b)), o, "%s is %s, want %s", what, s.e.linStr(a), s.e.linStr(b))
}

// obs is the observable state of the receiver, seen through the accessors.
type obs struct {
	f    Facts
	buf  Slice
	cap  *Lin
	bcap *Lin
	off  *Lin
	boff *Lin
}

func accessors(ver string) [5]string {
	if ver == "v3" {
		return [5]string{"Bytes", "ByteCapacity", "BitCapacity", "ByteOffset", "BitOffset"}
	}
	return [5]string{"Bytes", "Capacity", "BitCapacity", "Offset", "BitOffset"}
}

// observe calls the accessors on the state of o.
func (s *Scn) observe(o Outcome, recv ObjID) (res []obs, err string) {
	e := s.e
	old := e.tr
	e.tr = old.fork()
	defer func() { e.tr = old }()
	type part struct {
		st *State
		vs []Val
	}
	st := o.st.clone()
	st.held = 0
	parts := []part{{st: st}}
	for _, name := range accessors(s.ver) {
		fn := s.p.method(s.typ, name)
		if fn == nil {
			return nil, "accessor " + name + " is missing"
		}
		var nx []part
		for _, q := range parts {
			args := []Val{Ptr{O: recv}}
			var out ObjID
			st := q.st
			if s.typ == "MiniBuffer" {
				t := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
				st = st.clone()
				out = e.newObj(st, &Obj{typ: t, root: e.zero(t), name: "out"})
				args = append(args, Ptr{O: out})
			}
			for _, r := range e.call(st, fn, args, nil, fn.Pos()) {
				if r.st.pc == bFalse {
					continue
				}
				if r.kind != 'r' {
					return nil, "accessor " + name + " does not return: " + outStr(e, r)
				}
				v := r.v
				if out != 0 {
					v = r.st.heap[out].root
				}
				nx = append(nx, part{r.st, append(q.vs[:len(q.vs):len(q.vs)], v)})
			}
		}
		parts = nx
	}
	for _, q := range parts {
		b, ok := q.vs[0].(Slice)
		if !ok {
			return nil, "Bytes yields an unknown value"
		}
		ob := obs{f: q.st.f, buf: b}
		for i, d := range []**Lin{&ob.cap, &ob.bcap, &ob.off, &ob.boff} {
			x, ok := q.vs[i+1].(Int)
			if !ok {
				return nil, "accessor yields an unknown value"
			}
			*d = e.lin(x)
		}
		res = append(res, ob)
	}
	return res, ""
}

func outStr(e *Engine, o Outcome) string {
	switch o.kind {
	case 'p':
		if r, ok := o.v.(RtPanic); ok {
			return "panics (" + r.kind + ")"
		}
		return "panics with " + e.valStr(o.v)
	case 'd':
		return o.msg
	case 'u', 'n':
		return o.msg
	}
	return "returns " + e.valStr(o.v)
}

// errNames lists the package's error values equal to a panic value.
func (s *Scn) errNames(v Val) []string {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		return nil
	}
	et := findNamed(s.p, "Error")
	if et == nil || !types.Identical(i.T, et) {
		return nil
	}
	st, ok := i.V.(Struct)
	if !ok {
		return nil
	}
	var out []string
	for n, x := range s.errs {
		if s.e.sameVal(x, st) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func (s *Scn) isErr(o Outcome, want ...string) bool {
	if o.kind != 'p' {
		return false
	}
	for _, n := range s.errNames(o.v) {
		for _, w := range want {
			if n == w {
				return true
			}
		}
	}
	return false
}

// returns requires every outcome to be a normal return and yields them.
func (s *Scn) returns(prop string) []Outcome {
	var out []Outcome
	for _, o := range s.outs {
		switch o.kind {
		case 'r':
			s.must(prop, true, o, "")
			out = append(out, o)
		case 'p', 'd':
			s.must(prop, false, o, "must succeed, but %s", outStr(s.e, o))
		}
	}
	return out
}

// refuses requires every outcome to be a panic (with one of want, if given).
func (s *Scn) refuses(prop string, want ...string) {
	for _, o := range s.outs {
		switch o.kind {
		case 'r':
			s.must(prop, false, o, "must be refused, but returns normally")
		case 'd':
			s.must(prop, false, o, "must be refused, but %s", o.msg)
		case 'p':
			s.must(prop, len(want) == 0 || s.isErr(o, want...), o, "must be refused with %s, but %s", strings.Join(want, " or "), outStr(s.e, o))
		}
	}
}

/* ---- comparing contents ---- */

// bitsEq compares two words under facts, identifying atoms whose positions are
// provably equal.
func (s *Scn) bitsEq(f Facts, pc Node, a, b []Node) bool {
	e := s.e
	same := func() bool {
		for i := range a {
			if a[i] != b[i] {
				if pc == bTrue {
					return false
				}
				if e.b.and(pc, e.b.xor(a[i], b[i])) != bFalse {
					return false
				}
			}
		}
		return true
	}
	if len(a) != len(b) {
		return false
	}
	if same() {
		return true
	}
	sup := map[int32]bool{}
	seen := map[Node]bool{}
	for i := range a {
		e.b.support(a[i], seen, sup)
		e.b.support(b[i], seen, sup)
	}
	var as []int32
	for x := range sup {
		as = append(as, x)
	}
	sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
	ren := map[int32]int32{}
	val := map[int32]Node{}
	for i, x := range as {
		ax := e.b.atoms[x]
		if ax.lin == nil {
			continue
		}
		// a value pinned to a constant by the facts
		if ax.kind == 'l' {
			if c, ok := e.pinned(f, ax.lin); ok {
				val[x] = e.constBits(c.lo, ax.w)[ax.bit]
				continue
			}
		}
		for _, y := range as[:i] {
			ay := e.b.atoms[y]
			if ay.kind == ax.kind && ay.arr == ax.arr && ay.bit == ax.bit && ay.w == ax.w && ay.lin != nil && e.entailsEq(f, ax.lin.sub(ay.lin)) {
				ren[x] = y
				break
			}
		}
	}
	if len(ren) == 0 && len(val) == 0 {
		return false
	}
	m := func(x int32) Node {
		if v, ok := val[x]; ok {
			return v
		}
		for {
			y, ok := ren[x]
			if !ok {
				break
			}
			x = y
		}
		if v, ok := val[x]; ok {
			return v
		}
		return e.b.mk(x, bFalse, bTrue)
	}
	memo := map[Node]Node{}
	a, b = append([]Node(nil), a...), append([]Node(nil), b...)
	for i := range a {
		a[i], b[i] = e.b.rename(a[i], m, memo), e.b.rename(b[i], m, memo)
	}
	pc = e.b.rename(pc, m, memo)
	return same()
}

// pinned finds a constant the facts force l to equal.
func (e *Engine) pinned(f Facts, l *Lin) (I128, bool) {
	vk := l.varKey()
	for _, g := range f.ls {
		if len(g.t) == len(l.t) && g.varKey() == vk {
			// g = l - l.c + g.c >= 0, so l >= l.c - g.c
			c := l.c.sub(g.c)
			if e.entailsEq(f, l.addC(c.neg())) {
				return c, true
			}
		}
	}
	return I128{}, false
}

// elem requires cell x of array a to equal want in every case.
func (s *Scn) elem(prop string, o Outcome, f Facts, a *Arr, x *Lin, want []Node, what string) {
	s.elemAny(prop, o, f, a, x, [][]Node{want}, what)
}

// elemAny requires cell x of array a to equal one of wants in every case.
func (s *Scn) elemAny(prop string, o Outcome, f Facts, a *Arr, x *Lin, wants [][]Node, what string) {
	if s.e.infeasible(f.ls) {
		return
	}
	for _, r := range s.e.readArr(f, a, x) {
		if s.e.infeasible(r.f.ls) {
			continue
		}
		i, ok := r.v.(Int)
		good := false
		for _, want := range wants {
			good = good || ok && s.bitsEq(r.f, o.st.pc, s.e.bits(i), want)
		}
		want := wants[0]
		if debugElem && !good {
			fmt.Println("elem mismatch", s.id, what)
			for _, g := range r.f.ls {
				fmt.Println("   fact", s.e.linStr(g))
			}
		}
		s.must(prop, good, o, "%s: holds %s, want %s", what, s.e.valStr(r.v), s.e.valStr(Int{W: len(want), B: want}))
	}
}

var debugElem = false

// idx makes a fresh index with lo <= x < hi under o's facts.
func (s *Scn) idx(f Facts, name string, lo, hi *Lin) (Facts, *Lin, bool) {
	e := s.e
	x := e.symLin(e.newSym(name, minI, maxI))
	f, ok := e.assume(f, x.sub(lo))
	if !ok {
		return f, nil, false
	}
	f, ok = e.assume(f, hi.sub(x).addInt(-1))
	return f, x, ok
}

// unchanged requires cells [lo,hi) of the original storage to hold their old bytes.
func (s *Scn) unchanged(prop string, o Outcome, lo, hi *Lin, what string) {
	if s.store == 0 {
		return
	}
	a := o.st.heap[s.store].arr
	if a.ws == nil && a.id == s.arr0.id {
		s.must(prop, true, o, "")
		return
	}
	f, x, ok := s.idx(o.st.f, "x", lo, hi)
	if !ok {
		return
	}
	s.elem(prop, o, f, a, x, s.init(x), what)
	if s.has("C30") {
		s.elem("C30", o, f, s.e.marked(a), x, s.init(x), what+" (every byte stored counts as changed)")
	}
}

func (s *Scn) has(prop string) bool {
	for _, p := range s.props {
		if p == prop {
			return true
		}
	}
	return false
}

// fieldsAlone requires that no step of the operation stored to the buffer's
// own fields, nor, when all is set, to its contents.
func (s *Scn) fieldsAlone(all bool) {
	if !s.has("C30") {
		return
	}
	var ks []accessKey
	for k := range s.e.tr.acc {
		s.obl["C30"]++
		if k.write && (all || k.field != "contents") {
			ks = append(ks, k)
		}
	}
	s.obl["C30"]++
	sort.Slice(ks, func(i, j int) bool { return ks[i].pos+ks[i].field < ks[j].pos+ks[j].field })
	for _, k := range ks {
		s.failAt("C30", k.pos, k.fn, "stores to the buffer's "+k.field, "")
	}
}

// init is the initial content of buffer cell x, as bits.
func (s *Scn) init(x *Lin) []Node {
	return s.e.bits(s.e.initElem(s.arr0, x).(Int))
}

// intact requires all of the receiver's storage to hold its old bytes.
func (s *Scn) intact(prop string, o Outcome, what string) {
	if s.store == 0 {
		return
	}
	s.unchanged(prop, o, linConst(0), s.C, what)
}

func (s *Scn) sameExtent(prop string, o Outcome, b obs, what string) {
	ok := b.buf.O == s.store
	if s.store == 0 {
		ok = s.e.entailsEq(b.f, b.buf.Len)
		s.must(prop, ok, o, "%s: the buffer's slice is no longer empty", what)
		return
	}
	s.must(prop, ok, o, "%s: the buffer's slice points to other storage", what)
	if ok {
		s.must(prop, s.e.entailsEq(b.f, b.buf.Off) && s.e.entailsEq(b.f, b.buf.Len.sub(s.L)), o,
			"%s: the buffer's slice is [%s:+%s] of its storage, want [0:+%s]", what, s.e.linStr(b.buf.Off), s.e.linStr(b.buf.Len), s.e.linStr(s.L))
	}
}

func (s *Scn) lin(prop string, o Outcome, f Facts, a, b *Lin, what string) {
	s.must(prop, s.e.entailsEq(f, a.sub(b)), o, "%s is %s, want %s", what, s.e.linStr(a), s.e.linStr(b))
}
