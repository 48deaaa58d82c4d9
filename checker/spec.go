package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Case is one unit of work.
type Case struct {
	ID    string
	Props []string
	Run   func() *Scn
}

type caseSet struct {
	p    *Program
	ver  string
	list []Case
}

func (cs *caseSet) add(typ, name, variant string, props []string, nilBuf bool, body func(s *Scn)) {
	p, ver := cs.p, cs.ver
	id := fmt.Sprintf("%s.%s.%s/%s", ver, typ, name, variant)
	if positional(ver, typ, name) && body != nil {
		for _, q := range props {
			if q == "C05" || strings.HasPrefix(variant, "any") {
				props = append(props[:len(props):len(props)], "C30")
				break
			}
		}
	}
	cs.list = append(cs.list, Case{ID: id, Props: props, Run: func() *Scn {
		s := newScn(p, ver, typ, name, variant)
		s.props = props
		if s.fn == nil {
			for _, pr := range props {
				s.fail(pr, Outcome{}, "%s.%s of %s is missing", typ, name, ver)
			}
			return s
		}
		guard(s, func() {
			if err := s.initPkg(); err != nil {
				s.failAll(err.Error())
				return
			}
			if !strings.HasPrefix(name, "New") {
				if err := s.receiver(nilBuf); err != nil {
					s.failAll(err.Error())
					return
				}
			}
			body(s)
		})
		return s
	}})
}

// positional reports whether several goroutines may use the operation at once
// on one buffer that has no lock (C30).
func positional(ver, typ, name string) bool {
	if typ == "Buffer" && ver != "v3" {
		return false
	}
	o, ok := describe(ver, name)
	if !ok || o.next {
		return false
	}
	return windowOp(o) || o.class == "get" || o.class == "after"
}

func (s *Scn) failAll(msg string) {
	for _, p := range s.props {
		s.fail(p, Outcome{}, "%s", "cannot be established: "+msg)
	}
}

// guard turns analysis failures into undischarged obligations.
func guard(s *Scn, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				s.failAll(x.msg)
			case overflow128:
				s.failAll("bound arithmetic overflow")
			case bddOverflow:
				s.failAll("bit-level function too large")
			default:
				if panicThrough {
					panic(r)
				}
				s.failAll(fmt.Sprintf("analysis failure: %v", r))
			}
		}
	}()
	f()
}

var panicThrough = false

var byteType = types.Typ[types.Uint8]

func elemType(kind string, w int) types.Type {
	switch kind + itoa(w) {
	case "U8":
		return types.Typ[types.Uint8]
	case "U16":
		return types.Typ[types.Uint16]
	case "U32":
		return types.Typ[types.Uint32]
	case "U64":
		return types.Typ[types.Uint64]
	case "I16":
		return types.Typ[types.Int16]
	case "I32":
		return types.Typ[types.Int32]
	case "I64":
		return types.Typ[types.Int64]
	case "F32":
		return types.Typ[types.Float32]
	case "F64":
		return types.Typ[types.Float64]
	}
	return nil
}

/* ---- method descriptions ---- */

// op describes what a method is supposed to do.
type op struct {
	class string // typedR typedW rbytes wbytes rbyte wbyte rbit rbits sbit cbit fbit sbits all seek after align grow trunc reset refresh get complexR complexW new
	name  string
	next  bool
	kind  string // U I F
	w     int
	order string
	which string // byte / bit, left / right, clear / set / flip
}

var typedRe = regexp.MustCompile(`^(Read|Write)([UIF])(16|32|64)(LE|BE)(Next)?$`)

func describe(ver, name string) (op, bool) {
	if m := typedRe.FindStringSubmatch(name); m != nil && ver != "v1" {
		c := "typedR"
		if m[1] == "Write" {
			c = "typedW"
		}
		w := map[string]int{"16": 16, "32": 32, "64": 64}[m[3]]
		if m[2] == "F" && (w == 16 || ver == "v2") {
			return op{}, false
		}
		return op{class: c, name: name, next: m[5] != "", kind: m[2], w: w, order: m[4]}, true
	}
	base := strings.TrimSuffix(name, "Next")
	next := base != name
	tab := map[string]op{
		"ReadComplex": {class: "complexR"}, "WriteComplex": {class: "complexW"},
		"ReadBytes": {class: "rbytes"}, "WriteBytes": {class: "wbytes"},
		"ReadByte": {class: "rbyte"}, "WriteByte": {class: "wbyte"},
		"ReadBit": {class: "rbit"}, "ReadBits": {class: "rbits"},
		"SetBit": {class: "sbit"}, "ClearBit": {class: "cbit"}, "FlipBit": {class: "fbit"}, "SetBits": {class: "sbits"},
	}
	if o, ok := tab[base]; ok {
		o.name, o.next = name, next
		return o, true
	}
	if next {
		return op{}, false
	}
	tab = map[string]op{
		"ClearAllBits": {class: "all", which: "clear"}, "SetAllBits": {class: "all", which: "set"}, "FlipAllBits": {class: "all", which: "flip"},
		"Seek": {class: "seek", which: "byte"}, "SeekByte": {class: "seek", which: "byte"}, "SeekBit": {class: "seek", which: "bit"},
		"After": {class: "after", which: "byte"}, "AfterByte": {class: "after", which: "byte"}, "AfterBit": {class: "after", which: "bit"},
		"AlignBit": {class: "align", which: "bit"}, "AlignByte": {class: "align", which: "byte"},
		"Grow": {class: "grow"}, "TruncateLeft": {class: "trunc", which: "left"}, "TruncateRight": {class: "trunc", which: "right"},
		"Reset": {class: "reset"}, "Refresh": {class: "refresh"},
		"Bytes": {class: "get", which: "buf"}, "Capacity": {class: "get", which: "cap"}, "ByteCapacity": {class: "get", which: "cap"},
		"BitCapacity": {class: "get", which: "bcap"}, "Offset": {class: "get", which: "off"}, "ByteOffset": {class: "get", which: "off"},
		"BitOffset": {class: "get", which: "boff"},
	}
	if o, ok := tab[name]; ok {
		o.name = name
		return o, true
	}
	return op{}, false
}

// expected lists the methods each type is documented to offer.
func expected(ver, typ string) []string {
	var r []string
	mini := typ == "MiniBuffer"
	both := func(n string) { r = append(r, n, n+"Next") }
	switch ver {
	case "v1":
		both("ReadComplex")
		both("WriteComplex")
	case "v2", "v3":
		kinds := []string{"U"}
		if ver == "v3" {
			kinds = []string{"U", "I", "F"}
		}
		for _, k := range kinds {
			for _, w := range []string{"16", "32", "64"} {
				if k == "F" && w == "16" {
					continue
				}
				for _, o := range []string{"LE", "BE"} {
					both("Read" + k + w + o)
					both("Write" + k + w + o)
				}
			}
		}
	}
	both("ReadBytes")
	both("WriteBytes")
	if !mini {
		both("ReadByte")
		both("WriteByte")
	}
	both("ReadBit")
	both("ReadBits")
	both("SetBit")
	both("SetBits")
	both("FlipBit")
	r = append(r, "ClearAllBits", "SetAllBits", "FlipAllBits", "SeekBit", "AfterBit", "AlignBit", "AlignByte", "Grow", "Refresh", "Bytes", "BitCapacity", "BitOffset")
	if ver == "v3" {
		both("ClearBit")
		r = append(r, "SeekByte", "AfterByte", "TruncateLeft", "TruncateRight", "ByteCapacity", "ByteOffset", "Reset")
	} else {
		r = append(r, "Seek", "After", "Capacity", "Offset")
		if ver == "v2" {
			r = append(r, "Reset")
		}
	}
	sort.Strings(r)
	return r
}

/* ---- arguments ---- */

func (s *Scn) sig() *types.Signature { return s.fn.Signature }

func (s *Scn) params() []*types.Var {
	var r []*types.Var
	ps := s.sig().Params()
	for i := 0; i < ps.Len(); i++ {
		r = append(r, ps.At(i))
	}
	return r
}

// outParam makes the cell a MiniBuffer method stores its result in.
func (s *Scn) outParam(t types.Type, v Val) (Ptr, ObjID) {
	id := s.e.newObj(s.st, &Obj{typ: t, root: v, ext: true, name: "out"})
	s.outO[id] = true
	return Ptr{O: id}, id
}

func (s *Scn) mini() bool { return s.typ == "MiniBuffer" }

// cursor is the start of the window of o's operation: the cursor itself for Next.
func (s *Scn) cursor(o op, bit bool) (start *Lin, arg []Val) {
	if o.next {
		if bit {
			return s.BOff, nil
		}
		return s.Off, nil
	}
	x := s.newInt64("at")
	return x, []Val{i64v(x)}
}

// dataBits makes a scalar argument with one symbol per bit.
func (s *Scn) dataBits(name string, w int) Int {
	return Int{W: w, B: s.e.freshBits(name, w)}
}

func constInt(w int, sg bool, c int64) Int { return Int{W: w, S: sg, L: linConst(c)} }

/* ---- windows ---- */

// win constrains a window [at, at+len) relative to the buffer.
type winKind string

const (
	winIn    winKind = "in-range"
	winOver  winKind = "past-end"
	winUnder winKind = "before-start"
	winBoth  winKind = "before-start-and-past-end"
)

// window assumes a class of windows; limit is the capacity in the same unit.
func (s *Scn) window(k winKind, at, n, limit *Lin) bool {
	end := at.add(n)
	switch k {
	case winIn:
		return s.assume(at) && s.assume(limit.sub(end))
	case winOver:
		return s.assume(at) && s.assume(end.sub(limit).addInt(-1))
	case winUnder:
		return s.assume(at.neg().addInt(-1)) && s.assume(limit.sub(end))
	default:
		return s.assume(at.neg().addInt(-1)) && s.assume(end.sub(limit).addInt(-1))
	}
}

func rangeErrs(read bool, k winKind) []string {
	o, u := "BufferOverreadError", "BufferUnderreadError"
	if !read {
		o, u = "BufferOverwriteError", "BufferUnderwriteError"
	}
	switch k {
	case winOver:
		return []string{o}
	case winUnder:
		return []string{u}
	}
	return []string{o, u}
}

// frame checks what every successful window operation leaves alone, and how far
// it moves its cursor.
func (s *Scn) frame(prop string, o op, out Outcome, amount *Lin, bit bool) {
	s.fieldsAlone(o.reads())
	obss, err := s.observe(out, s.recv)
	if err != "" {
		s.must("C05", false, out, "cursors cannot be observed: %s", err)
		return
	}
	for _, b := range obss {
		wo, wb := s.Off, s.BOff
		if o.next {
			if bit {
				wb = wb.add(amount)
			} else {
				wo = wo.add(amount)
			}
		}
		s.lin("C05", out, b.f, b.off, wo, "byte cursor afterwards")
		s.lin("C05", out, b.f, b.boff, wb, "bit cursor afterwards")
	}
}

// byteOf returns the bits of byte j (in memory order) of a word.
func byteOf(word []Node, j int, order string) []Node {
	n := len(word) / 8
	if order == "BE" {
		j = n - 1 - j
	}
	return word[8*j : 8*j+8]
}

// wordAt assembles the word stored at cell x of the original contents.
func (s *Scn) wordAt(x *Lin, bytes int, order string) []Node {
	w := make([]Node, 8*bytes)
	for j := 0; j < bytes; j++ {
		k := j
		if order == "BE" {
			k = bytes - 1 - j
		}
		copy(w[8*k:8*k+8], s.init(x.addInt(int64(j))))
	}
	return w
}

// written checks that exactly [at, at+k*n) changed, to the encoding of elem(i);
// order "any" leaves open which of the two byte orders it is.
func (s *Scn) written(prop string, o Outcome, at, n *Lin, k int, order string, elem func(i *Lin) []Node) {
	if s.store == 0 {
		return
	}
	a := o.st.heap[s.store].arr
	s.unchanged(prop, o, linConst(0), at, "byte before the written window")
	s.unchanged(prop, o, at.add(n.mul(int64(k))), s.C, "byte after the written window")
	f, i, ok := s.idx(o.st.f, "i", linConst(0), n)
	if !ok {
		return
	}
	word := elem(i)
	for j := 0; j < k; j++ {
		x := at.add(i.mul(int64(k))).addInt(int64(j))
		wants := [][]Node{byteOf(word, j, order)}
		if order == "any" {
			wants = append(wants, byteOf(word, k-1-j, order))
		}
		s.elemAny(prop, o, f, a, x, wants, fmt.Sprintf("byte %d of written element", j))
	}
}

// sizeLim bounds an element count so that it fits memory.
func sizeLim(k int) I128 { return maxAlloc.divFloor(int64(k)) }

/* ---- the cases ---- */

func buildCases(p *Program, ver string, tier string) []Case {
	cs := &caseSet{p: p, ver: ver}
	for _, typ := range []string{"Buffer", "MiniBuffer"} {
		for _, name := range expected(ver, typ) {
			o, ok := describe(ver, name)
			if !ok {
				panic("spec: " + name)
			}
			cs.anyCases(typ, o)
			switch o.class {
			case "typedW":
				cs.typedWrite(typ, o)
			case "typedR":
				cs.typedRead(typ, o)
			case "complexW":
				cs.complexWrite(typ, o)
			case "complexR":
				cs.complexRead(typ, o)
			case "wbytes", "wbyte":
				cs.writeBytes(typ, o)
			case "rbytes", "rbyte":
				cs.readBytes(typ, o)
			case "rbit", "sbit", "cbit", "fbit":
				cs.bit(typ, o)
			case "rbits", "sbits":
				cs.bits(typ, o)
			case "all":
				cs.allBits(typ, o)
			case "seek":
				cs.seek(typ, o)
			case "after":
				cs.after(typ, o)
			case "align":
				cs.align(typ, o)
			case "get":
				cs.get(typ, o)
			case "grow":
				cs.grow(typ, o)
			case "trunc":
				cs.trunc(typ, o)
			case "reset", "refresh":
				cs.reset(typ, o)
			}
		}
		cs.newCases(typ, tier)
	}
	return cs.list
}

func (cs *caseSet) winCases(typ string, o op, read bool, main string, run func(k winKind) func(s *Scn)) {
	kinds := []winKind{winIn}
	if typ == "Buffer" {
		kinds = append(kinds, winOver, winUnder, winBoth)
	}
	for _, k := range kinds {
		props := []string{"C03"}
		if k == winIn {
			props = []string{main, "C05"}
		}
		cs.add(typ, o.name, string(k), props, false, run(k))
	}
}

func (cs *caseSet) typedWrite(typ string, o op) {
	k := o.w / 8
	run := func(wk winKind) func(*Scn) {
		return func(s *Scn) {
			n := s.newLen("n", sizeLim(k))
			et := elemType(o.kind, o.w)
			d := s.newSlice(et, "data", n)
			s.data[d.O] = true
			at, args := s.cursor(o, false)
			s.window(wk, at, n.mul(int64(k)), s.L)
			s.run(append(args, d)...)
			if wk != winIn {
				s.refuses("C03", rangeErrs(false, wk)...)
				return
			}
			da := s.st.heap[d.O].arr
			for _, out := range s.returns("C01") {
				s.written("C01", out, at, n, k, o.order, func(i *Lin) []Node { return s.e.bits(s.e.initElem(da, i).(Int)) })
				s.frame("C05", o, out, n.mul(int64(k)), false)
			}
		}
	}
	cs.winCases(typ, o, false, "C01", run)
	for _, nb := range []bool{false, true} {
		cs.add(typ, o.name, fmt.Sprintf("nil-data/nilbuf=%v", nb), []string{"C01", "C05"}, nb, func(s *Scn) {
			at, args := s.cursor(o, false)
			s.window(winIn, at, linConst(0), s.L)
			s.run(append(args, s.e.zero(types.NewSlice(elemType(o.kind, o.w))))...)
			for _, out := range s.returns("C01") {
				s.intact("C01", out, "writing an empty slice")
				s.frame("C05", o, out, linConst(0), false)
			}
		})
	}
}

// result fetches what a read yields: its return value or the out cell.
func (s *Scn) result(out Outcome, cell ObjID) Val {
	if cell != 0 {
		return out.st.heap[cell].root
	}
	return out.v
}

func (cs *caseSet) typedRead(typ string, o op) {
	k := o.w / 8
	et := elemType(o.kind, o.w)
	setup := func(s *Scn, n *Lin) (pre []Val, cell ObjID, target Slice) {
		if s.mini() {
			m := s.newLen("outlen", sizeLim(k))
			s.assume(m.sub(n))
			target = s.newSlice(et, "out", m)
			s.outO[target.O] = true
			p, id := s.outParam(types.NewSlice(et), target)
			return []Val{p}, id, target
		}
		return nil, 0, Slice{}
	}
	run := func(wk winKind) func(*Scn) {
		return func(s *Scn) {
			n := s.newInt64("n")
			s.assume(n)
			at, args := s.cursor(o, false)
			if wk == winIn {
				s.assume(linC(sizeLim(k)).sub(n))
			}
			s.window(wk, at, n.mul(int64(k)), s.L)
			pre, cell, target := setup(s, n)
			args = append(append(pre, args...), i64v(n))
			s.run(args...)
			if wk != winIn {
				s.refuses("C03", rangeErrs(true, wk)...)
				return
			}
			for _, out := range s.returns("C02") {
				s.intact("C02", out, "reading")
				s.frame("C05", o, out, n.mul(int64(k)), false)
				s.decoded("C02", out, s.result(out, cell), target, at, n, k, o.order, et)
			}
		}
	}
	cs.winCases(typ, o, true, "C02", run)
	if typ == "Buffer" {
		cs.add(typ, o.name, "negative-count", []string{"C03"}, false, func(s *Scn) {
			n := s.newInt64("n")
			s.assume(n.neg().addInt(-1))
			_, args := s.cursor(o, false)
			s.run(append(args, i64v(n))...)
			s.refuses("C03")
		})
	}
	for _, nb := range []bool{false, true} {
		cs.add(typ, o.name, fmt.Sprintf("zero/nilbuf=%v", nb), []string{"C02", "C05"}, nb, func(s *Scn) {
			at, args := s.cursor(o, false)
			s.window(winIn, at, linConst(0), s.L)
			var pre []Val
			var cell ObjID
			if s.mini() {
				p, id := s.outParam(types.NewSlice(et), s.e.zero(types.NewSlice(et)))
				pre, cell = []Val{p}, id
			}
			s.run(append(append(pre, args...), constInt(64, true, 0))...)
			for _, out := range s.returns("C02") {
				s.frame("C05", o, out, linConst(0), false)
				v, ok := s.result(out, cell).(Slice)
				s.must("C02", ok && s.e.entailsEq(out.st.f, v.Len), out, "reading 0 elements yields %s", s.e.valStr(s.result(out, cell)))
			}
		})
	}
}

// decoded checks the slice a typed read yields (order as for written).
func (s *Scn) decoded(prop string, out Outcome, v Val, target Slice, at, n *Lin, k int, order string, et types.Type) {
	e := s.e
	r, ok := v.(Slice)
	if !ok {
		s.must(prop, false, out, "the result is not a known slice (%s)", e.valStr(v))
		return
	}
	if target.O != 0 {
		s.must(prop, e.sameVal(r, target), out, "the caller's output slice was replaced by %s", e.valStr(r))
		if !e.sameVal(r, target) {
			return
		}
	} else {
		s.must(prop, e.entailsEq(out.st.f, r.Len.sub(n)), out, "the result has %s elements, want %s", e.linStr(r.Len), e.linStr(n))
		if r.O == 0 {
			s.must(prop, e.entailsEq(out.st.f, n), out, "the result is nil")
			return
		}
		ob := out.st.heap[r.O]
		s.must(prop, r.O != s.store && !ob.ext, out, "the result shares the buffer's storage")
		s.must("C02", !s.reaches(out, r.O), out, "the buffer keeps a reference to the slice it returned")
	}
	a := out.st.heap[r.O].arr
	if a == nil {
		s.must(prop, false, out, "the result's storage is unknown")
		return
	}
	if target.O != 0 {
		// elements past the first n keep their values
		f, x, ok := s.idx(out.st.f, "x", n, target.Cap)
		if ok && a.ws != nil {
			s.elem(prop, out, f, a, x, e.bits(e.initElem(&Arr{id: a.id, init: 'a', elem: et}, x).(Int)), "output element past the first n")
		}
	}
	f, i, ok := s.idx(out.st.f, "i", linConst(0), n)
	if !ok {
		return
	}
	wants := [][]Node{s.wordAt(at.add(i.mul(int64(k))), k, order)}
	if order == "any" {
		wants = append(wants, s.wordAt(at.add(i.mul(int64(k))), k, "BE"))
	}
	s.elemAny(prop, out, f, a, r.Off.add(i), wants, "decoded element")
}

// reaches reports whether the receiver refers to object id.
func (s *Scn) reaches(out Outcome, id ObjID) bool {
	return refersTo(out.st, out.st.heap[s.recv].root, id, 0)
}

func refersTo(st *State, v Val, id ObjID, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case Ptr:
		if x.O == id {
			return true
		}
		if o := st.heap[x.O]; o != nil && x.O != 0 {
			return refersTo(st, o.root, id, d+1)
		}
	case Slice:
		return x.O == id && id != 0
	case Iface:
		return refersTo(st, x.V, id, d+1)
	case Struct:
		for _, f := range x.F {
			if refersTo(st, f, id, d+1) {
				return true
			}
		}
	case Func:
		for _, f := range x.Bind {
			if refersTo(st, f, id, d+1) {
				return true
			}
		}
	}
	return false
}

/* v1 size-dispatched access */

var complexSizes = []int{1, 2, 4, 8}

func (s *Scn) endian(order string) Val {
	bp := s.p.prog.ImportedPackage("encoding/binary")
	if bp == nil {
		unsup("encoding/binary is not imported")
	}
	n := "littleEndian"
	if order == "BE" {
		n = "bigEndian"
	}
	t := bp.Pkg.Scope().Lookup(n)
	if t == nil {
		unsup("encoding/binary.%s is missing", n)
	}
	return Iface{T: t.Type(), V: Struct{T: t.Type()}}
}

func (s *Scn) sizeArg(c int64) Val { return constInt(64, true, c) }

func (cs *caseSet) complexWrite(typ string, o op) {
	for _, k := range complexSizes {
		for _, order := range []string{"LE", "BE"} {
			k, order := k, order
			et := elemType("U", 8*k)
			kinds := []winKind{winIn}
			if typ == "Buffer" {
				kinds = append(kinds, winOver, winUnder, winBoth)
			}
			for _, wk := range kinds {
				wk := wk
				props := []string{"C03"}
				if wk == winIn {
					props = []string{"C01", "C05", "C18"}
				}
				cs.add(typ, o.name, fmt.Sprintf("%s/%d/%s", wk, 8*k, order), props, false, func(s *Scn) {
					n := s.newLen("n", sizeLim(k))
					d := s.newSlice(et, "data", n)
					s.data[d.O] = true
					at, args := s.cursor(o, false)
					s.window(wk, at, n.mul(int64(k)), s.L)
					s.run(append(args, Iface{T: types.NewSlice(et), V: d}, s.sizeArg(int64(k)), s.endian(order))...)
					if wk != winIn {
						s.refuses("C03", rangeErrs(false, wk)...)
						return
					}
					da := s.st.heap[d.O].arr
					s.returns("C18")
					for _, out := range s.returns("C01") {
						src := func(i *Lin) []Node { return s.e.bits(s.e.initElem(da, i).(Int)) }
						s.written("C01", out, at, n, k, order, src)
						s.written("C18", out, at, n, k, "any", src)
						s.frame("C05", o, out, n.mul(int64(k)), false)
					}
				})
			}
			cs.add(typ, o.name, fmt.Sprintf("nil-data/%d/%s", 8*k, order), []string{"C01", "C05"}, false, func(s *Scn) {
				at, args := s.cursor(o, false)
				s.window(winIn, at, linConst(0), s.L)
				st := types.NewSlice(et)
				s.run(append(args, Iface{T: st, V: s.e.zero(st)}, s.sizeArg(int64(k)), s.endian(order))...)
				for _, out := range s.returns("C01") {
					s.intact("C01", out, "writing an empty slice")
					s.frame("C05", o, out, linConst(0), false)
				}
			})
		}
	}
	cs.ownData(typ, o, func(s *Scn, d Slice) []Val {
		return []Val{Iface{T: types.NewSlice(byteType), V: d}, s.sizeArg(1), s.endian("LE")}
	})
	cs.badSizes(typ, o, func(s *Scn, size Val, pick int) []Val {
		_, args := s.cursor(o, false)
		var d Val = Iface{}
		if pick > 0 {
			et := elemType("U", []int{8, 16, 32, 64}[pick-1])
			sl := s.newSlice(et, "data", s.newLen("n", sizeLim(8)))
			s.data[sl.O] = true
			d = Iface{T: types.NewSlice(et), V: sl}
		}
		return append(args, d, size, s.endian("LE"))
	})
}

func (cs *caseSet) badSizes(typ string, o op, mk func(s *Scn, size Val, pick int) []Val) {
	type rg struct {
		n      string
		lo, hi int64
	}
	for _, r := range []rg{{"below1", -1 << 63, 0}, {"3", 3, 3}, {"5..7", 5, 7}, {"above8", 9, 1<<63 - 1}} {
		for pick := 0; pick <= 4; pick++ {
			if o.class == "complexR" && pick > 0 {
				continue
			}
			r, pick := r, pick
			cs.add(typ, o.name, fmt.Sprintf("size=%s/data=%d", r.n, pick), []string{"C18"}, false, func(s *Scn) {
				z := s.e.symLin(s.e.newSym("size", i128(r.lo), i128(r.hi)))
				s.run(mk(s, i64v(z), pick)...)
				s.refuses("C18", "BufferInvalidIntegerSizeError")
				for _, out := range s.outs {
					s.untouched("C18", out)
				}
			})
		}
	}
}

func (cs *caseSet) complexRead(typ string, o op) {
	for _, k := range complexSizes {
		for _, order := range []string{"LE", "BE"} {
			k, order := k, order
			et := elemType("U", 8*k)
			kinds := []winKind{winIn}
			if typ == "Buffer" {
				kinds = append(kinds, winOver, winUnder, winBoth, "negative-count")
			}
			for _, wk := range kinds {
				wk := wk
				props := []string{"C03"}
				if wk == winIn {
					props = []string{"C02", "C05", "C18"}
				}
				cs.add(typ, o.name, fmt.Sprintf("%s/%d/%s", wk, 8*k, order), props, false, func(s *Scn) {
					n := s.newInt64("n")
					if wk == "negative-count" {
						s.assume(n.neg().addInt(-1))
					} else {
						s.assume(n)
					}
					if wk == winIn {
						s.assume(linC(sizeLim(k)).sub(n))
					}
					at, args := s.cursor(o, false)
					if wk != "negative-count" {
						s.window(wk, at, n.mul(int64(k)), s.L)
					}
					var cell ObjID
					if s.mini() {
						it := s.params()[0].Type().(*types.Pointer).Elem()
						p, id := s.outParam(it, Iface{})
						args = append([]Val{p}, args...)
						cell = id
					}
					s.run(append(args, i64v(n), s.sizeArg(int64(k)), s.endian(order))...)
					if wk == "negative-count" {
						s.refuses("C03")
						return
					}
					if wk != winIn {
						s.refuses("C03", rangeErrs(true, wk)...)
						return
					}
					s.returns("C18")
					for _, out := range s.returns("C02") {
						s.intact("C02", out, "reading")
						s.frame("C05", o, out, n.mul(int64(k)), false)
						v, ok := s.result(out, cell).(Iface)
						good := ok && v.T != nil && types.Identical(v.T, types.NewSlice(et))
						s.must("C18", good, out, "size %d yields %s, want a []%s", k, s.e.valStr(s.result(out, cell)), et)
						if !good {
							s.must("C02", false, out, "size %d yields %s, want a []%s", k, s.e.valStr(s.result(out, cell)), et)
							continue
						}
						if k == 1 {
							s.windowSlice("C02", out, v.V, at, n)
							s.windowSlice("C18", out, v.V, at, n)
							continue
						}
						s.decoded("C18", out, v.V, Slice{}, at, n, k, "any", et)
						s.decoded("C02", out, v.V, Slice{}, at, n, k, order, et)
					}
				})
			}
		}
	}
	cs.badSizes(typ, o, func(s *Scn, size Val, pick int) []Val {
		_, args := s.cursor(o, false)
		if s.mini() {
			it := s.params()[0].Type().(*types.Pointer).Elem()
			p, _ := s.outParam(it, Iface{})
			args = append([]Val{p}, args...)
		}
		return append(args, i64v(s.newInt64("n")), size, s.endian("LE"))
	})
}

// untouched requires the receiver to be exactly as before.
func (s *Scn) untouched(prop string, out Outcome) {
	if out.kind != 'p' && out.kind != 'r' {
		return
	}
	s.intact(prop, out, "contents after a refused operation")
	obss, err := s.observe(out, s.recv)
	if err != "" {
		s.must(prop, false, out, "the receiver cannot be observed: %s", err)
		return
	}
	for _, b := range obss {
		s.sameExtent(prop, out, b, "after a refused operation")
		s.lin(prop, out, b.f, b.cap, s.L, "capacity after a refused operation")
		s.lin(prop, out, b.f, b.bcap, s.L.mul(8), "bit capacity after a refused operation")
		s.lin(prop, out, b.f, b.off, s.Off, "byte cursor after a refused operation")
		s.lin(prop, out, b.f, b.boff, s.BOff, "bit cursor after a refused operation")
	}
}

/* raw bytes */

func (cs *caseSet) writeBytes(typ string, o op) {
	single := o.class == "wbyte"
	run := func(wk winKind) func(*Scn) {
		return func(s *Scn) {
			var n *Lin
			var dv Val
			var elem func(i *Lin) []Node
			if single {
				n = linConst(1)
				b := s.dataBits("data", 8)
				dv = b
				elem = func(i *Lin) []Node { return b.B }
			} else {
				n = s.newLen("n", maxAlloc)
				d := s.newSlice(byteType, "data", n)
				s.data[d.O] = true
				dv = d
				da := s.st.heap[d.O].arr
				elem = func(i *Lin) []Node { return s.e.bits(s.e.initElem(da, i).(Int)) }
			}
			at, args := s.cursor(o, false)
			s.window(wk, at, n, s.L)
			s.run(append(args, dv)...)
			if wk != winIn {
				s.refuses("C03", rangeErrs(false, wk)...)
				return
			}
			for _, out := range s.returns("C10") {
				s.written("C10", out, at, n, 1, "LE", elem)
				s.frame("C05", o, out, n, false)
			}
		}
	}
	cs.winCases(typ, o, false, "C10", run)
	if single {
		return
	}
	cs.ownData(typ, o, func(s *Scn, d Slice) []Val { return []Val{d} })
	for _, nb := range []bool{false, true} {
		cs.add(typ, o.name, fmt.Sprintf("nil-data/nilbuf=%v", nb), []string{"C10", "C05"}, nb, func(s *Scn) {
			at, args := s.cursor(o, false)
			s.window(winIn, at, linConst(0), s.L)
			s.run(append(args, s.e.zero(types.NewSlice(byteType)))...)
			for _, out := range s.returns("C10") {
				s.intact("C10", out, "writing an empty slice")
				s.frame("C05", o, out, linConst(0), false)
			}
		})
	}
}

// ownData adds the cases in which the bytes to write are a part of the buffer
// itself, for instance one that ReadBytes returned.
func (cs *caseSet) ownData(typ string, o op, mk func(s *Scn, d Slice) []Val) {
	kinds := []winKind{winIn}
	if typ == "Buffer" {
		kinds = append(kinds, winOver, winUnder, winBoth)
	}
	for _, wk := range kinds {
		wk := wk
		cs.add(typ, o.name, "own-bytes/"+string(wk), []string{"C32"}, false, func(s *Scn) {
			n := s.newLen("n", maxAlloc)
			src := s.newLen("src", maxAlloc)
			spare := s.newLen("cap(data)", maxAlloc)
			s.assume(s.L.sub(src).sub(n))
			s.assume(spare.sub(n))
			s.assume(s.C.sub(src).sub(spare))
			at, args := s.cursor(o, false)
			s.window(wk, at, n, s.L)
			s.run(append(args, mk(s, Slice{O: s.store, Off: src, Len: n, Cap: spare, Elem: byteType})...)...)
			if wk != winIn {
				s.refuses("C32", rangeErrs(false, wk)...)
				for _, out := range s.outs {
					if out.kind == 'p' {
						s.intact("C32", out, "contents after a refused write of the buffer's own bytes")
					}
				}
				return
			}
			for _, out := range s.returns("C32") {
				s.written("C32", out, at, n, 1, "LE", func(i *Lin) []Node { return s.init(src.add(i)) })
			}
		})
	}
}

// windowSlice requires v to be the window [at, at+n) of the buffer's storage.
func (s *Scn) windowSlice(prop string, out Outcome, v Val, at, n *Lin) {
	e := s.e
	r, ok := v.(Slice)
	if !ok {
		s.must(prop, false, out, "yields %s, want a window of the buffer", e.valStr(v))
		return
	}
	s.must(prop, e.entailsEq(out.st.f, r.Len.sub(n)), out, "yields %s bytes, want %s", e.linStr(r.Len), e.linStr(n))
	if e.entails(out.st.f, n.neg()) {
		return
	}
	if s.store == 0 {
		return
	}
	s.must(prop, r.O == s.store && e.entailsEq(out.st.f, r.Off.sub(at)), out, "yields %s, want the window at %s of the buffer's own storage", e.valStr(r), e.linStr(at))
}

func (cs *caseSet) readBytes(typ string, o op) {
	single := o.class == "rbyte"
	run := func(wk winKind, neg bool) func(*Scn) {
		return func(s *Scn) {
			n := linConst(1)
			at, args := s.cursor(o, false)
			var cell ObjID
			if s.mini() {
				p, id := s.outParam(types.NewSlice(byteType), s.e.zero(types.NewSlice(byteType)))
				args = append([]Val{p}, args...)
				cell = id
			}
			if !single {
				n = s.newInt64("n")
				if neg {
					s.assume(n.neg().addInt(-1))
				} else {
					s.assume(n)
				}
				args = append(args, i64v(n))
			}
			if !neg {
				s.window(wk, at, n, s.L)
			}
			s.run(args...)
			if neg {
				s.refuses("C03")
				return
			}
			if wk != winIn {
				s.refuses("C03", rangeErrs(true, wk)...)
				return
			}
			for _, out := range s.returns("C10") {
				s.intact("C10", out, "reading")
				s.frame("C05", o, out, n, false)
				v := s.result(out, cell)
				if single {
					i, ok := v.(Int)
					s.must("C10", ok && s.bitsEq(out.st.f, out.st.pc, s.e.bits(i), s.init(at)), out, "yields %s, want the byte at %s", s.e.valStr(v), s.e.linStr(at))
					continue
				}
				s.windowSlice("C10", out, v, at, n)
			}
		}
	}
	cs.winCases(typ, o, true, "C10", func(k winKind) func(*Scn) { return run(k, false) })
	if !single {
		if typ == "Buffer" {
			cs.add(typ, o.name, "negative-count", []string{"C03"}, false, run(winIn, true))
		}
		cs.add(typ, o.name, "nilbuf", []string{"C10", "C05"}, true, run(winIn, false))
	}
}

/* bits */

// bitIndex is bit (MSB first) b of byte x.
func (s *Scn) origBit(x *Lin, b int) Node { return s.init(x)[7-b] }

func (cs *caseSet) bit(typ string, o op) {
	if o.class == "rbit" && typ == "MiniBuffer" {
		cs.ownBit(typ, o)
	}
	v1set := o.class == "sbit" && cs.ver != "v3"
	datas := []string{""}
	if v1set {
		datas = []string{"0", "1", "other"}
	}
	for _, dk := range datas {
		dk := dk
		kinds := []winKind{winIn}
		if typ == "Buffer" && dk != "other" {
			kinds = append(kinds, winOver, winUnder)
		}
		for _, wk := range kinds {
			rs := []int{-1}
			if wk == winIn {
				rs = []int{0, 1, 2, 3, 4, 5, 6, 7}
			}
			for _, r := range rs {
				wk, r := wk, r
				props := []string{"C03"}
				v := string(wk)
				if wk == winIn {
					props = []string{"C07", "C05"}
					v += fmt.Sprintf("/bit%d", r)
				}
				if dk != "" {
					v += "/value=" + dk
				}
				cs.add(typ, o.name, v, props, false, func(s *Scn) {
					s.bitCase(o, wk, r, dk)
				})
			}
		}
	}
}

// ownBit adds the case in which the byte a bit is read into is a byte of the
// buffer itself.
func (cs *caseSet) ownBit(typ string, o op) {
	for r := 0; r < 8; r++ {
		r := r
		cs.add(typ, o.name, fmt.Sprintf("own-byte/bit%d", r), []string{"C32"}, false, func(s *Scn) {
			_, q, args := s.bitStart(o, winIn, r, linConst(1))
			k := s.newLen("k", maxAlloc)
			s.assume(s.L.sub(k).addInt(-1))
			s.run(append([]Val{Ptr{O: s.store, I: k}}, args...)...)
			for _, out := range s.returns("C32") {
				want := make([]Node, 8)
				want[0] = s.origBit(q, r)
				s.unchanged("C32", out, linConst(0), k, "byte before the one read into")
				s.unchanged("C32", out, k.addInt(1), s.C, "byte after the one read into")
				s.elem("C32", out, out.st.f, out.st.heap[s.store].arr, k, want, "byte read into")
			}
		})
	}
}

// bitStart makes the bit position, split into byte and bit when r >= 0.
func (s *Scn) bitStart(o op, wk winKind, r int, n *Lin) (at, q *Lin, args []Val) {
	lim := s.L.mul(8)
	if r >= 0 {
		q = s.newLen("q", maxAlloc)
		at = q.mul(8).addInt(int64(r))
		if o.next {
			// the cursor itself is 8q+r
			root := s.st.heap[s.recv]
			n := *root
			ro := s.p.roles(s.typ)
			st := root.root.(Struct)
			f := append([]Val(nil), st.F...)
			for i := range f {
				if ro[i] == "boff" {
					f[i] = i64v(at)
				}
			}
			n.root = Struct{T: st.T, F: f}
			s.st.heap[s.recv] = &n
			s.BOff = at
		} else {
			args = []Val{i64v(at)}
		}
	} else {
		at, args = s.cursor(o, true)
	}
	s.window(wk, at, n, lim)
	return
}

func (s *Scn) bitCase(o op, wk winKind, r int, dk string) {
	at, q, args := s.bitStart(o, wk, r, linConst(1))
	_ = at
	var cell ObjID
	if o.class == "rbit" && s.mini() {
		p, id := s.outParam(byteType, s.dataBits("old", 8))
		args = append([]Val{p}, args...)
		cell = id
	}
	if dk != "" {
		switch dk {
		case "0":
			args = append(args, constInt(8, false, 0))
		case "1":
			args = append(args, constInt(8, false, 1))
		default:
			d := s.dataBits("data", 8)
			hi := bFalse
			for _, n := range d.B[1:] {
				hi = s.e.b.or(hi, n)
			}
			s.st.pc = s.e.b.and(s.st.pc, hi)
			args = append(args, d)
		}
	}
	s.run(args...)
	if wk != winIn {
		s.refuses("C03", rangeErrs(o.class == "rbit", wk)...)
		return
	}
	if dk == "other" {
		s.refuses("C07", "BufferInvalidBitError")
		for _, out := range s.outs {
			s.untouched("C07", out)
		}
		return
	}
	for _, out := range s.returns("C07") {
		s.frame("C05", o, out, linConst(1), true)
		if o.class == "rbit" {
			s.intact("C07", out, "reading a bit")
			want := make([]Node, 8)
			want[0] = s.origBit(q, r)
			i, ok := s.result(out, cell).(Int)
			s.must("C07", ok && s.bitsEq(out.st.f, out.st.pc, s.e.bits(i), want), out, "yields %s, want bit %d of byte %s", s.e.valStr(s.result(out, cell)), 7-r, s.e.linStr(q))
			continue
		}
		want := append([]Node(nil), s.init(q)...)
		switch {
		case o.class == "fbit":
			want[7-r] = s.e.b.not(want[7-r])
		case o.class == "cbit" || dk == "0":
			want[7-r] = bFalse
		default:
			want[7-r] = bTrue
		}
		s.unchanged("C07", out, linConst(0), q, "byte before the addressed one")
		s.unchanged("C07", out, q.addInt(1), s.C, "byte after the addressed one")
		s.elem("C07", out, out.st.f, out.st.heap[s.store].arr, q, want, "addressed byte")
	}
}

func bitCounts() []int {
	var r []int
	for n := 0; n <= 64; n++ {
		r = append(r, n)
	}
	return r
}

func (cs *caseSet) bits(typ string, o op) {
	read := o.class == "rbits"
	if typ == "Buffer" {
		for _, wk := range []winKind{winOver, winUnder, winBoth} {
			wk := wk
			cs.add(typ, o.name, string(wk), []string{"C03"}, false, func(s *Scn) {
				n := s.newInt64("n")
				s.assume(n.addInt(-1))
				_, _, args := s.bitStart(o, wk, -1, n)
				if !read {
					args = append(args, s.dataBits("data", 64))
				}
				s.run(append(args, i64v(n))...)
				s.refuses("C03", rangeErrs(read, wk)...)
			})
		}
	}
	for _, n := range bitCounts() {
		for r := 0; r < 8; r++ {
			n, r := n, r
			cs.add(typ, o.name, fmt.Sprintf("in-range/bit%d/n=%d", r, n), []string{"C08", "C05"}, false, func(s *Scn) {
				s.bitsCase(o, r, n)
			})
		}
	}
}

func (s *Scn) bitsCase(o op, r, n int) {
	read := o.class == "rbits"
	_, q, args := s.bitStart(o, winIn, r, linConst(int64(n)))
	var cell ObjID
	var data []Node
	if read && s.mini() {
		p, id := s.outParam(types.Typ[types.Uint64], s.dataBits("old", 64))
		args = append([]Val{p}, args...)
		cell = id
	}
	if !read {
		d := s.dataBits("data", 64)
		data = d.B
		args = append(args, d)
	}
	s.run(append(args, constInt(64, true, int64(n)))...)
	for _, out := range s.returns("C08") {
		s.frame("C05", o, out, linConst(int64(n)), true)
		if read {
			s.intact("C08", out, "reading bits")
			want := make([]Node, 64)
			for i := 0; i < n; i++ {
				p := r + i
				want[n-1-i] = s.origBit(q.addInt(int64(p/8)), p%8)
			}
			v, ok := s.result(out, cell).(Int)
			s.must("C08", ok && s.bitsEq(out.st.f, out.st.pc, s.e.bits(v), want), out, "yields %s, want the %d bits from bit %d of byte %s", s.e.valStr(s.result(out, cell)), n, r, s.e.linStr(q))
			continue
		}
		nb := (r + n + 7) / 8
		a := out.st.heap[s.store].arr
		s.unchanged("C08", out, linConst(0), q, "byte before the written bits")
		s.unchanged("C08", out, q.addInt(int64(nb)), s.C, "byte after the written bits")
		for k := 0; k < nb; k++ {
			x := q.addInt(int64(k))
			want := append([]Node(nil), s.init(x)...)
			for b := 0; b < 8; b++ {
				if i := k*8 + b - r; i >= 0 && i < n {
					want[7-b] = data[n-1-i]
				}
			}
			s.elem("C08", out, out.st.f, a, x, want, fmt.Sprintf("byte %d of the written bits", k))
		}
	}
}

func (cs *caseSet) allBits(typ string, o op) {
	for _, nb := range []bool{false, true} {
		cs.add(typ, o.name, fmt.Sprintf("nilbuf=%v", nb), []string{"C09", "C05"}, nb, func(s *Scn) {
			s.run()
			for _, out := range s.returns("C09") {
				s.frame("C05", op{}, out, linConst(0), false)
				if s.store == 0 {
					continue
				}
				s.unchanged("C09", out, s.L, s.C, "byte outside the buffer")
				f, x, ok := s.idx(out.st.f, "x", linConst(0), s.L)
				if !ok {
					continue
				}
				want := make([]Node, 8)
				for i := range want {
					switch o.which {
					case "set":
						want[i] = bTrue
					case "flip":
						want[i] = s.e.b.not(s.init(x)[i])
					}
				}
				s.elem("C09", out, f, out.st.heap[s.store].arr, x, want, "byte of the buffer")
			}
		})
	}
}

/* cursors and queries */

func (cs *caseSet) seek(typ string, o op) {
	for _, rel := range []bool{false, true} {
		rel := rel
		cs.add(typ, o.name, fmt.Sprintf("relative=%v", rel), []string{"C14"}, false, func(s *Scn) {
			d := s.newInt64("d")
			cur := s.Off
			if o.which == "bit" {
				cur = s.BOff
			}
			to := d
			rb := Bool{K: 'b', N: bFalse}
			if rel {
				to = cur.add(d)
				rb.N = bTrue
				lo, hi := typeRange(64, true)
				s.assume(to.addC(lo.neg()))
				s.assume(to.neg().addC(hi))
			}
			s.run(i64v(d), rb)
			s.cursors(o, to, o.which == "bit")
		})
	}
}

// cursors requires all outcomes to set one cursor to `to` and leave the rest.
func (s *Scn) cursors(o op, to *Lin, bit bool) {
	for _, out := range s.returns("C14") {
		s.intact("C14", out, "moving a cursor")
		obss, err := s.observe(out, s.recv)
		if err != "" {
			s.must("C14", false, out, "the receiver cannot be observed: %s", err)
			continue
		}
		for _, b := range obss {
			wo, wb := s.Off, s.BOff
			if bit {
				wb = to
			} else {
				wo = to
			}
			s.lin("C14", out, b.f, b.off, wo, "byte cursor")
			s.lin("C14", out, b.f, b.boff, wb, "bit cursor")
			s.lin("C14", out, b.f, b.cap, s.L, "capacity")
			s.lin("C14", out, b.f, b.bcap, s.L.mul(8), "bit capacity")
			s.sameExtent("C14", out, b, "after moving a cursor")
		}
	}
}

func (cs *caseSet) align(typ string, o op) {
	cs.add(typ, o.name, "align", []string{"C14"}, false, func(s *Scn) {
		lim := linC(pow2(59))
		if o.which == "bit" {
			s.assume(lim.sub(s.Off))
			s.assume(lim.add(s.Off))
			s.run()
			s.cursors(o, s.Off.mul(8), true)
			return
		}
		s.assume(s.BOff)
		s.run()
		s.cursors(o, s.e.quotient(s.BOff, 8), false)
	})
}

func (cs *caseSet) after(typ string, o op) {
	for _, v := range []string{"default", "given"} {
		v := v
		cs.add(typ, o.name, v, []string{"C14"}, false, func(s *Scn) {
			lim := linC(pow2(61))
			cur, cp := s.Off, s.L
			if o.which == "bit" {
				cur, cp = s.BOff, s.L.mul(8)
			}
			it := types.Typ[types.Int64]
			var arg Val = s.e.zero(types.NewSlice(it))
			if v == "given" {
				n := s.newLen("argc", pow2(20))
				s.assume(n.addInt(-1))
				sl := s.newSlice(it, "args", n)
				s.data[sl.O] = true
				cur = s.newInt64("pos")
				ob := *s.st.heap[sl.O]
				ob.arr = ob.arr.write(&Wr{kind: 'p', idx: linConst(0), val: i64v(cur)})
				s.st.heap[sl.O] = &ob
				arg = sl
			}
			s.assume(lim.sub(cur))
			s.assume(lim.add(cur))
			var args []Val
			var cell ObjID
			if s.mini() {
				p, id := s.outParam(it, i64v(s.newInt64("old")))
				args = []Val{p}
				cell = id
			}
			s.run(append(args, arg)...)
			for _, out := range s.returns("C14") {
				r, ok := s.result(out, cell).(Int)
				if !ok {
					s.must("C14", false, out, "yields an unknown value")
					continue
				}
				s.lin("C14", out, out.st.f, s.e.lin(r), cp.sub(cur).addInt(-1), "result")
			}
			s.pure("C14")
		})
	}
}

// pure requires every outcome to leave the receiver exactly as it was.
func (s *Scn) pure(prop string) {
	for _, out := range s.outs {
		s.untouched(prop, out)
	}
}

func (cs *caseSet) get(typ string, o op) {
	cs.add(typ, o.name, "query", []string{"C14"}, false, func(s *Scn) {
		var args []Val
		var cell ObjID
		if s.mini() {
			t := s.params()[0].Type().(*types.Pointer).Elem()
			p, id := s.outParam(t, s.e.zero(t))
			args = []Val{p}
			cell = id
		}
		s.run(args...)
		for _, out := range s.returns("C14") {
			v := s.result(out, cell)
			if o.which == "buf" {
				r, ok := v.(Slice)
				s.must("C14", ok && r.O == s.store && s.e.entailsEq(out.st.f, r.Off) && s.e.entailsEq(out.st.f, r.Len.sub(s.L)), out, "yields %s, want the buffer's slice", s.e.valStr(v))
				continue
			}
			r, ok := v.(Int)
			if !ok {
				s.must("C14", false, out, "yields an unknown value")
				continue
			}
			want := map[string]*Lin{"cap": s.L, "bcap": s.L.mul(8), "off": s.Off, "boff": s.BOff}[o.which]
			s.lin("C14", out, out.st.f, s.e.lin(r), want, "result")
		}
		s.pure("C14")
	})
}

/* growing and shrinking */

func (cs *caseSet) grow(typ string, o op) {
	for _, nb := range []bool{false, true} {
		nb := nb
		cs.add(typ, o.name, fmt.Sprintf("grow/nilbuf=%v", nb), []string{"C11"}, nb, func(s *Scn) {
			n := s.newInt64("n")
			s.assume(n)
			s.assume(linC(roomy).sub(n))
			s.assume(linC(roomy).sub(s.C))
			s.run(i64v(n))
			for _, out := range s.returns("C11") {
				obss, err := s.observe(out, s.recv)
				if err != "" {
					s.must("C11", false, out, "the receiver cannot be observed: %s", err)
					continue
				}
				for _, b := range obss {
					s.lin("C11", out, b.f, b.off, s.Off, "byte cursor")
					s.lin("C11", out, b.f, b.boff, s.BOff, "bit cursor")
					s.lin("C11", out, b.f, b.buf.Len, s.L.add(n), "length")
					s.lin("C11", out, b.f, b.cap, s.L.add(n), "capacity")
					s.lin("C11", out, b.f, b.bcap, s.L.add(n).mul(8), "bit capacity")
					if b.buf.O == 0 {
						continue
					}
					a := out.st.heap[b.buf.O].arr
					if s.store != 0 {
						if f, x, ok := s.idx(b.f, "x", linConst(0), s.L); ok {
							s.elem("C11", out, f, a, b.buf.Off.add(x), s.init(x), "old byte after growing")
						}
					}
					if f, x, ok := s.idx(b.f, "y", s.L, s.L.add(n)); ok {
						s.elem("C11", out, f, a, b.buf.Off.add(x), make([]Node, 8), "added byte")
					}
					if s.store != 0 && b.buf.O != s.store {
						s.intact("C11", out, "the old storage")
					}
				}
			}
		})
	}
	if typ == "Buffer" {
		cs.add(typ, o.name, "negative", []string{"C11"}, false, func(s *Scn) {
			n := s.newInt64("n")
			s.assume(n.neg().addInt(-1))
			s.run(i64v(n))
			if s.ver == "v3" {
				s.refuses("C11", "BufferInvalidByteCountError")
			} else {
				s.refuses("C11")
			}
			s.pure("C11")
		})
	}
}

func (cs *caseSet) trunc(typ string, o op) {
	cs.add(typ, o.name, "in-range", []string{"C12"}, false, func(s *Scn) {
		n := s.newInt64("n")
		s.assume(n)
		s.assume(s.L.sub(n))
		s.run(i64v(n))
		for _, out := range s.returns("C12") {
			obss, err := s.observe(out, s.recv)
			if err != "" {
				s.must("C12", false, out, "the receiver cannot be observed: %s", err)
				continue
			}
			for _, b := range obss {
				s.lin("C12", out, b.f, b.off, s.Off, "byte cursor")
				s.lin("C12", out, b.f, b.boff, s.BOff, "bit cursor")
				s.lin("C12", out, b.f, b.buf.Len, s.L.sub(n), "length")
				s.lin("C12", out, b.f, b.cap, s.L.sub(n), "capacity")
				s.lin("C12", out, b.f, b.bcap, s.L.sub(n).mul(8), "bit capacity")
				if b.buf.O == 0 {
					s.must("C12", s.e.entailsEq(b.f, s.L.sub(n)), out, "the buffer is nil after truncation")
					continue
				}
				a := out.st.heap[b.buf.O].arr
				if f, x, ok := s.idx(b.f, "x", linConst(0), s.L.sub(n)); ok {
					src := x
					if o.which == "left" {
						src = x.add(n)
					}
					s.elem("C12", out, f, a, b.buf.Off.add(x), s.init(src), "remaining byte")
				}
			}
		}
	})
	if typ == "Buffer" {
		cs.add(typ, o.name, "negative", []string{"C12"}, false, func(s *Scn) {
			n := s.newInt64("n")
			s.assume(n.neg().addInt(-1))
			s.run(i64v(n))
			s.refuses("C12", "BufferInvalidByteCountError")
			s.pure("C12")
		})
		cs.add(typ, o.name, "excessive", []string{"C12"}, false, func(s *Scn) {
			n := s.newInt64("n")
			s.assume(n.sub(s.L).addInt(-1))
			s.run(i64v(n))
			s.refuses("C12")
			s.pure("C12")
		})
	}
}

func (cs *caseSet) reset(typ string, o op) {
	prop := "C12"
	if o.class == "refresh" {
		prop = "C06"
	}
	for _, nb := range []bool{false, true} {
		nb := nb
		cs.add(typ, o.name, fmt.Sprintf("nilbuf=%v", nb), []string{prop}, nb, func(s *Scn) {
			s.run()
			for _, out := range s.returns(prop) {
				obss, err := s.observe(out, s.recv)
				if err != "" {
					s.must(prop, false, out, "the receiver cannot be observed: %s", err)
					continue
				}
				for _, b := range obss {
					if o.class == "refresh" {
						s.sameExtent(prop, out, b, "after Refresh")
						s.intact(prop, out, "Refresh")
						s.lin(prop, out, b.f, b.off, s.Off, "byte cursor")
						s.lin(prop, out, b.f, b.boff, s.BOff, "bit cursor")
						continue
					}
					z := linConst(0)
					s.lin(prop, out, b.f, b.buf.Len, z, "length")
					s.lin(prop, out, b.f, b.cap, z, "capacity")
					s.lin(prop, out, b.f, b.bcap, z, "bit capacity")
					s.lin(prop, out, b.f, b.off, z, "byte cursor")
					s.lin(prop, out, b.f, b.boff, z, "bit cursor")
				}
			}
		})
	}
}

/* constructors */

func (cs *caseSet) newCases(typ string, tier string) {
	name := "New" + typ
	max := 4
	if tier == "thorough" {
		max = 7
	}
	for k := 0; k <= max; k++ {
		masks := []int{0}
		if k >= 1 && k <= 3 {
			for m := 1; m < 1<<uint(k); m++ {
				masks = append(masks, m)
			}
		}
		for _, m := range masks {
			k, m := k, m
			cs.add(typ, name, fmt.Sprintf("slices=%d/nil=%b", k, m), []string{"C13", "C06", "C16", "C19", "C25"}, false, func(s *Scn) {
				s.newCase(k, m)
			})
		}
	}
	// larger counts: every append moves, or every append that may stay does
	for _, k := range moreCounts(cs.p, name, max, tier) {
		for _, how := range []string{"move", "stay"} {
			k, how := k, how
			cs.add(typ, name, fmt.Sprintf("slices=%d/appends %s", k, how), []string{"C13"}, false, func(s *Scn) {
				s.e.appends = how
				s.newCase(k, 0)
			})
		}
	}
	cs.add(typ, name, "slices=nil", []string{"C13", "C06", "C16", "C19", "C25"}, false, func(s *Scn) { s.newCase(-1, 0) })
}

// moreCounts picks numbers of slices above max: some growing ones, and those
// around every integer the constructor's code mentions.
func moreCounts(p *Program, name string, max int, tier string) []int {
	ks := map[int]bool{max + 1: true, 12: true, 33: true}
	if tier == "thorough" {
		for _, k := range []int{9, 10, 11, 13, 16, 17, 24, 65} {
			ks[k] = true
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.ownFn(f) {
			return
		}
		seen[f] = true
		mention := func(n int64) {
			if n > 1 && n <= 130 {
				for d := int64(-1); d <= 1; d++ {
					ks[int(n+d)] = true
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					switch v := (*o).(type) {
					case *ssa.Const:
						if n, ok := kInt(v); ok {
							mention(n)
						}
					case *ssa.Function:
						visit(v)
					}
				}
				if v, ok := in.(ssa.Value); ok {
					// a count kept in 8 bits
					switch b, _ := v.Type().Underlying().(*types.Basic); {
					case b == nil:
					case b.Kind() == types.Int8:
						mention(128)
					case b.Kind() == types.Uint8:
						ks[256] = true
					}
				}
				if al, ok := in.(*ssa.Alloc); ok {
					if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						mention(at.Len())
					}
				}
			}
		}
	}
	visit(p.main.Func(name))
	var r []int
	for k := range ks {
		if k > max {
			r = append(r, k)
		}
	}
	sort.Ints(r)
	return r
}

func (s *Scn) newCase(k, mask int) {
	e := s.e
	bs := types.NewSlice(byteType)
	var given []Slice
	var vs Val = e.zero(types.NewSlice(bs))
	lim := roomy
	if k >= 0 {
		a := e.newArr('z', bs)
		for i := 0; i < k; i++ {
			var g Slice
			if mask>>uint(i)&1 == 1 {
				g = e.zero(bs).(Slice)
			} else {
				nm := fmt.Sprintf("s%d", i)
				n := linConst(1)
				if k <= 16 || i == 0 || i == k-1 {
					n = s.newLen("len("+nm+")", lim)
				}
				g = s.newSlice(byteType, nm, n)
				s.data[g.O] = true
			}
			given = append(given, g)
			a = a.write(&Wr{kind: 'p', idx: linConst(int64(i)), val: g})
		}
		id := e.newObj(s.st, &Obj{arr: a, n: linConst(int64(k)), typ: bs, ext: true, name: "slices"})
		s.data[id] = true
		vs = Slice{O: id, Off: linConst(0), Len: linConst(int64(k)), Cap: linConst(int64(k)), Elem: bs}
	}
	var args []Val
	var cell ObjID
	if s.mini() {
		pt := s.params()[0].Type().(*types.Pointer).Elem()
		p, id := s.outParam(pt, Ptr{})
		args = []Val{p}
		cell = id
	}
	s.run(append(args, vs)...)
	total := linConst(0)
	for _, g := range given {
		total = total.add(g.Len)
	}
	for _, out := range s.outs {
		if out.kind == 'n' {
			s.must("C25", false, out, "%s", out.msg)
		}
	}
	for _, out := range s.returns("C13") {
		s.must("C25", true, out, "")
		if s.typ == "Buffer" && s.ver != "v3" {
			s.must("C16", out.st.held == 0, out, "hands out the new buffer with its lock held")
		}
		p, ok := s.result(out, cell).(Ptr)
		if !ok || p.O == 0 {
			s.must("C13", false, out, "yields %s, want a new buffer", e.valStr(s.result(out, cell)))
			continue
		}
		s.effects(out)
		obss, err := s.observe(out, p.O)
		if err != "" {
			s.must("C13", false, out, "the new buffer cannot be observed: %s", err)
			continue
		}
		for _, b := range obss {
			z := linConst(0)
			s.lin("C13", out, b.f, b.off, z, "byte cursor of a new buffer")
			s.lin("C13", out, b.f, b.boff, z, "bit cursor of a new buffer")
			s.lin("C13", out, b.f, b.buf.Len, total, "length of the new buffer")
			s.lin("C06", out, b.f, b.cap, b.buf.Len, "capacity of the new buffer")
			s.lin("C06", out, b.f, b.bcap, b.buf.Len.mul(8), "bit capacity of the new buffer")
			if k == 1 {
				g := given[0]
				s.must("C13", b.buf.O == g.O && (g.O == 0 || e.entailsEq(b.f, b.buf.Off)), out, "the single slice is not adopted (%s)", e.valStr(b.buf))
				continue
			}
			for _, g := range given {
				s.must("C13", g.O == 0 || b.buf.O != g.O, out, "the new buffer shares storage with a given slice")
			}
			if b.buf.O == 0 {
				continue
			}
			a := out.st.heap[b.buf.O].arr
			start := z
			for i, g := range given {
				if g.O != 0 {
					if f, x, ok := s.idx(b.f, fmt.Sprintf("x%d", i), z, g.Len); ok {
						want := e.bits(e.initElem(s.st.heap[g.O].arr, x).(Int))
						s.elem("C13", out, f, a, b.buf.Off.add(start).add(x), want, fmt.Sprintf("byte from slice %d", i))
					}
				}
				start = start.add(g.Len)
			}
		}
	}
}

/* arbitrary calls: locking, atomicity, capacities, effects, termination */

type argChoice struct {
	label string
	mk    func(s *Scn) Val
}

func (cs *caseSet) argChoices(t types.Type, o op, i int, variadic bool, fn *ssa.Function) []argChoice {
	one := func(mk func(s *Scn) Val) []argChoice { return []argChoice{{"", mk}} }
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Name() == "IntegerSize" {
			var r []argChoice
			for _, k := range []int64{1, 2, 4, 8} {
				k := k
				r = append(r, argChoice{fmt.Sprintf("size%d", k), func(s *Scn) Val { return constInt(64, true, k) }})
			}
			return append(r, argChoice{"size0", func(s *Scn) Val { return constInt(64, true, 0) }},
				argChoice{"size3", func(s *Scn) Val { return constInt(64, true, 3) }},
				argChoice{"size>8", func(s *Scn) Val { return i64v(s.e.symLin(s.e.newSym("size", i128(9), i128(1<<63-1)))) }})
		}
		if u.Obj().Name() == "ByteOrder" {
			return []argChoice{
				{"LE", func(s *Scn) Val { return s.endian("LE") }},
				{"BE", func(s *Scn) Val { return s.endian("BE") }},
				{"nilorder", func(s *Scn) Val { return Iface{} }},
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Int64:
			return one(func(s *Scn) Val { return i64v(s.newInt64(fmt.Sprintf("arg%d", i))) })
		case u.Kind() == types.Uint8:
			return one(func(s *Scn) Val { return s.dataBits("arg", 8) })
		case u.Kind() == types.Uint64:
			return one(func(s *Scn) Val { return s.dataBits("arg", 64) })
		case u.Kind() == types.Bool:
			return []argChoice{{"true", func(s *Scn) Val { return Bool{K: 'b', N: bTrue} }}, {"false", func(s *Scn) Val { return Bool{K: 'b', N: bFalse} }}}
		}
	case *types.Slice:
		return []argChoice{
			{"slice", func(s *Scn) Val {
				k := int(sizes.Sizeof(u.Elem()))
				sl := s.newSlice(u.Elem(), fmt.Sprintf("arg%d", i), s.newLen("n", sizeLim(k)))
				s.data[sl.O] = true
				return sl
			}},
			{"nil", func(s *Scn) Val { return s.e.zero(t) }},
		}
	case *types.Interface:
		r := []argChoice{{"nil", func(s *Scn) Val { return Iface{} }}, {"string", func(s *Scn) Val { return Iface{T: types.Typ[types.String], V: Str{"x"}} }}}
		for _, w := range []int{8, 16, 32, 64} {
			et := elemType("U", w)
			r = append(r, argChoice{fmt.Sprintf("[]uint%d", w), func(s *Scn) Val {
				sl := s.newSlice(et, "data", s.newLen("n", sizeLim(8)))
				s.data[sl.O] = true
				return Iface{T: types.NewSlice(et), V: sl}
			}})
		}
		return r
	case *types.Pointer:
		el := u.Elem()
		if sl, ok := el.Underlying().(*types.Slice); ok {
			return one(func(s *Scn) Val {
				k := int(sizes.Sizeof(sl.Elem()))
				v := s.newSlice(sl.Elem(), "out", s.newLen("outlen", sizeLim(k)))
				s.outO[v.O] = true
				p, _ := s.outParam(el, v)
				return p
			})
		}
		return one(func(s *Scn) Val {
			var v Val
			if w, sg, ok := numType(el); ok && w != 64 || ok && !sg {
				v = s.dataBits("old", w)
			} else if ok {
				v = i64v(s.newInt64("old"))
			} else {
				v = s.e.zero(el)
			}
			p, _ := s.outParam(el, v)
			return p
		})
	}
	return one(func(s *Scn) Val { return s.e.top(t, "arg") })
}

func anyProps(ver, typ string, o op) []string {
	r := []string{"C06", "C19", "C24", "C25"}
	if typ == "Buffer" {
		r = append(r, "C04")
		if ver != "v3" {
			r = append(r, "C16")
			if o.class != "get" && o.class != "after" {
				r = append(r, "C15", "C17")
			} else {
				r = append(r, "C15")
			}
		}
	}
	if windowOp(o) {
		r = append(r, "C05")
	}
	if ver == "v3" && o.kind == "F" {
		r = append(r, "C20")
	}
	return r
}

// reads reports whether the operation only reads contents.
func (o op) reads() bool {
	switch o.class {
	case "typedR", "complexR", "rbytes", "rbyte", "rbit", "rbits":
		return true
	}
	return false
}

func windowOp(o op) bool {
	switch o.class {
	case "typedR", "typedW", "complexR", "complexW", "rbytes", "wbytes", "rbyte", "wbyte", "rbit", "rbits", "sbit", "cbit", "fbit", "sbits", "all":
		return true
	}
	return false
}

func (cs *caseSet) anyCases(typ string, o op) {
	fn := cs.p.method(typ, o.name)
	props := anyProps(cs.ver, typ, o)
	if fn == nil {
		cs.add(typ, o.name, "any", append(props, "C21"), false, func(s *Scn) {})
		return
	}
	sig := fn.Signature
	combos := [][]argChoice{nil}
	for i := 0; i < sig.Params().Len(); i++ {
		ch := cs.argChoices(sig.Params().At(i).Type(), o, i, sig.Variadic() && i == sig.Params().Len()-1, fn)
		var nx [][]argChoice
		for _, c := range combos {
			for _, x := range ch {
				nx = append(nx, append(c[:len(c):len(c)], x))
			}
		}
		combos = nx
	}
	for _, c := range combos {
		c := c
		label := "any"
		for _, x := range c {
			if x.label != "" {
				label += "/" + x.label
			}
		}
		cs.add(typ, o.name, label, props, false, func(s *Scn) {
			var args []Val
			for _, x := range c {
				args = append(args, x.mk(s))
			}
			s.run(args...)
			s.general(o)
		})
	}
}

// effects checks C19 on one outcome.
func (s *Scn) effects(out Outcome) {
	for id := range s.data {
		s.must("C19", len(s.e.tr.ext[id]) == 0, out, "modifies caller memory: %s", strings.Join(sortedKeys(s.e.tr.ext[id]), ", "))
		if s.recv != 0 {
			s.must("C19", !s.reaches(out, id), out, "the buffer keeps a reference to %s", out.st.heap[id].name)
		}
	}
	for id := range s.outO {
		if s.recv != 0 {
			s.must("C19", !s.reaches(out, id), out, "the buffer keeps a reference to an output location")
		}
	}
	var ns []string
	for n := range s.e.tr.notes {
		switch n.Kind {
		case "global-write", "go", "external":
			ns = append(ns, n.Kind+": "+n.Msg)
		}
	}
	sort.Strings(ns)
	s.must("C19", len(ns) == 0, out, "effect outside the buffer: %s", strings.Join(ns, "; "))
	var gs []string
	for g := range s.e.tr.globalReads {
		if g.Pkg == s.p.main && s.p.assigned(g) {
			gs = append(gs, g.Name())
		}
	}
	sort.Strings(gs)
	s.must("C19", len(gs) == 0, out, "reads package-level mutable state: %s", strings.Join(gs, ", "))
}

func (s *Scn) general(o op) {
	e := s.e
	s.fieldsAlone(o.class == "get" || o.class == "after" || o.reads())
	locked := s.typ == "Buffer" && s.ver != "v3"
	for _, out := range s.outs {
		switch out.kind {
		case 'n':
			s.must("C25", false, out, "%s", out.msg)
			continue
		case 'd':
			if locked {
				s.must("C16", false, out, "%s", out.msg)
			}
			s.must("C25", false, out, "blocks: %s", out.msg)
			continue
		case 'u':
			continue
		}
		s.must("C25", true, out, "")
		s.effects(out)
		if locked {
			s.must("C16", out.st.held == 0, out, "%s with the lock held", outVerb(out))
			if o.class != "get" && o.class != "after" {
				s.must("C17", out.st.nsec <= 1 && !out.st.out, out, "%s", secMsg(out))
			}
		}
		if out.kind == 'p' {
			if _, rt := out.v.(RtPanic); !rt {
				s.must("C24", len(s.errNames(out.v)) > 0, out, "panics with %s, which is none of the package's error values", e.valStr(out.v))
			}
		}
		obss, err := s.observe(out, s.recv)
		if err != "" {
			s.must("C06", false, out, "the receiver cannot be observed: %s", err)
			continue
		}
		for _, b := range obss {
			if out.kind != 'p' || s.typ == "Buffer" {
				s.lin("C06", out, b.f, b.cap, b.buf.Len, "reported capacity")
				s.lin("C06", out, b.f, b.bcap, b.buf.Len.mul(8), "reported bit capacity")
			}
			if o.class != "grow" && o.class != "trunc" && o.class != "reset" {
				s.sameExtent("C06", out, b, "after "+s.name)
			}
		}
		if s.typ == "Buffer" && out.kind == 'p' {
			s.untouched("C04", out)
		} else if s.typ == "Buffer" {
			s.must("C04", true, out, "")
		}
		if windowOp(o) && !o.next && out.kind == 'r' {
			for _, b := range obss {
				s.lin("C05", out, b.f, b.off, s.Off, "byte cursor after a positional operation")
				s.lin("C05", out, b.f, b.boff, s.BOff, "bit cursor after a positional operation")
			}
		}
	}
	if locked {
		var ks []accessKey
		for k := range e.tr.unl {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].pos+ks[i].field < ks[j].pos+ks[j].field })
		for _, k := range ks {
			verb := "reads"
			if k.write {
				verb = "writes"
			}
			s.failAt("C15", k.pos, k.fn, fmt.Sprintf("%s %s without holding the lock", verb, k.field), fmt.Sprintf("%s.%s.%s:%s:%s", s.ver, s.typ, s.name, verb, k.field))
		}
		s.obl["C15"] += len(e.tr.acc)
	}
	if s.ver == "v3" && o.kind == "F" {
		for n := range e.tr.notes {
			if n.Kind == "unsafe" {
				s.must("C20", false, Outcome{}, "%s", n.Msg)
			}
		}
		s.obl["C20"]++
	}
}

func (s *Scn) failAt(prop, pos, fn, what, key string) {
	v := Viol{Prop: prop, Case: s.id, What: what, Pos: pos, Fn: fn, Key: key}
	k := prop + what + pos
	if !s.seen[k] {
		s.seen[k] = true
		s.viol = append(s.viol, v)
	}
}

func outVerb(o Outcome) string {
	if o.kind == 'p' {
		return "panics"
	}
	return "returns"
}

func secMsg(o Outcome) string {
	if o.st.out {
		return "touches the buffer's state outside the critical section"
	}
	return "touches the buffer's state in more than one critical section"
}
