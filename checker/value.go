package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

/* ---- abstract values ---- */

type Val interface{}

// Int is a machine word (integers, and floats by bit pattern): either an
// affine expression equal to its Go value, or one boolean function per bit.
type Int struct {
	W int
	S bool
	L *Lin
	B []Node
}

// Bool is a condition: a boolean function of bits, or L>=0, L==0, L!=0.
type Bool struct {
	K byte // 'b','g','e','n'
	N Node
	L *Lin
}

type ObjID int32

// Ptr points to an object, a field path inside it, or an array element.
type Ptr struct {
	O ObjID
	F []int
	I *Lin
}

type Slice struct {
	O             ObjID
	Off, Len, Cap *Lin
	Elem          types.Type
}

type Iface struct {
	T types.Type // nil: the nil interface
	V Val
}

type Struct struct {
	T types.Type
	F []Val
}

type Func struct {
	Fn   *ssa.Function
	Bind []Val
	Blt  *ssa.Builtin
}

type Tuple []Val

type Str struct{ S string }

// ArrV is an array value (a snapshot of an array object).
type ArrV struct {
	A   *Arr
	Off *Lin
	N   int64
}

// MapV refers to a map object; its content is a MapC.
type MapV struct{ O ObjID }

// MapC is the content of a map with known keys.
type MapC struct {
	K, V []Val
	init bool // made by package initialisation
}

// Opaque is a value nothing is known about.
type Opaque struct {
	T  types.Type
	ID int
}

/* ---- heap ---- */

// Arr is the (immutable) content of an array object: an initial content plus a
// log of abstract writes, newest first.
type Arr struct {
	id   int
	init byte // 'a' symbolic initial bits, 'z' zero, 'u' unknown
	elem types.Type
	ws   *Wr
}

type Wr struct {
	prev *Wr
	n    int
	kind byte // 'p' point, 'r' strided range, 'c' copy, 'h' havoc

	idx *Lin
	val Val

	start  *Lin
	stride int64
	T      *Lin
	tmpl   *Tmpl

	len      *Lin
	src      *Arr
	srcStart *Lin
}

// Tmpl is the value a range write stores at its tv-th cell.
type Tmpl struct {
	tv   Sym
	mark Sym           // symbols >= mark (except tv) are local to the loop body
	am   int32         // atoms >= am are local unless functions of tv
	val  Val           // nil: unknown
	vers map[*Arr]bool // array contents fixed before the loop (nil: any)
}

type Obj struct {
	arr  *Arr // array objects
	n    *Lin // array length
	root Val  // other objects
	typ  types.Type
	ext  bool // existed before the analysed operation
	glob *ssa.Global
	name string
}

type State struct {
	f    Facts
	pc   Node
	heap map[ObjID]*Obj
	acq  int    // lock acquisitions so far
	held int    // 0 free, 1 held by this operation, 2.. read-held
	nsec int    // critical sections in which the receiver's state was touched
	cur  bool   // the current critical section already touched it
	out  bool   // it was touched outside any critical section
	met  uint64 // watched instructions executed so far

	panics []panicInfo
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return &n
}

type unsupported struct {
	msg string
	pos token.Pos
}

func unsup(format string, a ...interface{}) {
	panic(unsupported{msg: fmt.Sprintf(format, a...)})
}

/* ---- engine ---- */

type Engine struct {
	appends  string // "": append may move or stay; "move", "stay": only that is explored
	prog     *Program
	syms     []symInfo
	quots    map[string]Sym
	linSyms  map[string]Sym
	entCache map[string]bool
	b        *bdd
	nobj     ObjID
	narr     int
	nfresh   int
	fuel     int
	deadline time.Time
	depth    int
	recv     ObjID
	store    ObjID
	tr       *Trace
	watch    map[ssa.Instruction]uint
	arrElems map[string]Val
	elemArrs map[string]*Arr
	loopInfo map[*ssa.Function]*fnInfo
	curPos   token.Pos
	globals  map[*ssa.Global]ObjID
	stat     struct {
		entail, instr, forks, merges, loops, summar, calls int
	}
	loopNotes []string
	debug     bool
	tmplS     Sym
	lazy      int          // >0 while a loop is being summarised
	verIx     map[*Arr]int // array contents that deferred reads refer to
	vers      []*Arr
}

func newEngine(p *Program) *Engine {
	return &Engine{prog: p, watch: p.watch, quots: map[string]Sym{}, linSyms: map[string]Sym{}, entCache: map[string]bool{}, b: newBDD(),
		arrElems: map[string]Val{}, elemArrs: map[string]*Arr{}, loopInfo: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]ObjID{}, fuel: 4000000, deadline: time.Now().Add(caseTime), tr: newTrace(), verIx: map[*Arr]int{}}
}

// the platform whose integer and pointer sizes are assumed
var (
	sizes  types.Sizes = types.SizesFor("gc", "amd64")
	goarch             = "amd64"
	wordW              = 64 // bits of int, uint and uintptr
)

// onPlatform chooses the platform for the whole run.
func onPlatform(arch string) {
	sizes, goarch = types.SizesFor("gc", arch), arch
	wordW = int(sizes.Sizeof(types.Typ[types.Int])) * 8
	if wordW == 32 {
		maxAlloc = pow2(31).add(i128(-1))
		roomy = pow2(28)
	}
}

func under(t types.Type) types.Type { return t.Underlying() }

// numType describes integer and float types as machine words.
func numType(t types.Type) (w int, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch {
	case b.Info()&types.IsInteger != 0 && b.Info()&types.IsUntyped == 0:
		return int(sizes.Sizeof(b)) * 8, b.Info()&types.IsUnsigned == 0, true
	case b.Info()&types.IsFloat != 0 && b.Info()&types.IsUntyped == 0:
		return int(sizes.Sizeof(b)) * 8, false, true
	case b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune:
		return 64, true, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func typeRange(w int, s bool) (lo, hi I128) {
	if s {
		return pow2(uint(w - 1)).neg(), pow2(uint(w - 1)).add(i128(-1))
	}
	return I128{}, pow2(uint(w)).add(i128(-1))
}

func (e *Engine) newObj(st *State, o *Obj) ObjID {
	e.nobj++
	st.heap[e.nobj] = o
	return e.nobj
}

func (e *Engine) newArr(init byte, elem types.Type) *Arr {
	e.narr++
	return &Arr{id: e.narr, init: init, elem: elem}
}

func (e *Engine) freshName(p string) string {
	e.nfresh++
	return fmt.Sprintf("%s#%d", p, e.nfresh)
}

func (e *Engine) freshInt(name string, w int, s bool) Int {
	lo, hi := typeRange(w, s)
	sy := e.newSym(e.freshName(name), lo, hi)
	e.syms[sy].fresh = true
	return Int{W: w, S: s, L: e.symLin(sy)}
}

func (e *Engine) freshBits(name string, w int) []Node {
	n := e.freshName(name)
	r := make([]Node, w)
	for i := range r {
		r[i] = e.b.atom(fmt.Sprintf("f%s|%d", n, i), atomInfo{kind: 'f', bit: i, w: w, name: n})
	}
	return r
}

func (e *Engine) freshBool(name string) Bool {
	return Bool{K: 'b', N: e.freshBits(name, 1)[0]}
}

// top returns an unknown value of type t.
func (e *Engine) top(t types.Type, name string) Val {
	if w, s, ok := numType(t); ok {
		if isFloat(t) {
			return Int{W: w, B: e.freshBits(name, w)}
		}
		return e.freshInt(name, w, s)
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return e.freshBool(name)
	}
	e.nfresh++
	return Opaque{T: t, ID: e.nfresh}
}

// zero returns the zero value of type t.
func (e *Engine) zero(t types.Type) Val {
	if w, s, ok := numType(t); ok {
		return Int{W: w, S: s, L: linConst(0)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return Bool{K: 'b', N: bFalse}
		}
		if u.Info()&types.IsString != 0 {
			return Str{""}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Map:
		return MapV{}
	case *types.Slice:
		return Slice{Off: linConst(0), Len: linConst(0), Cap: linConst(0), Elem: u.Elem()}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Func{}
	case *types.Struct:
		if isMutex(t) {
			return Struct{T: t}
		}
		s := Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return ArrV{A: e.newArr('z', u.Elem()), Off: linConst(0), N: u.Len()}
	case *types.Tuple:
		var tu Tuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, e.zero(u.At(i).Type()))
		}
		return tu
	}
	return Opaque{T: t}
}

func isMutex(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if w, s, ok := numType(t); ok {
		if isFloat(t) {
			f, _ := constant.Float64Val(c.Value)
			return Int{W: w, B: e.constBits(floatBits(f, w), w)}
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Int{W: w, S: s, L: linConst(i)}
		}
		if u, ok := constant.Uint64Val(v); ok {
			return Int{W: w, S: s, L: linC(u128(u))}
		}
		unsup("constant %s", c)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return Bool{K: 'b', N: bTrue}
		}
		return Bool{K: 'b', N: bFalse}
	case constant.String:
		return Str{constant.StringVal(c.Value)}
	}
	return Opaque{T: t}
}

func (e *Engine) constBits(v uint64, w int) []Node {
	r := make([]Node, w)
	for i := range r {
		if v>>uint(i)&1 == 1 {
			r[i] = bTrue
		}
	}
	return r
}

// bits views v as one boolean function per bit.
func (e *Engine) bits(v Int) []Node {
	if v.B != nil {
		return v.B
	}
	if v.L.isConst() {
		return e.constBits(v.L.c.lo, v.W)
	}
	r := make([]Node, v.W)
	for i := range r {
		r[i] = e.b.atom(fmt.Sprintf("l%d|%d|%s", v.W, i, v.L.Key()), atomInfo{kind: 'l', lin: v.L, bit: i, w: v.W})
	}
	return r
}

// lin views v as an affine expression.
func (e *Engine) lin(v Int) *Lin {
	if v.L != nil {
		return v.L
	}
	var c uint64
	konst := true
	top := -1
	for i, n := range v.B {
		switch n {
		case bTrue:
			c |= 1 << uint(i)
			top = i
		case bFalse:
		default:
			konst = false
			top = i
		}
	}
	if konst {
		x := u128(c)
		if v.S && v.W > 0 && c>>uint(v.W-1)&1 == 1 {
			x = x.sub(pow2(uint(v.W)))
		}
		return linC(x)
	}
	// the bits of one affine value read back whole
	if l := e.bitsOfLin(v); l != nil {
		return l
	}
	k := fmt.Sprintf("%v|%v", v.S, v.B)
	if s, ok := e.linSyms[k]; ok {
		return e.symLin(s)
	}
	lo, hi := typeRange(v.W, v.S)
	if !v.S || top < v.W-1 {
		lo, hi = I128{}, pow2(uint(top+1)).add(i128(-1))
	}
	s := e.newSym(e.freshName("bits"), lo, hi)
	e.syms[s].fresh = true
	e.linSyms[k] = s
	return e.symLin(s)
}

func (e *Engine) bitsOfLin(v Int) *Lin {
	var l *Lin
	for i, n := range v.B {
		if n <= 1 {
			return nil
		}
		nd := e.b.nodes[n]
		if nd.lo != bFalse || nd.hi != bTrue {
			return nil
		}
		a := e.b.atoms[nd.v]
		if a.kind != 'l' || a.bit != i || a.w != v.W {
			return nil
		}
		if l == nil {
			l = a.lin
		} else if !l.equal(a.lin) {
			return nil
		}
	}
	return l
}

// initElem is the initial content of element x of array a.
func (e *Engine) initElem(a *Arr, x *Lin) Val {
	switch a.init {
	case 'z':
		return e.zero(a.elem)
	case 'u':
		return e.top(a.elem, "unknown")
	}
	if w, s, ok := numType(a.elem); ok {
		r := make([]Node, w)
		for i := range r {
			r[i] = e.b.atom(fmt.Sprintf("a%d|%d|%s", a.id, i, x.Key()), atomInfo{kind: 'a', arr: a.id, lin: x, bit: i, w: w})
		}
		return Int{W: w, S: s, B: r}
	}
	k := fmt.Sprintf("%d|%s", a.id, x.Key())
	if v, ok := e.arrElems[k]; ok {
		return v
	}
	v := e.top(a.elem, "elem")
	e.arrElems[k] = v
	return v
}

func (a *Arr) write(w *Wr) *Arr {
	n := *a
	w.prev = a.ws
	if a.ws != nil {
		w.n = a.ws.n + 1
	} else {
		w.n = 1
	}
	n.ws = w
	return &n
}

func (a *Arr) depth() int {
	if a.ws == nil {
		return 0
	}
	return a.ws.n
}

type rdAlt struct {
	f Facts
	v Val
}

// readArr reads element x, splitting on undecided overlaps with logged writes.
func (e *Engine) readArr(f Facts, a *Arr, x *Lin) []rdAlt {
	return e.readWr(f, a, a.ws, x)
}

// marked is a with every value ever stored replaced by an unknown one.
func (e *Engine) marked(a *Arr) *Arr {
	var ws []*Wr
	for w := a.ws; w != nil; w = w.prev {
		ws = append(ws, w)
	}
	n := *a
	n.ws = nil
	m := &n
	for i := len(ws) - 1; i >= 0; i-- {
		w := *ws[i]
		switch w.kind {
		case 'p':
			w.val = e.top(a.elem, "stored")
		case 'r':
			t := *w.tmpl
			t.val = nil
			w.tmpl = &t
		case 'c':
			w.src = e.newArr('u', a.elem)
		}
		m = m.write(&w)
	}
	return m
}

func (e *Engine) readWr(f Facts, a *Arr, w *Wr, x *Lin) []rdAlt {
	for ; w != nil; w = w.prev {
		switch w.kind {
		case 'h':
			return []rdAlt{{f, e.top(a.elem, "havoc")}}
		case 'p':
			d := x.sub(w.idx)
			if e.entailsNe(f, d) {
				continue
			}
			if e.entailsEq(f, d) {
				return e.resolve(f, w.val)
			}
			e.stat.forks++
			var out []rdAlt
			if g, ok := e.assumeEq(f, d); ok {
				out = append(out, e.resolve(g, w.val)...)
			}
			if g, ok := e.assume(f, d.addInt(-1)); ok {
				out = append(out, e.readWr(g, a, w.prev, x)...)
			}
			if g, ok := e.assume(f, d.neg().addInt(-1)); ok {
				out = append(out, e.readWr(g, a, w.prev, x)...)
			}
			return out
		case 'c':
			u := x.sub(w.start)
			if e.entails(f, u.neg().addInt(-1)) || e.entails(f, u.sub(w.len)) {
				continue
			}
			if e.entails(f, u) && e.entails(f, w.len.sub(u).addInt(-1)) {
				return e.readArr(f, w.src, w.srcStart.add(u))
			}
			e.stat.forks++
			var out []rdAlt
			if g, ok := e.assume(f, u.neg().addInt(-1)); ok {
				out = append(out, e.readWr(g, a, w.prev, x)...)
			}
			if g, ok := e.assume(f, u); ok {
				if h, ok := e.assume(g, u.sub(w.len)); ok {
					out = append(out, e.readWr(h, a, w.prev, x)...)
				}
				if h, ok := e.assume(g, w.len.sub(u).addInt(-1)); ok {
					out = append(out, e.readArr(h, w.src, w.srcStart.add(u))...)
				}
			}
			return out
		case 'r':
			// cells start+stride*t for 0 <= t < T
			if e.entails(f, w.T.neg()) {
				continue
			}
			k := w.stride
			d := x.sub(w.start)
			if k < 0 {
				d, k = d.neg(), -k
			}
			last := w.T.addInt(-1).mul(k)
			if e.entails(f, d.neg().addInt(-1)) || e.entails(f, d.sub(last).addInt(-1)) {
				continue
			}
			if g := gcd64(d.termGCD(), k); g > 1 && d.c.modFloor(g) != 0 {
				continue // never congruent
			} else if d.isConst() && d.c.modFloor(k) != 0 {
				continue
			}
			div := true
			for _, t := range d.t {
				if t.k%k != 0 {
					div = false
				}
			}
			if div {
				if d.c.modFloor(k) != 0 {
					continue
				}
				q := &Lin{c: d.c.divFloor(k)}
				for _, t := range d.t {
					q.t = append(q.t, Term{t.s, t.k / k})
				}
				in1, in2 := e.entails(f, q), e.entails(f, w.T.sub(q).addInt(-1))
				if in1 && in2 {
					return e.resolve(f, e.instTmpl(w.tmpl, q, a.elem))
				}
				e.stat.forks++
				var out []rdAlt
				if g, ok := e.assume(f, q.neg().addInt(-1)); ok {
					out = append(out, e.readWr(g, a, w.prev, x)...)
				}
				if g, ok := e.assume(f, q.sub(w.T)); ok {
					out = append(out, e.readWr(g, a, w.prev, x)...)
				}
				if g, ok := e.assume(f, q); ok {
					if h, ok := e.assume(g, w.T.sub(q).addInt(-1)); ok {
						out = append(out, e.resolve(h, e.instTmpl(w.tmpl, q, a.elem))...)
					}
				}
				return out
			}
			e.stat.forks++
			var out []rdAlt
			if g, ok := e.assume(f, d.neg().addInt(-1)); ok {
				out = append(out, e.readWr(g, a, w.prev, x)...)
			}
			if g, ok := e.assume(f, d.sub(last).addInt(-1)); ok {
				out = append(out, e.readWr(g, a, w.prev, x)...)
			}
			if g, ok := e.assume(f, d); ok {
				if h, ok := e.assume(g, last.sub(d)); ok {
					// the cells between two of these are told apart by the
					// remainder of the distance without its constant, which
					// writes of one period share
					base := d.addC(d.c.neg())
					q0 := e.quotient(base, k)
					r0 := linComb(1, base, -k, q0)
					c0, _ := linC(d.c).constVal()
					rho := (-c0)%k + k
					rho %= k
					r := r0.addInt(-rho)
					if i, ok := e.assumeEq(h, r); ok {
						out = append(out, e.resolve(i, e.instTmpl(w.tmpl, q0.addInt((rho+c0)/k), a.elem))...)
					}
					if i, ok := e.assume(h, r.addInt(-1)); ok {
						out = append(out, e.readWr(i, a, w.prev, x)...)
					}
					if i, ok := e.assume(h, r.neg().addInt(-1)); ok {
						out = append(out, e.readWr(i, a, w.prev, x)...)
					}
				}
			}
			return out
		}
	}
	return []rdAlt{{f, e.initElem(a, x)}}
}

// lazyRead is the content of a at x as one value, to be looked up later.
func (e *Engine) lazyRead(a *Arr, x *Lin) (Val, bool) {
	w, sg, ok := numType(a.elem)
	if !ok {
		return nil, false
	}
	v, ok := e.verIx[a]
	if !ok {
		v = len(e.vers)
		e.vers = append(e.vers, a)
		e.verIx[a] = v
	}
	r := make([]Node, w)
	for i := range r {
		r[i] = e.b.atom(fmt.Sprintf("v%d|%d|%s", v, i, x.Key()), atomInfo{kind: 'v', arr: v, lin: x, bit: i, w: w})
	}
	return Int{W: w, S: sg, B: r}, true
}

// resolve looks deferred reads up, splitting where the cell depends on the case.
func (e *Engine) resolve(f Facts, v Val) []rdAlt {
	x, ok := v.(Int)
	if !ok || x.B == nil || len(e.vers) == 0 || e.lazy > 0 {
		return []rdAlt{{f, v}}
	}
	sup := map[int32]bool{}
	seen := map[Node]bool{}
	for _, n := range x.B {
		e.b.support(n, seen, sup)
	}
	first := int32(-1)
	for a := range sup {
		if e.b.atoms[a].kind == 'v' && (first < 0 || a < first) {
			first = a
		}
	}
	if first < 0 {
		return []rdAlt{{f, v}}
	}
	ai := e.b.atoms[first]
	var out []rdAlt
	for _, r := range e.readArr(f, e.vers[ai.arr], ai.lin) {
		ri, ok := r.v.(Int)
		if !ok {
			return []rdAlt{{f, v}}
		}
		rb := e.bits(ri)
		memo := map[Node]Node{}
		nb := make([]Node, len(x.B))
		for i, n := range x.B {
			nb[i] = e.b.rename(n, func(a int32) Node {
				y := e.b.atoms[a]
				if y.kind == 'v' && y.arr == ai.arr && y.lin.equal(ai.lin) {
					return rb[y.bit]
				}
				return e.b.mk(a, bFalse, bTrue)
			}, memo)
		}
		out = append(out, e.resolve(r.f, Int{W: x.W, S: x.S, B: nb})...)
	}
	return out
}

func (e *Engine) assumeEq(f Facts, l *Lin) (Facts, bool) {
	if len(l.t) == 0 {
		return f, l.c.sign() == 0
	}
	if g := l.termGCD(); g > 1 && l.c.modFloor(g) != 0 {
		return f, false
	}
	f, ok := e.assume(f, l)
	if !ok {
		return f, false
	}
	return e.assume(f, l.neg())
}

// instTmpl instantiates a range-write template at cell number q.
func (e *Engine) instTmpl(t *Tmpl, q *Lin, elem types.Type) Val {
	if t.val == nil {
		return e.top(elem, "range")
	}
	v, ok := e.substVal(t.val, t, q)
	if !ok {
		return e.top(elem, "range")
	}
	return v
}

func (e *Engine) substVal(v Val, t *Tmpl, q *Lin) (Val, bool) {
	m := map[Sym]*Lin{t.tv: q}
	allow := map[Sym]bool{t.tv: true}
	switch x := v.(type) {
	case Int:
		if x.L != nil {
			if e.dependsOnSymsFrom(x.L, t.mark, allow) {
				return nil, false
			}
			return Int{W: x.W, S: x.S, L: e.substLin(x.L, m)}, true
		}
		ok := true
		memo := map[Node]Node{}
		ren := func(a int32) Node {
			ai := e.b.atoms[a]
			id := func() Node { return e.b.mk(a, bFalse, bTrue) }
			if ai.lin == nil {
				if a >= t.am {
					ok = false
				}
				return id()
			}
			if e.dependsOnSymsFrom(ai.lin, t.mark, allow) || ai.kind == 'v' && t.vers != nil && !t.vers[e.vers[ai.arr]] {
				ok = false
				return id()
			}
			l := e.substLin(ai.lin, m)
			if l == ai.lin {
				return id()
			}
			ai.lin = l
			if ai.kind == 'a' || ai.kind == 'v' {
				return e.b.atom(fmt.Sprintf("%c%d|%d|%s", ai.kind, ai.arr, ai.bit, l.Key()), ai)
			}
			if l.isConst() {
				return e.constBits(l.c.lo, ai.w)[ai.bit]
			}
			return e.b.atom(fmt.Sprintf("l%d|%d|%s", ai.w, ai.bit, l.Key()), ai)
		}
		r := make([]Node, len(x.B))
		for i, n := range x.B {
			r[i] = e.b.rename(n, ren, memo)
		}
		return Int{W: x.W, S: x.S, B: r}, ok
	}
	return nil, false
}

func (e *Engine) valStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case Int:
		if x.L != nil {
			return e.linStr(x.L)
		}
		if l := e.lin(x); l.isConst() {
			return l.c.String()
		}
		return "bits{" + e.bitsStr(x.B) + "}"
	case Bool:
		switch x.K {
		case 'b':
			return "cond{" + e.nodeStr(x.N, 0) + "}"
		case 'g':
			return e.linStr(x.L) + ">=0"
		case 'e':
			return e.linStr(x.L) + "==0"
		}
		return e.linStr(x.L) + "!=0"
	case Ptr:
		if x.O == 0 {
			return "nil"
		}
		s := fmt.Sprintf("&o%d", x.O)
		for _, f := range x.F {
			s += fmt.Sprintf(".%d", f)
		}
		if x.I != nil {
			s += "[" + e.linStr(x.I) + "]"
		}
		return s
	case Slice:
		return fmt.Sprintf("o%d[%s:+%s:cap %s]", x.O, e.linStr(x.Off), e.linStr(x.Len), e.linStr(x.Cap))
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.T, e.valStr(x.V))
	case Struct:
		var p []string
		for _, f := range x.F {
			p = append(p, e.valStr(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case Str:
		return fmt.Sprintf("%q", x.S)
	case Tuple:
		var p []string
		for _, f := range x {
			p = append(p, e.valStr(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case Opaque:
		return "?"
	}
	return fmt.Sprintf("%T", v)
}

func (e *Engine) bitsStr(b []Node) string {
	var p []string
	for i := len(b) - 1; i >= 0; i-- {
		p = append(p, e.nodeStr(b[i], 0))
	}
	// run-length: long zero prefixes are common
	z := 0
	for z < len(p) && p[z] == "0" {
		z++
	}
	if z > 4 {
		p = append([]string{fmt.Sprintf("0*%d", z)}, p[z:]...)
	}
	return strings.Join(p, " ")
}

func (e *Engine) atomStr(a int32) string {
	ai := e.b.atoms[a]
	switch ai.kind {
	case 'a':
		return fmt.Sprintf("%s[%s].%d", e.tr.arrName(ai.arr), e.linStr(ai.lin), ai.bit)
	case 'v':
		return fmt.Sprintf("now(%s)[%s].%d", e.tr.arrName(e.vers[ai.arr].id), e.linStr(ai.lin), ai.bit)
	case 'l':
		return fmt.Sprintf("(%s).%d", e.linStr(ai.lin), ai.bit)
	}
	return fmt.Sprintf("%s.%d", ai.name, ai.bit)
}

func (e *Engine) nodeStr(n Node, d int) string {
	switch n {
	case bFalse:
		return "0"
	case bTrue:
		return "1"
	}
	nd := e.b.nodes[n]
	if nd.lo == bFalse && nd.hi == bTrue {
		return e.atomStr(nd.v)
	}
	if nd.lo == bTrue && nd.hi == bFalse {
		return "!" + e.atomStr(nd.v)
	}
	if d > 2 {
		return "..."
	}
	return fmt.Sprintf("(%s?%s:%s)", e.atomStr(nd.v), e.nodeStr(nd.hi, d+1), e.nodeStr(nd.lo, d+1))
}
