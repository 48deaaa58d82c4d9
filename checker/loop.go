package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A loop is analysed in one of two ways.
//
//   - When every test that leaves it is decided by constants (a fixed number of
//     rounds), its rounds are analysed one after the other.
//   - Otherwise it is summarised: the values carried from round to round are
//     found by havocking them, those that advance by a constant are written
//     init+delta*t, linear facts that hold on every back edge become invariants
//     (checked at entry and for preservation), and writes to arrays become
//     regions {start+stride*u : 0 <= u < t}. The summary is accepted only when
//     one round started at an arbitrary t re-establishes it for t+1.
//
// Whatever cannot be kept is weakened to "unknown", so a summary always covers
// all executions.

const (
	maxPeel  = 3000
	maxSplit = 5
)

func (e *Engine) runLoop(s stop, l *loop, stops stopSet, res *result) {
	e.stat.loops++
	e.peel(s, l, stops, res, 0)
}

// leave continues a state that has left the loop.
func (e *Engine) leave(s stop, stops stopSet, res *result) {
	if stops[s.blk] {
		res.stops = append(res.stops, s)
		return
	}
	e.enter(s, stops, res)
}

// round analyses one round of l starting at its head with the phis set.
func (e *Engine) round(c Conf, l *loop, stops stopSet) (back, exits []stop, outs []Outcome) {
	st := stops.with(l.head)
	for b := range l.exits {
		st[b] = true
	}
	r := &result{}
	n := 0
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	e.runBlock(c, l.head, n, st, r)
	for _, x := range r.stops {
		if x.blk == l.head && x.from != nil && l.blocks[x.from] {
			back = append(back, x)
		} else {
			exits = append(exits, x)
		}
	}
	return back, exits, r.outs
}

func (s stop) cloneStop() stop {
	s.c = s.c.clone()
	s.phis = append([]Val(nil), s.phis...)
	return s
}

func (e *Engine) peel(s stop, l *loop, stops stopSet, res *result, n int) {
	if n > maxPeel {
		e.bail(s.c, res, e.curPos, "loop with more than %d rounds", maxPeel)
		return
	}
	hit := false
	old := e.tr
	tr := old.fork()
	tr.exitTest = append(tr.exitTest[:len(tr.exitTest):len(tr.exitTest)], exitTest{s.c.fr.fi, l, &hit})
	e.tr = tr
	back, exits, outs := e.round(s.c.clone(), l, stops)
	e.tr = old
	if hit {
		e.summarise(s, l, stops, res, 0)
		return
	}
	old.merge(tr)
	res.outs = append(res.outs, outs...)
	for _, x := range exits {
		e.leave(x, stops, res)
	}
	for _, x := range back {
		setPhis(x.c, x.blk, x.phis)
		e.peel(x, l, stops, res, n+1)
	}
}

// lcell is one piece of state carried around a loop.
type lcell struct {
	phi   int // phi number, or -1
	obj   ObjID
	path  []int
	init  Val
	keep  bool // assumed unchanged
	lost  bool // unknown after the first round
	still bool // seen to move to other storage
	bits  bool // better havocked bit by bit
	typ   types.Type
	iv    []bool
	delta []int64
	mono  []int  // direction of the leaves that advance by varying amounts
	cur   Val    // value at the head in the current run
	syms  []*Lin // havocked leaves of the current run
}

func (lc *lcell) name() string {
	if lc.phi >= 0 {
		return fmt.Sprintf("phi%d", lc.phi)
	}
	return fmt.Sprintf("o%d%v", lc.obj, lc.path)
}

func leafCount(v Val) int {
	switch x := v.(type) {
	case Int:
		return 1
	case Slice:
		if x.O == 0 {
			return 0
		}
		return 3
	case Ptr:
		if x.I != nil {
			return 1
		}
	}
	return 0
}

// leaf returns the affine leaves of v (nil where v is only known by bits).
func leaves(v Val) []*Lin {
	switch x := v.(type) {
	case Int:
		if x.B != nil {
			return []*Lin{nil}
		}
		return []*Lin{x.L}
	case Slice:
		if x.O == 0 {
			return nil
		}
		return []*Lin{x.Off, x.Len, x.Cap}
	case Ptr:
		if x.I != nil {
			return []*Lin{x.I}
		}
	}
	return nil
}

func withLeaves(v Val, ls []*Lin) Val {
	switch x := v.(type) {
	case Int:
		return Int{W: x.W, S: x.S, L: ls[0]}
	case Slice:
		x.Off, x.Len, x.Cap = ls[0], ls[1], ls[2]
		return x
	case Ptr:
		x.I = ls[0]
		return x
	}
	return v
}

// sameShape: b can be described by new leaves for a.
func sameShape(a, b Val) bool {
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		return ok && x.W == y.W && x.S == y.S
	case Slice:
		y, ok := b.(Slice)
		return ok && x.O == y.O && x.O != 0
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.O != y.O || x.I == nil || y.I == nil || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if x.F[i] != y.F[i] {
				return false
			}
		}
		return true
	}
	return false
}

type arrModel struct {
	sites []arrSite
	known bool // sites describe all writes; otherwise havoc
	dead  bool // described differently from round to round
	stage int
}

type arrSite struct {
	start  *Lin
	stride int64
	val    Val
}

type summary struct {
	e      *Engine
	s      stop
	l      *loop
	stops  stopSet
	cells  []*lcell
	arrs   map[ObjID]*arrModel
	mark   Sym
	am     int32
	st0    *State
	nphi   int
	held   int
	nsec   int
	curTch bool
	out    bool
	met    uint64
	vers   map[*Arr]bool
	passB  bool
}

func (e *Engine) summarise(s stop, l *loop, stops stopSet, res *result, depth int) {
	m := &summary{e: e, s: s, l: l, stops: stops, arrs: map[ObjID]*arrModel{}, mark: Sym(len(e.syms)), am: int32(len(e.b.atoms)), st0: s.c.st}
	m.nsec, m.curTch, m.out, m.held = s.c.st.nsec, s.c.st.cur, s.c.st.out, s.c.st.held
	m.met = s.c.st.met
	for i, v := range s.phis {
		ph := l.head.Instrs[i].(*ssa.Phi)
		m.addCell(&lcell{phi: i, init: v, typ: ph.Type()})
	}
	m.nphi = len(s.phis)
	m.vers = map[*Arr]bool{}
	for _, o := range m.st0.heap {
		if o.arr != nil {
			m.vers[o.arr] = true
		}
	}
	old := e.tr
	defer func() { e.tr = old }()

	// pass A: what changes, and by how much
	var back []stop
	for n := 0; ; n++ {
		if n > 12 {
			e.tr = old
			e.bail(s.c, res, e.curPos, "loop state does not stabilise")
			return
		}
		e.tr = old.fork()
		c, base := m.headA()
		var dummy []Outcome
		e.lazy++
		back, _, dummy = e.round(c.clone(), l, stops)
		e.lazy--
		_ = dummy
		if !m.grow(c, back) {
			if k := m.settled(back); len(k) > 0 || len(back) == 0 {
				back = k
			} else {
				for _, lc := range m.cells {
					for _, b := range back {
						lc.still = lc.still || m.moved(lc, m.nextVal(lc, b))
					}
				}
				continue
			}
			m.deltas(back)
			_ = base
			break
		}
	}
	m.passB = true
	if len(back) == 0 {
		// the body never comes back: one round is all there is
		e.tr = old
		bk, exits, outs := e.round(s.c, l, stops)
		res.outs = append(res.outs, outs...)
		for _, x := range exits {
			e.leave(x, stops, res)
		}
		for _, x := range bk {
			if depth > 2*maxSplit {
				e.bail(x.c, res, e.curPos, "loop analysis does not settle")
				continue
			}
			setPhis(x.c, x.blk, x.phis)
			e.summarise(x, l, stops, res, depth+1)
		}
		return
	}
	cands := m.candidates(back)
	m.monotone(back)

	// candidates that hold at entry only for some inputs split the entry state
	invs := m.conserved(back)
	for _, cd := range cands {
		g := cd.l
		g0 := m.atEntry(g)
		if g0 == nil {
			continue
		}
		if e.entails(m.st0.f, g0) {
			invs = append(invs, g)
			continue
		}
		if depth >= maxSplit || e.hasQuot(g0) {
			continue
		}
		fa, okA := e.assume(m.st0.f, g0)
		fb, okB := e.assume(m.st0.f, g0.neg().addInt(-1))
		if !okB {
			invs = append(invs, g)
			continue
		}
		if !okA && !cd.inc {
			continue
		}
		e.tr = old
		if okA {
			e.stat.forks++
			sa := s.cloneStop()
			sa.c.st.f = fa
			e.summarise(sa, l, stops, res, depth+1)
		}
		// on the other side the loop usually ends at once
		sb := s.cloneStop()
		sb.c.st.f = fb
		bk, exits, outs := e.round(sb.c, l, stops)
		res.outs = append(res.outs, outs...)
		for _, x := range exits {
			e.leave(x, stops, res)
		}
		for _, x := range bk {
			setPhis(x.c, x.blk, x.phis)
			e.summarise(x, l, stops, res, depth+1)
		}
		return
	}

	// pass B: one round at an arbitrary t
	for n := 0; ; n++ {
		if n > 40 {
			e.tr = old
			e.bail(s.c, res, e.curPos, "loop summary does not stabilise")
			return
		}
		tr := old.fork()
		e.tr = tr
		c, t, tl, nrange := m.headB(invs)
		if debugLoop {
			fmt.Printf("loop %s pass B %d\n", l.head, n)
			for _, lc := range m.cells {
				fmt.Printf("   %s init=%s cur=%s iv=%v delta=%v\n", lc.name(), e.valStr(lc.init), e.valStr(lc.cur), lc.iv, lc.delta)
			}
			for _, g := range invs {
				fmt.Printf("   inv %s\n", e.linStr(g))
			}
			for id, a := range m.arrs {
				fmt.Printf("   arr o%d known=%v", id, a.known)
				for _, s := range a.sites {
					fmt.Printf(" [%s + %d t]=%s", e.linStr(s.start), s.stride, e.valStr(s.val))
				}
				fmt.Println()
			}
		}
		e.lazy++
		back, exits, outs := e.round(c.clone(), l, stops)
		e.lazy--
		ok, msg := m.verify(c, back, t, tl, &invs)
		if msg != "" {
			e.tr = old
			e.bail(s.c, res, e.curPos, "%s", msg)
			return
		}
		if !ok {
			continue
		}
		e.tr = old
		old.merge(tr)
		e.stat.summar++
		for _, b := range back {
			if !m.ranked(b, t, len(m.st0.f.ls)+nrange) {
				if debugLoop {
					fmt.Println("   NOT RANKED")
					for _, f := range b.c.st.f.ls {
						fmt.Println("      ", e.linStr(f))
					}
				}
				res.outs = append(res.outs, Outcome{kind: 'n', st: b.c.st, msg: "no bound on the number of rounds of the loop", pos: loopPos(l), fn: s.c.fr.fi.fn.String()})
				break
			}
		}
		res.outs = append(res.outs, outs...)
		for _, x := range exits {
			e.leave(x, stops, res)
		}
		return
	}
}

var debugLoop = false

func (m *summary) addCell(lc *lcell) {
	switch x := lc.init.(type) {
	case Int:
		lc.iv = []bool{false}
		lc.delta = []int64{0}
		lc.bits = x.B != nil
	case Slice:
		if x.O == 0 {
			lc.keep = true
			break
		}
		lc.iv = make([]bool, 3)
		lc.delta = make([]int64, 3)
	case Ptr:
		if x.I == nil {
			lc.keep = true
			break
		}
		lc.iv = []bool{false}
		lc.delta = []int64{0}
	case Bool:
	default:
		lc.keep = true
	}
	m.cells = append(m.cells, lc)
}

// havoc gives cell lc an arbitrary value.
func (m *summary) havoc(c Conf, lc *lcell) (Val, []*Lin) {
	e := m.e
	if lc.lost {
		e.nfresh++
		return Opaque{T: lc.typ, ID: e.nfresh}, nil
	}
	if lc.keep {
		return lc.init, nil
	}
	switch x := lc.init.(type) {
	case Int:
		if lc.bits {
			return Int{W: x.W, S: x.S, B: e.freshBits("carried", x.W)}, nil
		}
		v := e.freshInt("carried", x.W, x.S)
		return v, []*Lin{v.L}
	case Slice:
		o := c.st.heap[x.O]
		lim := maxAlloc
		mk := func(n string) *Lin {
			s := e.newSym(e.freshName(n), I128{}, lim)
			e.syms[s].fresh = true
			return e.symLin(s)
		}
		off, ln, cp := mk("off"), mk("len"), mk("cap")
		f, ok := e.assume(c.st.f, cp.sub(ln))
		if ok && o != nil && o.n != nil {
			f, ok = e.assume(f, o.n.sub(off).sub(cp))
		}
		if ok {
			c.st.f = f
		}
		x.Off, x.Len, x.Cap = off, ln, cp
		return x, []*Lin{off, ln, cp}
	case Ptr:
		v := e.freshInt("idx", wordW, true)
		x.I = v.L
		return x, []*Lin{v.L}
	case Bool:
		return e.freshBool("carried"), nil
	}
	return lc.init, nil
}

func (m *summary) put(c Conf, lc *lcell, v Val) {
	if lc.phi >= 0 {
		c.set(m.l.head.Instrs[lc.phi].(*ssa.Phi), v)
		return
	}
	o := *c.st.heap[lc.obj]
	o.root = setPath(o.root, lc.path, v)
	c.st.heap[lc.obj] = &o
}

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s := v.(Struct)
	r := Struct{T: s.T, F: append([]Val(nil), s.F...)}
	r.F[path[0]] = setPath(s.F[path[0]], path[1:], x)
	return r
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(Struct)
		if !ok || i >= len(s.F) {
			return nil
		}
		v = s.F[i]
	}
	return v
}

func (m *summary) locks(c Conf) {
	c.st.nsec, c.st.cur, c.st.out = m.nsec, m.curTch, m.out
	c.st.met = m.met
}

func (m *summary) headA() (Conf, int) {
	c := m.s.c.clone()
	for _, lc := range m.cells {
		lc.cur, lc.syms = m.havoc(c, lc)
		m.put(c, lc, lc.cur)
	}
	for id := range m.arrs {
		o := *c.st.heap[id]
		o.arr = o.arr.write(&Wr{kind: 'h'})
		c.st.heap[id] = &o
	}
	m.locks(c)
	return c, len(c.st.f.ls)
}

// grow adds state found to change; it reports whether anything was added.
func (m *summary) grow(c Conf, back []stop) bool {
	ch := false
	for _, b := range back {
		st := b.c.st
		if st.nsec > m.nsec && m.nsec < 1<<30 {
			ch = true
			if m.nsec = st.nsec; m.nsec > m.st0.nsec+2 {
				m.nsec = 1 << 30
			}
		}
		if st.cur && !m.curTch {
			m.curTch = true
			ch = true
		}
		if st.met&^m.met != 0 {
			m.met |= st.met
			ch = true
		}
		if st.out && !m.out {
			m.out = true
			ch = true
		}
		// phis
		for i, v := range b.phis {
			lc := m.cells[i]
			if m.check(lc, v) {
				ch = true
			}
		}
		// heap
		var ids []ObjID
		for id := range m.st0.heap {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			o1, o2 := c.st.heap[id], st.heap[id]
			if o1 == o2 {
				continue
			}
			if o1.arr != nil {
				if o1.arr != o2.arr && m.arrs[id] == nil {
					m.arrs[id] = &arrModel{}
					ch = true
				}
				continue
			}
			if m.diff(id, nil, o1.root, o2.root, o1.typ) {
				ch = true
			}
		}
	}
	return ch
}

// check weakens cell lc when its next value v is outside its description.
func (m *summary) check(lc *lcell, v Val) bool {
	e := m.e
	if lc.lost {
		return false
	}
	if v == nil {
		lc.lost = true
		return true
	}
	if lc.keep {
		if e.sameVal(lc.init, v) {
			return false
		}
		lc.keep, lc.lost = false, true
		return true
	}
	switch x := v.(type) {
	case Bool:
		return false
	case Int:
		if x.B != nil && !lc.bits && !anyConst(x) {
			if _, ok := lc.init.(Int); ok {
				lc.bits = true
				return true
			}
		}
	}
	if !sameShape(lc.init, v) {
		if m.moved(lc, v) {
			if !m.passB {
				return false
			}
			lc.still = true
		}
		lc.lost = true
		return true
	}
	return false
}

// moved: the next value of the slice in lc lies in other storage (append had to
// relocate it). That is assumed not to happen until a round of pass B shows it.
func (m *summary) moved(lc *lcell, v Val) bool {
	x, ok1 := lc.init.(Slice)
	y, ok2 := v.(Slice)
	return ok1 && ok2 && x.O != 0 && y.O != x.O && !lc.still && !lc.lost && !lc.keep
}

// settled leaves out the back edges on which a slice has moved.
func (m *summary) settled(back []stop) (r []stop) {
	for _, b := range back {
		any := false
		for _, lc := range m.cells {
			any = any || m.moved(lc, m.nextVal(lc, b))
		}
		if !any {
			r = append(r, b)
		}
	}
	return r
}

func anyConst(x Int) bool {
	for _, n := range x.B {
		if n > 1 {
			return false
		}
	}
	return true
}

// diff registers the leaves of an object that a round changes.
func (m *summary) diff(id ObjID, path []int, a, b Val, t types.Type) bool {
	if m.e.sameVal(a, b) {
		return false
	}
	for _, lc := range m.cells {
		if lc.phi < 0 && lc.obj == id && samePath(lc.path, path) {
			return m.check(lc, b)
		}
	}
	sa, ok1 := a.(Struct)
	sb, ok2 := b.(Struct)
	if ok1 && ok2 && len(sa.F) == len(sb.F) {
		ch := false
		for i := range sa.F {
			var ft types.Type
			if st, ok := under(t).(*types.Struct); ok {
				ft = st.Field(i).Type()
			}
			if m.diff(id, append(path[:len(path):len(path)], i), sa.F[i], sb.F[i], ft) {
				ch = true
			}
		}
		return ch
	}
	lc := &lcell{phi: -1, obj: id, path: path, init: getPath(m.st0.heap[id].root, path), typ: t}
	m.addCell(lc)
	m.check(lc, b)
	return true
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *summary) nextVal(lc *lcell, b stop) Val {
	if lc.phi >= 0 {
		return b.phis[lc.phi]
	}
	return getPath(b.c.st.heap[lc.obj].root, lc.path)
}

// deltas proposes a constant step for every affine leaf.
func (m *summary) deltas(back []stop) {
	for _, lc := range m.cells {
		if lc.keep || lc.lost || lc.syms == nil {
			continue
		}
		ini := leaves(lc.init)
		for k := range lc.syms {
			if ini[k] == nil {
				continue
			}
			for _, b := range back {
				nx := leaves(m.nextVal(lc, b))
				if len(nx) != len(lc.syms) || nx[k] == nil {
					continue
				}
				d := nx[k].sub(lc.syms[k])
				c, ok := d.constVal()
				if !ok || c > 1<<40 || c < -(1<<40) {
					continue
				}
				if !lc.iv[k] || abs64(c) < abs64(lc.delta[k]) {
					lc.iv[k], lc.delta[k] = true, c
				}
			}
		}
	}
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// candidates turns facts known on back edges into facts about the head, written
// over the havocked symbols of pass A.
type cand struct {
	l   *Lin
	inc bool
}

func (m *summary) candidates(back []stop) []cand {
	e := m.e
	sub := map[Sym]*Lin{}
	allow := map[Sym]bool{}
	for _, lc := range m.cells {
		for k, l := range lc.syms {
			if lc.iv[k] {
				s := l.t[0].s
				sub[s] = l.addInt(-lc.delta[k])
				allow[s] = true
			}
		}
	}
	seen := map[string]bool{}
	var out []cand
	n0 := len(m.st0.f.ls)
outer:
	for _, b := range back {
		for _, lc := range m.cells {
			nx := leaves(m.nextVal(lc, b))
			for k, l := range lc.syms {
				if !lc.iv[k] {
					continue
				}
				if len(nx) != len(lc.syms) || nx[k] == nil {
					continue outer
				}
				if c, ok := nx[k].sub(l).constVal(); !ok || c != lc.delta[k] {
					continue outer
				}
			}
		}
		fs := b.c.st.f.ls
		if len(fs) < n0 {
			continue
		}
		for _, f := range fs[n0:] {
			if e.dependsOnSymsFrom(f, m.mark, allow) {
				continue
			}
			has := false
			for s := range allow {
				if e.linDepends(f, s) {
					has = true
				}
			}
			if !has {
				continue
			}
			// what holds on a back edge held of the previous head; a fact that
			// only grows may be taken unshifted (its first instance is the
			// strongest)
			g := e.substLin(f, sub)
			inc := false
			if grow := g.sub(f); grow.isConst() && grow.c.sign() < 0 {
				g, inc = f, true
			}
			if k := g.Key(); !seen[k] {
				seen[k] = true
				out = append(out, cand{g, inc})
			}
		}
	}
	// facts about leaves that advance by varying amounts: kept, possibly
	// weakened by one, when a round preserves them
	vs := m.varying()
	if len(vs) == 0 || len(vs) > 6 {
		return out
	}
	any := map[Sym]bool{}
	for s := range allow {
		any[s] = true
	}
	for _, v := range vs {
		any[v.s.t[0].s] = true
	}
	for _, b := range back {
		fs := b.c.st.f.ls
		if len(fs) < n0 {
			continue
		}
		for _, f := range fs[n0:] {
			if e.hasQuot(f) || e.dependsOnSymsFrom(f, m.mark, any) {
				continue
			}
			has := false
			for _, v := range vs {
				has = has || e.linDepends(f, v.s.t[0].s)
			}
			if !has {
				continue
			}
			for _, b2 := range back {
				has = has && e.entails(b2.c.st.f, f)
			}
			if !has {
				continue
			}
			for _, g := range []*Lin{f, f.addInt(1)} {
				if k := g.Key(); seen[k] {
					continue
				} else {
					seen[k] = true
				}
				ok := true
				for _, b2 := range back {
					n := m.atNext(g, b2)
					if n == nil {
						ok = false
						break
					}
					fb, sat := e.assume(b2.c.st.f, g)
					if sat && !e.entails(fb, n) {
						ok = false
						break
					}
				}
				if ok {
					out = append(out, cand{g, true})
					break
				}
			}
		}
	}
	return out
}

func (e *Engine) linDepends(l *Lin, s Sym) bool {
	m := map[Sym]*Lin{s: nil}
	for _, t := range l.t {
		if e.symDepends(t.s, m) {
			return true
		}
	}
	return false
}

// instance rewrites g, over the pass-A symbols, to the values at yields.
func (m *summary) instance(g *Lin, at func(lc *lcell) []*Lin) *Lin {
	mp := map[Sym]*Lin{}
	for _, lc := range m.cells {
		if lc.syms == nil {
			continue
		}
		vs := at(lc)
		for k, l := range lc.syms {
			s := l.t[0].s
			if len(vs) == len(lc.syms) && vs[k] != nil {
				mp[s] = vs[k]
			} else if m.e.linDepends(g, s) {
				return nil
			}
		}
	}
	return m.e.substLin(g, mp)
}

func (m *summary) atEntry(g *Lin) *Lin {
	return m.instance(g, func(lc *lcell) []*Lin { return leaves(lc.init) })
}

// atHead is g of the head state of pass B.
func (m *summary) atHead(g *Lin) *Lin {
	return m.instance(g, func(lc *lcell) []*Lin {
		if lc.lost || lc.keep {
			return nil
		}
		return leaves(lc.cur)
	})
}

// atNext is g of the state on back edge b.
func (m *summary) atNext(g *Lin, b stop) *Lin {
	return m.instance(g, func(lc *lcell) []*Lin {
		if lc.lost || lc.keep {
			return nil
		}
		return leaves(m.nextVal(lc, b))
	})
}

// varying lists the affine leaves that do not advance by a constant.
type vleaf struct {
	lc *lcell
	k  int
	s  *Lin // pass-A symbol
	in *Lin // value at entry
}

func (m *summary) varying() (vs []vleaf) {
	for _, lc := range m.cells {
		if lc.keep || lc.lost || lc.syms == nil {
			continue
		}
		ini := leaves(lc.init)
		for k, l := range lc.syms {
			if !lc.iv[k] && len(ini) == len(lc.syms) && ini[k] != nil {
				vs = append(vs, vleaf{lc, k, l, ini[k]})
			}
		}
	}
	return vs
}

// step is how much leaf v advances on back edge b, from value cur.
func (m *summary) step(v vleaf, cur *Lin, b stop) *Lin {
	nx := leaves(m.nextVal(v.lc, b))
	if len(nx) != len(v.lc.syms) || nx[v.k] == nil || cur == nil {
		return nil
	}
	return nx[v.k].sub(cur)
}

// monotone finds the leaves that move one way only, by at least one a round
// (mono +-2) or possibly staying put (+-1).
func (m *summary) monotone(back []stop) {
	e := m.e
	for _, v := range m.varying() {
		if v.lc.mono == nil {
			v.lc.mono = make([]int, len(v.lc.syms))
		}
		for _, c := range []int{2, -2, 1, -1} {
			ok := true
			for _, b := range back {
				d := m.step(v, v.s, b)
				if d == nil || !e.entails(b.c.st.f, monoFact(d, c)) {
					ok = false
					break
				}
			}
			if ok {
				v.lc.mono[v.k] = c
				break
			}
		}
	}
}

// monoFact says that the step d is as c claims.
func monoFact(d *Lin, c int) *Lin {
	switch c {
	case 2:
		return d.addInt(-1)
	case -2:
		return d.neg().addInt(-1)
	case -1:
		return d.neg()
	}
	return d
}

// monoBound is what a monotone leaf with current value cur satisfies at round t.
func monoBound(cur, ini, t *Lin, c int) *Lin {
	switch c {
	case 2:
		return cur.sub(ini).sub(t)
	case -2:
		return ini.sub(cur).sub(t)
	case -1:
		return ini.sub(cur)
	}
	return cur.sub(ini)
}

// conserved finds pairs of leaves whose weighted sum no round changes.
func (m *summary) conserved(back []stop) (invs []*Lin) {
	e := m.e
	vs := m.varying()
	for i, x := range vs {
		for _, y := range vs[:i] {
			for _, k := range [][2]int64{{1, 1}, {1, -1}, {1, 8}, {8, 1}, {1, -8}, {8, -1}} {
				ok := true
				for _, b := range back {
					dx, dy := m.step(x, x.s, b), m.step(y, y.s, b)
					if dx == nil || dy == nil || !e.entailsEq(b.c.st.f, linComb(k[0], dx, k[1], dy)) {
						ok = false
						break
					}
				}
				if ok {
					g := linComb(k[0], x.s.sub(x.in), k[1], y.s.sub(y.in))
					invs = append(invs, g, g.neg())
					break
				}
			}
		}
	}
	return invs
}

// headB builds the head state of round t.
func (m *summary) headB(invs []*Lin) (Conf, Sym, *Lin, int) {
	e := m.e
	c := m.s.c.clone()
	t := e.newSym(e.freshName("t"), I128{}, pow2(64))
	tl := e.symLin(t)
	n0 := len(c.st.f.ls)
	add := func(l *Lin) {
		if f, ok := e.assume(c.st.f, l); ok {
			c.st.f = f
		}
	}
	for _, lc := range m.cells {
		all := len(lc.iv) > 0 && !lc.keep && !lc.lost && lc.syms != nil
		any := false
		if all {
			for _, v := range lc.iv {
				if v {
					any = true
				}
			}
		}
		if !any {
			lc.cur, _ = m.havoc(c, lc)
			m.put(c, lc, lc.cur)
			continue
		}
		hv, hl := m.havoc(c, lc)
		ini := leaves(lc.init)
		for k := range hl {
			if lc.iv[k] {
				hl[k] = linComb(1, ini[k], lc.delta[k], tl)
			}
		}
		lc.cur = withLeaves(hv, hl)
		m.put(c, lc, lc.cur)
		for _, r := range ranges(lc.cur) {
			add(r)
		}
	}
	for _, v := range m.varying() {
		if v.lc.mono == nil || v.lc.mono[v.k] == 0 {
			continue
		}
		if cl := leaves(v.lc.cur); len(cl) == len(v.lc.syms) && cl[v.k] != nil {
			add(monoBound(cl[v.k], v.in, tl, v.lc.mono[v.k]))
		}
	}
	nr := len(c.st.f.ls) - n0
	for _, g := range invs {
		if l := m.atHead(g); l != nil {
			add(l)
		}
	}
	var ids []ObjID
	for id := range m.arrs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		a := m.arrs[id]
		o := *c.st.heap[id]
		if !a.known {
			o.arr = o.arr.write(&Wr{kind: 'h'})
		} else {
			for _, s := range a.sites {
				o.arr = o.arr.write(&Wr{kind: 'r', start: s.start, stride: s.stride, T: tl, tmpl: m.tmpl(s, t)})
			}
		}
		c.st.heap[id] = &o
	}
	m.locks(c)
	return c, t, tl, nr
}

// ranges lists the facts every value of v's type satisfies.
func ranges(v Val) []*Lin {
	switch x := v.(type) {
	case Int:
		if x.L == nil || x.L.isConst() {
			return nil
		}
		lo, hi := typeRange(x.W, x.S)
		return []*Lin{x.L.addC(lo.neg()), x.L.neg().addC(hi)}
	case Slice:
		return []*Lin{x.Off, x.Len, x.Cap.sub(x.Len)}
	}
	return nil
}

// tv is the symbol templates are kept in between rounds of pass B.
func (m *summary) tmpl(s arrSite, t Sym) *Tmpl {
	if s.val == nil {
		return &Tmpl{mark: m.mark, am: m.am}
	}
	v, ok := m.e.substVal(s.val, &Tmpl{tv: m.tv(), mark: m.mark, am: m.am}, m.e.symLin(t))
	if !ok {
		return &Tmpl{mark: m.mark, am: m.am}
	}
	return &Tmpl{tv: t, mark: m.mark, am: m.am, val: v}
}

func (m *summary) tv() Sym { return m.e.tmplSym() }

// verify checks that one round from t re-establishes the summary at t+1; when
// it does not, the summary is weakened and false returned.
func (m *summary) verify(c Conf, back []stop, t Sym, tl *Lin, invs *[]*Lin) (bool, string) {
	e := m.e
	ok := true
	t1 := tl.addInt(1)
	for _, b := range back {
		if b.c.st.held != m.held {
			return false, "lock state differs between rounds of a loop"
		}
		if len(b.c.fr.defers) != len(m.s.c.fr.defers) {
			return false, "deferred calls accumulate in a loop"
		}
		for _, lc := range m.cells {
			nx := m.nextVal(lc, b)
			if m.check(lc, nx) {
				ok = false
				continue
			}
			if lc.keep || lc.lost || lc.syms == nil {
				continue
			}
			nl := leaves(nx)
			ini := leaves(lc.init)
			for k := range lc.iv {
				if !lc.iv[k] {
					continue
				}
				good := len(nl) == len(lc.iv) && nl[k] != nil
				if good {
					d := nl[k].sub(linComb(1, ini[k], lc.delta[k], t1))
					good = e.entailsEq(b.c.st.f, d)
				}
				if !good {
					if debugLoop {
						fmt.Printf("   demote %s leaf %d\n", lc.name(), k)
					}
					lc.iv[k] = false
					ok = false
				}
			}
		}
	}
	if m.grow(c, back) {
		ok = false
	}
	if !ok {
		return false, ""
	}
	// ranges of the induction variables and invariants
	for _, b := range back {
		for _, lc := range m.cells {
			any := false
			for _, v := range lc.iv {
				any = any || v
			}
			if !any || lc.keep || lc.lost || lc.syms == nil {
				continue
			}
			for _, r := range ranges(m.nextVal(lc, b)) {
				if !e.entails(b.c.st.f, r) {
					for k := range lc.iv {
						lc.iv[k] = false
					}
					return false, ""
				}
			}
		}
		var keep []*Lin
		for _, g := range *invs {
			if l := m.atNext(g, b); l != nil && e.entails(b.c.st.f, l) {
				keep = append(keep, g)
			} else if debugLoop {
				fmt.Printf("   drop inv %s\n", e.linStr(g))
				for _, f := range b.c.st.f.ls {
					fmt.Printf("      given %s\n", e.linStr(f))
				}
			}
		}
		if len(keep) != len(*invs) {
			*invs = keep
			ok = false
		}
		for _, v := range m.varying() {
			if v.lc.mono == nil || v.lc.mono[v.k] == 0 {
				continue
			}
			var d *Lin
			if cl := leaves(v.lc.cur); len(cl) == len(v.lc.syms) {
				d = m.step(v, cl[v.k], b)
			}
			if d == nil || !e.entails(b.c.st.f, monoFact(d, v.lc.mono[v.k])) {
				v.lc.mono[v.k] = 0
				ok = false
			}
		}
	}
	if !ok {
		return false, ""
	}
	// array regions
	for id, a := range m.arrs {
		sites, good := m.sites(c, back, id, t)
		switch {
		case !good:
			if a.known {
				a.known, a.sites = false, nil
				ok = false
			}
			a.sites = nil
		case !a.known:
			if !m.compatible(sites) {
				continue
			}
			for i := range sites {
				sites[i].val = nil
			}
			a.known, a.sites = true, sites
			a.stage = 1
			ok = false
		default:
			if len(sites) != len(a.sites) {
				a.known, a.sites, a.dead = false, nil, true
				ok = false
				continue
			}
			bad := false
			for i := range sites {
				if sites[i].stride != a.sites[i].stride || !sites[i].start.equal(a.sites[i].start) {
					bad = true
				}
			}
			if bad {
				a.known, a.sites, a.dead = false, nil, true
				ok = false
				continue
			}
			if a.stage == 1 {
				a.stage = 2
				for i := range sites {
					if sites[i].val != nil {
						a.sites[i].val = sites[i].val
						ok = false
					}
				}
				continue
			}
			for i := range sites {
				if a.sites[i].val != nil && (sites[i].val == nil || !e.sameVal(a.sites[i].val, sites[i].val)) {
					a.sites[i].val = nil
					ok = false
				}
			}
		}
	}
	return ok, ""
}

// sites collects the cells of array id written by one round.
func (m *summary) sites(c Conf, back []stop, id ObjID, t Sym) ([]arrSite, bool) {
	e := m.e
	if m.arrs[id].dead {
		return nil, false
	}
	var res []arrSite
	for bi, b := range back {
		base := c.st.heap[id].arr
		var ws []*Wr
		for w := b.c.st.heap[id].arr.ws; w != base.ws; w = w.prev {
			if w == nil {
				return nil, false
			}
			ws = append(ws, w)
		}
		var ss []arrSite
		for i := len(ws) - 1; i >= 0; i-- {
			w := ws[i]
			if w.kind != 'p' {
				return nil, false
			}
			k := w.idx.coef(t)
			start := linComb(1, w.idx, -k, e.symLin(t))
			if k == 0 || e.dependsOnSymsFrom(start, m.mark, nil) || e.linDepends(start, t) {
				return nil, false
			}
			s := arrSite{start: start, stride: k}
			if v, ok := e.substVal(w.val, &Tmpl{tv: t, mark: m.mark, am: m.am, vers: m.vers}, e.symLin(m.tv())); ok {
				s.val = v
			}
			// a later write of the same round to the same cell wins
			dup := false
			for j := range ss {
				if ss[j].stride == k && ss[j].start.equal(start) {
					ss = append(ss[:j], ss[j+1:]...)
					ss = append(ss, s)
					dup = true
					break
				}
			}
			if !dup {
				ss = append(ss, s)
			}
		}
		if bi == 0 {
			res = ss
			continue
		}
		if len(ss) != len(res) {
			return nil, false
		}
		for i := range ss {
			if ss[i].stride != res[i].stride || !ss[i].start.equal(res[i].start) {
				return nil, false
			}
			if res[i].val != nil && (ss[i].val == nil || !e.sameVal(res[i].val, ss[i].val)) {
				res[i].val = nil
			}
		}
	}
	return res, true
}

// compatible: applying whole regions site by site equals applying them round by round.
func (m *summary) compatible(ss []arrSite) bool {
	for j := range ss {
		for k := j + 1; k < len(ss); k++ {
			if ss[j].stride != ss[k].stride {
				return false
			}
			s := ss[j].stride
			d, ok := ss[j].start.sub(ss[k].start).constVal()
			if !ok {
				return false
			}
			if d%s != 0 {
				continue
			}
			if d/s < 0 {
				return false
			}
		}
	}
	return true
}

// ranked: some fact on the back edge bounds t by values fixed before the loop.
func (m *summary) ranked(b stop, t Sym, from int) bool {
	e := m.e
	fs := b.c.st.f.ls
	if from > len(fs) {
		from = len(fs)
	}
	allow := map[Sym]bool{t: true}
	tl := e.symLin(t)
	// the latest (or earliest) value of a leaf that moves every round
	far := map[Sym]*Lin{}
	dir := map[Sym]int{}
	for _, v := range m.varying() {
		if v.lc.mono == nil || v.lc.mono[v.k] != 2 && v.lc.mono[v.k] != -2 {
			continue
		}
		cl := leaves(v.lc.cur)
		if len(cl) != len(v.lc.syms) || cl[v.k] == nil || len(cl[v.k].t) != 1 || cl[v.k].t[0].k != 1 || cl[v.k].c.sign() != 0 {
			continue
		}
		s := cl[v.k].t[0].s
		dir[s] = v.lc.mono[v.k] / 2
		far[s] = linComb(1, v.in, int64(dir[s]), tl)
	}
	for _, f := range fs[from:] {
		for _, x := range f.t {
			if l := far[x.s]; l != nil && (x.k > 0) == (dir[x.s] < 0) {
				f = f.add(linComb(x.k, l, -x.k, e.symLin(x.s)))
			}
		}
		if !e.dependsOnSymsFrom(f, m.mark, allow) && e.slope(f, t).Sign() < 0 {
			return true
		}
	}
	return false
}

// slope is the asymptotic growth of l per unit of t (floors differ from the
// exact quotient by less than one).
func (e *Engine) slope(l *Lin, t Sym) *big.Rat {
	r := new(big.Rat)
	for _, x := range l.t {
		k := big.NewRat(x.k, 1)
		if x.s == t {
			r.Add(r, k)
		} else if q := e.syms[x.s].quot; q != nil {
			r.Add(r, k.Mul(k, new(big.Rat).Mul(e.slope(q, t), big.NewRat(1, e.syms[x.s].div))))
		}
	}
	return r
}

func (e *Engine) tmplSym() Sym {
	if e.tmplS == 0 {
		e.tmplS = e.newSym("u", I128{}, pow2(64))
	}
	return e.tmplS
}

func (e *Engine) hasQuot(l *Lin) bool {
	for _, t := range l.t {
		if e.syms[t.s].quot != nil {
			return true
		}
	}
	return false
}

func loopPos(l *loop) token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}
