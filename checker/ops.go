package main

import (
	"go/token"
	"go/types"
	"math"
)

func floatBits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

type alt struct {
	f Facts
	v Val
}

func one(f Facts, v Val) []alt { return []alt{{f, v}} }

// wrap returns the values an exact result l takes in a w-bit word, one
// alternative per feasible multiple of 2^w.
func (e *Engine) wrap(f Facts, l *Lin, w int, s bool) []alt {
	lo, hi := typeRange(w, s)
	below, above := l.addC(lo.neg()), l.neg().addC(hi) // both >= 0 in range
	if l.isConst() {
		c := l.c
		m := pow2(uint(w))
		if c.cmp(lo) >= 0 && c.cmp(hi) <= 0 {
			return one(f, Int{W: w, S: s, L: l})
		}
		// reduce constants directly
		v := c.lo
		if w < 64 {
			v &= 1<<uint(w) - 1
		}
		x := u128(v)
		if s && v>>uint(w-1)&1 == 1 {
			x = x.sub(m)
		}
		return one(f, Int{W: w, S: s, L: linC(x)})
	}
	inLo, inHi := e.entails(f, below), e.entails(f, above)
	if inLo && inHi {
		return one(f, Int{W: w, S: s, L: l})
	}
	m := pow2(uint(w))
	var out []alt
	add := func(k int64) {
		r := l.addC(m.mul(-k))
		g, ok := e.assume(f, r.addC(lo.neg()))
		if !ok {
			return
		}
		g, ok = e.assume(g, r.neg().addC(hi))
		if !ok {
			return
		}
		out = append(out, alt{g, Int{W: w, S: s, L: r}})
	}
	add(0)
	n := 0
	for k := int64(1); !inHi; k++ {
		// anything left above k-1 wraps?
		if e.entails(f, above.addC(m.mul(k-1))) {
			break
		}
		add(k)
		if n++; n > 10 {
			return one(f, e.freshInt("wrap", w, s))
		}
	}
	for k := int64(-1); !inLo; k-- {
		if e.entails(f, below.addC(m.mul(-(k + 1)))) {
			break
		}
		add(k)
		if n++; n > 20 {
			return one(f, e.freshInt("wrap", w, s))
		}
	}
	e.stat.forks += len(out) - 1
	return out
}

func linPow2(l *Lin) (uint, bool) {
	c, ok := l.constVal()
	if !ok || c <= 0 || c&(c-1) != 0 {
		return 0, false
	}
	k := uint(0)
	for c > 1 {
		c >>= 1
		k++
	}
	return k, true
}

func anyUnknownBits(v Int) bool { return v.B != nil }

// lowZero counts low bits of l known to be zero (64: l is zero).
func lowZero(l *Lin) uint {
	g := l.termGCD()
	c := l.c.lo
	var x uint64 = uint64(g)
	if x == 0 && c == 0 {
		return 64
	}
	n := uint(0)
	for n < 63 && (x>>n)&1 == 0 && (c>>n)&1 == 0 {
		n++
	}
	return n
}

// binInt evaluates an integer operation.
func (e *Engine) binInt(f Facts, op token.Token, x, y Int, pc Node) []alt {
	w, s := x.W, x.S
	useBits := (x.B != nil || y.B != nil)
	switch op {
	case token.ADD, token.SUB:
		if useBits {
			// keep affine results when one side is affine and non-constant
			if (x.L == nil || x.L.isConst()) && (y.L == nil || y.L.isConst()) {
				if r, ok := e.addBits(e.bits(x), e.bits(y), op == token.SUB); ok {
					return one(f, Int{W: w, S: s, B: r})
				}
			}
		}
		if op == token.ADD {
			return e.wrap(f, e.lin(x).add(e.lin(y)), w, s)
		}
		return e.wrap(f, e.lin(x).sub(e.lin(y)), w, s)
	case token.MUL:
		if useBits {
			a, b := x, y
			if a.L != nil {
				a, b = b, a
			}
			if b.L != nil && a.B != nil {
				if k, ok := linPow2(b.L); ok {
					return one(f, Int{W: w, S: s, B: shlBits(a.B, k)})
				}
			}
		}
		lx, ly := e.lin(x), e.lin(y)
		if c, ok := ly.constVal(); ok {
			return e.wrap(f, lx.mul(c), w, s)
		}
		if c, ok := lx.constVal(); ok {
			return e.wrap(f, ly.mul(c), w, s)
		}
		return one(f, e.freshInt("mul", w, s))
	case token.QUO, token.REM:
		ly := e.lin(y)
		c, ok := ly.constVal()
		if ok && c > 0 {
			if x.B != nil && !s {
				if k, p := linPow2(ly); p {
					if op == token.QUO {
						return one(f, Int{W: w, S: s, B: shrBits(x.B, k, false)})
					}
					return one(f, Int{W: w, S: s, B: maskBits(x.B, k)})
				}
			}
			return e.divConst(f, e.lin(x), c, w, s, op)
		}
		if ok && c < 0 && c != math.MinInt64 {
			// x / -c == -(x/c); x % -c == x % c
			var out []alt
			for _, a := range e.divConst(f, e.lin(x), -c, w, s, op) {
				if op == token.REM {
					out = append(out, a)
					continue
				}
				out = append(out, e.wrap(a.f, a.v.(Int).L.neg(), w, s)...)
			}
			return out
		}
		return one(f, e.freshInt("div", w, s))
	case token.SHL, token.SHR:
		k, ok := e.lin(y).constVal()
		if !ok {
			// a shift by an unknown amount: split a small range of amounts
			return one(f, e.freshShift(x))
		}
		if op == token.SHL {
			if k >= int64(w) {
				return one(f, Int{W: w, S: s, L: linConst(0)})
			}
			if x.B != nil || k > 16 && !x.L.isConst() {
				return one(f, Int{W: w, S: s, B: shlBits(e.bits(x), uint(k))})
			}
			if x.L.isConst() {
				return one(f, e.fromBits(shlBits(e.bits(x), uint(k)), w, s))
			}
			return e.wrap(f, x.L.mul(int64(1)<<uint(k)), w, s)
		}
		if x.B != nil || x.L.isConst() {
			return one(f, e.fromBits(shrBits(e.bits(x), uint(min64(k, int64(w))), s), w, s))
		}
		if k >= int64(w) {
			k = int64(w) - 1
			if !s {
				return one(f, Int{W: w, S: s, L: linConst(0)})
			}
		}
		if k > 40 {
			return one(f, Int{W: w, S: s, B: shrBits(e.bits(x), uint(k), s)})
		}
		return one(f, Int{W: w, S: s, L: e.quotient(x.L, int64(1)<<uint(k))})
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if x.L != nil && y.L != nil {
			if r, ok := e.maskLin(op, x, y); ok {
				return one(f, r)
			}
		}
		bx, by := e.bits(x), e.bits(y)
		r := make([]Node, w)
		for i := range r {
			switch op {
			case token.AND:
				r[i] = e.b.and(bx[i], by[i])
			case token.OR:
				r[i] = e.b.or(bx[i], by[i])
			case token.XOR:
				r[i] = e.b.xor(bx[i], by[i])
			default:
				r[i] = e.b.and(bx[i], e.b.not(by[i]))
			}
		}
		return one(f, e.fromBits(r, w, s))
	}
	unsup("integer operation %s", op)
	return nil
}

func (e *Engine) freshShift(x Int) Int {
	if x.L != nil {
		if c, ok := x.L.constVal(); ok && c == 0 {
			return x
		}
	}
	return Int{W: x.W, S: x.S, B: e.freshBits("shift", x.W)}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// fromBits makes a word of bits, folding constants.
func (e *Engine) fromBits(b []Node, w int, s bool) Int {
	v := Int{W: w, S: s, B: b}
	for _, n := range b {
		if n > 1 {
			if l := e.bitsOfLin(v); l != nil {
				lo, hi := typeRange(w, s)
				if e.entails(Facts{}, l.addC(lo.neg())) && e.entails(Facts{}, l.neg().addC(hi)) {
					return Int{W: w, S: s, L: l}
				}
			}
			return v
		}
	}
	return Int{W: w, S: s, L: e.lin(v)}
}

func shlBits(b []Node, k uint) []Node {
	r := make([]Node, len(b))
	for i := range b {
		if i >= int(k) {
			r[i] = b[i-int(k)]
		}
	}
	return r
}

func shrBits(b []Node, k uint, s bool) []Node {
	r := make([]Node, len(b))
	for i := range b {
		if j := i + int(k); j < len(b) {
			r[i] = b[j]
		} else if s {
			r[i] = b[len(b)-1]
		}
	}
	return r
}

func maskBits(b []Node, k uint) []Node {
	r := make([]Node, len(b))
	for i := range b {
		if i < int(k) {
			r[i] = b[i]
		}
	}
	return r
}

// addBits is the ripple-carry sum (or difference); it gives up when carries
// between unknown bits would have to be tracked over long words.
func (e *Engine) addBits(x, y []Node, sub bool) ([]Node, bool) {
	r := make([]Node, len(x))
	c := bFalse
	if sub {
		c = bTrue
	}
	cx := 0
	for i := range x {
		yi := y[i]
		if sub {
			yi = e.b.not(yi)
		}
		if x[i] > 1 && yi > 1 && x[i] != yi {
			cx++
			if cx > 8 && c > 1 {
				return nil, false
			}
		}
		t := e.b.xor(x[i], yi)
		r[i] = e.b.xor(t, c)
		c = e.b.or(e.b.and(x[i], yi), e.b.and(t, c))
	}
	return r, true
}

// divConst is Go's truncated division (or remainder) by a positive constant.
func (e *Engine) divConst(f Facts, l *Lin, c int64, w int, s bool, op token.Token) []alt {
	mk := func(f Facts, q *Lin) alt {
		if op == token.QUO {
			return alt{f, Int{W: w, S: s, L: q}}
		}
		return alt{f, Int{W: w, S: s, L: linComb(1, l, -c, q)}}
	}
	if e.entails(f, l) {
		return []alt{mk(f, e.quotient(l, c))}
	}
	negQ := func() *Lin { return e.quotient(l.neg(), c).neg() }
	if e.entails(f, l.neg()) {
		return []alt{mk(f, negQ())}
	}
	var out []alt
	if g, ok := e.assume(f, l); ok {
		out = append(out, mk(g, e.quotient(l, c)))
	}
	if g, ok := e.assume(f, l.neg().addInt(-1)); ok {
		out = append(out, mk(g, negQ()))
	}
	return out
}

// maskLin keeps simple bit operations on affine values affine.
func (e *Engine) maskLin(op token.Token, x, y Int) (Int, bool) {
	w, s := x.W, x.S
	a, b := x.L, y.L
	if a.isConst() && b.isConst() {
		return Int{}, false
	}
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	c, ok := b.constVal()
	if !ok || !b.isConst() {
		// disjoint or: x|y with y below x's low zero bits is not tracked
		return Int{}, false
	}
	switch op {
	case token.AND:
		if c >= 0 && c < 1<<40 && c&(c+1) == 0 {
			// x & (2^k-1)
			return Int{W: w, S: s, L: linComb(1, a, -(c + 1), e.quotient(a, c+1))}, true
		}
		if lo := c & -c; c > 0 && c < 1<<40 && (c+lo)&c == 0 {
			// a run of bits
			hi := c + lo
			return Int{W: w, S: s, L: linComb(lo, e.quotient(a, lo), -hi, e.quotient(a, hi))}, true
		}
		if m := ^c; s && c < 0 && m < 1<<40 && m&(m+1) == 0 {
			return Int{W: w, S: s, L: e.quotient(a, m+1).mul(m + 1)}, true
		}
	case token.AND_NOT:
		if a == x.L && c >= 0 && c < 1<<40 && c&(c+1) == 0 {
			return Int{W: w, S: s, L: e.quotient(a, c+1).mul(c + 1)}, true
		}
	case token.OR, token.XOR:
		if c == 0 {
			return Int{W: w, S: s, L: a}, true
		}
		if c > 0 && lowZero(a) < 63 && c < int64(1)<<lowZero(a) {
			return Int{W: w, S: s, L: a.addInt(c)}, true
		}
	}
	return Int{}, false
}

// convInt converts a word to another integer type.
func (e *Engine) convInt(f Facts, x Int, w int, s bool) []alt {
	if x.L != nil {
		if x.W == w && x.S == s {
			return one(f, x)
		}
		lo, hi := typeRange(w, s)
		if x.L.isConst() || w >= 64 || (e.entails(f, x.L.addC(lo.neg())) && e.entails(f, x.L.neg().addC(hi))) {
			return e.wrap(f, x.L, w, s)
		}
		// narrowing: reduce modulo 2^w
		m := int64(1) << uint(w)
		if s {
			h := m / 2
			t := x.L.addInt(h)
			return one(f, Int{W: w, S: s, L: linComb(1, t, -m, e.quotient(t, m)).addInt(-h)})
		}
		return one(f, Int{W: w, S: s, L: linComb(1, x.L, -m, e.quotient(x.L, m))})
	}
	r := make([]Node, w)
	for i := range r {
		switch {
		case i < x.W:
			r[i] = x.B[i]
		case x.S:
			r[i] = x.B[x.W-1]
		}
	}
	return one(f, e.fromBits(r, w, s))
}

func isConstInt(v Int) bool { return v.L != nil && v.L.isConst() }

// cmpInt evaluates a comparison.
func (e *Engine) cmpInt(op token.Token, x, y Int) Bool {
	if (x.B != nil || y.B != nil) && (x.B != nil || isConstInt(x)) && (y.B != nil || isConstInt(y)) {
		small := x.W <= 8 || isConstInt(x) || isConstInt(y)
		if small {
			return Bool{K: 'b', N: e.cmpBits(op, e.bits(x), e.bits(y), x.S)}
		}
	}
	a, b := e.lin(x), e.lin(y)
	d := b.sub(a)
	switch op {
	case token.LSS:
		return e.linBool('g', d.addInt(-1))
	case token.LEQ:
		return e.linBool('g', d)
	case token.GTR:
		return e.linBool('g', d.neg().addInt(-1))
	case token.GEQ:
		return e.linBool('g', d.neg())
	case token.EQL:
		return e.linBool('e', d)
	}
	return e.linBool('n', d)
}

func (e *Engine) linBool(k byte, l *Lin) Bool {
	if l.isConst() {
		var r bool
		switch k {
		case 'g':
			r = l.c.sign() >= 0
		case 'e':
			r = l.c.sign() == 0
		default:
			r = l.c.sign() != 0
		}
		if r {
			return Bool{K: 'b', N: bTrue}
		}
		return Bool{K: 'b', N: bFalse}
	}
	return Bool{K: k, L: l}
}

func (e *Engine) cmpBits(op token.Token, x, y []Node, s bool) Node {
	eq := bTrue
	for i := range x {
		eq = e.b.and(eq, e.b.not(e.b.xor(x[i], y[i])))
	}
	switch op {
	case token.EQL:
		return eq
	case token.NEQ:
		return e.b.not(eq)
	}
	// unsigned x < y from the low end
	lt := bFalse
	for i := range x {
		xi, yi := x[i], y[i]
		if s && i == len(x)-1 {
			xi, yi = yi, xi
		}
		d := e.b.xor(xi, yi)
		lt = e.b.ite(d, yi, lt)
	}
	switch op {
	case token.LSS:
		return lt
	case token.LEQ:
		return e.b.or(lt, eq)
	case token.GTR:
		return e.b.not(e.b.or(lt, eq))
	}
	return e.b.not(lt)
}

func (e *Engine) notBool(v Bool) Bool {
	switch v.K {
	case 'b':
		return Bool{K: 'b', N: e.b.not(v.N)}
	case 'g':
		return e.linBool('g', v.L.neg().addInt(-1))
	case 'e':
		return Bool{K: 'n', L: v.L}
	}
	return Bool{K: 'e', L: v.L}
}

// branch is one side of a decided or undecided condition.
type branch struct {
	f    Facts
	pc   Node
	cond bool
}

// decide splits the state on v. konst reports that the outcome needed no facts.
func (e *Engine) decide(f Facts, pc Node, v Bool) (out []branch, konst bool) {
	switch v.K {
	case 'b':
		if v.N == bTrue {
			return []branch{{f, pc, true}}, true
		}
		if v.N == bFalse {
			return []branch{{f, pc, false}}, true
		}
		t, n := e.b.and(pc, v.N), e.b.and(pc, e.b.not(v.N))
		if t != bFalse {
			out = append(out, branch{f, t, true})
		}
		if n != bFalse {
			out = append(out, branch{f, n, false})
		}
		return out, false
	case 'g':
		if e.entails(f, v.L) {
			return []branch{{f, pc, true}}, false
		}
		if g, ok := e.assume(f, v.L); ok {
			out = append(out, branch{g, pc, true})
		}
		if g, ok := e.assume(f, v.L.neg().addInt(-1)); ok {
			out = append(out, branch{g, pc, false})
		}
		return out, false
	case 'e', 'n':
		eq := v.K == 'e'
		if g, ok := e.assumeEq(f, v.L); ok {
			out = append(out, branch{g, pc, eq})
		}
		if g, ok := e.assume(f, v.L.addInt(-1)); ok {
			out = append(out, branch{g, pc, !eq})
		}
		if g, ok := e.assume(f, v.L.neg().addInt(-1)); ok {
			out = append(out, branch{g, pc, !eq})
		}
		return out, false
	}
	unsup("condition")
	return nil, false
}

func (e *Engine) eqType(a, b types.Type) bool { return types.Identical(a, b) }
