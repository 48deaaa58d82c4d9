package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// Sym is an integer-valued symbol of one engine.
type Sym int32

type Term struct {
	s Sym
	k int64
}

// Lin is an affine expression c + sum k_i*s_i over the integers (immutable).
type Lin struct {
	c   I128
	t   []Term // sorted by symbol, no zero coefficients
	key string
}

type symInfo struct {
	name   string
	lo, hi I128
	quot   *Lin  // for quotient symbols: floor(quot/div)
	div    int64 // divisor of a quotient symbol
	fresh  bool  // created during analysis with no functional meaning
	prodA  *Lin
}

func linConst(c int64) *Lin { return &Lin{c: i128(c)} }
func linC(c I128) *Lin      { return &Lin{c: c} }

func (l *Lin) isConst() bool { return len(l.t) == 0 }

// constVal returns the value of a constant expression as int64.
func (l *Lin) constVal() (int64, bool) {
	if len(l.t) != 0 {
		return 0, false
	}
	return l.c.int64()
}

func (l *Lin) Key() string {
	if l.key == "" {
		b := make([]byte, 0, 16+12*len(l.t))
		b = binary.LittleEndian.AppendUint64(b, uint64(l.c.hi))
		b = binary.LittleEndian.AppendUint64(b, l.c.lo)
		for _, t := range l.t {
			b = binary.LittleEndian.AppendUint32(b, uint32(t.s))
			b = binary.LittleEndian.AppendUint64(b, uint64(t.k))
		}
		l.key = string(b)
	}
	return l.key
}

// varKey is the key without the constant.
func (l *Lin) varKey() string { return l.Key()[16:] }

func mulC(a, b int64) int64 {
	r := a * b
	if a != 0 && (r/a != b || (a == -1 && b == -1<<63)) {
		panic(overflow128{})
	}
	return r
}

func addC(a, b int64) int64 {
	r := a + b
	if (a > 0 && b > 0 && r < 0) || (a < 0 && b < 0 && r >= 0) {
		panic(overflow128{})
	}
	return r
}

// linComb returns a*x + b*y.
func linComb(a int64, x *Lin, b int64, y *Lin) *Lin {
	r := &Lin{c: x.c.mul(a).add(y.c.mul(b))}
	t := make([]Term, 0, len(x.t)+len(y.t))
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j >= len(y.t) || (i < len(x.t) && x.t[i].s < y.t[j].s):
			if k := mulC(a, x.t[i].k); k != 0 {
				t = append(t, Term{x.t[i].s, k})
			}
			i++
		case i >= len(x.t) || y.t[j].s < x.t[i].s:
			if k := mulC(b, y.t[j].k); k != 0 {
				t = append(t, Term{y.t[j].s, k})
			}
			j++
		default:
			if k := addC(mulC(a, x.t[i].k), mulC(b, y.t[j].k)); k != 0 {
				t = append(t, Term{x.t[i].s, k})
			}
			i++
			j++
		}
	}
	r.t = t
	return r
}

func (l *Lin) add(m *Lin) *Lin     { return linComb(1, l, 1, m) }
func (l *Lin) sub(m *Lin) *Lin     { return linComb(1, l, -1, m) }
func (l *Lin) mul(k int64) *Lin    { return linComb(k, l, 0, &Lin{}) }
func (l *Lin) neg() *Lin           { return l.mul(-1) }
func (l *Lin) addInt(k int64) *Lin { return &Lin{c: l.c.add(i128(k)), t: l.t} }
func (l *Lin) addC(k I128) *Lin    { return &Lin{c: l.c.add(k), t: l.t} }
func (l *Lin) equal(m *Lin) bool   { return l == m || l.Key() == m.Key() }

func (l *Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (l *Lin) termGCD() int64 {
	g := int64(0)
	for _, t := range l.t {
		g = gcd64(g, t.k)
	}
	return g
}

// tighten normalises the constraint l >= 0 over the integers.
func (l *Lin) tighten() *Lin {
	g := l.termGCD()
	if g <= 1 {
		return l
	}
	r := &Lin{c: l.c.divFloor(g), t: make([]Term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = Term{t.s, t.k / g}
	}
	return r
}

func (e *Engine) linStr(l *Lin) string {
	if l == nil {
		return "<nil>"
	}
	var sb strings.Builder
	for _, t := range l.t {
		n := e.syms[t.s].name
		switch {
		case t.k == 1:
			fmt.Fprintf(&sb, "+%s", n)
		case t.k == -1:
			fmt.Fprintf(&sb, "-%s", n)
		default:
			fmt.Fprintf(&sb, "%+d*%s", t.k, n)
		}
	}
	if l.c.sign() != 0 || sb.Len() == 0 {
		if l.c.sign() >= 0 {
			sb.WriteString("+")
		}
		sb.WriteString(l.c.String())
	}
	return strings.TrimPrefix(sb.String(), "+")
}

func (e *Engine) newSym(name string, lo, hi I128) Sym {
	e.syms = append(e.syms, symInfo{name: name, lo: lo, hi: hi})
	return Sym(len(e.syms) - 1)
}

func (e *Engine) symLin(s Sym) *Lin { return &Lin{t: []Term{{s, 1}}} }

// quotient returns floor(l/d) as an affine expression, introducing (once per
// expression) a symbol constrained by d*q <= l <= d*q+d-1 when l is not
// divisible term by term.
func (e *Engine) quotient(l *Lin, d int64) *Lin {
	if d == 1 {
		return l
	}
	whole, part := &Lin{}, &Lin{}
	for _, t := range l.t {
		if t.k%d == 0 {
			whole.t = append(whole.t, Term{t.s, t.k / d})
		} else {
			// floor split of the coefficient keeps the remaining part small
			q := t.k / d
			r := t.k % d
			if r < 0 {
				q--
				r += d
			}
			if q != 0 {
				whole.t = append(whole.t, Term{t.s, q})
			}
			part.t = append(part.t, Term{t.s, r})
		}
	}
	whole.c = l.c.divFloor(d)
	part.c = i128(l.c.modFloor(d))
	if len(part.t) == 0 {
		return whole // constant remainder in [0,d)
	}
	// common factor of part and d
	if g := gcd64(part.termGCD(), d); g > 1 {
		p2 := &Lin{c: part.c.divFloor(g)}
		for _, t := range part.t {
			p2.t = append(p2.t, Term{t.s, t.k / g})
		}
		return whole.add(e.quotient(p2, d/g))
	}
	k := fmt.Sprintf("%d|%s", d, part.Key())
	s, ok := e.quots[k]
	if !ok {
		s = e.newSym(fmt.Sprintf("(%s)/%d", e.linStr(part), d), minI, maxI)
		e.syms[s].quot = part
		e.syms[s].div = d
		e.quots[k] = s
	}
	return whole.add(e.symLin(s))
}

var (
	minI = pow2(100).neg()
	maxI = pow2(100)
)

// substLin replaces symbol s by expression by in l (rebuilding quotients).
func (e *Engine) substLin(l *Lin, m map[Sym]*Lin) *Lin {
	hit := false
	for _, t := range l.t {
		if e.symDepends(t.s, m) {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	r := linC(l.c)
	for _, t := range l.t {
		r = linComb(1, r, t.k, e.substSym(t.s, m))
	}
	return r
}

func (e *Engine) symDepends(s Sym, m map[Sym]*Lin) bool {
	if _, ok := m[s]; ok {
		return true
	}
	if q := e.syms[s].quot; q != nil {
		for _, t := range q.t {
			if e.symDepends(t.s, m) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) substSym(s Sym, m map[Sym]*Lin) *Lin {
	if v, ok := m[s]; ok {
		return v
	}
	if e.symDepends(s, m) {
		return e.quotient(e.substLin(e.syms[s].quot, m), e.syms[s].div)
	}
	return e.symLin(s)
}

// dependsOnSymsFrom reports whether l mentions a symbol >= mark other than the
// allowed ones (quotients of allowed expressions are allowed).
func (e *Engine) dependsOnSymsFrom(l *Lin, mark Sym, allow map[Sym]bool) bool {
	for _, t := range l.t {
		if t.s < mark || allow[t.s] {
			continue
		}
		if q := e.syms[t.s].quot; q != nil && !e.dependsOnSymsFrom(q, mark, allow) {
			continue
		}
		return true
	}
	return false
}

/* ---- the linear-inequality domain ---- */

const fmLimit = 1500

type fmRow struct {
	k []int64
	c I128
}

// infeasible reports whether the conjunction of cons[i] >= 0 has no integer
// solution, as far as Fourier-Motzkin elimination with integer tightening can
// tell (false means "not refuted").
func (e *Engine) infeasible(cons []*Lin) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(overflow128); ok {
				res = false
				return
			}
			panic(r)
		}
	}()
	// gather variables, adding quotient definitions and bounds
	idx := map[Sym]int{}
	var vars []Sym
	var rows []*Lin
	var visit func(l *Lin)
	addVar := func(s Sym) {
		if _, ok := idx[s]; ok {
			return
		}
		idx[s] = len(vars)
		vars = append(vars, s)
	}
	visit = func(l *Lin) {
		rows = append(rows, l)
		for _, t := range l.t {
			addVar(t.s)
		}
	}
	for _, l := range cons {
		visit(l)
	}
	for i := 0; i < len(vars); i++ {
		si := e.syms[vars[i]]
		x := e.symLin(vars[i])
		if si.quot != nil {
			visit(linComb(1, si.quot, -si.div, x))
			visit(linComb(-1, si.quot, si.div, x).addInt(si.div - 1))
			continue
		}
		if si.lo.cmp(minI) > 0 {
			rows = append(rows, x.addC(si.lo.neg()))
		}
		if si.hi.cmp(maxI) < 0 {
			rows = append(rows, x.neg().addC(si.hi))
		}
	}
	n := len(vars)
	byKey := map[string]int{}
	var cur []fmRow
	keyBuf := make([]byte, 8*n)
	put := func(set *[]fmRow, m map[string]int, k []int64, c I128) bool {
		g := int64(0)
		for _, x := range k {
			g = gcd64(g, x)
		}
		if g == 0 {
			return c.sign() < 0 // contradiction
		}
		if g > 1 {
			for i := range k {
				k[i] /= g
			}
			c = c.divFloor(g)
		}
		for i, x := range k {
			binary.LittleEndian.PutUint64(keyBuf[8*i:], uint64(x))
		}
		ks := string(keyBuf)
		if i, ok := m[ks]; ok {
			if c.cmp((*set)[i].c) < 0 {
				(*set)[i].c = c
			}
			return false
		}
		m[ks] = len(*set)
		*set = append(*set, fmRow{k, c})
		return false
	}
	for _, l := range rows {
		k := make([]int64, n)
		for _, t := range l.t {
			k[idx[t.s]] = t.k
		}
		if put(&cur, byKey, k, l.c) {
			return true
		}
	}
	// Elimination tightens only what it happens to leave divisible, which
	// depends on its order: the bounds that follow from a quotient's definition
	// and one other row are tightened up front.
	base := len(cur)
	for _, s := range vars {
		q := e.syms[s].quot
		if q == nil {
			continue
		}
		for sg := int64(1); sg >= -1; sg -= 2 {
			def := linComb(sg, q, -sg*e.syms[s].div, e.symLin(s))
			if sg < 0 {
				def = def.addInt(e.syms[s].div - 1)
			}
			d := make([]int64, n)
			for _, t := range def.t {
				d[idx[t.s]] = t.k
			}
			for _, t := range q.t {
				if t.k != 1 && t.k != -1 {
					continue
				}
				v := idx[t.s]
				for r := 0; r < base; r++ {
					a := cur[r].k[v]
					if a == 0 || (a > 0) == (d[v] > 0) {
						continue
					}
					if a < 0 {
						a = -a
					}
					k := make([]int64, n)
					g := int64(0)
					for b := range k {
						k[b] = addC(cur[r].k[b], mulC(a, d[b]))
						g = gcd64(g, k[b])
					}
					c := cur[r].c.add(def.c.mul(a))
					if g == 0 || g > 1 && c.divFloor(g).mul(g).cmp(c) != 0 {
						if put(&cur, byKey, k, c) {
							return true
						}
					}
				}
			}
		}
	}
	// so are those from two rows with one unit coefficient each and a common
	// divisor elsewhere
	type tight struct {
		v  int
		g  int64
		in []int64
		c  I128
	}
	var up, down []tight
	for r := 0; r < base; r++ {
		v, g := -1, int64(0)
		for b, x := range cur[r].k {
			if x != 1 && x != -1 {
				g = gcd64(g, x)
			} else if v >= 0 {
				v = -2
				break
			} else {
				v = b
			}
		}
		if v < 0 || g == 1 {
			continue
		}
		t := tight{v, g, cur[r].k, cur[r].c}
		if t.in[v] > 0 {
			up = append(up, t)
		} else {
			down = append(down, t)
		}
	}
	for _, a := range up {
		for _, z := range down {
			g := gcd64(a.g, z.g)
			if a.v != z.v || g < 2 {
				continue
			}
			c := a.c.add(z.c)
			if c.divFloor(g).mul(g).cmp(c) == 0 {
				continue
			}
			k := make([]int64, n)
			for b := range k {
				k[b] = addC(a.in[b], z.in[b])
			}
			if put(&cur, byKey, k, c) {
				return true
			}
		}
	}
	alive := make([]bool, n)
	for i := range alive {
		alive[i] = true
	}
	// use equalities with a unit coefficient to remove variables first: unlike
	// elimination proper, substitution loses nothing over the integers
	for again := true; again; {
		again = false
		for i := 0; i < len(cur) && !again; i++ {
			for b, x := range cur[i].k {
				binary.LittleEndian.PutUint64(keyBuf[8*b:], uint64(-x))
			}
			j, ok := byKey[string(keyBuf)]
			if !ok {
				continue
			}
			sg := cur[i].c.add(cur[j].c).sign()
			if sg < 0 {
				return true
			}
			if sg > 0 || j < i {
				continue
			}
			v := -1
			for b, x := range cur[i].k {
				if x == 1 || x == -1 {
					v = b
					break
				}
			}
			if v < 0 {
				continue
			}
			eq := cur[i]
			if eq.k[v] == 1 {
				eq = cur[j]
			}
			// eq.k[v] == -1: v equals the rest of eq
			var next []fmRow
			m := map[string]int{}
			for r, row := range cur {
				if r == i || r == j {
					continue
				}
				a := row.k[v]
				if a == 0 {
					if put(&next, m, row.k, row.c) {
						return true
					}
					continue
				}
				k := make([]int64, n)
				for b := range k {
					k[b] = addC(row.k[b], mulC(a, eq.k[b]))
				}
				if put(&next, m, k, row.c.add(eq.c.mul(a))) {
					return true
				}
			}
			cur, byKey = next, m
			alive[v] = false
			again = true
		}
	}
	for {
		best, bestCost := -1, 0
		for v := 0; v < n; v++ {
			if !alive[v] {
				continue
			}
			p, m := 0, 0
			for i := range cur {
				if cur[i].k[v] > 0 {
					p++
				} else if cur[i].k[v] < 0 {
					m++
				}
			}
			if p == 0 && m == 0 {
				alive[v] = false
				continue
			}
			cost := p*m - p - m
			if best < 0 || cost < bestCost {
				best, bestCost = v, cost
			}
		}
		if best < 0 {
			return false
		}
		v := best
		alive[v] = false
		var next []fmRow
		m := map[string]int{}
		var pos, neg []int
		for i := range cur {
			switch {
			case cur[i].k[v] > 0:
				pos = append(pos, i)
			case cur[i].k[v] < 0:
				neg = append(neg, i)
			default:
				if put(&next, m, cur[i].k, cur[i].c) {
					return true
				}
			}
		}
		for _, pi := range pos {
			for _, ni := range neg {
				a, b := cur[pi].k[v], -cur[ni].k[v]
				g := gcd64(a, b)
				a, b = a/g, b/g
				k := make([]int64, n)
				for i := 0; i < n; i++ {
					k[i] = addC(mulC(b, cur[pi].k[i]), mulC(a, cur[ni].k[i]))
				}
				c := cur[pi].c.mul(b).add(cur[ni].c.mul(a))
				if put(&next, m, k, c) {
					return true
				}
			}
		}
		if len(next) > fmLimit {
			return false
		}
		cur = next
	}
}

// Facts is an immutable conjunction of constraints l >= 0.
type Facts struct {
	ls []*Lin
}

func (f Facts) with(l *Lin) Facts {
	return Facts{append(f.ls[:len(f.ls):len(f.ls)], l)}
}

func (f Facts) key() string {
	ks := make([]string, len(f.ls))
	for i, l := range f.ls {
		ks[i] = l.Key()
	}
	sort.Strings(ks)
	return strings.Join(ks, "\x00\xff")
}

// relevant selects the facts connected to the symbols of goal.
func (e *Engine) relevant(f Facts, goal *Lin) []*Lin {
	in := map[Sym]bool{}
	var add func(s Sym)
	add = func(s Sym) {
		if in[s] {
			return
		}
		in[s] = true
		if q := e.syms[s].quot; q != nil {
			for _, t := range q.t {
				add(t.s)
			}
		}
	}
	for _, t := range goal.t {
		add(t.s)
	}
	used := make([]bool, len(f.ls))
	var out []*Lin
	for changed := true; changed; {
		changed = false
		for i, l := range f.ls {
			if used[i] {
				continue
			}
			hit := len(l.t) == 0
			for _, t := range l.t {
				if in[t.s] {
					hit = true
					break
				}
				if q := e.syms[t.s].quot; q != nil {
					for _, u := range q.t {
						if in[u.s] {
							hit = true
						}
					}
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, l)
				for _, t := range l.t {
					add(t.s)
				}
			}
		}
	}
	return out
}

// entails reports f => l >= 0 over the integers (false: not proven).
func (e *Engine) entails(f Facts, l *Lin) bool {
	if len(l.t) == 0 {
		return l.c.sign() >= 0
	}
	l = l.tighten()
	// cheap: bounds of a single symbol
	if len(l.t) == 1 {
		si := e.syms[l.t[0].s]
		if si.quot == nil {
			b := si.lo
			if l.t[0].k < 0 {
				b = si.hi
			}
			if b.cmp(minI) > 0 && b.cmp(maxI) < 0 {
				if b.mul(l.t[0].k).add(l.c).sign() >= 0 {
					return true
				}
			}
		}
	}
	// cheap: implied by a single fact
	vk := l.varKey()
	for _, g := range f.ls {
		if len(g.t) == len(l.t) && g.varKey() == vk && g.c.cmp(l.c) <= 0 {
			return true
		}
	}
	rel := e.relevant(f, l)
	ng := l.neg().addInt(-1).tighten()
	key := Facts{append(rel[:len(rel):len(rel)], ng)}.key()
	if r, ok := e.entCache[key]; ok {
		return r
	}
	e.stat.entail++
	r := e.infeasible(append(rel[:len(rel):len(rel)], ng))
	e.entCache[key] = r
	return r
}

// assume adds l >= 0; ok is false when the result is contradictory.
func (e *Engine) assume(f Facts, l *Lin) (Facts, bool) {
	if len(l.t) == 0 {
		return f, l.c.sign() >= 0
	}
	l = l.tighten()
	if e.entails(f, l) {
		return f, true
	}
	if e.entails(f, l.neg().addInt(-1)) {
		return f, false
	}
	return f.with(l), true
}

func (e *Engine) entailsEq(f Facts, l *Lin) bool {
	if len(l.t) == 0 {
		return l.c.sign() == 0
	}
	// a constant remainder modulo the coefficients' gcd rules equality out
	if g := l.termGCD(); g > 1 && l.c.modFloor(g) != 0 {
		return false
	}
	return e.entails(f, l) && e.entails(f, l.neg())
}

func (e *Engine) entailsNe(f Facts, l *Lin) bool {
	if len(l.t) == 0 {
		return l.c.sign() != 0
	}
	if g := l.termGCD(); g > 1 && l.c.modFloor(g) != 0 {
		return true
	}
	return e.entails(f, l.addInt(-1)) || e.entails(f, l.neg().addInt(-1))
}
