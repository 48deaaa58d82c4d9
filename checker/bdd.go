package main

// Bit-level domain: each bit of a machine value is a boolean function of the
// initial bits, kept as a hash-consed reduced ordered decision diagram, so
// equality of functions is identity of nodes.

type Node int32

const (
	bFalse Node = 0
	bTrue  Node = 1
)

const (
	bddLimit = 400000 // nodes in all
	bddStep  = 20000  // nodes one instruction may add
	bddTest  = 20000  // nodes one comparison may add
	bddWide  = 96     // bits a comparison may depend on
)

type bddNode struct {
	v      int32
	lo, hi Node
}

type atomInfo struct {
	kind byte // 'a' array element bit, 'l' bit of an affine value, 'f' fresh
	arr  int  // array content id
	lin  *Lin
	bit  int
	w    int
	name string
}

type bdd struct {
	nodes  []bddNode
	limit  int
	lost   int // nodes spent on results that were given up
	uniq   map[bddNode]Node
	iteC   map[[3]Node]Node
	atoms  []atomInfo
	atomIx map[string]int32
}

func newBDD() *bdd {
	b := &bdd{limit: bddLimit, uniq: map[bddNode]Node{}, iteC: map[[3]Node]Node{}, atomIx: map[string]int32{}}
	b.nodes = []bddNode{{v: 1 << 30}, {v: 1 << 30}}
	return b
}

type bddOverflow struct{}

func (b *bdd) mk(v int32, lo, hi Node) Node {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if r, ok := b.uniq[n]; ok {
		return r
	}
	if len(b.nodes) > b.limit {
		panic(bddOverflow{})
	}
	b.nodes = append(b.nodes, n)
	r := Node(len(b.nodes) - 1)
	b.uniq[n] = r
	return r
}

func (b *bdd) ite(f, g, h Node) Node {
	switch {
	case f == bTrue:
		return g
	case f == bFalse:
		return h
	case g == h:
		return g
	case g == bTrue && h == bFalse:
		return f
	}
	if g == f {
		g = bTrue
	}
	if h == f {
		h = bFalse
	}
	k := [3]Node{f, g, h}
	if r, ok := b.iteC[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if x := b.nodes[g].v; x < v {
		v = x
	}
	if x := b.nodes[h].v; x < v {
		v = x
	}
	f0, f1 := b.cof(f, v)
	g0, g1 := b.cof(g, v)
	h0, h1 := b.cof(h, v)
	r := b.mk(v, b.ite(f0, g0, h0), b.ite(f1, g1, h1))
	b.iteC[k] = r
	return r
}

func (b *bdd) cof(f Node, v int32) (Node, Node) {
	n := b.nodes[f]
	if n.v == v {
		return n.lo, n.hi
	}
	return f, f
}

func (b *bdd) not(f Node) Node    { return b.ite(f, bFalse, bTrue) }
func (b *bdd) and(f, g Node) Node { return b.ite(f, g, bFalse) }
func (b *bdd) or(f, g Node) Node  { return b.ite(f, bTrue, g) }
func (b *bdd) xor(f, g Node) Node { return b.ite(f, b.not(g), g) }

func (b *bdd) atom(key string, info atomInfo) Node {
	i, ok := b.atomIx[key]
	if !ok {
		i = int32(len(b.atoms))
		b.atoms = append(b.atoms, info)
		b.atomIx[key] = i
	}
	return b.mk(i, bFalse, bTrue)
}

// rename rebuilds f with every atom replaced by m(atom).
func (b *bdd) rename(f Node, m func(int32) Node, memo map[Node]Node) Node {
	if f <= 1 {
		return f
	}
	if r, ok := memo[f]; ok {
		return r
	}
	n := b.nodes[f]
	r := b.ite(m(n.v), b.rename(n.hi, m, memo), b.rename(n.lo, m, memo))
	memo[f] = r
	return r
}

func (b *bdd) support(f Node, seen map[Node]bool, out map[int32]bool) {
	if f <= 1 || seen[f] {
		return
	}
	seen[f] = true
	n := b.nodes[f]
	out[n.v] = true
	b.support(n.lo, seen, out)
	b.support(n.hi, seen, out)
}
