package main

import (
	"math/big"
	"math/bits"
)

// I128 is a checked signed 128-bit integer: large enough for every bound the
// analysis meets (machine words times small coefficients). Overflow aborts the
// current query, it never wraps silently.
type I128 struct {
	hi int64
	lo uint64
}

type overflow128 struct{}

func i128(x int64) I128 { return I128{x >> 63, uint64(x)} }

func u128(x uint64) I128 { return I128{0, x} }

// pow2 returns 2^k for 0 <= k < 126.
func pow2(k uint) I128 {
	if k < 64 {
		return I128{0, 1 << k}
	}
	return I128{int64(1) << (k - 64), 0}
}

func (a I128) add(b I128) I128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi := a.hi + b.hi + int64(c)
	// overflow: operands share a sign which the result lacks
	if (a.hi < 0) == (b.hi < 0) && (hi < 0) != (a.hi < 0) {
		panic(overflow128{})
	}
	return I128{hi, lo}
}

func (a I128) neg() I128 {
	lo, c := bits.Add64(^a.lo, 1, 0)
	hi := int64(^uint64(a.hi) + c)
	if a.hi < 0 && hi < 0 {
		panic(overflow128{})
	}
	return I128{hi, lo}
}

func (a I128) sub(b I128) I128 { return a.add(b.neg()) }

func (a I128) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}

func (a I128) cmp(b I128) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}

func (a I128) abs() I128 {
	if a.hi < 0 {
		return a.neg()
	}
	return a
}

func (a I128) big() *big.Int {
	r := big.NewInt(a.hi)
	r.Lsh(r, 64)
	return r.Add(r, new(big.Int).SetUint64(a.lo))
}

func (a I128) String() string { return a.big().String() }

// mul multiplies by a 64-bit integer.
func (a I128) mul(k int64) I128 {
	if k == 0 || (a.hi == 0 && a.lo == 0) {
		return I128{}
	}
	neg := (a.hi < 0) != (k < 0)
	x := a.abs()
	var m uint64
	if k < 0 {
		m = uint64(-k)
	} else {
		m = uint64(k)
	}
	h1, l1 := bits.Mul64(x.lo, m)
	h2, l2 := bits.Mul64(uint64(x.hi), m)
	if h2 != 0 {
		panic(overflow128{})
	}
	hi, c := bits.Add64(h1, l2, 0)
	if c != 0 || hi > 1<<62 {
		panic(overflow128{})
	}
	r := I128{int64(hi), l1}
	if neg {
		return r.neg()
	}
	return r
}

// divFloor divides by a positive 64-bit integer, rounding towards minus infinity.
func (a I128) divFloor(d int64) I128 {
	if d <= 0 {
		panic("divFloor: divisor")
	}
	neg := a.hi < 0
	x := a.abs()
	m := uint64(d)
	qh := uint64(x.hi) / m
	rh := uint64(x.hi) % m
	ql, r := bits.Div64(rh, x.lo, m)
	q := I128{int64(qh), ql}
	if neg {
		q = q.neg()
		if r != 0 {
			q = q.add(i128(-1))
		}
	}
	return q
}

// modFloor is the remainder belonging to divFloor, in [0,d).
func (a I128) modFloor(d int64) int64 {
	q := a.divFloor(d)
	r := a.sub(q.mul(d))
	return int64(r.lo)
}

// int64 reports the value as an int64 when it fits.
func (a I128) int64() (int64, bool) {
	v := int64(a.lo)
	if a.hi == v>>63 {
		return v, true
	}
	return 0, false
}
