package ai

import (
	"math/big"
	"math/bits"
)

// rat is an exact rational with an int64 fast path.
type rat struct {
	n, d int64 // d > 0 when b == nil
	b    *big.Rat
}

var ratZero = rat{n: 0, d: 1}

func ratInt(n int64) rat { return rat{n: n, d: 1} }

func ratBig(i *big.Int) rat {
	if i.IsInt64() {
		return ratInt(i.Int64())
	}
	return rat{b: new(big.Rat).SetInt(i)}
}

func (r rat) big() *big.Rat {
	if r.b != nil {
		return r.b
	}
	return big.NewRat(r.n, r.d)
}

func fromBig(b *big.Rat) rat {
	if b.Num().IsInt64() && b.Denom().IsInt64() {
		return rat{n: b.Num().Int64(), d: b.Denom().Int64()}
	}
	return rat{b: b}
}

func mulOK(a, b int64) (int64, bool) {
	neg := (a < 0) != (b < 0)
	ua, ub := abs64(a), abs64(b)
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func abs64(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

func gcd64(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func norm(n, d int64) rat {
	if n == 0 {
		return ratZero
	}
	if d < 0 {
		n, d = -n, -d
	}
	g := gcd64(abs64(n), uint64(d))
	if g > 1 {
		n /= int64(g)
		d /= int64(g)
	}
	return rat{n: n, d: d}
}

func (r rat) add(o rat) rat {
	if r.b == nil && o.b == nil {
		if r.d == 1 && o.d == 1 {
			s := r.n + o.n
			if (s > r.n) == (o.n > 0) {
				return rat{n: s, d: 1}
			}
		}
		x, ok1 := mulOK(r.n, o.d)
		y, ok2 := mulOK(o.n, r.d)
		d, ok3 := mulOK(r.d, o.d)
		if ok1 && ok2 && ok3 {
			s := x + y
			if (s > x) == (y > 0) {
				return norm(s, d)
			}
		}
	}
	return fromBig(new(big.Rat).Add(r.big(), o.big()))
}

func (r rat) neg() rat {
	if r.b == nil && r.n != -1<<63 {
		return rat{n: -r.n, d: r.d}
	}
	return fromBig(new(big.Rat).Neg(r.big()))
}

func (r rat) sub(o rat) rat { return r.add(o.neg()) }

func (r rat) mul(o rat) rat {
	if r.b == nil && o.b == nil {
		if r.n == 0 || o.n == 0 {
			return ratZero
		}
		n, ok1 := mulOK(r.n, o.n)
		d, ok2 := mulOK(r.d, o.d)
		if ok1 && ok2 {
			return norm(n, d)
		}
	}
	return fromBig(new(big.Rat).Mul(r.big(), o.big()))
}

func (r rat) inv() rat {
	if r.b == nil && r.n != -1<<63 {
		if r.n < 0 {
			return rat{n: -r.d, d: -r.n}
		}
		return rat{n: r.d, d: r.n}
	}
	return fromBig(new(big.Rat).Inv(r.big()))
}

func (r rat) sign() int {
	if r.b != nil {
		return r.b.Sign()
	}
	switch {
	case r.n > 0:
		return 1
	case r.n < 0:
		return -1
	}
	return 0
}

func (r rat) cmp(o rat) int {
	if r.b == nil && o.b == nil {
		if r.d == o.d {
			switch {
			case r.n < o.n:
				return -1
			case r.n > o.n:
				return 1
			}
			return 0
		}
	}
	return r.sub(o).sign()
}
