package ai

import "math/big"

// Floats are terms over conversions and operations; only signs and constant
// bounds are derived. Rounding keeps both, and values are taken to be smaller
// than 2^63 when they are converted to integers.

func floatConst(t *Term) *big.Rat {
	if t.Op == "int" {
		if i, ok := t.Int64(); ok {
			return new(big.Rat).SetInt64(i)
		}
	}
	if t.Op != "float" {
		return nil
	}
	r, ok := new(big.Rat).SetString(t.Aux)
	if !ok {
		return nil
	}
	return r
}

func (s *State) lessLit(a, b *Term) int {
	l := MkOp("less", "", boolType, a, b)
	if v, ok := s.lits[l]; ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// floatGE0: the float is not negative.
func (s *State) floatGE0(t *Term) bool {
	if c := floatConst(t); c != nil {
		return c.Sign() >= 0
	}
	for l, v := range s.lits {
		if l.Op != "less" {
			continue
		}
		if !v && l.Args[0] == t {
			if c := floatConst(l.Args[1]); c != nil && c.Sign() >= 0 {
				return true
			}
		}
		if v && l.Args[1] == t {
			if c := floatConst(l.Args[0]); c != nil && c.Sign() >= 0 {
				return true
			}
		}
	}
	switch {
	case t.Op == "conv" && len(t.Args) == 1:
		a := t.Args[0]
		if a.Typ != nil && !isIntType(a.Typ) {
			return s.floatGE0(a)
		}
		return s.LE(MkInt(0), a)
	case t.Op == "fop" && t.Aux == "/" && !s.floatNonZero(t.Args[1]):
		return false // may be infinite, or no number
	case t.Op == "fop" && (t.Aux == "+" || t.Aux == "*" || t.Aux == "/"):
		return s.floatGE0(t.Args[0]) && s.floatGE0(t.Args[1])
	case isMath(t, "Round", "Floor", "Ceil", "Trunc", "Abs"):
		return isMath(t, "Abs") || s.floatGE0(t.Args[0])
	case isMath(t, "Min"), t.Op == "fmin":
		return s.floatGE0(t.Args[0]) && s.floatGE0(t.Args[1])
	case isMath(t, "Max"), t.Op == "fmax":
		return s.floatGE0(t.Args[0]) || s.floatGE0(t.Args[1])
	}
	return false
}

func isMath(t *Term, names ...string) bool {
	for _, n := range names {
		if t.Op == "fn" && t.Aux == "math."+n+"#0" {
			return true
		}
	}
	return false
}

// floatLE: the float is at most the (whole) constant.
func (s *State) floatLE(t *Term, k int64) bool {
	kr := new(big.Rat).SetInt64(k)
	if c := floatConst(t); c != nil {
		return c.Cmp(kr) <= 0
	}
	for l, v := range s.lits {
		if l.Op != "less" {
			continue
		}
		if !v && l.Args[1] == t {
			if c := floatConst(l.Args[0]); c != nil && c.Cmp(kr) <= 0 {
				return true
			}
		}
		if v && l.Args[0] == t {
			if c := floatConst(l.Args[1]); c != nil && c.Cmp(kr) <= 0 {
				return true
			}
		}
	}
	switch {
	case t.Op == "conv" && len(t.Args) == 1:
		a := t.Args[0]
		if a.Typ != nil && !isIntType(a.Typ) {
			return s.floatLE(a, k)
		}
		return s.LE(a, MkInt(k))
	case isMath(t, "Round", "Floor", "Ceil", "Trunc"):
		return s.floatLE(t.Args[0], k)
	case isMath(t, "Min"), t.Op == "fmin":
		return s.floatLE(t.Args[0], k) || s.floatLE(t.Args[1], k)
	case isMath(t, "Max"), t.Op == "fmax":
		return s.floatLE(t.Args[0], k) && s.floatLE(t.Args[1], k)
	case t.Op == "fop" && t.Aux == "*":
		for i := 0; i < 2; i++ {
			c := floatConst(t.Args[i])
			if c == nil || c.Sign() <= 0 || !c.IsInt() {
				continue
			}
			q, r := new(big.Int).QuoRem(big.NewInt(k), c.Num(), new(big.Int))
			if r.Sign() == 0 && q.IsInt64() && s.floatLE(t.Args[1-i], q.Int64()) {
				return true
			}
		}
	case t.Op == "fop" && t.Aux == "/":
		a, b := t.Args[0], t.Args[1]
		// (c*x)/y with x <= y
		if a.Op == "fop" && a.Aux == "*" {
			for i := 0; i < 2; i++ {
				if c := floatConst(a.Args[i]); c != nil && c.Sign() > 0 && c.Cmp(kr) <= 0 && s.floatLess(a.Args[1-i], b) {
					return true
				}
			}
		}
		return k >= 1 && s.floatLess(a, b)
	}
	return false
}

// floatLess: 0 <= a <= b for converted integers.
func (s *State) floatLess(a, b *Term) bool {
	if a.Op != "conv" || b.Op != "conv" {
		return false
	}
	x, y := a.Args[0], b.Args[0]
	return x.Typ != nil && y.Typ != nil && isIntType(x.Typ) && isIntType(y.Typ) && s.LE(MkInt(0), x) && s.LE(x, y)
}

// floatNonZero: the float is a constant or converted integer other than zero.
func (s *State) floatNonZero(t *Term) bool {
	if c := floatConst(t); c != nil {
		return c.Sign() != 0
	}
	if t.Op != "conv" || len(t.Args) != 1 {
		return false
	}
	a := t.Args[0]
	if a.Typ != nil && !isIntType(a.Typ) {
		return s.floatNonZero(a)
	}
	return s.LE(MkInt(1), a) || s.LE(a, MkInt(-1))
}
