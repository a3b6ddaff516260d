package ai

import (
	"math/big"
	"sort"
)

// affineHull gives equations that follow from both lists of equations: the
// intersection of their row spaces (Zassenhaus).
func affineHull(A, B []Con) []Con {
	cols := map[*Term]int{}
	var atoms []*Term
	row := func(l Lin) map[int]*big.Rat {
		r := map[int]*big.Rat{}
		if l.k.Sign() != 0 {
			r[0] = new(big.Rat).SetInt(l.k)
		}
		for _, t := range l.ts {
			i, ok := cols[t.a]
			if !ok {
				atoms = append(atoms, t.a)
				i = len(atoms)
				cols[t.a] = i
			}
			r[i] = new(big.Rat).SetInt64(t.c)
		}
		return r
	}
	var ra, rb []map[int]*big.Rat
	for _, x := range A {
		if x.eq {
			ra = append(ra, row(x.l))
		}
	}
	for _, x := range B {
		if x.eq {
			rb = append(rb, row(x.l))
		}
	}
	if len(ra) == 0 || len(rb) == 0 || len(ra) > 160 || len(rb) > 160 {
		return nil
	}
	n := len(atoms) + 1
	var rows []map[int]*big.Rat
	for _, r := range ra {
		q := map[int]*big.Rat{}
		for i, v := range r {
			q[i], q[n+i] = v, v
		}
		rows = append(rows, q)
	}
	rows = append(rows, rb...)
	// columns with unknowns first, the constant last of each half
	pivots := map[int]map[int]*big.Rat{}
	lead := func(r map[int]*big.Rat) int {
		best := -1
		for i := range r {
			key := func(x int) int {
				h, c := x/n, x%n
				if c == 0 {
					c = n
				}
				return h*(n+1) + c
			}
			if best < 0 || key(i) < key(best) {
				best = i
			}
		}
		return best
	}
	reduceRow := func(r map[int]*big.Rat) int {
		for {
			l := lead(r)
			if l < 0 {
				return l
			}
			p, ok := pivots[l]
			if !ok {
				return l
			}
			f := new(big.Rat).Quo(r[l], p[l])
			for i, v := range p {
				d := new(big.Rat).Mul(f, v)
				if o, ok := r[i]; ok {
					d.Sub(o, d)
				} else {
					d.Neg(d)
				}
				if d.Sign() == 0 {
					delete(r, i)
				} else {
					r[i] = d
				}
			}
			delete(r, l)
		}
	}
	for _, r := range rows {
		q := map[int]*big.Rat{}
		for i, v := range r {
			q[i] = v
		}
		if l := reduceRow(q); l >= 0 {
			pivots[l] = q
		}
	}
	var ls []int
	for l := range pivots {
		if l >= n {
			ls = append(ls, l)
		}
	}
	sort.Ints(ls)
	var out []Con
	for _, l := range ls {
		den := big.NewInt(1)
		p := pivots[l]
		for _, v := range p {
			g := new(big.Int).GCD(nil, nil, den, v.Denom())
			den.Mul(den, new(big.Int).Quo(v.Denom(), g))
		}
		lin := Lin{k: new(big.Int)}
		ok := true
		for i := n; i < 2*n && ok; i++ {
			v := p[i]
			if v == nil {
				continue
			}
			z := new(big.Int).Mul(v.Num(), new(big.Int).Quo(den, v.Denom()))
			if i == n {
				lin, ok = lin.addMul(Lin{k: z}, 1)
				continue
			}
			if !z.IsInt64() || abs64(z.Int64()) > 1<<20 {
				ok = false
				break
			}
			lin, ok = lin.addMul(linAtom(atoms[i-n-1]), z.Int64())
		}
		if ok && !lin.isConst() {
			out = append(out, Con{l: lin, eq: true})
		}
	}
	return out
}
