package ai

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Lin is a linear expression over integer atoms.
type Lin struct {
	k  *big.Int
	ts []LT
}

// LT is one monomial of a Lin.
type LT struct {
	a *Term
	c int64
}

func linConst(k int64) Lin { return Lin{k: big.NewInt(k)} }

func linBig(k *big.Int) Lin { return Lin{k: k} }

func linAtom(a *Term) Lin { return Lin{k: new(big.Int), ts: []LT{{a, 1}}} }

func (l Lin) isConst() bool { return len(l.ts) == 0 }

func (l Lin) add(o Lin) (Lin, bool) { return l.addMul(o, 1) }

// addMul returns l + m*o.
func (l Lin) addMul(o Lin, m int64) (Lin, bool) {
	r := Lin{k: new(big.Int).Add(l.k, new(big.Int).Mul(o.k, big.NewInt(m)))}
	i, j := 0, 0
	for i < len(l.ts) || j < len(o.ts) {
		switch {
		case j >= len(o.ts) || i < len(l.ts) && l.ts[i].a.ID < o.ts[j].a.ID:
			r.ts = append(r.ts, l.ts[i])
			i++
		case i >= len(l.ts) || o.ts[j].a.ID < l.ts[i].a.ID:
			c, ok := mulOK(o.ts[j].c, m)
			if !ok {
				return Lin{}, false
			}
			if c != 0 {
				r.ts = append(r.ts, LT{o.ts[j].a, c})
			}
			j++
		default:
			c, ok := mulOK(o.ts[j].c, m)
			if !ok {
				return Lin{}, false
			}
			s := l.ts[i].c + c
			if abs64(s) > 1<<61 {
				return Lin{}, false
			}
			if s != 0 {
				r.ts = append(r.ts, LT{l.ts[i].a, s})
			}
			i++
			j++
		}
	}
	return r, true
}

func (l Lin) scale(m int64) (Lin, bool) { return linConst(0).addMul(l, m) }

func (l Lin) plus(k int64) Lin {
	return Lin{k: new(big.Int).Add(l.k, big.NewInt(k)), ts: l.ts}
}

func (l Lin) plusBig(k *big.Int) Lin {
	return Lin{k: new(big.Int).Add(l.k, k), ts: l.ts}
}

func (l Lin) neg() Lin {
	r, _ := l.scale(-1)
	return r
}

func (l Lin) sub(o Lin) Lin {
	r, ok := l.addMul(o, -1)
	if !ok {
		panic("lin overflow")
	}
	return r
}

func (l Lin) key() string {
	b := make([]byte, 0, 16+16*len(l.ts))
	if l.k.IsInt64() {
		b = strconv.AppendInt(b, l.k.Int64(), 10)
	} else {
		b = l.k.Append(b, 10)
	}
	for _, t := range l.ts {
		b = append(b, '|')
		b = strconv.AppendInt(b, t.c, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.a.ID), 10)
	}
	return string(b)
}

func (l Lin) String() string {
	var p []string
	for _, t := range l.ts {
		switch t.c {
		case 1:
			p = append(p, t.a.String())
		case -1:
			p = append(p, "-"+t.a.String())
		default:
			p = append(p, fmt.Sprintf("%d*%s", t.c, t.a))
		}
	}
	if l.k.Sign() != 0 || len(p) == 0 {
		p = append(p, l.k.String())
	}
	return strings.Join(p, "+")
}

// Con is the constraint l >= 0, or l == 0.
type Con struct {
	l  Lin
	eq bool
	ks string // key, if computed
}

func (c Con) key() string {
	if c.ks != "" {
		return c.ks
	}
	if c.eq {
		return "=" + c.l.key()
	}
	return c.l.key()
}

func (c Con) String() string {
	if c.eq {
		return c.l.String() + " == 0"
	}
	return c.l.String() + " >= 0"
}

// tighten divides by the gcd of the coefficients, rounding the constant for
// integer solutions. ok is false if an equality has no integer solution.
func (c Con) tighten() (Con, bool) {
	if len(c.l.ts) == 0 {
		return c, true
	}
	g := uint64(0)
	for _, t := range c.l.ts {
		g = gcd64(g, abs64(t.c))
	}
	if c.eq && c.l.ts[0].c < 0 {
		c.l = c.l.neg()
		c.ks = ""
	}
	if g <= 1 {
		return c, true
	}
	bg := new(big.Int).SetUint64(g)
	q, m := new(big.Int).DivMod(c.l.k, bg, new(big.Int)) // floor
	if c.eq && m.Sign() != 0 {
		return c, false
	}
	r := Lin{k: q}
	for _, t := range c.l.ts {
		r.ts = append(r.ts, LT{t.a, t.c / int64(g)})
	}
	return Con{l: r, eq: c.eq}, true
}

// intTighten sharpens c using the equalities and that atoms are integers.
func intTighten(cons []Con, c Con) Con {
	if c.eq {
		return c
	}
	l := c.l
	used := map[int]bool{}
	for round := 0; round < 8; round++ {
		hit := false
		for i, x := range cons {
			if !x.eq || used[i] || len(x.l.ts) < 2 {
				continue
			}
			for _, t := range x.l.ts {
				if t.c != 1 && t.c != -1 {
					continue
				}
				var lc int64
				big := false
				for _, q := range l.ts {
					if q.a == t.a {
						lc = q.c
					}
				}
				for _, q := range x.l.ts {
					if q.c > 1 || q.c < -1 {
						big = true
					}
				}
				if lc == 0 || !big {
					continue
				}
				r, ok := l.addMul(x.l, -lc*t.c)
				if !ok {
					continue
				}
				l = r
				used[i] = true
				hit = true
				break
			}
			if hit {
				break
			}
		}
		if !hit {
			return c
		}
		if t, ok := (Con{l: l}).tighten(); ok && len(t.l.ts) > 0 && t.l.key() != l.key() {
			return t
		}
	}
	return c
}

// Range is the closed interval an atom lies in because of its type.
func atomRange(t *Term) (lo, hi *big.Int) {
	return t.lo, t.hi
}

// component selects the constraints connected to the atoms of seed.
func component(cons []Con, seed []*Term) []Con {
	if len(cons) == 0 {
		return nil
	}
	in := map[*Term]bool{}
	for _, a := range seed {
		in[a] = true
	}
	used := make([]bool, len(cons))
	var out []Con
	for changed := true; changed; {
		changed = false
		for i, c := range cons {
			if used[i] {
				continue
			}
			for _, t := range c.l.ts {
				if in[t.a] {
					used[i] = true
					break
				}
			}
			if used[i] {
				changed = true
				out = append(out, c)
				for _, t := range c.l.ts {
					in[t.a] = true
				}
			}
		}
	}
	return out
}

// feasible decides whether the constraints have a rational solution within the
// atoms' ranges (general simplex with Bland's rule).
func feasible(cons []Con) bool {
	type bound struct {
		has bool
		v   rat
	}
	idx := map[*Term]int{}
	var atoms []*Term
	for _, c := range cons {
		if len(c.l.ts) == 0 {
			if c.eq && c.l.k.Sign() != 0 || !c.eq && c.l.k.Sign() < 0 {
				return false
			}
		}
		for _, t := range c.l.ts {
			if _, ok := idx[t.a]; !ok {
				idx[t.a] = len(atoms)
				atoms = append(atoms, t.a)
			}
		}
	}
	n := len(atoms)
	var lo, hi []bound
	for _, a := range atoms {
		var l, h bound
		al, ah := atomRange(a)
		if al != nil {
			l = bound{true, ratBig(al)}
		}
		if ah != nil {
			h = bound{true, ratBig(ah)}
		}
		lo, hi = append(lo, l), append(hi, h)
	}
	raise := func(i int, v rat) {
		if !lo[i].has || lo[i].v.cmp(v) < 0 {
			lo[i] = bound{true, v}
		}
	}
	lower := func(i int, v rat) {
		if !hi[i].has || hi[i].v.cmp(v) > 0 {
			hi[i] = bound{true, v}
		}
	}
	// rows: basic slack = sum coefs*x
	var rows [][]rat
	rowKey := map[string]int{}
	for _, c := range cons {
		switch len(c.l.ts) {
		case 0:
			continue
		case 1:
			t := c.l.ts[0]
			i := idx[t.a]
			v := ratBig(new(big.Int).Neg(c.l.k)).mul(ratInt(t.c).inv())
			if c.eq {
				raise(i, v)
				lower(i, v)
			} else if t.c > 0 {
				raise(i, v)
			} else {
				lower(i, v)
			}
		default:
			// share rows with same linear part up to sign
			sg := int64(1)
			if c.l.ts[0].c < 0 {
				sg = -1
			}
			kb := make([]byte, 0, 64)
			for _, t := range c.l.ts {
				kb = strconv.AppendInt(kb, t.c*sg, 10)
				kb = append(kb, '*')
				kb = strconv.AppendInt(kb, int64(t.a.ID), 10)
				kb = append(kb, ',')
			}
			r, ok := rowKey[string(kb)]
			if !ok {
				row := make([]rat, n)
				for i := range row {
					row[i] = ratZero
				}
				for _, t := range c.l.ts {
					row[idx[t.a]] = ratInt(t.c * sg)
				}
				r = len(rows)
				rowKey[string(kb)] = r
				rows = append(rows, row)
				lo, hi = append(lo, bound{}), append(hi, bound{})
			}
			v := ratBig(new(big.Int).Neg(c.l.k))
			if c.eq {
				if sg < 0 {
					v = v.neg()
				}
				raise(n+r, v)
				lower(n+r, v)
			} else if sg > 0 {
				raise(n+r, v)
			} else {
				lower(n+r, v.neg())
			}
		}
	}
	m := len(rows)
	total := n + m
	for i := 0; i < total; i++ {
		if lo[i].has && hi[i].has && lo[i].v.cmp(hi[i].v) > 0 {
			return false
		}
	}
	if m == 0 {
		return true
	}
	val := make([]rat, total)
	basicOf := make([]int, m)  // row -> var
	nonbasic := make([]int, n) // col -> var
	for j := 0; j < n; j++ {
		nonbasic[j] = j
		switch {
		case lo[j].has:
			val[j] = lo[j].v
		case hi[j].has:
			val[j] = hi[j].v
		default:
			val[j] = ratZero
		}
	}
	for r := 0; r < m; r++ {
		basicOf[r] = n + r
		s := ratZero
		for j := 0; j < n; j++ {
			if rows[r][j].sign() != 0 {
				s = s.add(rows[r][j].mul(val[j]))
			}
		}
		val[n+r] = s
	}
	for iter := 0; iter < 2000; iter++ {
		// pick violating basic var with smallest index
		pr, up := -1, false
		for r := 0; r < m; r++ {
			b := basicOf[r]
			if lo[b].has && val[b].cmp(lo[b].v) < 0 {
				if pr < 0 || b < basicOf[pr] {
					pr, up = r, true
				}
			} else if hi[b].has && val[b].cmp(hi[b].v) > 0 {
				if pr < 0 || b < basicOf[pr] {
					pr, up = r, false
				}
			}
		}
		if pr < 0 {
			return true
		}
		b := basicOf[pr]
		target := lo[b].v
		if !up {
			target = hi[b].v
		}
		pc := -1
		for j := 0; j < n; j++ {
			s := rows[pr][j].sign()
			if s == 0 {
				continue
			}
			x := nonbasic[j]
			canUp := !hi[x].has || val[x].cmp(hi[x].v) < 0
			canDown := !lo[x].has || val[x].cmp(lo[x].v) > 0
			ok := false
			if up {
				ok = s > 0 && canUp || s < 0 && canDown
			} else {
				ok = s > 0 && canDown || s < 0 && canUp
			}
			if ok && (pc < 0 || x < nonbasic[pc]) {
				pc = j
			}
		}
		if pc < 0 {
			return false
		}
		x := nonbasic[pc]
		a := rows[pr][pc]
		theta := target.sub(val[b]).mul(a.inv())
		val[b] = target
		val[x] = val[x].add(theta)
		for r := 0; r < m; r++ {
			if r != pr && rows[r][pc].sign() != 0 {
				val[basicOf[r]] = val[basicOf[r]].add(rows[r][pc].mul(theta))
			}
		}
		// pivot
		ia := a.inv()
		for j := 0; j < n; j++ {
			if j == pc {
				rows[pr][j] = ia
			} else if rows[pr][j].sign() != 0 {
				rows[pr][j] = rows[pr][j].mul(ia).neg()
			}
		}
		for r := 0; r < m; r++ {
			if r == pr {
				continue
			}
			f := rows[r][pc]
			if f.sign() == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				if j == pc {
					rows[r][j] = f.mul(rows[pr][j])
				} else if rows[pr][j].sign() != 0 {
					rows[r][j] = rows[r][j].add(f.mul(rows[pr][j]))
				}
			}
		}
		basicOf[pr], nonbasic[pc] = x, b
	}
	return true // gave up: assume feasible
}

func linAtoms(l Lin) []*Term {
	r := make([]*Term, len(l.ts))
	for i, t := range l.ts {
		r[i] = t.a
	}
	return r
}

func sortLTs(ts []LT) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].a.ID < ts[j].a.ID })
}
