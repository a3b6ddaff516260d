package ai

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type joiner struct {
	a, b  *State
	pairs map[[2]*Term]*Term
	news  []newSym
	gen   int // number of generalizations done
	c     *State
	obj   [][3]*Term // merged objects: a, b, new
}

type newSym struct {
	s, ta, tb *Term
}

func (j *joiner) au(x, y *Term, typ types.Type) *Term {
	if x == y {
		return x
	}
	k := [2]*Term{x, y}
	if r, ok := j.pairs[k]; ok {
		return r
	}
	if typ == nil {
		typ = x.Typ
		if typ == nil {
			typ = y.Typ
		}
	}
	// slices: generalize component wise
	if typ != nil {
		if _, ok := typ.Underlying().(*types.Slice); ok {
			o1, f1, l1, c1 := sliceParts(x)
			o2, f2, l2, c2 := sliceParts(y)
			r := MkSlice(j.auArr(o1, o2), j.auLen(f1, f2), j.auLen(l1, l2), j.auLen(c1, c2), typ)
			j.pairs[k] = r
			return r
		}
	}
	if x.IsInt() && y.IsInt() {
		return j.auInt(x, y, typ)
	}
	if x.Op == y.Op && x.Aux == y.Aux && len(x.Args) == len(y.Args) && x.Ref == y.Ref && len(x.Args) > 0 {
		switch x.Op {
		case "struct", "tuple", "iface", "closure":
			args := make([]*Term, len(x.Args))
			for i := range args {
				var ft types.Type
				if x.Op == "struct" && x.Typ != nil {
					if st, ok := x.Typ.Underlying().(*types.Struct); ok && i < st.NumFields() {
						ft = st.Field(i).Type()
					}
				}
				args[i] = j.au(x.Args[i], y.Args[i], ft)
			}
			r := rebuild(x, args)
			j.pairs[k] = r
			return r
		case "faddr":
			b := j.au(x.Args[0], y.Args[0], nil)
			r := rebuild(x, []*Term{b})
			j.pairs[k] = r
			return r
		}
	}
	j.gen++
	s := MkSym("j", typ)
	if isNilable(typ) {
		s.Nullable = j.a.Nilness(x) != -1 || j.b.Nilness(y) != -1
	}
	j.pairs[k] = s
	if isStringType(typ) || isStringType(x.Typ) || isStringType(y.Typ) {
		// relate lengths
		l := j.auLen(clen(x), clen(y))
		j.c.pendingEq(mkLenRaw(s), l)
	}
	// merge objects
	ptr := false
	if typ != nil {
		_, ptr = typ.Underlying().(*types.Pointer)
	}
	if ptr || x.Op == "alloc" || y.Op == "alloc" {
		j.obj = append(j.obj, [3]*Term{x, y, s})
	}
	return s
}

func (j *joiner) auArr(x, y *Term) *Term {
	if x == y {
		return x
	}
	k := [2]*Term{x, y}
	if r, ok := j.pairs[k]; ok {
		return r
	}
	j.gen++
	s := MkSym("arr", nil)
	j.pairs[k] = s
	j.obj = append(j.obj, [3]*Term{x, y, s})
	return s
}

// auLen generalizes lengths.
func (j *joiner) auLen(x, y *Term) *Term {
	if x == y {
		return x
	}
	k := [2]*Term{x, y}
	if r, ok := j.pairs[k]; ok {
		return r
	}
	j.gen++
	symCtr++
	s := intern("isym", fmt.Sprintf("len#%d", symCtr), nil, nil, nil)
	j.pairs[k] = s
	j.news = append(j.news, newSym{s, x, y})
	return s
}

func (j *joiner) auInt(x, y *Term, typ types.Type) *Term {
	if x == y {
		return x
	}
	k := [2]*Term{x, y}
	if r, ok := j.pairs[k]; ok {
		return r
	}
	j.gen++
	if !isIntType(typ) {
		typ = x.Typ
		if typ == nil {
			typ = y.Typ
		}
		if x.Typ != nil && y.Typ != nil && !types.Identical(x.Typ, y.Typ) {
			typ = nil
		}
	}
	s := mkIntSym()
	if isIntType(typ) {
		s = MkSym("n", typ)
	}
	j.pairs[k] = s
	j.news = append(j.news, newSym{s, x, y})
	return s
}

// mkIntSym is an integer unknown without range.
func mkIntSym() *Term {
	symCtr++
	return intern("isym", fmt.Sprintf("n#%d", symCtr), nil, nil, nil)
}

func (s *State) pendingEq(a, b *Term) {
	s.cons = append(s.cons[:len(s.cons):len(s.cons)], Con{l: linOf(MkSub(a, b)), eq: true})
}

// join merges two states of the same partition. gen is the number of values
// that had to be generalized.
func (e *Engine) join(a, b *State, widen int) (*State, *joiner) {
	j := &joiner{a: a, b: b, pairs: map[[2]*Term]*Term{}}
	c := newState()
	j.c = c
	c.locks = a.locks
	for k, v := range a.mon {
		c.mon[k] = v
	}
	// environment
	vals := make([]ssa.Value, 0, len(a.env))
	for v := range a.env {
		if _, ok := b.env[v]; ok {
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(x, y int) bool { return vals[x].Name() < vals[y].Name() })
	for _, v := range vals {
		c.env[v] = j.au(a.env[v], b.env[v], v.Type())
	}
	// ghosts
	gs := make([]string, 0)
	for k := range a.ghost {
		if _, ok := b.ghost[k]; ok {
			gs = append(gs, k)
		}
	}
	sort.Strings(gs)
	for _, k := range gs {
		if !a.ghost[k].IsInt() || !b.ghost[k].IsInt() {
			c.ghost[k] = j.au(a.ghost[k], b.ghost[k], nil)
		}
	}
	// defers (same number, by partition)
	for i := range a.defers {
		d, o := a.defers[i], b.defers[i]
		n := &deferred{call: d.call, site: d.site}
		if d.fn != nil && o.fn != nil {
			n.fn = j.au(d.fn, o.fn, nil)
		}
		for k := range d.args {
			if k < len(o.args) {
				n.args = append(n.args, j.au(d.args[k], o.args[k], nil))
			}
		}
		c.defers = append(c.defers, n)
	}
	// heap
	j.heap()
	// numbers of the monitors: typed as in the program where it has them
	for _, k := range gs {
		if a.ghost[k].IsInt() && b.ghost[k].IsInt() {
			c.ghost[k] = j.au(a.ghost[k], b.ghost[k], nil)
		}
	}
	// facts
	j.facts(e, widen)
	return c, j
}

func (j *joiner) heap() {
	a, b, c := j.a, j.b, j.c
	known := func(s *State, addr *Term) bool {
		r := rootOf(addr)
		if r.Op != "alloc" {
			return true
		}
		_, ok := s.objs[r]
		return ok
	}
	addrs := map[*Term]bool{}
	for x := range a.heap {
		addrs[x] = true
	}
	for x := range b.heap {
		addrs[x] = true
	}
	list := make([]*Term, 0, len(addrs))
	for x := range addrs {
		list = append(list, x)
	}
	sort.Slice(list, func(x, y int) bool { return list[x].ID < list[y].ID })
	cellTyp := func(addr, v *Term) types.Type {
		if p, ok := addr.Typ.(*types.Pointer); ok {
			return p.Elem()
		}
		return v.Typ
	}
	val := func(s *State, addr *Term, typ types.Type, other *Term) *Term {
		if v, ok := s.heap[addr]; ok {
			return v
		}
		if typ == nil {
			typ = other.Typ
		}
		if isFactCell(addr) {
			return MkInt(0)
		}
		if addr.Op == "gfield" || typ == nil {
			return MkStr("")
		}
		if _, _, ok := elemOfPath(addr); ok {
			return s.loadElem(addr, typ)
		}
		return s.initial(addr, typ)
	}
	for _, x := range list {
		va, oka := a.heap[x]
		vb, okb := b.heap[x]
		if el, _, ok := elemOfPath(x); ok && !(oka && okb) {
			if _, c := el.Args[1].Int64(); !c {
				// an element not known on the other side: forget it
				continue
			}
		}
		switch {
		case oka && okb:
			c.heap[x] = j.au(va, vb, cellTyp(x, va))
		case oka:
			if known(b, x) {
				t := cellTyp(x, va)
				c.heap[x] = j.au(va, val(b, x, t, va), t)
			} else {
				c.heap[x] = va
			}
		case okb:
			if known(a, x) {
				t := cellTyp(x, vb)
				c.heap[x] = j.au(val(a, x, t, vb), vb, t)
			} else {
				c.heap[x] = vb
			}
		}
	}
	// objects
	mergeObj := func(key *Term, oa, ob *obj) {
		n := *oa
		if oa.content != nil && ob.content != nil {
			if oa.content != ob.content {
				n.content = j.au(oa.content, ob.content, types.Typ[types.String])
			}
		} else if oa.content != ob.content {
			n.content = nil
			epochCtr++
			n.epoch = epochCtr
		}
		if oa.zero != ob.zero || oa.epoch != ob.epoch || oa.def != ob.def || oa.tail != ob.tail {
			n.def, n.tail = nil, nil
			n.zero = false
			epochCtr++
			n.epoch = epochCtr
		}
		c.objs[key] = &n
	}
	keys := map[*Term]bool{}
	for k := range a.objs {
		keys[k] = true
	}
	for k := range b.objs {
		keys[k] = true
	}
	ol := make([]*Term, 0, len(keys))
	for k := range keys {
		ol = append(ol, k)
	}
	sort.Slice(ol, func(x, y int) bool { return ol[x].ID < ol[y].ID })
	for _, k := range ol {
		oa, ob := a.objs[k], b.objs[k]
		switch {
		case oa == ob:
			c.objs[k] = oa
		case oa == nil && k.Op == "alloc":
			c.objs[k] = ob
		case ob == nil && k.Op == "alloc":
			c.objs[k] = oa
		default:
			if oa == nil {
				oa = &obj{}
				if oc := a.contentOfArrObj(k); ob.content != nil {
					oa.content = oc
					oa.kind = ob.kind
				}
			}
			if ob == nil {
				ob = &obj{}
				if oc := b.contentOfArrObj(k); oa.content != nil {
					ob.content = oc
					ob.kind = oa.kind
				}
			}
			mergeObj(k, oa, ob)
		}
	}
	// merged objects: copy cells path by path
	for i := 0; i < len(j.obj) && i < 64; i++ {
		x, y, s := j.obj[i][0], j.obj[i][1], j.obj[i][2]
		oa, ob := a.obj(x), b.obj(y)
		ca, cb := oa.content, ob.content
		if ca != nil || cb != nil {
			if ca == nil {
				ca = a.contentOfArrObj(x)
			}
			if cb == nil {
				cb = b.contentOfArrObj(y)
			}
			if x != nilArr && y != nilArr {
				n := &obj{kind: "bytes"}
				n.content = j.au(ca, cb, types.Typ[types.String])
				c.objs[s] = n
			}
			continue
		}
		if x.Op == "nil" || y.Op == "nil" {
			// only the non nil side is ever dereferenced
			continue
		}
		paths := map[*Term]types.Type{} // path over s -> type
		collect := func(st *State, root *Term) {
			for ad := range st.heap {
				if rootOf(ad) == root && pathOnly(ad) {
					n := repath(ad, root, s)
					if p, ok := ad.Typ.(*types.Pointer); ok {
						paths[n] = p.Elem()
					} else {
						paths[n] = nil
					}
				}
			}
		}
		collect(a, x)
		collect(b, y)
		pl := make([]*Term, 0, len(paths))
		for p := range paths {
			pl = append(pl, p)
		}
		sort.Slice(pl, func(q, r int) bool { return pl[q].ID < pl[r].ID })
		for _, p := range pl {
			ad, bd := repath(p, s, x), repath(p, s, y)
			t := paths[p]
			va, oka := a.heap[ad]
			vb, okb := b.heap[bd]
			if isFactCell(p) {
				if !oka {
					va = MkInt(0)
				}
				if !okb {
					vb = MkInt(0)
				}
				c.heap[p] = j.au(va, vb, intType)
				continue
			}
			if t == nil && !(oka && okb) {
				continue
			}
			if !oka && !a.innermost(ad).zero || !okb && !b.innermost(bd).zero {
				continue // unknown on one side
			}
			if !oka {
				va = a.initial(ad, t)
			}
			if !okb {
				vb = b.initial(bd, t)
			}
			c.heap[p] = j.au(va, vb, t)
		}
		if oa.zero && ob.zero {
			n := &obj{zero: true, typ: oa.typ, kind: oa.kind}
			c.objs[s] = n
		}
	}
}

func pathOnly(a *Term) bool {
	for a.Op == "faddr" || a.Op == "gfield" {
		a = a.Args[0]
	}
	return a.Op != "iaddr"
}

func repath(a, from, to *Term) *Term {
	if a == from {
		return to
	}
	return intern(a.Op, a.Aux, a.Typ, a.Ref, []*Term{repath(a.Args[0], from, to)})
}

var JoinStats [5]int

// contents relates what is known about the memory merged pointers point to.
func (j *joiner) contents() {
	type ptr struct{ x, y, s *Term }
	byA, byB := map[*Term][]ptr{}, map[*Term][]ptr{}
	for k, s := range j.pairs {
		if k[0].Op == "sym" && k[1].Op == "sym" && s.Op == "sym" && isPtr(s.Typ) && j.a.obj(k[0]).epoch == 0 && j.b.obj(k[1]).epoch == 0 {
			p := ptr{k[0], k[1], s}
			byA[p.x] = append(byA[p.x], p)
			byB[p.y] = append(byB[p.y], p)
		}
	}
	if len(byA) == 0 {
		return
	}
	atoms := func(st *State) []*Term {
		seen := map[*Term]bool{}
		var r []*Term
		add := func(t *Term) {
			if t.Op == "ld" && t.Aux == "0" && !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
		}
		for _, c := range st.cons {
			for _, t := range c.l.ts {
				add(t.a)
			}
		}
		for l := range st.lits {
			add(l)
			for _, t := range l.Args {
				add(t)
			}
		}
		sort.Slice(r, func(x, y int) bool { return r[x].ID < r[y].ID })
		return r
	}
	add := func(t, from *Term, p ptr) {
		put := func(to *Term) *Term { return subst(t, map[*Term]*Term{from: to}, map[*Term]*Term{}) }
		ta, tb, ts := put(p.x), put(p.y), put(p.s)
		k := [2]*Term{ta, tb}
		if _, ok := j.pairs[k]; ok || ta == tb {
			return
		}
		j.pairs[k] = ts
		if ts.IsInt() {
			j.news = append(j.news, newSym{ts, ta, tb})
		}
	}
	for _, t := range atoms(j.a) {
		for _, l := range leaves(t) {
			for _, p := range byA[l] {
				add(t, l, p)
			}
		}
	}
	for _, t := range atoms(j.b) {
		for _, l := range leaves(t) {
			for _, p := range byB[l] {
				add(t, l, p)
			}
		}
	}
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (j *joiner) facts(e *Engine, widen int) {
	a, b, c := j.a, j.b, j.c
	JoinStats[0]++
	JoinStats[1] += len(a.cons)
	JoinStats[2] += len(j.news)
	if JoinStats[0]%200 == 0 && e.DebugLoop {
		fmt.Println("JOINS", JoinStats, len(a.heap), len(a.lits))
	}
	// ghost functions of the generalized integers
	A := append([]Con(nil), a.cons...)
	B := append([]Con(nil), b.cons...)
	for _, q := range e.Sums {
		for _, n := range append([]newSym(nil), j.news...) {
			ds := q.derived(n, a, b)
			j.news = append(j.news, ds...)
			if v := ds[len(ds)-1]; q.NonNeg {
				A, B = append(A, Con{l: linOf(v.ta)}), append(B, Con{l: linOf(v.tb)})
			}
		}
	}
	j.contents()
	for _, n := range j.news {
		if l, ok := linOf(n.s).addMul(linOf(n.ta), -1); ok {
			A = append(A, Con{l: l, eq: true})
		}
		if l, ok := linOf(n.s).addMul(linOf(n.tb), -1); ok {
			B = append(B, Con{l: l, eq: true})
		}
	}
	for _, x := range c.cons { // pending string length equalities
		A = append(A, x)
		B = append(B, x)
	}
	have := map[string]bool{}
	var out []Con
	out = append(out, c.cons...)
	add := func(x Con) {
		t, ok := x.tighten()
		if !ok {
			return
		}
		if t.l.isConst() {
			return
		}
		k := t.key()
		if !have[k] {
			have[k] = true
			t.ks = k
			out = append(out, t)
		}
	}
	inB := map[string]bool{}
	for _, x := range b.cons {
		inB[x.key()] = true
	}
	for _, x := range a.cons {
		if inB[x.key()] {
			add(x)
		}
	}
	setA, setB := newConSet(A), newConSet(B)
	tested := map[string]bool{}
	// both sides must imply a candidate
	try := func(x Con) {
		t, ok := x.tighten()
		if !ok || t.l.isConst() {
			return
		}
		k := t.key()
		if have[k] || tested[k] {
			return
		}
		tested[k] = true
		JoinStats[3]++
		if setA.entails(t) && setB.entails(t) {
			add(t)
		}
	}
	// 1. definitional equalities: deltas in constant ratio
	for i := range j.news {
		di := linOf(MkSub(j.news[i].tb, j.news[i].ta))
		for k := range j.news {
			if k == i {
				continue
			}
			dk := linOf(MkSub(j.news[k].tb, j.news[k].ta))
			if num, den, ok := ratio(di, dk); ok && abs64(num) < 1<<20 && abs64(den) < 1<<20 {
				// den*s_i - num*s_k == den*ta_i - num*ta_k
				l := linConst(0)
				l, _ = l.addMul(linOf(j.news[i].s), den)
				l, _ = l.addMul(linOf(j.news[k].s), -num)
				l, _ = l.addMul(linOf(j.news[i].ta), -den)
				l, _ = l.addMul(linOf(j.news[k].ta), num)
				add(Con{l: l, eq: true})
			}
		}
	}
	if e.Affine {
		for _, x := range affineHull(A, B) {
			add(x)
		}
	}
	// 2. constraints of either side, also rewritten over the new symbols
	mapA, mapB := map[*Term][]newSym{}, map[*Term][]newSym{}
	for _, n := range j.news {
		for _, t := range linOf(n.ta).ts {
			mapA[t.a] = append(mapA[t.a], n)
		}
		for _, t := range linOf(n.tb).ts {
			mapB[t.a] = append(mapB[t.a], n)
		}
	}
	split := func(x Con) []Con {
		if !x.eq {
			return []Con{x}
		}
		return []Con{x, {l: x.l}, {l: x.l.neg()}}
	}
	rewrite := func(x Con, m map[*Term][]newSym, left bool) {
		cands := []Lin{x.l}
		for _, t := range x.l.ts {
			ns := m[t.a]
			if len(ns) == 0 {
				continue
			}
			if len(ns) > 4 {
				ns = ns[:4]
			}
			var more []Lin
			for _, n := range ns {
				def := linOf(n.ta)
				if !left {
					def = linOf(n.tb)
				}
				var cf int64
				for _, q := range def.ts {
					if q.a == t.a {
						cf = q.c
					}
				}
				if cf != 1 && cf != -1 {
					continue
				}
				// t.a = cf*(s - (def - cf*t.a))
				rest, ok := def.addMul(linAtom(t.a), -cf)
				if !ok {
					continue
				}
				val, ok := linOf(n.s).addMul(rest, -1)
				if !ok {
					continue
				}
				val, _ = val.scale(cf)
				for _, l := range cands {
					var lc int64
					for _, q := range l.ts {
						if q.a == t.a {
							lc = q.c
						}
					}
					if lc == 0 {
						continue
					}
					r, ok := l.addMul(linAtom(t.a), -lc)
					if !ok {
						continue
					}
					r, ok = r.addMul(val, lc)
					if ok {
						more = append(more, r)
					}
				}
			}
			cands = append(cands, more...)
			if len(cands) > 24 {
				cands = cands[:24]
			}
		}
		for _, l := range cands {
			for _, y := range split(Con{l: l, eq: x.eq}) {
				try(y)
			}
		}
	}
	if widen <= 1 {
		for _, x := range a.cons {
			rewrite(x, mapA, true)
		}
		if widen < 1 {
			for _, x := range b.cons {
				rewrite(x, mapB, false)
			}
		}
	} else {
		// widening: only what the old state said, in terms of the new symbols
		ren := map[*Term]*Term{}
		dup := map[*Term]bool{}
		for k, s := range j.pairs {
			if (k[0].Op == "sym" || k[0].Op == "isym") && s != k[0] {
				if _, ok := ren[k[0]]; ok {
					dup[k[0]] = true
				}
				ren[k[0]] = s
			}
		}
		memo := map[*Term]*Term{}
		for _, x := range a.cons {
			l := Lin{k: x.l.k}
			ok, d := true, false
			for _, t := range x.l.ts {
				var o bool
				for _, lf := range leaves(t.a) {
					d = d || dup[lf]
				}
				l, o = l.addMul(linOf(subst(t.a, ren, memo)), t.c)
				ok = ok && o
			}
			if ok {
				for _, y := range split(Con{l: l, eq: x.eq}) {
					try(y)
				}
			}
			try(x)
			if d || widen <= 3 {
				rewrite(x, mapA, true)
			}
		}
	}
	// 3. templates over the new symbols
	if len(j.news) > 0 && widen < 3 {
		consts := map[int64]bool{0: true, 1: true, -1: true}
		if widen > 1 {
			consts = map[int64]bool{0: true}
		}
		rel := map[*Term]bool{}
		for _, n := range j.news {
			for _, t := range []*Term{n.ta, n.tb} {
				if v, ok := t.Int64(); ok && abs64(v) < 1<<40 && widen < 1 {
					consts[v] = true
				}
				for _, q := range linOf(t).ts {
					rel[q.a] = true
				}
			}
			rel[n.s] = true
		}
		// atoms compared with anything in both sides
		cnt := map[*Term]int{}
		for _, cs := range [][]Con{a.cons, b.cons} {
			for _, x := range cs {
				for _, t := range x.l.ts {
					cnt[t.a]++
				}
			}
		}
		first := map[*Term]bool{}
		tmpl, offs := e.templateAtoms(c)
		for _, x := range tmpl {
			rel[x] = true
			first[x] = true
		}
		for t := range cnt {
			if t.Op == "len" {
				rel[t] = true
			}
		}
		fixed := map[*Term]bool{}
		for _, x := range a.cons {
			if x.eq && len(x.l.ts) == 1 {
				fixed[x.l.ts[0].a] = true
			}
		}
		atoms := make([]*Term, 0, len(rel))
		for t := range rel {
			if fixed[t] {
				continue
			}
			atoms = append(atoms, t)
		}
		sort.Slice(atoms, func(x, y int) bool {
			if first[atoms[x]] != first[atoms[y]] {
				return first[atoms[x]]
			}
			return atoms[x].ID > atoms[y].ID
		})
		if len(atoms) > 20 {
			atoms = atoms[:20]
		}
		var cks []int64
		for k := range consts {
			cks = append(cks, k)
		}
		sort.Slice(cks, func(x, y int) bool { return cks[x] < cks[y] })
		for _, n := range j.news {
			s := linOf(n.s)
			for _, k := range cks {
				try(Con{l: s.plus(-k)})
				try(Con{l: s.neg().plus(k)})
			}
			for _, x := range atoms {
				if x == n.s {
					continue
				}
				d := s.sub(linAtom(x))
				if try2 := (Con{l: d, eq: true}); widen < 3 {
					try(try2)
				}
				try(Con{l: d})
				try(Con{l: d.neg()})
				try(Con{l: d.plus(-1)})
				try(Con{l: d.neg().plus(-1)})
			}
			for _, o := range offs {
				d := s.sub(o)
				try(Con{l: d})
				try(Con{l: d.neg()})
			}
		}
	}
	// widening: only what the old state already knew
	c.cons = reduce(out)
	// literals
	inv := map[*Term][]*Term{}
	for k, s := range j.pairs {
		inv[k[0]] = append(inv[k[0]], s)
	}
	invB := map[*Term][]*Term{}
	for k, s := range j.pairs {
		invB[k[1]] = append(invB[k[1]], s)
	}
	toB := map[*Term]*Term{}
	toA := map[*Term]*Term{}
	for k, s := range j.pairs {
		toB[s] = k[1]
		toA[s] = k[0]
	}
	truthIn := func(st *State, l *Term, val bool) bool {
		v := st.Truth(l)
		return v == 1 && val || v == -1 && !val
	}
	memoB, memoA := map[*Term]*Term{}, map[*Term]*Term{}
	half := func(from, other *State, m map[*Term][]*Term, to map[*Term]*Term, memo map[*Term]*Term) {
		for l, v := range from.lits {
			if truthIn(other, l, v) {
				c.lits[l] = v
			}
			// renamed variants
			if len(j.pairs) == 0 {
				continue
			}
			for _, arg := range l.Args {
				for _, s := range m[arg] {
					r := subst(l, map[*Term]*Term{arg: s}, map[*Term]*Term{})
					if _, ok := c.lits[r]; ok || r.Op == "bool" {
						continue
					}
					q := subst(r, to, memo)
					if truthIn(other, q, v) {
						c.lits[r] = v
					}
				}
			}
		}
	}
	half(a, b, inv, toB, memoB)
	half(b, a, invB, toA, memoA)
	for k, s := range j.pairs {
		if isNilable(s.Typ) && s.Nullable {
			na, nb := a.Nilness(k[0]), b.Nilness(k[1])
			if na == nb && na != 0 {
				c.lits[MkIsNil(s)] = na == 1
			}
		}
		if s.Op == "sym" && isBoolType(s.Typ) {
			ta, tb := a.Truth(k[0]), b.Truth(k[1])
			if ta == tb && ta != 0 {
				c.lits[s] = ta == 1
			}
		}
	}
}

// ratio finds num/den with x = num/den*y.
func ratio(x, y Lin) (num, den int64, ok bool) {
	if len(x.ts) != len(y.ts) || y.isConst() && y.k.Sign() == 0 || x.isConst() && x.k.Sign() == 0 {
		return 0, 0, false
	}
	if x.isConst() {
		if !x.k.IsInt64() || !y.k.IsInt64() {
			return 0, 0, false
		}
		num, den = x.k.Int64(), y.k.Int64()
	} else {
		num, den = x.ts[0].c, y.ts[0].c
	}
	g := int64(gcd64(abs64(num), abs64(den)))
	num, den = num/g, den/g
	if abs64(num) > 1<<30 || abs64(den) > 1<<30 {
		return 0, 0, false
	}
	for i := range x.ts {
		if x.ts[i].a != y.ts[i].a || x.ts[i].c*den != y.ts[i].c*num {
			return 0, 0, false
		}
	}
	l := new(big.Int).Mul(x.k, big.NewInt(den))
	r := new(big.Int).Mul(y.k, big.NewInt(num))
	return num, den, l.Cmp(r) == 0
}

// reduce drops inequalities implied by equalities or parallel ones.
func reduce(cs []Con) []Con {
	eq := map[string]bool{}
	best := map[string]Con{}
	part := func(l Lin) string { return Lin{k: new(big.Int), ts: l.ts}.key() }
	for _, c := range cs {
		if c.eq {
			eq[part(c.l)] = true
			eq[part(c.l.neg())] = true
			continue
		}
		k := part(c.l)
		if o, ok := best[k]; !ok || c.l.k.Cmp(o.l.k) < 0 {
			best[k] = c
		}
	}
	var out []Con
	seen := map[string]bool{}
	for _, c := range cs {
		if !c.eq {
			k := part(c.l)
			if eq[k] || best[k].l.k.Cmp(c.l.k) != 0 {
				continue
			}
		}
		k := c.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, c)
	}
	return out
}

// DebugState prints a state.
func DebugState(s *State) string {
	r := ""
	for v, t := range s.env {
		r += fmt.Sprintf("  %s = %s\n", v.Name(), t)
	}
	for a, t := range s.heap {
		r += fmt.Sprintf("  [%s] = %s\n", a, t)
	}
	for _, c := range s.cons {
		r += fmt.Sprintf("  %s\n", c)
	}
	for l, v := range s.lits {
		r += fmt.Sprintf("  %v: %s\n", v, l)
	}
	return r
}
