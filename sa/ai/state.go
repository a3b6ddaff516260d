package ai

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// obj describes a memory object.
type obj struct {
	kind    string // "", "bytes", "map", "chan", "buffer", "hash", ...
	content *Term  // byte content, for byte arrays and accumulating writers
	zero    bool   // cells not written hold the zero value
	def     *Term  // array value of which unwritten elements are taken
	epoch   int    // incremented when the object is havocked
	typ     types.Type
	tail    *Term // slice appended with unknown length
	tailAt  *Term
}

// State is one abstract state: symbolic store plus facts.
type State struct {
	env    map[ssa.Value]*Term
	heap   map[*Term]*Term
	objs   map[*Term]*obj
	cons   []Con
	lits   map[*Term]bool
	ghost  map[string]*Term
	mon    map[string]string
	defers []*deferred
	locks  []*Term
	dead   bool
}

type deferred struct {
	call *ssa.CallCommon
	site ssa.CallInstruction
	fn   *Term
	args []*Term
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, objs: map[*Term]*obj{},
		lits: map[*Term]bool{}, ghost: map[string]*Term{}, mon: map[string]string{}}
}

func (s *State) clone() *State {
	c := &State{cons: s.cons[:len(s.cons):len(s.cons)], defers: s.defers[:len(s.defers):len(s.defers)], locks: s.locks[:len(s.locks):len(s.locks)]}
	c.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		c.env[k] = v
	}
	c.heap = make(map[*Term]*Term, len(s.heap)+8)
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.objs = make(map[*Term]*obj, len(s.objs)+4)
	for k, v := range s.objs {
		c.objs[k] = v
	}
	c.lits = make(map[*Term]bool, len(s.lits)+4)
	for k, v := range s.lits {
		c.lits[k] = v
	}
	c.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	c.mon = make(map[string]string, len(s.mon))
	for k, v := range s.mon {
		c.mon[k] = v
	}
	return c
}

// ---- monitor state

func (s *State) Mon(k string) string { return s.mon[k] }
func (s *State) SetMon(k, v string) {
	if v == "" {
		delete(s.mon, k)
		return
	}
	s.mon[k] = v
}
func (s *State) Ghost(k string) *Term { return s.ghost[k] }
func (s *State) SetGhost(k string, t *Term) {
	if t == nil {
		delete(s.ghost, k)
		return
	}
	s.ghost[k] = t
}

func (s *State) monKey() string {
	ks := make([]string, 0, len(s.mon))
	for k := range s.mon {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + "=" + s.mon[k] + ";")
	}
	gs := make([]string, 0, len(s.ghost))
	for k := range s.ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	b.WriteString("g:" + strings.Join(gs, ","))
	fmt.Fprintf(&b, "|d%d|l", len(s.defers))
	for _, l := range s.locks {
		fmt.Fprintf(&b, "%d,", l.ID)
	}
	return b.String()
}

// ---- facts

// entailsCon: do the state's facts imply c?
func (s *State) entailsCon(c Con) bool {
	if c.eq {
		return s.entailsCon(Con{l: c.l}) && s.entailsCon(Con{l: c.l.neg()})
	}
	return entails(s.cons, c)
}

var lpCache = map[string]bool{}

// conSet is a set of constraints split into connected components.
type conSet struct {
	comp map[*Term]int
	sets []*conComp
}

type conComp struct {
	cons []Con
	keys map[string]bool
	id   int
}

var compIDs = map[string]int{}

func newConSet(cons []Con) *conSet {
	cs := &conSet{comp: make(map[*Term]int, 2*len(cons))}
	parent := []int{}
	find := func(x int) int {
		for parent[x] != x {
			parent[x] = parent[parent[x]]
			x = parent[x]
		}
		return x
	}
	for _, c := range cons {
		first := -1
		for _, t := range c.l.ts {
			k, ok := cs.comp[t.a]
			if !ok {
				k = len(parent)
				parent = append(parent, k)
				cs.comp[t.a] = k
			}
			if first < 0 {
				first = find(k)
			} else {
				parent[find(k)] = first
			}
		}
	}
	at := map[int]int{}
	for a, k := range cs.comp {
		r := find(k)
		i, ok := at[r]
		if !ok {
			i = len(cs.sets)
			at[r] = i
			cs.sets = append(cs.sets, &conComp{})
		}
		cs.comp[a] = i
	}
	for _, c := range cons {
		if len(c.l.ts) > 0 {
			x := cs.sets[cs.comp[c.l.ts[0].a]]
			x.cons = append(x.cons, c)
		}
	}
	return cs
}

func (x *conComp) prepare() {
	if x.keys != nil {
		return
	}
	x.keys = make(map[string]bool, len(x.cons))
	ks := make([]string, 0, len(x.cons))
	for _, c := range x.cons {
		k := c.key()
		if !x.keys[k] {
			x.keys[k] = true
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	k := strings.Join(ks, ";")
	id, ok := compIDs[k]
	if !ok {
		id = len(compIDs) + 1
		compIDs[k] = id
	}
	x.id = id
}

func (cs *conSet) entails(c Con) bool {
	if c.eq {
		return cs.entails(Con{l: c.l}) && cs.entails(Con{l: c.l.neg()})
	}
	if c.l.isConst() {
		return c.l.k.Sign() >= 0
	}
	if v := lowerBoundByRange(c.l); v != nil && v.Sign() >= 0 {
		return true
	}
	ck := c.key()
	var ids []int
	for _, t := range c.l.ts {
		i, ok := cs.comp[t.a]
		if !ok {
			continue
		}
		dup := false
		for _, k := range ids {
			dup = dup || k == i
		}
		if !dup {
			cs.sets[i].prepare()
			if cs.sets[i].keys[ck] {
				return true
			}
			ids = append(ids, i)
		}
	}
	neg := Con{l: c.l.neg().plus(-1)}
	if len(ids) == 0 {
		return !feasible([]Con{neg})
	}
	sort.Slice(ids, func(x, y int) bool { return cs.sets[ids[x]].id < cs.sets[ids[y]].id })
	kb := make([]byte, 0, 64)
	for _, i := range ids {
		kb = strconv.AppendInt(kb, int64(cs.sets[i].id), 10)
		kb = append(kb, ';')
	}
	kb = append(kb, '?')
	kb = append(kb, ck...)
	k := string(kb)
	if r, ok := lpCache[k]; ok {
		return r
	}
	var comp []Con
	for _, i := range ids {
		comp = append(comp, cs.sets[i].cons...)
	}
	comp = comp[:len(comp):len(comp)]
	r := !feasible(append(comp, neg))
	if !r {
		if n2 := intTighten(comp, neg); n2.key() != neg.key() {
			r = !feasible(append(comp, n2))
		}
	}
	lpCache[k] = r
	return r
}

func entails(cons []Con, c Con) bool {
	if c.l.isConst() && !c.eq {
		return c.l.k.Sign() >= 0
	}
	return newConSet(component(cons, linAtoms(c.l))).entails(c)
}

func lowerBoundByRange(l Lin) *big.Int {
	v := new(big.Int).Set(l.k)
	for _, t := range l.ts {
		var b *big.Int
		if t.c > 0 {
			b = t.a.lo
		} else {
			b = t.a.hi
		}
		if b == nil {
			return nil
		}
		v.Add(v, new(big.Int).Mul(big.NewInt(t.c), b))
	}
	return v
}

// addCon adds a constraint; it reports whether the state is still feasible.
func (s *State) addCon(c Con) bool {
	if c.l.isConst() {
		if c.eq && c.l.k.Sign() != 0 || !c.eq && c.l.k.Sign() < 0 {
			s.dead = true
			return false
		}
		return true
	}
	t, ok := c.tighten()
	if !ok {
		s.dead = true
		return false
	}
	if t.l.isConst() {
		return s.addCon(t)
	}
	if it := intTighten(s.cons, t); it.key() != t.key() {
		if !s.addCon(it) {
			return false
		}
	}
	key := t.key()
	for _, x := range s.cons {
		if x.key() == key {
			return true
		}
	}
	comp := component(s.cons, linAtoms(t.l))
	if !feasible(append(comp, t)) {
		s.dead = true
		return false
	}
	t.ks = key
	s.cons = append(s.cons[:len(s.cons):len(s.cons)], t)
	s.sharpen(t)
	return !s.dead
}

// sharpen uses known disequalities: x >= 0 and x != 0 gives x >= 1.
func (s *State) sharpen(c Con) {
	if c.eq {
		return
	}
	if v, ok := s.lits[mkEQ0(c.l)]; ok && !v {
		s.addCon(Con{l: c.l.plus(-1)})
	}
}

// Truth evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) Truth(t *Term) int {
	switch t.Op {
	case "bool":
		if t == True {
			return 1
		}
		return -1
	case "not":
		return -s.Truth(t.Args[0])
	case "ge0":
		if s.entailsCon(Con{l: *t.L}) {
			return 1
		}
		if s.entailsCon(Con{l: t.L.neg().plus(-1)}) {
			return -1
		}
		return 0
	case "eq0":
		if v, ok := s.lits[t]; ok {
			if v {
				return 1
			}
			return -1
		}
		if s.entailsCon(Con{l: *t.L, eq: true}) {
			return 1
		}
		if s.entailsCon(Con{l: t.L.plus(-1)}) || s.entailsCon(Con{l: t.L.neg().plus(-1)}) {
			return -1
		}
		for l, v := range s.lits {
			if l.Op == "eq0" && !v && len(l.L.ts) == len(t.L.ts) {
				if s.entailsCon(Con{l: l.L.sub(*t.L), eq: true}) || s.entailsCon(Con{l: l.L.sub(t.L.neg()), eq: true}) {
					return -1
				}
			}
		}
		return 0
	case "and":
		r := 1
		for _, a := range t.Args {
			switch s.Truth(a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case "or":
		r := -1
		for _, a := range t.Args {
			switch s.Truth(a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	case "beq":
		if v, ok := s.lits[t]; ok {
			if v {
				return 1
			}
			return -1
		}
		// different lengths
		if s.Truth(mkEQ0(linOf(MkSub(clen(t.Args[0]), clen(t.Args[1]))))) == -1 {
			return -1
		}
		return s.beqTruth(t)
	}
	if v, ok := s.lits[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// beqTruth compares byte by byte where both sides are known pieces.
func (s *State) beqTruth(t *Term) int {
	// x == c1 known and asked x == c2
	for l, v := range s.lits {
		if v && l.Op == "beq" {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if l.Args[i] == t.Args[j] {
						o, p := l.Args[1-i], t.Args[1-j]
						if o == p {
							return 1
						}
						if o.Op == "str" && p.Op == "str" {
							return -1
						}
					}
				}
			}
		}
	}
	return 0
}

// Assume adds that t has the given truth value; false if contradictory.
func (s *State) Assume(t *Term, val bool) bool {
	if s.dead {
		return false
	}
	switch s.Truth(t) {
	case 1:
		if !val {
			s.dead = true
		}
		return val
	case -1:
		if val {
			s.dead = true
		}
		return !val
	}
	switch t.Op {
	case "not":
		return s.Assume(t.Args[0], !val)
	case "ge0":
		if val {
			return s.addCon(Con{l: *t.L})
		}
		return s.addCon(Con{l: t.L.neg().plus(-1)})
	case "eq0":
		if val {
			return s.addCon(Con{l: *t.L, eq: true})
		}
		s.lits[t] = false
		// sharpen bounds
		if s.entailsCon(Con{l: *t.L}) {
			return s.addCon(Con{l: t.L.plus(-1)})
		}
		if n := t.L.neg(); s.entailsCon(Con{l: n}) {
			return s.addCon(Con{l: n.plus(-1)})
		}
		return true
	case "and":
		if val {
			for _, a := range t.Args {
				if !s.Assume(a, true) {
					return false
				}
			}
			return true
		}
	case "or":
		if !val {
			for _, a := range t.Args {
				if !s.Assume(a, false) {
					return false
				}
			}
			return true
		}
	case "beq":
		if val {
			if !s.addCon(Con{l: linOf(MkSub(clen(t.Args[0]), clen(t.Args[1]))), eq: true}) {
				return false
			}
			// learn bytes of a short prefix compared with constants
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				if b.Op == "str" && a.Op != "str" && len(b.Aux) <= 64 {
					for k := range b.Aux {
						e := s.elemOf(a, MkInt(int64(k)))
						if e != nil && e.Op == "elem8" {
							if !s.addCon(Con{l: linOf(MkSub(e, MkInt(int64(b.Aux[k])))), eq: true}) {
								return false
							}
						}
						if len(b.Aux) > 4 {
							break
						}
					}
				}
			}
		}
	}
	s.lits[t] = val
	return true
}

// Entails tells if t is known to be true.
func (s *State) Entails(t *Term) bool { return s.Truth(t) == 1 }

// EqInt tells if two integer terms are known to be equal.
func (s *State) EqInt(a, b *Term) bool {
	if a == b || s.Truth(mkEQ0(linOf(MkSub(a, b)))) == 1 {
		return true
	}
	// the same bytes, written differently
	return a.Op == "beint" && b.Op == "beint" && a.Aux == b.Aux && s.congruent(a.Args[0], b.Args[0])
}

// LE tells if a <= b is known.
func (s *State) LE(a, b *Term) bool { return s.Truth(mkGE0(linOf(MkSub(b, a)))) == 1 }

// LT tells if a < b is known.
func (s *State) LT(a, b *Term) bool {
	return s.Truth(mkGE0(linOf(MkSub(b, a)).plus(-1))) == 1
}

// Nilness: 1 nil, -1 not nil, 0 unknown.
func (s *State) Nilness(t *Term) int { return s.Truth(MkIsNil(t)) }

// ---- byte content

// Csub extracts content[off:off+ln].
func (s *State) Csub(c, off, ln *Term) *Term {
	if c.Op != "concat" {
		return mkSub(c, off, ln)
	}
	if off == MkInt(0) && s.EqInt(ln, clen(c)) {
		return c
	}
	_, rest, ok := s.csplit(c.Args, off)
	if ok {
		mid, _, ok2 := s.csplit(rest, ln)
		if ok2 {
			return mkConcat(mid)
		}
	}
	return mkSub2(c, off, ln)
}

func mkSub2(c, off, ln *Term) *Term {
	return MkOp("csub", "", types.Typ[types.String], c, off, ln)
}

// csplit cuts pieces after n bytes.
func (s *State) csplit(ps []*Term, n *Term) (head, tail []*Term, ok bool) {
	rem := n
	for i, p := range ps {
		if s.EqInt(rem, MkInt(0)) {
			return ps[:i:i], ps[i:], true
		}
		l := clen(p)
		if s.LE(l, rem) {
			rem = MkSub(rem, l)
			continue
		}
		if s.LE(rem, l) && s.LE(MkInt(0), rem) {
			h := append(ps[:i:i], mkSub(p, MkInt(0), rem))
			t := append([]*Term{mkSub(p, rem, MkSub(l, rem))}, ps[i+1:]...)
			return h, t, true
		}
		return nil, nil, false
	}
	if s.EqInt(rem, MkInt(0)) {
		return ps, nil, true
	}
	return nil, nil, false
}

// Csplice replaces content[off:off+len(repl)].
func (s *State) Csplice(c, off, repl *Term) (*Term, bool) {
	h, rest, ok := s.csplit(pieces(c), off)
	if !ok {
		return nil, false
	}
	_, t, ok := s.csplit(rest, clen(repl))
	if !ok {
		return nil, false
	}
	return mkConcat(append(append(h[:len(h):len(h)], repl), t...)), true
}

// elemOf is byte i of content c as integer term.
func (s *State) elemOf(c, i *Term) *Term {
	sub := s.Csub(c, i, MkInt(1))
	return mkBEInt(sub, 1)
}

// ---- objects and memory

func rootOf(addr *Term) *Term {
	for addr.Op == "faddr" || addr.Op == "iaddr" || addr.Op == "gfield" {
		addr = addr.Args[0]
	}
	return addr
}

func mkFaddr(p *Term, st *types.Struct, i int) *Term {
	return intern("faddr", fmt.Sprintf("%d:%s", i, st.Field(i).Name()), types.NewPointer(st.Field(i).Type()), nil, []*Term{p})
}

func mkIaddr(p, idx *Term, elem types.Type) *Term {
	return intern("iaddr", "", types.NewPointer(elem), nil, []*Term{p, idx})
}

// gfield is a ghost field of an object (content of buffers and such).
func gfield(name string, p *Term) *Term { return intern("gfield", name, nil, nil, []*Term{p}) }

func (s *State) obj(root *Term) *obj {
	if o := s.objs[root]; o != nil {
		return o
	}
	o := &obj{}
	return o
}

func (s *State) setObj(root *Term, f func(o *obj)) {
	n := *s.obj(root)
	f(&n)
	s.objs[root] = &n
}

var allocCtr int

// Alloc makes a new zeroed object of the type and returns its address.
func (s *State) Alloc(typ types.Type, what string) *Term {
	allocCtr++
	t := intern("alloc", fmt.Sprintf("%s@%d", what, allocCtr), types.NewPointer(typ), nil, nil)
	s.objs[t] = &obj{zero: true, typ: typ}
	if a, ok := typ.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		s.objs[t].kind = "bytes"
		s.objs[t].content = mkConcat([]*Term{MkOp("zeros", "", nil, MkInt(a.Len()))})
	}
	return t
}

// AllocBytes makes a new byte array with the content.
func (s *State) AllocBytes(content *Term, what string) *Term {
	allocCtr++
	t := intern("alloc", fmt.Sprintf("%s@%d", what, allocCtr), nil, nil, nil)
	s.objs[t] = &obj{kind: "bytes", zero: true, content: content}
	return t
}

// NewBytes makes a new byte slice with the content.
func (s *State) NewBytes(content *Term, what string) *Term {
	o := s.AllocBytes(content, what)
	l := clen(content)
	return MkSlice(o, MkInt(0), l, l, types.NewSlice(types.Typ[types.Byte]))
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return MkInt(0)
		case u.Info()&types.IsString != 0:
			return MkStr("")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return MkNil(t)
		default:
			return MkOp("float", "0", t)
		}
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return MkStruct(t, fs)
	case *types.Array:
		if isByte(u.Elem()) {
			return mkArrVal(mkConcat([]*Term{MkOp("zeros", "", nil, MkInt(u.Len()))}))
		}
		return MkOp("zeroarr", typeKey(t), t)
	}
	return MkNil(t)
}

// mkArrVal is a byte array value with given content.
func mkArrVal(c *Term) *Term { return MkOp("arrval", "", nil, c) }

// contentOfArrObj is the content of the byte array object at addr.
func (s *State) contentOfArrObj(o *Term) *Term {
	if ob := s.objs[o]; ob != nil && ob.content != nil {
		return ob.content
	}
	if o == nilArr {
		return MkStr("")
	}
	if o.Op == "arrof" {
		ep := s.obj(o).epoch
		if ep == 0 {
			return MkOp("cont", "", nil, o.Args[0])
		}
		return MkOp("contv", fmt.Sprint(ep), nil, o.Args[0])
	}
	return MkOp("contv", fmt.Sprint(s.obj(o).epoch), nil, o)
}

// Content is the byte content of a string or byte slice value.
func (s *State) Content(v *Term) *Term {
	switch v.Op {
	case "nil":
		return MkStr("")
	case "slice":
		c := s.contentOfArrObj(v.Args[0])
		return s.Csub(c, v.Args[1], v.Args[2])
	case "arrval":
		return v.Args[0]
	}
	if isByteSlice(v.Typ) {
		o, off, ln, _ := sliceParts(v)
		c := s.contentOfArrObj(o)
		if c.Op == "cont" {
			return c
		}
		return s.Csub(c, off, ln)
	}
	return v
}

// WriteBytes stores content at slice dst[at:].
func (s *State) WriteBytes(dst, at, content *Term) {
	o, off, _, _ := sliceParts(dst)
	pos := MkAdd(off, at)
	c := s.contentOfArrObj(o)
	if n, ok := s.Csplice(c, pos, content); ok {
		s.setObj(o, func(ob *obj) { ob.content = n; ob.kind = "bytes" })
		return
	}
	s.havocObj(o)
}

func (s *State) havocObj(root *Term) {
	for a := range s.heap {
		if rootOf(a) == root {
			delete(s.heap, a)
		}
	}
	for a := range s.objs {
		if a != root && rootOf(a) == root {
			delete(s.objs, a)
		}
	}
	epochCtr++
	s.setObj(root, func(ob *obj) {
		ob.epoch = epochCtr
		ob.zero = false
		ob.def = nil
		ob.tail = nil
		if ob.content != nil {
			ob.content = MkSymLen("havoc", clen(ob.content), s)
		}
	})
}

var epochCtr int

// MkSymLen is unknown content of a given length.
func MkSymLen(name string, ln *Term, s *State) *Term {
	t := MkSym(name, types.Typ[types.String])
	s.addCon(Con{l: linOf(MkSub(mkLenRaw(t), ln)), eq: true})
	return t
}

// Load reads the value of type typ at addr.
func (s *State) Load(addr *Term, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if v, ok := s.heap[addr]; ok {
			return v
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = s.Load(mkFaddr(addr, u, i), u.Field(i).Type())
		}
		return MkStruct(typ, fs)
	case *types.Array:
		if isByte(u.Elem()) {
			return mkArrVal(s.contentOfArrObj(addr))
		}
		// non byte arrays: take a snapshot
		return s.snapshotArr(addr, u, typ)
	}
	if _, _, ok := elemOfPath(addr); ok {
		return s.loadElem(addr, typ)
	}
	if v, ok := s.heap[addr]; ok {
		if isStringType(typ) && (v.Op == "slice" || isByteSlice(v.Typ)) {
			return s.Content(v)
		}
		return v
	}
	return s.initial(addr, typ)
}

// initial is the value of a cell nothing was stored to.
func (s *State) initial(addr *Term, typ types.Type) *Term {
	o := s.innermost(addr)
	if o.zero {
		return zeroOf(typ)
	}
	return intern("ld", fmt.Sprint(o.epoch), typ, nil, []*Term{addr})
}

// innermost is the object entry that describes the unwritten cells at addr.
func (s *State) innermost(addr *Term) *obj {
	for {
		if o := s.objs[addr]; o != nil {
			return o
		}
		if addr.Op != "faddr" && addr.Op != "iaddr" && addr.Op != "gfield" {
			return &obj{}
		}
		addr = addr.Args[0]
	}
}

// elemOfPath splits an address into array element and the path below it.
func elemOfPath(addr *Term) (elem *Term, path string, ok bool) {
	for addr.Op == "faddr" {
		path = addr.Aux + "/" + path
		addr = addr.Args[0]
	}
	if addr.Op == "iaddr" {
		return addr, path, true
	}
	return nil, "", false
}

// withElem rebuilds the path of addr below another element.
func withElem(addr, elem *Term) *Term {
	if addr.Op == "iaddr" {
		return elem
	}
	return intern(addr.Op, addr.Aux, addr.Typ, addr.Ref, []*Term{withElem(addr.Args[0], elem)})
}

func (s *State) snapshotArr(addr *Term, u *types.Array, typ types.Type) *Term {
	n := u.Len()
	if n > 64 {
		return MkSym("arr", typ)
	}
	fs := make([]*Term, n)
	for i := range fs {
		fs[i] = s.Load(mkIaddr(addr, MkInt(int64(i)), u.Elem()), u.Elem())
	}
	return MkStruct(typ, fs)
}

func (s *State) loadElem(addr *Term, typ types.Type) *Term {
	elem, path, _ := elemOfPath(addr)
	base, idx := elem.Args[0], elem.Args[1]
	if addr == elem && isIntType(typ) && isByte(typ) {
		if e := s.elemOf(s.contentOfArrObj(base), idx); e != nil {
			return e
		}
	}
	if v, ok := s.heap[addr]; ok {
		return v
	}
	// another name for the same element?
	uncertain := false
	for _, a := range s.addrs() {
		el, p, ok := elemOfPath(a)
		if ok && p == path && el.Args[0] == base && el != elem {
			switch s.Truth(mkEQ0(linOf(MkSub(el.Args[1], idx)))) {
			case 1:
				return s.heap[a]
			case 0:
				uncertain = true
			}
		}
	}
	if uncertain {
		return MkNullable("elem", typ)
	}
	if o := s.objs[base]; o != nil && o.def != nil {
		do, doff, dl, _ := sliceParts(o.def)
		if s.LT(idx, dl) && s.LE(MkInt(0), idx) {
			return s.Load(withElem(addr, intern("iaddr", "", elem.Typ, nil, []*Term{do, MkAdd(doff, idx)})), typ)
		}
	}
	if o := s.objs[base]; o != nil && o.tail != nil {
		if s.LE(o.tailAt, idx) {
			do, doff, _, _ := sliceParts(o.tail)
			return s.Load(withElem(addr, intern("iaddr", "", elem.Typ, nil, []*Term{do, MkAdd(doff, MkSub(idx, o.tailAt))})), typ)
		}
	}
	return s.initial(addr, typ)
}

// addrs lists the written cells in a fixed order.
func (s *State) addrs() []*Term {
	l := make([]*Term, 0, len(s.heap))
	for a := range s.heap {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}

// Store writes a value at addr.
func (s *State) Store(addr, v *Term, typ types.Type) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if v.Op == "struct" && len(v.Args) == u.NumFields() {
			for i := 0; i < u.NumFields(); i++ {
				s.Store(mkFaddr(addr, u, i), v.Args[i], u.Field(i).Type())
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			s.Store(mkFaddr(addr, u, i), mkField(v, u, i), u.Field(i).Type())
		}
		return
	case *types.Array:
		if isByte(u.Elem()) {
			c := v
			if v.Op == "arrval" {
				c = v.Args[0]
			} else {
				c = MkSymLen("arr", MkInt(u.Len()), s)
			}
			s.setObj(addr, func(o *obj) { o.content = c; o.kind = "bytes" })
			return
		}
		for a := range s.heap {
			if (a.Op == "iaddr" || a.Op == "faddr") && underAddr(a, addr) {
				delete(s.heap, a)
			}
		}
		if v.Op == "struct" {
			for i, f := range v.Args {
				s.Store(mkIaddr(addr, MkInt(int64(i)), u.Elem()), f, u.Elem())
			}
		} else if v.Op != "zeroarr" {
			s.havocObj(rootOf(addr))
		}
		return
	}
	if addr.Op == "iaddr" {
		base, idx := addr.Args[0], addr.Args[1]
		if isByte(typ) && isIntType(typ) {
			c := s.contentOfArrObj(base)
			if n, ok := s.Csplice(c, idx, byteContent(v)); ok {
				s.setObj(base, func(o *obj) { o.content = n; o.kind = "bytes" })
			} else {
				s.havocObj(base)
			}
			return
		}
	}
	if elem, path, ok := elemOfPath(addr); ok {
		base, idx := elem.Args[0], elem.Args[1]
		sure := true
		if _, ok := idx.Int64(); !ok {
			sure = false
		}
		for _, a := range s.addrs() {
			el, p, ok := elemOfPath(a)
			if !ok || p != path || el.Args[0] != base || el == elem {
				continue
			}
			switch s.Truth(mkEQ0(linOf(MkSub(el.Args[1], idx)))) {
			case 1:
				delete(s.heap, a)
			case 0:
				delete(s.heap, a)
				sure = false
			}
		}
		if !sure {
			// elements not known apart may have changed
			epochCtr++
			s.setObj(base, func(o *obj) { o.epoch = epochCtr; o.zero = false; o.def = nil; o.tail = nil })
		}
		s.heap[addr] = v
		return
	}
	s.aliasInvalidate(addr, typ)
	s.heap[addr] = v
}

// aliasInvalidate drops cells that may be the same memory as addr: same field
// of another symbolic base.
func (s *State) aliasInvalidate(addr *Term, typ types.Type) {
	if addr.Op != "faddr" && addr.Op != "sym" && addr.Op != "ld" {
		return
	}
	base := addr
	if addr.Op == "faddr" {
		base = addr.Args[0]
	}
	if base.Op == "alloc" || base.Op == "faddr" && rootOf(base).Op == "alloc" || base.Op == "global" {
		return
	}
	for a := range s.heap {
		if a == addr || a.Op != addr.Op || a.Aux != addr.Aux {
			continue
		}
		b := a
		if a.Op == "faddr" {
			b = a.Args[0]
		}
		if b.Op == "alloc" || b.Op == "global" || rootOf(b).Op == "alloc" {
			continue
		}
		if b.Typ == nil || base.Typ == nil || !types.Identical(b.Typ, base.Typ) {
			continue
		}
		if DistinctBases(b, base) {
			continue
		}
		delete(s.heap, a)
		s.setObj(rootOf(a), func(o *obj) { epochCtr++; o.epoch = epochCtr })
	}
}

// DistinctBases tells that two different symbolic pointers of the same type
// never alias (set per harness).
var DistinctBases = func(a, b *Term) bool {
	// different fields of the same object hold different objects
	return a.Op == "ld" && b.Op == "ld" && a.Args[0] != b.Args[0]
}

func underAddr(a, p *Term) bool {
	for a != nil {
		if a == p {
			return true
		}
		if a.Op != "faddr" && a.Op != "iaddr" {
			return false
		}
		a = a.Args[0]
	}
	return false
}

// mkField selects a field of a struct value.
func mkField(v *Term, u *types.Struct, i int) *Term {
	if v.Op == "struct" && i < len(v.Args) {
		return v.Args[i]
	}
	return intern("field", fmt.Sprintf("%d", i), u.Field(i).Type(), nil, []*Term{v})
}
