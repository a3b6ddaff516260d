package ai

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value. Two terms are equal iff they are the
// same pointer.
type Term struct {
	ID       int
	Op       string
	Aux      string
	Typ      types.Type
	Args     []*Term
	Ref      any
	I        *big.Int // "int"
	L        *Lin     // "lin"
	Nullable bool     // symbols that may be nil
	lo, hi   *big.Int // range of integer atoms
	depth    int
}

var (
	table  = map[string]*Term{}
	nextID = 1
	symCtr = 0
)

func intern(op, aux string, typ types.Type, ref any, args []*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte(1)
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t := table[k]; t != nil {
		return t
	}
	t := &Term{ID: nextID, Op: op, Aux: aux, Typ: typ, Args: args, Ref: ref}
	for _, a := range args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	nextID++
	table[k] = t
	t.setRange()
	return t
}

const maxLen = int64(1) << 48 // no object is larger than the address space

var bigMaxLen = big.NewInt(maxLen)

func (t *Term) setRange() {
	switch t.Op {
	case "len", "cap", "maplen":
		t.lo, t.hi = new(big.Int), bigMaxLen
		return
	case "isym":
		if strings.HasPrefix(t.Aux, "len#") {
			t.lo, t.hi = new(big.Int), bigMaxLen
		}
		return
	case "elem8", "bebyte":
		t.lo, t.hi = new(big.Int), big.NewInt(255)
		return
	case "beint":
		w, _ := strconv.Atoi(t.Aux)
		t.lo = new(big.Int)
		t.hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*w)), big.NewInt(1))
		return
	}
	if t.Typ != nil {
		t.lo, t.hi = typeRange(t.Typ)
	}
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	bits, signed := intBits(b)
	if bits == 0 {
		return nil, nil
	}
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil
	}
	return false
}

// ---- constructors

var True, False *Term

func init() {
	True = intern("bool", "true", types.Typ[types.Bool], nil, nil)
	False = intern("bool", "false", types.Typ[types.Bool], nil, nil)
}

func MkBool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func MkInt(n int64) *Term { return mkBigInt(big.NewInt(n)) }

func mkBigInt(n *big.Int) *Term {
	t := intern("int", n.String(), nil, nil, nil)
	if t.I == nil {
		t.I = n
	}
	return t
}

// MkStr is a constant string (or constant bytes).
func MkStr(s string) *Term {
	t := intern("str", s, types.Typ[types.String], nil, nil)
	return t
}

func MkNil(typ types.Type) *Term { return intern("nil", "", nil, nil, nil) }

// MkSym is a fresh unknown.
func MkSym(name string, typ types.Type) *Term {
	symCtr++
	return intern("sym", fmt.Sprintf("%s#%d", name, symCtr), typ, nil, nil)
}

// MkNullable is a fresh unknown that may be nil.
func MkNullable(name string, typ types.Type) *Term {
	t := MkSym(name, typ)
	t.Nullable = true
	return t
}

// MkNamed is an unknown identified by its name.
func MkNamed(name string, typ types.Type) *Term {
	return intern("sym", name, typ, nil, nil)
}

// MkOp builds an uninterpreted term.
func MkOp(op, aux string, typ types.Type, args ...*Term) *Term {
	return intern(op, aux, typ, nil, args)
}

func mkRef(op, aux string, typ types.Type, ref any, args ...*Term) *Term {
	return intern(op, aux, typ, ref, args)
}

func (t *Term) IsInt() bool {
	switch t.Op {
	case "int", "lin", "isym", "len", "cap", "maplen", "elem8", "bebyte", "beint", "mul", "div", "mod", "wrap":
		return true
	}
	return isIntType(t.Typ)
}

func (t *Term) IsConstBool() (bool, bool) {
	if t == True {
		return true, true
	}
	if t == False {
		return false, true
	}
	return false, false
}

// Int64 returns the value of a constant integer.
func (t *Term) Int64() (int64, bool) {
	if t.Op == "int" && t.I.IsInt64() {
		return t.I.Int64(), true
	}
	return 0, false
}

// linOf views an integer term as linear expression.
func linOf(t *Term) Lin {
	switch t.Op {
	case "int":
		return Lin{k: t.I}
	case "lin":
		return *t.L
	}
	return linAtom(t)
}

func mkLin(l Lin) *Term {
	if len(l.ts) == 0 {
		return mkBigInt(l.k)
	}
	if len(l.ts) == 1 && l.ts[0].c == 1 && l.k.Sign() == 0 {
		return l.ts[0].a
	}
	if t := recognizeBE(l); t != nil {
		return t
	}
	args := make([]*Term, len(l.ts))
	for i, x := range l.ts {
		args[i] = x.a
	}
	t := intern("lin", l.key(), nil, nil, args)
	if t.L == nil {
		ll := l
		t.L = &ll
	}
	return t
}

// recognizeBE folds b0*2^24+b1*2^16+b2*2^8+b3 over consecutive bytes.
func recognizeBE(l Lin) *Term {
	n := len(l.ts)
	if (n != 2 && n != 4) || l.k.Sign() != 0 {
		return nil
	}
	ts := append([]LT(nil), l.ts...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].c > ts[j].c })
	var pieces []*Term
	for i, t := range ts {
		if t.c != int64(1)<<(8*(n-1-i)) {
			return nil
		}
		if t.a.hi == nil || t.a.lo == nil || t.a.lo.Sign() < 0 || t.a.hi.Cmp(big.NewInt(255)) > 0 {
			return nil
		}
		pieces = append(pieces, byteContent(t.a))
	}
	c := mkConcat(pieces)
	return mkBEInt(c, n)
}

// MkAdd etc. work on mathematical integers.
func MkAdd(a, b *Term) *Term {
	l, ok := linOf(a).add(linOf(b))
	if !ok {
		return MkOp("wrap", "+", types.Typ[types.Int], a, b)
	}
	return mkLin(l)
}

func MkSub(a, b *Term) *Term {
	l, ok := linOf(a).addMul(linOf(b), -1)
	if !ok {
		return MkOp("wrap", "-", types.Typ[types.Int], a, b)
	}
	return mkLin(l)
}

// ge0 is the truth value of l >= 0.
func mkGE0(l Lin) *Term {
	if l.isConst() {
		return MkBool(l.k.Sign() >= 0)
	}
	c, _ := Con{l: l}.tighten()
	t := intern("ge0", c.l.key(), types.Typ[types.Bool], nil, linAtoms(c.l))
	if t.L == nil {
		ll := c.l
		t.L = &ll
	}
	return t
}

func mkEQ0(l Lin) *Term {
	if l.isConst() {
		return MkBool(l.k.Sign() == 0)
	}
	c, ok := Con{l: l, eq: true}.tighten()
	if !ok {
		return False
	}
	t := intern("eq0", c.l.key(), types.Typ[types.Bool], nil, linAtoms(c.l))
	if t.L == nil {
		ll := c.l
		t.L = &ll
	}
	return t
}

func MkNot(t *Term) *Term {
	switch t.Op {
	case "bool":
		return MkBool(t != True)
	case "not":
		return t.Args[0]
	case "ge0":
		return mkGE0(t.L.neg().plus(-1))
	}
	return MkOp("not", "", types.Typ[types.Bool], t)
}

func MkTuple(ts ...*Term) *Term { return intern("tuple", "", nil, nil, ts) }

func MkStruct(typ types.Type, fs []*Term) *Term {
	// the fields of one value, put together again
	if len(fs) > 0 && fs[0].Op == "field" && fs[0].Aux == "0" {
		x := fs[0].Args[0]
		same := x.Typ != nil && types.Identical(x.Typ, typ)
		for i, f := range fs {
			same = same && f.Op == "field" && f.Aux == strconv.Itoa(i) && f.Args[0] == x
		}
		if same {
			return x
		}
	}
	return intern("struct", typeKey(typ), typ, nil, fs)
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	typeKeys[t] = k
	return k
}

// MkIface wraps a concrete value in an interface.
func MkIface(dyn types.Type, v *Term) *Term {
	return mkRef("iface", typeKey(dyn), nil, dyn, v)
}

// MkSlice is the slice obj[off:off+len] (cap elements available).
func MkSlice(obj, off, ln, cp *Term, typ types.Type) *Term {
	// canonical: the whole of a symbolic slice is the symbol itself
	if obj.Op == "arrof" && off == MkInt(0) {
		s := obj.Args[0]
		if ln == mkLenRaw(s) {
			return s
		}
	}
	return intern("slice", "", typ, nil, []*Term{obj, off, ln, cp})
}

func mkLenRaw(s *Term) *Term { return MkOp("len", "", nil, s) }

// sliceParts decomposes a slice value.
func sliceParts(s *Term) (obj, off, ln, cp *Term) {
	switch s.Op {
	case "slice":
		return s.Args[0], s.Args[1], s.Args[2], s.Args[3]
	case "nil":
		return nilArr, MkInt(0), MkInt(0), MkInt(0)
	}
	return MkOp("arrof", "", s.Typ, s), MkInt(0), mkLenRaw(s), MkOp("cap", "", nil, s)
}

var nilArr = MkNamed("nilarr", nil)

// ---- byte content algebra: content terms are strings

func byteContent(x *Term) *Term {
	switch x.Op {
	case "elem8":
		return mkSub(x.Args[0], x.Args[1], MkInt(1))
	case "bebyte":
		w, k := beAux(x.Aux)
		return mkBES(x.Args[0], w, k, k+1)
	}
	return mkBES(x, 1, 0, 1)
}

func beAux(s string) (int, int) {
	var a, b int
	fmt.Sscanf(s, "%d,%d", &a, &b)
	return a, b
}

// mkBES is bytes lo..hi of the w byte big endian encoding of x.
func mkBES(x *Term, w, lo, hi int) *Term {
	if x.Op == "int" {
		b := new(big.Int).Set(x.I)
		if b.Sign() < 0 {
			b.Add(b, new(big.Int).Lsh(big.NewInt(1), uint(8*w)))
		}
		buf := make([]byte, w)
		m := new(big.Int).And(b, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*w)), big.NewInt(1)))
		m.FillBytes(buf)
		return MkStr(string(buf[lo:hi]))
	}
	if x.Op == "beint" && x.Aux == strconv.Itoa(w) {
		return mkSub(x.Args[0], MkInt(int64(lo)), MkInt(int64(hi-lo)))
	}
	if x.Op == "elem8" && w == 1 {
		return mkSub(x.Args[0], x.Args[1], MkInt(1))
	}
	if x.Op == "bebyte" && w == 1 {
		ww, k := beAux(x.Aux)
		return mkBES(x.Args[0], ww, k, k+1)
	}
	return MkOp("bes", fmt.Sprintf("%d,%d,%d", w, lo, hi), types.Typ[types.String], x)
}

func besAux(t *Term) (w, lo, hi int) {
	fmt.Sscanf(t.Aux, "%d,%d,%d", &w, &lo, &hi)
	return
}

// mkBEInt is the big endian integer in content c of n bytes.
func mkBEInt(c *Term, n int) *Term {
	switch c.Op {
	case "str":
		return mkBigInt(new(big.Int).SetBytes([]byte(c.Aux)))
	case "bes":
		w, lo, hi := besAux(c)
		if w == n && lo == 0 && hi == n {
			return c.Args[0]
		}
		if n == 1 {
			return MkOp("bebyte", fmt.Sprintf("%d,%d", w, lo), nil, c.Args[0])
		}
	}
	if n == 1 {
		b, o := c, MkInt(0)
		if c.Op == "csub" {
			b, o = c.Args[0], c.Args[1]
		}
		return MkOp("elem8", "", nil, b, o)
	}
	return MkOp("beint", strconv.Itoa(n), nil, c)
}

// clen is the length of content.
func clen(c *Term) *Term {
	switch c.Op {
	case "str":
		return MkInt(int64(len(c.Aux)))
	case "zeros":
		return c.Args[0]
	case "bes":
		_, lo, hi := besAux(c)
		return MkInt(int64(hi - lo))
	case "csub":
		return c.Args[2]
	case "concat":
		s := MkInt(0)
		for _, a := range c.Args {
			s = MkAdd(s, clen(a))
		}
		return s
	case "sha1":
		return MkInt(20)
	case "cont":
		return mkLenRaw(c.Args[0])
	case "nil":
		return MkInt(0)
	}
	return mkLenRaw(c)
}

func pieces(c *Term) []*Term {
	if c.Op == "concat" {
		return c.Args
	}
	if c.Op == "str" && c.Aux == "" {
		return nil
	}
	return []*Term{c}
}

func mkConcat(ps []*Term) *Term {
	var out []*Term
	push := func(p *Term) {
		if p.Op == "str" && p.Aux == "" || clen(p) == MkInt(0) {
			return
		}
		if p.Op == "zeros" {
			if n, ok := p.Args[0].Int64(); ok && n <= 4096 {
				p = MkStr(string(make([]byte, n)))
			}
		}
		if len(out) > 0 {
			q := out[len(out)-1]
			switch {
			case q.Op == "str" && p.Op == "str":
				out[len(out)-1] = MkStr(q.Aux + p.Aux)
				return
			case q.Op == "bes" && p.Op == "bes" && q.Args[0] == p.Args[0]:
				w1, l1, h1 := besAux(q)
				w2, l2, h2 := besAux(p)
				if w1 == w2 && h1 == l2 {
					out[len(out)-1] = mkBES(q.Args[0], w1, l1, h2)
					return
				}
			case q.Op == "zeros" && p.Op == "zeros":
				out[len(out)-1] = MkOp("zeros", "", nil, MkAdd(q.Args[0], p.Args[0]))
				return
			}
			qb, qo := q, MkInt(0)
			if q.Op == "csub" {
				qb, qo = q.Args[0], q.Args[1]
			}
			if p.Op == "csub" && p.Args[0] == qb && p.Args[1] == MkAdd(qo, clen(q)) {
				out[len(out)-1] = mkSub(qb, qo, MkAdd(clen(q), p.Args[2]))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		for _, q := range pieces(p) {
			push(q)
		}
	}
	switch len(out) {
	case 0:
		return MkStr("")
	case 1:
		return out[0]
	}
	return intern("concat", "", types.Typ[types.String], nil, out)
}

// mkSub is content base[off:off+ln] for an opaque base (no fact needed).
func mkSub(c, off, ln *Term) *Term {
	if ln == MkInt(0) {
		return MkStr("")
	}
	if off == MkInt(0) && ln == clen(c) {
		return c
	}
	switch c.Op {
	case "str":
		o, ok1 := off.Int64()
		l, ok2 := ln.Int64()
		if ok1 && ok2 && o >= 0 && l >= 0 && o+l <= int64(len(c.Aux)) {
			return MkStr(c.Aux[o : o+l])
		}
	case "zeros":
		if n, ok := ln.Int64(); ok && n >= 0 && n <= 4096 {
			return MkStr(string(make([]byte, n)))
		}
		return MkOp("zeros", "", nil, ln)
	case "bes":
		o, ok1 := off.Int64()
		l, ok2 := ln.Int64()
		w, lo, hi := besAux(c)
		if ok1 && ok2 && o >= 0 && l >= 0 && lo+int(o+l) <= hi {
			return mkBES(c.Args[0], w, lo+int(o), lo+int(o+l))
		}
	case "csub":
		return mkSub(c.Args[0], MkAdd(c.Args[1], off), ln)
	}
	return MkOp("csub", "", types.Typ[types.String], c, off, ln)
}

// ---- printing

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.depth > 12 {
		return fmt.Sprintf("%s@%d", t.Op, t.ID)
	}
	switch t.Op {
	case "int":
		return t.I.String()
	case "bool", "sym":
		return t.Aux
	case "str":
		if len(t.Aux) > 40 {
			return fmt.Sprintf("%q..", t.Aux[:40])
		}
		return strconv.Quote(t.Aux)
	case "lin":
		return "(" + t.L.String() + ")"
	case "ge0":
		return t.L.String() + ">=0"
	case "eq0":
		return t.L.String() + "==0"
	case "faddr":
		return t.Args[0].String() + "." + t.Aux
	case "ld":
		return "*" + t.Args[0].String()
	case "csub":
		return fmt.Sprintf("%s[%s:+%s]", t.Args[0], t.Args[1], t.Args[2])
	}
	var b strings.Builder
	b.WriteString(t.Op)
	if t.Aux != "" {
		b.WriteString("<" + t.Aux + ">")
	}
	if len(t.Args) > 0 {
		b.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.String())
		}
		b.WriteByte(')')
	}
	return b.String()
}

// mentions tells if x occurs in t.
func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// subst replaces terms bottom up.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// rebuild makes t's operation on new arguments, normalizing again.
func rebuild(t *Term, args []*Term) *Term {
	lin := func() Lin {
		l := Lin{k: t.L.k}
		for i, x := range t.L.ts {
			r, ok := l.addMul(linOf(args[i]), x.c)
			if !ok {
				return linAtom(MkSym("ovf", types.Typ[types.Int]))
			}
			l = r
		}
		return l
	}
	switch t.Op {
	case "lin":
		return mkLin(lin())
	case "ge0":
		return mkGE0(lin())
	case "eq0":
		return mkEQ0(lin())
	case "not":
		return MkNot(args[0])
	case "concat":
		return mkConcat(args)
	case "csub":
		return mkSub(args[0], args[1], args[2])
	case "bes":
		w, lo, hi := besAux(t)
		return mkBES(args[0], w, lo, hi)
	case "beint":
		n, _ := strconv.Atoi(t.Aux)
		return mkBEInt(args[0], n)
	case "slice":
		return MkSlice(args[0], args[1], args[2], args[3], t.Typ)
	case "len":
		return MkLen(args[0])
	case "beq":
		return MkBEq(args[0], args[1])
	case "isnil":
		return MkIsNil(args[0])
	case "eq":
		return mkEqTerm(args[0], args[1])
	}
	return intern(t.Op, t.Aux, t.Typ, t.Ref, args)
}

// MkLen is the length of a slice or string value.
func MkLen(x *Term) *Term {
	switch x.Op {
	case "slice":
		return x.Args[2]
	case "nil":
		return MkInt(0)
	}
	if isStringType(x.Typ) || x.Op == "str" || x.Op == "concat" || x.Op == "csub" || x.Op == "bes" || x.Op == "zeros" || x.Op == "sha1" || x.Op == "cont" {
		return clen(x)
	}
	return mkLenRaw(x)
}

// MkBEq is equality of two contents.
func MkBEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == "str" && b.Op == "str" {
		return False
	}
	la, lb := clen(a), clen(b)
	if d := MkSub(la, lb); d.Op == "int" && d.I.Sign() != 0 {
		return False
	}
	if a == MkStr("") {
		return mkEQ0(linOf(lb))
	}
	if b == MkStr("") {
		return mkEQ0(linOf(la))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return MkOp("beq", "", types.Typ[types.Bool], a, b)
}

func MkIsNil(x *Term) *Term {
	switch x.Op {
	case "nil":
		return True
	case "alloc", "faddr", "iaddr", "iface", "closure", "func", "global", "ctxchild", "ctxfree", "ctxdone", "cancelfn", "timer", "rtype":
		return False
	case "sym", "ld":
		if x.Typ != nil {
			if _, ok := x.Typ.Underlying().(*types.Slice); ok {
				break
			}
		}
		if !x.Nullable && !nullableTerm(x) {
			return False
		}
	case "as":
		if x.Args[0].Typ != nil && NonNilIn(x.Args[0].Typ) && isPtrLike(x.Typ) {
			return False
		}
	case "slice":
		if x.Args[0] == nilArr {
			return True
		}
		if x.Args[0].Op == "alloc" {
			return False
		}
	}
	return MkOp("isnil", "", types.Typ[types.Bool], x)
}

// NullableLoad decides which initial memory cells may hold nil.
var NullableLoad = func(addr *Term) bool { return false }

// NonNilIn tells which interface types never hold a nil pointer.
var NonNilIn = func(t types.Type) bool { return false }

func nullableTerm(x *Term) bool {
	if x.Op == "ld" {
		return NullableLoad(x.Args[0])
	}
	return false
}

func mkEqTerm(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == "nil" {
		return MkIsNil(b)
	}
	if b.Op == "nil" {
		return MkIsNil(a)
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return MkOp("eq", "", types.Typ[types.Bool], a, b)
}
