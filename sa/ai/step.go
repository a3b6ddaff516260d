package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(s *State) []*State { return []*State{s} }

// step executes one instruction; it may fork.
func (e *Engine) step(fr *Frame, in ssa.Instruction, st *State) []*State {
	sts := e.step1(fr, in, st)
	if e.H.Value == nil {
		return sts
	}
	at := -1
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL && types.IsInterface(x.Type()) {
			at = 0
		}
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok && types.IsInterface(m.Elem()) {
			at = 0
		}
	case *ssa.Next:
		if t := x.Type().(*types.Tuple).At(2).Type(); types.IsInterface(t) {
			at = 2
		}
	}
	if at < 0 {
		return sts
	}
	var out []*State
	for _, s := range sts {
		v := s.env[in.(ssa.Value)]
		t := v
		if v.Op == "tuple" {
			if at == 2 && v.Args[0] != True || at == 0 && v.Args[1] != True {
				out = append(out, s)
				continue
			}
			t = v.Args[at]
		}
		xs := e.H.Value(e, fr, in, t, s)
		if xs == nil {
			out = append(out, s)
			continue
		}
		for _, x := range xs {
			n := x.Res[0]
			if v.Op == "tuple" {
				as := append([]*Term{}, v.Args...)
				as[at] = n
				n = MkTuple(as...)
			}
			x.St.env[in.(ssa.Value)] = n
			out = append(out, x.St)
		}
	}
	return out
}

func (e *Engine) step1(fr *Frame, in ssa.Instruction, st *State) []*State {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		st.env[x] = st.Alloc(t, x.Comment)
		return one(st)
	case *ssa.BinOp:
		return e.binop(fr, x, st)
	case *ssa.UnOp:
		return e.unop(fr, x, st)
	case *ssa.Call:
		return e.doCall(fr, x, st)
	case *ssa.ChangeType:
		st.env[x] = retype(e.val(st, x.X), x.Type())
		return one(st)
	case *ssa.ChangeInterface:
		st.env[x] = e.val(st, x.X)
		return one(st)
	case *ssa.Convert:
		st.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
		return one(st)
	case *ssa.MultiConvert:
		st.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
		return one(st)
	case *ssa.SliceToArrayPointer:
		v := e.val(st, x.X)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ge := mkGE0(linOf(MkLen(v)).plus(-at.Len()))
		e.Oblige(fr, in, "slice to array conversion", st.Entails(ge), st, "a slice of length "+MkLen(v).String()+" is converted to an array of "+fmt.Sprint(at.Len()))
		if !st.Assume(ge, true) {
			return nil
		}
		st.env[x] = MkSym("arrptr", x.Type())
		// only read: a copy is as good
		if rs := x.Referrers(); rs != nil && len(*rs) == 1 && isByte(at.Elem()) {
			if u, ok := (*rs)[0].(*ssa.UnOp); ok && u.Op == token.MUL {
				st.env[x] = st.AllocBytes(st.Csub(st.Content(v), MkInt(0), MkInt(at.Len())), "arr")
			}
		}
		return one(st)
	case *ssa.MakeInterface:
		st.env[x] = MkIface(x.X.Type(), e.val(st, x.X))
		return one(st)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		fn := x.Fn.(*ssa.Function)
		st.env[x] = mkRef("closure", fmt.Sprintf("%s/%p", fn, fn), x.Type(), fn, bs...)
		return one(st)
	case *ssa.MakeMap:
		t := st.Alloc(x.Type(), "map")
		st.setObj(t, func(o *obj) { o.kind = "map" })
		if e.ExactMaps {
			st.SetEntries(t, nil)
		}
		st.env[x] = t
		return one(st)
	case *ssa.MakeChan:
		t := st.Alloc(x.Type(), "chan")
		st.setObj(t, func(o *obj) { o.kind = "chan" })
		st.env[x] = t
		return one(st)
	case *ssa.MakeSlice:
		return e.makeSlice(fr, x, st)
	case *ssa.FieldAddr:
		p := e.val(st, x.X)
		if !e.nonNil(fr, in, p, st, "field access") {
			return nil
		}
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		st.env[x] = mkFaddr(p, s, x.Field)
		return one(st)
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		st.env[x] = mkField(e.val(st, x.X), s, x.Field)
		return one(st)
	case *ssa.IndexAddr:
		return e.indexAddr(fr, x, st)
	case *ssa.Index:
		return e.index(fr, x, st)
	case *ssa.Lookup:
		return e.lookup(fr, x, st)
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		if !e.nonNil(fr, in, m, st, "write to nil map") {
			return nil
		}
		if e.H.MapUpd != nil {
			e.H.MapUpd(e, fr, in, m, k, v, st)
		}
		epochCtr++
		st.setObj(m, func(o *obj) { o.epoch = epochCtr })
		e.exactUpdate(st, m, k, v)
		return one(st)
	case *ssa.Slice:
		return e.slice(fr, x, st)
	case *ssa.Store:
		a, v := e.val(st, x.Addr), e.val(st, x.Val)
		if !e.nonNil(fr, in, a, st, "store through nil") {
			return nil
		}
		if e.H.Store != nil {
			e.H.Store(e, fr, in, a, v, st)
		}
		if st.dead {
			return nil
		}
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		st.Store(a, v, t)
		e.storedElem(st, a)
		if e.H.Elem != nil {
			if el := elemAddr(a); el != nil {
				e.H.Elem(e, fr, in, el, st)
			}
		}
		return one(st)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			st.env[x] = t.Args[x.Index]
		} else {
			st.env[x] = MkSym("x", x.Type())
		}
		return one(st)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x, st)
	case *ssa.Range:
		st.env[x] = MkOp("range", fmt.Sprintf("%p", x), nil, e.val(st, x.X))
		if e.ExactMaps {
			st.SetMon(iterKey(fr, x), "")
		}
		return one(st)
	case *ssa.Next:
		return e.next(fr, x, st)
	case *ssa.Send:
		ch, v := e.val(st, x.Chan), e.val(st, x.X)
		if e.H.Send != nil {
			e.H.Send(e, fr, in, ch, v, st)
		}
		return one(st)
	case *ssa.Select:
		return e.sel(fr, x, st)
	case *ssa.Defer:
		d := &deferred{call: &x.Call, site: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(st, a))
		}
		d.fn = e.val(st, x.Call.Value)
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
		return one(st)
	case *ssa.RunDefers:
		return e.runDefers(fr, st)
	case *ssa.Go:
		return e.goStmt(fr, x, st)
	}
	panic(fmt.Sprintf("instruction %T not handled: %s", in, in))
}

func retype(t *Term, typ types.Type) *Term { return t }

func (e *Engine) runDefers(fr *Frame, st *State) []*State {
	cur := one(st)
	for {
		var next []*State
		more := false
		for _, s := range cur {
			if len(s.defers) == 0 {
				next = append(next, s)
				continue
			}
			more = true
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[: len(s.defers)-1 : len(s.defers)-1]
			for _, x := range e.callCommon(fr, d.call, d.site, d.fn, d.args, s) {
				if !x.St.dead {
					next = append(next, x.St)
				}
			}
		}
		cur = next
		if !more {
			return cur
		}
	}
}

func (e *Engine) goStmt(fr *Frame, x *ssa.Go, st *State) []*State {
	fn := e.val(st, x.Call.Value)
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, e.val(st, a))
	}
	if e.H.Go != nil {
		e.H.Go(e, fr, x, fn, args, st)
	}
	e.spawn(fr, x, st, func(nf *Frame, g *State) []Exit { return e.callCommon(nf, &x.Call, x, fn, args, g) })
	return one(st)
}

// spawn analyses the body of a new goroutine.
func (e *Engine) spawn(fr *Frame, in ssa.Instruction, st *State, body func(nf *Frame, g *State) []Exit) {
	if e.SkipGo {
		return
	}
	g := st.clone()
	g.locks = nil
	g.defers = nil
	g.mon = map[string]string{"go": "1"}
	g.ghost = map[string]*Term{}
	if e.H.GoStart != nil {
		e.H.GoStart(e, fr, in, st, g)
	}
	nf := &Frame{Fn: fr.Fn, Parent: fr.Parent, Site: fr.Site, Depth: fr.Depth, Go: true}
	for _, x := range body(nf, g) {
		if !x.St.dead && e.H.GoEnd != nil {
			e.H.GoEnd(e, fr, in, x)
		}
	}
	if e.H.Gone != nil {
		e.H.Gone(e, fr, in, st)
	}
}

// nonNil checks a dereference; false if it always fails.
func (e *Engine) nonNil(fr *Frame, in ssa.Instruction, p *Term, st *State, what string) bool {
	switch st.Nilness(p) {
	case -1:
		e.Oblige(fr, in, "nil dereference", true, st, "")
		return true
	case 1:
		e.Oblige(fr, in, "nil dereference", false, st, what+": always nil here")
		return false
	}
	e.Oblige(fr, in, "nil dereference", false, st, what+": may be nil: "+p.String())
	return st.Assume(MkIsNil(p), false)
}

// inBounds checks 0 <= i < n.
func (e *Engine) inBounds(fr *Frame, in ssa.Instruction, i, n *Term, st *State, what string) bool {
	lo := mkGE0(linOf(i))
	hi := mkGE0(linOf(MkSub(n, i)).plus(-1))
	ok := st.Entails(lo) && st.Entails(hi)
	note := ""
	if !ok {
		note = fmt.Sprintf("cannot show 0 <= %s < %s", i, n)
	}
	e.Oblige(fr, in, what, ok, st, note)
	return st.Assume(lo, true) && st.Assume(hi, true)
}

func (e *Engine) makeSlice(fr *Frame, x *ssa.MakeSlice, st *State) []*State {
	ln, cp := e.val(st, x.Len), e.val(st, x.Cap)
	ok := st.LE(MkInt(0), ln) && st.LE(ln, cp)
	note := ""
	if !ok {
		note = fmt.Sprintf("make with length %s capacity %s", ln, cp)
	}
	e.Oblige(fr, x, "make length", ok, st, note)
	if e.H.Alloc != nil {
		e.H.Alloc(e, fr, x, "make", cp, st)
	}
	if !st.Assume(mkGE0(linOf(ln)), true) || !st.Assume(mkGE0(linOf(MkSub(cp, ln))), true) ||
		!st.Assume(mkGE0(linOf(MkSub(MkInt(maxLen), cp))), true) {
		return nil
	}
	el := x.Type().Underlying().(*types.Slice).Elem()
	if isByte(el) {
		o := st.AllocBytes(mkConcat([]*Term{MkOp("zeros", "", nil, cp)}), "make")
		st.env[x] = MkSlice(o, MkInt(0), ln, cp, x.Type())
		return one(st)
	}
	o := st.Alloc(x.Type(), "make")
	st.env[x] = MkSlice(o, MkInt(0), ln, cp, x.Type())
	return one(st)
}

func (e *Engine) indexAddr(fr *Frame, x *ssa.IndexAddr, st *State) []*State {
	v, i := e.val(st, x.X), e.val(st, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		o, off, ln, _ := sliceParts(v)
		if !e.inBounds(fr, x, i, ln, st, "index out of range") {
			return nil
		}
		st.env[x] = mkIaddr(o, MkAdd(off, i), u.Elem())
	case *types.Pointer:
		if !e.nonNil(fr, x, v, st, "array access") {
			return nil
		}
		a := u.Elem().Underlying().(*types.Array)
		if !e.inBounds(fr, x, i, MkInt(a.Len()), st, "index out of range") {
			return nil
		}
		st.env[x] = mkIaddr(v, i, a.Elem())
	}
	return one(st)
}

func (e *Engine) index(fr *Frame, x *ssa.Index, st *State) []*State {
	v, i := e.val(st, x.X), e.val(st, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Array:
		if !e.inBounds(fr, x, i, MkInt(u.Len()), st, "index out of range") {
			return nil
		}
		if v.Op == "arrval" {
			st.env[x] = st.elemOf(v.Args[0], i)
			return one(st)
		}
		if n, ok := i.Int64(); ok && v.Op == "struct" && int(n) < len(v.Args) {
			st.env[x] = v.Args[n]
			return one(st)
		}
		st.env[x] = MkSym("elem", x.Type())
	default: // string
		if !e.inBounds(fr, x, i, MkLen(v), st, "index out of range") {
			return nil
		}
		st.env[x] = st.elemOf(st.Content(v), i)
	}
	return one(st)
}

func (e *Engine) lookup(fr *Frame, x *ssa.Lookup, st *State) []*State {
	m, k := e.val(st, x.X), e.val(st, x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // string
		if !e.inBounds(fr, x, k, MkLen(m), st, "index out of range") {
			return nil
		}
		st.env[x] = st.elemOf(st.Content(m), k)
		return one(st)
	}
	if e.H.MapRead != nil {
		e.H.MapRead(e, fr, x, m, st)
	}
	v, has := st.MapGet(m, k, mt.Elem())
	if kv, ok := st.entries(m); ok {
		if i, ok := e.entry(st, kv, k); ok && i >= 0 {
			v, has = kv[i+1], True
		} else if ok {
			v, has = zeroOf(mt.Elem()), False
		}
	}
	if !x.CommaOk {
		// absent keys give the zero value
		st.env[x] = v
		return one(st)
	}
	yes, no := st.clone(), st
	var out []*State
	if yes.Assume(has, true) {
		yes.env[x] = MkTuple(v, True)
		out = append(out, yes)
	}
	if no.Assume(has, false) {
		no.env[x] = MkTuple(zeroOf(mt.Elem()), False)
		out = append(out, no)
	}
	return out
}

// MapGet is the value and presence of a key in the map's current version.
func (s *State) MapGet(m, k *Term, elem types.Type) (v, has *Term) {
	ep := fmt.Sprint(s.obj(m).epoch)
	if o := s.objs[m]; o != nil && o.zero && o.epoch == 0 {
		return zeroOf(elem), False
	}
	if isByteSlice(k.Typ) || k.Op == "slice" {
		k = s.Content(k)
	}
	v = intern("mapget", ep+typeKey(elem), elem, nil, []*Term{m, k})
	v.Nullable = true
	if isNilable(elem) {
		// handled through isnil
	}
	return v, MkOp("maphas", ep, types.Typ[types.Bool], m, k)
}

// MapLen is the number of entries in the current version.
func (s *State) MapLen(m *Term) *Term {
	if kv, ok := s.entries(m); ok {
		return MkInt(int64(len(kv) / 2))
	}
	if o := s.objs[m]; o != nil && o.zero && o.epoch == 0 {
		return MkInt(0)
	}
	if m.Op == "nil" {
		return MkInt(0)
	}
	return MkOp("maplen", fmt.Sprint(s.obj(m).epoch), nil, m)
}

func (e *Engine) slice(fr *Frame, x *ssa.Slice, st *State) []*State {
	v := e.val(st, x.X)
	var lo, hi, mx *Term
	lo = MkInt(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if x.Max != nil {
		mx = e.val(st, x.Max)
	}
	check := func(limit *Term) bool {
		c1 := mkGE0(linOf(lo))
		c2 := mkGE0(linOf(MkSub(hi, lo)))
		c3 := mkGE0(linOf(MkSub(limit, hi)))
		ok := st.Entails(c1) && st.Entails(c2) && st.Entails(c3)
		note := ""
		if !ok {
			note = fmt.Sprintf("cannot show 0 <= %s <= %s <= %s", lo, hi, limit)
		}
		e.Oblige(fr, x, "slice bounds", ok, st, note)
		return st.Assume(c1, true) && st.Assume(c2, true) && st.Assume(c3, true)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		o, off, ln, cp := sliceParts(v)
		if hi == nil {
			hi = ln
		}
		// len <= cap
		if cp != ln {
			st.Assume(mkGE0(linOf(MkSub(cp, ln))), true)
		}
		lim := cp
		if mx != nil {
			lim = mx
		}
		if !check(lim) {
			return nil
		}
		if mx == nil {
			mx = cp
		}
		if v.Op == "nil" {
			st.env[x] = v
			return one(st)
		}
		st.env[x] = MkSlice(o, MkAdd(off, lo), MkSub(hi, lo), MkSub(mx, lo), x.Type())
	case *types.Pointer:
		if !e.nonNil(fr, x, v, st, "slice of nil array") {
			return nil
		}
		a := u.Elem().Underlying().(*types.Array)
		n := MkInt(a.Len())
		if hi == nil {
			hi = n
		}
		if !check(n) {
			return nil
		}
		st.env[x] = MkSlice(v, lo, MkSub(hi, lo), MkSub(n, lo), x.Type())
	default: // string
		c := st.Content(v)
		if hi == nil {
			hi = clen(c)
		}
		if !check(clen(c)) {
			return nil
		}
		st.env[x] = st.Csub(c, lo, MkSub(hi, lo))
	}
	return one(st)
}

func (e *Engine) unop(fr *Frame, x *ssa.UnOp, st *State) []*State {
	v := e.val(st, x.X)
	switch x.Op {
	case token.NOT:
		st.env[x] = MkNot(v)
	case token.SUB:
		if isIntType(x.Type()) {
			st.env[x] = e.fit(st, linOf(v).neg(), x.Type(), "neg", v)
		} else {
			st.env[x] = MkOp("fneg", "", x.Type(), v)
		}
	case token.XOR:
		lo, hi := typeRange(x.Type())
		if lo != nil && lo.Sign() == 0 {
			st.env[x] = e.fit(st, linBig(hi).sub(linOf(v)), x.Type(), "^", v)
		} else {
			st.env[x] = e.fit(st, linOf(v).neg().plus(-1), x.Type(), "^", v)
		}
	case token.MUL:
		if !e.nonNil(fr, x, v, st, "load through nil") {
			return nil
		}
		if e.H.Load != nil {
			e.H.Load(e, fr, x, v, st)
		}
		st.env[x] = e.load(st, v, x.Type())
		e.loadedElem(st, v, st.env[x])
	case token.ARROW:
		if e.H.Recv != nil {
			e.H.Recv(e, fr, x, v, st)
		}
		ct := x.X.Type().Underlying().(*types.Chan)
		if !x.CommaOk {
			st.env[x] = e.recvValue(st, v, ct.Elem())
			if e.H.Received != nil {
				e.H.Received(e, fr, x, v, st.env[x], true, st)
			}
			return one(st)
		}
		no := st.clone()
		rv := e.recvValue(st, v, ct.Elem())
		st.env[x] = MkTuple(rv, True)
		no.env[x] = MkTuple(zeroOf(ct.Elem()), False)
		if e.H.Received != nil {
			e.H.Received(e, fr, x, v, rv, true, st)
			e.H.Received(e, fr, x, v, zeroOf(ct.Elem()), false, no)
		}
		if e.Cancelled && isDone(v) {
			return one(no)
		}
		return []*State{st, no}
	default:
		panic("unop " + x.Op.String())
	}
	return one(st)
}

func (e *Engine) recvValue(st *State, ch *Term, t types.Type) *Term {
	if isPtr(t) {
		return e.Reuse(st, "recv", t, true)
	}
	return MkSym("recv", t)
}

func (e *Engine) load(st *State, addr *Term, t types.Type) *Term {
	if e.Volatile != nil && e.Volatile(addr) {
		return MkNullable("vol", t)
	}
	if rootOf(addr).Op == "global" {
		if _, ok := st.heap[addr]; !ok && e.Globals != nil {
			if v, ok := e.Globals.heap[addr]; ok {
				return v
			}
			if addr.Op == "global" {
				if o := e.Globals.objs[addr]; o != nil && o.content != nil {
					if st.objs[addr] == nil {
						st.objs[addr] = o
					}
				}
			}
		}
	}
	return st.Load(addr, t)
}

// fit is the value of an arithmetic result in type t: exact if it cannot
// overflow, an unknown function of the operands otherwise.
func (e *Engine) fit(st *State, l Lin, t types.Type, op string, args ...*Term) *Term {
	lo, hi := typeRange(t)
	if lo == nil {
		return mkLin(l)
	}
	if l.isConst() {
		if l.k.Cmp(lo) >= 0 && l.k.Cmp(hi) <= 0 {
			return mkLin(l)
		}
		// wrap the constant
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		r := new(big.Int).Mod(new(big.Int).Sub(l.k, lo), m)
		return mkBigInt(r.Add(r, lo))
	}
	a := Con{l: Lin{k: new(big.Int).Sub(l.k, lo), ts: l.ts}}
	nl := l.neg()
	b := Con{l: Lin{k: new(big.Int).Add(nl.k, hi), ts: nl.ts}}
	if st.entailsCon(a) && st.entailsCon(b) {
		return mkLin(l)
	}
	return MkOp("wrap", op+":"+typeKey(t), t, args...)
}

func (e *Engine) binop(fr *Frame, x *ssa.BinOp, st *State) []*State {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		r := e.compare(st, x.Op, a, b, t)
		st.env[x] = r
		return one(st)
	}
	if isStringType(t) && x.Op == token.ADD {
		st.env[x] = mkConcat([]*Term{st.Content(a), st.Content(b)})
		return one(st)
	}
	if !isIntType(t) {
		st.env[x] = MkOp("fop", x.Op.String(), t, a, b)
		return one(st)
	}
	states := one(st)
	if _, isConst := b.Int64(); (x.Op == token.QUO || x.Op == token.REM) && !isConst && st.Truth(mkGE0(linOf(a))) == 0 {
		// by the sign of the dividend
		neg := st.clone()
		states = nil
		if st.Assume(mkGE0(linOf(a)), true) {
			states = append(states, st)
		}
		if neg.Assume(mkGE0(linOf(a)), false) {
			states = append(states, neg)
		}
	}
	// a product with a sign: by the sign
	var sign map[*State]int64
	sf := a
	if x.Op == token.MUL {
		if !st.signLike(a) {
			sf = b
		}
		_, ca := a.Int64()
		_, cb := b.Int64()
		if !ca && !cb && st.signLike(sf) {
			sign = map[*State]int64{}
			states = nil
			for v := int64(-1); v <= 1; v++ {
				if s := st.clone(); s.Assume(mkEQ0(linOf(MkSub(sf, MkInt(v)))), true) && !s.dead {
					sign[s] = v
					states = append(states, s)
				}
			}
		}
	}
	var out []*State
	for _, st := range states {
		a, b := a, b
		if v, ok := sign[st]; ok && sf == a {
			a = MkInt(v)
		} else if ok {
			b = MkInt(v)
		}
		if r, ok := e.arith(fr, x, x.Op, a, b, x.Type(), st); ok {
			st.env[x] = r
			if e.H.Arith != nil && (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL) {
				exact := r.Op != "wrap"
				if r.Op == "mul" {
					exact = false
				}
				e.H.Arith(e, fr, x, exact, st)
			}
			out = append(out, st)
		}
	}
	return out
}

// signLike: between -1 and 1.
func (s *State) signLike(t *Term) bool {
	return s.Truth(mkGE0(linOf(t).plus(1))) == 1 && s.Truth(mkGE0(linOf(t).neg().plus(1))) == 1
}

func (e *Engine) arith(fr *Frame, in ssa.Instruction, op token.Token, a, b *Term, t types.Type, st *State) (*Term, bool) {
	la, lb := linOf(a), linOf(b)
	os := op.String()
	nonneg := func(x *Term) bool { return st.LE(MkInt(0), x) }
	switch op {
	case token.ADD:
		l, ok := la.add(lb)
		if !ok {
			return MkOp("wrap", os, t, a, b), true
		}
		return e.fit(st, l, t, os, a, b), true
	case token.SUB:
		l, ok := la.addMul(lb, -1)
		if !ok {
			return MkOp("wrap", os, t, a, b), true
		}
		return e.fit(st, l, t, os, a, b), true
	case token.MUL:
		return e.mul(st, a, b, t), true
	case token.QUO, token.REM:
		if b.Op == "int" {
			if b.I.Sign() == 0 {
				e.Oblige(fr, in, "division by zero", false, st, "")
				return nil, false
			}
		} else {
			nz := MkNot(mkEQ0(lb))
			ok := st.Entails(nz)
			e.Oblige(fr, in, "division by zero", ok, st, "divisor "+b.String())
			if !st.Assume(nz, true) {
				return nil, false
			}
		}
		if a.Op == "int" && b.Op == "int" {
			if op == token.QUO {
				return mkBigInt(new(big.Int).Quo(a.I, b.I)), true
			}
			return mkBigInt(new(big.Int).Rem(a.I, b.I)), true
		}
		q := MkOp("div", "", t, a, b)
		if c, ok := b.Int64(); ok && c > 0 {
			cq, ok2 := linOf(q).scale(c)
			if !ok2 {
				break
			}
			if nonneg(a) {
				// c*q <= a <= c*q+c-1
				st.addCon(Con{l: la.sub(cq)})
				st.addCon(Con{l: cq.sub(la).plus(c - 1)})
				if op == token.QUO {
					return q, true
				}
				return mkLin(la.sub(cq)), true
			}
			if op == token.QUO {
				// |c*q - a| < c
				st.addCon(Con{l: la.sub(cq).plus(c - 1)})
				st.addCon(Con{l: cq.sub(la).plus(c - 1)})
				return q, true
			}
		} else if nonneg(a) && st.LE(MkInt(1), b) {
			// a == q*b+r with 0 <= r < b
			r := MkOp("mod", "", t, a, b)
			st.addCon(Con{l: linOf(q)})
			st.addCon(Con{l: linOf(r)})
			st.addCon(Con{l: lb.sub(linOf(r)).plus(-1)})
			st.addCon(Con{l: la.sub(linOf(q)).sub(linOf(r))})
			if op == token.QUO {
				return q, true
			}
			return r, true
		}
		if st.LE(a, MkInt(0)) && st.LE(MkInt(1), b) {
			st.addCon(Con{l: linOf(q).neg()})
			st.addCon(Con{l: linOf(q).sub(la)})
		}
		if op == token.QUO {
			return q, true
		}
		return MkOp("mod", "", t, a, b), true
	case token.SHL:
		if c, ok := b.Int64(); ok && c >= 0 && c < 62 {
			if l, ok := la.scale(1 << uint(c)); ok {
				return e.fit(st, l, t, os, a, b), true
			}
		}
	case token.SHR:
		if c, ok := b.Int64(); ok && c >= 0 && c < 62 {
			if a.Op == "int" {
				return mkBigInt(new(big.Int).Rsh(a.I, uint(c))), true
			}
			if nonneg(a) {
				return e.arithDiv(st, a, int64(1)<<uint(c), t), true
			}
		}
	case token.AND:
		if a.Op == "int" && b.Op == "int" {
			return mkBigInt(new(big.Int).And(a.I, b.I)), true
		}
		for i := 0; i < 2; i++ {
			x, m := a, b
			if i == 1 {
				x, m = b, a
			}
			if c, ok := m.Int64(); ok && c >= 0 {
				if c+1 > 0 && (c&(c+1)) == 0 && nonneg(x) {
					// mask of low bits: remainder
					if st.LE(x, m) {
						return x, true
					}
					q := e.arithDiv(st, x, c+1, t)
					cq, _ := linOf(q).scale(c + 1)
					return mkLin(linOf(x).sub(cq)), true
				}
				r := MkOp("wrap", "&"+typeKey(t), t, x, m)
				st.addCon(Con{l: linOf(r)})
				st.addCon(Con{l: linOf(m).sub(linOf(r))})
				return r, true
			}
		}
	case token.OR:
		if a.Op == "int" && b.Op == "int" {
			return mkBigInt(new(big.Int).Or(a.I, b.I)), true
		}
		for i := 0; i < 2; i++ {
			h, l := a, b
			if i == 1 {
				h, l = b, a
			}
			// low part fits under the lowest bit of the high part
			k := lowBits(linOf(h))
			if k > 0 && k < 62 && nonneg(l) && st.LE(l, MkInt(int64(1)<<uint(k)-1)) {
				s, ok := linOf(h).add(linOf(l))
				if ok {
					return e.fit(st, s, t, "+", a, b), true
				}
			}
		}
		if a == MkInt(0) {
			return b, true
		}
		if b == MkInt(0) {
			return a, true
		}
	case token.XOR:
		if a.Op == "int" && b.Op == "int" {
			return mkBigInt(new(big.Int).Xor(a.I, b.I)), true
		}
	}
	return MkOp("wrap", os+":"+typeKey(t), t, a, b), true
}

func (e *Engine) arithDiv(st *State, a *Term, c int64, t types.Type) *Term {
	if c == 1 {
		return a
	}
	la := linOf(a)
	// (c*x+r)/c with a >= 0
	if len(la.ts) > 0 {
		whole := true
		q := Lin{k: new(big.Int).Div(la.k, big.NewInt(c))}
		for _, x := range la.ts {
			if x.c%c != 0 {
				whole = false
				break
			}
			q.ts = append(q.ts, LT{a: x.a, c: x.c / c})
		}
		if whole {
			return mkLin(q)
		}
	}
	q := MkOp("div", "", t, a, MkInt(c))
	cq, ok := linOf(q).scale(c)
	if ok {
		st.addCon(Con{l: la.sub(cq)})
		st.addCon(Con{l: cq.sub(la).plus(c - 1)})
	}
	return q
}

// lowBits is the number of low bits that are zero in every value of l.
func lowBits(l Lin) int {
	k := 63
	tz := func(n uint64) int {
		c := 0
		for n != 0 && n&1 == 0 {
			n >>= 1
			c++
		}
		if n == 0 {
			return 63
		}
		return c
	}
	for _, t := range l.ts {
		if z := tz(abs64(t.c)); z < k {
			k = z
		}
	}
	if l.k.Sign() != 0 {
		if z := int(l.k.TrailingZeroBits()); z < k {
			k = z
		}
	}
	if len(l.ts) == 0 && l.k.Sign() == 0 {
		return 0
	}
	return k
}

func (e *Engine) mul(st *State, a, b *Term, t types.Type) *Term {
	if a.Op == "int" {
		a, b = b, a
	}
	if c, ok := b.Int64(); ok {
		if l, ok := linOf(a).scale(c); ok {
			return e.fit(st, l, t, "*", a, b)
		}
		return MkOp("wrap", "*", t, a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return MkOp("mul", typeKey(t), t, a, b)
}

// MkMul is the product as the engine represents it.
func MkMul(st *State, e *Engine, a, b *Term, t types.Type) *Term { return e.mul(st, a, b, t) }

func (e *Engine) compare(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if isIntType(t) {
		d := linOf(b)
		l, ok := linOf(a).addMul(d, -1) // a-b
		if !ok {
			return MkSym("cmp", types.Typ[types.Bool])
		}
		switch op {
		case token.EQL:
			return mkEQ0(l)
		case token.NEQ:
			return MkNot(mkEQ0(l))
		case token.LSS:
			return mkGE0(l.neg().plus(-1))
		case token.LEQ:
			return mkGE0(l.neg())
		case token.GTR:
			return mkGE0(l.plus(-1))
		default:
			return mkGE0(l)
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		r := e.equal(st, a, b, t)
		if op == token.NEQ {
			return MkNot(r)
		}
		return r
	}
	if isStringType(t) {
		a, b = st.Content(a), st.Content(b)
	}
	if isStringType(t) {
		if c, ok := e.order(a, b); ok {
			switch op {
			case token.LSS:
				return MkBool(c < 0)
			case token.GTR:
				return MkBool(c > 0)
			case token.LEQ:
				return MkBool(c <= 0)
			}
			return MkBool(c >= 0)
		}
	}
	switch op {
	case token.LSS:
		return MkOp("less", "", types.Typ[types.Bool], a, b)
	case token.GTR:
		return MkOp("less", "", types.Typ[types.Bool], b, a)
	case token.LEQ:
		return MkNot(MkOp("less", "", types.Typ[types.Bool], b, a))
	}
	return MkNot(MkOp("less", "", types.Typ[types.Bool], a, b))
}

func (e *Engine) equal(st *State, a, b *Term, t types.Type) *Term {
	if a == b {
		return True
	}
	if isStringType(t) {
		a, b = st.Content(a), st.Content(b)
		if c, ok := e.order(a, b); ok {
			return MkBool(c == 0)
		}
		return MkBEq(a, b)
	}
	if isBoolType(t) {
		for i := 0; i < 2; i++ {
			switch st.Truth(a) {
			case 1:
				return b
			case -1:
				return MkNot(b)
			}
			a, b = b, a
		}
		return mkEqTerm(a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if isByte(u.Elem()) && a.Op == "arrval" && b.Op == "arrval" {
			return MkBEq(a.Args[0], b.Args[0])
		}
	case *types.Interface:
		if a.Op == "iface" && b.Op == "iface" {
			if a.Aux != b.Aux {
				return False
			}
			return e.equal(st, a.Args[0], b.Args[0], a.Ref.(types.Type))
		}
	}
	return mkEqTerm(a, b)
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	fi, ti := isIntType(from), isIntType(to)
	switch {
	case fi && ti:
		return e.fit(st, linOf(v), to, "conv", v)
	case isStringType(from) && isByteSlice(to):
		return st.NewBytes(st.Content(v), "conv")
	case isByteSlice(from) && isStringType(to):
		return st.Content(v)
	case isStringType(from) && isStringType(to):
		return v
	case fi && isStringType(to):
		return MkOp("runestr", "", to, v)
	}
	if isPtrLike(from) && isPtrLike(to) {
		return v
	}
	r := MkOp("conv", typeKey(to), to, v)
	if ti && !fi {
		if st.floatGE0(v) {
			st.Assume(MkGE(r, MkInt(0)), true)
		}
		if st.floatLE(v, 100) {
			st.Assume(MkGE(MkInt(100), r), true)
		}
	}
	return r
}

func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (e *Engine) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State) []*State {
	v := e.val(st, x.X)
	var is, as *Term
	if v.Op == "iface" {
		dyn := v.Ref.(types.Type)
		if types.IsInterface(x.AssertedType) {
			is = MkBool(types.Implements(dyn, x.AssertedType.Underlying().(*types.Interface)))
			as = v
		} else {
			is = MkBool(types.Identical(dyn, x.AssertedType))
			as = v.Args[0]
		}
	} else if v.Op == "nil" {
		is, as = False, zeroOf(x.AssertedType)
	} else {
		is = MkOp("typeis", typeKey(x.AssertedType), types.Typ[types.Bool], v)
		if t, ok := e.Timeouts[v]; ok && t && isTimeouter(x.AssertedType) {
			is = True
		}
		if types.IsInterface(x.AssertedType) {
			as = v
		} else {
			as = mkRef("as", typeKey(x.AssertedType), x.AssertedType, x.AssertedType, v)
		}
	}
	if !x.CommaOk {
		ok := st.Entails(is)
		e.Oblige(fr, x, "type assertion", ok, st, "dynamic type not known")
		if !st.Assume(is, true) {
			return nil
		}
		st.env[x] = as
		return one(st)
	}
	no := st.clone()
	var out []*State
	if st.Assume(is, true) {
		if MkIsNil(v).Op == "isnil" {
			if !st.Assume(MkIsNil(v), false) {
				goto failed
			}
		}
		// other concrete types are excluded
		for l, val := range st.lits {
			if val && l.Op == "typeis" && l != is && l.Args[0] == v && !types.IsInterface(x.AssertedType) {
				goto failed
			}
		}
		st.env[x] = MkTuple(as, True)
		out = append(out, st)
	}
failed:
	if no.Assume(is, false) {
		no.env[x] = MkTuple(zeroOf(x.AssertedType), False)
		out = append(out, no)
	}
	return out
}

// isTimeouter: the interface asks for no more than net.Error does.
func isTimeouter(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		switch i.Method(k).Name() {
		case "Error", "Timeout", "Temporary":
		default:
			return false
		}
	}
	return true
}

func (e *Engine) next(fr *Frame, x *ssa.Next, st *State) []*State {
	tt := x.Type().(*types.Tuple)
	it := e.val(st, x.Iter)
	no := st.clone()
	no.env[x] = MkTuple(False, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type()))
	k := symFor("key", tt.At(1).Type())
	v := symFor("val", tt.At(2).Type())
	if x.IsString {
		s := it.Args[0]
		// index within the string
		st.addCon(Con{l: linOf(k)})
		st.addCon(Con{l: linOf(MkSub(MkLen(s), k)).plus(-1)})
	} else if it.Op == "range" {
		m := it.Args[0]
		if mt, ok := rangeMap(x); ok {
			if e.H.MapRead != nil {
				e.H.MapRead(e, fr, x, m, st)
			}
			if out, ok := e.exactNext(fr, x, m, st); ok {
				return out
			}
			if o := st.objs[m]; o != nil && o.zero && o.epoch == 0 {
				return one(no)
			}
			v2, has := st.MapGet(m, k, mt.Elem())
			st.Assume(has, true)
			st.Assume(mkGE0(linOf(st.MapLen(m)).plus(-1)), true)
			v = v2
		}
	}
	st.env[x] = MkTuple(True, k, v)
	return []*State{st, no}
}

func rangeMap(x *ssa.Next) (*types.Map, bool) {
	r, ok := x.Iter.(*ssa.Range)
	if !ok {
		return nil, false
	}
	m, ok := r.X.Type().Underlying().(*types.Map)
	return m, ok
}

func symFor(n string, t types.Type) *Term {
	if t == nil {
		return MkSym(n, nil)
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return MkSym(n, nil)
	}
	return MkNullable(n, t)
}

func zeroOrNil(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return MkNil(nil)
	}
	return zeroOf(t)
}

func isDone(ch *Term) bool {
	return ch.Op == "ctxdone"
}

func (e *Engine) sel(fr *Frame, x *ssa.Select, st *State) []*State {
	var chans []*Term
	for _, s := range x.States {
		chans = append(chans, e.val(st, s.Chan))
	}
	if e.H.Select != nil {
		e.H.Select(e, fr, x, chans, st)
	}
	var out []*State
	tt := x.Type().(*types.Tuple)
	mk := func(i int, recvOK bool) {
		s := st.clone()
		vals := []*Term{MkInt(int64(i)), MkBool(recvOK)}
		ri := 2
		for k, c := range x.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			t := tt.At(ri).Type()
			if k == i && recvOK {
				vals = append(vals, MkSym("recv", t))
			} else {
				vals = append(vals, zeroOf(t))
			}
			ri++
		}
		if i >= 0 {
			c := x.States[i]
			if c.Dir == types.SendOnly {
				if e.H.Send != nil {
					e.H.Send(e, fr, x, chans[i], e.val(s, c.Send), s)
				}
			}
			if isDone(chans[i]) {
				s.Assume(ctxErrNil(chans[i].Args[0]), false)
				s.SetMonIf("ctxdone", "1")
			}
		}
		s.env[x] = MkTuple(vals...)
		if !s.dead && e.H.Selected != nil {
			e.H.Selected(e, fr, x, i, chans, s)
		}
		if !s.dead {
			out = append(out, s)
		}
	}
	done := -1
	for i, c := range chans {
		if isDone(c) {
			done = i
		}
	}
	if e.Cancelled && done >= 0 {
		mk(done, false)
		return out
	}
	for i, c := range x.States {
		if c.Dir == types.RecvOnly {
			if isDone(chans[i]) {
				mk(i, false)
				continue
			}
			mk(i, true)
			if chans[i].Op != "timer" {
				mk(i, false)
			}
		} else {
			mk(i, true)
		}
	}
	if !x.Blocking {
		mk(-1, false)
	}
	return out
}

// SetMonIf sets a monitor variable only if a check uses it.
func (s *State) SetMonIf(k, v string) {
	if _, ok := s.mon[k]; ok {
		s.mon[k] = v
	}
}

// ctxErrNil: the context is not cancelled.
func ctxErrNil(ctx *Term) *Term { return MkOp("ctxok", "", types.Typ[types.Bool], ctx) }

var _ = strings.Contains

// elemAddr is the slice element an address lies in.
func elemAddr(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "gfield" {
		a = a.Args[0]
	}
	if a.Op != "iaddr" || len(a.Args) != 2 {
		return nil
	}
	if r := rootOf(a); r.Op == "alloc" && strings.HasPrefix(r.Aux, "varargs") {
		return nil
	}
	return a
}
