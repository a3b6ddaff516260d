package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()
var boolType = types.Typ[types.Bool]
var intType = types.Typ[types.Int]

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// doCall executes a call instruction.
func (e *Engine) doCall(fr *Frame, x *ssa.Call, st *State) []*State {
	fn := e.val(st, x.Call.Value)
	args := make([]*Term, len(x.Call.Args))
	for i, a := range x.Call.Args {
		args[i] = e.val(st, a)
	}
	var out []*State
	for _, ex := range e.callCommon(fr, &x.Call, x, fn, args, st) {
		if ex.St.dead {
			continue
		}
		switch len(ex.Res) {
		case 0:
			ex.St.env[x] = MkTuple()
		case 1:
			ex.St.env[x] = ex.Res[0]
		default:
			ex.St.env[x] = MkTuple(ex.Res...)
		}
		out = append(out, ex.St)
	}
	return out
}

func ret(st *State, res ...*Term) []Exit { return []Exit{{st, res}} }

// callCommon performs a call, go or defer.
func (e *Engine) callCommon(fr *Frame, c *ssa.CallCommon, site ssa.CallInstruction, fn *Term, args []*Term, st *State) []Exit {
	if c.IsInvoke() {
		return e.invoke(fr, c, site, fn, args, st)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, b.Name(), c, site, args, st)
	}
	return e.callTerm(fr, fn, args, site, c.Signature(), st)
}

// callTerm calls a function value.
func (e *Engine) callTerm(fr *Frame, fn *Term, args []*Term, site ssa.CallInstruction, sig *types.Signature, st *State) []Exit {
	switch fn.Op {
	case "func":
		return e.callFn(fr, fn.Ref.(*ssa.Function), args, nil, site, st)
	case "closure":
		return e.callFn(fr, fn.Ref.(*ssa.Function), args, fn.Args, site, st)
	case "cancelfn":
		cc := &CallCtx{Name: "context.CancelFunc", Args: []*Term{fn.Args[0]}, Site: site, Sig: sig, Fr: fr}
		return e.modelled(cc, st, func() []Exit {
			st.SetMonIf("cancelled", "1")
			return ret(st)
		})
	}
	if in, ok := site.(ssa.Instruction); ok {
		if !e.nonNil(fr, in, fn, st, "call of nil function") {
			return nil
		}
	}
	name := "dyn:" + fn.String()
	if fn.Op == "ld" {
		name = "dyn:" + fn.Args[0].Aux
	}
	cc := &CallCtx{Name: name, Args: append([]*Term{fn}, args...), Site: site, Sig: sig, Fr: fr}
	return e.modelled(cc, st, func() []Exit { return e.external(cc, st) })
}

// modelled wraps hooks around a modelled call.
func (e *Engine) modelled(cc *CallCtx, st *State, f func() []Exit) []Exit {
	var xs []Exit
	done := false
	if e.H.Call != nil {
		xs, done = e.H.Call(e, cc, st)
		if st.dead {
			return nil
		}
	}
	if !done {
		xs = f()
	}
	var out []Exit
	for _, x := range xs {
		if x.St.dead {
			continue
		}
		if e.H.After != nil {
			e.H.After(e, cc, x)
			if x.St.dead {
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

// callFn calls a known function.
func (e *Engine) callFn(fr *Frame, fn *ssa.Function, args, free []*Term, site ssa.CallInstruction, st *State) []Exit {
	cc := &CallCtx{Name: FnName(fn), Fn: fn, Args: args, Site: site, Sig: fn.Signature, Fr: fr}
	return e.modelled(cc, st, func() []Exit {
		if e.InModule(fn) && !(e.Opaque != nil && e.Opaque(fn)) {
			if m := rewrites[cc.Name]; m != nil {
				return m(e, cc, st)
			}
			var site2 ssa.Instruction
			if site != nil {
				site2 = site.(ssa.Instruction)
			}
			depth := 0
			for f := fr; f != nil; f = f.Parent {
				if f.Fn == fn && fn.Parent() == nil && !f.root {
					if depth++; depth <= e.Unfold {
						continue
					}
					if e.Unfold > 0 {
						e.Record(fr, site2, "recursion follows the type", false, ShortName(fn)+" calls itself without end")
						return nil
					}
					return e.recursive(fr, fn, args, site2, st)
				}
			}
			nf := &Frame{Fn: fn, Parent: fr, Site: site2, Depth: fr.Depth + 1, entry: st.clone(), args: args}
			return e.Run(nf, fn, args, free, st)
		}
		return e.external(cc, st)
	})
}

// CallFunction runs a function from a harness.
func (e *Engine) CallFunction(fr *Frame, fn *ssa.Function, args []*Term, st *State) []Exit {
	return e.callFn(fr, fn, args, nil, nil, st)
}

// CallValue calls a function value from a harness or a model.
func (e *Engine) CallValue(fr *Frame, fn *Term, args []*Term, site ssa.CallInstruction, st *State) []Exit {
	var sig *types.Signature
	if fn.Typ != nil {
		sig, _ = fn.Typ.Underlying().(*types.Signature)
	}
	if fn.Op == "func" || fn.Op == "closure" {
		sig = fn.Ref.(*ssa.Function).Signature
	}
	if sig == nil {
		sig = types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	return e.callTerm(fr, fn, args, site, sig, st)
}

// FnName is the qualified name with generic instances mapped to their origin.
func FnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

// invoke calls an interface method.
func (e *Engine) invoke(fr *Frame, c *ssa.CallCommon, site ssa.CallInstruction, recv *Term, args []*Term, st *State) []Exit {
	return e.InvokeMethod(fr, c.Value.Type(), c.Method, site, recv, args, st)
}

// InvokeMethod dispatches a method on an interface value.
func (e *Engine) InvokeMethod(fr *Frame, it types.Type, m *types.Func, site ssa.CallInstruction, recv *Term, args []*Term, st *State) []Exit {
	var in ssa.Instruction
	if site != nil {
		in = site.(ssa.Instruction)
	}
	if recv.Op == "iface" {
		dyn := recv.Ref.(types.Type)
		if fn := e.method(dyn, m); fn != nil {
			return e.callFn(fr, fn, append([]*Term{recv.Args[0]}, args...), nil, site, st)
		}
	}
	if !e.nonNil(fr, in, recv, st, "method call on nil interface") {
		return nil
	}
	name := "(" + typeKey(it) + ")." + m.Name()
	sig := m.Type().(*types.Signature)
	cc := &CallCtx{Name: name, Args: append([]*Term{recv}, args...), Site: site, Sig: sig, Fr: fr}
	return e.modelled(cc, st, func() []Exit {
		iface, _ := it.Underlying().(*types.Interface)
		if iface != nil && e.moduleType(it) && recv.Op != "iface" {
			cands := e.implementors(iface)
			if len(cands) > 0 {
				var out []Exit
				for _, t := range cands {
					s := st.clone()
					is := MkOp("typeis", typeKey(t), boolType, recv)
					excl := false
					for l, v := range s.lits {
						if v && l.Op == "typeis" && l != is && l.Args[0] == recv && !strings.Contains(l.Aux, "interface") {
							excl = true
						}
					}
					if excl || !s.Assume(is, true) {
						continue
					}
					as := mkRef("as", typeKey(t), t, t, recv)
					fn := e.method(t, m)
					if fn == nil {
						continue
					}
					out = append(out, e.callFn(fr, fn, append([]*Term{as}, args...), nil, site, s)...)
				}
				return out
			}
		}
		return e.external(cc, st)
	})
}

func (e *Engine) moduleType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), e.Mod)
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	sel := e.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.Prog.MethodValue(sel)
}

// implementors are the concrete types converted to interfaces in the module
// that implement the interface.
func (e *Engine) implementors(it *types.Interface) []types.Type {
	if e.made == nil {
		e.made = map[string]types.Type{}
		for _, fn := range e.AllFns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mi, ok := in.(*ssa.MakeInterface); ok {
						e.made[typeKey(mi.X.Type())] = mi.X.Type()
					}
				}
			}
		}
	}
	var ks []string
	for k, t := range e.made {
		if types.Implements(t, it) && !types.IsInterface(t) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []types.Type
	for _, k := range ks {
		r = append(r, e.made[k])
	}
	return r
}

// ---- builtins

func (e *Engine) builtin(fr *Frame, name string, c *ssa.CallCommon, site ssa.CallInstruction, args []*Term, st *State) []Exit {
	in := site.(ssa.Instruction)
	cc := &CallCtx{Name: "builtin." + name, Args: args, Site: site, Fr: fr}
	var rt types.Type
	if v, ok := site.(ssa.Value); ok {
		rt = v.Type()
	}
	return e.modelled(cc, st, func() []Exit {
		switch name {
		case "len", "cap":
			a := args[0]
			t := c.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			switch u := t.(type) {
			case *types.Slice:
				_, _, ln, cp := sliceParts(a)
				if name == "cap" {
					return ret(st, cp)
				}
				return ret(st, ln)
			case *types.Array:
				return ret(st, MkInt(u.Len()))
			case *types.Map:
				if e.H.MapRead != nil {
					e.H.MapRead(e, fr, in, a, st)
				}
				return ret(st, st.MapLen(a))
			case *types.Chan:
				return ret(st, MkOp("len", "", nil, MkSym("chan", nil)))
			}
			return ret(st, MkLen(st.Content(a)))
		case "append":
			return e.appendB(fr, in, args, rt, st)
		case "copy":
			return e.copyB(fr, in, args, c, st)
		case "min", "max":
			states := []Exit{{st, []*Term{args[0]}}}
			for _, b := range args[1:] {
				var next []Exit
				for _, x := range states {
					a := x.Res[0]
					if !isIntType(rt) {
						next = append(next, Exit{x.St, []*Term{MkOp("f"+name, "", rt, a, b)}})
						continue
					}
					le := mkGE0(linOf(MkSub(b, a)))
					s2 := x.St.clone()
					first, second := a, b
					if name == "max" {
						first, second = b, a
					}
					if x.St.Assume(le, true) {
						next = append(next, Exit{x.St, []*Term{first}})
					}
					if s2.Assume(le, false) {
						next = append(next, Exit{s2, []*Term{second}})
					}
				}
				states = next
			}
			return states
		case "delete":
			if e.H.MapDel != nil {
				e.H.MapDel(e, fr, in, args[0], args[1], st)
			}
			epochCtr++
			if args[0].Op != "nil" {
				st.setObj(args[0], func(o *obj) { o.epoch = epochCtr })
			}
			return ret(st)
		case "clear":
			if e.H.MapDel != nil {
				e.H.MapDel(e, fr, in, args[0], nil, st)
			}
			epochCtr++
			st.setObj(args[0], func(o *obj) { o.epoch = epochCtr })
			return ret(st)
		case "close":
			if !e.nonNil(fr, in, args[0], st, "close of nil channel") {
				return nil
			}
			if e.H.Close != nil {
				e.H.Close(e, fr, in, args[0], st)
			}
			return ret(st)
		case "panic":
			e.Oblige(fr, in, "explicit panic", false, st, "panic is reachable")
			return nil
		case "recover":
			return ret(st, MkNil(nil))
		case "print", "println":
			return ret(st)
		case "String", "StringData", "SliceData", "Slice", "Add":
			if name == "SliceData" && isByteSlice(args[0].Typ) {
				return ret(st, MkOp("slicedata", "", rt, args[0]))
			}
			if name == "String" && args[0].Op == "slicedata" {
				ct := st.Content(args[0].Args[0])
				if st.LE(args[1], clen(ct)) && st.LE(MkInt(0), args[1]) {
					return ret(st, st.Csub(ct, MkInt(0), args[1]))
				}
			}
			if name == "String" {
				return ret(st, MkSymLen("unsafe", args[1], st))
			}
			return ret(st, MkSym("unsafe", rt))
		case "real", "imag", "complex":
			return ret(st, MkSym(name, rt))
		}
		if rt != nil {
			if tt, ok := rt.(*types.Tuple); ok {
				if tt.Len() == 0 {
					return ret(st)
				}
			}
			if name == "ssa:wrapnilchk" {
				if !e.nonNil(fr, in, args[0], st, "nil receiver") {
					return nil
				}
				return ret(st, args[0])
			}
			return ret(st, MkSym(name, rt))
		}
		return ret(st)
	})
}

func (e *Engine) appendB(fr *Frame, in ssa.Instruction, args []*Term, rt types.Type, st *State) []Exit {
	s := args[0]
	if len(args) < 2 {
		return ret(st, s)
	}
	x := args[1]
	_, _, sl, _ := sliceParts(s)
	el := rt.Underlying().(*types.Slice).Elem()
	if isByte(el) {
		c := mkConcat([]*Term{st.Content(s), st.Content(x)})
		if e.H.Alloc != nil {
			e.H.Alloc(e, fr, in, "append", clen(c), st)
		}
		o := st.AllocBytes(c, "append")
		st.Assume(mkGE0(linOf(MkSub(MkInt(maxLen), clen(c)))), true)
		return ret(st, MkSlice(o, MkInt(0), clen(c), clen(c), rt))
	}
	xo, xoff, xl, _ := sliceParts(x)
	if xl == MkInt(0) {
		return ret(st, s)
	}
	nl := MkAdd(sl, xl)
	st.Assume(mkGE0(linOf(MkSub(MkInt(maxLen), nl))), true)
	if e.H.Alloc != nil {
		e.H.Alloc(e, fr, in, "append", nl, st)
	}
	allocCtr++
	o := intern("alloc", fmt.Sprintf("append@%d", allocCtr), nil, nil, nil)
	ob := &obj{kind: "slice", epoch: allocCtr, typ: rt}
	if sl != MkInt(0) {
		ob.def = s
	} else {
		ob.zero = true
	}
	st.objs[o] = ob
	if n, ok := xl.Int64(); ok && n <= 16 {
		for i := int64(0); i < n; i++ {
			v := e.load(st, mkIaddr(xo, MkAdd(xoff, MkInt(i)), el), el)
			a := mkIaddr(o, MkAdd(sl, MkInt(i)), el)
			st.storeRaw(a, v, el)
		}
		e.appended(st, s, o, sl, el, n)
		if e.H.Elem != nil {
			for i := int64(0); i < n; i++ {
				e.H.Elem(e, fr, in, mkIaddr(o, MkAdd(sl, MkInt(i)), el), st)
			}
		}
	} else {
		ob.tail = x
		ob.tailAt = sl
	}
	return ret(st, MkSlice(o, MkInt(0), nl, nl, rt))
}

// storeRaw writes an element of a new object without alias checks.
func (s *State) storeRaw(addr, v *Term, typ types.Type) {
	if u, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			s.storeRaw(mkFaddr(addr, u, i), mkField(v, u, i), u.Field(i).Type())
		}
		return
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		if isByte(a.Elem()) && v.Op == "arrval" {
			s.setObj(addr, func(o *obj) { o.content = v.Args[0]; o.kind = "bytes" })
		}
		return
	}
	s.heap[addr] = v
}

func (e *Engine) copyB(fr *Frame, in ssa.Instruction, args []*Term, c *ssa.CallCommon, st *State) []Exit {
	d, s := args[0], args[1]
	dl, sl := MkLen(d), MkLen(s)
	if isStringType(c.Args[1].Type()) {
		sl = clen(st.Content(s))
	}
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var out []Exit
	do := func(st *State, n *Term) {
		if isByte(el) {
			st.WriteBytes(d, MkInt(0), st.Csub(st.Content(s), MkInt(0), n))
		} else {
			o, _, _, _ := sliceParts(d)
			if n != MkInt(0) {
				st.havocObj(o)
			}
		}
		out = append(out, Exit{st, []*Term{n}})
	}
	le := mkGE0(linOf(MkSub(dl, sl)))
	s2 := st.clone()
	if st.Assume(le, true) {
		do(st, sl)
	}
	if s2.Assume(le, false) {
		do(s2, dl)
	}
	return out
}

// ---- external functions

// Model describes an external function.
type Model func(e *Engine, c *CallCtx, st *State) []Exit

var models = map[string]Model{}
var rewrites = map[string]Model{}

// external runs the model of a function whose body is not analysed.
func (e *Engine) external(c *CallCtx, st *State) []Exit {
	if m := models[c.Name]; m != nil {
		return m(e, c, st)
	}
	// interface methods by method name
	if i := strings.LastIndex(c.Name, ")."); i >= 0 {
		if m := models["*."+c.Name[i+2:]]; m != nil {
			return m(e, c, st)
		}
	}
	for _, p := range prefixModels {
		if strings.HasPrefix(c.Name, p.prefix) {
			return p.m(e, c, st)
		}
	}
	e.Unknown[c.Name]++
	return e.Default(c, st, true)
}

type prefixModel struct {
	prefix string
	m      Model
}

var prefixModels []prefixModel

// Default is the generic model: fresh results, failing or not, and unknown
// changes to what the arguments point to.
func (e *Engine) Default(c *CallCtx, st *State, havoc bool) []Exit {
	if havoc {
		for _, a := range c.Args {
			e.havocArg(a, st)
		}
		// callbacks may run
		for _, a := range c.Args {
			if (a.Op == "closure" || a.Op == "func") && e.InModule(a.Ref.(*ssa.Function)) {
				fn := a.Ref.(*ssa.Function)
				s := st.clone()
				var as []*Term
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					as = append(as, MkNullable("cb", fn.Signature.Params().At(i).Type()))
				}
				e.callTerm(c.Fr, a, as, c.Site, fn.Signature, s)
			}
		}
	}
	return e.Fresh(c, st)
}

func (e *Engine) havocArg(a *Term, st *State) {
	switch a.Op {
	case "alloc":
		st.havocObj(a)
	case "slice":
		if a.Args[0].Op == "alloc" {
			st.havocObj(a.Args[0])
		}
	case "iface":
		e.havocArg(a.Args[0], st)
	}
}

// Fresh returns unknown results; a trailing error forks.
func (e *Engine) Fresh(c *CallCtx, st *State) []Exit {
	if c.Sig == nil {
		return ret(st)
	}
	rs := c.Sig.Results()
	n := rs.Len()
	if n == 0 {
		return ret(st)
	}
	short := c.Name
	if i := strings.LastIndexAny(short, "./"); i >= 0 {
		short = short[i+1:]
	}
	if isErrorType(rs.At(n - 1).Type()) {
		bad := st.clone()
		ok := make([]*Term, n)
		er := make([]*Term, n)
		for i := 0; i < n-1; i++ {
			ok[i] = freshOf(short, rs.At(i).Type())
			er[i] = zeroOf(rs.At(i).Type())
			if isIntType(rs.At(i).Type()) {
				er[i] = freshOf(short, rs.At(i).Type())
			}
		}
		ok[n-1] = MkNil(errorType)
		er[n-1] = MkSym("err."+short, errorType)
		return []Exit{{st, ok}, {bad, er}}
	}
	res := make([]*Term, n)
	for i := range res {
		res[i] = freshOf(short, rs.At(i).Type())
	}
	return ret(st, res...)
}

// freshOf is an unknown non nil value.
func freshOf(name string, t types.Type) *Term { return MkSym(name, t) }

// ---- recursion

// summary is an inferred contract of a recursive function.
type summary struct {
	fn      *ssa.Function
	pre     []relation
	post    []relation
	active  bool
	other   bool // writes memory other than its arguments
	calls   int
	Measure []measure
}

type measure struct {
	name  string
	bound string
}

// relation is lhs + k <= rhs over named quantities ("x" at entry, "x'" at
// exit), eq for equality, or "same:x"/"nonnil:i".
type relation struct {
	l, r string
	k    int64
	eq   bool
	cls  string // "", "ok", "err"
}

func (r relation) String() string {
	op := "<="
	if r.eq {
		op = "=="
	}
	s := fmt.Sprintf("%s+%d %s %s", r.l, r.k, op, r.r)
	if r.cls != "" {
		s = r.cls + " => " + s
	}
	return s
}

// quantities lists the integer views of the arguments.
func (e *Engine) quantities(fn *ssa.Function, args []*Term, st *State, sfx string, out map[string]*Term) {
	for i, p := range fn.Params {
		if i >= len(args) {
			break
		}
		a := args[i]
		if isIntType(p.Type()) {
			if sfx == "" {
				out[p.Name()] = a
			}
			continue
		}
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for k := 0; k < s.NumFields(); k++ {
			ft := s.Field(k).Type()
			n := fmt.Sprintf("%s.%s%s", p.Name(), s.Field(k).Name(), sfx)
			if isIntType(ft) {
				out[n] = st.Load(mkFaddr(a, s, k), ft)
			} else if _, ok := ft.Underlying().(*types.Slice); ok {
				out["len("+n+")"] = MkLen(st.Load(mkFaddr(a, s, k), ft))
			}
		}
	}
}

func (e *Engine) compareConsts(fn *ssa.Function) []int64 {
	m := map[int64]bool{}
	for _, f := range e.AllFns {
		if f.Pkg != fn.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok {
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if c, ok := v.(*ssa.Const); ok && c.Value != nil && isIntType(c.Type()) {
							if n, ok := constTerm(c).Int64(); ok && n > 255 && n < 1<<40 {
								m[n] = true
								m[n-1] = true
								m[n+1] = true
							}
						}
					}
				}
			}
		}
	}
	var r []int64
	for n := range m {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (e *Engine) holds(r relation, q map[string]*Term, st *State) bool {
	l, ok1 := q[r.l]
	rr, ok2 := q[r.r]
	if !ok1 || !ok2 {
		return false
	}
	d := linOf(MkSub(rr, l)).plus(-r.k)
	if r.eq {
		return st.Truth(mkEQ0(d)) == 1
	}
	return st.Truth(mkGE0(d)) == 1
}

func (e *Engine) assumeRel(r relation, q map[string]*Term, st *State) bool {
	l, ok1 := q[r.l]
	rr, ok2 := q[r.r]
	if !ok1 || !ok2 {
		return true
	}
	d := linOf(MkSub(rr, l)).plus(-r.k)
	if r.eq {
		return st.Assume(mkEQ0(d), true)
	}
	return st.Assume(mkGE0(d), true)
}

func sortedNames(q map[string]*Term) []string {
	var ns []string
	for n := range q {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// recursive applies the contract of a function that is already active.
func (e *Engine) recursive(fr *Frame, fn *ssa.Function, args []*Term, site ssa.Instruction, st *State) []Exit {
	sum := e.recur[fn]
	if sum == nil {
		// entry state of the outermost activation
		var outer *Frame
		for f := fr; f != nil; f = f.Parent {
			if f.Fn == fn && !f.root {
				outer = f
			}
		}
		sum = e.summarise(fn, outer)
		e.recur[fn] = sum
	}
	sum.calls++
	q := map[string]*Term{}
	e.quantities(fn, args, st, "", q)
	for _, n := range e.recConsts {
		q[fmt.Sprint(n)] = MkInt(n)
	}
	q["0"] = MkInt(0)
	if sum.active {
		var keep []relation
		for _, r := range sum.pre {
			if e.holds(r, q, st) {
				keep = append(keep, r)
			}
		}
		if len(keep) != len(sum.pre) {
			e.sumChanged = true
			sum.pre = keep
		}
		// measures: quantities that grow with every nested call
		if outer := e.outerFrame(fr, fn); outer != nil {
			q0 := map[string]*Term{}
			e.quantities(fn, outer.args, outer.entry, "", q0)
			var ms []measure
			for _, m := range sum.Measure {
				a, b := q0[m.name], q[m.name]
				if a != nil && b != nil && st.LT(a, b) {
					ms = append(ms, m)
				}
			}
			sum.Measure = ms
		}
	} else {
		for _, r := range sum.pre {
			if !e.holds(r, q, st) {
				e.Record(fr, site, "recursion contract", false, "entry relation "+r.String()+" not kept")
			}
		}
	}
	// effects
	for i, p := range fn.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok || i >= len(args) {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for k := 0; k < s.NumFields(); k++ {
			ft := s.Field(k).Type()
			n := fmt.Sprintf("%s.%s", p.Name(), s.Field(k).Name())
			same := false
			for _, r := range sum.post {
				if r.l == "same" && r.r == n {
					same = true
				}
			}
			if !same {
				st.Store(mkFaddr(args[i], s, k), MkNullable("rec."+s.Field(k).Name(), ft), ft)
			}
		}
	}
	if e.RecEffect != nil {
		e.RecEffect(fr, fn, args, st)
	}
	rs := fn.Signature.Results()
	n := rs.Len()
	classes := []string{""}
	if n > 0 && isErrorType(rs.At(n-1).Type()) {
		classes = []string{"ok", "err"}
	}
	var out []Exit
	for _, cl := range classes {
		s := st.clone()
		res := make([]*Term, n)
		for i := 0; i < n; i++ {
			res[i] = MkNullable("rec", rs.At(i).Type())
			for _, r := range sum.post {
				if r.l == "nonnil" && r.r == fmt.Sprint(i) && r.cls == cl {
					res[i] = MkSym("rec", rs.At(i).Type())
				}
			}
		}
		if cl == "ok" {
			res[n-1] = MkNil(errorType)
		}
		if cl == "err" {
			res[n-1] = MkSym("rec.err", errorType)
		}
		e.quantities(fn, args, s, "'", q)
		feasible := true
		for _, r := range sum.post {
			if r.l == "same" || r.l == "nonnil" {
				continue
			}
			if r.cls == "" || r.cls == cl {
				feasible = feasible && e.assumeRel(r, q, s)
			}
		}
		if feasible && !s.dead {
			out = append(out, Exit{s, res})
		}
	}
	return out
}

func (e *Engine) outerFrame(fr *Frame, fn *ssa.Function) *Frame {
	var outer *Frame
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == fn && !f.root {
			outer = f
		}
	}
	return outer
}

// summarise infers the contract by removing relations that do not hold.
func (e *Engine) summarise(fn *ssa.Function, outer *Frame) *summary {
	sum := &summary{fn: fn, active: true}
	e.recConsts = e.compareConsts(fn)
	q0 := map[string]*Term{}
	e.quantities(fn, outer.args, outer.entry, "", q0)
	names := sortedNames(q0)
	for _, n := range names {
		sum.Measure = append(sum.Measure, measure{name: n})
	}
	q0["0"] = MkInt(0)
	for _, n := range e.recConsts {
		q0[fmt.Sprint(n)] = MkInt(n)
	}
	var all []relation
	for _, a := range names {
		all = append(all, relation{l: "0", r: a})
		for _, n := range e.recConsts {
			all = append(all, relation{l: a, r: fmt.Sprint(n)})
		}
		for _, b := range names {
			if a != b {
				all = append(all, relation{l: a, r: b}, relation{l: a, r: b, k: 1})
				if a < b {
					all = append(all, relation{l: a, r: b, eq: true})
				}
			}
		}
	}
	for _, r := range all {
		if e.holds(r, q0, outer.entry) {
			sum.pre = append(sum.pre, r)
		}
	}
	rs := fn.Signature.Results()
	n := rs.Len()
	classes := []string{""}
	if n > 0 && isErrorType(rs.At(n-1).Type()) {
		classes = []string{"ok", "err"}
	}
	var mut []string
	for _, nm := range names {
		if strings.Contains(nm, ".") {
			mut = append(mut, nm)
		}
	}
	pr := func(s string) string {
		if strings.HasPrefix(s, "len(") {
			return strings.TrimSuffix(s, ")") + "')"
		}
		return s + "'"
	}
	for _, cl := range classes {
		for _, a := range mut {
			p := pr(a)
			sum.post = append(sum.post, relation{l: a, r: p, cls: cl}, relation{l: a, r: p, k: 1, cls: cl}, relation{l: a, r: p, eq: true, cls: cl},
				relation{l: "0", r: p, cls: cl})
			for _, b := range mut {
				if a != b {
					sum.post = append(sum.post, relation{l: p, r: pr(b), cls: cl})
					if a < b {
						sum.post = append(sum.post, relation{l: p, r: pr(b), eq: true, cls: cl})
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			if isNilable(rs.At(i).Type()) && !isErrorType(rs.At(i).Type()) {
				sum.post = append(sum.post, relation{l: "nonnil", r: fmt.Sprint(i), cls: cl})
			}
		}
	}
	for _, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for k := 0; k < s.NumFields(); k++ {
					sum.post = append(sum.post, relation{l: "same", r: p.Name() + "." + s.Field(k).Name()})
				}
			}
		}
	}
	saved, savedSusp := e.rec, e.suspended
	defer func() { e.rec, e.suspended = saved, savedSusp }()
	e.recur[fn] = sum
	run := func() {
		st := newState()
		var args []*Term
		for _, p := range fn.Params {
			a := MkSym("gen."+p.Name(), p.Type())
			e.inputs[a] = true
			args = append(args, a)
		}
		q := map[string]*Term{}
		e.quantities(fn, args, st, "", q)
		q["0"] = MkInt(0)
		for _, n := range e.recConsts {
			q[fmt.Sprint(n)] = MkInt(n)
		}
		for _, r := range sum.pre {
			e.assumeRel(r, q, st)
		}
		entry := st.clone()
		fr := &Frame{Fn: fn, Depth: 1, entry: entry, args: args}
		e.Keep = append(e.Keep, args...)
		for _, nm := range sortedNames(q) {
			e.Keep = append(e.Keep, q[nm])
		}
		xs := e.Run(fr, fn, args, nil, st)
		for _, x := range xs {
			cl := ""
			if n > 0 && isErrorType(rs.At(n-1).Type()) {
				switch x.St.Nilness(x.Res[n-1]) {
				case 1:
					cl = "ok"
				case -1:
					cl = "err"
				}
			}
			qq := map[string]*Term{}
			for k, v := range q {
				qq[k] = v
			}
			e.quantities(fn, args, x.St, "'", qq)
			var keep []relation
			for _, r := range sum.post {
				ok := true
				switch {
				case r.l == "same":
					for i, p := range fn.Params {
						if pt, ok2 := p.Type().Underlying().(*types.Pointer); ok2 {
							if s, ok3 := pt.Elem().Underlying().(*types.Struct); ok3 {
								for k := 0; k < s.NumFields(); k++ {
									if p.Name()+"."+s.Field(k).Name() == r.r {
										ft := s.Field(k).Type()
										a, b := entry.Load(mkFaddr(args[i], s, k), ft), x.St.Load(mkFaddr(args[i], s, k), ft)
										ok = a == b || a.IsInt() && x.St.EqInt(a, b)
										if ok && isByteSlice(ft) {
											ok = entry.Content(a) == x.St.Content(b)
										}
									}
								}
							}
						}
					}
				case r.l == "nonnil":
					var i int
					fmt.Sscan(r.r, &i)
					if cl == "" || r.cls == cl {
						ok = x.St.Nilness(x.Res[i]) == -1
					}
				default:
					if cl == "" || r.cls == cl {
						ok = e.holds(r, qq, x.St)
					}
				}
				if ok {
					keep = append(keep, r)
				}
			}
			if len(keep) != len(sum.post) {
				e.sumChanged = true
				sum.post = keep
			}
		}
	}
	e.rec = false
	for i := 0; i < 30; i++ {
		e.sumChanged = false
		run()
		if !e.sumChanged {
			break
		}
	}
	// which measures are bounded by a constant
	var ms []measure
	for _, m := range sum.Measure {
		for _, r := range sum.pre {
			if r.l == m.name {
				if _, err := strconv.ParseInt(r.r, 10, 64); err != nil {
					continue // not a constant
				}
				if v := q0[r.r]; v != nil && v.Op == "int" {
					ms = append(ms, measure{m.name, v.String()})
					break
				}
			}
		}
	}
	sum.active = false
	e.rec = true
	run()
	sum.Measure = ms
	return sum
}

// Recursions lists the recursive functions met and their contracts.
func (e *Engine) Recursions() []Recursion {
	var r []Recursion
	for fn, s := range e.recur {
		x := Recursion{Fn: fn}
		for _, p := range s.pre {
			x.Pre = append(x.Pre, p.String())
		}
		for _, p := range s.post {
			x.Post = append(x.Post, p.String())
		}
		for _, m := range s.Measure {
			x.Bounded = append(x.Bounded, m.name+" < "+m.bound)
		}
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Fn.String() < r[j].Fn.String() })
	return r
}

// Recursion describes an inferred contract.
type Recursion struct {
	Fn      *ssa.Function
	Pre     []string
	Post    []string
	Bounded []string
}

// Root makes the outermost frame for a harness.
func Root(fn *ssa.Function) *Frame { return &Frame{Fn: fn, root: true} }

// NewState makes an empty state.
func NewState() *State { return newState() }

// Clone copies the state.
func (s *State) Clone() *State { return s.clone() }

// Dead tells that the state is not reachable.
func (s *State) Dead() bool { return s.dead }

// Kill ends the path.
func (s *State) Kill() { s.dead = true }

// InitGlobals interprets the package initialisers and returns the state after
// them. Package variables that are assigned elsewhere are left unknown.
func (e *Engine) InitGlobals(pkgs []*ssa.Package) *State {
	h, cp, rec, sg, ol := e.H, e.CheckPanics, e.rec, e.SkipGo, e.OnLock
	e.H, e.CheckPanics, e.rec, e.SkipGo, e.OnLock = Hooks{}, false, false, true, nil
	defer func() { e.H, e.CheckPanics, e.rec, e.SkipGo, e.OnLock = h, cp, rec, sg, ol }()
	e.H.Call = func(e *Engine, c *CallCtx, st *State) ([]Exit, bool) {
		if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Synthetic != "" {
			return ret(st), true
		}
		return nil, false
	}
	st := newState()
	done := map[*ssa.Package]bool{}
	in := map[*types.Package]*ssa.Package{}
	for _, p := range pkgs {
		in[p.Pkg] = p
	}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, i := range p.Pkg.Imports() {
			if q := in[i]; q != nil {
				visit(q)
			}
		}
		fn := p.Func("init")
		if fn == nil || fn.Blocks == nil {
			return
		}
		guard := p.Members["init$guard"]
		if g, ok := guard.(*ssa.Global); ok {
			st.heap[mkRef("global", g.String(), g.Type(), g)] = False
		}
		xs := e.Run(&Frame{Fn: fn}, fn, nil, nil, st)
		if len(xs) == 0 {
			return
		}
		s := xs[0].St
		for _, x := range xs[1:] {
			s, _ = e.join(s, x.St, 0)
		}
		st = s
	}
	for _, p := range pkgs {
		visit(p)
	}
	// variables assigned after initialisation are unknown
	for _, f := range e.AllFns {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						st.havocObj(mkRef("global", g.String(), g.Type(), g))
					}
				}
			}
		}
	}
	return st
}

// GlobalAddr is the address of a package variable.
func GlobalAddr(g *ssa.Global) *Term { return mkRef("global", g.String(), g.Type(), g) }

// FieldAddr is the address of a field of *p.
func FieldAddr(p *Term, u *types.Struct, i int) *Term { return mkFaddr(p, u, i) }

// MkGE is a >= b.
func MkGE(a, b *Term) *Term { return mkGE0(linOf(MkSub(a, b))) }

// MkEq is a == b for integers.
func MkEq(a, b *Term) *Term { return mkEQ0(linOf(MkSub(a, b))) }
