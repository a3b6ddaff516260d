package ai

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reflection over known types. A reflect.Value is rv(address) when it can be
// addressed and rvv(value) when not, with its type as Ref; a reflect.Type is
// rtype with the type as Ref.

func mkRV(t types.Type, addr *Term, settable bool, vt types.Type) *Term {
	a := typeKey(t)
	if settable {
		a = "!" + a
	}
	return mkRef("rv", a, vt, t, addr)
}

func mkRVV(t types.Type, v *Term, vt types.Type) *Term { return mkRef("rvv", typeKey(t), vt, t, v) }

func mkRType(t types.Type, it types.Type) *Term { return mkRef("rtype", typeKey(t), it, t) }

// RVType is the type of a reflect.Value or reflect.Type, nil if not known.
func RVType(t *Term) types.Type {
	if t.Op == "iface" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	switch t.Op {
	case "rv", "rvv", "rtype":
		return t.Ref.(types.Type)
	}
	return nil
}

// RVAddr is the address a reflect.Value stands for.
func RVAddr(t *Term) *Term {
	if t.Op == "rv" {
		return t.Args[0]
	}
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func bitsOfKind(t types.Type) int64 {
	switch kindOf(t) {
	case reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 32
	}
	return 64
}

func elemOfType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// must is a condition without which the reflection call panics.
func (e *Engine) must(c *CallCtx, ok bool, st *State, note string) bool {
	in, _ := c.Site.(ssa.Instruction)
	e.Oblige(c.Fr, in, "reflection panic", ok, st, c.Method()+": "+note)
	return ok
}

func rvLoad(e *Engine, r *Term, st *State) *Term {
	t := r.Ref.(types.Type)
	if r.Op == "rvv" {
		return r.Args[0]
	}
	return e.load(st, r.Args[0], t)
}

// rvStore assigns to what a reflect.Value stands for.
func rvStore(e *Engine, c *CallCtx, r, v *Term, st *State) {
	t := r.Ref.(types.Type)
	in, _ := c.Site.(ssa.Instruction)
	if e.H.Set != nil {
		e.H.Set(e, c.Fr, in, r.Args[0], t, v, st)
	}
	if e.H.Store != nil && in != nil {
		e.H.Store(e, c.Fr, in, r.Args[0], v, st)
	}
	st.Store(r.Args[0], v, t)
	e.storedElem(st, r.Args[0])
	if e.H.Elem != nil && in != nil {
		if el := elemAddr(r.Args[0]); el != nil {
			e.H.Elem(e, c.Fr, in, el, st)
		}
	}
}

func structField(e *Engine, c *CallCtx, u *types.Struct, i int, sft, rt types.Type) *Term {
	s := sft.Underlying().(*types.Struct)
	fs := make([]*Term, s.NumFields())
	for j := range fs {
		f := s.Field(j)
		switch f.Name() {
		case "Name":
			fs[j] = MkStr(u.Field(i).Name())
		case "PkgPath":
			fs[j] = MkStr("")
			if !u.Field(i).Exported() {
				fs[j] = MkStr("x")
			}
		case "Type":
			fs[j] = mkRType(u.Field(i).Type(), f.Type())
		case "Tag":
			fs[j] = MkStr(u.Tag(i))
		case "Anonymous":
			fs[j] = MkBool(u.Field(i).Anonymous())
		default:
			fs[j] = symFor(f.Name(), f.Type())
		}
	}
	return MkStruct(sft, fs)
}

func init() {
	rv := func(n string, f func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit) {
		models["(reflect.Value)."+n] = func(e *Engine, c *CallCtx, st *State) []Exit {
			if c.Args[0].Op == "rvzero" {
				switch n {
				case "Kind":
					return ret(st, MkInt(0))
				case "IsValid", "CanSet", "CanAddr", "CanInterface":
					return ret(st, False)
				}
				e.must(c, false, st, "zero Value")
				return nil
			}
			t := RVType(c.Args[0])
			if t == nil {
				return e.Fresh(c, st)
			}
			return f(e, c, c.Args[0], t, st)
		}
	}
	rt := func(n string, f func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit) {
		m := func(e *Engine, c *CallCtx, st *State) []Exit {
			t := RVType(c.Args[0])
			if t == nil {
				return e.Fresh(c, st)
			}
			return f(e, c, t, st)
		}
		models["(reflect.Type)."+n] = m
		models["(*reflect.rtype)."+n] = m
	}
	res := func(c *CallCtx) types.Type { return c.Sig.Results().At(0).Type() }
	models["reflect.ValueOf"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		v := c.Args[0]
		switch {
		case v.Op == "nil":
			return ret(st, MkOp("rvzero", "", res(c)))
		case v.Op == "iface":
			return ret(st, mkRVV(v.Ref.(types.Type), v.Args[0], res(c)))
		}
		return e.Fresh(c, st)
	}
	models["reflect.TypeOf"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if v := c.Args[0]; v.Op == "iface" {
			return ret(st, mkRType(v.Ref.(types.Type), res(c)))
		}
		t := MkSym("type", res(c))
		return ret(st, t)
	}
	models["reflect.Indirect"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t := RVType(c.Args[0])
		if t == nil || kindOf(t) != reflect.Ptr {
			return ret(st, c.Args[0])
		}
		cc := *c
		cc.Name = "(reflect.Value).Elem"
		return models["(reflect.Value).Elem"](e, &cc, st)
	}
	models["reflect.New"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t := RVType(c.Args[0])
		if t == nil {
			return e.Fresh(c, st)
		}
		return ret(st, mkRVV(types.NewPointer(t), st.Alloc(t, "new"), res(c)))
	}
	models["reflect.Zero"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t := RVType(c.Args[0])
		if t == nil {
			return e.Fresh(c, st)
		}
		return ret(st, mkRVV(t, zeroOf(t), res(c)))
	}
	models["reflect.MakeSlice"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t := RVType(c.Args[0])
		if t == nil {
			return e.Fresh(c, st)
		}
		s, ok := t.Underlying().(*types.Slice)
		if !e.must(c, ok, st, "not a slice type") {
			return nil
		}
		n, cp := c.Args[1], c.Args[2]
		okn := st.Entails(mkGE0(linOf(n))) && st.LE(n, cp)
		e.must(c, okn, st, "negative length or length above capacity")
		if e.H.Alloc != nil {
			in, _ := c.Site.(ssa.Instruction)
			e.H.Alloc(e, c.Fr, in, "make", cp, st)
		}
		o := st.allocArray(s.Elem(), n, "make")
		return ret(st, mkRVV(t, MkSlice(o, MkInt(0), n, cp, t), res(c)))
	}
	mm := func(e *Engine, c *CallCtx, st *State) []Exit {
		t := RVType(c.Args[0])
		if t == nil {
			return e.Fresh(c, st)
		}
		_, ok := t.Underlying().(*types.Map)
		if !e.must(c, ok, st, "not a map type") {
			return nil
		}
		m := st.Alloc(t, "map")
		st.setObj(m, func(o *obj) { o.kind = "map" })
		return ret(st, mkRVV(t, m, res(c)))
	}
	models["reflect.MakeMap"] = mm
	models["reflect.MakeMapWithSize"] = mm
	models["reflect.Append"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t := RVType(c.Args[0])
		if t == nil {
			return e.Fresh(c, st)
		}
		n := MkSym("len", intType)
		st.Assume(mkGE0(linOf(n)), true)
		return ret(st, mkRVV(t, MkSlice(st.allocArray(elemOfType(t), n, "append"), MkInt(0), n, n, t), res(c)))
	}
	rv("Kind", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		return ret(st, MkInt(int64(kindOf(t))))
	})
	rv("Type", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		return ret(st, mkRType(t, res(c)))
	})
	rv("IsValid", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit { return ret(st, True) })
	rv("CanSet", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		return ret(st, MkBool(r.Op == "rv" && strings.HasPrefix(r.Aux, "!")))
	})
	rv("CanAddr", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		return ret(st, MkBool(r.Op == "rv"))
	})
	rv("CanInterface", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit { return ret(st, True) })
	rv("NumField", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		u, ok := t.Underlying().(*types.Struct)
		if !e.must(c, ok, st, "not a struct") {
			return nil
		}
		return ret(st, MkInt(int64(u.NumFields())))
	})
	rv("Field", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		u, ok := t.Underlying().(*types.Struct)
		if !e.must(c, ok, st, "not a struct") {
			return nil
		}
		i, ok := c.Args[1].Int64()
		if !ok {
			in, _ := c.Site.(ssa.Instruction)
			e.Record(c.Fr, in, "fields are visited one by one", false, "field "+c.Args[1].String()+" of a structure is not known")
			return nil
		}
		if !e.must(c, i >= 0 && i < int64(u.NumFields()), st, "field index "+fmt.Sprint(i)) {
			return nil
		}
		ft := u.Field(int(i)).Type()
		if r.Op == "rvv" {
			return ret(st, mkRVV(ft, mkField(r.Args[0], u, int(i)), r.Typ))
		}
		return ret(st, mkRV(ft, mkFaddr(r.Args[0], u, int(i)), strings.HasPrefix(r.Aux, "!") && u.Field(int(i)).Exported(), r.Typ))
	})
	rv("Elem", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		v := rvLoad(e, r, st)
		switch kindOf(t) {
		case reflect.Ptr:
			no := st.clone()
			var out []Exit
			nil_ := MkIsNil(v)
			if st.Assume(nil_, false) {
				out = append(out, Exit{st, []*Term{mkRV(elemOfType(t), v, true, r.Typ)}})
			}
			if no.Assume(nil_, true) {
				out = append(out, Exit{no, []*Term{MkOp("rvzero", "", r.Typ)}})
			}
			return out
		case reflect.Interface:
			if v.Op == "iface" {
				return ret(st, mkRVV(v.Ref.(types.Type), v.Args[0], r.Typ))
			}
			return e.Fresh(c, st)
		}
		e.must(c, false, st, "neither pointer nor interface")
		return nil
	})
	rv("Addr", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		if !e.must(c, r.Op == "rv", st, "value cannot be addressed") {
			return nil
		}
		return ret(st, mkRVV(types.NewPointer(t), r.Args[0], r.Typ))
	})
	rv("Interface", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		v := rvLoad(e, r, st)
		if types.IsInterface(t) {
			return ret(st, v)
		}
		return ret(st, MkIface(t, v))
	})
	rv("IsNil", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		if !e.must(c, isNilable(t), st, "type has no nil") {
			return nil
		}
		return ret(st, MkIsNil(rvLoad(e, r, st)))
	})
	rv("IsZero", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		return ret(st, MkSym("iszero", boolType))
	})
	rv("Len", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		return ret(st, MkLen(rvLoad(e, r, st)))
	})
	rv("Index", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		if !e.must(c, kindOf(t) == reflect.Slice, st, "not a slice") {
			return nil
		}
		v := rvLoad(e, r, st)
		o, off, n, _ := sliceParts(v)
		i := c.Args[1]
		e.must(c, st.LE(MkInt(0), i) && st.LT(i, n), st, "index "+i.String()+" of "+n.String())
		st.Assume(mkGE0(linOf(i)), true)
		if !st.Assume(mkGE0(linOf(MkSub(n, i)).plus(-1)), true) {
			return nil
		}
		el := elemOfType(t)
		return ret(st, mkRV(el, mkIaddr(o, MkAdd(off, i), el), true, r.Typ))
	})
	settable := func(e *Engine, c *CallCtx, r *Term, st *State) bool {
		return e.must(c, r.Op == "rv" && strings.HasPrefix(r.Aux, "!"), st, "value cannot be set")
	}
	rv("Set", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		if !settable(e, c, r, st) {
			return nil
		}
		x := c.Args[1]
		xt := RVType(x)
		if xt == nil {
			if x.Op == "rvzero" {
				e.must(c, false, st, "zero Value is assigned")
				return nil
			}
			rvStore(e, c, r, symFor("reflected", t), st)
			return ret(st)
		}
		if !e.must(c, types.AssignableTo(xt, t), st, "a "+xt.String()+" is assigned to a "+t.String()) {
			return nil
		}
		rvStore(e, c, r, retype(rvLoad(e, x, st), t), st)
		return ret(st)
	})
	num := func(n string, kinds ...reflect.Kind) {
		rv(n, func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
			if !settable(e, c, r, st) {
				return nil
			}
			ok := false
			for _, k := range kinds {
				ok = ok || k == kindOf(t)
			}
			if n == "SetBytes" {
				ok = isByteSlice(t)
			}
			if !e.must(c, ok, st, "target is a "+t.String()) {
				return nil
			}
			v := c.Args[1]
			if n == "SetInt" || n == "SetUint" {
				lo, hi := typeRange(t)
				in, _ := c.Site.(ssa.Instruction)
				fits := st.LE(mkBigInt(lo), v) && st.LE(v, mkBigInt(hi))
				e.Record(c.Fr, in, "numbers fit their fields", fits, n+" of "+v.String()+" to a "+t.String())
				if !fits {
					v = symFor("truncated", t)
				}
			}
			rvStore(e, c, r, v, st)
			return ret(st)
		})
	}
	num("SetString", reflect.String)
	num("SetBool", reflect.Bool)
	num("SetBytes")
	num("SetInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	num("SetUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	num("SetFloat", reflect.Float32, reflect.Float64)
	over := func(n string) {
		rv(n, func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
			lo, hi := typeRange(t)
			v := c.Args[1]
			bad := st.clone()
			var out []Exit
			in := st.Assume(mkGE0(linOf(MkSub(v, mkBigInt(lo)))), true) && st.Assume(mkGE0(linOf(MkSub(mkBigInt(hi), v))), true)
			if in {
				out = append(out, Exit{st, []*Term{False}})
			}
			if !(bad.LE(mkBigInt(lo), v) && bad.LE(v, mkBigInt(hi))) {
				out = append(out, Exit{bad, []*Term{True}})
			}
			return out
		})
	}
	over("OverflowInt")
	over("OverflowUint")
	rv("SetMapIndex", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		mt, ok := t.Underlying().(*types.Map)
		if !e.must(c, ok, st, "not a map") {
			return nil
		}
		kt, vt := RVType(c.Args[1]), RVType(c.Args[2])
		if kt != nil && !e.must(c, types.AssignableTo(kt, mt.Key()), st, "key of type "+kt.String()) {
			return nil
		}
		if vt != nil && !e.must(c, types.AssignableTo(vt, mt.Elem()), st, "value of type "+vt.String()) {
			return nil
		}
		m := rvLoad(e, r, st)
		e.must(c, st.Nilness(m) == -1, st, "assignment to a nil map")
		epochCtr++
		st.setObj(m, func(o *obj) { o.epoch = epochCtr })
		return ret(st)
	})
	rv("Bytes", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		if !e.must(c, isByteSlice(t), st, "not a byte slice") {
			return nil
		}
		return ret(st, rvLoad(e, r, st))
	})
	rv("String", func(e *Engine, c *CallCtx, r *Term, t types.Type, st *State) []Exit {
		if kindOf(t) == reflect.String {
			return ret(st, rvLoad(e, r, st))
		}
		return e.Fresh(c, st)
	})

	rt("Kind", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit { return ret(st, MkInt(int64(kindOf(t)))) })
	rt("Elem", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit {
		el := elemOfType(t)
		if !e.must(c, el != nil, st, t.String()+" has no element type") {
			return nil
		}
		return ret(st, mkRType(el, res(c)))
	})
	rt("Key", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit {
		m, ok := t.Underlying().(*types.Map)
		if !e.must(c, ok, st, "not a map") {
			return nil
		}
		return ret(st, mkRType(m.Key(), res(c)))
	})
	rt("Bits", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit {
		k := kindOf(t)
		if !e.must(c, k >= reflect.Int && k <= reflect.Complex128, st, "not a number") {
			return nil
		}
		return ret(st, MkInt(bitsOfKind(t)))
	})
	rt("String", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit { return ret(st, MkStr(t.String())) })
	rt("Name", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit { return ret(st, MkStr(t.String())) })
	rt("NumField", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit {
		u, ok := t.Underlying().(*types.Struct)
		if !e.must(c, ok, st, "not a struct") {
			return nil
		}
		return ret(st, MkInt(int64(u.NumFields())))
	})
	rt("Field", func(e *Engine, c *CallCtx, t types.Type, st *State) []Exit {
		u, ok := t.Underlying().(*types.Struct)
		if !e.must(c, ok, st, "not a struct") {
			return nil
		}
		i, ok := c.Args[1].Int64()
		if !ok {
			return e.Fresh(c, st)
		}
		if !e.must(c, i >= 0 && i < int64(u.NumFields()), st, "field index "+fmt.Sprint(i)) {
			return nil
		}
		return ret(st, structField(e, c, u, int(i), res(c), nil))
	})
	models["(reflect.StructTag).Get"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t, k := st.Content(c.Args[0]), st.Content(c.Args[1])
		if t.Op == "str" && k.Op == "str" {
			return ret(st, MkStr(reflect.StructTag(t.Aux).Get(k.Aux)))
		}
		return function(e, c, st)
	}
	models["(reflect.StructTag).Lookup"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		t, k := st.Content(c.Args[0]), st.Content(c.Args[1])
		if t.Op == "str" && k.Op == "str" {
			v, ok := reflect.StructTag(t.Aux).Lookup(k.Aux)
			return ret(st, MkStr(v), MkBool(ok))
		}
		return function(e, c, st)
	}
	models["(reflect.StructField).IsExported"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		if v := c.Args[0]; v.Op == "struct" {
			u := v.Typ.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "PkgPath" && v.Args[i].Op == "str" {
					return ret(st, MkBool(v.Args[i].Aux == ""))
				}
			}
		}
		return e.Fresh(c, st)
	}
	models["(reflect.Kind).String"] = function

	// constant strings
	strs := func(st *State, ss []string) *Term {
		o := st.allocArray(types.Typ[types.String], MkInt(int64(len(ss))), "split")
		for i, s := range ss {
			st.Store(mkIaddr(o, MkInt(int64(i)), types.Typ[types.String]), MkStr(s), types.Typ[types.String])
		}
		n := MkInt(int64(len(ss)))
		return MkSlice(o, MkInt(0), n, n, types.NewSlice(types.Typ[types.String]))
	}
	cst := func(c *CallCtx, st *State) []string {
		var r []string
		for i := range c.Args {
			p := c.Sig.Params()
			if i < p.Len() && types.TypeString(p.At(i).Type(), nil) != "string" {
				continue
			}
			x := st.Content(c.Args[i])
			if x.Op != "str" {
				return nil
			}
			r = append(r, x.Aux)
		}
		return r
	}
	fold := func(name string, f func(a []string, c *CallCtx, st *State) []*Term) {
		old := models[name]
		models[name] = func(e *Engine, c *CallCtx, st *State) []Exit {
			if a := cst(c, st); a != nil {
				if r := f(a, c, st); r != nil {
					return ret(st, r...)
				}
			}
			if old != nil {
				return old(e, c, st)
			}
			return e.Fresh(c, st)
		}
	}
	fold("strings.Split", func(a []string, c *CallCtx, st *State) []*Term { return []*Term{strs(st, strings.Split(a[0], a[1]))} })
	fold("strings.SplitN", func(a []string, c *CallCtx, st *State) []*Term {
		n, ok := c.Args[2].Int64()
		if !ok {
			return nil
		}
		return []*Term{strs(st, strings.SplitN(a[0], a[1], int(n)))}
	})
	fold("strings.Fields", func(a []string, c *CallCtx, st *State) []*Term { return []*Term{strs(st, strings.Fields(a[0]))} })
	fold("strings.Cut", func(a []string, c *CallCtx, st *State) []*Term {
		x, y, ok := strings.Cut(a[0], a[1])
		return []*Term{MkStr(x), MkStr(y), MkBool(ok)}
	})
	fold("strings.CutSuffix", func(a []string, c *CallCtx, st *State) []*Term {
		x, ok := strings.CutSuffix(a[0], a[1])
		return []*Term{MkStr(x), MkBool(ok)}
	})
	fold("strings.CutPrefix", func(a []string, c *CallCtx, st *State) []*Term {
		x, ok := strings.CutPrefix(a[0], a[1])
		return []*Term{MkStr(x), MkBool(ok)}
	})
	for n, f := range map[string]func(a, b string) bool{"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.EqualFold": strings.EqualFold} {
		fold(n, func(a []string, c *CallCtx, st *State) []*Term { return []*Term{MkBool(f(a[0], a[1]))} })
	}
	for n, f := range map[string]func(a, b string) string{"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix, "strings.Trim": strings.Trim} {
		fold(n, func(a []string, c *CallCtx, st *State) []*Term { return []*Term{MkStr(f(a[0], a[1]))} })
	}
	for n, f := range map[string]func(a string) string{"strings.TrimSpace": strings.TrimSpace, "strings.ToLower": strings.ToLower} {
		fold(n, func(a []string, c *CallCtx, st *State) []*Term { return []*Term{MkStr(f(a[0]))} })
	}
	for n, f := range map[string]func(a, b string) int{"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex} {
		fold(n, func(a []string, c *CallCtx, st *State) []*Term { return []*Term{MkInt(int64(f(a[0], a[1])))} })
	}
	contains := func(e *Engine, c *CallCtx, st *State) []Exit {
		o, off, ln, _ := sliceParts(c.Args[0])
		n, ok := ln.Int64()
		if !ok || n > 16 {
			return ret(st, MkSym("contains", boolType))
		}
		for i := int64(0); i < n; i++ {
			x := st.Content(e.load(st, mkIaddr(o, MkAdd(off, MkInt(i)), types.Typ[types.String]), types.Typ[types.String]))
			y := st.Content(c.Args[1])
			if x.Op != "str" || y.Op != "str" {
				return ret(st, MkSym("contains", boolType))
			}
			if x.Aux == y.Aux {
				return ret(st, True)
			}
		}
		return ret(st, False)
	}
	models["slices.Contains"] = contains
}

// counted: the loop's number of rounds is known in all these states.
func (e *Engine) counted(head *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, sts []*State) bool {
	for _, st := range sts {
		if !e.knownRounds(head, set, st) {
			return false
		}
	}
	return len(sts) > 0
}

func (e *Engine) knownRounds(head *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, st *State) bool {
	counter := false
	for _, in := range head.Instrs {
		if n, ok := in.(*ssa.Next); ok && e.ExactMaps {
			if r := st.env[n.Iter]; r != nil && r.Op == "range" {
				if _, ok := st.entries(r.Args[0]); ok {
					return true
				}
			}
		}
		if ph, ok := in.(*ssa.Phi); ok {
			if v := st.env[ph]; v != nil && v.Op == "int" {
				counter = true
			}
		}
	}
	if !counter {
		return false
	}
	for b := range set {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || set[b.Succs[0]] && set[b.Succs[1]] {
			continue
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok && (e.knownBound(cmp.Y, st) || e.knownBound(cmp.X, st)) {
			return true
		}
	}
	return false
}

func (e *Engine) knownBound(y ssa.Value, st *State) bool {
	if !isIntType(y.Type()) {
		return false
	}
	switch y := y.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		return false
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if v := st.env[y.Call.Args[0]]; v != nil {
				_, ok := MkLen(v).Int64()
				return ok
			}
		} else if y.Call.IsInvoke() {
			if y.Call.Method.Name() == "NumField" {
				return true
			}
		} else if f := y.Call.StaticCallee(); f != nil && f.Name() == "NumField" {
			return true
		}
	case *ssa.BinOp:
		return false
	}
	if v := st.env[y]; v != nil {
		_, ok := v.Int64()
		return ok
	}
	return false
}

func (s *State) allocArray(elem types.Type, n *Term, what string) *Term {
	if isByte(elem) {
		return s.AllocBytes(mkConcat([]*Term{MkOp("zeros", "", nil, n)}), what)
	}
	return s.Alloc(types.NewSlice(elem), what)
}

// As is an interface value seen as a value of a type.
func As(v *Term, t types.Type) (iface, x *Term) {
	x = mkRef("as", typeKey(t), t, t, v)
	return MkIface(t, x), x
}

// MkTypeIs: the interface value has this dynamic type.
func MkTypeIs(v *Term, t types.Type) *Term {
	return MkOp("typeis", typeKey(t), types.Typ[types.Bool], v)
}

// SliceObj is the array of a slice.
func SliceObj(v *Term) *Term { o, _, _, _ := sliceParts(v); return o }

// NewErr is a fresh error.
func NewErr(what string) *Term { return newErr(what) }
