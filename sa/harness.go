package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// fn finds a function the check is anchored at.
func (c *Ctx) fn(name string) *ssa.Function {
	f := c.P.Func(name)
	if f == nil {
		panic(missing(name))
	}
	return f
}

// harness is one engine run.
type harness struct {
	tor *ai.Term // the torrent of the peers made
	c   *Ctx
	e   *ai.Engine
	fr  *ai.Frame
	st  *ai.State

	contracts map[*ssa.Function]func(cc *ai.CallCtx, st *ai.State) []ai.Exit
}

// newHarness prepares an engine whose package variables are initialised.
func (c *Ctx) newHarness(entry *ssa.Function) *harness {
	e := c.P.Engine()
	e.Trace = c.Verbose
	e.DebugFail = os.Getenv("AI_FAIL") != ""
	e.DebugLoop = os.Getenv("AI_DEBUG") != ""
	h := &harness{c: c, e: e, fr: ai.Root(entry), st: e.InitGlobals(c.P.imported(entry))}
	return h
}

// imported are the module's packages the function's package depends on.
func (p *Program) imported(fn *ssa.Function) []*ssa.Package {
	in := map[*types.Package]bool{}
	var visit func(q *types.Package)
	visit = func(q *types.Package) {
		if in[q] {
			return
		}
		in[q] = true
		for _, i := range q.Imports() {
			visit(i)
		}
	}
	visit(fn.Pkg.Pkg)
	var r []*ssa.Package
	for _, x := range p.Pkgs {
		if in[x.Pkg] {
			r = append(r, x)
		}
	}
	return r
}

// args makes symbolic arguments for a function.
func (h *harness) args(fn *ssa.Function) []*ai.Term {
	var r []*ai.Term
	for _, p := range fn.Params {
		r = append(r, h.e.Input(p.Name(), p.Type()))
	}
	return r
}

// call runs fn and returns its exits; the engine state is cloned.
func (h *harness) call(fn *ssa.Function, args []*ai.Term, st *ai.State) []ai.Exit {
	return h.e.CallFunction(h.fr, fn, args, st.Clone())
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// keep makes the memory reachable from a term survive.
func (h *harness) keep(ts ...*ai.Term) { h.e.Keep = append(h.e.Keep, ts...) }

// okExits are the exits whose last (error) result is nil.
func okExits(xs []ai.Exit) []ai.Exit {
	var r []ai.Exit
	for _, x := range xs {
		if x.St.Nilness(x.Res[len(x.Res)-1]) != -1 {
			r = append(r, x)
		}
	}
	return r
}

// torrents opens a torrent from unknown metadata.
func (h *harness) torrents() []ai.Exit {
	fn := h.c.fn("pkg/torrent.New")
	args := h.args(fn)
	h.keep(args...)
	xs := okExits(h.call(fn, args, h.st))
	for _, x := range xs {
		h.keep(x.Res[0])
	}
	return xs
}

// bind makes the arguments of fn: parameters of the given types get the given
// values, the others are unknown.
func (h *harness) bind(fn *ssa.Function, given map[string]*ai.Term) []*ai.Term {
	var r []*ai.Term
	for _, p := range fn.Params {
		if t, ok := given[types.TypeString(p.Type(), nil)]; ok {
			r = append(r, t)
			continue
		}
		r = append(r, h.e.Input(p.Name(), p.Type()))
	}
	return r
}

const (
	tTorrent = "*github.com/anivanovic/gotit/pkg/torrent.Torrent"
	tPeer    = "*github.com/anivanovic/gotit/pkg/peer.Peer"
	tMessage = "*github.com/anivanovic/gotit/pkg/util.PeerMessage"
)

// peers makes a peer of a torrent about which only what its constructor
// guarantees is known.
func (h *harness) peers() []ai.Exit {
	fn := h.c.fn("pkg/peer.NewPeer")
	var out []ai.Exit
	t := h.torrent(h.st)
	h.tor = t
	for _, x := range h.call(fn, h.bind(fn, map[string]*ai.Term{tTorrent: t}), h.st) {
		h.keep(x.Res[0])
		x.Res = append(x.Res, t)
		out = append(out, x)
	}
	return out
}

// connected makes a peer and lets it announce; the exits are the successful ones.
func (h *harness) connected() []ai.Exit {
	fn := h.c.fn("pkg/peer.Peer.Announce")
	var out []ai.Exit
	for _, p := range h.peers() {
		args := h.bind(fn, map[string]*ai.Term{tPeer: p.Res[0], tTorrent: p.Res[1]})
		for _, x := range okExits(h.call(fn, args, p.St)) {
			x.Res = p.Res
			out = append(out, x)
		}
	}
	return out
}

// contract replaces calls of a function by f.
func (h *harness) contract(name string, f func(cc *ai.CallCtx, st *ai.State) []ai.Exit) {
	fn := h.c.fn(name)
	if h.contracts == nil {
		h.contracts = map[*ssa.Function]func(cc *ai.CallCtx, st *ai.State) []ai.Exit{}
		prev := h.e.H.Call
		h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
			if cc.Fn != nil {
				if f := h.contracts[cc.Fn]; f != nil {
					return f(cc, st), true
				}
			}
			if prev != nil {
				return prev(e, cc, st)
			}
			return nil, false
		}
	}
	h.contracts[fn] = f
}

// reach is the set of module functions fn may call.
func (p *Program) reach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o == nil {
						continue
					}
					switch x := (*o).(type) {
					case *ssa.Function:
						visit(x)
					case *ssa.MakeClosure:
						visit(x.Fn.(*ssa.Function))
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range p.implementations(ci.Common().Method, ci.Common().Value.Type()) {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	return seen
}

// implementations are the module's methods an interface call may reach.
func (p *Program) implementations(m *types.Func, it types.Type) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, t := range p.types() {
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			if !types.Implements(tt, iface) {
				continue
			}
			sel := p.SSA.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if o, ok := sel.Obj().(*types.Func); ok {
				if f := p.SSA.FuncValue(o); f != nil {
					r = append(r, f)
				}
			}
			break
		}
	}
	return r
}

func (p *Program) types() []types.Type {
	if p.named != nil {
		return p.named
	}
	for _, pkg := range p.Pkgs {
		names := pkg.Pkg.Scope().Names()
		for _, n := range names {
			if tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 && !types.IsInterface(nt) {
					p.named = append(p.named, nt)
				}
			}
		}
	}
	return p.named
}

// fieldKey names a struct field.
type fieldKey struct {
	owner string
	field int
}

func fieldOf(fa *ssa.FieldAddr) fieldKey {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return fieldKey{types.TypeString(t, nil), fa.Field}
}

// modifies are the struct fields fn and its callees store to.
func (p *Program) modifies(fn *ssa.Function) map[fieldKey]types.Type {
	r := map[fieldKey]types.Type{}
	for f := range p.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					r[fieldOf(fa)] = fa.X.Type().Underlying().(*types.Pointer).Elem()
				}
			}
		}
	}
	return r
}

// forget makes the fields of p (and of what its pointer fields point to) that
// fn may change unknown.
func (h *harness) forget(st *ai.State, p *ai.Term, t types.Type, fn *ssa.Function) {
	h.forgetIn(st, p, t, h.c.P.modifies(fn), 2)
}

func (h *harness) forgetIn(st *ai.State, p *ai.Term, t types.Type, mod map[fieldKey]types.Type, depth int) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		fa := ai.FieldAddr(p, u, i)
		if _, ok := mod[fieldKey{types.TypeString(t, nil), i}]; ok {
			st.Store(fa, ai.MkSym("forgotten", ft), ft)
			v := h.e.Reuse(st, u.Field(i).Name(), ft, !h.c.nonNilField(t, i))
			st.Store(fa, v, ft)
			continue
		}
		if _, ok := ft.Underlying().(*types.Struct); ok && depth > 0 {
			h.forgetIn(st, fa, ft, mod, depth-1)
			continue
		}
		if pt, ok := ft.Underlying().(*types.Pointer); ok && depth > 0 {
			if v := st.Load(fa, ft); v.Op != "nil" {
				h.forgetIn(st, v, pt.Elem(), mod, depth-1)
			}
		}
	}
}
