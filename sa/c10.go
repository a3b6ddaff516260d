package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C10", Rule: "typestate of the block a connection holds (none, held, sent, rejected) through every path of Peer.Run, with ghost values for the block, the claimed piece and the number of its blocks made: a block is taken only when none is held, only the held block is put back and only once, blocks of a piece are made in order without gaps, another piece is claimed or the connection ends only after all of them were made, new pieces are claimed only after the retry queue was empty; the retry queue keeps every entry and hands each out once; all connections share one queue", Run: checkC10})
	register(&Check{ID: "C13", Rule: "typestate: at every point of Peer.Run that may write a request message the connection is unchoked, interested and has no outstanding request; interest is recorded only after an interested message was written; per message type the handler changes exactly the state the type denotes", Run: checkC13})
}

// blockLength is the size of a requested block.
func (c *Ctx) blockLength() int64 {
	n, ok := c.P.Const("pkg/torrent", "BlockLength")
	if !ok {
		if g := c.P.ByPath["pkg/torrent"].Var("BlockLength"); g != nil {
			h := c.newHarness(c.fn("pkg/torrent.New"))
			if v, ok := h.st.Load(ai.GlobalAddr(g), types.Typ[types.Uint]).Int64(); ok {
				return v
			}
		}
		panic(missing("torrent.BlockLength"))
	}
	return n
}

func checkC10(c *Ctx) {
	bl := c.blockLength()
	tor := c.typ("pkg/torrent", "Torrent")
	h := c.newHarness(c.fn("pkg/peer.NewPeer"))
	var torrent *ai.Term
	// all blocks of the claimed piece were made
	complete := func(st *ai.State) bool {
		made := st.Ghost("made")
		if made == nil {
			return true
		}
		return st.LT(st.Field(torrent, tor, "PieceLength"), ai.MkScale(ai.MkAdd(made, ai.MkInt(1)), bl))
	}
	rec := func(cc *ai.CallCtx, ok bool, rule, note string) {
		h.e.Record(cc.Fr, site(cc), rule, ok, note)
	}
	h.run(&runHooks{
		start: func(st *ai.State, p, t *ai.Term) {
			torrent = t
			st.SetGhost("made", nil)
			// offsets are 32 bits wide on the wire
			st.Assume(ai.MkGE(ai.MkInt(1<<32-1), st.Field(t, tor, "PieceLength")), true)
		},
		obtain: func(cc *ai.CallCtx, st *ai.State, from string) {
			rec(cc, st.Mon("req") == "", "block resolved before the next", "another block is taken while the last one ("+st.Mon("req")+") was neither stored nor put back")
			if from == "piece" {
				claim, made := st.Ghost("claim"), st.Ghost("made")
				rec(cc, claim != nil && made != nil, "block belongs to a claimed piece", "a block is requested although no piece was claimed")
				if claim == nil || made == nil {
					return
				}
				rec(cc, st.EqInt(cc.Args[0], claim), "block belongs to a claimed piece", "a block of piece "+cc.Args[0].String()+" is requested, which is not the claimed one")
				rec(cc, st.EqInt(cc.Args[1], ai.MkScale(made, bl)), "blocks without gaps", "a block at offset "+cc.Args[1].String()+" is requested, not the next one of the piece ("+ai.MkScale(made, bl).String()+")")
				rec(cc, st.Is(cc.Args[2], bl), "block has the block length", "a block of "+cc.Args[2].String()+" bytes is requested")
			}
		},
		claim: func(cc *ai.CallCtx, st *ai.State) {
			rec(cc, complete(st), "piece requested completely before the next", "another piece is claimed while blocks of the last one were not requested yet")
			rec(cc, st.Mon("queue") == "empty", "retry queue first", "a new piece is claimed although the retry queue was not found empty")
		},
		failed: func(cc *ai.CallCtx, st *ai.State, m *ai.Term) {
			s := st.Mon("req")
			rec(cc, s != "", "put back once", "a block is put back that was stored or put back before")
			if s != "" {
				rec(cc, st.Ghost("req") == m, "the held block is put back", "what is put back is "+m.String()+", not the block that was requested")
			}
		},
		exit: func(fn *ssa.Function, st *ai.State, p, t *ai.Term) {
			c.ObligeFn(st.Mon("req") == "", "no block lost at the end", fn, "the connection can end with a block ("+st.Mon("req")+") that was neither stored nor put back")
			c.ObligeFn(complete(st), "no unrequested block lost at the end", fn, "the connection can end without putting back the blocks of the claimed piece that were not requested")
		},
	})
	c.Absorb(h.e)
	c.AtLeast("block resolved before the next", 2, "places where a block is obtained")
	c.AtLeast("put back once", 2, "places where a block is put back")
	c.AtLeast("no block lost at the end", 1, "ends of a connection")
	c.AtLeast("retry queue first", 1, "places where a piece is claimed")
	c.queue()
	c.sharedQueue()
}

// queue: the retry queue keeps every entry and hands each out once.
func (c *Ctx) queue() {
	push, pop := c.fn("pkg/torrent.PiecesQueue.RequestFailed"), c.fn("pkg/torrent.PiecesQueue.FailedPieceMessage")
	qt := c.typ("pkg/torrent", "PiecesQueue")
	u := qt.Underlying().(*types.Struct)
	var name string
	var st0 types.Type
	for i := 0; i < u.NumFields(); i++ {
		if s, ok := u.Field(i).Type().Underlying().(*types.Slice); ok && types.TypeString(s.Elem(), nil) == tMessage {
			name, st0 = u.Field(i).Name(), s.Elem()
		}
	}
	if name == "" {
		panic(missing("slice of messages in PiecesQueue"))
	}
	at := func(st *ai.State, q, i *ai.Term) *ai.Term {
		obj, off, _, _ := ai.SliceParts(st.Field(q, qt, name))
		return st.Load(ai.IndexAddr(obj, ai.MkAdd(off, i), st0), st0)
	}
	// an entry as it is, written down so that it outlives writes next to it
	set := func(st *ai.State, q, i, v *ai.Term) {
		obj, off, _, _ := ai.SliceParts(st.Field(q, qt, name))
		st.Store(ai.IndexAddr(obj, ai.MkAdd(off, i), st0), v, st0)
	}
	run := func(f func(h *harness, st *ai.State, q, n, k *ai.Term)) {
		h := c.newHarness(push)
		q := h.e.Input("queue", ptrTo(qt))
		k := h.e.Input("k", types.Typ[types.Int])
		st := h.st
		n := ai.MkLen(st.Field(q, qt, name))
		h.keep(q, k, n)
		f(h, st, q, n, k)
		c.Absorb(h.e)
	}
	run(func(h *harness, st *ai.State, q, n, k *ai.Term) {
		st.Assume(ai.MkGE(k, ai.MkInt(0)), true)
		st.Assume(ai.MkGE(n, ai.MkAdd(k, ai.MkInt(1))), true)
		v := at(st, q, k)
		m := h.e.Input("msg", push.Params[1].Type())
		h.keep(v, m)
		for _, x := range h.call(push, []*ai.Term{q, m}, st) {
			n2 := ai.MkLen(x.St.Field(q, qt, name))
			c.ObligeFn(x.St.EqInt(n2, ai.MkAdd(n, ai.MkInt(1))), "queue grows by one entry", push, "after putting back a block the queue has "+n2.String()+" entries instead of one more")
			last, first := at(x.St, q, n), at(x.St, q, ai.MkInt(0))
			switch {
			case last == m:
				c.ObligeFn(at(x.St, q, k) == v, "queue keeps its entries", push, "putting back a block changes other entries of the queue")
			case first == m:
				c.ObligeFn(at(x.St, q, ai.MkAdd(k, ai.MkInt(1))) == v, "queue keeps its entries", push, "putting back a block changes other entries of the queue")
			default:
				c.ObligeFn(false, "queue holds what is put back", push, "the block put back is neither the first nor the last entry of the queue")
			}
		}
	})
	run(func(h *harness, st *ai.State, q, n, k *ai.Term) {
		st.Assume(ai.MkEq(n, ai.MkInt(0)), true)
		for _, x := range h.call(pop, []*ai.Term{q}, st) {
			c.ObligeFn(x.St.Nilness(x.Res[0]) == 1, "empty queue yields nothing", pop, "an empty retry queue yields "+x.Res[0].String())
			c.ObligeFn(x.St.Is(ai.MkLen(x.St.Field(q, qt, name)), 0), "empty queue stays empty", pop, "taking from an empty queue changes its size")
		}
	})
	// as seen by an entry that is neither first nor last
	run(func(h *harness, st *ai.State, q, n, k *ai.Term) {
		st.Assume(ai.MkGE(n, ai.MkInt(1)), true)
		st.Assume(ai.MkGE(k, ai.MkInt(1)), true)
		st.Assume(ai.MkGE(n, ai.MkAdd(k, ai.MkInt(2))), true)
		v, last, first := at(st, q, k), at(st, q, ai.MkSub(n, ai.MkInt(1))), at(st, q, ai.MkInt(0))
		h.keep(v, last, first)
		set(st, q, k, v)
		set(st, q, ai.MkSub(n, ai.MkInt(1)), last)
		set(st, q, ai.MkInt(0), first)
		for _, x := range h.call(pop, []*ai.Term{q}, st) {
			n2 := ai.MkLen(x.St.Field(q, qt, name))
			c.ObligeFn(x.St.EqInt(n2, ai.MkSub(n, ai.MkInt(1))), "queue shrinks by one entry", pop, "after taking a block the queue has "+n2.String()+" entries instead of one less")
			switch {
			case x.Res[0] == last:
				c.ObligeFn(at(x.St, q, k) == v && at(x.St, q, ai.MkInt(0)) == first, "queue keeps the other entries", pop, "taking a block changes other entries of the queue")
			case x.Res[0] == first:
				c.ObligeFn(at(x.St, q, ai.MkSub(k, ai.MkInt(1))) == v && at(x.St, q, ai.MkSub(n, ai.MkInt(2))) == last, "queue keeps the other entries", pop, "taking a block changes other entries of the queue")
			default:
				c.ObligeFn(false, "queue hands out an entry", pop, "a queue with entries hands out "+x.Res[0].String()+", which is neither its first nor its last entry")
			}
		}
	})
	c.AtLeast("queue keeps its entries", 1, "entries of the queue when one is added")
	c.AtLeast("queue keeps the other entries", 1, "entries of the queue when one is taken")
}

// sharedQueue: every peer gets the one queue of its download.
func (c *Ctx) sharedQueue() {
	np := c.fn("pkg/peer.NewPeer")
	qt := ptrTo(c.typ("pkg/torrent", "PiecesQueue")).String()
	for _, fn := range c.P.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != np {
					continue
				}
				for _, a := range ci.Common().Args {
					if a.Type().String() != qt {
						continue
					}
					ok, why := c.sharedSource(a, map[ssa.Value]bool{})
					c.Oblige(ok, "one retry queue for all peers", in, ai.Root(fn), "the peer's retry queue "+why)
				}
			}
		}
	}
	c.AtLeast("one retry queue for all peers", 1, "peers made with a retry queue")
}

// sharedSource: the value is a field that is set only when its object is made,
// or a parameter or variable with such a value.
func (c *Ctx) sharedSource(v ssa.Value, seen map[ssa.Value]bool) (bool, string) {
	if seen[v] {
		return true, ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			for _, s := range c.P.fieldStores(fieldOf(fa)) {
				if !madeHere(s.Addr.(*ssa.FieldAddr).X) {
					return false, "is replaced in " + ai.ShortName(s.Parent())
				}
			}
			return true, ""
		}
		if g, ok := x.X.(*ssa.Global); ok {
			_ = g
			return true, ""
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					if ok, why := c.sharedSource(s.Val, seen); !ok {
						return false, why
					}
				}
			}
			return true, ""
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return c.sharedFree(fv, seen)
		}
	case *ssa.FieldAddr:
		// a queue embedded by value in the object
		return true, ""
	case *ssa.FreeVar:
		return c.sharedFree(x, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ok, why := c.sharedSource(e, seen); !ok {
				return false, why
			}
		}
		return true, ""
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, f := range c.P.AllFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						n++
						if ok, why := c.sharedSource(ci.Common().Args[idx], seen); !ok {
							return false, why
						}
					}
				}
			}
		}
		return n > 0, "comes from an unknown caller"
	}
	return false, "is made for each peer (" + v.String() + ")"
}

func (c *Ctx) sharedFree(fv *ssa.FreeVar, seen map[ssa.Value]bool) (bool, string) {
	fn := fv.Parent()
	for i, x := range fn.FreeVars {
		if x != fv {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					bd := mc.Bindings[i]
					if al, ok := bd.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == al {
								if ok, why := c.sharedSource(s.Val, seen); !ok {
									return false, why
								}
							}
						}
						return true, ""
					}
					return c.sharedSource(bd, seen)
				}
			}
		}
	}
	return false, "comes from an unknown variable"
}

// fieldStores are the stores to a struct field anywhere in the module.
func (p *Program) fieldStores(k fieldKey) []*ssa.Store {
	var r []*ssa.Store
	for _, fn := range p.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa) == k {
						r = append(r, s)
					}
				}
			}
		}
	}
	return r
}

// madeHere tells if the object is allocated in the same function.
func madeHere(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func checkC13(c *Ctx) {
	peer, status := c.typ("pkg/peer", "Peer"), c.typ("pkg/peer", "Status")
	h := c.newHarness(c.fn("pkg/peer.NewPeer"))
	var p *ai.Term
	client := func(st *ai.State, f string) *ai.Term {
		return st.Field(st.Field(p, peer, "ClientStatus"), status, f)
	}
	rec := func(cc *ai.CallCtx, ok bool, rule, note string) {
		h.e.Record(cc.Fr, site(cc), rule, ok, note)
	}
	h.e.H.Store = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr, val *ai.Term, st *ai.State) {
		if p == nil {
			return
		}
		cs := st.Field(p, peer, "ClientStatus")
		if a, _ := ai.FieldAddrOf(cs, status, "Interested"); a == addr {
			e.Record(fr, in, "interest recorded after it was declared", st.Truth(val) == -1 || st.Mon("interest") == "sent", "interest is recorded although no interested message was sent")
		}
		if a, _ := ai.FieldAddrOf(cs, status, "Choked"); a == addr {
			e.Record(fr, in, "only the peer unchokes", st.Truth(val) == 1, "the connection is treated as unchoked without an unchoke message")
		}
		if a, _ := ai.FieldAddrOf(p, peer, "ClientStatus"); a == addr {
			e.Record(fr, in, "only the peer unchokes", st.Truth(st.Field(val, status, "Choked")) == 1, "the connection's state is replaced")
		}
	}
	msgT := c.typ("pkg/util", "PeerMessage")
	h.run(&runHooks{
		start: func(st *ai.State, q, t *ai.Term) { p = q },
		write: func(cc *ai.CallCtx, st *ai.State, content *ai.Term) {
			if !isRequest(st, content) {
				if st.Truth(ai.MkGE(ai.Clen(content), ai.MkInt(5))) == 1 {
					rec(cc, true, "written message is no request", "")
				}
				return
			}
			rec(cc, st.Truth(client(st, "Choked")) == -1, "request only when unchoked", "a request may be written while the peer chokes the client")
			rec(cc, st.Truth(client(st, "Interested")) == 1, "request only after interest was declared", "a request may be written without having declared interest")
			rec(cc, st.Mon("out") == "", "one request at a time", "a request may be written while the last one is unanswered")
			if req := st.Ghost("req"); req != nil {
				want := st.Content(st.Field(req, msgT, "payload"))
				got := st.Csub(content, ai.MkInt(5), ai.MkSub(ai.Clen(content), ai.MkInt(5)))
				rec(cc, st.Same(got, want), "the request obtained is sent", "the request written is not the block that was obtained last")
			} else {
				rec(cc, false, "the request obtained is sent", "a request is written although no block was obtained")
			}
		},
		wrote: func(cc *ai.CallCtx, st *ai.State, content *ai.Term) {
			if isRequest(st, content) {
				st.SetMon("out", "1")
				return
			}
			if st.Is(ai.Clen(content), 5) && st.Is(st.Elem(content, ai.MkInt(4)), 2) {
				st.SetMon("interest", "sent")
			}
		},
		failed: func(cc *ai.CallCtx, st *ai.State, m *ai.Term) { st.SetMon("out", "") },
		handle: func(cc *ai.CallCtx, st *ai.State, answer, stored bool) {
			if answer {
				st.SetMon("out", "")
			}
		},
		norm: func(st *ai.State) { st.SetMon("interest", "") },
	})
	c.Absorb(h.e)
	c.AtLeast("request only when unchoked", 1, "places where a request is written")
	c.AtLeast("interest recorded after it was declared", 1, "places where interest is recorded")
	c.handlerStates()
}
