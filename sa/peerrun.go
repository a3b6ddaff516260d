package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// runHooks observe a peer connection while it runs. The states of the monitor
// "req" are: "" nothing held, "held" a block was obtained, "sent" it was
// requested, "rej" it was answered with data that was not stored.
type runHooks struct {
	start  func(st *ai.State, peer, tor *ai.Term)                   // connection starts
	wrote  func(cc *ai.CallCtx, st *ai.State, content *ai.Term)     // bytes were written
	norm   func(st *ai.State)                                       // before states of rounds are merged
	obtain func(cc *ai.CallCtx, st *ai.State, from string)          // block taken from the queue or made from a claimed piece
	claim  func(cc *ai.CallCtx, st *ai.State)                       // piece claimed
	failed func(cc *ai.CallCtx, st *ai.State, msg *ai.Term)         // block put back
	write  func(cc *ai.CallCtx, st *ai.State, content *ai.Term)     // bytes are going to be written
	handle func(cc *ai.CallCtx, st *ai.State, answer, stored bool)  // message handled
	loop   func(e *ai.Engine, fr *ai.Frame, st *ai.State)           // next round of the main loop
	args   func(fn *ssa.Function, args []*ai.Term)                  // arguments of Run
	read   func(cc *ai.CallCtx, st *ai.State) []ai.Exit             // replaces reading of a message
	exit   func(fn *ssa.Function, st *ai.State, peer, tor *ai.Term) // connection ends
}

func site(cc *ai.CallCtx) ssa.Instruction {
	in, _ := cc.Site.(ssa.Instruction)
	return in
}

// makeMessage makes an unknown request.
func (h *harness) makeMessage(st *ai.State) *ai.Term {
	t := h.c.typ("pkg/util", "PeerMessage")
	m := h.sym(st, "request", ptrTo(t))
	if a, ft := ai.FieldAddrOf(m, t, "Type"); a != nil {
		st.Store(a, ai.MkInt(6), ft)
	}
	return m
}

// sym is an unknown new in the state.
func (h *harness) sym(st *ai.State, name string, t types.Type) *ai.Term {
	return h.e.Reuse(st, name, t, false)
}

// setReq changes the monitor of the block held.
func (h *harness) setReq(st *ai.State, s string, m *ai.Term) {
	st.SetMon("req", s)
	st.SetGhost("req", m)
}

// isRequest tells if bytes written to a peer may be a block request.
func isRequest(st *ai.State, content *ai.Term) bool {
	if st.LE(ai.Clen(content), ai.MkInt(4)) {
		return false
	}
	return st.Possible(ai.MkEq(st.Elem(content, ai.MkInt(4)), ai.MkInt(6)), true)
}

// number reads a numeric accessor of a message.
func (h *harness) number(name string, st *ai.State, m *ai.Term) *ai.Term {
	xs := h.get("pkg/util.PeerMessage."+name, st, m)
	if len(xs) != 1 {
		return ai.MkSym(name, types.Typ[types.Uint32])
	}
	return xs[0].Res[0]
}

// run lets connected peers run; what a received message does is left to the
// contract of handlePeerMessage.
func (h *harness) run(o *runHooks) {
	if o == nil {
		o = &runHooks{}
	}
	fn := h.c.fn("pkg/peer.Peer.Run")
	handle := h.c.fn("pkg/peer.Peer.handlePeerMessage")
	peer := h.c.typ("pkg/peer", "Peer")
	msgT := h.c.typ("pkg/util", "PeerMessage")
	running := false
	h.contract("pkg/peer.Peer.handlePeerMessage", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		// a message may answer the pending request
		m := cc.Args[1]
		req := st.Ghost("req")
		var out []ai.Exit
		give := func(st *ai.State, answer, stored bool) {
			if st.Dead() {
				return
			}
			if o.handle != nil {
				o.handle(cc, st, answer, stored)
			}
			if answer && st.Mon("req") == "sent" {
				if stored {
					h.setReq(st, "", nil)
				} else {
					st.SetMon("req", "rej")
				}
			}
			h.forget(st, cc.Args[0], peer, handle)
			var rs []*ai.Term
			for i := 0; i < cc.Sig.Results().Len(); i++ {
				rs = append(rs, ai.MkBool(stored))
			}
			out = append(out, ai.Exit{St: st, Res: rs})
		}
		isPiece := ai.MkEq(st.Field(m, msgT, "Type"), ai.MkInt(7))
		other := st.Clone()
		if other.Assume(isPiece, false) {
			give(other, false, false)
		}
		if !st.Assume(isPiece, true) {
			return out
		}
		if req != nil {
			for _, f := range []string{"Index", "Offset"} {
				eq := ai.MkEq(h.number(f, st, m), h.number(f, st, req))
				n := st.Clone()
				if n.Assume(eq, false) {
					n.SetMon("ans", "other "+f)
					n2 := n.Clone()
					give(n, false, true)
					give(n2, false, false)
				}
				if !st.Assume(eq, true) {
					return out
				}
			}
		}
		st.SetMon("ans", "answer")
		n := st.Clone()
		give(n, req != nil, true)
		give(st, req != nil, false)
		return out
	})
	h.contract("pkg/gotitnet.TimeoutConn.ReadPeerMessage", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		if o.read != nil {
			return o.read(cc, st)
		}
		h.forget(st, cc.Args[0], h.c.typ("pkg/gotitnet", "TimeoutConn"), cc.Fn)
		bad := st.Clone()
		return []ai.Exit{{St: st, Res: []*ai.Term{h.sym(st, "body", cc.Sig.Results().At(0).Type()), ai.MkNil(nil)}},
			{St: bad, Res: []*ai.Term{ai.MkNil(nil), h.sym(bad, "readerr", cc.Sig.Results().At(1).Type())}}}
	})
	h.contract("pkg/util.NewPeerMessage", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		return []ai.Exit{{St: st, Res: []*ai.Term{h.sym(st, "message", cc.Sig.Results().At(0).Type())}}}
	})
	h.contract("pkg/torrent.Torrent.Next", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		no := st.Clone()
		idx := h.sym(st, "piece", types.Typ[types.Uint])
		// pieces are numbered with 32 bits on the wire
		st.Assume(ai.MkGE(ai.MkInt(1<<32-1), idx), true)
		if o.claim != nil {
			o.claim(cc, st)
		}
		st.SetGhost("claim", idx)
		st.SetGhost("made", ai.MkInt(0))
		return []ai.Exit{{St: st, Res: []*ai.Term{idx, ai.MkBool(true)}}, {St: no, Res: []*ai.Term{ai.MkInt(0), ai.MkBool(false)}}}
	})
	h.contract("pkg/torrent.Torrent.Done", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		return []ai.Exit{{St: st.Clone(), Res: []*ai.Term{ai.MkBool(true)}}, {St: st, Res: []*ai.Term{ai.MkBool(false)}}}
	})
	h.contract("pkg/torrent.PiecesQueue.RequestFailed", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		if o.failed != nil {
			o.failed(cc, st, cc.Args[1])
		}
		h.setReq(st, "", nil)
		return []ai.Exit{{St: st}}
	})
	h.contract("pkg/torrent.PiecesQueue.FailedPieceMessage", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		no := st.Clone()
		no.SetMon("queue", "empty")
		t := cc.Sig.Results().At(0).Type()
		out := []ai.Exit{{St: no, Res: []*ai.Term{ai.MkNil(t)}}}
		m := h.makeMessage(st)
		st.SetMon("src", "queue")
		if o.obtain != nil {
			o.obtain(cc, st, "queue")
		}
		h.setReq(st, "held", m)
		return append(out, ai.Exit{St: st, Res: []*ai.Term{m}})
	})
	h.contract("pkg/util.CreatePieceMessage", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		m := h.makeMessage(st)
		st.SetMon("src", "new")
		if o.obtain != nil {
			o.obtain(cc, st, "piece")
		}
		h.setReq(st, "held", m)
		if made := st.Ghost("made"); made != nil {
			st.SetGhost("made", ai.MkAdd(made, ai.MkInt(1)))
		}
		return []ai.Exit{{St: st, Res: []*ai.Term{m}}}
	})
	prevCall, prevAfter := h.e.H.Call, h.e.H.After
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if running && cc.IsConnOp("Write") && o.write != nil {
			o.write(cc, st, st.Content(cc.Args[1]))
		}
		return prevCall(e, cc, st)
	}
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if prevAfter != nil {
			prevAfter(e, cc, x)
		}
		if !running {
			return
		}
		if cc.IsConnOp("Write") && x.St.Nilness(x.Res[1]) != -1 {
			if o.wrote != nil {
				o.wrote(cc, x.St, x.St.Content(cc.Args[1]))
			}
			if isRequest(x.St, x.St.Content(cc.Args[1])) {
				x.St.SetMon("req", "sent")
			}
		}
	}
	prevHead, prevNorm := h.e.H.Head, h.e.H.Norm
	h.e.H.Head = func(e *ai.Engine, fr *ai.Frame, head *ssa.BasicBlock, st *ai.State) {
		if prevHead != nil {
			prevHead(e, fr, head, st)
		}
		if fr.Fn == fn && running {
			if o.loop != nil {
				o.loop(e, fr, st)
			}
		}
	}
	h.e.H.Norm = func(e *ai.Engine, fr *ai.Frame, st *ai.State) {
		if prevNorm != nil {
			prevNorm(e, fr, st)
		}
		if fr.Fn == fn {
			if e.AtLoopHead() {
				st.SetMon("ans", "")
				if o.norm != nil {
					o.norm(st)
				}
			}
			if st.Mon("req") != "held" {
				st.SetMon("src", "")
				st.SetMon("queue", "")
			}
		}
	}
	for _, p := range h.connected() {
		// Run may start in any state the peer can be in
		h.forget(p.St, p.Res[0], peer, handle)
		args := h.bind(fn, map[string]*ai.Term{tPeer: p.Res[0], tTorrent: p.Res[1]})
		if o.args != nil {
			o.args(fn, args)
		}
		if o.start != nil {
			o.start(p.St, p.Res[0], p.Res[1])
		}
		running = true
		for _, x := range h.call(fn, args, p.St) {
			if o.exit != nil {
				o.exit(fn, x.St, p.Res[0], p.Res[1])
			}
		}
		running = false
	}
}
