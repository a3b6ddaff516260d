package main

import (
	"fmt"
	"go/types"

	"gotitsa/ai"
)

// msgCase is an arbitrary message of one kind.
type msgCase struct {
	name string
	code int64 // -1: none of the protocol's
	pre  func(st *ai.State, data, ct *ai.Term) bool
}

func messageCases() []msgCase {
	var r []msgCase
	for _, w := range wireTypes {
		w := w
		r = append(r, msgCase{w.name, w.code, func(st *ai.State, data, ct *ai.Term) bool {
			return st.Assume(ai.MkGE(ai.MkLen(data), ai.MkInt(w.min)), true) && st.Assume(ai.MkEq(st.Elem(ct, ai.MkInt(0)), ai.MkInt(w.code)), true)
		}})
		if w.min > 1 {
			r = append(r, msgCase{"short " + w.name, -1, func(st *ai.State, data, ct *ai.Term) bool {
				return st.Assume(ai.MkGE(ai.MkLen(data), ai.MkInt(1)), true) && st.Assume(ai.MkGE(ai.MkInt(w.min-1), ai.MkLen(data)), true) &&
					st.Assume(ai.MkEq(st.Elem(ct, ai.MkInt(0)), ai.MkInt(w.code)), true)
			}})
		}
	}
	r = append(r, msgCase{"unknown", -1, func(st *ai.State, data, ct *ai.Term) bool {
		return st.Assume(ai.MkGE(ai.MkLen(data), ai.MkInt(1)), true) && st.Assume(ai.MkGE(st.Elem(ct, ai.MkInt(0)), ai.MkInt(9)), true)
	}})
	r = append(r, msgCase{"keep-alive", -1, func(st *ai.State, data, ct *ai.Term) bool {
		return st.Assume(ai.MkEq(ai.MkLen(data), ai.MkInt(0)), true)
	}})
	return r
}

// handled lets connected peers in any state handle a message of the case.
func (h *harness) handled(mc msgCase, pre func(st *ai.State, p, t, ct *ai.Term) bool, post func(p, t, m *ai.Term, before *ai.State, x ai.Exit)) {
	parse, handle := h.c.fn("pkg/util.NewPeerMessage"), h.c.fn("pkg/peer.Peer.handlePeerMessage")
	peer := h.c.typ("pkg/peer", "Peer")
	for _, p := range h.connected() {
		h.forget(p.St, p.Res[0], peer, handle)
		args := h.args(parse)
		h.keep(args...)
		ct := p.St.Content(args[0])
		if !mc.pre(p.St, args[0], ct) || pre != nil && !pre(p.St, p.Res[0], p.Res[1], ct) {
			continue
		}
		for _, m := range h.call(parse, args, p.St) {
			before := m.St.Clone()
			hargs := h.bind(handle, map[string]*ai.Term{tPeer: p.Res[0], tMessage: m.Res[0]})
			for _, x := range h.call(handle, hargs, m.St) {
				post(p.Res[0], p.Res[1], m.Res[0], before, x)
			}
		}
	}
}

// handlerStates: what each message type does to the state of a connection.
func (c *Ctx) handlerStates() {
	peer, status, tor := c.typ("pkg/peer", "Peer"), c.typ("pkg/peer", "Status"), c.typ("pkg/torrent", "Torrent")
	fn := c.fn("pkg/peer.Peer.handlePeerMessage")
	get := func(st *ai.State, p *ai.Term, who, f string) *ai.Term {
		return st.Field(st.Field(p, peer, who), status, f)
	}
	flags := [][2]string{{"ClientStatus", "Choked"}, {"ClientStatus", "Interested"}, {"PeerStatus", "Choked"}, {"PeerStatus", "Interested"}}
	want := map[int64]map[[2]string]bool{
		0: {flags[0]: true}, 1: {flags[0]: false}, 2: {flags[3]: true}, 3: {flags[3]: false},
	}
	// a new connection is choked and not interested
	np := c.fn("pkg/peer.NewPeer")
	h0 := c.newHarness(np)
	for _, x := range h0.peers() {
		for _, f := range flags {
			v := get(x.St, x.Res[0], f[0], f[1])
			if f[1] == "Choked" {
				c.ObligeFn(x.St.Truth(v) == 1, "new connection is choked", np, "a new connection starts with "+f[0]+".Choked = "+v.String())
			} else {
				c.ObligeFn(x.St.Truth(v) == -1, "new connection is not interested", np, "a new connection starts with "+f[0]+".Interested = "+v.String())
			}
		}
	}
	c.Absorb(h0.e)
	keep := func(h *harness, st *ai.State, p *ai.Term) {
		for _, f := range flags {
			h.keep(get(st, p, f[0], f[1]))
		}
		b := st.Field(p, peer, "Bitset")
		h.keep(b, ai.BitsOf(b, st), ai.BitLen(b, st))
	}
	for _, mc := range messageCases() {
		mc := mc
		h := c.newHarness(np)
		h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
			if cc.Name == "github.com/bits-and-blooms/bitset.From" {
				x.St.SetGhost("from", x.Res[0])
			}
		}
		h.handled(mc, func(st *ai.State, p, t, ct *ai.Term) bool { keep(h, st, p); return true },
			func(p, t, m *ai.Term, before *ai.State, x ai.Exit) {
				for _, f := range flags {
					v, old := get(x.St, p, f[0], f[1]), get(before, p, f[0], f[1])
					if w, ok := want[mc.code][f]; ok {
						good := x.St.Truth(v) == 1 && w || x.St.Truth(v) == -1 && !w
						c.ObligeFn(good, "message changes the state it denotes", fn, fmt.Sprintf("after a %s message %s.%s is %s", mc.name, f[0], f[1], v))
						continue
					}
					c.ObligeFn(v == old, "message changes nothing else", fn, fmt.Sprintf("a %s message changes %s.%s from %s to %s", mc.name, f[0], f[1], old, v))
				}
				b, ob := x.St.Field(p, peer, "Bitset"), before.Field(p, peer, "Bitset")
				switch mc.code {
				case 5:
					c.ObligeFn(b == x.St.Ghost("from"), "bitfield is adopted", fn, "after a bitfield message the pieces of the peer are "+b.String()+", not those of the message")
				case 4, 7:
				default:
					c.ObligeFn(b == ob && ai.BitsOf(b, x.St) == ai.BitsOf(ob, before), "message changes nothing else", fn, "a "+mc.name+" message changes the pieces the peer has")
				}
			})
		c.Absorb(h.e)
	}
	// have
	k := ai.MkNamed("in:k", types.Typ[types.Uint])
	for _, inside := range []bool{true, false} {
		inside := inside
		h := c.newHarness(np)
		var mc msgCase
		for _, x := range messageCases() {
			if x.code == 4 {
				mc = x
			}
		}
		h.keep(k)
		h.handled(mc, func(st *ai.State, p, t, ct *ai.Term) bool {
			keep(h, st, p)
			idx := ai.BEInt(st.Csub(ct, ai.MkInt(1), ai.MkInt(4)), 4)
			n, bl := st.Field(t, tor, "PiecesNum"), ai.BitLen(st.Field(p, peer, "Bitset"), st)
			if inside {
				return st.Assume(ai.MkGE(n, ai.MkAdd(idx, ai.MkInt(1))), true) && st.Assume(ai.MkGE(bl, ai.MkAdd(idx, ai.MkInt(1))), true)
			}
			return st.Assume(ai.MkGE(idx, n), true) && st.Assume(ai.MkGE(idx, bl), true)
		}, func(p, t, m *ai.Term, before *ai.State, x ai.Exit) {
			idx := h.number("Index", before, m)
			b, ob := x.St.Field(p, peer, "Bitset"), before.Field(p, peer, "Bitset")
			bits, obits := ai.BitsOf(b, x.St), ai.BitsOf(ob, before)
			if !inside {
				c.ObligeFn(b == ob && bits == obits && x.St.EqInt(ai.BitLen(b, x.St), ai.BitLen(ob, before)), "have outside the torrent changes nothing", fn, "a have message for an index outside the torrent changes the pieces the peer has")
				return
			}
			c.ObligeFn(x.St.Truth(ai.MkBit(bits, idx, x.St)) == 1, "have adds the piece", fn, "after a have message the peer is not known to have the piece")
			o := x.St.Clone()
			if o.Assume(ai.MkEq(k, idx), false) {
				c.ObligeFn(ai.MkBit(bits, k, o) == ai.MkBit(obits, k, o), "have changes no other piece", fn, "a have message changes other pieces than the one it names")
			}
		})
		c.Absorb(h.e)
	}
	c.AtLeast("have adds the piece", 1, "have messages")
	c.AtLeast("have outside the torrent changes nothing", 1, "have messages")
	c.AtLeast("message changes the state it denotes", 4, "choke, unchoke, interested, not interested")
	c.AtLeast("bitfield is adopted", 1, "bitfield messages")
}
