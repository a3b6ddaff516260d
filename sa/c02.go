package main

import "gotitsa/ai"

func init() {
	register(&Check{ID: "C02", Rule: "abstract interpretation of connecting (any handshake answer), of reading, decoding and handling any message, of the whole connection loop and of the piece writer for single-file and multi-file torrents that New accepted: every index and slice expression, dereference, type assertion, division, shift, channel close and explicit panic on the way is an obligation that must hold in every abstract state reaching it", Run: checkC02})
}

// received lets connected peers handle one arbitrary message.
func (h *harness) received(ps []ai.Exit) []ai.Exit {
	parse, handle := h.c.fn("pkg/util.NewPeerMessage"), h.c.fn("pkg/peer.Peer.handlePeerMessage")
	var out []ai.Exit
	for _, p := range ps {
		for _, m := range h.call(parse, h.args(parse), p.St) {
			args := h.bind(handle, map[string]*ai.Term{tPeer: p.Res[0], tMessage: m.Res[0]})
			for _, x := range h.call(handle, args, m.St) {
				x.Res = append(append([]*ai.Term{}, p.Res...), x.Res...)
				out = append(out, x)
			}
		}
	}
	return out
}

func checkC02(c *Ctx) {
	h := c.newHarness(c.fn("pkg/peer.NewPeer"))
	h.e.CheckPanics = true
	h.guardNonNil()
	h.received(h.connected())
	c.Absorb(h.e)
	r := c.newHarness(c.fn("pkg/peer.NewPeer"))
	r.e.CheckPanics = true
	r.guardNonNil()
	r.run(nil)
	c.Absorb(r.e)
	// the writer, for both forms of torrents
	for _, cs := range c.opened(nil) {
		w := c.newHarness(c.fn("pkg/torrent.Torrent.WritePiece"))
		w.e.Disj, w.e.DisjExit, w.e.Affine = 2, 4, true
		w.e.CheckPanics = true
		w.guardNonNil()
		w.writer(cs, &writerHooks{})
		c.Absorb(w.e)
	}
	// reading a message
	m := c.newHarness(c.fn("pkg/gotitnet.TimeoutConn.ReadPeerMessage"))
	m.e.CheckPanics = true
	m.guardNonNil()
	fn := c.fn("pkg/gotitnet.TimeoutConn.ReadPeerMessage")
	args := m.args(fn)
	for i, p := range fn.Params {
		if nilable(p.Type()) {
			m.st.Assume(ai.MkIsNil(args[i]), false)
		}
	}
	m.call(fn, args, m.st)
	c.Absorb(m.e)
}
