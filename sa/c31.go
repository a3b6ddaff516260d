package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C31", Rule: "abstract interpretation of receiving, decoding and handling peer messages, of the trackers' announces and of the bencode parser over arbitrary remote data: the size of every allocation (make, growing a byte slice, buffer or bit set, reading to the end) is at most 16 MiB or the number of bytes received", Run: checkC31})
}

const memLimit = 16 << 20

// memory makes it an obligation that what is allocated is bounded; bounds are
// further limits.
func (h *harness) memory(bounds func(st *ai.State) []*ai.Term) {
	ok := func(st *ai.State, n *ai.Term) bool {
		if st.LE(n, ai.MkInt(memLimit)) {
			return true
		}
		if bounds != nil {
			for _, b := range bounds(st) {
				if b != nil && st.LE(n, ai.MkAdd(b, ai.MkInt(4096))) {
					return true
				}
			}
		}
		return false
	}
	h.e.H.Alloc = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, what string, size *ai.Term, st *ai.State) {
		if what == "append" {
			if v, isV := in.(ssa.Value); !isV || types.TypeString(v.Type().Underlying(), nil) != "[]byte" {
				return
			}
		}
		e.Record(fr, in, "allocation is bounded", ok(st, size), fmt.Sprintf("%s of %v elements, which is not bounded", what, size))
	}
	prev := h.e.H.Call
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		grow, read := -1, -1
		switch cc.Name {
		case "strings.Repeat", "bytes.Repeat", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "slices.Grow", "bufio.NewReaderSize", "bufio.NewWriterSize":
			grow = 1
		case "io.ReadAll", "io/ioutil.ReadAll":
			read = 0
		case "(*bytes.Buffer).ReadFrom", "io.Copy":
			read = 1
		}
		if grow >= 0 {
			e.Record(cc.Fr, site(cc), "allocation is bounded", ok(st, cc.Args[grow]), fmt.Sprintf("%s of %v, which is not bounded", cc.Method(), cc.Args[grow]))
		}
		if read >= 0 {
			r := ai.ReaderOf(cc.Args[read])
			lim := r.Op == "limited" && st.LE(r.Args[1], ai.MkInt(memLimit))
			if v := cc.Args[read]; v.Op == "iface" && ai.DynType(v).String() == "*io.LimitedReader" {
				n := st.Field(v.Args[0], ai.DynType(v).(*types.Pointer).Elem(), "N")
				lim = n != nil && st.LE(n, ai.MkInt(memLimit))
			}
			e.Record(cc.Fr, site(cc), "what is read at once is limited", lim, "everything the remote party sends is kept in memory, without a limit")
		}
		if prev != nil {
			return prev(e, cc, st)
		}
		return nil, false
	}
}

func checkC31(c *Ctx) {
	// reading messages, handshakes and datagrams
	for _, n := range []string{"ReadPeerMessage", "ReadPeerHandshake", "ReadDatagram"} {
		fn := c.fn("pkg/gotitnet.TimeoutConn." + n)
		m := c.newHarness(fn)
		m.memory(nil)
		args := m.args(fn)
		for i, p := range fn.Params {
			if nilable(p.Type()) {
				m.st.Assume(ai.MkIsNil(args[i]), false)
			}
		}
		m.call(fn, args, m.st)
		c.Absorb(m.e)
	}
	c.AtLeast("allocation is bounded", 2, "allocations while reading")
	// connecting, decoding and handling
	h := c.newHarness(c.fn("pkg/peer.NewPeer"))
	var data *ai.Term
	parse := c.fn("pkg/util.NewPeerMessage")
	h.e.Disj, h.e.DisjExit = 4, 8
	h.memory(func(st *ai.State) []*ai.Term {
		// the number of pieces is the torrent's
		r := []*ai.Term{ai.MkLen(data)}
		if h.tor != nil {
			t := c.typ("pkg/torrent", "Torrent")
			r = append(r, st.Field(h.tor, t, "PiecesNum"), ai.MkLen(st.Field(h.tor, t, "Hash")))
		}
		return r
	})
	handle := c.fn("pkg/peer.Peer.handlePeerMessage")
	pargs := h.args(parse)
	data = pargs[0]
	for _, p := range h.connected() {
		// after any number of messages
		h.forget(p.St, p.Res[0], c.typ("pkg/peer", "Peer"), handle)
		for _, m := range h.call(parse, pargs, p.St) {
			args := h.bind(handle, map[string]*ai.Term{tPeer: p.Res[0], tMessage: m.Res[0]})
			h.call(handle, args, m.St)
		}
	}
	c.Absorb(h.e)
	// the trackers
	t := c.newTrk()
	t.h.memory(func(st *ai.State) []*ai.Term {
		var r []*ai.Term
		for _, g := range []string{"got", "u:PeersCompact", "u:Peers"} {
			v := st.Ghost(g)
			if v != nil && strings.HasPrefix(g, "u:") {
				v = ai.MkLen(v)
			}
			r = append(r, v)
		}
		return r
	})
	t.run(nil)
	c.Absorb(t.h.e)
	// the parser
	p := c.newHarness(c.fn("pkg/bencode.Parse"))
	p.e.DisjExit, p.e.Disj, p.e.Elim = 4, 4, 48
	fn := c.fn("pkg/bencode.Parse")
	args := p.args(fn)
	p.keep(args...)
	p.memory(func(st *ai.State) []*ai.Term { return []*ai.Term{ai.MkLen(args[0])} })
	p.call(fn, args, p.st)
	c.Absorb(p.e)
	c.AtLeast("what is read at once is limited", 1, "reads of HTTP bodies")
}
