package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C08", Rule: "abstract interpretation of WritePiece over arbitrary blocks, every file write both succeeding and failing, with a typestate of the current block (open, complete, failed, does not fit): bytes are counted only for a complete block, once and as many as it has; the completed set changes only by setting bit index of a complete block that ends its piece or the torrent; when the next block is taken, a complete block was counted and is marked unless it is known to end neither; the writer ends only when its channel is closed; SetDownloaded sets exactly its bit, Done is exactly 'all bits set', and nothing else changes the completed set or the downloaded count", Run: checkC08})
}

func checkC08(c *Ctx) {
	wp := c.fn("pkg/torrent.Torrent.WritePiece")
	tor := c.typ("pkg/torrent", "Torrent")
	for _, cs := range c.opened(nil) {
		cs := cs
		h := c.newHarness(wp)
		h.e.Disj, h.e.DisjExit, h.e.Affine = 2, 4, true
		rule := func(s string) string { return s + " (" + cs.name + ")" }
		ends := func(st *ai.State, w *block) (a, b int) {
			return st.Truth(ai.MkEq(ai.MkAdd(w.offset, w.total), w.pieceLen)), st.Truth(ai.MkEq(ai.MkAdd(w.pos, w.total), w.length))
		}
		h.writer(cs, &writerHooks{
			count: func(cc *ai.CallCtx, st *ai.State, w *block) {
				if w == nil {
					h.e.Record(cc.Fr, site(cc), rule("bytes are counted for a written block"), false, "bytes are counted without a block")
					return
				}
				h.e.Record(cc.Fr, site(cc), rule("bytes are counted for a written block"), st.Mon("blk") == "complete" && st.Mon("counted") == "", "bytes are counted although the block is "+st.Mon("blk")+" or was counted already")
				h.e.Record(cc.Fr, site(cc), rule("counted bytes are those of the block"), st.EqInt(cc.Args[1], w.total), cc.Args[1].String()+" bytes are counted for a block of "+w.total.String())
			},
			mark: func(cc *ai.CallCtx, st *ai.State, w *block) {
				if w == nil {
					h.e.Record(cc.Fr, site(cc), rule("piece is marked for a written block"), false, "a piece is marked without a block")
					return
				}
				h.e.Record(cc.Fr, site(cc), rule("piece is marked for a written block"), st.Mon("blk") == "complete", "a piece is marked although the block is "+st.Mon("blk"))
				h.e.Record(cc.Fr, site(cc), rule("marked piece is the one of the block"), cc.Method() == "Set" && st.EqInt(cc.Args[1], w.index), cc.Method()+" of the completed set is not known to mark the piece of the block")
				h.e.Record(cc.Fr, site(cc), rule("marked piece is complete"), st.Mon("end") == "yes", "a piece is marked although the block may end neither the piece nor the torrent")
			},
			norm: func(st *ai.State, w *block) {
				if st.Mon("blk") == "complete" && st.Mon("end") == "" {
					if a, b := ends(st, w); a == -1 && b == -1 {
						st.SetMon("end", "no")
					} else if a == 1 || b == 1 {
						st.SetMon("end", "yes")
					}
				}
			},
			next: func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, st *ai.State) {
				if st.Mon("blk") == "complete" {
					e.Record(fr, in, rule("written block is counted"), st.Mon("counted") == "1", "the next block is taken although the last one was written but not counted")
					e.Record(fr, in, rule("piece that ends is marked"), st.Mon("end") == "no" || st.Mon("end") == "marked", "the next block is taken although the last one may have ended its piece, which was not marked")
				}
			},
			exit: func(fn *ssa.Function, st *ai.State) {
				c.ObligeFn(st.Mon("closed") == "1", rule("writer ends only with its channel"), fn, "the writer may end before its channel is closed")
			},
			call: func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) {
				if exits(cc.Name) {
					e.Record(cc.Fr, site(cc), rule("writer ends only with its channel"), false, cc.Name+" ends the program")
				}
			},
		})
		c.Absorb(h.e)
		for _, r := range []string{"bytes are counted for a written block", "piece is marked for a written block", "written block is counted", "piece that ends is marked", "writer ends only with its channel"} {
			c.AtLeast(rule(r), 1, "places")
		}
	}
	c.completedSet(tor)
	in := c.P.reach(wp)
	for f := range c.P.reach(c.fn("cmd/gotit.main")) {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch ci.Common().StaticCallee() {
				case nil:
				case c.fn("pkg/torrent.Torrent.SetDownloaded"), c.fn("pkg/stats.Stats.AddDownload"):
					c.Oblige(in[f], "only the writer records progress", x, ai.Root(f), "progress is recorded outside of the writer")
				}
			}
		}
	}
	c.AtLeast("only the writer records progress", 1, "places that record progress")
	c.onlyIn("downloaded", "completed set changes only in marking", "pkg/torrent.Torrent.SetDownloaded", wp, "pkg/torrent.New")
}

// exits tells if a function ends the program.
func exits(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit", "syscall.Exit",
		"(*go.uber.org/zap.Logger).Fatal", "(*go.uber.org/zap.Logger).Panic", "(*go.uber.org/zap.SugaredLogger).Fatal", "(*go.uber.org/zap.SugaredLogger).Fatalf", "(*go.uber.org/zap.SugaredLogger).Panic", "(*go.uber.org/zap.SugaredLogger).Panicf":
		return true
	}
	return false
}

// completedSet decides SetDownloaded and Done.
func (c *Ctx) completedSet(tor types.Type) {
	set, done := c.fn("pkg/torrent.Torrent.SetDownloaded"), c.fn("pkg/torrent.Torrent.Done")
	for _, fn := range []*ssa.Function{set, done} {
		h := c.newHarness(fn)
		h.e.DisjExit = 8
		st := h.st
		t := h.torrent(st)
		bs := st.Field(t, tor, "downloaded")
		old := ai.BitsOf(bs, st)
		blen := ai.BitLen(bs, st)
		k := h.e.Input("k", types.Typ[types.Uint])
		h.keep(old, blen, k)
		st.SetGhost("watch", k)
		args := []*ai.Term{t}
		if fn == set {
			i := h.e.Input("i", fn.Params[1].Type())
			h.keep(i)
			st.Assume(ai.MkGE(blen, ai.MkAdd(i, ai.MkInt(1))), true)
			st.Assume(ai.MkGE(blen, ai.MkAdd(k, ai.MkInt(1))), true)
			for _, x := range h.call(fn, []*ai.Term{t, i}, st) {
				now := ai.BitsOf(bs, x.St)
				c.ObligeFn(x.St.Field(t, tor, "downloaded") == bs && x.St.Truth(ai.MkBit(now, i, x.St)) == 1, "marking sets the bit", fn, "the bit of the piece may not be set")
				o := x.St.Clone()
				if o.Assume(ai.MkEq(k, i), false) {
					c.ObligeFn(ai.MkBit(now, k, o) == ai.MkBit(old, k, o), "marking changes no other piece", fn, "the bit of another piece may change")
				}
			}
			c.AtLeast("marking sets the bit", 1, "returns")
		} else {
			all := ai.MkOp("allbits", "", types.Typ[types.Bool], old, blen)
			for _, x := range h.call(fn, args, st) {
				r := x.Res[0]
				c.ObligeFn(r == all || x.St.Truth(r) != 0 && x.St.Truth(r) == x.St.Truth(all), "complete means all pieces are marked", fn, "the result is "+r.String())
				c.ObligeFn(ai.BitsOf(bs, x.St) == old, "asking changes nothing", fn, "Done changes the completed set")
			}
			c.AtLeast("complete means all pieces are marked", 1, "returns")
		}
		c.Absorb(h.e)
	}
}
