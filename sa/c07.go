package main

import (
	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C07", Rule: "abstract interpretation of WritePiece over arbitrary blocks and file layouts, with S(k) the sum of the first k file lengths: at every file write the bytes are the next unwritten ones of the block, the handle is the one of file k, S(k)+offset equals index*piece length+block offset+bytes written before (linear equations over S, loop invariants inferred), and offset+size is within file k; a block is counted only when all of it was written, and one that was not was refused because it does not fit or because a write failed; in New the i-th handle appended was created at the i-th path of the metadata", Run: checkC07})
}

func checkC07(c *Ctx) {
	tor := c.typ("pkg/torrent", "Torrent")
	nw := c.fn("pkg/torrent.New")
	cases := c.opened(func(cs *torrentCase, h *harness, x ai.Exit, files *ai.Term, fact *ai.ElemFact) {
		osf := x.St.Field(x.Res[0], tor, "OsFiles")
		c.ObligeFn(x.St.All(fact, osf), "file i is created at path i of the metadata ("+cs.name+")", nw, "a torrent is opened with a file handle that is not known to be the one of the metadata path at its place")
		want := ai.MkInt(1)
		if cs.dir {
			want = ai.MkLen(files)
		}
		c.ObligeFn(x.St.EqInt(ai.MkLen(osf), want), "one handle per file ("+cs.name+")", nw, "a torrent is opened with "+ai.MkLen(osf).String()+" file handles instead of "+want.String())
	})
	for _, cs := range cases {
		cs := cs
		c.AtLeast("file i is created at path i of the metadata ("+cs.name+")", 1, "torrents opened")
		h := c.newHarness(c.fn("pkg/torrent.Torrent.WritePiece"))
		h.e.Disj, h.e.DisjExit, h.e.Affine = 2, 4, true
		rule := func(s string) string { return s + " (" + cs.name + ")" }
		h.writer(cs, &writerHooks{
			write: func(cc *ai.CallCtx, st *ai.State, w *block) {
				in := site(cc)
				sz := ai.MkLen(cc.Args[1])
				got, want := st.Content(cc.Args[1]), st.Csub(w.data, w.written, sz)
				h.e.Record(cc.Fr, in, rule("written bytes are the next of the block"), st.Same(got, want) && st.LE(ai.MkAdd(w.written, sz), w.total), "the bytes written are "+got.String()+", the next of the block are "+want.String())
				f := cc.Args[0]
				h.e.Record(cc.Fr, in, rule("bytes go to a file of the torrent"), st.Truth(fnBool("isout", f)) == 1, "the file written to is not known to be a file of the torrent")
				at := cc.Args[2]
				place := ai.MkAdd(w.pos, w.written)
				if cs.dir {
					k := ai.LoadedIndex(f)
					if k == nil {
						k = fnInt("outidx", f)
					}
					h.e.Record(cc.Fr, in, rule("bytes go to their place"), st.EqInt(ai.MkAdd(w.sum.At(st, k), at), place), "byte "+place.String()+" of the torrent is written at offset "+at.String()+" of file "+k.String()+", which is not known to be its place")
					in1 := st.LE(ai.MkInt(0), at)
					ok := false
					for _, l := range w.sum.Known(st, k) {
						ok = ok || st.LE(ai.MkAdd(at, sz), l)
					}
					h.e.Record(cc.Fr, in, rule("written part is within its file"), in1 && ok, "the part at offset "+at.String()+" with "+sz.String()+" bytes may reach beyond file "+k.String())
				} else {
					h.e.Record(cc.Fr, in, rule("bytes go to their place"), st.EqInt(at, place), "byte "+place.String()+" of the torrent is written at offset "+at.String())
					r := "written part is within its file"
					if st.EqInt(at, place) && st.LE(ai.MkAdd(w.written, sz), w.total) {
						r = "block beyond the end of the torrent is refused" // by itself, only too long a block reaches beyond
					}
					h.e.Record(cc.Fr, in, rule(r), st.LE(ai.MkAdd(at, sz), w.length), "the part at offset "+at.String()+" with "+sz.String()+" bytes may reach beyond the length of the file")
				}
			},
			count: func(cc *ai.CallCtx, st *ai.State, w *block) {
				h.e.Record(cc.Fr, site(cc), rule("only completely written blocks count"), st.Mon("blk") == "complete", "a block is counted as written although it may not be completely written ("+st.Mon("blk")+")")
			},
			next: func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, st *ai.State) {
				if m := st.Mon("blk"); m != "" {
					e.Record(fr, in, rule("no block is dropped"), m != "open", "the next block is taken although not all of the last one was written, without a write failing and although it may fit")
				}
			},
		})
		c.Absorb(h.e)
		c.AtLeast(rule("bytes go to their place"), 1, "file writes")
		c.AtLeast(rule("no block is dropped"), 1, "blocks taken from the channel")
		c.AtLeast(rule("only completely written blocks count"), 1, "blocks counted")
	}
}
