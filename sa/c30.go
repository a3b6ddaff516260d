package main

import (
	"go/types"

	"gotitsa/ai"
)

// fileTrack numbers the output files in the order in which they are opened and
// follows which are closed: those below ghost "lo" and from ghost "hi" on.
type fileTrack struct {
	h    *harness
	fact *ai.ElemFact
}

func (h *harness) trackFiles() *fileTrack {
	ft := &fileTrack{h: h}
	ft.fact = &ai.ElemFact{Name: "fileno",
		Elem: func(t types.Type) bool { return types.TypeString(t, nil) == "*os.File" },
		Holds: func(st *ai.State, v, i *ai.Term) bool {
			return st.Truth(fnBool("isfile", v)) == 1 && st.EqInt(fnInt("fileno", v), i)
		},
		Assume: func(st *ai.State, v, i *ai.Term) {
			st.Assume(fnBool("isfile", v), true)
			st.Assume(ai.MkEq(fnInt("fileno", v), i), true)
			st.Assume(ai.MkIsNil(v), false)
		}}
	h.e.Facts = append(h.e.Facts, ft.fact)
	prev := h.e.H.After
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if prev != nil {
			prev(e, cc, x)
		}
		switch cc.Name {
		case "os.Create", "os.OpenFile":
			if x.St.Nilness(x.Res[1]) == -1 {
				return
			}
			n := x.St.Ghost("opened")
			if n == nil {
				return
			}
			c := cc.Name
			e.Record(cc.Fr, site(cc), "files are opened before any is closed", x.St.EqInt(x.St.Ghost("lo"), ai.MkInt(0)) && x.St.EqInt(x.St.Ghost("hi"), n), c+" after files were closed")
			x.St.Assume(fnBool("isfile", x.Res[0]), true)
			x.St.Assume(ai.MkEq(fnInt("fileno", x.Res[0]), n), true)
			x.St.SetGhost("opened", ai.MkAdd(n, ai.MkInt(1)))
			x.St.SetGhost("hi", ai.MkAdd(n, ai.MkInt(1)))
		case "(*os.File).Close":
			f := cc.Args[0]
			lo, hi := x.St.Ghost("lo"), x.St.Ghost("hi")
			if lo == nil || x.St.Truth(fnBool("isfile", f)) != 1 {
				return
			}
			i := fnInt("fileno", f)
			switch {
			case x.St.EqInt(i, lo):
				x.St.SetGhost("lo", ai.MkAdd(lo, ai.MkInt(1)))
			case x.St.EqInt(ai.MkAdd(i, ai.MkInt(1)), hi):
				x.St.SetGhost("hi", i)
			}
		}
	}
	return ft
}

func (ft *fileTrack) start(st *ai.State, n *ai.Term) {
	st.SetGhost("opened", n)
	st.SetGhost("hi", n)
	st.SetGhost("lo", ai.MkInt(0))
}

func (ft *fileTrack) allClosed(st *ai.State) bool {
	return st.LE(st.Ghost("hi"), st.Ghost("lo"))
}

// torrentFiles: opening a torrent closes what it opened unless it succeeds, and
// closing a torrent closes all its files.
func (c *Ctx) torrentFiles() {
	nw, cl := c.fn("pkg/torrent.New"), c.fn("pkg/torrent.Torrent.Close")
	tor := c.typ("pkg/torrent", "Torrent")
	meta := c.typ("pkg/bencode", "Metainfo")
	info := infoType(meta)
	for _, d := range dirCases() {
		h := c.newHarness(nw)
		h.e.DisjExit = 8
		ft := h.trackFiles()
		args := h.args(nw)
		h.keep(args...)
		h.st.Assume(d.cond(h.st.Field(metaInfo(h.st, args[0], meta), info, "Length")), true)
		ft.start(h.st, ai.MkInt(0))
		for _, x := range h.call(nw, args, h.st) {
			if x.St.Nilness(x.Res[1]) != -1 {
				fs := x.St.Field(x.Res[0], tor, "OsFiles")
				c.ObligeFn(x.St.All(ft.fact, fs) && x.St.EqInt(ai.MkLen(fs), x.St.Ghost("opened")), "an open torrent owns all files opened ("+d.name+")", nw, "a torrent is opened that does not hold every file that was opened for it")
				c.ObligeFn(x.St.EqInt(x.St.Ghost("lo"), ai.MkInt(0)) && x.St.EqInt(x.St.Ghost("hi"), x.St.Ghost("opened")), "the files of an open torrent are open ("+d.name+")", nw, "a torrent is opened with a closed file")
			} else {
				c.ObligeFn(ft.allClosed(x.St), "a torrent that cannot be opened leaves no file open ("+d.name+")", nw, "New fails and leaves files open: opened "+x.St.Ghost("opened").String()+", closed "+x.St.Ghost("lo").String())
			}
		}
		c.Absorb(h.e)
		c.AtLeast("a torrent that cannot be opened leaves no file open ("+d.name+")", 1, "failing returns of New")
		c.AtLeast("an open torrent owns all files opened ("+d.name+")", 1, "successful returns of New")
	}
	h := c.newHarness(cl)
	h.e.DisjExit = 8
	ft := h.trackFiles()
	t := h.torrent(h.st)
	fs := h.st.Field(t, tor, "OsFiles")
	h.st.AssumeAll(ft.fact, fs)
	ft.start(h.st, ai.MkLen(fs))
	for _, x := range h.call(cl, []*ai.Term{t}, h.st) {
		c.ObligeFn(ft.allClosed(x.St), "closing a torrent closes all its files", cl, "Close returns with files closed up to "+x.St.Ghost("lo").String()+" only")
	}
	c.Absorb(h.e)
	c.AtLeast("closing a torrent closes all its files", 1, "returns of Close")
}
