package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

const (
	tManager = "*github.com/anivanovic/gotit/pkg/download.Manager"
	tTracker = "github.com/anivanovic/gotit.Tracker"
	tStats   = "*github.com/anivanovic/gotit/pkg/stats.Stats"
)

// mgr analyses the download manager: one run of Download with everything its
// goroutines do. Trackers, peers and the writer are replaced by what their own
// checks guarantee about them. Each rule belongs to a property; only those of
// the property checked are recorded.
type mgr struct {
	h *harness
	c *Ctx

	limit, port *ai.Term // arguments of NewMng
	torrent     *ai.Term
	manager     *ai.Term
	dctx        *ai.Term // the context Stop cancels
	root        *ai.Term // the caller's context

	spawns   []*spawnInfo
	prod     map[string]bool            // wait groups of the goroutines that take part
	wwg      map[string]bool            // wait groups of the writer
	need     map[string]map[string]bool // wait group -> those to wait for before
	signal   map[*ai.Term]bool          // channels that tell the writer is finished
	poolLock map[string]bool
	inStop   bool
	loops    *progress
	observed map[loopAt]bool
	after    map[loopAt]bool
	trackers int
}

type spawnInfo struct {
	slots         map[string]bool
	kept, cleared map[string]bool
	cand          map[string]bool
	auto          string
	done          map[string]map[string]bool
	part, writes  bool
	waited        map[string]bool
	closes        bool
	ends          int
}

// slots: things a goroutine is responsible for.
var slots = []struct{ name, prop, what string }{
	{"pool", "C29", "an entry in the peer pool"},
	{"speer", "C27", "a counted peer"},
	{"strack", "C27", "a counted tracker"},
	{"track", "C30", "an open tracker"},
	{"conn", "C30", "a connected peer"},
}

func (m *mgr) rec(prop string, fr *ai.Frame, in ssa.Instruction, rule string, ok bool, note string) {
	if prop == m.c.ID {
		m.h.e.Record(fr, in, rule, ok, note)
	}
}

func slotOf(name string) (prop, what string) {
	for _, s := range slots {
		if s.name == name {
			return s.prop, s.what
		}
	}
	return "", name
}

func (m *mgr) open(name string, id *ai.Term, cc *ai.Frame, in ssa.Instruction, st *ai.State) {
	prop, what := slotOf(name)
	m.rec(prop, cc, in, "one owner for "+what, st.Mon("s:"+name) == "", what+" is made while another one is still the goroutine's responsibility")
	st.SetMon("s:"+name, "1")
	st.SetGhost("s:"+name, id)
}

func (m *mgr) shut(name string, id *ai.Term, fr *ai.Frame, in ssa.Instruction, st *ai.State, must bool) {
	prop, what := slotOf(name)
	if st.Mon("s:"+name) == "" {
		if must {
			m.rec(prop, fr, in, "given up exactly once: "+what, false, what+" is given up that this goroutine does not own (given up twice, or never made)")
		}
		return
	}
	if own := st.Ghost("s:" + name); id != nil && own != nil && own != id {
		if must {
			m.rec(prop, fr, in, "given up exactly once: "+what, false, fmt.Sprintf("%v is given up instead of %v", id, own))
		}
		return
	}
	m.rec(prop, fr, in, "given up exactly once: "+what, true, "")
	st.SetMon("s:"+name, "")
	st.SetGhost("s:"+name, nil)
}

func (m *mgr) part(cc *ai.Frame, in ssa.Instruction, st *ai.State, what string) {
	if m.inStop {
		return
	}
	st.SetMon("part", "1")
	st.SetMon("spawned", "1")
	for _, d := range st.Mons("done:") {
		m.rec("C18", cc, in, "no work after signing off", false, what+" after the goroutine signed off from "+strings.TrimPrefix(d, "done:"))
	}
	m.rec("C18", cc, in, "no work after signing off", true, "")
}

func wgKey(t *ai.Term) string { return t.String() }

func bump(st *ai.State, k string) {
	switch st.Mon(k) {
	case "":
		st.SetMon(k, "1")
	case "1":
		st.SetMon(k, "2")
	default:
		st.SetMon(k, "many")
	}
}

// useCtx: the context given must be cancelled by Stop.
func (m *mgr) useCtx(cc *ai.CallCtx, ctx *ai.Term, what string) {
	ok := m.dctx != nil && ai.CtxWithin(ctx, m.dctx)
	m.rec("C17", cc.Fr, site(cc), "context reaches "+what, ok, what+" runs with "+ctx.String()+", which is not cancelled when the download is")
}

// saw: the goroutine has looked at the context.
func saw(st *ai.State, cancelled bool) {
	if cancelled {
		st.SetMon("cancelled", "1")
		return
	}
	for _, k := range st.Mons("chk:") {
		st.SetMon(k, "seen")
	}
}

func (m *mgr) within(ctx *ai.Term) bool {
	if m.dctx != nil {
		return ai.CtxWithin(ctx, m.dctx)
	}
	return m.root != nil && ai.CtxWithin(ctx, m.root)
}

const maxWait = 5_000_000_000

// longWait: a wait without the context is short.
func (m *mgr) longWait(fr *ai.Frame, in ssa.Instruction, d *ai.Term, st *ai.State) {
	m.rec("C17", fr, in, "wait is short or ends with the context", d != nil && st.LE(d, ai.MkInt(maxWait)), fmt.Sprintf("waits %v without waiting for the cancellation", d))
}

func (m *mgr) waits() {
	e := m.h.e
	e.H.Select = func(e *ai.Engine, fr *ai.Frame, in *ssa.Select, chans []*ai.Term, st *ai.State) {
		if !in.Blocking {
			return
		}
		ok := false
		for _, ch := range chans {
			if d := ai.TimerOf(ch); d != nil && st.LE(d, ai.MkInt(maxWait)) {
				ok = true
			}
			if x := ai.IsCtxDone(ch); x != nil && m.within(x) {
				ok = true
			}
		}
		m.rec("C17", fr, in, "wait is short or ends with the context", ok, "the select neither waits for the cancellation nor is limited to a few seconds")
	}
	e.H.Selected = func(e *ai.Engine, fr *ai.Frame, in *ssa.Select, i int, chans []*ai.Term, st *ai.State) {
		for k, ch := range chans {
			if x := ai.IsCtxDone(ch); x != nil && m.within(x) {
				saw(st, k == i)
			}
		}
	}
	e.H.Recv = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch *ai.Term, st *ai.State) {
		if x := ai.IsCtxDone(ch); x != nil {
			m.rec("C17", fr, in, "wait is short or ends with the context", m.within(x), "waits for a context that is not cancelled with the download")
			return
		}
		if d := ai.TimerOf(ch); d != nil {
			m.longWait(fr, in, d, st)
		}
	}
}

// observeLoops demands that unbounded loops look at the context in every round.
func (m *mgr) observeLoops() {
	h := m.h
	m.loops = h.trackProgress()
	m.loops.local = true
	m.observed, m.after = map[loopAt]bool{}, map[loopAt]bool{}
	head, back := h.e.H.Head, h.e.H.Back
	key := func(b *ssa.BasicBlock) string { return fmt.Sprintf("chk:%s:%d", b.Parent(), b.Index) }
	h.e.H.Head = func(e *ai.Engine, fr *ai.Frame, b *ssa.BasicBlock, st *ai.State) {
		head(e, fr, b, st)
		st.SetMon(key(b), "no")
	}
	h.e.H.Back = func(e *ai.Engine, fr *ai.Frame, b *ssa.BasicBlock, st *ai.State) {
		back(e, fr, b, st)
		if e.Recording() && !st.Dead() {
			at := loopAt{fr, b}
			if v, ok := m.observed[at]; !ok || v {
				m.observed[at] = st.Mon(key(b)) == "seen"
			}
			if st.Mon("cancelled") == "1" {
				m.after[at] = true
			}
		}
		st.SetMon(key(b), "")
	}
	norm := h.e.H.Norm
	h.e.H.Norm = func(e *ai.Engine, fr *ai.Frame, st *ai.State) {
		if norm != nil {
			norm(e, fr, st)
		}
		// loops of functions that were left
		for _, k := range st.Mons("chk:") {
			live := false
			for f := fr; f != nil; f = f.Parent {
				if strings.HasPrefix(k, "chk:"+f.Fn.String()+":") {
					live = true
				}
			}
			if !live {
				st.SetMon(k, "")
			}
		}
	}
}

func (m *mgr) finishLoops() {
	if m.c.ID != "C17" {
		return
	}
	var heads []loopAt
	for b := range m.loops.loops {
		heads = append(heads, b)
	}
	sort.Slice(heads, func(i, j int) bool {
		return heads[i].head.Parent().String()+fmt.Sprint(heads[i].head.Index) < heads[j].head.Parent().String()+fmt.Sprint(heads[j].head.Index)
	})
	for _, at := range heads {
		l := m.loops.loops[at]
		bounded := len(l.ok) > 0 || rangesOver(at.head)
		in := at.head.Instrs[len(at.head.Instrs)-1]
		for _, x := range at.head.Instrs {
			if x.Pos().IsValid() {
				in = x
			}
		}
		if bounded {
			m.c.Oblige(true, "loop is bounded", in, l.fr, "")
			continue
		}
		m.c.Oblige(m.observed[at], "unbounded loop looks at the context in every round", in, l.fr, "a round of this loop can pass without looking at the context")
		m.c.Oblige(!m.after[at], "no round after the cancellation was seen", in, l.fr, "the loop can go on after it has seen that the context is cancelled")
	}
}

// nilOrErr makes the outcomes of a contract with an error as last result.
func (m *mgr) nilOrErr(cc *ai.CallCtx, st *ai.State, name string, good []*ai.Term) (ok, bad ai.Exit) {
	n := cc.Sig.Results().Len()
	bs := st.Clone()
	var br []*ai.Term
	for i := 0; i < n-1; i++ {
		br = append(br, ai.Zero(cc.Sig.Results().At(i).Type()))
	}
	br = append(br, m.h.sym(bs, name+"err", cc.Sig.Results().At(n-1).Type()))
	return ai.Exit{St: st, Res: append(good, ai.MkNil(nil))}, ai.Exit{St: bs, Res: br}
}

func argOf(cc *ai.CallCtx, want string) *ai.Term {
	ps := cc.Sig.Params()
	off := len(cc.Args) - ps.Len()
	for i := 0; i < ps.Len(); i++ {
		if types.TypeString(ps.At(i).Type(), nil) == want {
			return cc.Args[off+i]
		}
	}
	return nil
}

func isPieceChan(ch *ai.Term) bool {
	if ch.Typ == nil {
		return false
	}
	c, ok := under(ch.Typ).(*types.Chan)
	return ok && types.TypeString(c.Elem(), nil) == tMessage
}

func isPool(t *ai.Term) bool {
	if t.Typ == nil {
		return false
	}
	mt, ok := under(t.Typ).(*types.Map)
	return ok && types.TypeString(mt.Elem(), nil) == tPeer
}

// under is the type of a map or channel, also when made here.
func under(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem().Underlying()
	}
	return t.Underlying()
}

func (c *Ctx) newMgr() *mgr {
	m := &mgr{c: c, prod: map[string]bool{}, wwg: map[string]bool{}, need: map[string]map[string]bool{}, signal: map[*ai.Term]bool{}, poolLock: map[string]bool{}}
	np := c.fn("pkg/download.NewMng")
	m.h = c.newHarness(np)
	h := m.h
	h.e.CheckPanics = c.ID == "C18"
	h.e.DisjExit = 16
	if c.ID != "C17" {
		// nothing
	}
	m.waits()
	m.observeLoops()
	m.contracts()
	m.goroutines()
	m.calls()
	m.pool()
	// the manager
	args := h.args(np)
	ints := 0
	for i, p := range np.Params {
		switch {
		case types.TypeString(p.Type(), nil) == tTorrent:
			args[i] = h.torrent(h.st)
			m.torrent = args[i]
		case types.Identical(p.Type(), types.Typ[types.Int]):
			ints++
			n := strings.ToLower(p.Name())
			if strings.Contains(n, "port") || ints == 2 && m.port == nil {
				m.port = args[i]
			} else if m.limit == nil {
				m.limit = args[i]
			}
		}
	}
	h.keep(args...)
	xs := h.call(np, args, h.st)
	if len(xs) != 1 {
		panic("NewMng has several outcomes")
	}
	h.st = xs[0].St
	m.manager = xs[0].Res[0]
	h.keep(m.manager)
	return m
}

// contracts of what the manager uses.
func (m *mgr) contracts() {
	h := m.h
	apT := "net/netip.AddrPort"
	peerT := m.c.typ("pkg/peer", "Peer")
	h.contract("pkg/tracker.New", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		m.trackers++
		m.part(cc.Fr, site(cc), st, "a tracker is used")
		m.rec("C21", cc.Fr, site(cc), "each tracker has its own goroutine", st.Mon("go") == "1" && st.Mon("trk") == "", "the tracker is used in a goroutine that others depend on")
		st.SetMon("trk", "1")
		t := h.sym(st, "tracker", cc.Sig.Results().At(0).Type())
		ok, bad := m.nilOrErr(cc, st, "tracker", []*ai.Term{t})
		m.open("track", t, cc.Fr, site(cc), ok.St)
		return []ai.Exit{ok, bad}
	})
	h.contract("pkg/peer.NewPeer", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		m.part(cc.Fr, site(cc), st, "a peer is made")
		m.rec("C21", cc.Fr, site(cc), "peers come from successful announces", st.Mon("annok") == "1", "peers are used although the announce failed")
		p := h.sym(st, "peer", cc.Sig.Results().At(0).Type())
		if ap := argOf(cc, apT); ap != nil {
			if a, ft := ai.FieldAddrOf(p, peerT, "AddrPort"); a != nil {
				st.Store(a, ap, ft)
			}
		}
		return []ai.Exit{{St: st, Res: []*ai.Term{p}}}
	})
	h.contract("pkg/peer.Peer.Announce", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		m.part(cc.Fr, site(cc), st, "a peer is contacted")
		m.rec("C29", cc.Fr, site(cc), "only peers in the pool are contacted", st.Mon("s:pool") == "1" && st.Ghost("s:pool") == cc.Args[0], "a peer is contacted that was not added to the pool")
		m.rec("C12", cc.Fr, site(cc), "handshake with this torrent", argOf(cc, tTorrent) == m.torrent, "the handshake is made for another torrent")
		ok, bad := m.nilOrErr(cc, st, "peer", nil)
		m.open("conn", cc.Args[0], cc.Fr, site(cc), ok.St)
		return []ai.Exit{ok, bad}
	})
	h.contract("pkg/peer.Peer.Run", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		m.part(cc.Fr, site(cc), st, "a peer runs")
		m.rec("C12", cc.Fr, site(cc), "download only after a successful handshake", st.Mon("s:conn") == "1" && st.Ghost("s:conn") == cc.Args[0], "the download loop of a peer is started without a successful handshake")
		m.rec("C29", cc.Fr, site(cc), "only peers in the pool run", st.Mon("s:pool") == "1" && st.Ghost("s:pool") == cc.Args[0], "a peer runs that is not in the pool (anymore)")
		m.rec("C21", cc.Fr, site(cc), "peers do not hold up trackers", st.Mon("trk") == "", "the peer runs in the goroutine of the tracker")
		if x := argOf(cc, "context.Context"); x != nil {
			m.useCtx(cc, x, "peer")
		}
		var res []*ai.Term
		for i := 0; i < cc.Sig.Results().Len(); i++ {
			res = append(res, h.e.Reuse(st, "run", cc.Sig.Results().At(i).Type(), true))
		}
		return []ai.Exit{{St: st, Res: res}}
	})
	h.contract("pkg/peer.Peer.Close", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		if m.inStop {
			ok := true
			for w := range m.prod {
				ok = ok && st.Mon("waited:"+w) != ""
			}
			m.rec("C18", cc.Fr, site(cc), "stop waits before it closes the peers", ok, "a peer's connection is closed while goroutines may still use it")
		} else {
			m.shut("conn", cc.Args[0], cc.Fr, site(cc), st, false)
		}
		if cc.Sig.Results().Len() == 0 {
			return []ai.Exit{{St: st}}
		}
		ok, bad := m.nilOrErr(cc, st, "close", nil)
		return []ai.Exit{ok, bad}
	})
	h.contract("pkg/torrent.Torrent.WritePiece", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
		ch := cc.Args[1]
		for _, a := range cc.Args {
			if isPieceChan(a) {
				ch = a
			}
		}
		m.rec("C18", cc.Fr, site(cc), "one writer", st.Mon("wrote") == "", "the writer is started twice")
		m.rec("C18", cc.Fr, site(cc), "the writer writes this torrent", cc.Args[0] == m.torrent, "another torrent is written")
		if st.Mon("go") == "" {
			m.rec("C18", cc.Fr, site(cc), "somebody closes the channel", st.Mon("closed") != "", "the writer runs in the download's goroutine before the channel is closed")
		}
		_ = ch
		st.SetMon("wrote", "1")
		var res []*ai.Term
		for i := 0; i < cc.Sig.Results().Len(); i++ {
			res = append(res, h.e.Reuse(st, "writer", cc.Sig.Results().At(i).Type(), true))
		}
		return []ai.Exit{{St: st, Res: res}}
	})
	stat := func(name string, f func(cc *ai.CallCtx, st *ai.State)) {
		h.contract("pkg/stats.Stats."+name, func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
			f(cc, st)
			return []ai.Exit{{St: st}}
		})
	}
	stat("AddPeer", func(cc *ai.CallCtx, st *ai.State) { m.open("speer", nil, cc.Fr, site(cc), st) })
	stat("RemovePeer", func(cc *ai.CallCtx, st *ai.State) { m.shut("speer", nil, cc.Fr, site(cc), st, true) })
	stat("AddTracker", func(cc *ai.CallCtx, st *ai.State) {
		m.rec("C27", cc.Fr, site(cc), "counted trackers exist", st.Mon("s:track") == "1", "a tracker is counted that could not be made")
		m.open("strack", nil, cc.Fr, site(cc), st)
	})
	stat("RemoveTracker", func(cc *ai.CallCtx, st *ai.State) { m.shut("strack", nil, cc.Fr, site(cc), st, true) })
	for _, n := range []string{"Download", "Upload", "Left"} {
		n := n
		h.contract("pkg/stats.Stats."+n, func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
			v := h.sym(st, n, cc.Sig.Results().At(0).Type())
			st.SetGhost("stat:"+n, v)
			return []ai.Exit{{St: st, Res: []*ai.Term{v}}}
		})
	}
	if m.c.P.Func("pkg/stats.ProgressPrinter.Print") != nil {
		h.contract("pkg/stats.ProgressPrinter.Print", func(cc *ai.CallCtx, st *ai.State) []ai.Exit { return []ai.Exit{{St: st}} })
	}
	if m.c.P.Func("pkg/stats.ProgressPrinter.Close") != nil {
		h.contract("pkg/stats.ProgressPrinter.Close", func(cc *ai.CallCtx, st *ai.State) []ai.Exit {
			m.rec("C18", cc.Fr, site(cc), "progress display is closed at most once", st.Mon("display") == "", "the progress display is closed again")
			st.SetMon("display", "closed")
			if m.inStop {
				ok := true
				for w := range m.prod {
					ok = ok && st.Mon("waited:"+w) != ""
				}
				m.rec("C18", cc.Fr, site(cc), "stop waits before it closes the display", ok, "the progress display is closed while goroutines still run")
			}
			return []ai.Exit{{St: st}}
		})
	}
}

func isTrackerMethod(cc *ai.CallCtx) string {
	p := "(" + tTracker + ")."
	if strings.HasPrefix(cc.Name, p) {
		return strings.TrimPrefix(cc.Name, p)
	}
	return ""
}

func (m *mgr) calls() {
	h := m.h
	prev, prevAfter := h.e.H.Call, h.e.H.After
	announceT := m.c.typ("", "AnnounceData")
	torT := m.c.typ("pkg/torrent", "Torrent")
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		fr, in := cc.Fr, site(cc)
		switch isTrackerMethod(cc) {
		case "Announce":
			m.part(fr, in, st, "a tracker is used")
			m.rec("C30", fr, in, "trackers are used while open", st.Mon("s:track") == "1" && st.Ghost("s:track") == cc.Args[0], "a closed tracker is used")
			if x := argOf(cc, "context.Context"); x != nil {
				m.useCtx(cc, x, "announce")
			}
			if st.Mon("retry") != "" {
				m.rec("C22", fr, in, "retries are limited and delayed", st.Mon("retry") == "ok", "the announce is retried without limit or delay: "+st.Mon("retry"))
			}
			m.rec("C22", fr, in, "the interval passes between announce rounds", st.Mon("round") == "", "another announce is made without waiting the tracker's interval")
			if st.Mon("retry") == "" {
				st.SetMon("round", "1")
			} else {
				st.SetMon("inround", "1")
			}
			if hs := argOf(cc, "string"); hs != nil {
				m.rec("C19", fr, in, "announce carries the info-hash", st.Same(st.Content(hs), st.Content(st.Field(m.torrent, torT, "Hash"))), "the announce is made for "+st.Content(hs).String())
			}
			data := argOf(cc, "*github.com/anivanovic/gotit.AnnounceData")
			if data == nil {
				m.rec("C19", fr, in, "announce carries the counters", false, "no counters are passed")
			} else {
				for f, s := range map[string]string{"Downloaded": "Download", "Uploaded": "Upload", "Left": "Left"} {
					v, g := st.Field(data, announceT, f), st.Ghost("stat:"+s)
					m.rec("C19", fr, in, "announce carries the counters", v != nil && g != nil && st.EqInt(v, g), f+" of the announce is "+fmt.Sprint(v)+", not the current counter")
				}
				v := st.Field(data, announceT, "Port")
				m.rec("C19", fr, in, "announce carries the listening port", v != nil && st.EqInt(v, m.port), "Port of the announce is "+fmt.Sprint(v)+", not the configured port")
			}
			ips := h.sym(st, "ips", cc.Sig.Results().At(0).Type())
			ok, bad := m.nilOrErr(cc, st, "announce", []*ai.Term{ips})
			ok.St.SetMon("annok", "1")
			bad.St.SetMon("annok", "0")
			for _, n := range []string{"Download", "Upload", "Left"} {
				bad.St.SetGhost("stat:"+n, nil) // the next attempt comes later
			}
			return []ai.Exit{ok, bad}, true
		case "WaitInterval":
			m.part(fr, in, st, "a tracker is used")
			if x := argOf(cc, "context.Context"); x != nil {
				m.useCtx(cc, x, "interval")
			}
			ok, bad := m.nilOrErr(cc, st, "wait", nil)
			saw(ok.St, false)
			ok.St.SetMon("round", "")
			ok.St.SetMon("annok", "")
			for _, n := range []string{"Download", "Upload", "Left"} {
				ok.St.SetGhost("stat:"+n, nil)
			}
			saw(bad.St, true)
			return []ai.Exit{ok, bad}, true
		case "Close":
			m.rec("C21", fr, in, "a tracker is given up only when cancelled", st.Mon("cancelled") == "1", "the tracker is closed although the download was not cancelled")
			m.shut("track", cc.Args[0], fr, in, st, true)
			ok, bad := m.nilOrErr(cc, st, "close", nil)
			return []ai.Exit{ok, bad}, true
		case "Url":
			return []ai.Exit{{St: st, Res: []*ai.Term{h.sym(st, "url", types.Typ[types.String])}}}, true
		}
		switch cc.Name {
		case "errors.Is":
			if strings.Contains(cc.Args[1].String(), "context.Canceled") && st.Nilness(cc.Args[0]) != 1 {
				no := st.Clone()
				saw(st, true)
				return []ai.Exit{{St: st, Res: []*ai.Term{ai.MkBool(true)}}, {St: no, Res: []*ai.Term{ai.MkBool(false)}}}, true
			}
		case "os.Exit":
			m.rec("C21", fr, in, "failures do not end the program", false, "the program ends here")
		case "time.Sleep":
			m.longWait(fr, in, cc.Args[0], st)
		case "(*sync.WaitGroup).Add":
			k := wgKey(cc.Args[0])
			n, ok := cc.Args[1].Int64()
			switch {
			case ok && n == -1:
				bump(st, "done:"+k)
			case ok && n <= 0:
			case ok:
				m.addTo(fr, in, st, k)
				for ; n > 0; n-- {
					bump(st, "add:"+k)
				}
			default:
				m.addTo(fr, in, st, k)
				st.SetMon("add:"+k, "var")
			}
		case "(*sync.WaitGroup).Done":
			bump(st, "done:"+wgKey(cc.Args[0]))
		case "(*sync.WaitGroup).Go":
			m.addTo(fr, in, st, wgKey(cc.Args[0]))
		case "(*sync.WaitGroup).Wait":
			k := wgKey(cc.Args[0])
			m.rec("C18", fr, in, "no lock is held while waiting", len(st.Locks()) == 0, "waits for goroutines while holding a lock they need")
			m.rec("C18", fr, in, "no goroutine waits for itself", st.Mon("cand:"+k) == "" || st.Mon("done:"+k) != "", "the goroutine waits for a group it is itself part of")
			if !m.inStop {
				m.rec("C18", fr, in, "everything added is started", st.Mon("add:"+k) == "" || st.Mon("add:"+k) == "var", "the group is waited for although an addition has no goroutine")
				for w := range m.need[k] {
					if w != k {
						m.rec("C18", fr, in, "groups are waited for in order", st.Mon("waited:"+w) != "", "goroutines of "+w+" may still add to this group")
					}
				}
			} else {
				m.rec("C18", fr, in, "stop cancels before it waits", st.Mon("started") == "" || st.Mon("stopcancel") == "1", "stop waits without having cancelled the download")
			}
			st.SetMon("waited:"+k, "1")
			if m.wwg[k] {
				m.drained(fr, in, st)
			}
		case "context.CancelFunc":
			if m.dctx != nil && cc.Args[0] == m.dctx {
				st.SetMon("stopcancel", "1")
			}
		}
		if strings.HasPrefix(cc.Name, "github.com/avast/retry-go") && strings.HasSuffix(cc.Name, ".Do") && len(cc.Args) == 2 {
			opts := st.RetryOpts(cc, cc.Args[1], e)
			if x := opts["Context"]; x != nil && len(x.Args) > 0 {
				m.useCtx(cc, x.Args[0], "retries")
			} else {
				m.rec("C17", fr, in, "context reaches retries", false, "the retries go on when the download is cancelled")
			}
			why := "ok"
			if a := opts["Attempts"]; a != nil && !(st.LE(ai.MkInt(1), a.Args[0]) && st.LE(a.Args[0], ai.MkInt(20))) {
				why = "the number of attempts is not limited"
			}
			if d := opts["Delay"]; d != nil && !st.LE(ai.MkInt(100_000_000), d.Args[0]) {
				why = "less than 100 ms between attempts"
			}
			st.SetMon("retry", why)
		}
		if strings.HasPrefix(cc.Name, "(*go.uber.org/zap") && (strings.HasSuffix(cc.Method(), "Fatal") || strings.HasPrefix(cc.Method(), "Fatal") || strings.HasPrefix(cc.Method(), "Panic")) || strings.HasPrefix(cc.Name, "log.Fatal") || strings.HasPrefix(cc.Name, "log.Panic") {
			m.rec("C21", fr, in, "failures do not end the program", false, cc.Name+" ends the program")
		}
		if prev != nil {
			return prev(e, cc, st)
		}
		return nil, false
	}
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if prevAfter != nil {
			prevAfter(e, cc, x)
		}
		switch cc.Name {
		case "(context.Context).Err", "context.Cause":
			if m.within(cc.Args[0]) {
				saw(x.St, x.St.Nilness(x.Res[0]) == -1)
			}
		}
		if strings.HasPrefix(cc.Name, "github.com/avast/retry-go") && strings.HasSuffix(cc.Name, ".Do") && len(cc.Args) == 2 {
			x.St.SetMon("retry", "")
			if x.St.Mon("inround") != "" {
				x.St.SetMon("round", "1")
				x.St.SetMon("inround", "")
			}
			if x.St.Nilness(x.Res[0]) == -1 && x.St.Mon("annok") == "" {
				x.St.SetMon("annok", "0")
			}
		}
	}
	h.e.H.Store = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr, val *ai.Term, st *ai.State) {
		if x := ai.CancelOf(val); x != nil && strings.Contains(addr.String(), m.manager.String()) {
			m.dctx = x
			if m.root != nil {
				m.rec("C17", fr, in, "the caller's cancellation is passed on", ai.CtxWithin(x, m.root), "the download's context does not derive from the caller's")
			}
		}
	}
}

func (m *mgr) addTo(fr *ai.Frame, in ssa.Instruction, st *ai.State, k string) {
	m.rec("C18", fr, in, "registration precedes waiting", st.Mon("waited:"+k) == "" && st.Mon("done:"+k) == "", "a goroutine is added to a group after it was waited for or signed off from")
}

func (m *mgr) drained(fr *ai.Frame, in ssa.Instruction, st *ai.State) {
	m.rec("C18", fr, in, "somebody closes the channel", st.Mon("closed") != "", "the writer is waited for but its channel is not closed: this never ends")
	st.SetMon("drained", "1")
}

func (m *mgr) goroutines() {
	e := m.h.e
	e.H.GoStart = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, st, g *ai.State) {
		si := &spawnInfo{slots: map[string]bool{}, kept: map[string]bool{}, cleared: map[string]bool{}, cand: map[string]bool{}, done: map[string]map[string]bool{}, waited: map[string]bool{}}
		for _, s := range slots {
			if st.Mon("s:"+s.name) != "" {
				si.slots[s.name] = true
				g.SetMon("s:"+s.name, st.Mon("s:"+s.name))
				g.SetGhost("s:"+s.name, st.Ghost("s:"+s.name))
			}
		}
		for _, k := range st.Mons("add:") {
			w := strings.TrimPrefix(k, "add:")
			si.cand[w] = true
			g.SetMon("cand:"+w, "1")
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			if f := ci.Common().StaticCallee(); f != nil && ai.FnName(f) == "(*sync.WaitGroup).Go" {
				si.auto = "?"
				for _, a := range ci.Common().Args[:1] {
					if t := st.Value(a); t != nil {
						si.auto = wgKey(t)
						si.cand[si.auto] = true
						g.SetMon("cand:"+si.auto, "1")
					}
				}
			}
		}
		m.spawns = append(m.spawns, si)
	}
	e.H.GoEnd = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, x ai.Exit) {
		si := m.spawns[len(m.spawns)-1]
		si.ends++
		st := x.St
		for _, s := range slots {
			has := st.Mon("s:"+s.name) != ""
			switch {
			case si.slots[s.name] && has:
				si.kept[s.name] = true
			case si.slots[s.name]:
				si.cleared[s.name] = true
			default:
				m.rec(s.prop, fr, in, "given up at the end: "+s.what, !has, "the goroutine can end without giving up "+s.what)
			}
		}
		if si.auto != "" {
			bump(st, "done:"+si.auto)
		}
		seen := map[string]bool{}
		for _, k := range st.Mons("done:") {
			w := strings.TrimPrefix(k, "done:")
			seen[w] = true
			if si.done[w] == nil {
				si.done[w] = map[string]bool{}
				if si.ends > 1 {
					si.done[w]["0"] = true
				}
			}
			si.done[w][st.Mon(k)] = true
			m.rec("C18", fr, in, "sign off exactly once", st.Mon(k) == "1" && si.cand[w], "the goroutine signs off from "+w+" "+st.Mon(k)+" times, registered before it started: "+fmt.Sprint(si.cand[w]))
		}
		for w := range si.done {
			if !seen[w] {
				si.done[w]["0"] = true
			}
		}
		for _, k := range st.Mons("add:") {
			m.rec("C18", fr, in, "everything added is started", st.Mon(k) == "var", "the goroutine ends although an addition to "+strings.TrimPrefix(k, "add:")+" has no goroutine")
		}
		if st.Mon("part") != "" {
			si.part = true
		}
		if st.Mon("wrote") != "" {
			si.writes = true
			for w, n := range si.done {
				if n["1"] {
					m.wwg[w] = true
				}
			}
		}
		if st.Mon("closed") != "" {
			si.closes = true
		}
		for _, k := range st.Mons("waited:") {
			si.waited[k] = true
		}
	}
	e.H.Gone = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, st *ai.State) {
		si := m.spawns[len(m.spawns)-1]
		m.spawns = m.spawns[:len(m.spawns)-1]
		st.SetMon("spawned", "1")
		for _, s := range slots {
			if !si.slots[s.name] {
				continue
			}
			if si.cleared[s.name] {
				m.rec(s.prop, fr, in, "given up at the end: "+s.what, !si.kept[s.name], "the goroutine gives up "+s.what+" on some of its ends only")
				st.SetMon("s:"+s.name, "")
				st.SetGhost("s:"+s.name, nil)
			}
		}
		reg := false
		for w, n := range si.done {
			if n["1"] && len(n) == 1 && si.cand[w] {
				reg = true
				if si.part {
					m.prod[w] = true
					if m.need[w] == nil {
						m.need[w] = map[string]bool{}
					}
					for _, k := range st.Mons("cand:") {
						m.need[w][strings.TrimPrefix(k, "cand:")] = true
					}
				}
			} else {
				m.rec("C18", fr, in, "sign off on every path", false, "the goroutine does not sign off from "+w+" on every path")
			}
			// the addition is used up
			switch st.Mon("add:" + w) {
			case "1":
				st.SetMon("add:"+w, "")
			case "2":
				st.SetMon("add:"+w, "1")
			}
		}
		if si.part {
			m.rec("C18", fr, in, "participant is registered", reg, "the goroutine takes part in the download but nothing waits for it (it must be added before it starts and sign off)")
			m.rec("C18", fr, in, "no participant after the close", st.Mon("closed") == "", "a goroutine that may send is started after the channel was closed")
		}
		if si.closes {
			m.rec("C18", fr, in, "channel is closed once", st.Mon("closed") == "", "the channel is closed by several goroutines")
			st.SetMon("closed", "1")
		}
		for k := range si.waited {
			st.SetMon(k, "1")
		}
	}
	e.H.Close = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch *ai.Term, st *ai.State) {
		if isPieceChan(ch) {
			m.rec("C18", fr, in, "channel is closed once", st.Mon("closed") == "", "the channel to the writer can be closed twice")
			ok := len(m.prod) > 0
			for w := range m.prod {
				ok = ok && st.Mon("waited:"+w) != ""
			}
			m.rec("C18", fr, in, "channel is closed after all senders finished", ok, "the channel is closed while goroutines that send on it may still run")
			for w := range m.wwg {
				m.rec("C18", fr, in, "the writer is not waited for before the close", st.Mon("waited:"+w) == "", "the writer is waited for before its channel is closed: this never ends")
			}
			st.SetMon("closed", "1")
			return
		}
		m.signalled(ch, st)
	}
	e.H.Send = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch, val *ai.Term, st *ai.State) {
		if isPieceChan(ch) {
			m.part(fr, in, st, "a piece is sent")
			return
		}
		m.signalled(ch, st)
	}
	e.H.Received = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch, val *ai.Term, ok bool, st *ai.State) {
		if x := ai.IsCtxDone(ch); x != nil && m.within(x) {
			saw(st, true)
		}
		if m.signal[ch] {
			m.drained(fr, in, st)
		}
	}
	sel := e.H.Selected
	e.H.Selected = func(e *ai.Engine, fr *ai.Frame, in *ssa.Select, i int, chans []*ai.Term, st *ai.State) {
		sel(e, fr, in, i, chans, st)
		if i >= 0 && m.signal[chans[i]] {
			m.drained(fr, in, st)
		}
	}
}

// signalled: a channel is used to tell that the writer is finished.
func (m *mgr) signalled(ch *ai.Term, st *ai.State) {
	if v, ok := m.signal[ch]; ok && !v {
		return
	}
	m.signal[ch] = st.Mon("wrote") == "1"
}

// pool: the peers' map.
func (m *mgr) pool() {
	h := m.h
	peerT := m.c.typ("pkg/peer", "Peer")
	mt := m.c.typ("pkg/download", "Manager")
	lockRule := func(fr *ai.Frame, in ssa.Instruction, st *ai.State) {
		ls := st.Locks()
		m.rec("C29", fr, in, "pool is changed under its lock", len(ls) > 0, "the pool is changed without a lock")
	}
	isKey := func(k, p *ai.Term, st *ai.State) bool {
		ap := st.Field(p, peerT, "AddrPort")
		if ap == nil || k == nil {
			return false
		}
		if k == ap {
			return true
		}
		return k.Op == "fn" && strings.HasPrefix(k.Aux, "(net/netip.AddrPort).String") && len(k.Args) == 1 && k.Args[0] == ap
	}
	h.e.H.MapUpd = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, mp, k, v *ai.Term, st *ai.State) {
		if !isPool(mp) {
			return
		}
		lockRule(fr, in, st)
		old, has := st.MapGet(mp, k, under(mp.Typ).(*types.Map).Elem())
		absent := st.Truth(has) == -1 || st.Nilness(old) == 1
		m.rec("C29", fr, in, "an address is added once", absent, "a peer is added although its address may already be in the pool")
		m.rec("C29", fr, in, "the pool stays within the limit", st.LT(st.MapLen(mp), m.limit), "a peer is added although the pool may be full")
		m.rec("C29", fr, in, "peers are known by their address", isKey(k, v, st), "the key "+k.String()+" is not the peer's address")
		m.open("pool", v, fr, in, st)
	}
	h.e.H.MapDel = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, mp, k *ai.Term, st *ai.State) {
		if mp.Op != "nil" && !isPool(mp) {
			return
		}
		lockRule(fr, in, st)
		if k == nil { // all of them
			if !m.inStop {
				m.rec("C29", fr, in, "peers are known by their address", false, "peers that still run are removed")
			}
			return
		}
		p := st.Ghost("s:pool")
		if p == nil {
			m.shut("pool", nil, fr, in, st, true)
			return
		}
		m.rec("C29", fr, in, "peers are known by their address", isKey(k, p, st), "the key "+k.String()+" is not the address of the peer that ends")
		m.shut("pool", p, fr, in, st, true)
	}
	u := mt.Underlying().(*types.Struct)
	stable := true
	for _, fn := range m.c.P.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa).owner == types.TypeString(mt, nil) {
						if x, ok := s.Val.Type().Underlying().(*types.Map); ok && types.TypeString(x.Elem(), nil) == tPeer {
							k, isConst := s.Val.(*ssa.Const)
							if fn.Name() != "NewMng" && !(isConst && k.IsNil()) {
								stable = false
							}
						}
					}
				}
			}
		}
	}
	h.e.OnLock = func(e *ai.Engine, mu *ai.Term, st *ai.State) {
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			x, ok := ft.Underlying().(*types.Map)
			if !ok || types.TypeString(x.Elem(), nil) != tPeer {
				continue
			}
			fa := ai.FieldAddr(m.manager, u, i)
			if stable && st.Load(fa, ft).Op == "nil" {
				continue // nobody makes a new one
			}
			st.Store(fa, ai.MkSym("forgotten", ft), ft)
			st.Store(fa, h.e.Reuse(st, "pool", ft, true), ft)
		}
	}
}

// download runs Download.
func (m *mgr) download() []ai.Exit {
	fn := m.c.fn("pkg/download.Manager.Download")
	args := m.h.bind(fn, map[string]*ai.Term{tManager: m.manager})
	for i, p := range fn.Params {
		if types.TypeString(p.Type(), nil) == "context.Context" {
			m.root = args[i]
		}
	}
	m.h.keep(args...)
	xs := m.h.call(fn, args, m.h.st)
	m.c.ObligeFn(m.dctx != nil, "the download can be cancelled", fn, "the cancel function of the download's context is not kept by the manager")
	for _, x := range xs {
		if m.c.ID == "C18" {
			m.c.ObligeFn(x.St.Mon("spawned") == "" || x.St.Mon("drained") != "", "the download ends after the writer", fn, "Download returns before the writer has written everything")
			for _, k := range x.St.Mons("add:") {
				m.c.ObligeFn(x.St.Mon(k) == "var", "everything added is started", fn, "an addition has no goroutine")
			}
		}
	}
	return xs
}

func (c *Ctx) runGate() {
	m := c.newMgr()
	m.download()
	c.Absorb(m.h.e)
	c.AtLeast("download only after a successful handshake", 1, "starts of the download loop")
}

// stop runs Stop twice, before and after the start of the download.
func (m *mgr) stop(runs []ai.Exit) {
	fn := m.c.fn("pkg/download.Manager.Stop")
	m.inStop = true
	defer func() { m.inStop = false }()
	twice := func(st *ai.State, started bool) {
		st = st.Clone()
		st.ClearMons()
		if started {
			st.SetMon("started", "1")
		}
		args := m.h.bind(fn, map[string]*ai.Term{tManager: m.manager})
		for _, x := range m.h.call(fn, args, st) {
			if started {
				m.stopped(fn, x)
			}
			x.St.SetMon("stopcancel", "")
			for _, k := range x.St.Mons("waited:") {
				x.St.SetMon(k, "")
			}
			for _, y := range m.h.call(fn, args, x.St) {
				if started {
					m.stopped(fn, y)
				}
			}
		}
	}
	twice(m.h.st, false)
	for _, x := range runs {
		twice(x.St, true)
	}
}

func (m *mgr) stopped(fn *ssa.Function, x ai.Exit) {
	if m.c.ID == "C18" {
		ok := true
		for w := range m.prod {
			ok = ok && x.St.Mon("waited:"+w) != ""
		}
		m.c.ObligeFn(ok, "stop waits for the goroutines", fn, "Stop returns while goroutines of the download may still run")
		m.c.ObligeFn(len(x.St.Locks()) == 0, "stop releases its locks", fn, "Stop returns with a lock held")
	}
	if m.c.ID == "C17" || m.c.ID == "C18" {
		m.c.ObligeFn(x.St.Mon("stopcancel") == "1", "stop cancels the download", fn, "Stop returns without cancelling the download")
	}
}
