package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

// trk analyses the trackers New makes.
type trk struct {
	h *harness
	c *Ctx
	m *mgr // context rules

	ctx, hash, data *ai.Term
	drawn           map[*ai.Term]bool
	running         bool
	before          *ai.State
	start           func(r trkRun)
}

// trkRun is a tracker in any state it can be in before an announce.
type trkRun struct {
	kind string // "udp" or "http"
	typ  types.Type
	p    *ai.Term // pointer to the tracker
	st   *ai.State
	addr *ai.Term
}

func (t *trk) rec(prop string, fr *ai.Frame, in ssa.Instruction, rule string, ok bool, note string) {
	if prop == t.c.ID {
		t.h.e.Record(fr, in, rule, ok, note)
	}
}

func (t *trk) oblige(prop string, ok bool, rule string, fn *ssa.Function, note string) {
	if prop == t.c.ID {
		t.c.ObligeFn(ok, rule, fn, note)
	}
}

func (c *Ctx) newTrk() *trk {
	fn := c.fn("pkg/tracker.New")
	t := &trk{c: c, h: c.newHarness(fn), drawn: map[*ai.Term]bool{}}
	t.h.e.DisjExit, t.h.e.Disj = 16, 4
	t.h.e.CheckPanics = c.ID == "C04"
	t.m = &mgr{h: t.h, c: c}
	t.m.waits()
	t.m.observeLoops()
	t.hooks()
	return t
}

// readContent is what a read delivered.
func readContent(cc *ai.CallCtx, x ai.Exit) *ai.Term {
	return x.St.Csub(x.St.Content(cc.Args[1]), ai.MkInt(0), x.Res[0])
}

func (t *trk) hooks() {
	h := t.h
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		if !t.running {
			return nil, false
		}
		fr, in := cc.Fr, site(cc)
		switch cc.Name {
		case "github.com/anivanovic/gotit/pkg/bencode.Unmarshal":
			return t.unmarshal(cc, st), true
		case "github.com/anivanovic/gotit/pkg/bencode.Parse":
			// decided by C03: a value or an error
			bad := st.Clone()
			rs := cc.Sig.Results()
			return []ai.Exit{{St: st, Res: []*ai.Term{h.sym(st, "decoded", rs.At(0).Type()), ai.MkNil(nil)}},
				{St: bad, Res: []*ai.Term{ai.MkNil(nil), h.sym(bad, "parseerr", rs.At(1).Type())}}}, true
		case "(net/url.Values).Set", "(net/url.Values).Add":
			if cc.Args[1].Op == "str" {
				k := "q:" + cc.Args[1].Aux
				if strings.HasSuffix(cc.Name, "Add") && st.Ghost(k) != nil {
					st.SetGhost(k, ai.MkStr("(given twice)"))
				} else {
					st.SetGhost(k, st.Content(cc.Args[2]))
				}
			}
		case "(net/url.Values).Del":
			if cc.Args[1].Op == "str" {
				st.SetGhost("q:"+cc.Args[1].Aux, nil)
			}
		case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
			if cc.Args[1].Op == "str" && cc.Args[1].Aux == "?" || st.Is(cc.Args[1], '?') {
				if st.Mon("hasq") != "" {
					return []ai.Exit{{St: st, Res: []*ai.Term{ai.MkBool(st.Mon("hasq") == "yes")}}}, true
				}
				no := st.Clone()
				no.SetMon("hasq", "no")
				st.SetMon("hasq", "yes")
				return []ai.Exit{{St: st, Res: []*ai.Term{ai.MkBool(true)}}, {St: no, Res: []*ai.Term{ai.MkBool(false)}}}, true
			}
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny":
			if cc.Args[1].Op == "str" && cc.Args[1].Aux == "?" || st.Is(cc.Args[1], '?') {
				no := st.Clone()
				no.SetMon("hasq", "no")
				st.SetMon("hasq", "yes")
				i := h.sym(st, "at", types.Typ[types.Int])
				st.Assume(ai.MkGE(i, ai.MkInt(0)), true)
				return []ai.Exit{{St: st, Res: []*ai.Term{i}}, {St: no, Res: []*ai.Term{ai.MkInt(-1)}}}, true
			}
		case "net/http.NewRequestWithContext", "net/http.NewRequest":
			url := cc.Args[len(cc.Args)-2]
			ok := cc.Name == "net/http.NewRequestWithContext" && ai.CtxWithin(cc.Args[0], t.ctx)
			t.rec("C17", fr, in, "context reaches HTTP request", ok, "the request does not end when the download is cancelled")
			t.query(fr, in, st, st.Content(url))
		case "(*net/http.Client).Do", "(*net/http.Client).Get":
			var d *ai.Term
			if pt, ok := cc.Sig.Recv().Type().(*types.Pointer); ok {
				d = st.Field(cc.Args[0], pt.Elem(), "Timeout")
			}
			t.rec("C16", fr, in, "HTTP requests have a timeout of at most a minute", withinMinute(st, d), fmt.Sprintf("the HTTP client's timeout is %v", d))
			if strings.HasSuffix(cc.Name, "Get") {
				t.rec("C17", fr, in, "context reaches HTTP request", false, "the request does not end when the download is cancelled")
			} else {
				t.rec("C17", fr, in, "context reaches HTTP request", st.Ghost("request") != nil && st.Ghost("request") == cc.Args[1], "the request is not one made with the context")
			}
			t.rec("C30", fr, in, "one response at a time", st.Mon("body") != "open", "another request is made while a response body is still open")
		case "net/http.Get", "net/http.Post":
			t.rec("C16", fr, in, "HTTP requests have a timeout of at most a minute", false, "the default client has no timeout")
			t.rec("C17", fr, in, "context reaches HTTP request", false, "the request does not end when the download is cancelled")
		case "os.Exit":
			t.rec("C21", fr, in, "failures do not end the program", false, "the program ends here")
		case "time.Sleep":
			t.m.longWait(fr, in, cc.Args[0], st)
		}
		if strings.Contains(cc.Name, "zap") && (strings.HasPrefix(cc.Method(), "Fatal") || strings.HasPrefix(cc.Method(), "Panic")) || strings.HasPrefix(cc.Name, "log.Fatal") || strings.HasPrefix(cc.Name, "log.Panic") {
			t.rec("C21", fr, in, "failures do not end the program", false, cc.Name+" ends the program")
		}
		if cc.IsConnOp("Write") {
			t.sending(fr, in, st, st.Content(cc.Args[1]))
		}
		return nil, false
	}
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		st := x.St
		switch {
		case isDial(cc) && st.Nilness(x.Res[1]) != -1:
			st.SetMon("conn", "open")
			st.SetGhost("conn", ai.ReaderOf(x.Res[0]))
		case cc.IsConnOp("Close") || strings.HasSuffix(cc.Name, "(io.ReadCloser).Close"):
			if g := st.Ghost("conn"); g != nil && ai.ReaderOf(cc.Args[0]) == g {
				st.SetMon("conn", "closed")
			}
			if g := st.Ghost("body"); g != nil && ai.ReaderOf(cc.Args[0]) == g {
				st.SetMon("body", "closed")
			}
		}
		if !t.running {
			return
		}
		failed := len(x.Res) > 0 && st.Nilness(x.Res[len(x.Res)-1]) == -1
		switch {
		case cc.IsConnOp("Write"):
			if failed {
				st.SetMon("fail", "a packet could not be sent")
				return
			}
			bump(st, "writes")
			st.SetGhost("w:"+st.Mon("writes"), st.Content(cc.Args[1]))
		case cc.IsConnOp("Read"):
			if failed {
				st.SetMon("fail", "an answer could not be received")
				return
			}
			bump(st, "reads")
			st.SetGhost("d:"+st.Mon("reads"), readContent(cc, x))
		case cc.Name == "io.ReadAll" || cc.Name == "io.ReadFull":
			if failed {
				st.SetMon("fail", "the answer could not be received")
			} else {
				st.SetMon("got", "1")
				st.SetGhost("got", ai.Clen(st.Content(x.Res[0])))
			}
		case cc.Name == "net/http.NewRequestWithContext" || cc.Name == "net/http.NewRequest":
			if failed {
				st.SetMon("fail", "the request could not be made")
			} else {
				st.SetGhost("request", x.Res[0])
			}
		case strings.HasPrefix(cc.Name, "(*net/http.Client).") || cc.Name == "net/http.Get":
			if failed {
				st.SetMon("fail", "the request failed")
				return
			}
			rt := cc.Sig.Results().At(0).Type().(*types.Pointer).Elem()
			st.SetGhost("resp", x.Res[0])
			st.SetGhost("status", st.Field(x.Res[0], rt, "StatusCode"))
			st.SetGhost("body", ai.ReaderOf(st.Field(x.Res[0], rt, "Body")))
			st.SetMon("body", "open")
		case strings.HasPrefix(cc.Name, "math/rand") || strings.HasPrefix(cc.Name, "(*math/rand"):
			for _, r := range x.Res {
				t.drawn[r] = true
			}
		case cc.Name == "(context.Context).Err":
			if t.ctx != nil && ai.CtxWithin(cc.Args[0], t.ctx) {
				saw(st, failed)
			}
		}
	}
	h.e.H.MapUpd = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, m, k, v *ai.Term, st *ai.State) {
		if m.Typ == nil {
			return
		}
		mt, ok := under(m.Typ).(*types.Map)
		if !ok || types.TypeString(mt.Elem(), nil) != "[]string" || k.Op != "str" {
			return
		}
		o, off, ln, _ := ai.SliceParts(v)
		if st.Is(ln, 1) {
			el := mt.Elem().(*types.Slice).Elem()
			st.SetGhost("q:"+k.Aux, st.Content(st.Load(ai.IndexAddr(o, off, el), el)))
		}
	}
}

// unmarshal is the contract of decoding: the target's fields are unknown.
func (t *trk) unmarshal(cc *ai.CallCtx, st *ai.State) []ai.Exit {
	bad := st.Clone()
	bad.SetMon("fail", "the answer could not be decoded")
	target := cc.Args[1]
	if target.Op == "iface" {
		target = target.Args[0]
	}
	fill := func(st *ai.State) {
		pt, ok := target.Typ.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		u, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			v := t.h.e.Reuse(st, u.Field(i).Name(), ft, nilable(ft) || isSlice(ft))
			st.Store(ai.FieldAddr(target, u, i), v, ft)
			st.SetGhost("u:"+u.Field(i).Name(), v)
			if g := st.Ghost("got"); g != nil && isSlice(ft) {
				// what was decoded is not longer than what was received
				st.Assume(ai.MkGE(g, ai.MkLen(v)), true)
			}
		}
	}
	fill(st)
	fill(bad)
	return []ai.Exit{{St: st, Res: []*ai.Term{ai.MkNil(nil)}}, {St: bad, Res: []*ai.Term{t.h.sym(bad, "decodeerr", cc.Sig.Results().At(0).Type())}}}
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// query: the address of an HTTP announce.
func (t *trk) query(fr *ai.Frame, in ssa.Instruction, st *ai.State, url *ai.Term) {
	if t.c.ID != "C19" {
		return
	}
	data := t.c.typ("", "AnnounceData")
	want := map[string]*ai.Term{
		"info_hash": st.Content(t.hash), "peer_id": st.Content(t.h.clientID(st)),
		"port": ai.Decimal(st.Field(t.data, data, "Port")), "downloaded": ai.Decimal(st.Field(t.data, data, "Downloaded")),
		"uploaded": ai.Decimal(st.Field(t.data, data, "Uploaded")), "left": ai.Decimal(st.Field(t.data, data, "Left")),
	}
	for k, w := range want {
		got := st.Ghost("q:" + k)
		t.rec("C19", fr, in, "query parameter "+k, got != nil && st.Same(got, st.Content(w)), fmt.Sprintf("parameter %s is %v, not %v", k, got, st.Content(w)))
	}
	addr := st.Content(t.before.Ghost("addr"))
	ps := ai.Pieces(url)
	ok := false
	why := "the address requested is " + url.String()
	if len(ps) == 3 && st.Same(ps[0], addr) && ps[1].Op == "str" && strings.Contains(ps[2].String(), "(net/url.Values).Encode") {
		switch ps[1].Aux {
		case "?":
			ok = st.Mon("hasq") == "no"
		case "&":
			ok = st.Mon("hasq") == "yes"
		}
		if !ok {
			why = "the query is appended with " + ps[1].Aux + " without knowing that this is right for the tracker's address"
		}
	}
	t.rec("C19", fr, in, "query is appended to the tracker's address", ok, why)
}

// run makes trackers and lets them announce.
func (t *trk) run(each func(r trkRun, fn *ssa.Function, x ai.Exit)) {
	c, h := t.c, t.h
	nf := c.fn("pkg/tracker.New")
	args := h.args(nf)
	h.keep(args...)
	kinds := map[string]int{}
	for _, x := range h.call(nf, args, h.st) {
		if x.St.Nilness(x.Res[1]) == -1 {
			t.oblige("C30", x.St.Mon("conn") != "open", "failed construction closes the connection", nf, "New returns an error but leaves the connection open")
			continue
		}
		v := x.Res[0]
		if v.Op != "iface" {
			c.ObligeFn(false, "kind of tracker is known", nf, "the tracker made is "+v.String())
			continue
		}
		pt, ok := ai.DynType(v).Underlying().(*types.Pointer)
		if !ok {
			c.ObligeFn(false, "kind of tracker is known", nf, "the tracker made is not a pointer to a structure")
			continue
		}
		r := trkRun{typ: pt.Elem(), p: v.Args[0], st: x.St, addr: args[0]}
		r.kind = "http"
		if fieldOfType(r.typ, "*github.com/anivanovic/gotit/pkg/gotitnet.TimeoutConn") != "" {
			r.kind = "udp"
		}
		kinds[r.kind]++
		h.keep(r.p)
		t.announce(r, ai.DynType(v), each)
	}
	c.ObligeFn(kinds["udp"] > 0, "there is a UDP tracker", nf, "New makes no UDP tracker")
	c.ObligeFn(kinds["http"] > 0, "there is an HTTP tracker", nf, "New makes no HTTP tracker")
}

func (t *trk) method(dyn types.Type, name string) *ssa.Function {
	ms := t.c.P.SSA.MethodSets.MethodSet(dyn)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return t.c.P.SSA.MethodValue(ms.At(i))
		}
	}
	panic(missing("method " + name + " of " + dyn.String()))
}

// durations are the time limits in the tracker.
func durations(p *ai.Term, t types.Type) []*ai.Term {
	var r []*ai.Term
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		fa := ai.FieldAddr(p, u, i)
		if types.TypeString(ft, nil) == "time.Duration" {
			r = append(r, fa)
		} else if _, ok := ft.Underlying().(*types.Struct); ok {
			r = append(r, durations(fa, ft)...)
		}
	}
	return r
}

var durT types.Type = types.Typ[types.Int64]

const second = 1_000_000_000

func inDay(st *ai.State, d *ai.Term) bool {
	return st.LE(ai.MkInt(second), d) && st.LE(d, ai.MkInt(86400*second))
}

func (t *trk) announce(r trkRun, dyn types.Type, each func(r trkRun, fn *ssa.Function, x ai.Exit)) {
	c, h := t.c, t.h
	fn, wait, cl := t.method(dyn, "Announce"), t.method(dyn, "WaitInterval"), t.method(dyn, "Close")
	ds := durations(r.p, r.typ)
	if len(ds) == 0 {
		t.oblige("C22", false, "tracker has an interval", fn, "the tracker has no interval")
	}
	st := r.st
	st.SetGhost("addr", r.addr)
	// a new tracker
	for _, d := range ds {
		v := st.Load(d, durT)
		t.oblige("C22", st.EqInt(v, ai.MkInt(minute)), "default interval is a minute", fn, "the interval before the first answer is "+v.String())
	}
	if t.c.ID == "C22" || t.c.ID == "C17" || t.c.ID == "C21" || t.c.ID == "C04" {
		t.waitInterval(r, wait, st, ds, "a new tracker")
	}
	// an old one
	h.forget(st, r.p, r.typ, fn)
	for _, d := range ds {
		v := st.Load(d, durT)
		st.Assume(ai.MkGE(v, ai.MkInt(second)), true)
		st.Assume(ai.MkGE(ai.MkInt(86400*second), v), true)
	}
	if t.c.ID == "C22" || t.c.ID == "C17" || t.c.ID == "C21" || t.c.ID == "C04" {
		t.waitInterval(r, wait, st, ds, "a tracker in use")
	}
	given := map[string]*ai.Term{types.TypeString(dyn, nil): r.p}
	args := h.bind(fn, given)
	data := c.typ("", "AnnounceData")
	for i, p := range fn.Params {
		switch {
		case i == 0:
			args[0] = r.p
		case types.TypeString(p.Type(), nil) == "context.Context":
			t.ctx = args[i]
		case types.TypeString(p.Type(), nil) == "string":
			t.hash = args[i]
		case types.TypeString(p.Type(), nil) == "*github.com/anivanovic/gotit.AnnounceData":
			t.data = args[i]
		}
	}
	h.keep(args...)
	h.keep(r.addr)
	if t.hash != nil {
		st.Assume(ai.MkEq(ai.Clen(st.Content(t.hash)), ai.MkInt(20)), true)
	}
	if t.data != nil {
		if v := st.Field(t.data, data, "Port"); v != nil {
			st.Assume(ai.MkGE(v, ai.MkInt(0)), true)
			st.Assume(ai.MkGE(ai.MkInt(65535), v), true)
		}
	}
	t.m.root = t.ctx
	t.before = st.Clone()
	t.drawn = map[*ai.Term]bool{}
	var old []*ai.Term
	for _, d := range ds {
		old = append(old, st.Load(d, durT))
	}
	h.keep(old...)
	t.running = true
	if t.start != nil {
		t.start(r)
	}
	if t.c.ID == "C22" || t.c.ID == "C20" {
		// states are kept apart by where the interval comes from
		h.e.Keys = func(fr *ai.Frame, st *ai.State) string {
			k := ""
			for i, d := range ds {
				switch v := st.Load(d, durT); {
				case v == old[i]:
					k += "o"
				case v.Op == "int":
					k += v.Aux
				default:
					k += "r"
				}
			}
			return k
		}
	}
	xs := h.call(fn, args, st)
	h.e.Keys = nil
	t.running = false
	for _, x := range xs {
		er := x.St.Nilness(x.Res[1])
		t.oblige("C21", er != 0, "result is certain", fn, "the result of the announce is neither an error nor success")
		t.oblige("C30", r.kind != "http" || x.St.Mon("body") != "open", "response body is closed", fn, "Announce returns without closing the response body")
		for i, d := range ds {
			v := x.St.Load(d, durT)
			t.oblige("C22", inDay(x.St, v), "interval is positive and at most a day", fn, "after an announce the interval is "+v.String())
			if er == 1 {
				var reply *ai.Term
				if d := x.St.Ghost("d:2"); r.kind == "udp" && d != nil {
					reply = ai.BEInt(x.St.Csub(d, ai.MkInt(8), ai.MkInt(4)), 4)
				} else if r.kind == "http" {
					reply = x.St.Ghost("u:Interval")
				}
				ok := reply != nil
				if ok {
					s := x.St.Clone()
					ok = !s.Assume(ai.MkGE(reply, ai.MkInt(1)), true) || !s.Assume(ai.MkGE(ai.MkInt(86400), reply), true) || s.EqInt(v, ai.MkMul(s, h.e, reply, ai.MkInt(second), durT))
				}
				t.oblige("C22", ok, "sensible reply interval is adopted ("+r.kind+")", fn, fmt.Sprintf("the tracker asks for %v seconds, the interval is %v", reply, v))
			}
			if er == -1 && r.kind == "udp" {
				t.oblige("C20", x.St.EqInt(v, old[i]), "refused answer leaves the interval alone", fn, "the interval changes although the answer was refused: "+v.String())
			}
		}
		if er == -1 {
			_, _, ln, _ := ai.SliceParts(x.Res[0])
			t.oblige("C21", x.St.Nilness(x.Res[0]) == 1 || x.St.EqInt(ln, ai.MkInt(0)), "failed announce yields no peers", fn, "peers are returned together with an error: "+x.Res[0].String())
		} else {
			t.oblige("C21", x.St.Mon("fail") == "", "failure is reported", fn, "the announce succeeds although "+x.St.Mon("fail"))
			if r.kind == "http" {
				s := x.St.Ghost("status")
				t.oblige("C21", s != nil && x.St.LE(ai.MkInt(200), s) && x.St.LE(s, ai.MkInt(299)), "error status is a failure", fn, fmt.Sprintf("the announce succeeds although the status may be an error: %v", s))
				f := x.St.Ghost("u:Failure")
				t.oblige("C21", f != nil && x.St.EqInt(ai.Clen(x.St.Content(f)), ai.MkInt(0)), "failure reason is a failure", fn, "the announce succeeds although the answer may contain a failure reason")
			}
		}
		if each != nil {
			each(r, fn, x)
		}
	}
	// closing
	if t.c.ID == "C30" || t.c.ID == "C04" {
		for _, x := range h.call(cl, []*ai.Term{r.p}, st) {
			if r.kind == "udp" {
				t.oblige("C30", x.St.Mon("conn") == "closed", "closing a tracker closes its socket", cl, "Close leaves the connection open")
			}
		}
	}
}

func (t *trk) sending(fr *ai.Frame, in ssa.Instruction, st *ai.State, content *ai.Term) {
	t.udpRequest(fr, in, st, content)
}

// waitInterval waits the interval, or less when cancelled.
func (t *trk) waitInterval(r trkRun, fn *ssa.Function, st *ai.State, ds []*ai.Term, what string) {
	h := t.h
	args := h.args(fn)
	args[0] = r.p
	var ctx *ai.Term
	for i, p := range fn.Params {
		if types.TypeString(p.Type(), nil) == "context.Context" {
			ctx = args[i]
		}
	}
	t.ctx, t.m.root = ctx, ctx
	h.keep(args...)
	h.keep(ds...)
	fired := func(e *ai.Engine, d *ai.Term, fr *ai.Frame, in ssa.Instruction, st *ai.State) {
		ok := false
		for _, a := range ds {
			ok = ok || st.EqInt(d, st.Load(a, durT))
		}
		t.rec("C22", fr, in, "the interval is waited", ok, "the wait is "+d.String()+", not the tracker's interval")
		st.SetMon("fired", "1")
	}
	sel, rcv := h.e.H.Selected, h.e.H.Received
	h.e.H.Selected = func(e *ai.Engine, fr *ai.Frame, in *ssa.Select, i int, chans []*ai.Term, st *ai.State) {
		sel(e, fr, in, i, chans, st)
		if i >= 0 {
			if d := ai.TimerOf(chans[i]); d != nil {
				fired(e, d, fr, in, st)
			}
		}
	}
	h.e.H.Received = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch, val *ai.Term, ok bool, st *ai.State) {
		if d := ai.TimerOf(ch); d != nil {
			fired(e, d, fr, in, st)
		}
		if x := ai.IsCtxDone(ch); x != nil && ai.CtxWithin(x, ctx) {
			saw(st, true)
		}
	}
	t.running = true
	s0 := st.Clone()
	s0.SetMon("fired", "")
	s0.SetMon("cancelled", "")
	for _, x := range h.call(fn, args, s0) {
		switch x.St.Nilness(x.Res[0]) {
		case 1:
			t.oblige("C22", x.St.Mon("fired") == "1", "the wait ends after the interval", fn, "WaitInterval of "+what+" returns without an error before the interval has passed")
		case -1:
			t.oblige("C21", x.St.Mon("cancelled") == "1", "the wait fails only when cancelled", fn, "WaitInterval of "+what+" can fail although the download is not cancelled")
		default:
			t.oblige("C22", false, "result of the wait is certain", fn, "the result of WaitInterval is neither nil nor an error")
		}
		if x.St.Mon("cancelled") == "1" {
			t.oblige("C17", x.St.Nilness(x.Res[0]) == -1, "a cancelled wait is an error", fn, "WaitInterval of "+what+" returns no error when cancelled")
		}
	}
	t.running = false
	h.e.H.Selected, h.e.H.Received = sel, rcv
}
