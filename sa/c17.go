package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C18", Rule: "abstract interpretation of Manager.Download with all its goroutines and of Stop: typestate of wait groups (added before the start, signed off exactly once on every path, waited for in order), of the channel to the writer (closed once, after every sender's group was waited for) and of the writer's completion signal (received before Download returns)", Run: checkC18})
	register(&Check{ID: "C29", Rule: "abstract interpretation of the manager: each insertion into the peer pool happens under the lock, below the limit, with the peer's address as key that is absent; every path of the goroutine that owns the entry removes exactly that entry", Run: checkMgr("the pool stays within the limit")})
	register(&Check{ID: "C27", Rule: "abstract interpretation of the manager and the statistics: ownership of every counted peer and tracker, bounds of the derived figures, atomic access", Run: func(c *Ctx) {
		checkMgr("given up exactly once: a counted peer")(c)
		c.checkStats()
		c.AtLeast("each change counts exactly once", 6, "methods that count")
		c.AtLeast("figures are the counters", 4, "figures")
		c.AtLeast("left is the size minus the downloaded bytes", 1, "returns of Left")
		c.AtLeast("percentage lies between 0 and 100", 1, "returns of PercentCompleted")
	}})
	register(&Check{ID: "C17", Rule: "abstract interpretation of the manager with its goroutines, of Peer.Run and of the trackers: every blocking select or receive is on the download's context, on a timer of a few seconds at most or on a bounded hand-over; every call that waits carries the download's context; in every round of a loop that is not bounded the context is looked at, and no round follows one in which it was seen to be done", Run: checkC17})
	register(&Check{ID: "C21", Rule: "abstract interpretation of the trackers New makes, in any later state, and of the manager: every failing return carries no peers, no successful return is reached after a failed step, with a status outside 200..299 or with a failure reason; no call ends the program; a tracker's loop ends only when the context is done, each tracker runs in its own goroutine", Run: checkMgrTrk("a tracker is given up only when cancelled", "failed announce yields no peers", "error status is a failure", "failure reason is a failure")})
	register(&Check{ID: "C22", Rule: "abstract interpretation of the trackers and the manager: every time limit of a tracker is a minute when made and between a second and a day after every announce whatever the answer; a reply of 1 to 86400 seconds is the limit afterwards; WaitInterval returns nil only after a timer of that limit fired; no path leads from one announce round to the next without WaitInterval; retries have constant limits and delays", Run: checkMgrTrk("the interval passes between announce rounds", "interval is positive and at most a day", "sensible reply interval is adopted (udp)", "sensible reply interval is adopted (http)", "default interval is a minute", "the wait ends after the interval")})
	register(&Check{ID: "C19", Rule: "abstract interpretation of the trackers and the manager: byte content of each UDP packet and value of each query parameter as terms over the arguments of Announce; arguments of each Announce call as terms over the torrent and its statistics", Run: checkMgrTrk("announce carries the info-hash", "connect request is exact", "announce packet has 98 bytes", "query is appended to the tracker's address")})
	register(&Check{ID: "C30", Rule: "abstract interpretation of the manager with its goroutines, of the trackers and of opening and closing a torrent: ownership of every connection, tracker, response body and file from the call that opens it; each is given up exactly once on every path of its owner; files are numbered in the order they are opened, and at every failing return of New and every return of Close all numbers are closed; the download command closes its torrent and its input on every path", Run: func(c *Ctx) {
		checkMgrTrk("given up exactly once: an open tracker", "response body is closed", "closing a tracker closes its socket")(c)
		c.torrentFiles()
		c.program()
		c.AtLeast("the download command closes its torrent", 1, "returns of the command")
	}})
}

func checkMgr(witness ...string) func(c *Ctx) {
	return func(c *Ctx) {
		m := c.newMgr()
		m.download()
		c.Absorb(m.h.e)
		for _, w := range witness {
			c.AtLeast(w, 1, "places in the manager")
		}
	}
}

func checkMgrTrk(witness ...string) func(c *Ctx) {
	return func(c *Ctx) {
		m := c.newMgr()
		m.download()
		c.Absorb(m.h.e)
		t := c.newTrk()
		t.run(nil)
		c.Absorb(t.h.e)
		for _, w := range witness {
			c.AtLeast(w, 1, "places in the manager and the trackers")
		}
	}
}

func checkC18(c *Ctx) {
	m := c.newMgr()
	m.stop(m.download())
	c.Absorb(m.h.e)
	c.AtLeast("stop waits for the goroutines", 2, "returns of Stop")
	c.AtLeast("stop waits before it closes the peers", 1, "closing of peers in Stop")
	c.AtLeast("channel is closed after all senders finished", 1, "closing of the channel to the writer")
	c.AtLeast("participant is registered", 2, "goroutines of trackers and peers")
	c.AtLeast("the download ends after the writer", 1, "returns of Download")
}

// checkC17: the manager, the connection loop of a peer and the trackers.
func checkC17(c *Ctx) {
	m := c.newMgr()
	m.stop(m.download())
	m.finishLoops()
	c.Absorb(m.h.e)

	h := c.newHarness(c.fn("pkg/peer.NewPeer"))
	h.e.DisjExit = 8
	p := &mgr{h: h, c: c}
	p.waits()
	p.observeLoops()
	prev := h.e.H.After
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		if prev != nil {
			prev(e, cc, x)
		}
		switch cc.Name {
		case "(context.Context).Err", "context.Cause":
			if p.root != nil && ai.CtxWithin(cc.Args[0], p.root) {
				saw(x.St, x.St.Nilness(x.Res[0]) != 1)
			}
		case "time.Sleep":
			p.longWait(cc.Fr, site(cc), cc.Args[0], x.St)
		}
	}
	h.run(&runHooks{args: func(fn *ssa.Function, args []*ai.Term) {
		for i, a := range fn.Params {
			if types.TypeString(a.Type(), nil) == "context.Context" {
				p.root = args[i]
			}
		}
	}})
	p.finishLoops()
	c.Absorb(h.e)

	t := c.newTrk()
	t.run(nil)
	t.m.finishLoops()
	c.Absorb(t.h.e)
	c.AtLeast("context reaches HTTP request", 1, "HTTP requests")
	c.AtLeast("unbounded loop looks at the context in every round", 3, "loops of peers, trackers and the progress display")
}
