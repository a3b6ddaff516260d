package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C11", Rule: "lockset analysis by abstract interpretation of every exported function of the packages that own the shared structures (each with its goroutines, starting without locks): for each field of Torrent, PiecesQueue, Manager and Stats, and the map, slice or bit set in it, that is changed after construction, all accesses hold one common lock (writes exclusively) or all are atomic; no guarded reference is returned; every lock is released exactly once on every path and not taken again while held, no two locks are taken in both orders; no lock is held at a channel operation, a network call, a timer or a wait", Run: checkC11})
}

type access struct {
	write, atomic bool
	locks         []string // "R:" before those held for reading
	in            ssa.Instruction
	fr            *ai.Frame
}

type locking struct {
	c      *Ctx
	shared map[string]bool // named structs
	acc    map[string]map[string]access
	order  map[string]map[string]ssa.Instruction // lock held -> lock taken
	given  map[string]ssa.Instruction            // references returned by exported functions
	waits  map[*ssa.Function]string
	root   *ssa.Function
}

// owner is the shared structure's field an address belongs to.
func (l *locking) owner(a *ai.Term) string {
	for a != nil && (a.Op == "faddr" || a.Op == "iaddr" || a.Op == "gfield") {
		p := a.Args[0]
		if a.Op == "faddr" && p.Typ != nil && rootSym(p) {
			if pt, ok := p.Typ.Underlying().(*types.Pointer); ok {
				if n := types.TypeString(pt.Elem(), nil); l.shared[n] {
					_, f, _ := strings.Cut(a.Aux, ":")
					return n + "." + f
				}
			}
		}
		a = p
	}
	return ""
}

// rootSym: not an object made in this run.
func rootSym(a *ai.Term) bool {
	for a.Op == "faddr" || a.Op == "iaddr" {
		a = a.Args[0]
	}
	return a.Op != "alloc"
}

// content is the field whose map, slice or bit set this is.
func (l *locking) content(v *ai.Term) string {
	for v != nil {
		switch v.Op {
		case "ld":
			if v.Args[0].Op == "faddr" {
				return l.owner(v.Args[0])
			}
			return ""
		case "slice", "arr", "arrof", "sarr":
			v = v.Args[0]
		default:
			if len(v.Args) == 1 && (strings.HasPrefix(v.Op, "arr") || v.Op == "base") {
				v = v.Args[0]
				continue
			}
			return ""
		}
	}
	return ""
}

// root is the reference loaded from the field.
func contentRoot(v *ai.Term) *ai.Term {
	for v != nil && v.Op != "ld" {
		if len(v.Args) == 0 {
			return nil
		}
		v = v.Args[0]
	}
	return v
}

// live is content, unless the field was made to refer to something else
// since: then the one who did that, under the lock, is the only one left with
// a reference.
func (l *locking) live(v *ai.Term, st *ai.State) string {
	f := l.content(v)
	if f != "" && strings.Contains(st.Mon("taken"), fmt.Sprintf("<%d>", contentRoot(v).ID)) {
		return ""
	}
	return f
}

// replaced: the field is made to refer to something else.
func (l *locking) replaced(f string, addr, val *ai.Term, typ types.Type, st *ai.State) {
	if l.content(val) != "" {
		st.SetMon("taken", "")
		return
	}
	switch typ.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
	default:
		return
	}
	old := st.Load(addr, typ)
	excl := false
	for _, x := range l.held(st) {
		excl = excl || !strings.HasPrefix(x, "R:")
	}
	if l.content(old) == f && excl {
		st.SetMon("taken", st.Mon("taken")+fmt.Sprintf("<%d>", contentRoot(old).ID))
	}
}

func (l *locking) lockName(t *ai.Term) string {
	if t.Op == "rlock" {
		return "R:" + l.lockName(t.Args[0])
	}
	if t.Op == "iface" && len(t.Args) > 0 {
		return l.lockName(t.Args[0])
	}
	if t.Op == "ld" {
		t = t.Args[0]
	}
	if t.Op == "faddr" {
		if o := l.owner(t); o != "" {
			return o
		}
	}
	return t.String()
}

func (l *locking) held(st *ai.State) []string {
	var r []string
	for _, t := range st.Locks() {
		r = append(r, l.lockName(t))
	}
	sort.Strings(r)
	return r
}

func (l *locking) note(f string, write, atomic bool, fr *ai.Frame, in ssa.Instruction, st *ai.State) {
	if f == "" {
		return
	}
	if l.acc[f] == nil {
		l.acc[f] = map[string]access{}
	}
	a := access{write, atomic, l.held(st), in, fr}
	l.acc[f][fmt.Sprint(write, atomic, a.locks, l.c.P.SSA.Fset.Position(in.Pos()), in.Parent())] = a
}

func (l *locking) blocked(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, what string, st *ai.State) {
	h := l.held(st)
	e.Record(fr, in, "no lock is held across a wait", len(h) == 0, what+" while "+strings.Join(h, ", ")+" is held")
}

// mayWait tells what a call of a library function waits for.
func mayWait(name string) string {
	switch {
	case name == "time.Sleep":
		return "a timer"
	case strings.HasPrefix(name, "(*sync.WaitGroup).Wait"), strings.HasPrefix(name, "(*sync.Cond).Wait"), strings.Contains(name, "errgroup.Group).Wait"):
		return "a wait"
	case strings.HasPrefix(name, "github.com/avast/retry-go.Do"):
		return "a retry with delays"
	}
	base := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.HasPrefix(name, "net.Dial"), strings.HasPrefix(name, "(*net.Dialer)."), strings.HasPrefix(name, "net.Lookup"), strings.HasPrefix(name, "net.Resolve"),
		strings.HasPrefix(name, "(*net/http.Client)."), strings.HasPrefix(name, "net/http.Get"), strings.HasPrefix(name, "net/http.Post"):
		return "the network"
	case strings.HasPrefix(name, "(net.Conn).") || strings.HasPrefix(name, "(*net."):
		switch base {
		case "Read", "Write", "ReadFrom", "WriteTo", "Accept":
			return "the network"
		}
	}
	return ""
}

// waitsIn: the function may wait for something.
func (l *locking) waitsIn(fn *ssa.Function) string {
	if w, ok := l.waits[fn]; ok {
		return w
	}
	l.waits[fn] = ""
	w := ""
	for f := range l.c.P.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					w = "a channel"
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						w = "a channel"
					}
				case *ssa.Select:
					if x.Blocking {
						w = "a channel"
					}
				case ssa.CallInstruction:
					if _, ok := in.(*ssa.Go); ok {
						break
					}
					n := ""
					if x.Common().IsInvoke() {
						n = x.Common().Method.FullName()
					} else if g := x.Common().StaticCallee(); g != nil {
						n = ai.FnName(g)
					}
					if m := mayWait(n); m != "" {
						w = m
					}
				}
			}
		}
	}
	l.waits[fn] = w
	return w
}

var bitsetWrites = map[string]bool{"Set": true, "Clear": true, "SetTo": true, "Flip": true, "FlipRange": true, "ClearAll": true, "InsertAt": true, "DeleteAt": true, "Compact": true, "Shrink": true,
	"InPlaceUnion": true, "InPlaceIntersection": true, "InPlaceDifference": true, "InPlaceSymmetricDifference": true, "UnmarshalBinary": true, "UnmarshalJSON": true, "ReadFrom": true, "SetAll": true, "ShiftLeft": true, "ShiftRight": true, "SetBitsetFrom": true}

func (l *locking) run(fn *ssa.Function) {
	c := l.c
	l.root = fn
	h := c.newHarness(fn)
	e := h.e
	pkg := fn.Pkg
	e.Opaque = func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		return f.Pkg != nil && f.Pkg != pkg
	}
	e.H.Load = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr *ai.Term, st *ai.State) {
		l.note(l.owner(addr), false, false, fr, in, st)
		if addr.Op == "iaddr" {
			l.note(suffix(l.live(addr.Args[0], st)), false, false, fr, in, st)
		}
	}
	e.H.Store = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, addr, val *ai.Term, st *ai.State) {
		if f := l.owner(addr); f != "" {
			l.note(f, true, false, fr, in, st)
			if x, ok := in.(*ssa.Store); ok {
				l.replaced(f, addr, val, x.Val.Type(), st)
			}
		}
		if addr.Op == "iaddr" {
			l.note(suffix(l.live(addr.Args[0], st)), true, false, fr, in, st)
		}
	}
	e.H.MapRead = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, m *ai.Term, st *ai.State) {
		l.note(suffix(l.live(m, st)), false, false, fr, in, st)
	}
	e.H.MapUpd = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, m, k, v *ai.Term, st *ai.State) {
		l.note(suffix(l.live(m, st)), true, false, fr, in, st)
	}
	e.H.MapDel = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, m, k *ai.Term, st *ai.State) {
		l.note(suffix(l.live(m, st)), true, false, fr, in, st)
	}
	e.H.Send = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch, v *ai.Term, st *ai.State) {
		l.blocked(e, fr, in, "a channel send", st)
	}
	e.H.Recv = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, ch *ai.Term, st *ai.State) {
		l.blocked(e, fr, in, "a channel receive", st)
	}
	e.H.Select = func(e *ai.Engine, fr *ai.Frame, in *ssa.Select, chs []*ai.Term, st *ai.State) {
		if in.Blocking {
			l.blocked(e, fr, in, "a select", st)
		}
	}
	e.H.GoEnd = func(e *ai.Engine, fr *ai.Frame, in ssa.Instruction, x ai.Exit) {
		e.Record(fr, in, "every lock is released", len(x.St.Locks()) == 0, "a goroutine ends holding "+strings.Join(l.held(x.St), ", "))
	}
	e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		in, _ := cc.Site.(ssa.Instruction)
		switch {
		case in == nil:
			return nil, false
		case isLockCall(cc.Name, "Lock", "RLock"):
			n := l.lockName(cc.Args[0])
			held := l.held(st)
			twice := false
			for _, x := range held {
				if strings.TrimPrefix(x, "R:") == n {
					twice = true
				} else {
					if l.order[x] == nil {
						l.order[x] = map[string]ssa.Instruction{}
					}
					l.order[strings.TrimPrefix(x, "R:")] = l.order[x]
					l.order[x][n] = in
				}
			}
			e.Record(cc.Fr, in, "no lock is taken twice", !twice, n+" is taken while it is held")
		case isLockCall(cc.Name, "Unlock", "RUnlock"):
			n := l.lockName(cc.Args[0])
			if strings.HasSuffix(cc.Name, "RUnlock") {
				n = "R:" + n
			}
			ok := false
			for _, x := range l.held(st) {
				ok = ok || x == n
			}
			e.Record(cc.Fr, in, "only locks that are held are released", ok, n+" is released although it is not held")
		case strings.Contains(cc.Name, "sync/atomic."):
			for _, a := range cc.Args[:1] {
				l.note(l.owner(a), !strings.Contains(cc.Name, "Load"), true, cc.Fr, in, st)
			}
		case strings.Contains(cc.Name, "bitset.BitSet)."):
			for i, a := range cc.Args {
				l.note(suffix(l.live(a, st)), i == 0 && bitsetWrites[cc.Method()], false, cc.Fr, in, st)
			}
		case strings.HasPrefix(cc.Name, "maps."), strings.HasPrefix(cc.Name, "slices."), strings.HasPrefix(cc.Name, "sort."):
			for i, a := range cc.Args {
				w := i == 0 && (strings.Contains(cc.Name, "Sort") || strings.Contains(cc.Name, "Delete") || strings.Contains(cc.Name, "Copy") || strings.Contains(cc.Name, "Reverse"))
				l.note(suffix(l.live(a, st)), w, false, cc.Fr, in, st)
			}
		default:
			w := mayWait(cc.Name)
			if w == "" && cc.Fn != nil && e.InModule(cc.Fn) && e.Opaque(cc.Fn) {
				w = l.waitsIn(cc.Fn)
			}
			if w == "" && cc.Fn == nil && cc.Site.Common().IsInvoke() {
				for _, g := range c.P.implementations(cc.Site.Common().Method, cc.Site.Common().Value.Type()) {
					if x := l.waitsIn(g); x != "" {
						w = x
					}
				}
			}
			if w != "" {
				l.blocked(e, cc.Fr, in, cc.Name+" waits for "+w, st)
			}
		}
		return nil, false
	}
	args := h.args(fn)
	for i, a := range args {
		switch fn.Params[i].Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			h.st.Assume(ai.MkIsNil(a), false)
		}
	}
	h.keep(args...)
	for _, x := range h.call(fn, args, h.st) {
		c.ObligeFn(len(x.St.Locks()) == 0, "every lock is released", fn, ai.ShortName(fn)+" returns holding "+strings.Join(l.held(x.St), ", "))
		for _, r := range x.Res {
			if f := l.content(r); f != "" {
				switch r.Typ.Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					l.given[f+"[]|"+ai.ShortName(fn)] = fn.Blocks[0].Instrs[0]
				}
			}
		}
	}
	c.Absorb(e)
}

func suffix(f string) string {
	if f == "" {
		return ""
	}
	return f + "[]"
}

func isLockCall(name string, ms ...string) bool {
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(sync.Locker)."} {
		for _, m := range ms {
			if name == t+m {
				return true
			}
		}
	}
	return false
}

func checkC11(c *Ctx) {
	l := &locking{c: c, shared: map[string]bool{}, acc: map[string]map[string]access{}, order: map[string]map[string]ssa.Instruction{}, given: map[string]ssa.Instruction{}, waits: map[*ssa.Function]string{}}
	pkgs := map[*types.Package]bool{}
	for _, t := range []types.Type{c.typ("pkg/torrent", "Torrent"), c.typ("pkg/torrent", "PiecesQueue"), c.typ("pkg/download", "Manager"), c.typ("pkg/stats", "Stats")} {
		l.shared[types.TypeString(t, nil)] = true
		pkgs[t.(*types.Named).Obj().Pkg()] = true
	}
	for _, fn := range c.P.AllFns {
		if fn.Pkg == nil || !pkgs[fn.Pkg.Pkg] || fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil || !token.IsExported(fn.Name()) {
			continue
		}
		l.run(fn)
	}
	var fs []string
	for f := range l.acc {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	guarded := map[string]bool{}
	for _, f := range fs {
		if l.decide(f) {
			guarded[f] = true
		}
	}
	for k, in := range l.given {
		f, who, _ := strings.Cut(k, "|")
		if guarded[f] {
			c.Oblige(false, "guarded state is not handed out", in, nil, who+" returns "+f)
		}
	}
	// lock order
	for a, m := range l.order {
		for b, in := range m {
			if a != b && l.order[b] != nil && l.order[b][a] != nil {
				c.Oblige(false, "locks are taken in one order", in, nil, a+" and "+b+" are taken in both orders")
			}
		}
	}
	c.AtLeast("one lock or atomic operations guard it", 4, "shared fields")
	c.AtLeast("every lock is released", 10, "returns")
	c.AtLeast("no lock is taken twice", 3, "lock operations")
}

// decide tells if the field is shared and changes, and checks its accesses.
func (l *locking) decide(f string) bool {
	c := l.c
	var keys []string
	writes, atomics := false, false
	for k, a := range l.acc[f] {
		keys = append(keys, k)
		writes = writes || a.write && !a.atomic
		atomics = atomics || a.atomic
	}
	sort.Strings(keys)
	rule := "one lock or atomic operations guard it"
	if !writes && !atomics {
		return false
	}
	name := f[strings.LastIndex(f, "/")+1:]
	if !writes || atomics {
		bad := false
		for _, k := range keys {
			if a := l.acc[f][k]; !a.atomic {
				bad = true
				c.Oblige(false, rule, a.in, a.fr, name+" is accessed both with and without atomic operations")
			}
		}
		if !bad {
			c.Oblige(true, rule, l.acc[f][keys[0]].in, nil, "")
		}
		return true
	}
	// a lock held at most accesses
	count := map[string]int{}
	for _, k := range keys {
		for _, x := range l.acc[f][k].locks {
			count[strings.TrimPrefix(x, "R:")]++
		}
	}
	best := ""
	for n := range count {
		if best == "" || count[n] > count[best] || count[n] == count[best] && n < best {
			best = n
		}
	}
	for _, k := range keys {
		a := l.acc[f][k]
		ok := false
		for _, x := range a.locks {
			ok = ok || x == best || !a.write && x == "R:"+best
		}
		what := "read"
		if a.write {
			what = "changed"
		}
		guard := best
		if guard == "" {
			guard = "any lock"
		}
		c.Oblige(ok, rule, a.in, a.fr, name+" is "+what+" without holding "+guard)
	}
	return true
}
