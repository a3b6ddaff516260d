package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of an inlined function.
type Frame struct {
	Fn     *ssa.Function
	Parent *Frame
	Site   ssa.Instruction
	Depth  int
	// Goroutine is set for functions started with go.
	Go bool

	entry *State
	args  []*Term
	root  bool
}

// Stack describes the call chain.
func (f *Frame) Stack() string {
	var p []string
	for x := f; x != nil; x = x.Parent {
		if x.root {
			continue
		}
		p = append(p, ShortName(x.Fn))
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " > ")
}

// Exit is one way a function returns.
type Exit struct {
	St  *State
	Res []*Term
}

// CallCtx is what hooks and models see of a call.
type CallCtx struct {
	Name string // full name, "(iface).Method" for unresolved methods
	Fn   *ssa.Function
	Args []*Term
	Site ssa.CallInstruction
	Sig  *types.Signature
	Fr   *Frame
}

func (c *CallCtx) Pos() token.Pos {
	if c.Site == nil {
		return token.NoPos
	}
	return c.Site.Pos()
}

// Hooks are the observation points of a check.
type Hooks struct {
	// Call may replace the call; nil result and false means go on.
	Call func(e *Engine, c *CallCtx, st *State) ([]Exit, bool)
	// After sees each outcome of a call.
	After func(e *Engine, c *CallCtx, x Exit)
	// Enter sees each inlined function entry.
	Enter func(e *Engine, fr *Frame, args []*Term, st *State)
	// Leave sees each return of an inlined function.
	Leave func(e *Engine, fr *Frame, args []*Term, x Exit)
	Store func(e *Engine, fr *Frame, in ssa.Instruction, addr, val *Term, st *State)
	Load  func(e *Engine, fr *Frame, in ssa.Instruction, addr *Term, st *State)
	// Elem sees the address of each slice element after it (or a part of it) was
	// stored or appended.
	Elem  func(e *Engine, fr *Frame, in ssa.Instruction, addr *Term, st *State)
	Send  func(e *Engine, fr *Frame, in ssa.Instruction, ch, val *Term, st *State)
	Recv  func(e *Engine, fr *Frame, in ssa.Instruction, ch *Term, st *State)
	Close func(e *Engine, fr *Frame, in ssa.Instruction, ch *Term, st *State)
	// Received sees each outcome of a receive.
	Received func(e *Engine, fr *Frame, in ssa.Instruction, ch, val *Term, ok bool, st *State)
	Select   func(e *Engine, fr *Frame, in *ssa.Select, chans []*Term, st *State)
	Go       func(e *Engine, fr *Frame, in *ssa.Go, fn *Term, args []*Term, st *State)
	// GoStart, GoEnd and Gone see the start and each end of a goroutine's body and
	// the starting goroutine afterwards.
	GoStart  func(e *Engine, fr *Frame, in ssa.Instruction, st, g *State)
	GoEnd    func(e *Engine, fr *Frame, in ssa.Instruction, x Exit)
	Gone     func(e *Engine, fr *Frame, in ssa.Instruction, st *State)
	Selected func(e *Engine, fr *Frame, in *ssa.Select, i int, chans []*Term, st *State)
	MapUpd   func(e *Engine, fr *Frame, in ssa.Instruction, m, k, v *Term, st *State)
	// MapRead sees each lookup, range step and length of a map.
	MapRead func(e *Engine, fr *Frame, in ssa.Instruction, m *Term, st *State)
	MapDel  func(e *Engine, fr *Frame, in ssa.Instruction, m, k *Term, st *State)
	Back    func(e *Engine, fr *Frame, head *ssa.BasicBlock, st *State)
	Head    func(e *Engine, fr *Frame, head *ssa.BasicBlock, st *State)
	// Norm may simplify the monitor state before states are merged.
	Norm func(e *Engine, fr *Frame, st *State)
	// Assumed is called after a branch condition was assumed.
	Assumed func(e *Engine, fr *Frame, st *State)
	Alloc   func(e *Engine, fr *Frame, in ssa.Instruction, what string, size *Term, st *State)
	// Arith sees each integer addition, subtraction and multiplication: exact if
	// it is known not to overflow.
	Arith func(e *Engine, fr *Frame, x *ssa.BinOp, exact bool, st *State)
	// Value may tell apart the kinds of an interface value that was loaded or
	// looked up.
	Value func(e *Engine, fr *Frame, in ssa.Instruction, v *Term, st *State) []Exit
	// Set sees each assignment by reflection.
	Set   func(e *Engine, fr *Frame, in ssa.Instruction, addr *Term, t types.Type, v *Term, st *State)
	Oblig func(e *Engine, fr *Frame, in ssa.Instruction, kind string, ok bool, st *State)
}

// Obligation is a proof obligation met during the analysis.
type Obligation struct {
	Kind string
	Pos  token.Position
	Fn   string
	What string
	OK   bool
	Note string
}

// Engine interprets SSA abstractly.
type Engine struct {
	Prog   *ssa.Program
	Mod    string // module path prefix of the analysed code
	H      Hooks
	Sums   []*Sum
	Affine bool // join equations exactly (affine hull)
	Elim   int  // most products of bounds when an unknown is eliminated
	Keep   []*Term
	Facts  []*ElemFact
	Trace  bool
	// Unroll runs loops with a known number of rounds round by round; Unfold is
	// how deep functions may call themselves instead of using contracts.
	Unroll bool
	Unfold int
	// ExactMaps follows the entries of maps; Order compares unknown strings.
	ExactMaps bool
	Order     func(a, b *Term) (int, bool)
	// CheckPanics makes the engine record runtime panic obligations.
	CheckPanics bool
	// Volatile marks cells other goroutines may change at any time.
	Volatile func(addr *Term) bool
	// Opaque functions are not inlined.
	Opaque func(fn *ssa.Function) bool
	// Cancelled assumes every context is cancelled.
	Cancelled bool
	// Disj is how many more states of one partition are kept apart at a
	// merge point, DisjExit at function exits.
	Disj, DisjExit int
	// SkipGo does not analyse goroutine bodies.
	SkipGo bool
	// Timeouts are the errors that are net.Errors with Timeout() true.
	Timeouts map[*Term]bool
	// Keys adds a partition criterion.
	Keys func(fr *Frame, st *State) string

	enums     map[*types.TypeName]bool
	enumAtoms map[*Term]bool
	rec       bool
	target    *ssa.BasicBlock // where states are being merged
	suspended []*State
	inputs    map[*Term]bool
	wtoMemo   map[*ssa.Function][]*comp
	liveMemo  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	impls     map[string][]*ssa.Function
	obl       map[string]*Obligation
	oblOrder  []string
	Steps     int
	Funcs     map[*ssa.Function]int
	recur     map[*ssa.Function]*summary
	maxDepth  int
	Types     []types.Type // module types for dynamic dispatch
	Unknown   map[string]int
	allocInit map[ssa.Instruction]bool
	Globals   *State // cells of package variables after initialisation
	DebugLoop bool
	DebugFail bool

	AllFns       []*ssa.Function // functions of the module
	made         map[string]types.Type
	recConsts    []int64
	sumChanged   bool
	ioWriterType types.Type
	// OnLock applies the changes of other goroutines when a lock is taken.
	OnLock func(e *Engine, mu *Term, st *State)
	// RecEffect adds effects of recursive calls.
	RecEffect func(fr *Frame, fn *ssa.Function, args []*Term, st *State)
}

// NewEngine prepares an engine for the program.
func NewEngine(prog *ssa.Program, mod string, pkgs []*ssa.Package) *Engine {
	e := &Engine{Prog: prog, Mod: mod, rec: true, inputs: map[*Term]bool{}, wtoMemo: map[*ssa.Function][]*comp{},
		liveMemo: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, obl: map[string]*Obligation{},
		Funcs: map[*ssa.Function]int{}, recur: map[*ssa.Function]*summary{}, maxDepth: 60, Elim: 16, Unknown: map[string]int{},
		impls: map[string][]*ssa.Function{}, enums: map[*types.TypeName]bool{}, enumAtoms: map[*Term]bool{}}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		names := make([]string, 0)
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if k, ok := p.Members[n].(*ssa.NamedConst); ok {
				if nt, ok := k.Type().(*types.Named); ok && isIntType(nt) && nt.Obj().Pkg() == p.Pkg {
					e.enums[nt.Obj()] = true
				}
			}
			if t, ok := p.Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				if !types.IsInterface(t.Type()) {
					e.Types = append(e.Types, t.Type())
				}
			}
		}
	}
	return e
}

// AtLoopHead tells if the states being merged are about to enter a loop round.
func (e *Engine) AtLoopHead() bool {
	if e.target == nil {
		return false
	}
	for _, p := range e.target.Preds {
		if e.target.Dominates(p) {
			return true
		}
	}
	return false
}

// MergeAt is the block at which states are being merged.
func (e *Engine) MergeAt() *ssa.BasicBlock { return e.target }

// Recording tells if events of this pass are final.
func (e *Engine) Recording() bool { return e.rec }

// Obligations in the order met.
func (e *Engine) Obligations() []*Obligation {
	var r []*Obligation
	for _, k := range e.oblOrder {
		r = append(r, e.obl[k])
	}
	return r
}

// Oblige records an obligation; it fails if it fails in any context.
func (e *Engine) Oblige(fr *Frame, in ssa.Instruction, kind string, ok bool, st *State, note string) {
	if !e.rec {
		return
	}
	if e.H.Oblig != nil {
		e.H.Oblig(e, fr, in, kind, ok, st)
	}
	if !e.CheckPanics {
		return
	}
	if !ok && e.DebugFail {
		fmt.Println("FAIL", kind, note, "\n"+DebugState(st))
	}
	e.Record(fr, in, kind, ok, note)
}

// Record adds an obligation of a check.
func (e *Engine) Record(fr *Frame, in ssa.Instruction, kind string, ok bool, note string) {
	if !e.rec {
		return
	}
	fn := "?"
	var pos token.Position
	if fr != nil {
		fn = ShortName(fr.Fn)
		pos = e.Prog.Fset.Position(fr.Fn.Pos())
	}
	if in != nil {
		if p := instrPos(in); p.IsValid() {
			pos = e.Prog.Fset.Position(p)
		}
	}
	key := fmt.Sprintf("%s|%s|%s", kind, fn, pos)
	if in != nil {
		key += fmt.Sprintf("|%p", in)
	}
	o := e.obl[key]
	if o == nil {
		o = &Obligation{Kind: kind, Pos: pos, Fn: fn, OK: true}
		e.obl[key] = o
		e.oblOrder = append(e.oblOrder, key)
	}
	if !ok {
		if o.OK {
			o.Note = note
			if fr != nil {
				o.Note += " [via " + fr.Stack() + "]"
			}
		}
		o.OK = false
	}
}

// InstrPos is the position of an instruction or of an operand.
func InstrPos(in ssa.Instruction) token.Pos { return instrPos(in) }

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// take the position of an operand or of a neighbour
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o != nil && (*o).Pos().IsValid() {
			if i, ok := (*o).(ssa.Instruction); ok && i.Parent() == in.Parent() {
				return (*o).Pos()
			}
		}
	}
	return token.NoPos
}

// ShortName is the function's name without module path.
func ShortName(f *ssa.Function) string {
	s := f.String()
	return strings.ReplaceAll(s, "github.com/anivanovic/gotit/pkg/", "")
}

// InModule tells if the function belongs to the analysed module.
func (e *Engine) InModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Blocks == nil {
		return false
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), e.Mod)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), e.Mod)
	}
	// synthetic wrappers (bound methods, thunks)
	return f.Synthetic != ""
}

// Input declares a harness input: its memory is kept.
func (e *Engine) Input(name string, typ types.Type) *Term {
	t := MkNamed("in:"+name, typ)
	e.inputs[t] = true
	return t
}

// ---- liveness

func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.liveMemo[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				own := map[ssa.Value]bool{}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					own[ph] = true
				}
				for v := range in[s] {
					if !own[v] {
						live[v] = true
					}
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						live[ph.Edges[k]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if ph, ok := ins.(*ssa.Phi); ok {
					live[ph] = true // live on entry (assigned on the edge)
					continue
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if *o != nil {
						switch (*o).(type) {
						case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
						default:
							live[*o] = true
						}
					}
				}
			}
			// phis of b that are never used
			for v := range live {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	e.liveMemo[fn] = in
	return in
}

// ---- weak topological order

type comp struct {
	b    *ssa.BasicBlock
	loop bool
	body []*comp
	set  map[*ssa.BasicBlock]bool
}

func (e *Engine) wto(fn *ssa.Function) []*comp {
	if w, ok := e.wtoMemo[fn]; ok {
		return w
	}
	dfn := map[*ssa.BasicBlock]int{}
	const inf = 1 << 30
	num := 0
	var stack []*ssa.BasicBlock
	var visit func(v *ssa.BasicBlock, part *[]*comp) int
	component := func(v *ssa.BasicBlock) *comp {
		var p []*comp
		for _, w := range v.Succs {
			if dfn[w] == 0 {
				visit(w, &p)
			}
		}
		c := &comp{b: v, loop: true, body: p, set: map[*ssa.BasicBlock]bool{v: true}}
		var coll func(cs []*comp)
		coll = func(cs []*comp) {
			for _, x := range cs {
				c.set[x.b] = true
				coll(x.body)
			}
		}
		coll(p)
		return c
	}
	visit = func(v *ssa.BasicBlock, part *[]*comp) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, w := range v.Succs {
			m := dfn[w]
			if m == 0 {
				m = visit(w, part)
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]*comp{component(v)}, *part...)
			} else {
				*part = append([]*comp{{b: v}}, *part...)
			}
		}
		return head
	}
	var part []*comp
	visit(fn.Blocks[0], &part)
	e.wtoMemo[fn] = part
	return part
}

// ---- state sets

type stateSet struct {
	keys []string
	m    map[string]*State
}

func (ss *stateSet) list() []*State {
	if ss == nil {
		return nil
	}
	r := make([]*State, 0, len(ss.keys))
	for _, k := range ss.keys {
		r = append(r, ss.m[k])
	}
	return r
}

const maxParts = 48

func (e *Engine) insert(ss *stateSet, key string, st *State) {
	if ss.m == nil {
		ss.m = map[string]*State{}
	}
	if i := strings.IndexByte(key, '~'); i >= 0 {
		key = key[:i]
	}
	if len(ss.keys) >= maxParts {
		key = "*" + st.monKey()
	}
	k := key
	for n := 0; ; n++ {
		o, ok := ss.m[k]
		if !ok {
			if len(ss.keys) >= maxParts && n > 0 {
				break
			}
			ss.keys = append(ss.keys, k)
			ss.m[k] = st
			return
		}
		if sameState(o, st) {
			return
		}
		if n >= e.Disj {
			break
		}
		k = key + "~" + strconv.Itoa(n)
	}
	j, _ := e.join(ss.m[key], st, 0)
	ss.m[key] = j
}

func sameState(a, b *State) bool {
	if a == b {
		return true
	}
	if len(a.env) != len(b.env) || len(a.heap) != len(b.heap) || len(a.cons) != len(b.cons) || len(a.lits) != len(b.lits) || len(a.objs) != len(b.objs) || len(a.ghost) != len(b.ghost) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			return false
		}
	}
	for k, v := range a.objs {
		if b.objs[k] != v {
			return false
		}
	}
	for i := range a.cons {
		if a.cons[i].key() != b.cons[i].key() {
			return false
		}
	}
	for k, v := range a.lits {
		if w, ok := b.lits[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// partKey partitions states at a merge point.
func (e *Engine) partKey(fr *Frame, st *State) string {
	if e.H.Norm != nil {
		e.H.Norm(e, fr, st)
	}
	var b strings.Builder
	b.WriteString(st.monKey())
	type kv struct{ k, v string }
	var ks []kv
	for v, t := range st.env {
		if c := classify(st, t, v.Type()); c != "" {
			ks = append(ks, kv{v.Name(), c})
		} else if e.isEnum(v.Type()) {
			if t.Op == "int" {
				ks = append(ks, kv{v.Name(), t.Aux})
			} else if l := linOf(t); len(l.ts) == 1 {
				e.enumAtoms[l.ts[0].a] = true
			}
		}
	}
	// what was found out about an enumeration's value matters also after the
	// last use of the variable that held it
	for _, c := range st.cons {
		if c.eq && len(c.l.ts) == 1 && e.enumAtoms[c.l.ts[0].a] {
			ks = append(ks, kv{c.l.ts[0].a.String(), c.l.k.String()})
		}
	}
	for a, t := range st.heap {
		if a.Op == "faddr" {
			if p, ok := a.Typ.(*types.Pointer); ok && e.isEnum(p.Elem()) {
				if v := st.enumValue(t); v != "" {
					ks = append(ks, kv{a.Aux, v})
				}
			}
		}
		if a.Op == "alloc" {
			if c := classify(st, t, t.Typ); c != "" {
				ks = append(ks, kv{a.Aux, c})
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k || ks[i].k == ks[j].k && ks[i].v < ks[j].v })
	for _, x := range ks {
		b.WriteString("|" + x.k + x.v)
	}
	if e.Keys != nil {
		b.WriteString("#" + e.Keys(fr, st))
	}
	return b.String()
}

func (e *Engine) isEnum(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && e.enums[n.Obj()]
}

// enumValue is the known value of an enumeration, without much effort.
func (s *State) enumValue(t *Term) string {
	if t.Op == "int" {
		return t.Aux
	}
	l := linOf(t)
	if len(l.ts) != 1 {
		return ""
	}
	for _, c := range s.cons {
		if c.eq && len(c.l.ts) == 1 && c.l.ts[0].a == l.ts[0].a {
			return "=" + c.l.k.String()
		}
	}
	return ""
}

// classify maps booleans and errors to a constant where known.
func classify(st *State, t *Term, typ types.Type) string {
	switch t.Op {
	case "rvzero", "rv", "rvv", "rtype":
		return t.Op + t.Aux
	}
	if isBoolType(typ) || t == True || t == False {
		switch st.Truth(t) {
		case 1:
			return "T"
		case -1:
			return "F"
		}
		return ""
	}
	if t.Op == "nil" {
		return "n"
	}
	if typ == nil {
		return ""
	}
	switch u := typ.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() == 1 && u.Method(0).Name() == "Error" {
			switch st.Nilness(t) {
			case 1:
				return "n"
			case -1:
				return "N"
			}
		}
		if t.Op == "iface" {
			return "i" + t.Aux
		}
	case *types.Pointer:
		if t.Nullable || t.Op == "nil" || t.Op == "alloc" {
			switch st.Nilness(t) {
			case 1:
				return "n"
			case -1:
				return "N"
			}
		}
	}
	return ""
}

// ---- running functions

type region struct {
	in   map[*ssa.BasicBlock]*stateSet
	rets []Exit
}

func (r *region) at(b *ssa.BasicBlock) *stateSet {
	s := r.in[b]
	if s == nil {
		s = &stateSet{}
		r.in[b] = s
	}
	return s
}

// Run interprets fn on the arguments; free are the closure's bindings.
func (e *Engine) Run(fr *Frame, fn *ssa.Function, args, free []*Term, st *State) []Exit {
	e.Funcs[fn]++
	if fr.Depth > e.maxDepth {
		panic("inlining too deep: " + fr.Stack())
	}
	caller := st
	e.suspended = append(e.suspended, caller)
	defer func() { e.suspended = e.suspended[:len(e.suspended)-1] }()
	s := st.clone()
	s.env = map[ssa.Value]*Term{}
	s.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			s.env[f] = free[i]
		}
	}
	if e.H.Enter != nil {
		e.H.Enter(e, fr, args, s)
	}
	reg := &region{in: map[*ssa.BasicBlock]*stateSet{}}
	e.insert(reg.at(fn.Blocks[0]), "", s)
	e.runComps(fr, e.wto(fn), reg)
	// merge exits by result class
	type grp struct {
		key string
		x   Exit
	}
	var gs []*grp
	for _, x := range reg.rets {
		if e.H.Leave != nil {
			e.H.Leave(e, fr, args, x)
		}
		if x.St.dead {
			continue
		}
		x.St.env = map[ssa.Value]*Term{}
		for i, r := range x.Res {
			x.St.env[retSlot(fn, i)] = r
		}
		x.St.defers = nil
		e.prune(x.St)
		k := e.partKey(fr, x.St)
		for i, r := range x.Res {
			if r.Op == "int" && constResult(fn, i) {
				k += "|" + strconv.Itoa(i) + "=" + r.Aux
			}
		}
		// partition boolean and error results
		done := false
		var first *grp
		cnt := 0
		for _, g := range gs {
			if g.key == k {
				if sameState(g.x.St, x.St) {
					done = true
					break
				}
				if first == nil {
					first = g
				}
				cnt++
			}
		}
		if !done && first != nil && (cnt > e.DisjExit || len(gs) >= maxParts) {
			first.x.St, _ = e.join(first.x.St, x.St, 0)
			done = true
		}
		if !done {
			gs = append(gs, &grp{k, x})
		}
	}
	var out []Exit
	for _, g := range gs {
		n := len(g.x.Res)
		res := make([]*Term, n)
		for i := range res {
			res[i] = g.x.St.env[retSlot(fn, i)]
		}
		g.x.St.env = caller.env
		c := g.x.St.clone()
		c.defers = caller.defers
		out = append(out, Exit{c, res})
	}
	return out
}

var constRes = map[string]bool{}

// constResult tells whether every return of fn returns one of a few constant
// integers in place i: a table, which callers look up to decide by.
func constResult(fn *ssa.Function, i int) bool {
	key := fmt.Sprintf("%s#%d", fn.String(), i)
	if v, ok := constRes[key]; ok {
		return v
	}
	vals := map[string]bool{}
	ok := isIntType(fn.Signature.Results().At(i).Type())
	var add func(v ssa.Value, depth int)
	add = func(v ssa.Value, depth int) {
		switch v := v.(type) {
		case *ssa.Const:
			vals[v.String()] = true
		case *ssa.Phi:
			if depth > 3 {
				ok = false
				return
			}
			for _, x := range v.Edges {
				add(x, depth+1)
			}
		default:
			ok = false
		}
	}
	for _, b := range fn.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && ok {
			add(r.Results[i], 0)
		}
	}
	ok = ok && len(vals) <= 8
	constRes[key] = ok
	return ok
}

var retSlots = map[string]ssa.Value{}

func retSlot(fn *ssa.Function, i int) ssa.Value {
	t := fn.Signature.Results().At(i).Type()
	k := fmt.Sprintf("%s#%d", fn.String(), i)
	if v, ok := retSlots[k]; ok {
		return v
	}
	v := &slotVal{name: fmt.Sprintf("ret%d", i), typ: t, fn: fn}
	retSlots[k] = v
	return v
}

type slotVal struct {
	ssa.Value
	name string
	typ  types.Type
	fn   *ssa.Function
}

func (s *slotVal) Name() string     { return s.name }
func (s *slotVal) Type() types.Type { return s.typ }

func (e *Engine) runComps(fr *Frame, cs []*comp, reg *region) {
	for _, c := range cs {
		if c.loop {
			e.runLoop(fr, c, reg)
			continue
		}
		ss := reg.in[c.b]
		delete(reg.in, c.b)
		for _, st := range ss.list() {
			e.execBlock(fr, c.b, st, reg)
		}
	}
}

// loopPass runs the loop body once from the head states.
func (e *Engine) loopPass(fr *Frame, c *comp, heads []*State) *region {
	r := &region{in: map[*ssa.BasicBlock]*stateSet{}}
	for _, st := range heads {
		e.execBlock(fr, c.b, st.clone(), r)
	}
	e.runComps(fr, c.body, r)
	return r
}

func (e *Engine) commit(r, into *region, c *comp) {
	for b, ss := range r.in {
		if c.set[b] {
			continue
		}
		for _, k := range ss.keys {
			e.insert(into.at(b), k, ss.m[k])
		}
	}
	into.rets = append(into.rets, r.rets...)
}

func (r *region) leaves(c *comp) bool {
	if len(r.rets) > 0 {
		return true
	}
	for b, ss := range r.in {
		if !c.set[b] && len(ss.keys) > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) runLoop(fr *Frame, c *comp, reg *region) {
	heads := reg.in[c.b]
	delete(reg.in, c.b)
	if heads == nil || len(heads.keys) == 0 {
		return
	}
	saved := e.rec
	defer func() { e.rec = saved }()
	// unroll while the loop cannot leave
	cur := heads
	for n := 0; n < 70; n++ {
		e.rec = false
		r := e.loopPass(fr, c, cur.list())
		back := r.in[c.b]
		if back == nil || len(back.keys) == 0 {
			// never comes back: last (or only) round
			e.rec = saved
			if saved {
				r = e.loopPass(fr, c, cur.list())
			}
			e.commit(r, reg, c)
			return
		}
		if e.Unroll && n <= 66 && r.leaves(c) && e.counted(c.b, c.set, cur.list()) {
			e.rec = saved
			if saved {
				r = e.loopPass(fr, c, cur.list())
				back = r.in[c.b]
			}
			e.commit(r, reg, c)
			cur = back
			continue
		}
		if r.leaves(c) || len(back.keys) > 4 && !e.Unroll || n > 66 {
			break
		}
		e.rec = saved
		if saved {
			r = e.loopPass(fr, c, cur.list())
			back = r.in[c.b]
		}
		cur = back
	}
	// fixpoint
	head := &stateSet{m: map[string]*State{}}
	dj := e.Disj
	e.Disj = 0
	for _, k := range cur.keys {
		st := cur.m[k]
		e.target = c.b
		e.insert(head, e.partKey(fr, st), st)
		e.target = nil
	}
	e.Disj = dj
	joined := map[string]int{}           // how often a partition was widened
	symOf := map[string]map[*Term]bool{} // symbols made by this head
	for it := 0; ; it++ {
		if it > 40 {
			panic("loop does not stabilise: " + fr.Stack() + " " + e.Prog.Fset.Position(c.b.Instrs[0].Pos()).String())
		}
		e.rec = false
		r := e.loopPass(fr, c, head.list())
		back := r.in[c.b]
		if back == nil {
			break
		}
		stable := true
		next := &stateSet{m: map[string]*State{}}
		for _, k := range head.keys {
			next.keys = append(next.keys, k)
			next.m[k] = head.m[k]
		}
		for _, bk := range back.list() {
			bk = bk.clone()
			e.prune(bk)
			e.target = c.b
			k := e.partKey(fr, bk)
			e.target = nil
			if _, ok := next.m[k]; !ok && len(next.keys) >= maxParts {
				k = "*" + bk.monKey()
			}
			old, ok := next.m[k]
			if !ok {
				next.keys = append(next.keys, k)
				next.m[k] = bk
				stable = false
				continue
			}
			if sameState(old, bk) {
				continue
			}
			n, j := e.join(old, bk, joined[k])
			joined[k]++
			if symOf[k] == nil {
				symOf[k] = map[*Term]bool{}
			}
			if e.DebugLoop {
				fmt.Printf("-- loop %s it %d key %s gen %d\n", ShortName(fr.Fn), it, k, j.gen)
				for kk, s := range j.pairs {
					fmt.Printf("     %s <- %s | %s\n", s, kk[0], kk[1])
				}
				for _, cc := range bk.cons {
					fmt.Printf("   b:  %s\n", cc)
				}
				for _, cc := range n.cons {
					fmt.Printf("     %s\n", cc)
				}
			}
			live := e.prune(n)
			if !e.stableJoin(old, n, j, symOf[k], live) {
				stable = false
			}
			for _, s := range j.pairs {
				for _, l := range leaves(s) {
					symOf[k][l] = true
				}
			}
			if it > 14 {
				// give up relations of the head's own symbols
				own := symOf[k]
				about := func(t *Term) bool {
					for _, l := range leaves(t) {
						if own[l] {
							return true
						}
					}
					return false
				}
				var keep []Con
				for _, c := range n.cons {
					bad := false
					for _, t := range c.l.ts {
						bad = bad || about(t.a)
					}
					if !bad {
						keep = append(keep, c)
					}
				}
				n.cons = keep
				if it > 20 {
					for l := range n.lits {
						if about(l) {
							delete(n.lits, l)
						}
					}
				}
			}
			e.prune(n)
			next.m[k] = n
		}
		head = next
		if stable {
			break
		}
	}
	e.rec = saved
	if e.H.Head != nil {
		for _, st := range head.list() {
			e.H.Head(e, fr, c.b, st)
		}
	}
	r := e.loopPass(fr, c, head.list())
	if e.H.Back != nil {
		if back := r.in[c.b]; back != nil {
			for _, st := range back.list() {
				e.H.Back(e, fr, c.b, st)
			}
		}
	}
	e.commit(r, reg, c)
}

// stableJoin tells if the join n of old and the back edge says the same as old
// up to renaming of the head's own symbols.
func (e *Engine) stableJoin(old, n *State, j *joiner, own, live map[*Term]bool) bool {
	why := func(f string, a ...any) {
		if e.DebugLoop {
			fmt.Printf("   UNSTABLE "+f+"\n", a...)
		}
	}
	ren := map[*Term]*Term{}
	for k, s := range j.pairs {
		if k[0] == s {
			continue
		}
		if (s.Op == "sym" || s.Op == "isym") && !live[s] {
			continue
		}
		// left side must be a plain symbol of this head
		if (k[0].Op == "sym" || k[0].Op == "isym") && own[k[0]] {
			if r, ok := ren[k[0]]; ok && r != s {
				why("split %s: %s %s", k[0], r, s)
				return false
			}
			ren[k[0]] = s
			continue
		}
		if s.Op == "sym" || s.Op == "isym" {
			why("new %s <- %s | %s", s, k[0], k[1])
			return false
		}
	}
	memo := map[*Term]*Term{}
	for _, c := range old.cons {
		l := Lin{k: c.l.k}
		ok := true
		for _, t := range c.l.ts {
			var o bool
			l, o = l.addMul(linOf(subst(t.a, ren, memo)), t.c)
			ok = ok && o
		}
		if !ok || !n.entailsCon(Con{l: l, eq: c.eq}) {
			why("lost %s", c)
			return false
		}
	}
	for l, v := range old.lits {
		t := n.Truth(subst(l, ren, memo))
		if !(t == 1 && v || t == -1 && !v) {
			why("lost lit %s", l)
			return false
		}
	}
	return true
}

// offs are the lengths in use which differ from an atom by a constant.
func (e *Engine) templateAtoms(c *State) (r []*Term, offs []Lin) {
	seen := map[*Term]bool{}
	seenOff := map[string]bool{}
	add := func(t *Term) {
		for _, q := range linOf(t).ts {
			if !seen[q.a] {
				seen[q.a] = true
				r = append(r, q.a)
			}
		}
	}
	val := func(t *Term, typ types.Type) {
		if t.IsInt() {
			add(t)
			return
		}
		if typ != nil {
			if _, ok := typ.Underlying().(*types.Slice); ok && t.Op != "nil" {
				_, _, ln, _ := sliceParts(t)
				add(ln)
				if l := linOf(ln); len(l.ts) == 1 && l.k.Sign() != 0 && l.ts[0].c == 1 {
					if k := fmt.Sprint(l.ts[0].a.ID, "/", l.k); !seenOff[k] {
						seenOff[k] = true
						offs = append(offs, l)
					}
				}
			} else if isStringType(typ) {
				add(clen(t))
			}
		}
	}
	if w := c.Ghost("watch"); w != nil {
		add(w)
	}
	for v, t := range c.env {
		val(t, v.Type())
	}
	sort.Slice(offs, func(x, y int) bool {
		if p, q := offs[x].ts[0].a.ID, offs[y].ts[0].a.ID; p != q {
			return p < q
		}
		return offs[x].k.Cmp(offs[y].k) < 0
	})
	if len(offs) > 4 {
		offs = offs[:4]
	}
	return r, offs
}

// execBlock runs one block and propagates along its edges.
func (e *Engine) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, reg *region) {
	cur := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.Steps++
		switch x := in.(type) {
		case *ssa.If:
			for _, s := range cur {
				c := e.val(s, x.Cond)
				switch s.Truth(c) {
				case 1:
					e.edge(fr, b, 0, s, reg)
				case -1:
					e.edge(fr, b, 1, s, reg)
				default:
					f := s.clone()
					if s.Assume(c, true) {
						if e.H.Assumed != nil {
							e.H.Assumed(e, fr, s)
						}
						if !s.dead {
							e.edge(fr, b, 0, s, reg)
						}
					}
					if f.Assume(c, false) {
						if e.H.Assumed != nil {
							e.H.Assumed(e, fr, f)
						}
						if !f.dead {
							e.edge(fr, b, 1, f, reg)
						}
					}
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				e.edge(fr, b, 0, s, reg)
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				res := make([]*Term, len(x.Results))
				for i, r := range x.Results {
					res[i] = e.val(s, r)
				}
				reg.rets = append(reg.rets, Exit{s, res})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				e.Oblige(fr, in, "explicit panic", false, s, "panic is reachable")
			}
			return
		}
		var next []*State
		for _, s := range cur {
			for _, n := range e.step(fr, in, s) {
				if !n.dead {
					next = append(next, n)
				}
			}
		}
		cur = next
		if len(cur) == 0 {
			return
		}
	}
}

func (e *Engine) edge(fr *Frame, b *ssa.BasicBlock, i int, st *State, reg *region) {
	succ := b.Succs[i]
	pi := -1
	for k, p := range succ.Preds {
		if p == b {
			// with two edges between the same blocks take the i-th
			if pi < 0 || i == 1 && len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
				pi = k
			}
		}
	}
	live := e.liveIn(b.Parent())[succ]
	env := map[ssa.Value]*Term{}
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		env[ph] = e.val(st, ph.Edges[pi])
	}
	for v, t := range st.env {
		if live[v] {
			if _, ok := env[v]; !ok {
				env[v] = t
			}
		}
	}
	n := st.clone()
	n.env = env
	e.target = succ
	k := e.partKey(fr, n)
	e.target = nil
	e.insert(reg.at(succ), k, n)
}

// val is the term of an SSA value.
func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return mkRef("func", fmt.Sprintf("%s/%p", x.String(), x), x.Type(), x)
	case *ssa.Global:
		return mkRef("global", x.String(), x.Type(), x)
	case *ssa.Builtin:
		return MkNamed("builtin:"+x.Name(), nil)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), v.Parent()))
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return MkBool(constant.BoolVal(c.Value))
	case constant.String:
		return MkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return MkOp("float", c.Value.ExactString(), t)
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			return mkBigInt(n)
		}
	}
	return MkOp("float", c.Value.ExactString(), t)
}
