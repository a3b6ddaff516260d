package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gotitsa/ai"
)

func init() {
	register(&Check{ID: "C28", Rule: "abstract interpretation of the whole program from main, with the command line library modelled (any command, any flag values, or a usage error): main does not return normally, and no call ends the program with status zero, in a state in which a step that reads the configuration, makes the logger, examines the output directory, reads or decodes the torrent file, opens the torrent or downloads has failed; the torrent is opened only in states in which the output directory was found to be a directory and the decoding succeeded; the values of the flags reach the uses they are for; a log level other than the supported ones is refused; the bencode command succeeds only after it printed what was decoded", Run: func(c *Ctx) {
		c.program()
		c.logSettings()
		for _, w := range []string{"failure shows in the exit status: configuration", "failure shows in the exit status: log settings", "failure shows in the exit status: torrent file", "failure shows in the exit status: decoding", "failure shows in the exit status: torrent", "failure shows in the exit status: download", "failure shows in the exit status: output directory", "failure shows in the exit status: command line", "decoded metadata is shown",
			"torrent is opened after the checks", "options are used: output directory", "options are used: torrent file", "options are used: number of peers", "options are used: port", "options are used: log level", "options are used: configuration file"} {
			c.AtLeast(w, 1, "places in the commands")
		}
	}})
}

// program runs main with all commands.
func (c *Ctx) program() {
	mn := c.fn("cmd/gotit.main")
	h := c.newHarness(mn)
	h.e.DisjExit, h.e.Disj = 32, 16
	rec := func(id string, fr *ai.Frame, in ssa.Instruction, rule string, ok bool, note string) {
		if c.ID == id {
			h.e.Record(fr, in, rule, ok, note)
		}
	}
	flags := map[string]*ai.Term{} // name to value
	var places [][2]*ai.Term       // pointer, value
	var argv *ai.Term
	flag := func(name *ai.Term, t types.Type) *ai.Term {
		n := "?"
		if name.Op == "str" {
			n = name.Aux
		}
		if v := flags[n]; v != nil && types.Identical(v.Typ, t) {
			return v
		}
		v := h.e.Input("flag:"+n, t)
		h.keep(v)
		flags[n] = v
		return v
	}
	is := func(st *ai.State, v *ai.Term, name string) bool {
		f := flags[name]
		if f == nil || v == nil {
			return false
		}
		if isStr(f.Typ) {
			return st.Same(st.Content(v), st.Content(f))
		}
		return st.EqInt(v, f)
	}
	// failures
	fail := func(st *ai.State, step string) { st.SetMon("fail", st.Mon("fail")+step+";") }
	// unreported are the steps that failed on the way to st and must show
	unreported := func(st *ai.State) []string {
		var r []string
		for _, s := range strings.Split(st.Mon("fail"), ";") {
			if s == "" {
				continue
			}
			if s == "configuration" && flags["config"] != nil {
				err := st.Ghost("cfgerr")
				none := st.Mon("notfound") != "" || err != nil && st.Truth(ai.MkOp("typeis", "github.com/spf13/viper.ConfigFileNotFoundError", types.Typ[types.Bool], err)) == 1
				if none && st.Is(ai.Clen(st.Content(flags["config"])), 0) {
					continue // there is no configuration and none was asked for
				}
			}
			r = append(r, s)
		}
		return r
	}
	// a command that ends well after decoding a file without opening it shows it
	unshown := func(st *ai.State) bool {
		return st.Mon("decoded") == "yes" && st.Mon("torrent") == "" && st.Mon("shown") == "" && st.Mon("fail") == ""
	}
	end := func(fr *ai.Frame, in ssa.Instruction, st *ai.State, code *ai.Term, how string) {
		for _, s := range unreported(st) {
			ok := code != nil && st.LE(ai.MkInt(1), code) && st.LE(code, ai.MkInt(255))
			rec("C28", fr, in, "failure shows in the exit status: "+s, ok, "the program ends with "+how+" although this failed: "+s)
		}
		if code != nil && st.Is(code, 0) && st.Mon("decoded") == "yes" && st.Mon("torrent") == "" {
			rec("C28", fr, in, "decoded metadata is shown", !unshown(st), "a command ends successfully without printing the metadata it decoded")
		}
	}
	owned := func(fr *ai.Frame, in ssa.Instruction, st *ai.State) {
		if st.Mon("torrent") != "" {
			rec("C30", fr, in, "the download command closes its torrent", st.Mon("torrent") == "closed", "the command returns without closing the torrent ("+st.Mon("torrent")+")")
		}
	}
	errRes := func(cc *ai.CallCtx, x ai.Exit) *ai.Term {
		if len(x.Res) == 0 {
			return nil
		}
		e := x.Res[len(x.Res)-1]
		if x.St.Nilness(e) == 1 {
			return nil
		}
		return e
	}
	two := func(st *ai.State, cc *ai.CallCtx) []ai.Exit { return h.e.Default(cc, st, false) }
	metaT := c.typ("pkg/bencode", "Metainfo")
	torrentPtr := c.typ("pkg/torrent", "Torrent")

	named := map[string]string{} // function to role
	for n, role := range map[string]string{"pkg/torrent.New": "new", "pkg/torrent.Torrent.Close": "close", "pkg/download.NewMng": "mng", "pkg/download.Manager.Download": "download", "pkg/download.Manager.Stop": "stop", "pkg/bencode.Unmarshal": "unmarshal", "pkg/logger.NewCommandLine": "logger"} {
		named[c.fn(n).String()] = role
	}
	h.e.H.Call = func(e *ai.Engine, cc *ai.CallCtx, st *ai.State) ([]ai.Exit, bool) {
		in := site(cc)
		name := cc.Name
		if cc.Fn != nil {
			name = cc.Fn.String()
			if strings.HasPrefix(name, "(*github.com/anivanovic/gotit/pkg/bencode.Metainfo)") || strings.HasPrefix(name, "(github.com/anivanovic/gotit/pkg/bencode.Metainfo)") {
				xs := two(st, cc)
				for _, x := range xs {
					if len(x.Res) == 1 && isStr(cc.Sig.Results().At(0).Type()) {
						x.St.SetGhost("text", x.St.Content(x.Res[0]))
					}
				}
				return xs, true
			}
		}
		m := cc.Method()
		if printsTo(name) && st.Mon("shown") == "" {
			for _, a := range cc.Args {
				if g := st.Ghost("text"); g != nil && mentions(st, a, g, 4) {
					st.SetMon("shown", "1")
				} else if g := st.Ghost("meta"); g != nil && mentions(st, a, g, 4) {
					st.SetMon("shown", "1")
				}
			}
		}
		switch role := named[name]; role {
		case "new":
			rec("C28", cc.Fr, in, "torrent is opened after the checks", st.Mon("isdir") == "yes" && st.Mon("decoded") == "yes", "the torrent is opened although the output directory or the torrent file may not have been checked (directory: "+st.Mon("isdir")+", decoded: "+st.Mon("decoded")+")")
			ok := false
			for i, p := range cc.Fn.Params {
				if isStr(p.Type()) {
					ok = is(st, cc.Args[i], "out")
				}
			}
			for i, p := range cc.Fn.Params {
				if pt, isp := p.Type().Underlying().(*types.Pointer); isp && types.Identical(pt.Elem(), metaT) {
					raw := st.Field(cc.Args[i], metaT, "InfoDictRaw")
					g := st.Ghost("raw")
					rec("C24", cc.Fr, in, "metadata is opened as decoded", g != nil && st.Same(st.Content(raw), g), "the torrent is opened with other raw info bytes than those decoded")
				}
			}
			rec("C28", cc.Fr, in, "options are used: output directory", ok, "the torrent is opened in another directory than the one given")
			bad := st.Clone()
			fail(bad, "torrent")
			t := h.e.Reuse(st, "torrent", ptrTo(torrentPtr), false)
			st.SetMon("torrent", "open")
			return []ai.Exit{{St: st, Res: []*ai.Term{t, ai.Zero(types.Universe.Lookup("error").Type())}}, {St: bad, Res: []*ai.Term{ai.Zero(ptrTo(torrentPtr)), h.err(bad)}}}, true
		case "close":
			st.SetMon("torrent", "closed")
			return two(st, cc), true
		case "mng":
			ints := 0
			var limit, port *ai.Term
			for i, p := range cc.Fn.Params {
				if types.Identical(p.Type(), types.Typ[types.Int]) {
					ints++
					if strings.Contains(strings.ToLower(p.Name()), "port") || ints == 2 && port == nil {
						port = cc.Args[i]
					} else if limit == nil {
						limit = cc.Args[i]
					}
				}
			}
			rec("C28", cc.Fr, in, "options are used: number of peers", is(st, limit, "num-peer"), "the maximum number of peers is not the one given")
			rec("C28", cc.Fr, in, "options are used: port", is(st, port, "port"), "the port is not the one given")
			return two(st, cc), true
		case "download":
			bad := st.Clone()
			fail(bad, "download")
			return []ai.Exit{{St: st, Res: []*ai.Term{ai.Zero(types.Universe.Lookup("error").Type())}}, {St: bad, Res: []*ai.Term{h.err(bad)}}}, true
		case "stop":
			return two(st, cc), true
		case "unmarshal":
			bad := st.Clone()
			fail(bad, "decoding")
			st.SetMon("decoded", "yes")
			f := st.Ghost("file")
			rec("C24", cc.Fr, in, "what is decoded is what was read", f != nil && st.Same(st.Content(cc.Args[0]), f), "other bytes than those read from the file are decoded")
			if v := cc.Args[1]; v.Op == "iface" {
				st.SetGhost("meta", v.Args[0])
				if a, ft := ai.FieldAddrOf(v.Args[0], metaT, "InfoDictRaw"); a != nil && types.Identical(v.Ref.(types.Type), ptrTo(metaT)) {
					raw := ai.MkSym("raw", ft)
					st.Store(a, raw, ft)
					st.SetGhost("raw", st.Content(raw))
				}
			}
			return []ai.Exit{{St: st, Res: []*ai.Term{ai.Zero(types.Universe.Lookup("error").Type())}}, {St: bad, Res: []*ai.Term{h.err(bad)}}}, true
		case "logger":
			rec("C28", cc.Fr, in, "options are used: log level", is(st, cc.Args[0], "log-level") && is(st, cc.Args[1], "log-format"), "the logger is not made from the level and format given")
			xs := two(st, cc)
			for _, x := range xs {
				if errRes(cc, x) != nil {
					fail(x.St, "log settings")
				}
			}
			return xs, true
		}
		switch {
		case name == "os.Exit":
			end(cc.Fr, in, st, cc.Args[0], "status "+cc.Args[0].String())
			return nil, true
		case strings.HasPrefix(m, "Fatal") && (strings.Contains(name, "go.uber.org/zap") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.")):
			end(cc.Fr, in, st, ai.MkInt(1), "status 1")
			return nil, true
		case strings.HasPrefix(name, "(*github.com/spf13/cobra.Command).Execute"):
			return c.execute(h, cc, st, func(s *ai.State) {
				for _, p := range places {
					s.Store(p[0], p[1], p[1].Typ)
				}
			}, &argv, fail, func(s *ai.State) { owned(cc.Fr, in, s) }), true
		case name == "(*github.com/spf13/cobra.Command).AddCommand":
			if o, off, n, _ := ai.SliceParts(cc.Args[1]); true {
				k, ok := n.Int64()
				if !ok {
					panic(missing("number of commands added"))
				}
				ct := cc.Args[0].Typ
				for i := int64(0); i < k; i++ {
					x := st.Load(ai.IndexAddr(o, ai.MkAdd(off, ai.MkInt(i)), ct), ct)
					k := len(st.Mon("cmds"))
					st.SetGhost("cmd:"+string(rune('a'+k)), x)
					st.SetMon("cmds", st.Mon("cmds")+"c")
				}
			}
			return two(st, cc), true
		case strings.HasPrefix(name, "(*github.com/spf13/pflag.FlagSet)."):
			switch {
			case strings.Contains(m, "Var") && len(cc.Args) > 2 && isPtrType(cc.Args[1].Typ):
				t := cc.Args[1].Typ.Underlying().(*types.Pointer).Elem()
				places = append(places, [2]*ai.Term{cc.Args[1], flag(st.Content(cc.Args[2]), t)})
				h.keep(cc.Args[1])
			case strings.HasPrefix(m, "Get") && len(cc.Args) == 2 && cc.Sig.Results().Len() == 2:
				return []ai.Exit{{St: st, Res: []*ai.Term{flag(st.Content(cc.Args[1]), cc.Sig.Results().At(0).Type()), ai.Zero(types.Universe.Lookup("error").Type())}}}, true
			case cc.Sig.Results().Len() == 1 && len(cc.Args) > 2 && isPtrType(cc.Sig.Results().At(0).Type()) && isStr(cc.Args[1].Typ):
				if t := cc.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem(); !types.IsInterface(t) {
					if _, ok := t.Underlying().(*types.Struct); !ok {
						p := st.Alloc(t, "flag")
						places = append(places, [2]*ai.Term{p, flag(st.Content(cc.Args[1]), t)})
						h.keep(p)
						return []ai.Exit{{St: st, Res: []*ai.Term{p}}}, true
					}
				}
			}
			return two(st, cc), true
		case strings.Contains(name, "spf13/cobra"), strings.Contains(name, "spf13/viper"):
			if m == "SetConfigFile" {
				rec("C28", cc.Fr, in, "options are used: configuration file", is(st, cc.Args[len(cc.Args)-1], "config"), "the configuration is not read from the file given")
			}
			if n := cc.Sig.Results().Len(); n == 1 && m != "ReadInConfig" && m != "MergeInConfig" && !strings.HasPrefix(m, "Unmarshal") {
				return []ai.Exit{{St: st, Res: []*ai.Term{h.e.Reuse(st, m, cc.Sig.Results().At(0).Type(), types.IsInterface(cc.Sig.Results().At(0).Type()))}}}, true
			}
			xs := two(st, cc)
			if m == "ReadInConfig" || m == "MergeInConfig" || strings.HasPrefix(m, "Unmarshal") {
				for _, x := range xs {
					if e := errRes(cc, x); e != nil {
						fail(x.St, "configuration")
						x.St.SetGhost("cfgerr", e)
					}
				}
			}
			return xs, true
		case name == "os.Open", name == "os.ReadFile":
			ok := false
			if argv != nil {
				o, off, _, _ := ai.SliceParts(argv)
				want := st.Load(ai.IndexAddr(o, off, types.Typ[types.String]), types.Typ[types.String])
				ok = st.Same(st.Content(cc.Args[0]), st.Content(want))
			}
			rec("C28", cc.Fr, in, "options are used: torrent file", ok, "another file than the one given is read")
		}
		return nil, false
	}
	h.e.H.After = func(e *ai.Engine, cc *ai.CallCtx, x ai.Exit) {
		name := cc.Name
		if cc.Method() == "IsDir" && strings.Contains(name, "File") {
			name = "IsDir"
		}
		switch name {
		case "os.Open", "os.ReadFile", "io.ReadAll":
			if errRes(cc, x) != nil {
				fail(x.St, "torrent file")
			} else if name != "os.Open" {
				x.St.SetGhost("file", x.St.Content(x.Res[0]))
			}
		case "os.Stat", "os.Lstat":
			if errRes(cc, x) != nil {
				fail(x.St, "output directory")
			} else {
				x.St.SetGhost("stat", x.Res[0])
				if is(x.St, cc.Args[0], "out") {
					x.St.SetMon("stat", "out")
				}
			}
		case "errors.As":
			if x.Res[0] == ai.True && len(cc.Args) == 2 && cc.Args[0] == x.St.Ghost("cfgerr") && strings.Contains(typeName(cc.Args[1]), "ConfigFileNotFoundError") {
				x.St.SetMon("notfound", "1")
			}
		case "IsDir":
			if x.St.Mon("stat") == "out" {
				x.St.SetGhost("isdir", x.Res[0])
			}
		}
	}
	h.e.H.Assumed = func(e *ai.Engine, fr *ai.Frame, st *ai.State) {
		d := st.Ghost("isdir")
		if d == nil || st.Mon("isdir") != "" {
			return
		}
		switch st.Truth(d) {
		case 1:
			st.SetMon("isdir", "yes")
		case -1:
			st.SetMon("isdir", "no")
			fail(st, "output directory")
		}
	}
	for _, x := range h.call(mn, nil, h.st) {
		if c.ID == "C28" && x.St.Mon("decoded") == "yes" && x.St.Mon("torrent") == "" && x.St.Mon("fail") == "" {
			c.ObligeFn(!unshown(x.St), "decoded metadata is shown", mn, "a command ends successfully without printing the metadata it decoded")
		}
		for _, s := range unreported(x.St) {
			if c.ID == "C28" {
				c.ObligeFn(false, "failure shows in the exit status: "+s, mn, "the program ends normally, with status 0, although this failed: "+s)
			}
		}
	}
	c.Absorb(h.e)
}

// printsTo: library functions that write their arguments out.
func printsTo(name string) bool {
	return strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "(*os.File).Write") || name == "io.WriteString" || name == "io.Copy" || strings.HasPrefix(name, "(*bufio.Writer).Write") || strings.HasPrefix(name, "(io.Writer).Write") || strings.HasPrefix(name, "(*log.Logger).Print") || strings.HasPrefix(name, "log.Print")
}

func isPtrType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func typeName(v *ai.Term) string {
	if t := ai.DynType(v); t != nil {
		return types.TypeString(t, nil)
	}
	return ""
}

// err is some error.
func (h *harness) err(st *ai.State) *ai.Term {
	return h.e.Reuse(st, "err", types.Universe.Lookup("error").Type(), false)
}

// execute models the command line library: a usage error, or any of the
// commands runs with the arguments it accepts.
func (c *Ctx) execute(h *harness, cc *ai.CallCtx, st *ai.State, parse func(*ai.State), argv **ai.Term, fail func(*ai.State, string), done func(*ai.State)) []ai.Exit {
	noErr := ai.Zero(types.Universe.Lookup("error").Type())
	usage := st.Clone()
	fail(usage, "command line")
	out := []ai.Exit{{St: usage, Res: []*ai.Term{h.err(usage)}}}
	ct := cc.Args[0].Typ.Underlying().(*types.Pointer).Elem()
	for i := range st.Mon("cmds") {
		cmd := st.Ghost("cmd:" + string(rune('a'+i)))
		s := st.Clone()
		parse(s)
		s.SetMon("cmd", string(rune('0'+i)))
		args := h.e.Input("args", types.NewSlice(types.Typ[types.String]))
		h.keep(args)
		*argv = args
		if a := s.Field(cmd, ct, "Args"); a != nil && a.Op != "nil" {
			s.Assume(ai.MkGE(ai.MkLen(args), ai.MkInt(1)), true)
		}
		ran := false
		for _, f := range []string{"Run", "RunE"} {
			fn := s.Field(cmd, ct, f)
			if fn == nil || fn.Op != "closure" && fn.Op != "func" {
				continue
			}
			ran = true
			for _, x := range h.e.CallValue(cc.Fr, fn, []*ai.Term{cmd, args}, cc.Site, s.Clone()) {
				done(x.St)
				e := noErr
				if f == "RunE" {
					e = x.Res[0]
				}
				out = append(out, ai.Exit{St: x.St, Res: []*ai.Term{e}})
			}
		}
		if !ran {
			panic(missing("function a command runs"))
		}
	}
	return out
}

// logSettings: only the supported levels make a logger.
func (c *Ctx) logSettings() {
	fn := c.fn("pkg/logger.NewCommandLine")
	h := c.newHarness(fn)
	h.e.DisjExit, h.e.Disj = 64, 32
	args := h.args(fn)
	h.keep(args...)
	for i, what := range []string{"level", "format"} {
		for _, x := range h.call(fn, args, h.st) {
			if x.St.Nilness(x.Res[1]) == -1 {
				continue
			}
			lv := x.St.Content(args[i])
			silent := i == 1 && x.St.Same(x.St.Content(args[0]), ai.MkStr("silent"))
			c.ObligeFn(silent || x.St.EqualsConst(lv), "an unknown log "+what+" is refused", fn, "a logger is made for any log "+what)
		}
	}
	c.AtLeast("an unknown log level is refused", 1, "loggers made")
}
