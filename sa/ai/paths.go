package ai

// File paths are terms join(parts): nested joins are flattened, which does not
// change the resulting path; elems(s) stands for the elements of a slice.

// MkJoin is the path joined from the parts.
func MkJoin(parts ...*Term) *Term {
	var ps []*Term
	for _, p := range parts {
		switch {
		case p.Op == "fn" && p.Aux == "filepath.Join":
			ps = append(ps, p.Args...)
		case p.Op == "fn" && p.Aux == "filepath.Clean" && len(parts) > 1:
			ps = append(ps, p.Args...)
		default:
			ps = append(ps, p)
		}
	}
	return MkOp("fn", "filepath.Join", strType, ps...)
}

// MkIsLocal tells if a path is local.
func MkIsLocal(p *Term) *Term {
	if p.Op == "fn" && (p.Aux == "filepath.Join" && len(p.Args) == 1 && p.Args[0].Op != "elems" || p.Aux == "filepath.Clean") {
		p = p.Args[0]
	}
	return MkOp("fn", "filepath.IsLocal", boolType, p)
}

// MkElems stands for the elements of a slice of strings.
func MkElems(s *Term) *Term { return MkOp("elems", "", nil, s) }

func init() {
	for _, pkg := range []string{"path/filepath.", "path."} {
		models[pkg+"Join"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			s := c.Args[0]
			o, off, n, _ := sliceParts(s)
			if k, ok := n.Int64(); ok && k <= 16 {
				var ps []*Term
				for i := int64(0); i < k; i++ {
					ps = append(ps, st.Content(e.load(st, mkIaddr(o, MkAdd(off, MkInt(i)), strType), strType)))
				}
				return ret(st, MkJoin(ps...))
			}
			return ret(st, MkJoin(MkElems(s)))
		}
		models[pkg+"Clean"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			p := st.Content(c.Args[0])
			if p.Op == "fn" && (p.Aux == "filepath.Join" || p.Aux == "filepath.Clean") {
				return ret(st, p)
			}
			return ret(st, MkOp("fn", "filepath.Clean", strType, p))
		}
		models[pkg+"Dir"] = func(e *Engine, c *CallCtx, st *State) []Exit {
			return ret(st, MkOp("fn", "filepath.Dir", strType, st.Content(c.Args[0])))
		}
	}
	models["path/filepath.IsLocal"] = func(e *Engine, c *CallCtx, st *State) []Exit {
		return ret(st, MkIsLocal(st.Content(c.Args[0])))
	}
}
