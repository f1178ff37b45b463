package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C19", Gen: true, Explain: "Every operation of the decoding functions (the runtime's and the generated ones) that can panic: indexing, slicing, type assertions, division, shifts by signed counts, allocations, explicit panics, calls of function values and uses of pointers and interfaces that may be nil. Each has to be discharged by the guards that dominate it, the ranges of its operands, or what is known of the value (how it was made, that its variable was set on every path, that the state of its object implies it was set).", Run: runC19})
}

type pan struct {
	*allocs
	c     *Ctx
	store map[*types.Var][]fieldStore // stores to fields of the module, by field
	cmp   map[*types.Var]bool         // fields compared with nil
	lits  map[*types.Named][]*ssa.Alloc
	state map[string]int
	kids  map[string]*kidList
	all   []*ssa.Function
	busy  map[string]bool
	inv   map[string][]*ssa.Call // calls through interfaces, by method
}

type fieldStore struct {
	fn *ssa.Function
	st *ssa.Store
	fa *ssa.FieldAddr
}

func originField(t types.Type, i int) *types.Var {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return nil
	}
	return s.Field(i).Origin()
}

func newPan(c *Ctx) *pan {
	w := c.World
	p := &pan{allocs: newAllocs(w), c: c, store: map[*types.Var][]fieldStore{}, cmp: map[*types.Var]bool{}, lits: map[*types.Named][]*ssa.Alloc{}, state: map[string]int{}, kids: map[string]*kidList{}, busy: map[string]bool{}, inv: map[string][]*ssa.Call{}}
	// what decoders call through interfaces
	for again := true; again; {
		again = false
		names := map[string]bool{}
		for f := range p.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Call); ok && x.Call.IsInvoke() {
						names[x.Call.Method.Name()] = true
					}
				}
			}
		}
		for _, f := range w.FnsIn("", "ztype", "zstream") {
			if f.Signature.Recv() != nil && names[f.Name()] && !p.fns[f] && f.Blocks != nil {
				p.add(f)
				again = true
			}
		}
	}
	for f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Call); ok && x.Call.IsInvoke() {
					p.inv[x.Call.Method.Name()] = append(p.inv[x.Call.Method.Name()], x)
				}
			}
		}
	}
	p.all = append(w.FnsIn("", "ztype", "zstream"), w.GenFns...)
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if v := originField(fa.X.Type(), fa.Field); v != nil {
							p.store[v] = append(p.store[v], fieldStore{f, x, fa})
						}
					}
				case *ssa.BinOp:
					if x.Op == token.EQL || x.Op == token.NEQ {
						for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
							if isNilConst(pr[1]) {
								if u, ok := pr[0].(*ssa.UnOp); ok && u.Op == token.MUL {
									if fa, ok := u.X.(*ssa.FieldAddr); ok {
										if v := originField(fa.X.Type(), fa.Field); v != nil {
											p.cmp[v] = true
										}
									}
								}
							}
						}
					}
				case *ssa.Alloc:
					if n, ok := derefNamed(x.Type()); ok {
						p.lits[n.Origin()] = append(p.lits[n.Origin()], x)
					}
				}
			}
		}
	}
	return p
}

// ---- names of places ----

type place struct {
	root ssa.Value
	sel  string
}

// onlyStore: the one value a variable is given.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if v != nil {
				return nil
			}
			v = s.Val
		}
	}
	return v
}

func (p *pan) placeOf(v ssa.Value) place {
	sel := ""
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return place{v, sel}
			}
			v = x.X
		case *ssa.FieldAddr:
			sel = "." + fieldName(x.X.Type(), x.Field) + sel
			v = x.X
		case *ssa.Field:
			sel = "." + fieldName(x.X.Type(), x.Field) + sel
			v = x.X
		case *ssa.IndexAddr:
			c, ok := x.Index.(*ssa.Const)
			if !ok {
				return place{v, sel}
			}
			sel = "[" + c.Value.String() + "]" + sel
			v = x.X
		case *ssa.Alloc:
			s := onlyStore(x)
			if s == nil {
				return place{v, sel}
			}
			if _, ok := s.(*ssa.Parameter); !ok {
				if _, ok := s.(*ssa.UnOp); !ok {
					if _, ok := s.(*ssa.Call); !ok {
						return place{v, sel}
					}
				}
			}
			v = s
		case *ssa.FreeVar:
			mc := p.closure[x.Parent()]
			if mc == nil {
				return place{v, sel}
			}
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					v = mc.Bindings[i]
				}
			}
		case *ssa.Call:
			// what a getter gives
			g := originOf(x.Call.StaticCallee())
			if g == nil || len(g.Blocks) != 1 || len(x.Call.Args) != 1 {
				return place{v, sel}
			}
			r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				return place{v, sel}
			}
			in := p.placeOf(r.Results[0])
			if in.root != ssa.Value(g.Params[0]) || in.sel == "" {
				return place{v, sel}
			}
			sel = in.sel + sel
			v = x.Call.Args[0]
		default:
			return place{v, sel}
		}
	}
	return place{v, sel}
}

func (p *pan) same(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	return p.placeOf(stripConv(x)) == p.placeOf(stripConv(y))
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.Convert:
			v = c.X
		case *ssa.ChangeType:
			v = c.X
		default:
			return v
		}
	}
}

// ---- what guards say ----

// expand breaks conditions down to what they imply.
func (p *pan) expand(gs []guard) []guard {
	var out []guard
	for len(gs) > 0 {
		g := gs[0]
		gs = gs[1:]
		if len(out) > 200 {
			break
		}
		switch x := g.cond.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				gs = append(gs, guard{x.X, !g.val})
				continue
			}
		case *ssa.Phi:
			// a && b, or a || b
			var rest []int
			for i, e := range x.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != g.val {
					continue
				}
				rest = append(rest, i)
			}
			if len(rest) == 1 {
				gs = append(gs, guard{x.Edges[rest[0]], g.val})
				gs = append(gs, edgeGuards(x.Block().Preds[rest[0]], x.Block())...)
			}
		}
		out = append(out, g)
	}
	return out
}

func (p *pan) guards(b *ssa.BasicBlock) []guard { return p.expand(guards(b)) }

// nilTest: the condition tells whether a place is nil.
func (p *pan) nilTest(g guard) (place, bool, bool) {
	switch x := g.cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return place{}, false, false
		}
		o := x.X
		if isNilConst(x.X) {
			o = x.Y
		} else if !isNilConst(x.Y) {
			return place{}, false, false
		}
		return p.placeOf(o), (x.Op == token.EQL) == g.val, true
	case *ssa.Call:
		f := originOf(x.Call.StaticCallee())
		if f == nil || len(f.Blocks) != 1 {
			return place{}, false, false
		}
		r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			return place{}, false, false
		}
		in, isNil, ok := p.nilTest(guard{r.Results[0], g.val})
		if !ok {
			return place{}, false, false
		}
		for i, q := range f.Params {
			if in.root == ssa.Value(q) && i < len(x.Call.Args) {
				o := p.placeOf(x.Call.Args[i])
				return place{o.root, o.sel + in.sel}, isNil, true
			}
		}
	}
	return place{}, false, false
}

func (p *pan) knownNonNil(v ssa.Value, gs []guard) bool {
	return p.nonNilPlace(p.placeOf(v), gs)
}

// lastGuard: what the branch at the end of p says when it goes to b.
func lastGuard(p, b *ssa.BasicBlock) []guard {
	if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		return []guard{{br.Cond, p.Succs[0] == b}}
	}
	return nil
}

func (p *pan) nonNilPlace(pl place, gs []guard) bool {
	for _, g := range gs {
		if q, isNil, ok := p.nilTest(g); ok && !isNil && q == pl {
			return true
		}
	}
	return false
}

// contradicts: both cannot hold.
func (p *pan) contradicts(xs, ys []guard) bool {
	for _, x := range xs {
		for _, y := range ys {
			if x.val != y.val && p.sameCond(x.cond, y.cond) {
				return true
			}
			px, nx, okx := p.nilTest(x)
			py, ny, oky := p.nilTest(y)
			if okx && oky && px == py && nx != ny {
				return true
			}
		}
	}
	return false
}

func (p *pan) sameCond(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	bx, ok1 := x.(*ssa.BinOp)
	by, ok2 := y.(*ssa.BinOp)
	if ok1 && ok2 {
		return bx.Op == by.Op && p.sameOperand(bx.X, by.X) && p.sameOperand(bx.Y, by.Y)
	}
	if ok1 || ok2 {
		return false
	}
	px, py := p.placeOf(x), p.placeOf(y)
	return px == py && px.sel != ""
}

func (p *pan) sameOperand(x, y ssa.Value) bool {
	cx, ok1 := x.(*ssa.Const)
	cy, ok2 := y.(*ssa.Const)
	if ok1 && ok2 {
		return cx.Value == cy.Value || cx.Value != nil && cy.Value != nil && constant.Compare(cx.Value, token.EQL, cy.Value)
	}
	return p.same(x, y)
}

// errChecked: the guards say that the call has not failed.
func (p *pan) errChecked(c *ssa.Call, gs []guard) bool {
	for _, g := range gs {
		x, ok := g.cond.(*ssa.BinOp)
		if !ok || x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != g.val {
			continue
		}
		o := x.X
		if isNilConst(x.X) {
			o = x.Y
		} else if !isNilConst(x.Y) {
			continue
		}
		if errorOf(o, c) {
			return true
		}
	}
	return false
}

func errorOf(o ssa.Value, c *ssa.Call) bool {
	switch y := o.(type) {
	case *ssa.Extract:
		return y.Tuple == ssa.Value(c)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if x, ok := e.(*ssa.Extract); ok && x.Tuple == ssa.Value(c) {
				return true
			}
		}
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					if x, ok := s.Val.(*ssa.Extract); ok && x.Tuple == ssa.Value(c) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- nil ----

type nilness int

const (
	notNil nilness = iota
	maybeNil
	unknownNil
)

// nonNil decides whether a value may be nil where the guards hold. at is where
// it is used.
func (p *pan) nonNil(v ssa.Value, gs []guard, ok map[*ssa.Call]bool, seen map[ssa.Value]bool, depth int) (nilness, string) {
	if p.knownNonNil(v, gs) {
		return notNil, ""
	}
	if depth > 10 {
		return unknownNil, ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return maybeNil, "nil"
		}
		return notNil, ""
	case *ssa.MakeInterface:
		switch x.X.Type().Underlying().(type) {
		case *types.Pointer:
			return p.nonNil(x.X, gs, ok, seen, depth+1)
		}
		return notNil, ""
	case *ssa.ChangeType:
		return p.nonNil(x.X, gs, ok, seen, depth+1)
	case *ssa.ChangeInterface:
		return p.nonNil(x.X, gs, ok, seen, depth+1)
	case *ssa.MultiConvert:
		return p.nonNil(x.X, gs, ok, seen, depth+1)
	case *ssa.Parameter:
		f := x.Parent()
		cs := p.calls[f]
		if len(cs) == 0 || token.IsExported(f.Name()) || f.Parent() != nil {
			return notNil, "" // the caller's to see to
		}
		for i, q := range f.Params {
			if q != x || seen[x] {
				continue
			}
			seen[x] = true
			worst := notNil
			why := ""
			for _, c := range cs {
				if i < len(c.Common().Args) {
					if n, s := p.nonNil(c.Common().Args[i], p.guards(c.Block()), ok, seen, depth+1); n == maybeNil || n != notNil && worst == notNil {
						worst, why = n, s
					}
				}
			}
			return worst, why
		}
		return notNil, ""
	case *ssa.Phi:
		if seen[x] {
			return notNil, ""
		}
		seen[x] = true
		worst, why := notNil, ""
		for i, e := range x.Edges {
			eg := p.expand(edgeGuards(x.Block().Preds[i], x.Block()))
			if p.contradicts(eg, gs) {
				continue
			}
			// what held where the value is used holds here too, unless it has changed
			n, s := p.nonNil(e, append(append([]guard{}, eg...), gs...), ok, seen, depth+1)
			if n == maybeNil || n != notNil && worst == notNil {
				worst, why = n, s
			}
		}
		return worst, why
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			for _, g := range gs {
				if e, k := g.cond.(*ssa.Extract); k && e.Tuple == x.Tuple && e.Index == 1 && g.val {
					return notNil, ""
				}
			}
			return maybeNil, "a type assertion that may have failed"
		case *ssa.Lookup:
			for _, g := range gs {
				if e, k := g.cond.(*ssa.Extract); k && e.Tuple == x.Tuple && e.Index == 1 && g.val {
					return notNil, ""
				}
			}
			return maybeNil, "an entry that may be missing"
		case *ssa.Call:
			return p.result(t, x.Index, gs, ok, seen, depth)
		}
		return notNil, ""
	case *ssa.Call:
		return p.result(x, 0, gs, ok, seen, depth)
	case *ssa.Lookup:
		return unknownNil, ""
	case *ssa.Field:
		return unknownNil, ""
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return p.loaded(x, gs, ok, seen, depth)
		}
	}
	return notNil, ""
}

// result: whether a result of a call may be nil.
func (p *pan) result(c *ssa.Call, ix int, gs []guard, ok map[*ssa.Call]bool, seen map[ssa.Value]bool, depth int) (nilness, string) {
	g := originOf(c.Call.StaticCallee())
	if g == nil || !p.ours(g) {
		return notNil, ""
	}
	key := g.String()
	if p.busy[key] {
		return notNil, ""
	}
	p.busy[key] = true
	defer delete(p.busy, key)
	checked := ok[c] || p.errChecked(c, gs)
	for _, b := range g.Blocks {
		r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR || ix >= len(r.Results) {
			continue
		}
		last := r.Results[len(r.Results)-1]
		fails := ix != len(r.Results)-1 && isErrorType(last.Type())
		if fails && surelyError(last, b) && checked {
			continue
		}
		sub := map[*ssa.Call]bool{}
		if fails && checked {
			if e, k := last.(*ssa.Extract); k {
				if cc, k := e.Tuple.(*ssa.Call); k {
					sub[cc] = true
				}
			}
		}
		n, s := p.nonNil(r.Results[ix], p.guards(b), sub, map[ssa.Value]bool{}, depth+2)
		if n == maybeNil {
			if fails && surelyError(last, b) {
				s = "the result of " + short(g) + ", which may have failed"
			}
			return n, s
		}
		if n != notNil {
			return n, s
		}
	}
	return notNil, ""
}

// loaded: whether what is stored at a place may be nil.
func (p *pan) loaded(u *ssa.UnOp, gs []guard, ok map[*ssa.Call]bool, seen map[ssa.Value]bool, depth int) (nilness, string) {
	pl := p.placeOf(u.X)
	if g, k := pl.root.(*ssa.Global); k {
		return p.global(g, pl.sel, u)
	}
	// what was stored before, on each path
	n, s, entry := p.before(u, u.X, gs, ok, seen, depth)
	if !entry || n == maybeNil {
		return n, s
	}
	if n == unknownNil {
		return n, s
	}
	switch a := u.X.(type) {
	case *ssa.Alloc:
		return maybeNil, "a variable that was not set"
	case *ssa.FreeVar:
		mc := p.closure[a.Parent()]
		if mc == nil {
			return unknownNil, ""
		}
		for i, fv := range a.Parent().FreeVars {
			if fv != a {
				continue
			}
			al, k := mc.Bindings[i].(*ssa.Alloc)
			if !k {
				return unknownNil, ""
			}
			for _, r := range *al.Referrers() {
				if st, k := r.(*ssa.Store); k && st.Addr == al {
					if n, s := p.nonNil(st.Val, p.guards(st.Block()), ok, seen, depth+1); n != notNil {
						return unknownNil, s
					}
				}
			}
			return notNil, ""
		}
		return unknownNil, ""
	case *ssa.IndexAddr:
		return p.childNil(u, pl)
	case *ssa.FieldAddr:
		return p.fieldNil(u, a, gs)
	}
	return unknownNil, ""
}

// before looks back for the stores to a place. entry: there is a way from the
// place's beginning without one.
func (p *pan) before(u ssa.Instruction, addr ssa.Value, gs []guard, ok map[*ssa.Call]bool, seen map[ssa.Value]bool, depth int) (nilness, string, bool) {
	pl := p.placeOf(addr)
	al, local := addr.(*ssa.Alloc)
	if fa, k := addr.(*ssa.FieldAddr); k {
		al, local = fa.X.(*ssa.Alloc)
	}
	if local && onlyStore(al) != nil && addr == ssa.Value(al) {
		// given once: a captured parameter or variable
		if s := onlyStore(al); s != nil {
			for _, r := range *al.Referrers() {
				if st, k := r.(*ssa.Store); k && st.Addr == al && st.Block().Dominates(u.Block()) {
					n, why := p.nonNil(s, append(p.guards(st.Block()), gs...), ok, seen, depth+1)
					return n, why, false
				}
			}
		}
	}
	worst, why, entry := notNil, "", false
	visited := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, from int)
	back = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if x.Addr == addr || p.placeOf(x.Addr) == pl && pl.sel != "" {
					n, s := p.nonNil(x.Val, append(p.guards(x.Block()), gs...), ok, seen, depth+1)
					if n == maybeNil || n != notNil && worst == notNil {
						worst, why = n, s
					}
					return
				}
				if local && x.Addr == ssa.Value(al) {
					if worst == notNil {
						worst = unknownNil
					}
					return
				}
			case *ssa.Alloc:
				if local && x == al {
					entry = true
					return
				}
			case ssa.CallInstruction:
				if local {
					for _, a := range x.Common().Args {
						if a == ssa.Value(al) || a == addr {
							if worst == notNil {
								worst = unknownNil
							}
							return
						}
					}
				}
			}
		}
		if len(b.Preds) == 0 {
			entry = true
		}
		for _, q := range b.Preds {
			if visited[q] || p.contradicts(p.expand(edgeGuards(q, b)), gs) {
				continue
			}
			visited[q] = true
			if p.nonNilPlace(pl, p.expand(lastGuard(q, b))) {
				continue
			}
			back(q, len(q.Instrs)-1)
		}
	}
	for i, in := range u.Block().Instrs {
		if in == u {
			back(u.Block(), i-1)
		}
	}
	if local && entry && worst == notNil {
		// something else may have written it
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.MakeClosure:
				return unknownNil, "", true
			case *ssa.Store:
				if x.Val == ssa.Value(al) {
					return unknownNil, "", true
				}
			}
		}
		return maybeNil, "a variable that was not set", true
	}
	return worst, why, entry
}

// global: a pointer of a package level variable is set by the initializer.
func (p *pan) global(g *ssa.Global, sel string, at ssa.Instruction) (nilness, string) {
	key := "G:" + g.String() + sel
	if n, ok := p.state[key]; ok {
		return nilness(n), "the package level variable " + g.Name() + sel
	}
	init := g.Pkg.Func("init")
	n := unknownNil
	if init != nil && inModule(init) {
		n = maybeNil
		for _, f := range initFns(g.Pkg) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					q := p.placeOf(st.Addr)
					if q.root != ssa.Value(g) {
						continue
					}
					if q.sel == sel {
						if r, _ := p.nonNil(st.Val, nil, nil, map[ssa.Value]bool{}, 0); r != maybeNil {
							n = notNil
						}
					} else if strings.HasPrefix(sel, q.sel) {
						// the whole is stored: look into the literal
						n2 := p.litField(st.Val, strings.TrimPrefix(sel, q.sel))
						if n2 != maybeNil {
							n = n2
						}
					}
				}
			}
		}
	}
	p.state[key] = int(n)
	return n, "the package level variable " + g.Name() + sel
}

func (p *pan) litField(v ssa.Value, sel string) nilness {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return unknownNil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return unknownNil
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || "."+fieldName(fa.X.Type(), fa.Field) != sel {
			continue
		}
		for _, s := range *fa.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
				n, _ := p.nonNil(st.Val, nil, nil, map[ssa.Value]bool{}, 0)
				return n
			}
		}
	}
	return maybeNil
}

// childNil: whether a child of a packing context may be nil.
func (p *pan) childNil(u *ssa.UnOp, pl place) (nilness, string) {
	var k int
	if !strings.HasPrefix(pl.sel, ".children[") {
		return unknownNil, ""
	}
	if _, err := fmt.Sscanf(pl.sel, ".children[%d]", &k); err != nil {
		return unknownNil, ""
	}
	n := p.receiver(u.Parent())
	if n == nil || !p.gen[pkgPath(n)] {
		return unknownNil, ""
	}
	kl := p.contextOf(n)
	if kl.err != nil || k >= len(kl.kids) {
		return unknownNil, ""
	}
	return kl.kids[k].nil, "a child of a packing context"
}

// fieldNil: whether a field of an object that came from elsewhere may be nil.
func (p *pan) fieldNil(u *ssa.UnOp, fa *ssa.FieldAddr, gs []guard) (nilness, string) {
	fv := originField(fa.X.Type(), fa.Field)
	if fv == nil {
		return unknownNil, ""
	}
	name := "the field " + fv.Name()
	own := p.placeOf(fa.X)
	// a flag of the same object that implies it
	for _, g := range gs {
		c, ok := g.cond.(*ssa.UnOp)
		if !ok || c.Op != token.MUL || !g.val {
			continue
		}
		bf, ok := c.X.(*ssa.FieldAddr)
		if !ok || p.placeOf(bf.X) != own {
			continue
		}
		if p.implies(originField(bf.X.Type(), bf.Field), fv) {
			return notNil, ""
		}
	}
	// set by whatever makes the object
	n, isN := derefNamed(fa.X.Type())
	made := fmt.Sprintf("M:%p", fv)
	if p.busy[made] {
		return notNil, "" // copied from another of its kind
	}
	if isN && !fv.Exported() && len(p.lits[n.Origin()]) > 0 {
		all := true
		p.busy[made] = true
		defer delete(p.busy, made)
		for _, al := range p.lits[n.Origin()] {
			if p.litSets(al, fv) != notNil {
				all = false
			}
		}
		for _, s := range p.store[fv] {
			if r, _ := p.nonNil(s.st.Val, p.guards(s.st.Block()), nil, map[ssa.Value]bool{}, 4); r == maybeNil {
				all = false
			}
		}
		if all {
			return notNil, ""
		}
	}
	if p.cmp[fv] || len(p.store[fv]) > 0 && !fv.Exported() {
		// a method that only the user's code calls leaves it to that code
		f := u.Parent()
		if len(p.calls[f]) == 0 && fv.Exported() && f.Signature.Recv() != nil && own.root == ssa.Value(f.Params[0]) && own.sel == "" && !p.invoked(f) {
			return unknownNil, ""
		}
		// a helper: its callers have seen to it
		if !token.IsExported(f.Name()) && len(p.calls[f]) > 0 {
			all := true
			for _, c := range p.calls[f] {
				ok := false
				for i, q := range f.Params {
					if own.root == ssa.Value(q) && i < len(c.Common().Args) {
						o := p.placeOf(c.Common().Args[i])
						want := place{o.root, o.sel + own.sel + "." + fv.Name()}
						for _, g := range p.guards(c.Block()) {
							if t, isNil, k := p.nilTest(g); k && !isNil && t == want {
								ok = true
							}
						}
					}
				}
				all = all && ok
			}
			if all {
				return notNil, ""
			}
		}
		return maybeNil, name + ", which may not be set"
	}
	if isN && p.gen[pkgPath(n)] {
		return maybeNil, name + ", which may be absent"
	}
	return unknownNil, ""
}

func pkgPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// invoked: something calls a method of this name through an interface that is
// not this type's own.
func (p *pan) invoked(f *ssa.Function) bool {
	for g := range p.fns {
		if g == f {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Call); ok && x.Call.IsInvoke() && x.Call.Method.Name() == f.Name() {
					return true
				}
			}
		}
	}
	return false
}

func (p *pan) litSets(al *ssa.Alloc, fv *types.Var) nilness {
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || originField(fa.X.Type(), fa.Field) != fv {
			continue
		}
		for _, s := range *fa.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
				n, _ := p.nonNil(st.Val, p.guards(st.Block()), nil, map[ssa.Value]bool{}, 4)
				return n
			}
		}
	}
	return maybeNil
}

// implies: wherever a decoder sets the flag, it sets the field too before it
// succeeds.
func (p *pan) implies(flag, field *types.Var) bool {
	if flag == nil || field == nil {
		return false
	}
	if b, ok := flag.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	key := fmt.Sprintf("I:%p:%p", flag, field)
	if n, ok := p.state[key]; ok {
		return n == 1
	}
	p.state[key] = 0
	some := false
	for _, s := range p.store[flag] {
		if !p.fns[s.fn] {
			continue
		}
		if c, ok := s.st.Val.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
			continue
		}
		some = true
		if !p.setsAfter(s.fn, s.st.Block(), s.st, field, map[*ssa.Function]bool{}) {
			return false
		}
	}
	// and it is never cleared
	for _, s := range p.store[field] {
		if r, _ := p.nonNil(s.st.Val, p.guards(s.st.Block()), nil, map[ssa.Value]bool{}, 4); r == maybeNil && p.fns[s.fn] {
			return false
		}
	}
	if some {
		p.state[key] = 1
	}
	return some
}

// setsAfter: every success of the function from here on comes after the field
// was set.
func (p *pan) setsAfter(f *ssa.Function, b *ssa.BasicBlock, from ssa.Instruction, field *types.Var, busy map[*ssa.Function]bool) bool {
	visited := map[string]bool{}
	infeasible := func(known, edge []guard) bool {
		for _, x := range edge {
			for _, y := range known {
				if x.cond == y.cond && x.val != y.val {
					return true
				}
			}
		}
		return false
	}
	// the flag was set before: what it stands for has been done
	again := func(g guard) bool {
		st, ok := from.(*ssa.Store)
		if !ok || !g.val {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		u, ok := g.cond.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fb, ok := u.X.(*ssa.FieldAddr)
		if !ok || originField(fb.X.Type(), fb.Field) != originField(fa.X.Type(), fa.Field) || p.placeOf(fb.X) != p.placeOf(fa.X) {
			return false
		}
		if u.Block() != st.Block() {
			return u.Block().Dominates(st.Block())
		}
		for _, in := range st.Block().Instrs {
			if in == ssa.Instruction(u) {
				return true
			}
			if in == from {
				return false
			}
		}
		return false
	}
	cyclic := func(b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var rec func(x *ssa.BasicBlock) bool
		rec = func(x *ssa.BasicBlock) bool {
			for _, s := range x.Succs {
				if s == b {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if rec(s) {
						return true
					}
				}
			}
			return false
		}
		return rec(b)
	}
	var walk func(b *ssa.BasicBlock, i int, known []guard) bool
	walk = func(b *ssa.BasicBlock, i int, known []guard) bool {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && originField(fa.X.Type(), fa.Field) == field {
					return true
				}
			case *ssa.Call:
				g := originOf(x.Call.StaticCallee())
				if g != nil && p.ours(g) && g.Signature.Recv() != nil && !busy[g] {
					busy[g] = true
					ok := len(g.Blocks) > 0 && p.setsAfter(g, g.Blocks[0], nil, field, busy)
					delete(busy, g)
					if ok {
						return true
					}
				}
			case *ssa.Return:
				n := len(x.Results)
				return n > 0 && isErrorType(x.Results[n-1].Type()) && surelyError(x.Results[n-1], b)
			case *ssa.Panic:
				return true
			}
		}
		for _, s := range b.Succs {
			edge := p.expand(lastGuard(b, s))
			if infeasible(known, edge) {
				continue
			}
			// it was set before
			set := false
			for _, g := range edge {
				if again(g) {
					set = true
				}
				if bo, ok := g.cond.(*ssa.BinOp); ok {
					for _, o := range []ssa.Value{bo.X, bo.Y} {
						if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && originField(fa.X.Type(), fa.Field) == field && p.nonNilPlace(p.placeOf(o), []guard{g}) {
								set = true
							}
						}
					}
				}
			}
			next := known
			if !cyclic(b) {
				next = append(append([]guard{}, known...), edge...)
			}
			key := fmt.Sprint(s.Index)
			for _, g := range next {
				key += fmt.Sprintf(" %s=%v", g.cond.Name(), g.val)
			}
			if set || visited[key] {
				continue
			}
			if len(visited) > 2000 {
				return false
			}
			visited[key] = true
			if !walk(s, 0, next) {
				return false
			}
		}
		return true
	}
	start := 0
	if from != nil {
		for i, in := range b.Instrs {
			if in == from {
				start = i + 1
			}
		}
	}
	return walk(b, start, p.guards(b))
}

// ---- ranges ----

type passedArg struct {
	v ssa.Value
	b *ssa.BasicBlock
}

// passed: what decoders pass for a parameter.
func (p *pan) passed(f *ssa.Function, i int) ([]passedArg, bool) {
	var out []passedArg
	for _, c := range p.calls[f] {
		if i >= len(c.Common().Args) {
			return nil, false
		}
		out = append(out, passedArg{c.Common().Args[i], c.Block()})
	}
	if token.IsExported(f.Name()) && f.Signature.Recv() != nil && i > 0 {
		for _, c := range p.inv[f.Name()] {
			if i-1 < len(c.Call.Args) && c.Call.Signature().Params().Len() == f.Signature.Params().Len() {
				out = append(out, passedArg{c.Call.Args[i-1], c.Block()})
			}
		}
	}
	if f.Parent() != nil {
		return nil, false
	}
	return out, len(out) > 0
}

// callersOwn: the value is a parameter that no decoder passes anything for.
func (p *pan) callersOwn(v ssa.Value) bool {
	x, ok := stripConv(v).(*ssa.Parameter)
	if !ok || !token.IsExported(x.Parent().Name()) {
		return false
	}
	for i, q := range x.Parent().Params {
		if q == x {
			_, known := p.passed(x.Parent(), i)
			return !known
		}
	}
	return false
}

type ival struct{ lo, hi *big.Int }

func typeRange(t types.Type) (ival, bool) {
	var bits int
	var uns bool
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// a type parameter
		return ival{new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(64), one)}, false
	}
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Int64, types.Int, types.UntypedInt:
		bits = 64
	case types.Uint8:
		bits, uns = 8, true
	case types.Uint16:
		bits, uns = 16, true
	case types.Uint32:
		bits, uns = 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		bits, uns = 64, true
	default:
		return ival{}, false
	}
	if uns {
		return ival{big.NewInt(0), new(big.Int).Sub(pow2(bits), one)}, true
	}
	return ival{new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), one)}, true
}

var one = big.NewInt(1)

func pow2(n int) *big.Int { return new(big.Int).Lsh(one, uint(n)) }

func (r ival) within(t ival) bool { return r.lo.Cmp(t.lo) >= 0 && r.hi.Cmp(t.hi) <= 0 }

func (r ival) join(t ival) ival {
	if t.lo.Cmp(r.lo) < 0 {
		r.lo = t.lo
	}
	if t.hi.Cmp(r.hi) > 0 {
		r.hi = t.hi
	}
	return r
}

func bmin(x, y *big.Int) *big.Int {
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

func bmax(x, y *big.Int) *big.Int {
	if x.Cmp(y) > 0 {
		return x
	}
	return y
}

// rng: the values that v can have where the guards hold.
func (p *pan) rng(v ssa.Value, gs []guard, seen map[ssa.Value]bool, depth int) ival {
	t, ok := typeRange(v.Type())
	if !ok && t.lo == nil {
		t = ival{new(big.Int).Neg(pow2(64)), pow2(64)}
	}
	if depth > 10 {
		return t
	}
	r := p.rng0(v, gs, t, seen, depth)
	if !r.within(t) {
		r = t
	}
	for _, g := range gs {
		op, ok := g.cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		k := op.Op
		y := op.Y
		if !p.sameInt(op.X, v) {
			if !p.sameInt(op.Y, v) {
				continue
			}
			y = op.X
			switch k {
			case token.LSS:
				k = token.GTR
			case token.LEQ:
				k = token.GEQ
			case token.GTR:
				k = token.LSS
			case token.GEQ:
				k = token.LEQ
			}
		}
		if !g.val {
			k = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[k]
		}
		if y == v || seen[y] {
			continue
		}
		yr := p.rng(y, nil, map[ssa.Value]bool{v: true}, depth+4)
		switch k {
		case token.LSS:
			r.hi = bmin(r.hi, new(big.Int).Sub(yr.hi, one))
		case token.LEQ:
			r.hi = bmin(r.hi, yr.hi)
		case token.GTR:
			r.lo = bmax(r.lo, new(big.Int).Add(yr.lo, one))
		case token.GEQ:
			r.lo = bmax(r.lo, yr.lo)
		case token.EQL:
			r.lo, r.hi = bmax(r.lo, yr.lo), bmin(r.hi, yr.hi)
		case token.NEQ:
			if yr.lo.Cmp(yr.hi) == 0 {
				if yr.lo.Cmp(r.lo) == 0 {
					r.lo = new(big.Int).Add(r.lo, one)
				}
				if yr.lo.Cmp(r.hi) == 0 {
					r.hi = new(big.Int).Sub(r.hi, one)
				}
			}
		}
	}
	return r
}

// sameInt: the same number: a conversion between the two loses nothing.
func (p *pan) sameInt(x, v ssa.Value) bool {
	if x == v {
		return true
	}
	if !p.same(x, v) {
		return false
	}
	return lossless(x) && lossless(v)
}

func lossless(v ssa.Value) bool {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return true
		}
		a, ok1 := typeRange(c.X.Type())
		b, ok2 := typeRange(c.Type())
		if !ok1 || !ok2 || !a.within(b) {
			return false
		}
		v = c.X
	}
}

func (p *pan) rng0(v ssa.Value, gs []guard, t ival, seen map[ssa.Value]bool, depth int) ival {
	rec := func(x ssa.Value) ival { return p.rng(x, gs, seen, depth+1) }
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return ival{big.NewInt(0), big.NewInt(0)}
		}
		if n, ok := new(big.Int).SetString(constant.ToInt(x.Value).ExactString(), 10); ok {
			return ival{n, n}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return t
		}
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.MultiConvert:
		return rec(x.X)
	case *ssa.BinOp:
		a, b := rec(x.X), rec(x.Y)
		switch x.Op {
		case token.ADD:
			if _, k := x.Y.(*ssa.Const); k && counter(x.X) {
				// it does not get as far as to overflow
				return ival{new(big.Int).Add(a.lo, b.lo), bmin(t.hi, new(big.Int).Add(a.hi, b.hi))}
			}
			return ival{new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}
		case token.SUB:
			return ival{new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)}
		case token.MUL:
			var r ival
			for _, m := range []*big.Int{a.lo, a.hi} {
				for _, n := range []*big.Int{b.lo, b.hi} {
					q := new(big.Int).Mul(m, n)
					if r.lo == nil {
						r = ival{q, q}
					}
					r = r.join(ival{q, q})
				}
			}
			return r
		case token.QUO:
			if a.lo.Sign() >= 0 && b.lo.Sign() > 0 {
				return ival{new(big.Int).Quo(a.lo, b.hi), new(big.Int).Quo(a.hi, b.lo)}
			}
		case token.REM:
			if b.lo.Sign() > 0 {
				h := new(big.Int).Sub(b.hi, one)
				if a.lo.Sign() >= 0 {
					return ival{big.NewInt(0), bmin(h, a.hi)}
				}
				return ival{new(big.Int).Neg(h), h}
			}
		case token.AND:
			if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
				return ival{big.NewInt(0), bmin(a.hi, b.hi)}
			}
			if a.lo.Sign() >= 0 {
				return ival{big.NewInt(0), a.hi}
			}
			if b.lo.Sign() >= 0 {
				return ival{big.NewInt(0), b.hi}
			}
		case token.OR, token.XOR:
			if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
				return ival{big.NewInt(0), new(big.Int).Sub(pow2(bmax(a.hi, b.hi).BitLen()), one)}
			}
		case token.SHR:
			if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 && b.lo.IsUint64() && b.lo.Uint64() < 1000 {
				return ival{big.NewInt(0), new(big.Int).Rsh(a.hi, uint(b.lo.Uint64()))}
			}
		case token.SHL:
			if a.lo.Sign() >= 0 && b.hi.IsUint64() && b.hi.Uint64() < 200 {
				return ival{big.NewInt(0), new(big.Int).Lsh(a.hi, uint(b.hi.Uint64()))}
			}
		}
	case *ssa.Phi:
		if seen[x] {
			return t
		}
		seen[x] = true
		defer delete(seen, x)
		var r ival
		for i, e := range x.Edges {
			// a counter: the other edges give where it starts
			if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(x) {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) > 0 {
					q := ival{nil, t.hi}
					if r.lo == nil {
						r = q
					} else {
						r.hi = t.hi
					}
					continue
				}
			}
			er := p.rng(e, p.expand(edgeGuards(x.Block().Preds[i], x.Block())), seen, depth+1)
			if r.lo == nil && r.hi == nil {
				r = er
				continue
			}
			if r.lo == nil {
				r.lo = er.lo
				continue
			}
			r = r.join(er)
		}
		if r.lo == nil {
			return t
		}
		return r
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "copy":
				if n, ok := fixedLen(x.Call.Args[0]); ok && b.Name() != "copy" {
					return ival{big.NewInt(n), big.NewInt(n)}
				}
				return ival{big.NewInt(atLeast(x.Call.Args[0])), t.hi}
			case "min", "max":
				r := rec(x.Call.Args[0])
				for _, y := range x.Call.Args[1:] {
					q := rec(y)
					if b.Name() == "min" {
						r = ival{bmin(r.lo, q.lo), bmin(r.hi, q.hi)}
					} else {
						r = ival{bmax(r.lo, q.lo), bmax(r.hi, q.hi)}
					}
				}
				return r
			}
			return t
		}
		return p.rngResult(x, 0, t, depth)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.rngResult(c, x.Index, t, depth)
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && n.IsString && x.Index == 1 {
			return ival{big.NewInt(0), t.hi}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if seen[x] {
			return t
		}
		seen[x] = true
		defer delete(seen, x)
		for i, q := range f.Params {
			if q != x {
				continue
			}
			var r ival
			add := func(q ival) {
				if r.lo == nil {
					r = q
				} else {
					r = r.join(q)
				}
			}
			args, known := p.passed(f, i)
			if !known {
				return t
			}
			for _, a := range args {
				add(p.rng(a.v, p.guards(a.b), seen, depth+3))
			}
			if r.lo != nil {
				return r
			}
		}
	case *ssa.FreeVar:
		return t
	case *ssa.UnOp:
		if x.Op == token.SUB {
			a := rec(x.X)
			return ival{new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)}
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && !seen[al] {
			seen[al] = true
			defer delete(seen, al)
			r := ival{big.NewInt(0), big.NewInt(0)}
			for _, ref := range *al.Referrers() {
				switch s := ref.(type) {
				case *ssa.Store:
					if s.Addr != ssa.Value(al) {
						return t
					}
					r = r.join(p.rng(s.Val, p.guards(s.Block()), seen, depth+1))
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return t
				}
			}
			return r
		}
	}
	return t
}

// counter: a variable that a loop adds a constant to.
func counter(v ssa.Value) bool {
	x, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range x.Edges {
		if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(x) {
			if _, ok := bo.Y.(*ssa.Const); ok {
				return true
			}
		}
	}
	return false
}

// atLeast: the number of elements that were appended last.
func atLeast(v ssa.Value) int64 {
	c, ok := v.(*ssa.Call)
	if !ok {
		return 0
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return 0
	}
	n, ok := fixedLen(c.Call.Args[1])
	if !ok {
		return 0
	}
	return n
}

func fixedLen(v ssa.Value) (int64, bool) {
	switch a := deref(v.Type()).Underlying().(type) {
	case *types.Array:
		return a.Len(), true
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return fixedLen(x.X)
		}
	case *ssa.MakeSlice:
		if c, ok := x.Len.(*ssa.Const); ok {
			return c.Int64(), true
		}
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return int64(len(constant.StringVal(x.Value))), true
		}
	}
	return 0, false
}

func (p *pan) rngResult(c *ssa.Call, ix int, t ival, depth int) ival {
	g := originOf(c.Call.StaticCallee())
	if g == nil || !p.ours(g) || p.busy["R:"+g.String()] {
		return t
	}
	p.busy["R:"+g.String()] = true
	defer delete(p.busy, "R:"+g.String())
	var r ival
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || ix >= len(ret.Results) {
			continue
		}
		q := p.rng(ret.Results[ix], p.guards(b), map[ssa.Value]bool{}, depth+2)
		if r.lo == nil {
			r = q
		} else {
			r = r.join(q)
		}
	}
	if r.lo == nil {
		return t
	}
	return r
}

// mentions: a guard relates the value to something that is not a constant.
func (p *pan) mentions(v ssa.Value, gs []guard) bool {
	for _, g := range gs {
		op, ok := g.cond.(*ssa.BinOp)
		if !ok {
			if c, ok := g.cond.(*ssa.Call); ok {
				for _, a := range c.Call.Args {
					if p.same(a, v) {
						return true
					}
				}
			}
			continue
		}
		for _, pr := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
			if p.same(pr[0], v) {
				if _, ok := pr[1].(*ssa.Const); !ok {
					return true
				}
			}
		}
	}
	return false
}

type discharge int

const (
	proved discharge = iota
	refuted
	open
)

// isLen: v is the length of s (or of what s was made from by appending).
func (p *pan) isLen(v, s ssa.Value) bool {
	v = stripConv(v)
	if m, ok := s.(*ssa.MakeSlice); ok && (m.Len == v || p.same(m.Len, v)) {
		return true
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	for i := 0; i < 6; i++ {
		if p.same(c.Call.Args[0], s) {
			return true
		}
		ap, ok := s.(*ssa.Call)
		if !ok {
			return false
		}
		if bb, ok := ap.Call.Value.(*ssa.Builtin); !ok || bb.Name() != "append" {
			return false
		}
		s = ap.Call.Args[0]
	}
	return false
}

// below: v < len(s) (or <=, when not strict).
func (p *pan) below(v, s ssa.Value, gs []guard, strict bool) discharge {
	r := p.rng(v, gs, map[ssa.Value]bool{}, 0)
	if n, ok := fixedLen(s); ok {
		m := big.NewInt(n)
		if strict && r.hi.Cmp(m) < 0 || !strict && r.hi.Cmp(m) <= 0 {
			return proved
		}
		if _, ok := v.(*ssa.Const); ok {
			return refuted
		}
	}
	x := stripConv(v)
	if !strict && p.isLen(v, s) {
		return proved
	}
	if bo, ok := x.(*ssa.BinOp); ok && bo.Op == token.SUB && p.isLen(bo.X, s) {
		k := p.rng(bo.Y, gs, map[ssa.Value]bool{}, 0)
		if k.lo.Sign() > 0 || !strict && k.lo.Sign() >= 0 {
			return proved
		}
	}
	for _, g := range gs {
		op, ok := g.cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		k, a, b := op.Op, op.X, op.Y
		if !g.val {
			k = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[k]
		}
		if k == token.GTR || k == token.GEQ {
			a, b = b, a
			k = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[k]
		}
		if k != token.LSS && k != token.LEQ || !p.same(a, v) {
			continue
		}
		if p.isLen(b, s) {
			if k == token.LSS || !strict {
				return proved
			}
			return refuted
		}
		if bo, ok := stripConv(b).(*ssa.BinOp); ok && bo.Op == token.SUB && p.isLen(bo.X, s) && p.rng(bo.Y, gs, map[ssa.Value]bool{}, 0).lo.Sign() > 0 {
			return proved
		}
	}
	if strict && p.lockstep(x, s) {
		return proved
	}
	if p.mentions(v, gs) || p.aboutLen(s, gs) {
		return open
	}
	return refuted
}

// aboutLen: a guard says something of the length.
func (p *pan) aboutLen(s ssa.Value, gs []guard) bool {
	for _, g := range gs {
		if op, ok := g.cond.(*ssa.BinOp); ok && (p.isLen(op.X, s) || p.isLen(op.Y, s)) {
			return true
		}
	}
	return false
}

// lockstep: s has grown by one element for each step of the counter v, and by
// one more in this round.
func (p *pan) lockstep(v, s ssa.Value) bool {
	ix, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	ap, ok := s.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := ap.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(ap.Call.Args) != 2 {
		return false
	}
	if n, ok := fixedLen(ap.Call.Args[1]); !ok || n < 1 {
		return false
	}
	sp, ok := ap.Call.Args[0].(*ssa.Phi)
	if !ok || sp.Block() != ix.Block() {
		return false
	}
	for i := range ix.Edges {
		c, isC := ix.Edges[i].(*ssa.Const)
		n, isN := int64(0), false
		if isC {
			n, isN = c.Int64(), true
		}
		if isN {
			m, ok := fixedLen(sp.Edges[i])
			if isNilConst(sp.Edges[i]) {
				m, ok = 0, true
			}
			if !ok || m < n {
				return false
			}
			continue
		}
		bo, ok := ix.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(ix) {
			return false
		}
		if k, ok := bo.Y.(*ssa.Const); !ok || k.Int64() > 1 {
			return false
		}
		if sp.Edges[i] != ssa.Value(ap) {
			return false
		}
	}
	return true
}

// nonNegative: v >= 0.
func (p *pan) nonNegative(v ssa.Value, gs []guard) discharge {
	if p.rng(v, gs, map[ssa.Value]bool{}, 0).lo.Sign() >= 0 {
		return proved
	}
	if p.mentions(v, gs) || p.callersOwn(v) {
		return open
	}
	return refuted
}

func (p *pan) nonZero(v ssa.Value, gs []guard) discharge {
	r := p.rng(v, gs, map[ssa.Value]bool{}, 0)
	if r.lo.Sign() > 0 || r.hi.Sign() < 0 {
		return proved
	}
	for _, g := range gs {
		op, ok := g.cond.(*ssa.BinOp)
		if !ok || (op.Op != token.EQL && op.Op != token.NEQ) || (op.Op == token.NEQ) != g.val {
			continue
		}
		for _, pr := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
			if c, ok := pr[1].(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 && p.sameInt(pr[0], v) {
				return proved
			}
		}
	}
	if p.mentions(v, gs) || p.callersOwn(v) {
		return open
	}
	return refuted
}

// ---- packing contexts ----

type kid struct {
	typ string  // the type whose context this is, if it is an object's
	nil nilness // whether the node may be nil
}

type kidList struct {
	kids []kid
	err  error
}

// children: the nodes that a type adds to a context.
func (p *pan) children(f *ssa.Function, node ssa.Value) *kidList {
	out := &kidList{}
	var rets []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if n := len(r.Results); n > 0 && surelyError(r.Results[n-1], b) {
				continue
			}
			rets = append(rets, b)
		}
	}
	comp := p.component(f)
	type at struct {
		in *ssa.Call
		k  kid
	}
	var list []at
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil {
				continue
			}
			for i, a := range c.Call.Args {
				if p.placeOf(a) != p.placeOf(node) {
					continue
				}
				switch {
				case i == 0 && g.Name() == "AddChild":
					if comp[b] != 0 {
						out.err = fmt.Errorf("children are added in a loop")
						return out
					}
					for _, r := range rets {
						if !b.Dominates(r) {
							out.err = fmt.Errorf("children are added conditionally")
							return out
						}
					}
					k := kid{}
					ch := c.Call.Args[1]
					k.nil, _ = p.nonNil(ch, p.guards(b), nil, map[ssa.Value]bool{}, 0)
					for _, bb := range f.Blocks {
						for _, in2 := range bb.Instrs {
							if c2, ok := in2.(*ssa.Call); ok {
								if g2 := c2.Call.StaticCallee(); g2 != nil && strings.HasPrefix(g2.Name(), "ZserioCreatePackingContext") && len(c2.Call.Args) > 1 && p.placeOf(c2.Call.Args[1]) == p.placeOf(ch) {
									if n, ok := derefNamed(c2.Call.Args[0].Type()); ok {
										k.typ = n.Origin().String()
									}
								}
							}
						}
					}
					list = append(list, at{c, k})
				case p.ours(g) && g.Name() != "AddChild" && g.Name() != "GetChildren" && g.Name() != "HasContext":
					out.err = fmt.Errorf("the context is passed to %s", g.Name())
					return out
				}
			}
		}
	}
	sort.SliceStable(list, func(i, j int) bool {
		x, y := list[i].in, list[j].in
		if x.Block() != y.Block() {
			return x.Block().Dominates(y.Block())
		}
		for _, in := range x.Block().Instrs {
			if in == ssa.Instruction(x) {
				return true
			}
			if in == ssa.Instruction(y) {
				return false
			}
		}
		return false
	})
	for _, l := range list {
		out.kids = append(out.kids, l.k)
	}
	return out
}

// contextOf: the children of the context that the packed decoder of a type is given.
func (p *pan) contextOf(n *types.Named) *kidList {
	key := n.Origin().String()
	if k, ok := p.kids[key]; ok {
		return k
	}
	k := &kidList{err: fmt.Errorf("no ZserioCreatePackingContext")}
	for _, f := range p.all {
		if f.Name() != "ZserioCreatePackingContext" || f.Signature.Recv() == nil || len(f.Params) < 2 {
			continue
		}
		if m, ok := derefNamed(f.Signature.Recv().Type()); ok && m.Origin() == n.Origin() {
			k = p.children(f, f.Params[1])
		}
	}
	p.kids[key] = k
	return k
}

// ---- the sites ----

func (p *pan) receiver(f *ssa.Function) *types.Named {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Signature.Recv() == nil {
		return nil
	}
	n, _ := derefNamed(f.Signature.Recv().Type())
	return n
}

func runC19(c *Ctx) error {
	p := newPan(c)
	w := c.World
	c.Rule("index", "the index of an element is within its range", 100)
	c.Rule("slice", "the bounds of a slice are in order and within its capacity", 1)
	c.Rule("assert", "a type assertion that does not look at its result holds", 1)
	c.Rule("divide", "what is divided by is not zero", 1)
	c.Rule("shift", "a shift count is not negative", 0)
	c.Rule("make", "the length of an allocation is not negative", 3)
	c.Rule("panic", "a decoder does not panic or exit of its own accord", 150)
	c.Rule("nil", "what is called, dereferenced or written to is not nil", 1000)
	c.Rule("context", "the packing context handed to a nested object's decoder was set up for that object's type", 1)
	var fns []*ssa.Function
	for f := range p.fns {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	per := map[string]int{}
	openSites := 0
	report := func(f *ssa.Function, in ssa.Instruction, rule string, v discharge, format string, args ...any) {
		k := short(f) + " " + rule
		if v != proved {
			k += "?"
		}
		per[k]++
		key := fmt.Sprintf("%s #%d", short(f), per[k])
		switch v {
		case proved:
			c.OK(rule, "ok "+key)
		case refuted:
			c.Bad(rule, key, w.relPos(in.Pos()), "%s: %s", short(f), fmt.Sprintf(format, args...))
		default:
			openSites++
			c.undecided(key, fmt.Errorf("%s: %s", rule, fmt.Sprintf(format, args...)))
		}
	}
	for _, f := range fns {
		panics := 0
		for _, b := range f.Blocks {
			var gs []guard
			have := false
			for _, in := range b.Instrs {
				if !have {
					gs, have = p.guards(b), true
				}
				nilCheck := func(v ssa.Value, what string) {
					n, why := p.nonNil(v, gs, nil, map[ssa.Value]bool{}, 0)
					switch n {
					case notNil:
						report(f, in, "nil", proved, "")
					case maybeNil:
						report(f, in, "nil", refuted, "%s %s", what, why)
					default:
						report(f, in, "nil", open, "%s a value of unknown origin", what)
					}
				}
				switch x := in.(type) {
				case *ssa.Panic:
					panics++
					report(f, in, "panic", refuted, "panics")
				case *ssa.IndexAddr:
					p.index(f, in, x.X, x.Index, gs, report)
					if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						nilCheck(x.X, "indexes")
					}
				case *ssa.Index:
					p.index(f, in, x.X, x.Index, gs, report)
				case *ssa.Lookup:
					if isString(x.X.Type()) {
						p.index(f, in, x.X, x.Index, gs, report)
					}
				case *ssa.Slice:
					p.slice(f, x, gs, report)
				case *ssa.SliceToArrayPointer:
					report(f, in, "slice", open, "converts a slice to an array")
				case *ssa.TypeAssert:
					if !x.CommaOk {
						v := p.asserted(x)
						report(f, in, "assert", v, "asserts that a value is a %s, which it may not be", types.TypeString(x.AssertedType, shortQual))
					}
				case *ssa.BinOp:
					switch x.Op {
					case token.QUO, token.REM:
						bt, ok := x.X.Type().Underlying().(*types.Basic)
						if ok && bt.Info()&types.IsInteger == 0 {
							break
						}
						if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
							break
						}
						report(f, in, "divide", p.nonZero(x.Y, gs), "divides by a value that may be zero")
					case token.SHL, token.SHR:
						bt, ok := x.Y.Type().Underlying().(*types.Basic)
						if ok && bt.Info()&types.IsUnsigned != 0 {
							break
						}
						if _, ok := x.Y.(*ssa.Const); ok {
							break
						}
						report(f, in, "shift", p.nonNegative(x.Y, gs), "shifts by a count that may be negative")
					}
				case *ssa.MakeSlice:
					v := p.nonNegative(x.Len, gs)
					if v == proved && x.Cap != x.Len {
						lr, cr := p.rng(x.Len, gs, map[ssa.Value]bool{}, 0), p.rng(x.Cap, gs, map[ssa.Value]bool{}, 0)
						if lr.hi.Cmp(cr.lo) > 0 {
							v = refuted
							if p.mentions(x.Cap, gs) || p.mentions(x.Len, gs) {
								v = open
							}
						}
					}
					report(f, in, "make", v, "allocates a number of elements that may be negative")
				case *ssa.MapUpdate:
					nilCheck(x.Map, "writes to the map")
				case *ssa.FieldAddr:
					nilCheck(x.X, "uses a field of")
				case *ssa.UnOp:
					if x.Op == token.MUL {
						switch x.X.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
						default:
							nilCheck(x.X, "dereferences")
						}
					}
				case *ssa.Store:
					switch x.Addr.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
					default:
						nilCheck(x.Addr, "writes to")
					}
				case ssa.CallInstruction:
					com := x.Common()
					if com.IsInvoke() {
						if _, ok := com.Value.Type().(*types.TypeParam); !ok {
							nilCheck(com.Value, "calls "+com.Method.Name()+" of")
						}
						continue
					}
					g := com.StaticCallee()
					if g == nil {
						if _, ok := com.Value.(*ssa.Builtin); !ok {
							nilCheck(com.Value, "calls")
						}
						continue
					}
					if g.Signature.Recv() != nil && p.ours(originOf(g)) && len(com.Args) > 0 {
						if isNilConst(com.Args[0]) {
							// checked below
						} else if _, ok := com.Args[0].Type().Underlying().(*types.Pointer); ok {
							nilCheck(com.Args[0], "calls "+g.Name()+" of")
						}
					}
					if p.ours(originOf(g)) {
						for i, a := range com.Args {
							if isNilConst(a) && i < len(originOf(g).Params) && p.needs(originOf(g).Params[i]) {
								report(f, in, "nil", refuted, "passes nil to %s, which uses it", g.Name())
							}
						}
						p.nested(f, x, g, report)
						continue
					}
					switch q := qualName(g); {
					case q == "os.Exit" || strings.HasPrefix(q, "log.Panic") || strings.HasPrefix(q, "log.Fatal") || q == "runtime.Goexit" || strings.HasPrefix(g.Name(), "Must") && g.Signature.Recv() == nil:
						panics++
						report(f, in, "panic", refuted, "calls %s", q)
					case q == "strings.Repeat" || q == "bytes.Repeat" || strings.HasSuffix(q, "slices.Grow"):
						report(f, in, "make", p.nonNegative(com.Args[1], gs), "calls %s with a count that may be negative", q)
					case g.Name() == "Grow" && len(com.Args) == 2 && g.Signature.Recv() != nil:
						report(f, in, "make", p.nonNegative(com.Args[1], gs), "calls Grow with a count that may be negative")
					}
				}
			}
		}
		if panics == 0 {
			c.OK("panic", short(f))
		}
	}
	c.Count("decoding_functions", len(fns))
	c.Count("open_sites", openSites)
	return nil
}

// needs: the function uses the parameter without asking whether it is nil.
func (p *pan) needs(x *ssa.Parameter) bool {
	for _, r := range *x.Referrers() {
		gs := p.guards(r.Block())
		switch y := r.(type) {
		case *ssa.FieldAddr:
			if !p.knownNonNil(x, gs) {
				return true
			}
		case *ssa.UnOp:
			if y.Op == token.MUL && !p.knownNonNil(x, gs) {
				return true
			}
		case *ssa.Call:
			if y.Call.Value == ssa.Value(x) && !p.knownNonNil(x, gs) {
				return true
			}
		}
	}
	return false
}

type reporter func(f *ssa.Function, in ssa.Instruction, rule string, v discharge, format string, args ...any)

func (p *pan) index(f *ssa.Function, in ssa.Instruction, s, ix ssa.Value, gs []guard, report reporter) {
	if c, ok := ix.(*ssa.Const); ok {
		if _, isArr := deref(s.Type()).Underlying().(*types.Array); isArr {
			report(f, in, "index", proved, "")
			return
		}
		// a child of a packing context
		pl := p.placeOf(s)
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if q, ok := pl.root.(*ssa.Parameter); ok && pl.sel == ".children" && q.Parent() == top {
			n := p.receiver(f)
			if n == nil || !p.gen[pkgPath(n)] {
				report(f, in, "index", open, "uses a child of a context")
				return
			}
			k := p.contextOf(n)
			if k.err != nil {
				report(f, in, "index", open, "uses a child of a context: %v", k.err)
				return
			}
			v := proved
			if c.Int64() >= int64(len(k.kids)) || c.Int64() < 0 {
				v = refuted
			}
			report(f, in, "index", v, "uses child %d of a packing context that has %d", c.Int64(), len(k.kids))
			return
		}
	}
	if v, ok := p.indexOperator(f, s, ix); ok {
		report(f, in, "index", v, "uses the index of an array for another one, which may be shorter")
		return
	}
	if v := p.nonNegative(ix, gs); v != proved {
		report(f, in, "index", v, "uses an index that may be negative")
		return
	}
	report(f, in, "index", p.below(ix, s, gs, true), "uses an index that may be out of range")
}

// arrayLen: how the number of elements of an array is given.
func (p *pan) arrayLen(al *ssa.Alloc) (fixed place, auto bool, ok bool) {
	for _, r := range *al.Referrers() {
		// written as a whole, from a literal
		if st, isS := r.(*ssa.Store); isS && st.Addr == ssa.Value(al) {
			if u, isU := st.Val.(*ssa.UnOp); isU && u.Op == token.MUL {
				if lit, isA := u.X.(*ssa.Alloc); isA && lit != al {
					f, a, k := p.arrayLen(lit)
					if k {
						fixed, ok = f, true
					}
					auto = auto || a
				}
			}
		}
		fa, isF := r.(*ssa.FieldAddr)
		if !isF {
			continue
		}
		for _, s := range *fa.Referrers() {
			st, isS := s.(*ssa.Store)
			if !isS || st.Addr != ssa.Value(fa) {
				continue
			}
			switch fieldName(fa.X.Type(), fa.Field) {
			case "FixedSize":
				fixed, ok = p.placeOf(stripConv(st.Val)), true
			case "IsAuto":
				if c, isC := st.Val.(*ssa.Const); !isC || constant.BoolVal(c.Value) {
					auto = true
				}
			}
		}
	}
	return
}

// indexOperator: an element of one array is used while another one is decoded,
// by the other's index.
func (p *pan) indexOperator(f *ssa.Function, s, ix ssa.Value) (discharge, bool) {
	q, ok := stripConv(ix).(*ssa.Parameter)
	if !ok || f.Parent() == nil || len(f.Params) == 0 || q != f.Params[0] {
		return open, false
	}
	mc := p.closure[f]
	if mc == nil {
		return open, false
	}
	var own *ssa.Alloc
	for _, r := range *mc.Referrers() {
		v := ssa.Value(mc)
		rs := []ssa.Instruction{r}
		if ct, ok := r.(*ssa.ChangeType); ok {
			v, rs = ct, *ct.Referrers()
		}
		for _, r := range rs {
			if st, ok := r.(*ssa.Store); ok && st.Val == v {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					own, _ = fa.X.(*ssa.Alloc)
				}
			}
		}
	}
	if own == nil {
		return open, false
	}
	var other *ssa.Alloc
	pl := p.placeOf(s)
	top := f
	for top.Parent() != nil {
		top = top.Parent()
	}
	n := 0
	for _, b := range top.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || pl.sel == "" || p.placeOf(st.Addr) != pl {
				continue
			}
			n++
			switch v := st.Val.(type) {
			case *ssa.Extract:
				if c, ok := v.Tuple.(*ssa.Call); ok && len(c.Call.Args) > 0 {
					other, _ = c.Call.Args[0].(*ssa.Alloc)
				}
			case *ssa.UnOp:
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					other, _ = fa.X.(*ssa.Alloc)
				}
			case *ssa.MakeSlice:
				if c, ok := stripConv(v.Len).(*ssa.Call); ok && len(c.Call.Args) == 1 {
					other, _ = p.placeOf(c.Call.Args[0]).root.(*ssa.Alloc)
				}
			}
		}
	}
	if other == nil || n != 1 {
		return open, false
	}
	f1, a1, ok1 := p.arrayLen(own)
	f2, a2, ok2 := p.arrayLen(other)
	if ok1 && ok2 && !a1 && !a2 {
		if f1 == f2 {
			return proved, true
		}
		if c1, ok := f1.root.(*ssa.Const); ok {
			if c2, ok := f2.root.(*ssa.Const); ok && f1.sel == "" && f2.sel == "" && c1.Int64() <= c2.Int64() {
				return proved, true
			}
		}
	}
	return refuted, true
}

func (p *pan) slice(f *ssa.Function, x *ssa.Slice, gs []guard, report reporter) {
	if x.Low == nil && x.High == nil {
		return
	}
	worst := proved
	for _, b := range []ssa.Value{x.Low, x.High, x.Max} {
		if b == nil {
			continue
		}
		v := p.nonNegative(b, gs)
		if v == proved {
			v = p.below(b, x.X, gs, false)
		}
		if v == refuted || v == open && worst == proved {
			worst = v
		}
	}
	if worst == proved && x.Low != nil && x.High != nil {
		l, h := p.rng(x.Low, gs, map[ssa.Value]bool{}, 0), p.rng(x.High, gs, map[ssa.Value]bool{}, 0)
		if l.hi.Cmp(h.lo) > 0 {
			worst = open
		}
	}
	report(f, x, "slice", worst, "slices with bounds that may be out of range")
}

// nested: a nested object's packed decoder is given a context of its type.
func (p *pan) nested(f *ssa.Function, x ssa.CallInstruction, g *ssa.Function, report reporter) {
	if g.Name() != "UnmarshalZserioPacked" || len(x.Common().Args) < 2 {
		return
	}
	pl := p.placeOf(x.Common().Args[1])
	if !strings.HasPrefix(pl.sel, ".children[") {
		return
	}
	var k int
	if _, err := fmt.Sscanf(pl.sel, ".children[%d]", &k); err != nil {
		return
	}
	n := p.receiver(f)
	to, ok := derefNamed(x.Common().Args[0].Type())
	if n == nil || !ok || !p.gen[pkgPath(n)] {
		return
	}
	kl := p.contextOf(n)
	if kl.err != nil || k >= len(kl.kids) {
		return
	}
	if kl.kids[k].typ == to.Origin().String() {
		report(f, x, "context", proved, "")
		return
	}
	// harmless if the other does not look at any child
	if own := p.contextOf(to); own.err != nil || len(own.kids) == 0 {
		report(f, x, "context", open, "")
		return
	}
	report(f, x, "context", refuted, "child %d of the packing context is handed to %s, and was not set up for it", k, to.Obj().Name())
}

// asserted: what a field holds was put there, as that type, by the same type's
// other methods.
func (p *pan) asserted(x *ssa.TypeAssert) discharge {
	for _, g := range p.guards(x.Block()) {
		if e, ok := g.cond.(*ssa.Extract); ok && e.Index == 1 && g.val {
			if t, ok := e.Tuple.(*ssa.TypeAssert); ok && types.Identical(t.AssertedType, x.AssertedType) && p.same(t.X, x.X) {
				return proved
			}
		}
	}
	if m, ok := x.X.(*ssa.MakeInterface); ok {
		if types.Identical(m.X.Type(), x.AssertedType) {
			return proved
		}
		return refuted
	}
	u, ok := x.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return refuted
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return refuted
	}
	return p.madeAs(x.Parent(), originField(fa.X.Type(), fa.Field), types.TypeString(deref(fa.X.Type()), nil), types.TypeString(x.AssertedType, nil), 0)
}

// madeAs: the type that f is a method of, or is a helper of the methods of, is
// what fills the field of such objects, as the type wanted.
func (p *pan) madeAs(f *ssa.Function, fv *types.Var, holder, want string, depth int) discharge {
	recv := p.receiver(f)
	if recv == nil {
		if depth > 3 || token.IsExported(f.Name()) || len(p.calls[f]) == 0 || f.Parent() != nil {
			return refuted
		}
		for _, ci := range p.calls[f] {
			g := ci.Common().StaticCallee()
			w2 := want
			tp := f.TypeParams()
			for i := 0; tp != nil && i < tp.Len() && i < len(g.TypeArgs()); i++ {
				w2 = strings.ReplaceAll(w2, "["+tp.At(i).Obj().Name()+"]", "["+types.TypeString(g.TypeArgs()[i], nil)+"]")
			}
			if p.madeAs(ci.Parent(), fv, holder, w2, depth+1) != proved {
				return refuted
			}
		}
		return proved
	}
	// the methods of the type that make such an object
	found := refuted
	for _, f := range p.all {
		m := p.receiver(f)
		if m == nil || f.Parent() != nil || m.Origin() != recv.Origin() || f.Signature.Results().Len() == 0 {
			continue
		}
		if types.TypeString(deref(f.Signature.Results().At(0).Type()), nil) != holder {
			continue
		}
		for _, got := range p.made(f, fv, map[string]string{}, 0) {
			if got != want {
				return refuted
			}
			found = proved
		}
	}
	return found
}

// made: the types that the field of the object a function returns is given.
func (p *pan) made(f *ssa.Function, fv *types.Var, sub map[string]string, depth int) []string {
	var out []string
	if depth > 4 {
		return []string{"?"}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || originField(fa.X.Type(), fa.Field) != fv {
					continue
				}
				m, ok := x.Val.(*ssa.MakeInterface)
				if !ok {
					out = append(out, "?")
					continue
				}
				s := types.TypeString(m.X.Type(), nil)
				for k, v := range sub {
					s = strings.ReplaceAll(s, "["+k+"]", "["+v+"]")
				}
				out = append(out, s)
			case *ssa.Return:
				for _, r := range x.Results {
					c, ok := r.(*ssa.Call)
					if !ok {
						continue
					}
					g := c.Call.StaticCallee()
					if g == nil || !p.ours(originOf(g)) {
						continue
					}
					o := originOf(g)
					s2 := map[string]string{}
					tp := o.TypeParams()
					for i := 0; tp != nil && i < tp.Len() && i < len(g.TypeArgs()); i++ {
						s2[tp.At(i).Obj().Name()] = types.TypeString(g.TypeArgs()[i], nil)
					}
					out = append(out, p.made(o, fv, s2, depth+1)...)
				}
			}
		}
	}
	return out
}

// initFns: the functions that run before anything else of a package does.
func initFns(pk *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, name := range sortedKeys(pk.Members) {
		if f, ok := pk.Members[name].(*ssa.Function); ok && (name == "init" || strings.HasPrefix(name, "init#")) {
			out = append(out, f)
		}
	}
	return out
}
