package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: every type reference and expression a schema can hold is reached by
// resolution, evaluation and instantiation. What a schema can hold is read off
// the types of the syntax tree: every chain of fields from a package to an
// expression or a type reference is an obligation. The passes are walked from
// the functions that build a model, calls in their context, and every value is
// described by the chains of fields it may have been reached by.

func init() {
	register(&Property{ID: "C14", Explain: "Access-path analysis of the passes over the syntax tree: every chain of fields of the syntax tree's types that leads to a type reference or an expression must be resolved, evaluated and instantiated on every path that does not report an error, whatever else the schema holds.", Run: runC14})
}

type pset map[string]bool

func (p pset) add(q pset) bool {
	ch := false
	for x := range q {
		if !p[x] {
			p[x] = true
			ch = true
		}
	}
	return ch
}

func elemOf(p pset) pset {
	out := pset{}
	for x := range p {
		switch {
		case strings.HasSuffix(x, "~"):
			out[x[:len(x)-1]] = true
		case strings.HasSuffix(x, "#k"):
			out[x+"[]"] = true
		default:
			out[x+"[]"] = true
		}
	}
	return out
}

// sliceOf: the slices whose elements are the given paths.
func sliceOf(p pset) pset {
	out := pset{}
	for x := range p {
		if strings.HasSuffix(x, "[]") {
			out[x[:len(x)-2]] = true
		} else {
			out[x+"~"] = true
		}
	}
	return out
}

type cover struct {
	w       *World
	model   *types.Named
	pkg     *types.Named // ast.Package
	expr    *types.Named
	tref    *types.Named
	astPkg  *types.Package
	visits  []visit
	want    map[string]*types.Named // path -> Expression or TypeReference
	summary map[*ssa.Function]*ctl
	resolve map[*ssa.Function]int // functions that resolve the type reference they get as this parameter
	steps   int
}

type visit struct {
	kind string // resolve, evaluate, instantiate
	path string
	at   ssa.Instruction
	why  []string // conditions that do not belong
}

type wctx struct {
	fn    *ssa.Function
	parms []pset
	free  []pset
	fargs []*fval  // functions given as arguments
	ffree []*fval  // functions that are captured
	conds []condAt // conditions of the calls on the way
	stack []*ssa.Function
}

// fval is a function value with what it captures.
type fval struct {
	fn    *ssa.Function
	free  []pset
	ffree []*fval
}

func (w *cwalk) fval(v ssa.Value) *fval {
	switch x := v.(type) {
	case *ssa.Function:
		return &fval{fn: x}
	case *ssa.MakeClosure:
		f := &fval{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.free = append(f.free, w.bound(b))
			f.ffree = append(f.ffree, w.fvalOfCell(b))
		}
		return f
	case *ssa.Parameter:
		for i, p := range w.ctx.fn.Params {
			if p == x && i < len(w.ctx.fargs) {
				return w.ctx.fargs[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range w.ctx.fn.FreeVars {
			if p == x && i < len(w.ctx.ffree) {
				return w.ctx.ffree[i]
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if f, ok := x.X.(*ssa.FreeVar); ok {
				return w.fval(f)
			}
			return w.fvalOfCell(x.X)
		}
	case *ssa.ChangeType:
		return w.fval(x.X)
	}
	return nil
}

// tabled: the functions a table written out in this function holds at the place
// (an element, or a field of an element) a value is loaded from.
func (w *cwalk) tabled(v ssa.Value) []*fval {
	place := func(v ssa.Value) (ssa.Value, int) {
		field := -1
		for d := 0; d < 12; d++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil, 0
				}
				v = x.X
			case *ssa.Field:
				if field >= 0 {
					return nil, 0
				}
				field, v = x.Field, x.X
			case *ssa.FieldAddr:
				if field >= 0 {
					return nil, 0
				}
				field, v = x.Field, x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Index:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.Alloc:
				// a variable that is given a whole element
				var src ssa.Value
				if _, isArr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !isArr {
					for _, r := range *x.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == x {
							if src != nil {
								return nil, 0
							}
							src = s.Val
						}
					}
				}
				if src == nil {
					return x, field
				}
				v = src
			default:
				return nil, 0
			}
		}
		return nil, 0
	}
	root, field := place(v)
	if root == nil {
		return nil
	}
	var out []*fval
	known := true
	var collect func(root ssa.Value, field, d int)
	collect = func(root ssa.Value, field, d int) {
		for _, b := range w.ctx.fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				r, f := place(s.Addr)
				switch {
				case r != root:
				case f == field:
					if g := w.fval(s.Val); g != nil {
						out = append(out, g)
					} else {
						known = false
					}
				case f < 0 && d < 3:
					// a whole element, made apart
					known = known && func() bool {
						u, ok := s.Val.(*ssa.UnOp)
						if !ok {
							return false
						}
						if r, f := place(u); r == root && f < 0 {
							return true // a copy of one of the elements
						}
						al, ok := u.X.(*ssa.Alloc)
						if ok {
							collect(al, field, d+1)
						}
						return ok
					}()
				}
			}
		}
	}
	collect(root, field, 0)
	if !known {
		return nil
	}
	return out
}

// fvalOfCell: the one function a variable holds.
func (w *cwalk) fvalOfCell(v ssa.Value) *fval {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); !ok {
		return nil
	}
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if st != nil {
				return nil
			}
			st = s
		}
	}
	if st == nil {
		return nil
	}
	return w.fval(st.Val)
}

type condAt struct {
	c    *cwalk
	cond ssa.Value
	blk  *ssa.BasicBlock
	neg  bool
}

// cwalk is one function in one context.
type cwalk struct {
	cv  *cover
	ctx *wctx
	v   map[ssa.Value]pset
	al  map[ssa.Value]pset // contents of local objects
	ret []pset
}

func isNamed(t types.Type, n *types.Named) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	m, ok := t.(*types.Named)
	return ok && n != nil && m.Obj() == n.Obj()
}

// wanted lists the obligations.
func (cv *cover) wanted() {
	cv.want = map[string]*types.Named{}
	var rec func(t types.Type, path string, on []*types.Named)
	rec = func(t types.Type, path string, on []*types.Named) {
		switch u := t.(type) {
		case *types.Pointer:
			rec(u.Elem(), path, on)
			return
		case *types.Slice:
			rec(u.Elem(), path+"[]", on)
			return
		case *types.Map:
			rec(u.Elem(), path+"[]", on)
			return
		case *types.Named:
			if u.Obj().Pkg() != cv.astPkg {
				return
			}
			if isNamed(u, cv.pkg) && path != "P" {
				return
			}
			if isNamed(u, cv.expr) {
				cv.want[path] = u
				if path != "Expression" {
					return
				}
			}
			if isNamed(u, cv.tref) {
				cv.want[path] = u
			}
			for _, o := range on {
				if o.Obj() == u.Obj() {
					return
				}
			}
			st, ok := u.Underlying().(*types.Struct)
			if !ok {
				return
			}
			on = append(append([]*types.Named{}, on...), u)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !f.Exported() {
					continue
				}
				rec(f.Type(), path+"."+f.Name(), on)
			}
		}
	}
	rec(cv.pkg, "P", nil)
	// operands, relative to their expression
	est := cv.expr.Underlying().(*types.Struct)
	for i := 0; i < est.NumFields(); i++ {
		if isNamed(est.Field(i).Type(), cv.expr) {
			cv.want["Expression."+est.Field(i).Name()] = cv.expr
		}
	}
	tst := cv.tref.Underlying().(*types.Struct)
	for i := 0; i < tst.NumFields(); i++ {
		if s, ok := tst.Field(i).Type().(*types.Slice); ok && isNamed(s.Elem(), cv.tref) {
			cv.want["TypeReference."+tst.Field(i).Name()+"[]"] = cv.tref
		}
	}
}

// excluded: chains that the grammar never fills, and what is a result and not
// part of a schema.
func excluded(kind, p string) string {
	if strings.Contains(p, "ImportedPackages") || strings.Contains(p, "LocalSymbols") || strings.Contains(p, ".NativeZserioType") || strings.Contains(p, "ResultSymbol") {
		return "a result of the passes"
	}
	if strings.Contains(p, ".DefaultCase.Conditions") {
		return "a default case has no conditions"
	}
	if strings.Contains(p, ".TemplateArguments[].") {
		return "reached through the type reference that has the arguments"
	}
	if strings.HasSuffix(p, ".TemplateArguments[]") && !strings.HasPrefix(p, "TypeReference.") {
		return "with the type reference"
	}
	last := p[strings.LastIndex(p, ".")+1:]
	if last == "TypeArguments[]" || last == "LengthExpression" {
		for _, h := range []string{"P.Subtypes[].Type.", "P.InstantiatedTypes[].Type.", ".TypeParameters[].Type.", ".ReturnType."} {
			if strings.Contains(p, h) {
				return "the grammar has no arguments there"
			}
		}
		for _, h := range []string{"P.Consts[].Type.", "P.Enums[].Type.", "P.Bitmasks[].Type."} {
			if strings.HasPrefix(p, h) {
				return "types of computed width are not supported there, and rejected"
			}
		}
	}
	switch kind {
	case "instantiate":
		for _, h := range []string{"P.Consts[].", "P.Enums[].", "P.Bitmasks[]."} {
			if strings.HasPrefix(p, h) {
				return "not of compound type"
			}
		}
		if strings.HasPrefix(p, "TypeReference.") {
			return "instantiated on demand"
		}
	}
	return ""
}

func (cv *cover) norm(p string, t types.Type) string {
	if isNamed(t, cv.pkg) {
		return "P"
	}
	if isNamed(t, cv.model) {
		return "M"
	}
	// a nested expression or type reference stands for itself
	if i := strings.LastIndex(p, "."); i > 0 {
		last := strings.TrimSuffix(p[i+1:], "[]")
		if strings.HasPrefix(last, "Operand") && strings.HasPrefix(p, "Expression.Operand") && strings.Count(p, ".") > 1 {
			return "Expression." + p[i+1:]
		}
		if strings.Contains(p[:i], ".TemplateArguments[]") {
			return "TypeReference." + p[i+1:]
		}
	}
	if strings.Count(p, ".") > 12 {
		return p[:0] + "…"
	}
	return p
}

func (w *cwalk) get(v ssa.Value) pset {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range w.ctx.fn.Params {
			if p == x {
				out := pset{}
				if i < len(w.ctx.parms) {
					out.add(w.ctx.parms[i])
				}
				if isNamed(x.Type(), w.cv.model) {
					return pset{"M": true}
				}
				if isNamed(x.Type(), w.cv.pkg) {
					return pset{"P": true}
				}
				return out
			}
		}
	case *ssa.FreeVar:
		for i, p := range w.ctx.fn.FreeVars {
			if p == x && i < len(w.ctx.free) {
				return w.ctx.free[i]
			}
		}
		return nil
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return nil
	}
	if isNamed(v.Type(), w.cv.model) {
		if _, ok := v.Type().(*types.Pointer); ok {
			return pset{"M": true}
		}
	}
	if isNamed(v.Type(), w.cv.pkg) {
		return pset{"P": true}
	}
	return w.v[v]
}

func (cv *cover) walk(ctx *wctx) *cwalk {
	w := &cwalk{cv: cv, ctx: ctx, v: map[ssa.Value]pset{}, al: map[ssa.Value]pset{}}
	cv.steps++
	if len(ctx.fn.Blocks) == 0 || len(ctx.stack) > 14 || cv.steps > 40000 {
		return w
	}
	n := ctx.fn.Signature.Results().Len()
	for i := 0; i < n; i++ {
		w.ret = append(w.ret, pset{})
	}
	changed := true
	set := func(v ssa.Value, p pset) {
		if len(p) == 0 {
			return
		}
		if w.v[v] == nil {
			w.v[v] = pset{}
		}
		q := pset{}
		for x := range p {
			q[cv.norm(x, v.Type())] = true
		}
		if w.v[v].add(q) {
			changed = true
		}
	}
	calls := map[ssa.CallInstruction][]pset{}
	for rounds := 0; changed && rounds < 30; rounds++ {
		changed = false
		for _, b := range ctx.fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						set(x, w.get(e))
					}
				case *ssa.FieldAddr:
					p := pset{}
					for q := range w.get(x.X) {
						p[q+"."+mrFieldName(x.X.Type(), x.Field)] = true
					}
					set(x, p)
				case *ssa.Field:
					p := pset{}
					for q := range w.get(x.X) {
						p[q+"."+mrFieldName(x.X.Type(), x.Field)] = true
					}
					set(x, p)
				case *ssa.UnOp:
					if x.Op == token.MUL {
						p := pset{}
						p.add(w.get(x.X))
						if r := localBase(x.X); r != nil {
							p.add(w.al[r])
						}
						set(x, p)
					}
				case *ssa.Store:
					if r := localBase(x.Addr); r != nil {
						if w.al[r] == nil {
							w.al[r] = pset{}
						}
						p := w.get(x.Val)
						if _, ok := x.Addr.(*ssa.IndexAddr); ok {
							// an element of a local array: its slices hold it
							if w.v[r] == nil {
								w.v[r] = pset{}
							}
							if w.v[r].add(sliceOf(p)) {
								changed = true
							}
						} else if w.al[r].add(p) {
							changed = true
						}
					}
				case *ssa.IndexAddr:
					p := w.get(x.X)
					if _, isArr := x.X.Type().Underlying().(*types.Pointer); !isArr && !fromStart(x.Index) {
						p = partOf(p)
					}
					set(x, elemOf(p))
				case *ssa.Index:
					set(x, elemOf(w.get(x.X)))
				case *ssa.Lookup:
					set(x, elemOf(w.get(x.X)))
				case *ssa.Slice:
					p := w.get(x.X)
					if _, isArr := x.X.Type().Underlying().(*types.Pointer); !isArr && (!zeroOrNil(x.Low) || x.High != nil) {
						p = partOf(p)
					}
					set(x, p)
				case *ssa.Range:
					set(x, w.get(x.X))
				case *ssa.Extract:
					switch t := x.Tuple.(type) {
					case *ssa.Next:
						if x.Index == 2 {
							set(x, elemOf(w.get(t.Iter)))
						} else if x.Index == 1 {
							set(x, keysOf(w.get(t.Iter)))
						}
					case *ssa.Lookup:
						if x.Index == 0 {
							set(x, elemOf(w.get(t.X)))
						}
					case *ssa.TypeAssert:
						if x.Index == 0 {
							set(x, w.get(t.X))
						}
					case *ssa.Call:
						if rs := calls[t]; x.Index < len(rs) {
							set(x, rs[x.Index])
						}
					}
				case *ssa.MakeInterface:
					set(x, w.get(x.X))
				case *ssa.ChangeInterface:
					set(x, w.get(x.X))
				case *ssa.ChangeType:
					set(x, w.get(x.X))
				case *ssa.TypeAssert:
					if !x.CommaOk {
						set(x, w.get(x.X))
					}
				case *ssa.Call:
					rs := w.call(x, nil)
					calls[x] = rs
					if len(rs) == 1 {
						set(x, rs[0])
					}
				case *ssa.Return:
					for i, r := range x.Results {
						if i < n {
							w.ret[i].add(w.get(r))
						}
					}
				}
			}
		}
	}
	return w
}

func keysOf(p pset) pset {
	out := pset{}
	for x := range p {
		out[x+"#k[]"] = true
	}
	return out
}

// localBase: the allocation an address is in.
func localBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// call gives the paths of the results. With out it also walks into the callee
// and records what it visits.
func (w *cwalk) call(in ssa.CallInstruction, conds []condAt) []pset {
	c := in.Common()
	var args []pset
	for _, a := range callArgs(c) {
		args = append(args, w.get(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			p := pset{}
			p.add(args[0])
			if len(args) > 1 {
				p.add(args[1])
			}
			return []pset{p}
		}
		return nil
	}
	var g *ssa.Function
	var free []pset
	var ffree []*fval
	if c.IsInvoke() {
		// by the type at the path
		for p := range args[0] {
			if t := w.cv.typeAt(p); t != nil {
				if m := w.cv.w.Prog.LookupMethod(types.NewPointer(t), c.Method.Pkg(), c.Method.Name()); m != nil {
					g = m
				}
			}
		}
	} else if f := w.fval(c.Value); f != nil {
		g, free, ffree = f.fn, f.free, f.ffree
		if o := g.Origin(); o != nil {
			g = o
		}
	}
	if g == nil && !c.IsInvoke() {
		// one of the functions that a table holds: each of them
		if fs := w.tabled(c.Value); len(fs) > 0 {
			var fargs []*fval
			for _, a := range callArgs(c) {
				fargs = append(fargs, w.fval(a))
			}
			var out []pset
			for _, f := range fs {
				h := f.fn
				if o := h.Origin(); o != nil {
					h = o
				}
				as := args
				if h.Synthetic != "" && h.Object() != nil && len(f.free) == 1 {
					// a method value: the receiver is what it holds
					if m := w.cv.w.Prog.FuncValue(h.Object().(*types.Func)); m != nil && m.Signature.Recv() != nil {
						h, as, f = m, append([]pset{f.free[0]}, args...), &fval{fn: m}
					}
				}
				if len(h.Blocks) == 0 || !inModule(h) {
					continue
				}
				for i, p := range w.enter(h, as, f.free, fargs, f.ffree, conds) {
					if i >= len(out) {
						out = append(out, pset{})
					}
					out[i].add(p)
				}
			}
			return out
		}
	}
	if g == nil {
		// a call of an iterator: its body gets what is iterated over
		it := w.get(c.Value)
		if len(it) > 0 && len(c.Args) == 1 {
			if mc, ok := c.Args[0].(*ssa.MakeClosure); ok {
				body := mc.Fn.(*ssa.Function)
				var ps []pset
				switch len(body.Params) {
				case 1:
					ps = []pset{elemOf(it)}
				case 2:
					ps = []pset{nil, elemOf(it)}
				}
				f := w.fval(mc)
				w.enter(body, ps, f.free, nil, f.ffree, conds)
			}
		}
		return nil
	}
	if len(g.Blocks) == 0 || !inModule(g) {
		// keys and values of maps, copies and sorted copies of slices
		if len(args) > 0 && len(args[0]) > 0 {
			if g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "maps") && g.Name() == "Keys" {
				out := pset{}
				for x := range args[0] {
					out[x+"#k"] = true
				}
				return []pset{out}
			}
			if g.Pkg != nil && (strings.HasSuffix(g.Pkg.Pkg.Path(), "maps") || strings.HasSuffix(g.Pkg.Pkg.Path(), "slices")) {
				out := pset{}
				for _, a := range args {
					out.add(a)
				}
				return []pset{out}
			}
		}
		return nil
	}
	var fargs []*fval
	for _, a := range callArgs(c) {
		fargs = append(fargs, w.fval(a))
	}
	return w.enter(g, args, free, fargs, ffree, conds)
}

func (w *cwalk) bound(b ssa.Value) pset {
	p := pset{}
	p.add(w.get(b))
	if r := localBase(b); r != nil {
		p.add(w.al[r])
		p.add(w.v[r])
	}
	return p
}

func (w *cwalk) enter(g *ssa.Function, args, free []pset, fargs, ffree []*fval, conds []condAt) []pset {
	some := false
	for _, a := range append(append([]pset{}, args...), free...) {
		if len(a) > 0 {
			some = true
		}
	}
	if !some {
		// nothing of the tree goes in, but a model may come out
		return nil
	}
	for _, f := range w.ctx.stack {
		if f == g {
			return nil
		}
	}
	if isNamedRecv(g, w.cv.expr) {
		return nil // judged on its own
	}
	ctx := &wctx{fn: g, parms: args, free: free, fargs: fargs, ffree: ffree, conds: conds, stack: append(append([]*ssa.Function{}, w.ctx.stack...), g)}
	sub := w.cv.walk(ctx)
	if conds != nil {
		sub.record()
	}
	return sub.ret
}

func isNamedRecv(g *ssa.Function, n *types.Named) bool {
	return g.Signature.Recv() != nil && isNamed(g.Signature.Recv().Type(), n)
}

func inModule(g *ssa.Function) bool {
	p := fnPkg(g)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/")) && !inParser(p.Path())
}

// typeAt: the named type at a path.
func (cv *cover) typeAt(p string) *types.Named {
	var t types.Type = cv.pkg
	rest := p
	switch {
	case strings.HasPrefix(p, "P"):
		rest = p[1:]
	case strings.HasPrefix(p, "Expression"):
		t, rest = cv.expr, p[len("Expression"):]
	case strings.HasPrefix(p, "TypeReference"):
		t, rest = cv.tref, p[len("TypeReference"):]
	default:
		return nil
	}
	for rest != "" {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
			continue
		}
		if strings.HasPrefix(rest, "[]") {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			default:
				return nil
			}
			rest = rest[2:]
			continue
		}
		if rest[0] != '.' {
			return nil
		}
		rest = rest[1:]
		n := len(rest)
		if i := strings.IndexAny(rest, ".["); i >= 0 {
			n = i
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == rest[:n] {
				t, found = st.Field(i).Type(), true
			}
		}
		if !found {
			return nil
		}
		rest = rest[n:]
	}
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// record notes the visits of a function in its context, and goes on into the
// functions it calls.
func (w *cwalk) record() {
	ct := w.cv.ctlOf(w.ctx.fn)
	for _, b := range w.ctx.fn.Blocks {
		conds := append([]condAt{}, w.ctx.conds...)
		for _, cd := range ct.conds(b) {
			conds = append(conds, condAt{w, cd.cond, cd.blk, cd.neg})
		}
		conds = append(conds, condAt{c: w, blk: b}) // the loops around the block
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				// an instantiated type is put in the place of the template
				if p, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && isNamed(p.Elem(), w.cv.tref) {
					if _, ptr := p.Elem().(*types.Pointer); ptr {
						for q := range w.get(x.Addr) {
							w.visit("instantiate", q, in, conds)
						}
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if g := c.StaticCallee(); g != nil {
					if o := g.Origin(); o != nil {
						g = o
					}
					if g.Name() == "Evaluate" && isNamedRecv(g, w.cv.expr) {
						for q := range w.get(callArgs(c)[0]) {
							w.visit("evaluate", q, in, conds)
						}
					}
					if i, ok := w.cv.resolve[g]; ok && i < len(callArgs(c)) {
						for q := range w.get(callArgs(c)[i]) {
							w.visit("resolve", q, in, conds)
						}
					}
				}
				if c.IsInvoke() && c.Method.Name() == "Evaluate" {
					for q := range w.get(c.Value) {
						if t := w.cv.typeAt(q); t != nil && isNamed(t, w.cv.expr) {
							w.visit("evaluate", q, in, conds)
						}
					}
				}
				w.call(x, conds)
			}
		}
	}
}

func (w *cwalk) visit(kind, path string, at ssa.Instruction, conds []condAt) {
	v := visit{kind: kind, path: path, at: at}
	seen := map[string]bool{}
	for _, cd := range conds {
		var why string
		if cd.cond == nil {
			why = cd.c.loopsOK(cd.blk, path, kind)
		} else {
			why = cd.c.condOK(cd.cond, path, kind, 0)
			if why != "" {
				why += " (" + w.cv.w.relPos(cd.cond.Pos()) + ")"
			}
		}
		if why != "" && !seen[why] {
			seen[why] = true
			v.why = append(v.why, why)
		}
	}
	w.cv.visits = append(w.cv.visits, v)
}

// within: a path lies at or below a prefix.
func within(path, prefix string) bool {
	prefix = strings.TrimSuffix(prefix, "~")
	if i := strings.Index(prefix, "#k"); i >= 0 {
		prefix = prefix[:i]
	}
	if prefix == "M" || strings.HasPrefix(prefix, "M.") {
		return true
	}
	return path == prefix || strings.HasPrefix(path, prefix+".") || strings.HasPrefix(path, prefix+"[")
}

// leafOK: what a condition may look at beside the path itself.
func leafOK(kind, leaf string) bool {
	switch leaf {
	case "TemplateParameters", "TemplateParameters[]", "Imports", "Imports[]":
		return true
	case "EvaluationState":
		return kind == "evaluate"
	case "Package", "Name", "IsBuiltin":
		return kind == "resolve"
	case "TemplateArguments", "TemplateArguments[]":
		return kind == "instantiate"
	}
	return false
}

func (w *cwalk) pathOK(ps pset, path, kind string) bool {
	if len(ps) == 0 {
		return false
	}
	for p := range ps {
		if within(path, p) {
			continue
		}
		i := strings.LastIndex(p, ".")
		if i < 0 || !leafOK(kind, p[i+1:]) || !within(path, p[:i]) {
			return false
		}
	}
	return true
}

// condOK: the condition says no more than that there is something to visit.
func (w *cwalk) condOK(v ssa.Value, path, kind string, d int) string {
	if d > 8 {
		return "a condition that is too deep"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.condOK(x.X, path, kind, d+1)
		}
		if x.Op == token.MUL {
			if w.pathOK(w.get(x), path, kind) {
				return ""
			}
		}
	case *ssa.BinOp:
		if isErrorType(x.X.Type()) {
			return ""
		}
		for _, o := range []ssa.Value{x.X, x.Y} {
			if _, ok := o.(*ssa.Const); ok {
				continue
			}
			if r := w.operandOK(o, path, kind, d+1); r != "" {
				return r
			}
		}
		return ""
	case *ssa.Phi:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			ct := w.cv.ctlOf(w.ctx.fn)
			for i, e := range x.Edges {
				if _, again := e.(*ssa.Phi); again && e == x {
					continue
				}
				if r := w.condOK(e, path, kind, d+1); r != "" {
					return r
				}
				for _, cd := range ct.conds(x.Block().Preds[i]) {
					if cd.cond == v {
						continue
					}
					if r := w.condOK(cd.cond, path, kind, d+2); r != "" {
						return r
					}
				}
			}
			return ""
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if w.pathOK(w.get(t.Iter), path, kind) {
				return ""
			}
		case *ssa.Lookup:
			if w.lookupOK(t, path, kind) {
				return ""
			}
		}
	case *ssa.Lookup:
		if w.lookupOK(x, path, kind) {
			return ""
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			break
		}
		if o := g.Origin(); o != nil {
			g = o
		}
		if len(g.Blocks) == 0 || !inModule(g) {
			break
		}
		var args, free []pset
		for _, a := range callArgs(&x.Call) {
			args = append(args, w.get(a))
		}
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, w.bound(b))
			}
		}
		for _, f := range w.ctx.stack {
			if f == g {
				return "a recursive condition"
			}
		}
		sub := w.cv.walk(&wctx{fn: g, parms: args, free: free, stack: append(append([]*ssa.Function{}, w.ctx.stack...), g)})
		ct := w.cv.ctlOf(g)
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			if r := sub.condOK(ret.Results[0], path, kind, d+2); r != "" {
				return r
			}
			for _, cd := range ct.conds(b) {
				if r := sub.condOK(cd.cond, path, kind, d+2); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return fmt.Sprintf("only if %s", describeCond(v))
}

func describeCond(v ssa.Value) string {
	if x, ok := v.(*ssa.BinOp); ok {
		return fmt.Sprintf("a comparison (%s) holds", x.Op)
	}
	return "a condition holds"
}

// lookupOK: looking something up by a name of what is visited, among names of
// template parameters and packages.
func (w *cwalk) lookupOK(l *ssa.Lookup, path, kind string) bool {
	m, ok := l.X.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return w.pathOK(w.get(l.Index), path, kind)
	}
	if st, ok := m.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return w.pathOK(w.get(l.Index), path, kind)
	}
	return len(w.get(l.X)) > 0 && w.pathOK(w.get(l.X), path, kind)
}

func (w *cwalk) operandOK(o ssa.Value, path, kind string, d int) string {
	// of several things (the elements of a list that holds them all), what it
	// says is said of each in turn
	if ps := w.get(o); len(ps) > 1 {
		for p := range ps {
			if !strings.HasSuffix(p, "~") && !strings.Contains(p, "#k") && p != "M" && !strings.HasPrefix(p, "M.") && within(path, p) {
				return ""
			}
		}
	}
	switch x := o.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			// the list it was put into
			if ps := elemOf(w.get(x.Call.Args[0])); !ps["M"] {
				for p := range ps {
					if !strings.HasPrefix(p, "M.") && !strings.Contains(p, "#k") && within(path, p) {
						return ""
					}
				}
			}
			if w.pathOK(w.get(x.Call.Args[0]), path, kind) {
				return ""
			}
			if sl, ok := x.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
				if _, ok := sl.X.(*ssa.Alloc); ok {
					return "" // a list that is written out here
				}
			}
			return "only if something else has a certain length"
		}
	case *ssa.Phi, *ssa.BinOp:
		if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && isCounter(o) {
			return ""
		}
	}
	if w.pathOK(w.get(o), path, kind) {
		return ""
	}
	if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return w.condOK(o, path, kind, d+1)
	}
	if len(w.get(o)) > 0 {
		return "only if " + strings.Join(sortedKeys(w.get(o)), ", ") + " is as required"
	}
	return "only if a value is as required"
}

func zeroOrNil(v ssa.Value) bool {
	if v == nil {
		return true
	}
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 0
}

// partOf: some of the elements only.
func partOf(p pset) pset {
	out := pset{}
	for x := range p {
		out[x+"!"] = true
	}
	return out
}

// fromStart: an index that counts from the first element, or to it.
func fromStart(v ssa.Value) bool {
	first := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Int64() != 1 {
			return false
		}
		v, first = b.X, -1
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		switch x := e.(type) {
		case *ssa.Const:
			if x.Int64() != first {
				return false
			}
		case *ssa.BinOp:
			if x.Op != token.ADD && x.Op != token.SUB {
				return false
			}
			k, ok := x.Y.(*ssa.Const)
			if !ok || k.Int64() != 1 {
				return false
			}
		case *ssa.Phi:
			if x != phi {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isCounter(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value != nil && x.Value.Kind() == constant.Int
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			return ok && (x.Op == token.ADD || x.Op == token.SUB) && k.Int64() == 1 && rec(x.X)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len"
		}
		return false
	}
	return rec(v)
}

// loopsOK: the loops around a block are left only when they are done, or with
// an error.
func (w *cwalk) loopsOK(b *ssa.BasicBlock, path, kind string) string {
	ct := w.cv.ctlOf(w.ctx.fn)
	for _, l := range ct.loops {
		if !l.body[b] {
			continue
		}
		for x := range l.body {
			for i, s := range x.Succs {
				if l.body[s] || ct.failing[s] {
					continue
				}
				iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
				if ok && x == l.head && i == 1 {
					if r := w.condOK(iff.Cond, path, kind, 0); r == "" {
						continue
					}
				}
				return fmt.Sprintf("the loop may be left before it is done (%s)", w.cv.w.relPos(blockPos(x)))
			}
		}
	}
	return ""
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	for _, p := range b.Preds {
		for i := len(p.Instrs) - 1; i >= 0; i-- {
			if q := p.Instrs[i].Pos(); q.IsValid() {
				return q
			}
		}
	}
	return b.Parent().Pos()
}

// ctl holds the control flow facts of a function.
type ctl struct {
	fn      *ssa.Function
	pdom    []map[int]bool
	failing map[*ssa.BasicBlock]bool
	loops   []*loop
	memo    map[*ssa.BasicBlock][]ctlCond
}

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type ctlCond struct {
	cond ssa.Value
	blk  *ssa.BasicBlock
	neg  bool
}

func (cv *cover) ctlOf(f *ssa.Function) *ctl {
	if c := cv.summary[f]; c != nil {
		return c
	}
	c := newCtl(f)
	cv.summary[f] = c
	return c
}

func newCtl(f *ssa.Function) *ctl {
	c := &ctl{fn: f, failing: map[*ssa.BasicBlock]bool{}, memo: map[*ssa.BasicBlock][]ctlCond{}}
	// blocks from which the function only returns errors, or panics
	for _, b := range f.Blocks {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			c.failing[b] = true
		case *ssa.Return:
			if n := len(x.Results); n > 0 && isErrorType(x.Results[n-1].Type()) && surelyError(x.Results[n-1], b) {
				c.failing[b] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			if c.failing[b] || len(b.Succs) == 0 {
				continue
			}
			all := true
			for _, s := range b.Succs {
				if !c.failing[s] {
					all = false
				}
			}
			if all {
				c.failing[b] = true
				ch = true
			}
		}
	}
	// post-dominators, where failing is no way to go on
	n := len(f.Blocks)
	c.pdom = make([]map[int]bool, n)
	all := map[int]bool{}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	for i, b := range f.Blocks {
		if c.exit(b) {
			c.pdom[i] = map[int]bool{i: true}
		} else {
			c.pdom[i] = all
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			if c.exit(b) || c.failing[b] {
				continue
			}
			var m map[int]bool
			for _, s := range b.Succs {
				if c.failing[s] {
					continue
				}
				if m == nil {
					m = map[int]bool{}
					for k := range c.pdom[s.Index] {
						m[k] = true
					}
				} else {
					for k := range m {
						if !c.pdom[s.Index][k] {
							delete(m, k)
						}
					}
				}
			}
			if m == nil {
				m = map[int]bool{}
			}
			m[i] = true
			if len(m) != len(c.pdom[i]) {
				c.pdom[i] = m
				ch = true
			}
		}
	}
	for _, t := range f.Blocks {
		for _, h := range t.Succs {
			if !h.Dominates(t) {
				continue
			}
			l := &loop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
			st := []*ssa.BasicBlock{t}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				st = append(st, x.Preds...)
			}
			merged := false
			for _, o := range c.loops {
				if o.head == h {
					for x := range l.body {
						o.body[x] = true
					}
					merged = true
				}
			}
			if !merged {
				c.loops = append(c.loops, l)
			}
		}
	}
	return c
}

func (c *ctl) exit(b *ssa.BasicBlock) bool { return len(b.Succs) == 0 && !c.failing[b] }

// surelyError: the value is an error where it is returned.
func surelyError(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return surelyError(x.X, b)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			switch qualName(g) {
			case "fmt.Errorf", "errors.New":
				return true
			case "errors.Join":
				return dominatedByNonNil(v, b) || true
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && errorVar(root{at: g}) {
			return true
		}
	}
	return dominatedByNonNil(v, b)
}

// dominatedByNonNil: the block is only reached where the value is not nil.
func dominatedByNonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if !(sameVal(c.X, v) && isNilConst(c.Y)) {
			continue
		}
		if c.Op == token.NEQ && d.Succs[0] == x && len(x.Preds) == 1 || c.Op == token.EQL && d.Succs[1] == x && len(x.Preds) == 1 {
			return true
		}
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	// two loads of one local variable
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X {
		_, al := x.X.(*ssa.Alloc)
		return al
	}
	return false
}

// conds: the conditions on which a block is reached, where the other way goes
// on without it.
func (c *ctl) conds(b *ssa.BasicBlock) []ctlCond {
	if r, ok := c.memo[b]; ok {
		return r
	}
	c.memo[b] = nil
	var out []ctlCond
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, a := range c.fn.Blocks {
			iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If)
			if !ok || c.failing[a] {
				continue
			}
			if c.failing[a.Succs[0]] || c.failing[a.Succs[1]] {
				continue // the other way reports an error
			}
			t0 := c.pdom[a.Succs[0].Index][b.Index]
			t1 := c.pdom[a.Succs[1].Index][b.Index]
			if t0 == t1 {
				continue
			}
			if a != b && c.pdom[a.Index][b.Index] {
				continue
			}
			out = append(out, ctlCond{iff.Cond, a, !t0})
			rec(a)
		}
	}
	rec(b)
	c.memo[b] = out
	return out
}

func runC14(c *Ctx) error {
	w := c.World
	cv := &cover{w: w, summary: map[*ssa.Function]*ctl{}, resolve: map[*ssa.Function]int{}}
	ap := w.Pkgs[modPath+"/internal/ast"]
	mp := w.Pkgs[modPath+"/internal/model"]
	if ap == nil || mp == nil {
		return fmt.Errorf("the packages of the syntax tree and of the model are not there")
	}
	lookup := func(p *types.Package, n string) *types.Named {
		o, ok := p.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			return nil
		}
		t, _ := o.Type().(*types.Named)
		return t
	}
	cv.astPkg = ap.Types
	cv.model, cv.pkg, cv.expr, cv.tref = lookup(mp.Types, "Model"), lookup(ap.Types, "Package"), lookup(ap.Types, "Expression"), lookup(ap.Types, "TypeReference")
	if cv.model == nil || cv.pkg == nil || cv.expr == nil || cv.tref == nil {
		return fmt.Errorf("the types of the syntax tree are not there")
	}
	cv.wanted()
	fns := w.FnsIn("internal/model", "internal/ast")
	for _, f := range fns {
		if i := cv.resolver(f); i >= 0 {
			cv.resolve[f] = i
		}
	}
	if len(cv.resolve) == 0 {
		return fmt.Errorf("no function that resolves a type reference")
	}
	kinds := []struct{ kind, rule, text string }{
		{"resolve", "resolved", "every type reference a schema can hold is resolved before code is generated"},
		{"instantiate", "instantiated", "every type reference that can name a template is replaced by its instantiation"},
		{"evaluate", "evaluated", "every expression a schema can hold is evaluated before code is generated"},
	}
	mins := map[string]int{"resolve": 15, "instantiate": 8, "evaluate": 25}
	for _, k := range kinds {
		c.Rule(k.rule, k.text, mins[k.kind])
	}
	c.Rule("copied", "what is instantiated from a template has all that the template has", 8)
	// the functions that give a model to the rest of the program
	var roots []*ssa.Function
	for _, f := range fns {
		if fnPkg(f) != mp.Types || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 && isNamed(rs.At(0).Type(), cv.model) && isErrorType(rs.At(1).Type()) {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		return fmt.Errorf("no function that gives a model")
	}
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	for _, f := range roots {
		if cv.delegates(f, isRoot) {
			c.Count("delegating", 1)
			continue
		}
		cv.visits = nil
		cv.steps = 0
		ctx := &wctx{fn: f, conds: []condAt{}, stack: []*ssa.Function{f}}
		rw := cv.walk(ctx)
		rw.record()
		// inside an expression
		for _, g := range fns {
			if g.Name() == "Evaluate" && isNamedRecv(g, cv.expr) && len(g.Blocks) > 0 {
				ew := cv.walk(&wctx{fn: g, parms: []pset{{"Expression": true}}, stack: []*ssa.Function{g}, conds: []condAt{}})
				ew.ctx.conds = []condAt{}
				ew.record()
			}
		}
		for g, i := range cv.resolve {
			ps := make([]pset, len(g.Params))
			ps[i] = pset{"TypeReference": true}
			rw := cv.walk(&wctx{fn: g, parms: ps, stack: []*ssa.Function{g}, conds: []condAt{}})
			rw.record()
		}
		if cv.steps >= 40000 {
			c.undecided("resolved", fmt.Errorf("%s: too many paths", short(f)))
			continue
		}
		for _, k := range kinds {
			cv.judge(c, k.rule, k.kind, f)
		}
	}
	cv.copies(c, fns)
	return nil
}

// delegates: the function gives what another one of them gives.
func (cv *cover) delegates(f *ssa.Function, isRoot map[*ssa.Function]bool) bool {
	ct := cv.ctlOf(f)
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || ct.failing[b] {
			continue
		}
		n++
		e, ok := r.Results[0].(*ssa.Extract)
		if !ok {
			return false
		}
		call, ok := e.Tuple.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || !isRoot[call.Call.StaticCallee()] || call.Call.StaticCallee() == f {
			return false
		}
	}
	return n > 0
}

// resolver: the function fills in the package of a type reference it is given.
func (cv *cover) resolver(f *ssa.Function) int {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isNamed(fa.X.Type(), cv.tref) || mrFieldName(fa.X.Type(), fa.Field) != "Package" {
				continue
			}
			for i, p := range f.Params {
				if fa.X == p {
					return i
				}
			}
		}
	}
	return -1
}

func (cv *cover) judge(c *Ctx, rule, kind string, root *ssa.Function) {
	var paths []string
	for p, t := range cv.want {
		if isNamed(t, cv.expr) == (kind == "evaluate") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		if excluded(kind, p) != "" {
			c.Count("left_out", 1)
			continue
		}
		name := short(root) + ": " + p
		var best *visit
		n := 0
		for i := range cv.visits {
			v := &cv.visits[i]
			if v.kind != kind || v.path != p {
				continue
			}
			n++
			if best == nil || len(v.why) < len(best.why) {
				best = v
			}
		}
		switch {
		case best == nil:
			c.Bad(rule, name, cv.w.relPos(root.Pos()), "nothing %ss %s in what %s runs", kind, p, short(root))
		case len(best.why) > 0:
			c.Bad(rule, name, cv.w.relPos(best.at.Pos()), "%s is not always %sd: %s", p, kind, strings.Join(best.why, "; "))
		default:
			c.OK(rule, name)
		}
	}
}

// copies: where a node of the tree is made from another of the same type, all
// fields are filled.
func (cv *cover) copies(c *Ctx, fns []*ssa.Function) {
	for _, f := range fns {
		if fnPkg(f).Path() != modPath+"/internal/model" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				t := al.Type().Underlying().(*types.Pointer).Elem()
				nm, ok := t.(*types.Named)
				if !ok || nm.Obj().Pkg() != cv.astPkg || isNamed(nm, cv.tref) || isNamed(nm, cv.pkg) {
					continue
				}
				st, ok := nm.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				whole := false
				filled := map[string]bool{}
				refs := append([]ssa.Instruction{}, *al.Referrers()...)
				// and through where it is kept
				for _, r := range *al.Referrers() {
					st, ok := r.(*ssa.Store)
					if !ok || st.Val != al {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, b2 := range f.Blocks {
						for _, in2 := range b2.Instrs {
							ld, ok := in2.(*ssa.UnOp)
							if !ok || ld.Op != token.MUL {
								continue
							}
							if fb, ok := ld.X.(*ssa.FieldAddr); ok && fb.X == fa.X && fb.Field == fa.Field {
								refs = append(refs, *ld.Referrers()...)
							}
						}
					}
				}
				for _, r := range refs {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == al {
							whole = true
						}
					case *ssa.FieldAddr:
						for _, q := range *x.Referrers() {
							if s, ok := q.(*ssa.Store); ok && s.Addr == x {
								filled[st.Field(x.Field).Name()] = true
							}
						}
					}
				}
				name := short(f) + ": " + nm.Obj().Name()
				if whole {
					c.OK("copied", name)
					continue
				}
				if !cv.hasSource(f, al, nm) {
					continue
				}
				var miss []string
				for i := 0; i < st.NumFields(); i++ {
					fl := st.Field(i)
					if !fl.Exported() || fl.Name() == "Comment" || fl.Name() == "TemplateParameters" || filled[fl.Name()] {
						continue
					}
					miss = append(miss, fl.Name())
				}
				c.Check(len(miss) == 0, "copied", name, cv.w.relPos(al.Pos()), "the new %s is made without %s", nm.Obj().Name(), strings.Join(miss, ", "))
			}
		}
	}
}

// hasSource: another node of the type is at hand.
func (cv *cover) hasSource(f *ssa.Function, al *ssa.Alloc, nm *types.Named) bool {
	for _, p := range f.Params {
		if isNamed(p.Type(), nm) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && v != al && isNamed(v.Type(), nm) {
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if localBase(u.X) == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

func sortedKeys[V any](p map[string]V) []string {
	var out []string
	for x := range p {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}
