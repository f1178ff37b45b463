package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C17", Explain: "Mod-ref analysis of the functions that instantiate templates: nothing reached from the template or its arguments is written, and nothing of it is reachable from what is made from it, so that no later pass over one instantiation can be seen by another.", Run: runC17})
}

func runC17(c *Ctx) error {
	w := c.World
	ap, mp := w.Pkgs[modPath+"/internal/ast"], w.Pkgs[modPath+"/internal/model"]
	if ap == nil || mp == nil {
		return fmt.Errorf("the packages of the syntax tree and of the model are not there")
	}
	fns := w.FnsIn("internal/model", "internal/ast")
	m := newModref(w, fns)
	m.solve()
	c.Rule("template-unchanged", "instantiating writes nothing reached from the template or its arguments", 8)
	c.Rule("nothing-shared", "nothing of the template or its arguments is reachable from what is made of it", 8)
	c.Rule("told-apart", "instantiations that differ in anything are told apart", 4)

	named := func(t types.Type) *types.Named {
		for {
			switch u := t.(type) {
			case *types.Pointer:
				t = u.Elem()
				continue
			case *types.Slice:
				t = u.Elem()
				continue
			case *types.Map:
				t = u.Elem()
				continue
			case *types.Named:
				return u
			}
			return nil
		}
	}
	node := func(t types.Type) bool {
		n := named(t)
		if n == nil || n.Obj().Pkg() != ap.Types {
			return false
		}
		return n.Obj().Name() != "Package"
	}
	hasTemplateParameters := func(t types.Type) bool {
		n := named(t)
		if n == nil || n.Obj().Pkg() != ap.Types {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "TemplateParameters" {
				return true
			}
		}
		return false
	}
	inst := map[*ssa.Function]bool{}
	for _, f := range fns {
		if fnPkg(f) != mp.Types || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !hasTemplateParameters(al.Type()) {
					continue
				}
				if _, ptr := al.Type().Underlying().(*types.Pointer).Elem().(*types.Pointer); ptr {
					continue
				}
				for _, p := range f.Params {
					if n := named(p.Type()); n != nil && n == named(al.Type()) {
						inst[f] = true
					}
				}
			}
		}
	}
	if len(inst) < 2 {
		return fmt.Errorf("only %d functions make an instantiation from a template", len(inst))
	}
	// and what they make copies with
	helper := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range m.callees(ci.Common()) {
					if fnPkg(g) != mp.Types || helper[g] || inst[g] {
						continue
					}
					src := false
					for _, p := range g.Params {
						src = src || node(p.Type())
					}
					res := false
					for i := 0; i < g.Signature.Results().Len(); i++ {
						res = res || node(g.Signature.Results().At(i).Type())
					}
					if src && res {
						helper[g] = true
						reach(g)
					}
				}
			}
		}
	}
	for f := range inst {
		reach(f)
	}
	var list []*ssa.Function
	for f := range inst {
		list = append(list, f)
	}
	for f := range helper {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return short(list[i]) < short(list[j]) })
	for _, f := range list {
		src := map[int]bool{}
		for i, p := range f.Params {
			if node(p.Type()) {
				src[i] = true
			}
		}
		from := func(r root) bool { return r.kind == rParam && src[r.n] }
		bad := false
		for _, x := range m.writesTo(f, from) {
			if p := x.s.in.Parent(); p != f && (inst[p] || helper[p]) {
				continue
			}
			bad = true
			c.Bad("template-unchanged", short(f)+" -> "+w.relPos(x.s.in.Pos()), w.relPos(x.s.in.Pos()), "%s changes (%s) what %s leads to", short(f), x.s.how, paramName(f, x.r))
		}
		if !bad {
			c.OK("template-unchanged", short(f))
		}
	}
	sh := newSharing(w, m, ap.Types, node)
	sh.solve(list)
	for _, f := range list {
		if inst[f] {
			sh.judge(c, f, hasTemplateParameters)
		}
	}

	// instantiations are told apart by all that a type reference says
	tr, _ := ap.Types.Scope().Lookup("TypeReference").(*types.TypeName)
	if tr == nil {
		return fmt.Errorf("no type reference")
	}
	st := tr.Type().Underlying().(*types.Struct)
	key := map[string]bool{}
	nkeys := 0
	for _, f := range fns {
		if fnPkg(f) != mp.Types {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt, ok := mu.Map.Type().Underlying().(*types.Map)
				if !ok || !isString(mt.Key()) || !isString(mt.Elem()) {
					continue
				}
				if !instantiations(mu.Map) {
					continue
				}
				nkeys++
				rd := &reads{t: tr.Type(), out: key, seen: map[ssa.Value]bool{}, fseen: map[*ssa.Function]bool{}, fns: fns}
				rd.by(mu.Value)
				conflictReported(c, f, mu)
			}
		}
	}
	if nkeys == 0 {
		c.undecided("told-apart", fmt.Errorf("no record of what was instantiated"))
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if n == "TypeArguments" || n == "IsBuiltin" {
			continue // given to the instantiation, not part of it; and told by the name
		}
		c.Check(key[n], "told-apart", "TypeReference."+n, w.relPos(tr.Pos()), "two instantiations that differ in %s of an argument are taken for one", n)
	}
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// instantiations: the map is kept in a field of the model.
func instantiations(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if instantiations(e) {
					return true
				}
			}
		}
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n, ok := derefNamed(fa.X.Type())
	return ok && n.Obj().Name() == "Model"
}

// conflictReported: where what is recorded already is not what is to be
// recorded, the function fails.
func conflictReported(c *Ctx, f *ssa.Function, mu *ssa.MapUpdate) {
	w := c.World
	k := newCtl(f)
	found, compared := false, false
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		recorded := func(v ssa.Value) bool {
			if e, ok := v.(*ssa.Extract); ok {
				v = e.Tuple
			}
			l, ok := v.(*ssa.Lookup)
			return ok && instantiations(l.X)
		}
		if !(recorded(bo.X) && bo.Y == mu.Value || recorded(bo.Y) && bo.X == mu.Value) {
			continue
		}
		compared = true
		differ := b.Succs[0]
		if bo.Op == token.EQL {
			differ = b.Succs[1]
		}
		if k.failing[differ] {
			found = true
		}
	}
	if !compared {
		// a record may be compared elsewhere
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && inModule(call.Call.StaticCallee()) {
					for _, a := range call.Call.Args {
						if a == mu.Value {
							c.undecided("told-apart", fmt.Errorf("%s leaves the comparison of instantiations to %s", short(f), short(call.Call.StaticCallee())))
							return
						}
					}
				}
			}
		}
	}
	c.Check(found, "told-apart", short(f)+" reports a conflict", w.relPos(mu.Pos()), "%s does not fail where an instantiation takes the name of a different one", short(f))
}

// isRecord: the field records instantiations.
func isRecord(fa *ssa.FieldAddr) bool {
	n, ok := derefNamed(fa.X.Type())
	if !ok || n.Obj().Name() != "Model" {
		return false
	}
	mt, ok := deref(fa.Type()).Underlying().(*types.Map)
	return ok && isString(mt.Key()) && isString(mt.Elem())
}

// reads collects the fields of a type that a value is computed from.
type reads struct {
	t     types.Type
	out   map[string]bool
	seen  map[ssa.Value]bool
	fseen map[*ssa.Function]bool
	fns   []*ssa.Function
}

func (rd *reads) addr(v ssa.Value) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if p, ok := x.X.(*ssa.Parameter); ok && rd.caller(p.Parent()) {
			return // the template is told by its name and package
		}
		if types.Identical(deref(x.X.Type()), rd.t) {
			rd.out[mrFieldName(x.X.Type(), x.Field)] = true
		}
	case *ssa.Field:
		if types.Identical(x.X.Type(), rd.t) {
			rd.out[mrFieldName(x.X.Type(), x.Field)] = true
		}
	}
}

// caller: the function asks for an instantiation; its reference is to the
// template, not to an argument.
func (rd *reads) caller(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && isRecord(fa) {
				return true
			}
		}
	}
	return false
}

func (rd *reads) by(v ssa.Value) {
	if v == nil || rd.seen[v] {
		return
	}
	rd.seen[v] = true
	rd.addr(v)
	switch x := v.(type) {
	case *ssa.Parameter:
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		for _, f := range rd.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == x.Parent() && idx >= 0 && isString(x.Type()) {
						rd.by(callArgs(ci.Common())[idx])
					}
				}
			}
		}
		return
	case *ssa.Call:
		rd.calls(x.Call.StaticCallee())
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	for _, op := range in.Operands(nil) {
		if *op != nil {
			rd.by(*op)
		}
	}
}

// calls: all a called function reads counts.
func (rd *reads) calls(g *ssa.Function) {
	if g == nil || !inModule(g) || rd.fseen[g] {
		return
	}
	rd.fseen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				rd.addr(v)
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				rd.calls(ci.Common().StaticCallee())
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				rd.calls(mc.Fn.(*ssa.Function))
			}
		}
	}
}

func paramName(f *ssa.Function, r root) string {
	n := f.Params[r.n].Name()
	if r.field != "" {
		n += "." + r.field
	}
	return n
}

// sharing finds what of its parameters is reachable from what a function
// makes.
type sharing struct {
	w       *World
	m       *modref
	ap      *types.Package
	node    func(types.Type) bool
	derived map[*types.Var]bool
	sums    map[*ssa.Function][]origins
	busy    map[ssa.Value]bool
}

// origin is a parameter (or -1: a captured variable, -2: a declaration found by
// name) and how it was reached.
// The field of the value it is in is known if the value is an object made by
// the function.
type origin struct {
	n     int
	label string
	in    string
}

type origins map[origin]bool

func (o origins) add(p origins) {
	for k := range p {
		o[k] = true
	}
}

func newSharing(w *World, m *modref, ap *types.Package, node func(types.Type) bool) *sharing {
	sh := &sharing{w: w, m: m, ap: ap, node: node, derived: map[*types.Var]bool{}, sums: map[*ssa.Function][]origins{}, busy: map[ssa.Value]bool{}}
	// what the reader of the schema never sets is found out by later passes
	set := map[*types.Var]bool{}
	for _, f := range w.FnsIn("internal/visitor") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if v := fieldVar(fa); v != nil && v.Pkg() == ap {
						for _, r := range *fa.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == fa && !isNilConst(st.Val) {
								set[v] = true
							}
						}
					}
				}
			}
		}
	}
	for _, n := range ap.Scope().Names() {
		tn, ok := ap.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		any := false
		for i := 0; i < st.NumFields(); i++ {
			any = any || set[st.Field(i)]
		}
		for i := 0; any && i < st.NumFields(); i++ {
			if !set[st.Field(i)] {
				sh.derived[st.Field(i)] = true
			}
		}
	}
	return sh
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// leads: values of the type lead to a part of the syntax tree.
func (sh *sharing) leads(t types.Type) bool { return sh.leads1(t, 0) }

func (sh *sharing) leads1(t types.Type, d int) bool {
	if d > 5 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Slice:
		return sh.leads1(u.Elem(), d+1)
	case *types.Array:
		return sh.leads1(u.Elem(), d+1)
	case *types.Map:
		return sh.leads1(u.Elem(), d+1)
	case *types.Pointer:
		n, ok := u.Elem().(*types.Named)
		return !ok || n.Obj().Pkg() == sh.ap && n.Obj().Name() != "Package"
	case *types.Interface:
		return !isErrorType(t)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if sh.leads1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		return true
	}
	return true
}

func (sh *sharing) solve(list []*ssa.Function) {
	fns := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if fns[f] || len(f.Blocks) == 0 {
			return
		}
		fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range sh.m.callees(ci.Common()) {
						lead := false
						for i := 0; i < g.Signature.Results().Len(); i++ {
							lead = lead || sh.leads(g.Signature.Results().At(i).Type())
						}
						if lead {
							reach(g)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					reach(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range list {
		reach(f)
	}
	for f := range fns {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			sh.sums[f] = append(sh.sums[f], origins{})
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range fns {
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for i, v := range ret.Results {
					for o := range sh.from(f, v) {
						if !sh.sums[f][i][o] {
							sh.sums[f][i][o] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

// from: the origins of what a value leads to.
func (sh *sharing) from(f *ssa.Function, v ssa.Value) origins {
	out := origins{}
	if v == nil || !sh.leads(v.Type()) || sh.busy[v] {
		return out
	}
	sh.busy[v] = true
	defer delete(sh.busy, v)
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x && sh.node(x.Type()) {
				out[origin{n: i, label: p.Name()}] = true
			}
		}
	case *ssa.FreeVar:
		out[origin{n: -1, label: x.Name()}] = true
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		out.add(sh.stored(f, v, ""))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return sh.loaded(f, x.X)
		}
	case *ssa.FieldAddr:
		return sh.loaded(f, x)
	case *ssa.IndexAddr:
		return sh.from(f, x.X)
	case *ssa.Field:
		return label(sh.from(f, x.X), mrFieldName(x.X.Type(), x.Field))
	case *ssa.Index:
		return sh.from(f, x.X)
	case *ssa.Lookup:
		return sh.from(f, x.X)
	case *ssa.Range:
		return sh.from(f, x.X)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			return sh.from(f, r.X)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return sh.result(f, call, x.Index)
		}
		return sh.from(f, x.Tuple)
	case *ssa.Slice:
		return sh.from(f, x.X)
	case *ssa.ChangeType:
		return sh.from(f, x.X)
	case *ssa.ChangeInterface:
		return sh.from(f, x.X)
	case *ssa.MakeInterface:
		return sh.from(f, x.X)
	case *ssa.TypeAssert:
		return sh.from(f, x.X)
	case *ssa.Convert:
		return sh.from(f, x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			out.add(sh.from(f, e))
		}
	case *ssa.Call:
		return sh.result(f, x, 0)
	}
	return out
}

func label(o origins, field string) origins {
	out := origins{}
	for k := range o {
		if k.in != "" && k.in != field {
			continue
		}
		k.in = ""
		if !strings.Contains(k.label, ".") {
			k.label += "." + field
		}
		out[k] = true
	}
	return out
}

// inField: what goes into one field of an object.
func inField(o origins, field string) origins {
	out := origins{}
	for k := range o {
		k.in = field
		out[k] = true
	}
	return out
}

// escapes: the field may be assigned through its address.
func escapes(obj ssa.Value, field int) bool {
	for _, r := range *obj.Referrers() {
		if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
			// handed to a function that assigns the field
			g := ci.Common().StaticCallee()
			for i, a := range ci.Common().Args {
				if a != obj || i >= len(g.Params) || !inModule(g) {
					continue
				}
				for _, q := range *g.Params[i].Referrers() {
					if fa, ok := q.(*ssa.FieldAddr); ok && fa.Field == field {
						for _, s := range *fa.Referrers() {
							if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
								return true
							}
						}
					}
				}
			}
			continue
		}
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.X != obj || fa.Field != field {
			continue
		}
		for _, q := range *fa.Referrers() {
			switch x := q.(type) {
			case *ssa.Store:
				if x.Addr != ssa.Value(fa) {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return true
			}
		}
	}
	return false
}

func (sh *sharing) loaded(f *ssa.Function, addr ssa.Value) origins {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if !sh.leads(deref(a.Type())) {
			return origins{}
		}
		name := mrFieldName(a.X.Type(), a.Field)
		if al, ok := a.X.(*ssa.Alloc); ok {
			return sh.stored(f, al, name)
		}
		return label(sh.from(f, a.X), name)
	}
	return sh.from(f, addr)
}

// stored: the origins of what is put in an object made here, or in one field
// of it.
func (sh *sharing) stored(f *ssa.Function, obj ssa.Value, field string) origins {
	out := origins{}
	var visit func(v ssa.Value, in string, depth int)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value, in string, depth int) {
		if seen[v] || depth > 6 || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if x.X != v {
					break
				}
				n := in
				if n == "" && v == obj {
					n = mrFieldName(x.X.Type(), x.Field)
				}
				if v == obj && field != "" && n != field {
					break
				}
				visit(x, n, depth+1)
			case *ssa.IndexAddr:
				if x.X == v {
					visit(x, in, depth+1)
				}
			case *ssa.UnOp:
				// what the object leads to is changed
				if x.Op == token.MUL && x.X == v && sh.leads(x.Type()) {
					if _, ok := x.Type().Underlying().(*types.Struct); !ok {
						visit(x, in, depth+1)
					}
				}
			case *ssa.Slice:
				if x.X == v {
					visit(x, in, depth+1)
				}
			case *ssa.Store:
				if x.Addr != v {
					break
				}
				if al, ok := v.(*ssa.Alloc); ok && v == obj {
					if o, whole := sh.copied(f, x, al, field); whole {
						out.add(o)
						break
					}
				}
				out.add(inField(sh.from(f, x.Val), in))
			case *ssa.MapUpdate:
				if x.Map == v {
					out.add(inField(sh.from(f, x.Value), in))
				}
			}
		}
	}
	visit(obj, "", 0)
	return out
}

// copied: an object is filled with a copy of another one. It shares what its
// fields lead to, but for those that are always given something else, and those
// that are found out anew.
func (sh *sharing) copied(f *ssa.Function, st *ssa.Store, al *ssa.Alloc, field string) (origins, bool) {
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil, false
	}
	s, ok := ld.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	out := origins{}
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		if field != "" && v.Name() != field || sh.derived[v] || !sh.leads(v.Type()) || overwritten(f, st, al, ld.X, i) || escapes(al, i) {
			continue
		}
		if src, ok := ld.X.(*ssa.Alloc); ok {
			out.add(inField(sh.stored(f, src, v.Name()), v.Name()))
			continue
		}
		out.add(inField(label(sh.from(f, ld.X), v.Name()), v.Name()))
	}
	return out, true
}

func (sh *sharing) result(f *ssa.Function, call *ssa.Call, i int) origins {
	out := origins{}
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range call.Call.Args {
				out.add(sh.from(f, a))
			}
		}
		return out
	}
	args := callArgs(&call.Call)
	cs := sh.m.callees(&call.Call)
	// the value, and its fields that are always given something else here
	var made ssa.Value = call
	if call.Call.Signature().Results().Len() > 1 {
		made = nil
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				made = e
			}
		}
	}
	replaced := func(name string) bool {
		if made == nil || name == "" {
			return false
		}
		st, ok := deref(made.Type()).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == name {
				return overwritten(f, made.(ssa.Instruction), made, nil, k) || escapes(made, k)
			}
		}
		return false
	}
	for _, g := range cs {
		s, ok := sh.sums[g]
		if !ok || i >= len(s) {
			out[origin{n: -2, label: "what " + g.Name() + " finds"}] = true
			continue
		}
		for o := range s[i] {
			if replaced(o.in) {
				continue
			}
			switch {
			case o.n < 0:
				out[o] = true
			case o.n < len(args):
				t := sh.from(f, args[o.n])
				if k := strings.IndexByte(o.label, '.'); k >= 0 {
					t = label(t, o.label[k+1:])
				}
				if o.in != "" {
					t = inField(t, o.in)
				}
				out.add(t)
			}
		}
	}
	if len(cs) == 0 {
		for _, a := range args {
			out.add(sh.from(f, a))
		}
		if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
			if s := sh.sums[mc.Fn.(*ssa.Function)]; i < len(s) {
				for o := range s[i] {
					if o.n >= 0 && o.n < len(args) {
						out.add(sh.from(f, args[o.n]))
					}
				}
			}
		}
	}
	return out
}

// judge: what is made from a template leads to nothing of the template.
func (sh *sharing) judge(c *Ctx, f *ssa.Function, templated func(types.Type) bool) {
	w := sh.w
	report := func(what string, pos token.Pos, o origins) {
		names := map[string]bool{}
		for k := range o {
			if k.n >= 0 {
				names[k.label] = true
			}
		}
		var l []string
		for n := range names {
			l = append(l, n)
		}
		sort.Strings(l)
		c.Check(len(l) == 0, "nothing-shared", short(f)+" "+what, w.relPos(pos), "%s of what %s makes shares memory with %s, which a later pass over the one changes for the other", what, short(f), strings.Join(l, ", "))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				st, ok := deref(x.Type()).Underlying().(*types.Struct)
				if !ok || !templated(x.Type()) {
					break
				}
				for i := 0; i < st.NumFields(); i++ {
					if v := st.Field(i); sh.leads(v.Type()) && !sh.derived[v] {
						report(v.Name(), x.Pos(), sh.stored(f, x, v.Name()))
					}
				}
			case *ssa.MapUpdate:
				if u, ok := x.Map.(*ssa.UnOp); ok && sh.leads(x.Value.Type()) {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						report("the entry in "+mrFieldName(fa.X.Type(), fa.Field), x.Pos(), sh.from(f, x.Value))
					}
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if sh.leads(v.Type()) {
						report(fmt.Sprintf("result %d", i), x.Pos(), sh.from(f, v))
					}
				}
			}
		}
	}
}
