package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A mod-ref analysis: which memory, named by where it is reached from, a
// function may write. Memory is named by roots: a parameter, a captured
// variable, a package-level variable or an allocation of the function, with
// the first field on the way and whether a pointer was followed after it. It
// is flow-insensitive, interprocedural by summaries to a fixpoint, and
// resolves dynamic calls by method name among the given functions.

type rkind byte

const (
	rParam rkind = iota
	rFree
	rGlobal
	rAlloc
)

type root struct {
	kind  rkind
	n     int       // parameter or captured variable
	at    ssa.Value // global or allocation site
	field string
	deep  bool
}

func (r root) base() root { return root{kind: r.kind, n: r.n, at: r.at} }

func (r root) String() string {
	s := ""
	switch r.kind {
	case rParam:
		s = fmt.Sprintf("parameter %d", r.n)
	case rFree:
		s = fmt.Sprintf("captured variable %d", r.n)
	case rGlobal:
		s = "the package-level variable " + r.at.Name()
	case rAlloc:
		s = "a local object"
	}
	if r.field != "" {
		s += "." + r.field
	}
	return s
}

type rset map[root]bool

func (s rset) addAll(t rset) bool {
	ch := false
	for r := range t {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

// site is a write: the instruction, and how.
type site struct {
	in  ssa.Instruction
	how string // "store", "map entry", "append", or the external callee
}

type summary struct {
	writes map[root]map[site]bool
	flows  map[root]rset // what may be stored in memory reached from a root
	rets   []rset        // roots each result may point to
	reach  []rset        // roots reachable from what is freshly allocated for each result
	fresh  []bool
}

type modref struct {
	w        *World
	fns      []*ssa.Function
	in       map[*ssa.Function]bool
	sums     map[*ssa.Function]*summary
	byName   map[string][]*ssa.Function
	readonly func(f *ssa.Function) bool
	vals     map[*ssa.Function]map[ssa.Value]rset
	conts    map[*ssa.Function]map[root]rset
}

func newModref(w *World, fns []*ssa.Function) *modref {
	m := &modref{w: w, fns: fns, in: map[*ssa.Function]bool{}, sums: map[*ssa.Function]*summary{}, byName: map[string][]*ssa.Function{}, vals: map[*ssa.Function]map[ssa.Value]rset{}, conts: map[*ssa.Function]map[root]rset{}}
	for _, f := range fns {
		m.in[f] = true
		m.sums[f] = &summary{writes: map[root]map[site]bool{}, flows: map[root]rset{}}
		n := f.Signature.Results().Len()
		for i := 0; i < n; i++ {
			m.sums[f].rets = append(m.sums[f].rets, rset{})
			m.sums[f].reach = append(m.sums[f].reach, rset{})
			m.sums[f].fresh = append(m.sums[f].fresh, false)
		}
		if f.Signature.Recv() != nil && f.Parent() == nil {
			m.byName[f.Name()] = append(m.byName[f.Name()], f)
		}
	}
	return m
}

// solve runs all functions to a fixpoint.
func (m *modref) solve() {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range m.callees(ci.Common()) {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	queued := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, f := range m.fns {
		q = append(q, f)
		queued[f] = true
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		queued[f] = false
		if m.analyse(f) {
			for _, c := range callers[f] {
				if !queued[c] {
					queued[c] = true
					q = append(q, c)
				}
			}
		}
	}
}

func (m *modref) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		if m.in[f] {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.IsInvoke() {
		var out []*ssa.Function
		for _, f := range m.byName[c.Method.Name()] {
			if f.Signature.Params().Len() != c.Signature().Params().Len() || f.Signature.Results().Len() != c.Signature().Results().Len() {
				continue
			}
			if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && !offers(f.Signature.Recv().Type(), it) {
				continue
			}
			out = append(out, f)
		}
		return out
	}
	return nil
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

// offers: a receiver type has all methods of an interface, as far as names and
// the numbers of parameters and results tell.
func offers(rt types.Type, it *types.Interface) bool {
	if _, ok := rt.(*types.Pointer); !ok {
		rt = types.NewPointer(rt)
	}
	ms := types.NewMethodSet(rt)
	have := map[string]*types.Signature{}
	for i := 0; i < ms.Len(); i++ {
		have[ms.At(i).Obj().Name()] = ms.At(i).Type().(*types.Signature)
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		g := have[m.Name()]
		sg := m.Type().(*types.Signature)
		if g == nil || g.Params().Len() != sg.Params().Len() || g.Results().Len() != sg.Results().Len() {
			return false
		}
	}
	return true
}

// refs: values of the type can lead to memory.
func refs(t types.Type) bool { return refs1(t, 0) }

func refs1(t types.Type, d int) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if d > 6 || refs1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refs1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func mrFieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (m *modref) analyse(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	s := m.sums[f]
	vals := m.vals[f]
	cont := m.conts[f]
	if vals == nil {
		vals = map[ssa.Value]rset{}
		cont = map[root]rset{}
		m.vals[f], m.conts[f] = vals, cont
	}
	sumChanged := false
	get := func(v ssa.Value) rset {
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x && refs(x.Type()) {
					return rset{root{kind: rParam, n: i}: true}
				}
			}
			return nil
		case *ssa.FreeVar:
			for i, p := range f.FreeVars {
				if p == x {
					return rset{root{kind: rFree, n: i}: true}
				}
			}
			return nil
		case *ssa.Global:
			return rset{root{kind: rGlobal, at: x}: true}
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
			return nil
		}
		return vals[v]
	}
	changed := true
	set := func(v ssa.Value, t rset) {
		if len(t) == 0 {
			return
		}
		if vals[v] == nil {
			vals[v] = rset{}
		}
		if vals[v].addAll(t) {
			changed = true
		}
	}
	addCont := func(a root, t rset) {
		if len(t) == 0 {
			return
		}
		a.deep = false
		if cont[a] == nil {
			cont[a] = rset{}
		}
		if cont[a].addAll(t) {
			changed = true
		}
	}
	load := func(rs rset) rset {
		out := rset{}
		for r := range rs {
			if r.kind == rAlloc {
				for a, t := range cont {
					if a.kind == rAlloc && a.at == r.at && (a.field == r.field || r.field == "" || a.field == "") {
						out.addAll(t)
					}
				}
				continue
			}
			for q := range s.flowsOf(r) {
				out[q] = true
			}
			r.deep = true
			out[r] = true
		}
		return out
	}
	write := func(rs rset, st site) {
		for r := range rs {
			if r.kind == rAlloc {
				continue
			}
			if s.writes[r] == nil {
				s.writes[r] = map[site]bool{}
			}
			if !s.writes[r][st] {
				s.writes[r][st] = true
				sumChanged = true
			}
		}
	}
	flow := func(dst, src rset) {
		if len(src) == 0 {
			return
		}
		for r := range dst {
			if r.kind == rAlloc {
				addCont(r, src)
				continue
			}
			if s.flows[r] == nil {
				s.flows[r] = rset{}
			}
			// what local objects hold goes along
			t := rset{}
			for q := range m.closure(src, cont) {
				if q.kind != rAlloc {
					t[q] = true
				}
			}
			if s.flows[r].addAll(t) {
				sumChanged = true
				changed = true
			}
		}
	}
	for changed {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					set(x, rset{root{kind: rAlloc, at: x}: true})
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
					v := x.(ssa.Value)
					set(v, rset{root{kind: rAlloc, at: v}: true})
				case *ssa.MakeClosure:
					r := root{kind: rAlloc, at: x}
					set(x, rset{r: true})
					for _, bd := range x.Bindings {
						addCont(r, get(bd))
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && refs(x.Type()) {
						set(x, load(get(x.X)))
					} else if x.Op == token.ARROW {
						set(x, load(get(x.X)))
					}
				case *ssa.FieldAddr:
					name := mrFieldName(x.X.Type(), x.Field)
					t := rset{}
					for r := range get(x.X) {
						if r.field == "" && !r.deep {
							r.field = name
						}
						t[r] = true
					}
					set(x, t)
				case *ssa.Field:
					if refs(x.Type()) {
						set(x, get(x.X))
					}
				case *ssa.IndexAddr:
					set(x, get(x.X))
				case *ssa.Index:
					if refs(x.Type()) {
						set(x, get(x.X))
					}
				case *ssa.Lookup:
					if refs(x.Type()) {
						set(x, load(get(x.X)))
					}
				case *ssa.Range:
					set(x, get(x.X))
				case *ssa.Next:
					set(x, load(get(x.Iter)))
				case *ssa.Extract:
					if refs(x.Type()) {
						if call, ok := x.Tuple.(*ssa.Call); ok {
							set(x, m.result(f, call, x.Index, get, addCont, cont))
						} else {
							set(x, get(x.Tuple))
						}
					}
				case *ssa.Slice:
					set(x, get(x.X))
				case *ssa.ChangeType:
					set(x, get(x.X))
				case *ssa.ChangeInterface:
					set(x, get(x.X))
				case *ssa.MakeInterface:
					if refs(x.X.Type()) {
						set(x, get(x.X))
					}
				case *ssa.TypeAssert:
					if refs(x.Type()) {
						set(x, get(x.X))
					}
				case *ssa.Convert:
					if refs(x.Type()) {
						if _, basic := x.X.Type().Underlying().(*types.Basic); basic {
							set(x, rset{root{kind: rAlloc, at: x}: true})
						} else {
							set(x, get(x.X))
						}
					}
				case *ssa.MultiConvert:
					set(x, get(x.X))
				case *ssa.SliceToArrayPointer:
					set(x, get(x.X))
				case *ssa.Phi:
					if refs(x.Type()) {
						for _, e := range x.Edges {
							set(x, get(e))
						}
					}
				case *ssa.Store:
					a := get(x.Addr)
					write(a, site{in, "store"})
					if al, ok := x.Addr.(*ssa.Alloc); ok && m.wholeCopy(f, x, al, get, load, addCont) {
						break
					}
					if refs(x.Val.Type()) {
						flow(a, get(x.Val))
					}
				case *ssa.MapUpdate:
					a := get(x.Map)
					write(a, site{in, "map entry"})
					flow(a, get(x.Value))
				case *ssa.Send:
					flow(get(x.Chan), get(x.X))
				case ssa.CallInstruction:
					m.call(f, x, get, set, write, flow, load, cont)
				case *ssa.Return:
					for i, v := range x.Results {
						if !refs(v.Type()) {
							continue
						}
						for r := range get(v) {
							if r.kind == rAlloc {
								if !s.fresh[i] {
									s.fresh[i] = true
									sumChanged = true
								}
								for q := range m.closure(rset{r: true}, cont) {
									if q.kind != rAlloc && !s.reach[i][q] {
										s.reach[i][q] = true
										sumChanged = true
									}
								}
								continue
							}
							if !s.rets[i][r] {
								s.rets[i][r] = true
								sumChanged = true
							}
						}
					}
				}
			}
		}
	}
	return sumChanged
}

// wholeCopy: a local object is filled with a copy of another; what its fields
// hold is shared, except in fields that are always given something else.
func (m *modref) wholeCopy(f *ssa.Function, st *ssa.Store, al *ssa.Alloc, get func(ssa.Value) rset, load func(rset) rset, addCont func(root, rset)) bool {
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	s, ok := ld.Type().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	src := get(ld.X)
	for i := 0; i < s.NumFields(); i++ {
		if !refs(s.Field(i).Type()) || overwritten(f, st, al, ld.X, i) {
			continue
		}
		name := s.Field(i).Name()
		t := rset{}
		for r := range src {
			if r.field == "" && !r.deep {
				r.field = name
			}
			t[r] = true
		}
		addCont(root{kind: rAlloc, at: al, field: name}, load(t))
	}
	return true
}

// overwritten: on every way from the copy to a return the field is assigned,
// or known to be nil.
func overwritten(f *ssa.Function, st ssa.Instruction, al, src ssa.Value, field int) bool {
	isField := func(v ssa.Value, base ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && base != nil && fa.X == base && fa.Field == field
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Store:
				if isField(x.Addr, al) && !again(x.Val, func(v ssa.Value) bool { return isField(v, al) || isField(v, src) }, 0) {
					return true
				}
			case *ssa.Return:
				n := len(x.Results)
				return n > 0 && isErrorType(x.Results[n-1].Type()) && surelyError(x.Results[n-1], b)
			case *ssa.Panic:
				return true
			}
		}
		skip := -1
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) && isNilConst(c.Y) {
				if u, ok := c.X.(*ssa.UnOp); ok && u.Op == token.MUL && sameField(u.X, al, field) {
					skip = 0
					if c.Op == token.NEQ {
						skip = 1
					}
				}
			}
		}
		for i, s := range b.Succs {
			if i == skip || seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	for i, in := range st.Block().Instrs {
		if in == st {
			return walk(st.Block(), i+1)
		}
	}
	return false
}

// sameField: the address is that of the field of an object of the same type.
func sameField(v, obj ssa.Value, field int) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && fa.Field == field && types.Identical(deref(fa.X.Type()), deref(obj.Type()))
}

// again: the value is (a part of) what the field holds already.
func again(v ssa.Value, isField func(ssa.Value) bool, d int) bool {
	if d > 8 {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && isField(x.X)
	case *ssa.Slice:
		return again(x.X, isField, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && again(e, isField, d+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return again(x.Call.Args[0], isField, d+1)
		}
	}
	return false
}

// closure: everything reachable from local objects.
func (m *modref) closure(rs rset, cont map[root]rset) rset {
	out := rset{}
	var add func(r root)
	add = func(r root) {
		if out[r] {
			return
		}
		out[r] = true
		if r.kind != rAlloc {
			return
		}
		for a, t := range cont {
			if a.at == r.at && a.kind == rAlloc && (r.field == "" || a.field == "" || a.field == r.field) {
				for q := range t {
					add(q)
				}
			}
		}
	}
	for r := range rs {
		add(r)
	}
	return out
}

// translate maps a root of the callee to roots of the caller.
func (m *modref) translate(f *ssa.Function, r root, args []ssa.Value, get func(ssa.Value) rset, cont map[root]rset) rset {
	switch r.kind {
	case rGlobal:
		return rset{r: true}
	case rParam:
		if r.n >= len(args) {
			return nil
		}
		out := rset{}
		for a := range get(args[r.n]) {
			if r.field != "" && a.field == "" && !a.deep {
				a.field = r.field
			}
			if !r.deep {
				out[a] = true
				continue
			}
			// one pointer further
			if a.kind == rAlloc {
				for q := range m.closure(rset{a: true}, cont) {
					if q != a {
						out[q] = true
					}
				}
				continue
			}
			for q := range m.sums[f].flowsOf(a) {
				out[q] = true
			}
			a.deep = true
			out[a] = true
		}
		return out
	}
	return nil
}

// flowsOf: what the function may have stored in memory reached from a root.
func (s *summary) flowsOf(r root) rset {
	out := rset{}
	if r.kind != rGlobal {
		// what is stored in a caller's object is told by the flows alone
		return out
	}
	for k, t := range s.flows {
		if k.kind == r.kind && k.n == r.n && k.at == r.at && (k.field == "" || r.field == "" || k.field == r.field) {
			out.addAll(t)
		}
	}
	return out
}

func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// result gives the roots of one result of a call.
func (m *modref) result(f *ssa.Function, call *ssa.Call, i int, get func(ssa.Value) rset, addCont func(root, rset), cont map[root]rset) rset {
	out := rset{}
	args := callArgs(&call.Call)
	cs := m.callees(&call.Call)
	for _, g := range cs {
		s := m.sums[g]
		if i >= len(s.rets) {
			continue
		}
		for r := range s.rets[i] {
			out.addAll(m.translate(f, r, args, get, cont))
		}
		if s.fresh[i] {
			a := root{kind: rAlloc, at: call}
			out[a] = true
			for r := range s.reach[i] {
				addCont(a, m.translate(f, r, args, get, cont))
			}
		}
	}
	if len(cs) == 0 {
		out[root{kind: rAlloc, at: call}] = true
		// an unknown callee may hand back what it was given
		if g := call.Call.StaticCallee(); g != nil && returnsArgument(g) || call.Call.IsInvoke() && call.Call.Method.Name() == "Bytes" {
			for _, x := range args {
				out.addAll(get(x))
			}
		}
	}
	return out
}

func qualName(g *ssa.Function) string {
	if o := g.Origin(); o != nil {
		g = o
	}
	if g.Pkg == nil {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

func returnsArgument(g *ssa.Function) bool {
	switch qualName(g) {
	case "slices.Clip", "slices.Grow", "slices.Insert", "slices.Delete", "slices.Compact", "bytes.NewBuffer", "bytes.NewReader", "bytes.TrimRight", "bytes.TrimLeft", "bytes.TrimSpace", "append":
		return true
	}
	return false
}

// mutates: the argument positions (receiver first) an external callee writes.
func mutates(g *ssa.Function, n int) []int {
	q := qualName(g)
	switch q {
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "slices.Delete", "slices.DeleteFunc", "slices.Compact", "slices.CompactFunc", "slices.Insert", "slices.Replace", "maps.Copy", "maps.DeleteFunc", "golang.org/x/exp/slices.Sort", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/maps.Copy", "golang.org/x/exp/maps.Clear", "rand.Shuffle", "binary.PutUvarint", "binary.PutVarint":
		return []int{0}
	case "io.ReadFull", "io.ReadAtLeast":
		return []int{1}
	case "encoding/binary.Read":
		return []int{2}
	}
	if strings.HasPrefix(q, "encoding/binary.") && (strings.HasPrefix(g.Name(), "Put") || strings.HasPrefix(g.Name(), "Append")) || q == "encoding/binary.Encode" {
		if g.Signature.Recv() != nil {
			return []int{1}
		}
		return []int{0}
	}
	if strings.HasPrefix(g.Name(), "Put") || strings.HasPrefix(g.Name(), "Append") || strings.HasPrefix(g.Name(), "Read") || strings.HasPrefix(g.Name(), "Encode") || strings.HasPrefix(g.Name(), "Decode") || strings.HasPrefix(g.Name(), "Copy") || strings.HasPrefix(g.Name(), "Fill") {
		// whatever else fills a buffer it is handed
		var out []int
		for i := 0; i < n; i++ {
			j := i
			if g.Signature.Recv() != nil {
				j--
			}
			if j >= 0 && j < g.Signature.Params().Len() && isByteSlice(g.Signature.Params().At(j).Type()) && !strings.HasPrefix(g.Name(), "Encode") {
				out = append(out, i)
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	if g.Signature.Recv() != nil {
		t := types.TypeString(g.Signature.Recv().Type(), nil)
		if strings.HasPrefix(t, "*") {
			switch {
			case strings.HasPrefix(t, "*sync."), strings.HasPrefix(t, "*sync/atomic."):
				return nil // made for sharing
			case strings.HasPrefix(t, "*bytes.Buffer"), strings.HasPrefix(t, "*strings.Builder"), strings.HasPrefix(t, "*math/rand."), strings.HasPrefix(t, "*bufio."):
				if g.Name() == "Read" || g.Name() == "ReadFull" {
					return []int{0, 1}
				}
				return []int{0}
			}
			if g.Name() == "Read" && n == 2 {
				return []int{1}
			}
		}
	}
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *modref) call(f *ssa.Function, in ssa.CallInstruction, get func(ssa.Value) rset, set func(ssa.Value, rset), write func(rset, site), flow func(dst, src rset), load func(rset) rset, cont map[root]rset) {
	c := in.Common()
	val, _ := in.(*ssa.Call)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if val == nil {
				return
			}
			a := root{kind: rAlloc, at: val}
			t := rset{a: true}
			t.addAll(get(c.Args[0]))
			set(val, t)
			src := rset{}
			src.addAll(load(get(c.Args[0])))
			if len(c.Args) > 1 && elemRefs(c.Args[1].Type()) {
				src.addAll(load(get(c.Args[1])))
				flow(get(c.Args[0]), load(get(c.Args[1])))
			}
			flow(rset{a: true}, src)
			if _, ok := c.Args[0].(*ssa.Slice); ok {
				write(get(c.Args[0]), site{in, "append"})
			}
		case "copy":
			write(get(c.Args[0]), site{in, "copy"})
			if elemRefs(c.Args[1].Type()) {
				flow(get(c.Args[0]), load(get(c.Args[1])))
			}
		case "delete", "clear":
			write(get(c.Args[0]), site{in, b.Name()})
		}
		return
	}
	args := callArgs(c)
	cs := m.callees(c)
	for _, g := range cs {
		s := m.sums[g]
		for r, sites := range s.writes {
			rs := m.translate(f, r, args, get, cont)
			if len(rs) == 0 {
				continue
			}
			for st := range sites {
				write(rs, st)
			}
		}
		for dst, src := range s.flows {
			d := m.translate(f, dst, args, get, cont)
			if len(d) == 0 {
				continue
			}
			for r := range src {
				flow(d, m.translate(f, r, args, get, cont))
			}
		}
	}
	if g := c.StaticCallee(); len(cs) == 0 && g != nil {
		for _, i := range mutates(g, len(args)) {
			if i < len(args) {
				write(get(args[i]), site{in, qualName(g)})
			}
		}
	}
	if len(cs) == 0 && c.IsInvoke() && (c.Method.Name() == "Read" || strings.HasPrefix(c.Method.Name(), "Put")) && len(args) >= 2 {
		write(get(args[1]), site{in, "Read"})
	}
	if val != nil && c.Signature().Results().Len() == 1 && refs(c.Signature().Results().At(0).Type()) {
		addCont := func(a root, t rset) { flow(rset{a: true}, t) }
		set(val, m.result(f, val, 0, get, addCont, cont))
	}
}

func elemRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return refs(u.Elem())
	case *types.Basic:
		return false
	}
	return true
}

// writesTo lists the writes of a function to memory of the wanted roots, in a
// fixed order.
func (m *modref) writesTo(f *ssa.Function, want func(root) bool) []struct {
	r root
	s site
} {
	var out []struct {
		r root
		s site
	}
	seen := map[site]bool{}
	for r, ss := range m.sums[f].writes {
		if !want(r) {
			continue
		}
		for s := range ss {
			if !seen[s] {
				seen[s] = true
				out = append(out, struct {
					r root
					s site
				}{r, s})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].s.in.Pos() < out[j].s.in.Pos() })
	return out
}
