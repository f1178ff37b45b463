package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C18", Gen: true, Explain: "Every place where a decoder reserves memory (make, append of make, Grow, and the like), in the runtime and in the generated code: its size is bounded by a constant, by data that exists already, or by a guard that dominates it. Every loop that grows a value is bounded in the same way, or reads from the stream, and ends when that fails, each time around.", Run: runC18})
}

// allocAllowance is the number of elements that may be reserved ahead.
const allocAllowance = 1 << 16

type allocs struct {
	w       *World
	gen     map[string]bool
	fns     map[*ssa.Function]bool
	calls   map[*ssa.Function][]ssa.CallInstruction
	reads   map[*ssa.Function]int // 1 reads, 2 does not
	closure map[*ssa.Function]*ssa.MakeClosure
	loops   map[*ssa.Function]map[*ssa.BasicBlock]int
}

// isReader: the type can be read from.
func isWriter(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "WriteByte")
	f, ok := o.(*types.Func)
	return ok && f.Type().(*types.Signature).Params().Len() == 1
}

func isReader(t types.Type) bool {
	for _, m := range []string{"Read", "ReadByte", "ReadBits"} {
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, m)
		f, ok := o.(*types.Func)
		if !ok {
			continue
		}
		s := f.Type().(*types.Signature)
		r := s.Results()
		if m == "Read" && (s.Params().Len() != 1 || !isByteSlice(s.Params().At(0).Type())) {
			continue
		}
		if r.Len() == 2 && isErrorType(r.At(1).Type()) {
			return true
		}
	}
	return false
}

func originOf(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func (a *allocs) ours(f *ssa.Function) bool {
	p := fnPkg(f)
	if p == nil || f.Blocks == nil {
		return false
	}
	return inModule(f) || a.gen[p.Path()]
}

func (a *allocs) add(f *ssa.Function) {
	f = originOf(f)
	if f == nil || a.fns[f] || !a.ours(f) {
		return
	}
	a.fns[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if g := originOf(x.Common().StaticCallee()); g != nil {
					a.calls[g] = append(a.calls[g], x)
					a.add(g)
				}
			case *ssa.MakeClosure:
				a.closure[x.Fn.(*ssa.Function)] = x
				a.add(x.Fn.(*ssa.Function))
			}
		}
	}
}

func newAllocs(w *World) *allocs {
	a := &allocs{w: w, gen: map[string]bool{}, fns: map[*ssa.Function]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, reads: map[*ssa.Function]int{}, closure: map[*ssa.Function]*ssa.MakeClosure{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]int{}}
	for _, p := range w.Gen {
		a.gen[p.PkgPath] = true
	}
	for _, f := range append(w.FnsIn("", "ztype", "zstream"), w.GenFns...) {
		for _, p := range f.Params {
			// helpers are reached from their callers; a buffer that is written is no input
			if isReader(p.Type()) && !isWriter(p.Type()) && (f.Signature.Recv() != nil || token.IsExported(f.Name()) || f.Object() == nil) {
				a.add(f)
				break
			}
		}
		// what makes up an object before it is decoded
		if strings.HasPrefix(f.Name(), "ZserioCreatePackingContext") || strings.HasPrefix(f.Name(), "Unmarshal") {
			a.add(f)
		}
	}
	return a
}

// sameValue: both are the same value, conversions aside.
func sameValue(x, y ssa.Value) bool {
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch c := v.(type) {
			case *ssa.Convert:
				v = c.X
			case *ssa.ChangeType:
				v = c.X
			default:
				return v
			}
		}
	}
	x, y = strip(x), strip(y)
	if x == y {
		return true
	}
	lx, ok1 := x.(*ssa.UnOp)
	ly, ok2 := y.(*ssa.UnOp)
	if ok1 && ok2 && lx.Op == token.MUL && ly.Op == token.MUL {
		return sameAddr(lx.X, ly.X)
	}
	return false
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	fx, ok1 := x.(*ssa.FieldAddr)
	fy, ok2 := y.(*ssa.FieldAddr)
	if ok1 && ok2 && fx.Field == fy.Field {
		return sameAddr(fx.X, fy.X) || sameValue(fx.X, fy.X)
	}
	return false
}

type guard struct {
	cond ssa.Value
	val  bool
}

// guards are the conditions known to hold at the start of a block.
func guards(b *ssa.BasicBlock) []guard {
	var out []guard
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			for i, s := range p.Succs {
				if len(s.Preds) == 1 && s.Dominates(b) {
					out = append(out, guard{br.Cond, i == 0})
				}
			}
		}
	}
	return out
}

func edgeGuards(p, b *ssa.BasicBlock) []guard {
	out := guards(p)
	if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		for i, s := range p.Succs {
			if s == b {
				out = append(out, guard{br.Cond, i == 0})
			}
		}
	}
	return out
}

// limit: a value that v is known to be at most, by a guard.
func limit(v ssa.Value, gs []guard) []ssa.Value {
	var out []ssa.Value
	for _, g := range gs {
		c, val := g.cond, g.val
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, val = u.X, !val
		}
		op, ok := c.(*ssa.BinOp)
		if !ok {
			continue
		}
		k := op.Op
		if !val {
			switch k {
			case token.LSS:
				k = token.GEQ
			case token.LEQ:
				k = token.GTR
			case token.GTR:
				k = token.LEQ
			case token.GEQ:
				k = token.LSS
			case token.EQL:
				k = token.NEQ
			case token.NEQ:
				k = token.EQL
			}
		}
		if sameValue(op.X, v) && (k == token.LSS || k == token.LEQ || k == token.EQL) {
			out = append(out, op.Y)
		}
		if sameValue(op.Y, v) && (k == token.GTR || k == token.GEQ || k == token.EQL) {
			out = append(out, op.X)
		}
	}
	return out
}

// bounded: the value is at most the allowance, or in proportion to data that
// exists.
func (a *allocs) bounded(v ssa.Value, gs []guard, seen map[ssa.Value]bool, depth int) bool {
	if v == nil {
		return true
	}
	if depth > 12 {
		return false
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8, types.Int8, types.Uint16, types.Int16:
			return true
		}
	}
	for _, l := range limit(v, gs) {
		if l != v && a.bounded(l, nil, seen, depth+1) {
			return true
		}
	}
	rec := func(x ssa.Value) bool { return a.bounded(x, gs, seen, depth+1) }
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return true
		}
		n, ok := constant.Int64Val(constant.ToInt(x.Value))
		return ok && n <= allocAllowance
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.BinOp:
		k := func(y ssa.Value) bool {
			c, ok := y.(*ssa.Const)
			return ok && c.Value != nil && rec(c)
		}
		switch x.Op {
		case token.ADD, token.OR, token.XOR:
			return rec(x.X) && rec(x.Y)
		case token.SUB, token.QUO, token.SHR:
			return rec(x.X)
		case token.MUL:
			return k(x.X) && rec(x.Y) || k(x.Y) && rec(x.X)
		case token.SHL:
			c, ok := x.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return false
			}
			n, ok := constant.Int64Val(constant.ToInt(c.Value))
			return ok && n <= 6 && rec(x.X)
		case token.REM:
			return rec(x.X) || rec(x.Y)
		case token.AND:
			return rec(x.X) || rec(x.Y)
		}
		return false
	case *ssa.Phi:
		if seen[v] {
			return true
		}
		seen[v] = true
		// a value that grows around a loop has a bound only if a guard gives it one
		for _, e := range x.Edges {
			if grows(e, x, map[ssa.Value]bool{}) {
				return false
			}
		}
		for i, e := range x.Edges {
			if !a.bounded(e, edgeGuards(x.Block().Preds[i], x.Block()), seen, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "copy":
				return true
			case "min":
				for _, y := range x.Call.Args {
					if rec(y) {
						return true
					}
				}
				return false
			case "max":
				for _, y := range x.Call.Args {
					if !rec(y) {
						return false
					}
				}
				return true
			}
			return false
		}
		return a.boundedResult(x, 0, gs, seen, depth)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.boundedResult(c, x.Index, gs, seen, depth)
		}
		if n, ok := x.Tuple.(*ssa.Next); ok {
			_ = n
			return x.Index == 1 // the index of an element
		}
	case *ssa.Parameter:
		f := x.Parent()
		cs := a.calls[f]
		i := -1
		for j, p := range f.Params {
			if p == x {
				i = j
			}
		}
		// whoever calls a function that is exported is not known
		if i < 0 || len(cs) == 0 || token.IsExported(f.Name()) {
			return false
		}
		for _, c := range cs {
			if i >= len(c.Common().Args) || !a.bounded(c.Common().Args[i], guards(c.Block()), map[ssa.Value]bool{}, depth+3) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		mc := a.closure[x.Parent()]
		if mc == nil {
			return false
		}
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				return a.bounded(mc.Bindings[i], guards(mc.Block()), seen, depth+1)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		// a variable that is stored to
		al, ok := x.X.(*ssa.Alloc)
		if !ok || seen[al] {
			return false
		}
		seen[al] = true
		some := false
		for _, r := range *al.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr != al || !a.bounded(s.Val, guards(s.Block()), seen, depth+1) {
					return false
				}
				some = true
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return some
	}
	return false
}

// grows: v is made of p by adding or multiplying.
func grows(v ssa.Value, p ssa.Value, seen map[ssa.Value]bool) bool {
	var has func(v ssa.Value, up bool) bool
	has = func(v ssa.Value, up bool) bool {
		if v == p {
			return up
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.MUL, token.SHL:
				return has(x.X, true) || has(x.Y, true)
			case token.SUB:
				return has(x.X, up)
			}
		case *ssa.Convert:
			return has(x.X, up)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if has(e, up) {
					return true
				}
			}
		}
		return false
	}
	return has(v, false)
}

// boundedResult: what a function of ours returns is bounded.
func (a *allocs) boundedResult(c *ssa.Call, ix int, gs []guard, seen map[ssa.Value]bool, depth int) bool {
	f := originOf(c.Call.StaticCallee())
	if f == nil || !a.ours(f) || depth > 8 {
		return false
	}
	args := map[ssa.Value]ssa.Value{}
	for i, p := range f.Params {
		if i < len(c.Call.Args) {
			args[p] = c.Call.Args[i]
		}
	}
	n := 0
	var ok func(v ssa.Value, g []guard, d int) bool
	ok = func(v ssa.Value, g []guard, d int) bool {
		if y := args[v]; y != nil {
			for _, l := range limit(v, g) {
				if l != v && ok(l, nil, d+1) {
					return true
				}
			}
			return a.bounded(y, gs, map[ssa.Value]bool{}, depth+1)
		}
		switch x := v.(type) {
		case *ssa.Convert:
			if d < 6 {
				return ok(x.X, g, d+1)
			}
		case *ssa.Phi:
			if d < 6 {
				for i, e := range x.Edges {
					if !ok(e, edgeGuards(x.Block().Preds[i], x.Block()), d+1) {
						return false
					}
				}
				return true
			}
		case *ssa.Call:
			if b, is := x.Call.Value.(*ssa.Builtin); is && b.Name() == "min" {
				for _, y := range x.Call.Args {
					if ok(y, g, d+1) {
						return true
					}
				}
				return false
			}
		}
		return a.bounded(v, g, map[ssa.Value]bool{}, depth+1)
	}
	for _, b := range f.Blocks {
		r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !is || ix >= len(r.Results) {
			continue
		}
		n++
		if !ok(r.Results[ix], guards(b), 0) {
			return false
		}
	}
	return n > 0
}

// reserve is a place where memory is set aside.
type reserve struct {
	in    ssa.Instruction
	sizes []ssa.Value
	what  string
}

var growers = map[string][]int{ // the arguments that are sizes
	"(*bytes.Buffer).Grow": {1}, "(*strings.Builder).Grow": {1}, "slices.Grow": {1}, "slices.Repeat": {1}, "bytes.Repeat": {1}, "strings.Repeat": {1},
	"bufio.NewReaderSize": {1}, "bufio.NewWriterSize": {1}, "reflect.MakeSlice": {1, 2}, "reflect.ArrayOf": {0}, "unsafe.Slice": {1},
}

func (a *allocs) reserves(f *ssa.Function) []reserve {
	var out []reserve
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeSlice:
				sizes := []ssa.Value{x.Cap}
				if x.Len != x.Cap {
					sizes = append(sizes, x.Len)
				}
				out = append(out, reserve{x, sizes, "make"})
			case *ssa.MakeMap:
				if x.Reserve != nil {
					out = append(out, reserve{x, []ssa.Value{x.Reserve}, "make"})
				}
			case *ssa.MakeChan:
				out = append(out, reserve{x, []ssa.Value{x.Size}, "make"})
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil {
					continue
				}
				name := originOf(g).String()
				if name == "" {
					continue
				}
				for _, i := range growers[name] {
					if i < len(x.Common().Args) {
						out = append(out, reserve{x, []ssa.Value{x.Common().Args[i]}, name})
					}
				}
			}
		}
	}
	return out
}

// readCall: the call reads from a stream, and says when it cannot.
func (a *allocs) readCall(c *ssa.Call, depth int) bool {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return false
	}
	res := c.Call.Signature().Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return false
	}
	if c.Call.IsInvoke() && c.Call.Method.Name() == "Align" || c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Align" {
		return false // may read nothing
	}
	if c.Call.IsInvoke() && isReader(c.Call.Value.Type()) {
		return true
	}
	for _, y := range c.Call.Args {
		if isReader(y.Type()) {
			return true
		}
	}
	f := originOf(c.Call.StaticCallee())
	if f == nil || depth > 4 {
		return false
	}
	if f.Blocks == nil {
		return false
	}
	if k := a.reads[f]; k != 0 {
		return k == 1
	}
	a.reads[f] = 2
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Call); ok && a.readCall(d, depth+1) {
				a.reads[f] = 1
				return true
			}
		}
	}
	return false
}

// component numbers the strongly connected components that are loops.
func (a *allocs) component(f *ssa.Function) map[*ssa.BasicBlock]int {
	if m, ok := a.loops[f]; ok {
		return m
	}
	m := sccs(f.Blocks, func(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Succs })
	a.loops[f] = m
	return m
}

// sccs gives the blocks that lie on cycles the number of their component.
func sccs(blocks []*ssa.BasicBlock, succs func(*ssa.BasicBlock) []*ssa.BasicBlock) map[*ssa.BasicBlock]int {
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	out := map[*ssa.BasicBlock]int{}
	n, comp := 0, 0
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		n++
		index[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		self := false
		for _, s := range succs(b) {
			if s == b {
				self = true
			}
			if index[s] == 0 {
				visit(s)
				low[b] = min(low[b], low[s])
			} else if on[s] {
				low[b] = min(low[b], index[s])
			}
		}
		if low[b] == index[b] {
			var c []*ssa.BasicBlock
			for {
				t := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[t] = false
				c = append(c, t)
				if t == b {
					break
				}
			}
			if len(c) > 1 || self {
				comp++
				for _, t := range c {
					out[t] = comp
				}
			}
		}
	}
	for _, b := range blocks {
		if index[b] == 0 {
			visit(b)
		}
	}
	return out
}

// checkedRead: the branch leaves the loop when a read has failed.
func (a *allocs) checkedRead(br *ssa.If, in map[*ssa.BasicBlock]bool) bool {
	b := br.Block()
	op, ok := br.Cond.(*ssa.BinOp)
	if !ok || (op.Op != token.EQL && op.Op != token.NEQ) {
		return false
	}
	e := op.X
	if isNilConst(e) {
		e = op.Y
	} else if !isNilConst(op.Y) {
		return false
	}
	bad := b.Succs[0]
	if op.Op == token.EQL {
		bad = b.Succs[1]
	}
	if in[bad] {
		return false
	}
	seen := map[ssa.Value]bool{}
	var all func(v ssa.Value) bool
	all = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				if !all(y) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			return ok && in[c.Block()] && a.readCall(c, 0)
		case *ssa.Call:
			return in[x.Block()] && a.readCall(x, 0)
		case *ssa.UnOp:
			// an error variable that a closure shares
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				some := false
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al && in[s.Block()] {
						if !all(s.Val) {
							return false
						}
						some = true
					}
				}
				return some
			}
		}
		return false
	}
	return all(e)
}

// growth: the instruction adds to what a value holds.
func (a *allocs) growth(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.MakeSlice:
		if k, ok := x.Cap.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
			return ""
		}
		return "make"
	case *ssa.MapUpdate:
		return "an entry of a map"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return "append"
		}
		if g := x.Call.StaticCallee(); g != nil && len(growers[originOf(g).String()]) > 0 {
			return originOf(g).String()
		}
	}
	return ""
}

// endless: the loop around the growth goes round without reading, and as often
// as a length from the stream says.
func (a *allocs) endless(f *ssa.Function, at *ssa.BasicBlock) (bool, int) {
	comp := a.component(f)
	k := comp[at]
	if k == 0 {
		return false, 0
	}
	in := map[*ssa.BasicBlock]bool{}
	reads := 0
	for b, j := range comp {
		if j == k {
			in[b] = true
		}
	}
	// cut the loop where reads are checked, and where a bound ends it
	cut := map[*ssa.BasicBlock]bool{}
	for b := range in {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if a.checkedRead(br, in) {
			cut[b] = true
			reads++
			continue
		}
		if a.boundedLoop(b, br, in) {
			cut[b] = true
		}
	}
	// is the growth still on a cycle?
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == at {
				return true
			}
			if !in[s] || cut[s] || seen[s] {
				continue
			}
			seen[s] = true
			if reach(s) {
				return true
			}
		}
		return false
	}
	if cut[at] {
		return false, reads
	}
	return reach(at), reads
}

// boundedLoop: the branch leaves the loop after as many rounds as there is data.
func (a *allocs) boundedLoop(b *ssa.BasicBlock, br *ssa.If, in map[*ssa.BasicBlock]bool) bool {
	if in[b.Succs[0]] && in[b.Succs[1]] {
		return false
	}
	cond, stay := br.Cond, in[b.Succs[0]]
	switch x := cond.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next) // a range over a map or a string
		return ok && stay
	case *ssa.BinOp:
		for _, s := range []struct{ i, n ssa.Value }{{x.X, x.Y}, {x.Y, x.X}} {
			// i counts up to n
			if counts(s.i, in) && a.bounded(s.n, nil, map[ssa.Value]bool{}, 0) && !depends(s.n, in) {
				return true
			}
			// i counts down from where it began
			if ph, ok := s.i.(*ssa.Phi); ok && in[ph.Block()] {
				if k, ok := s.n.(*ssa.Const); ok && k.Value != nil {
					good := true
					for i, e := range ph.Edges {
						if in[ph.Block().Preds[i]] {
							op, ok := e.(*ssa.BinOp)
							good = good && ok && (op.Op == token.SUB || op.Op == token.QUO || op.Op == token.SHR) && op.X == ph
						} else if !a.bounded(e, edgeGuards(ph.Block().Preds[i], ph.Block()), map[ssa.Value]bool{}, 0) {
							good = false
						}
					}
					if good {
						return true
					}
				}
			}
		}
	}
	return false
}

// counts: the value goes up by one, or more, each time around.
func counts(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		break
	}
	if op, ok := v.(*ssa.BinOp); ok && op.Op == token.ADD { // range loops test i+1
		v = op.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || !in[ph.Block()] {
		return false
	}
	for i, e := range ph.Edges {
		if !in[ph.Block().Preds[i]] {
			continue
		}
		op, ok := e.(*ssa.BinOp)
		if !ok || op.Op != token.ADD || op.X != ph {
			return false
		}
		k, ok := op.Y.(*ssa.Const)
		if !ok || k.Value == nil || constant.Sign(k.Value) <= 0 {
			return false
		}
	}
	return true
}

// depends: the value is computed in the loop (other than the length of
// something made outside of it).
func depends(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return false
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			for _, y := range x.Call.Args {
				if depends(y, in) {
					return true
				}
			}
			return false
		}
		return in[x.Block()]
	case *ssa.Convert:
		return depends(x.X, in)
	case *ssa.BinOp:
		return depends(x.X, in) || depends(x.Y, in)
	case ssa.Instruction:
		return in[x.Block()]
	}
	return false
}

func runC18(c *Ctx) error {
	w := c.World
	a := newAllocs(w)
	c.Rule("reserved", "memory that a decoder reserves is bounded by a constant or by data that was read", 6)
	c.Rule("grown", "a loop of a decoder that grows a value reads each time around, or is bounded by data that was read", 3)
	c.Rule("decoders", "the functions that decode are analysed", 150)
	var fns []*ssa.Function
	for f := range a.fns {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	per := map[string]int{}
	loops := 0
	for _, f := range fns {
		c.OK("decoders", short(f))
		for _, r := range a.reserves(f) {
			per[short(f)+r.what]++
			key := fmt.Sprintf("%s %s #%d", short(f), r.what, per[short(f)+r.what])
			ok := true
			for _, s := range r.sizes {
				ok = ok && a.bounded(s, guards(r.in.Block()), map[ssa.Value]bool{}, 0)
			}
			c.Check(ok, "reserved", key, w.relPos(r.in.Pos()), "%s reserves memory for a number of elements that is not bounded by data that was read", short(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				what := a.growth(in)
				if what == "" || a.component(f)[b] == 0 {
					continue
				}
				per[short(f)+"~"+what]++
				key := fmt.Sprintf("%s %s in a loop #%d", short(f), what, per[short(f)+"~"+what])
				bad, n := a.endless(f, b)
				loops += n
				c.Check(!bad, "grown", key, w.relPos(in.Pos()), "%s grows a value in a loop that can go round without reading: its length is not bounded by data that was read", short(f))
			}
		}
	}
	c.Count("decoding_functions", len(fns))
	return nil
}
