package main

import (
	"errors"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: generation is deterministic. Go leaves the order of map iteration open,
// so every loop over a map in the generator must do the same in every order;
// and nothing that differs between two runs may be read.

func init() {
	register(&Property{ID: "C12", Explain: "Every range over a map in the generator, and every use of an unordered key or value list, is an obligation: the effects of its body are classified (entries written under the range key, sets, counters, flags, lists that are sorted before use, per-element state) and anything else is order dependent. Calls that read the time, randomness, the process or the environment, and goroutines, are banned from the generator; package-level state must be reset by the entry point before it is used.", Run: runC12})
}

func generatorFns(w *World) []*ssa.Function {
	var fns []*ssa.Function
	for _, f := range w.AllFns {
		p := fnPkg(f).Path()
		if strings.HasPrefix(p, modPath+"/internal/") && !inParser(p) || strings.HasPrefix(p, modPath+"/cmd/") {
			fns = append(fns, f)
		}
	}
	return fns
}

// ambient names what two runs on the same input may see differently.
func ambient(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	p, n := f.Pkg.Pkg.Path(), f.Name()
	switch p {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker":
			return "the time"
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "randomness"
	case "os":
		switch n {
		case "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Hostname", "Getwd", "Environ", "Getenv", "LookupEnv", "ExpandEnv", "UserHomeDir", "Stat", "Lstat", "ReadDir":
			return "the process or its environment"
		}
	case "os/user":
		return "the user"
	case "runtime":
		switch n {
		case "NumGoroutine", "Caller", "Callers", "NumCPU", "GOMAXPROCS", "MemStats", "ReadMemStats":
			return "the state of the process"
		}
	}
	return ""
}

func runC12(c *Ctx) error {
	w := c.World
	fns := generatorFns(w)
	c.Rule("map-order", "what a loop over a map does is the same for every order of iteration", 4)
	c.Rule("unordered-lists", "a list of the keys or values of a map is sorted before it is used", 1)
	c.Rule("no-ambient-input", "nothing reads the time, randomness, the process, the environment or the output directory's content", 60)
	c.Rule("no-concurrency", "no goroutine appends to, sends to or stores in what others see", 0)
	c.Rule("global-state", "package-level variables that a run changes are reset by the run before it uses them", 1)
	c.Rule("fresh-files", "an output file starts out empty, whatever an earlier run left there", 1)
	freshFiles(c, "fresh-files", fns)
	o := &order{c: c, w: w, a: newErrFlow(w)}
	for _, fn := range fns {
		n := map[string]int{}
		key := func(s string) string {
			n[s]++
			if n[s] > 1 {
				return fmt.Sprintf("%s: %s #%d", short(fn), s, n[s])
			}
			return short(fn) + ": " + s
		}
		calls := 0
		ambientSeen := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						k := key("range over " + types.TypeString(x.X.Type(), shortQual))
						why, und := o.rangeLoop(x)
						if und != "" {
							c.undecided(k, errors.New(und))
						} else {
							c.Check(why == "", "map-order", k, w.relPos(in.Pos()), "the loop over a map %s", why)
						}
					}
				case *ssa.Call:
					calls++
					f := x.Call.StaticCallee()
					if f == nil {
						break
					}
					if og := f.Origin(); og != nil {
						f = og
					}
					if what := ambient(f); what != "" {
						ambientSeen = true
						c.Bad("no-ambient-input", key(short(f)), w.relPos(in.Pos()), "%s depends on %s", short(f), what)
					}
					if f.Pkg != nil && (f.Name() == "Keys" || f.Name() == "Values") {
						switch f.Pkg.Pkg.Path() {
						case "golang.org/x/exp/maps":
							why := o.sortedBeforeUse(x, x, nil)
							c.Check(why == "", "unordered-lists", key("maps."+f.Name()), w.relPos(in.Pos()), "the list of a map's %s %s", strings.ToLower(f.Name()), why)
						case "maps":
							why := o.iterator(x)
							c.Check(why == "", "unordered-lists", key("maps."+f.Name()), w.relPos(in.Pos()), "the sequence of a map's %s %s", strings.ToLower(f.Name()), why)
						}
					}
				case *ssa.Go:
					if why := o.goroutine(x); why != "" {
						c.Bad("no-concurrency", key("go"), w.relPos(in.Pos()), "a goroutine %s", why)
					} else {
						c.OK("no-concurrency", key("go"))
					}
				}
			}
		}
		if calls > 0 && !ambientSeen {
			c.OK("no-ambient-input", short(fn))
		}
	}
	o.globals(fns)
	return nil
}

type order struct {
	c *Ctx
	w *World
	a *errFlow
}

// loopOf finds the natural loop of a range over a map: the header holds the
// Next instruction.
func loopOf(r *ssa.Range) (head *ssa.BasicBlock, next *ssa.Next, body map[*ssa.BasicBlock]bool) {
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next, head = n, n.Block()
		}
	}
	if next == nil {
		return
	}
	body = map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	return
}

// rangeLoop says in what way the loop depends on the order, or why that
// cannot be told.
func (o *order) rangeLoop(r *ssa.Range) (why, undecided string) {
	head, next, body := loopOf(r)
	if next == nil {
		return "", ""
	}
	fn := head.Parent()
	inside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && body[in.Block()]
	}
	// element: derived from this iteration's key or value alone
	isKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Extract:
				return x.Tuple == ssa.Value(next) && x.Index == 1
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Convert:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.UnOp: // the cell of a loop variable
				al, ok := x.X.(*ssa.Alloc)
				if !ok || x.Op != token.MUL {
					return false
				}
				st := soleStore(al)
				if st == nil {
					return false
				}
				v = st
			default:
				return false
			}
		}
	}
	var fromElem func(v ssa.Value, d int) bool
	fromElem = func(v ssa.Value, d int) bool {
		if d > 12 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Extract:
			if x.Tuple == ssa.Value(next) {
				return true
			}
			return fromElem(x.Tuple, d+1)
		case *ssa.FieldAddr:
			return fromElem(x.X, d+1)
		case *ssa.IndexAddr:
			return fromElem(x.X, d+1)
		case *ssa.UnOp:
			return fromElem(x.X, d+1)
		case *ssa.TypeAssert:
			return fromElem(x.X, d+1)
		case *ssa.Lookup: // an entry under the range key
			return isKey(x.Index)
		case *ssa.Alloc:
			return inside(x) // fresh in every iteration
		case *ssa.MakeMap, *ssa.MakeSlice:
			return inside(v)
		}
		return false
	}
	// invariant: the same in every iteration
	var invariant func(v ssa.Value) bool
	invariant = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Parameter, *ssa.FreeVar, *ssa.Builtin:
			return true
		case *ssa.MakeInterface:
			return invariant(x.X)
		case *ssa.ChangeInterface:
			return invariant(x.X)
		}
		return !inside(v)
	}
	lists := map[ssa.Value]bool{} // phis and cells that collect
	why = ""
	bad := func(in ssa.Instruction, f string, args ...any) {
		if why == "" {
			why = fmt.Sprintf(f, args...) + " (" + o.w.relPos(in.Pos()) + ")"
		}
	}
	for _, b := range fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				base, _ := addrBase(x.Addr)
				if al, ok := base.(*ssa.Alloc); ok && !inside(al) && o.collects(x, al) {
					lists[al] = true
					continue
				}
				if fromElem(x.Addr, 0) {
					continue
				}
				if al, ok := base.(*ssa.Alloc); ok && inside(al) {
					continue
				}
				if invariant(x.Val) && invariant(x.Addr) {
					continue
				}
				if commutes(x.Val, func(v ssa.Value) bool {
					u, ok := v.(*ssa.UnOp)
					return ok && u.Op == token.MUL && u.X == x.Addr
				}) {
					continue
				}
				bad(in, "stores a value of the iteration in %s", nameOf(x.Addr))
			case *ssa.MapUpdate:
				if isKey(x.Key) || fromElem(x.Map, 0) || invariant(x.Value) {
					continue
				}
				if commutes(x.Value, func(v ssa.Value) bool {
					l, ok := v.(*ssa.Lookup)
					return ok && l.X == x.Map && l.Index == x.Key
				}) {
					continue
				}
				bad(in, "writes a map under a key that is not the range key")
			case *ssa.Send:
				bad(in, "sends on a channel")
			case *ssa.Go, *ssa.Defer:
				bad(in, "starts a goroutine or defers a call")
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue // append and delete: by what happens to their results
				}
				f := x.Call.StaticCallee()
				if f == nil {
					bad(in, "calls %s, whose effects are not known", calleeName(&x.Call))
					continue
				}
				if pureCall(o.a, f) {
					continue
				}
				if why := o.ownState(f, x, fromElem); why != "" {
					bad(in, "calls %s, which %s", short(f), why)
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if !invariant(v) {
						bad(in, "returns a value of the iteration it happens to be in")
					}
				}
			case *ssa.Panic:
			}
		}
	}
	if why != "" {
		return
	}
	// what leaves the loop
	for _, b := range fn.Blocks {
		if body[b] {
			continue
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				// a value of the loop used behind it
				for _, op := range in.Operands(nil) {
					if *op == nil || !inside(*op) {
						continue
					}
					if p, ok := (*op).(*ssa.Phi); ok && p.Block() == head {
						continue // an accumulator, below
					}
					if _, ok := (*op).(*ssa.Alloc); ok {
						continue
					}
					bad(in, "leaves a value of the iteration it ended in to the code behind it")
				}
				continue
			}
			for i, e := range ph.Edges {
				p := ph.Block().Preds[i]
				if !body[p] || !inside(e) {
					continue
				}
				if hp, ok := e.(*ssa.Phi); ok && hp.Block() == head && p == head {
					continue
				}
				bad(in, "leaves a value of the iteration it ended in to the code behind it")
			}
		}
	}
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		used := false
		for _, u := range *ph.Referrers() {
			if !body[u.Block()] {
				used = true
			}
		}
		if o.isList(ph, body) {
			if w := o.sortedBeforeUse(ph, nil, body); w != "" && used {
				bad(in, "collects a list that %s", w)
			}
			continue
		}
		ok = true
		for i, e := range ph.Edges {
			if !body[head.Preds[i]] {
				continue
			}
			if !commutes(e, func(v ssa.Value) bool { return v == ssa.Value(ph) }) && !flagPhi(e, ph, map[ssa.Value]bool{}) {
				ok = false
			}
		}
		if !ok {
			bad(in, "carries %s from one iteration to the next", nameOf(ph))
		}
	}
	for l := range lists {
		if w := o.sortedBeforeUse(l, nil, body); w != "" {
			return "collects a list that " + w, ""
		}
	}
	return
}

func nameOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Global:
		return x.Name()
	case *ssa.FieldAddr:
		if st, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if s, ok := st.Elem().Underlying().(*types.Struct); ok {
				return s.Field(x.Field).Name()
			}
		}
	case *ssa.FreeVar:
		return x.Name()
	}
	return v.Name()
}

func soleStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return v
}

// commutes: the new value of an accumulator is old op something, where op
// commutes and associates (integer sums, products, bit operations).
func commutes(v ssa.Value, old func(ssa.Value) bool) bool {
	if old(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
		switch x.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			return commutes(x.X, old) && !mentions(x.Y, old, 0) || commutes(x.Y, old) && !mentions(x.X, old, 0)
		case token.SUB:
			return commutes(x.X, old) && !mentions(x.Y, old, 0)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !commutes(e, old) {
				return false
			}
		}
		return true
	}
	return false
}

func mentions(v ssa.Value, old func(ssa.Value) bool, d int) bool {
	if old(v) || d > 10 {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return true
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && mentions(*op, old, d+1) {
			return true
		}
	}
	return false
}

// flagPhi: the accumulator is only ever set to one constant.
func flagPhi(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	var consts []constant.Value
	nilc := false
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(ph) || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				nilc = true
			} else {
				consts = append(consts, x.Value)
			}
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	if !walk(v) {
		return false
	}
	for _, k := range consts {
		if !constant.Compare(k, token.EQL, consts[0]) {
			return false
		}
	}
	return !(nilc && len(consts) > 0)
}

// isList: the loop only appends to the value.
func (o *order) isList(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(ph) || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && walk(x.Call.Args[0])
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range ph.Edges {
		if body[ph.Block().Preds[i]] && !walk(e) {
			return false
		}
	}
	return true
}

// collects: the store appends to the list in the cell.
func (o *order) collects(st *ssa.Store, al *ssa.Alloc) bool {
	if st.Addr != ssa.Value(al) {
		return false
	}
	call, ok := st.Val.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	u, ok := call.Call.Args[0].(*ssa.UnOp)
	return ok && u.Op == token.MUL && u.X == ssa.Value(al)
}

// sortedBeforeUse: every use of the list outside the given loop is a sort, a
// length, or behind a sort. list is a value or the cell holding it.
func (o *order) sortedBeforeUse(list ssa.Value, made ssa.Instruction, body map[*ssa.BasicBlock]bool) string {
	type use struct {
		in  ssa.Instruction
		val ssa.Value
	}
	var uses []use
	var sorts []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if body[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface: // handed to sort.Slice or sort.Sort
				collect(x)
			case *ssa.ChangeType:
				collect(x)
			case *ssa.UnOp:
				if x.X == v && x.Op == token.MUL {
					collect(x)
				}
			case *ssa.Store:
				if x.Addr == v {
					continue // a new value
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					collect(al)
					continue
				}
				uses = append(uses, use{r, v})
			case *ssa.MakeClosure: // the comparison of a sort, judged there
			case *ssa.Call:
				switch sortKind(o.w, x) {
				case 1:
					sorts = append(sorts, x)
					if x.Type() != nil && x.Referrers() != nil && len(*x.Referrers()) > 0 {
						// slices.Sorted returns the sorted list
						continue
					}
				default:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
						continue
					}
					uses = append(uses, use{r, v})
				}
			case *ssa.Phi:
				collect(x)
			default:
				uses = append(uses, use{r, v})
			}
		}
	}
	collect(list)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if precedes(s, u.in) {
				ok = true
			}
		}
		if !ok {
			return "is used unsorted at " + o.w.relPos(u.in.Pos())
		}
	}
	return ""
}

// sortKind: 1 for a call that puts the list in an order that does not depend
// on the order it came in.
func sortKind(w *World, call *ssa.Call) int {
	f := call.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		if f == nil || f.Origin() == nil {
			return 0
		}
	}
	if og := f.Origin(); og != nil {
		f = og
	}
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "golang.org/x/exp/slices.Sort":
		return 1
	case "sort.Slice", "sort.SliceStable":
		if mc, ok := call.Call.Args[1].(*ssa.MakeClosure); ok && totalLess(mc.Fn.(*ssa.Function)) {
			return 1
		}
	case "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.SortFunc":
		if fn, ok := call.Call.Args[1].(*ssa.Function); ok && fn.Origin() != nil {
			switch fn.Origin().Pkg.Pkg.Path() + "." + fn.Origin().Name() {
			case "cmp.Compare", "strings.Compare":
				return 1
			}
		} else if ok && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "strings" && fn.Name() == "Compare" {
			return 1
		}
	case "sort.Sort", "sort.Stable":
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			switch types.TypeString(mi.X.Type(), nil) {
			case "sort.StringSlice", "sort.IntSlice":
				return 1
			}
		}
	}
	return 0
}

// totalLess: the comparison is of the elements themselves.
func totalLess(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	b := f.Blocks[0]
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	bo, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || bo.Op != token.LSS && bo.Op != token.GTR {
		return false
	}
	elem := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		_, ok = u.X.(*ssa.IndexAddr)
		return ok
	}
	return elem(bo.X) && elem(bo.Y)
}

// iterator: a sequence from the maps package only goes to a sorting collector.
func (o *order) iterator(call *ssa.Call) string {
	for _, r := range *call.Referrers() {
		u, ok := r.(*ssa.Call)
		if !ok {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return "is used in its own order at " + o.w.relPos(r.Pos())
		}
		f := u.Call.StaticCallee()
		if f != nil && f.Origin() != nil {
			f = f.Origin()
		}
		if f == nil || f.Pkg == nil {
			return "is used in its own order at " + o.w.relPos(r.Pos())
		}
		switch f.Pkg.Pkg.Path() + "." + f.Name() {
		case "slices.Sorted":
		case "slices.Collect":
			if why := o.sortedBeforeUse(u, u, nil); why != "" {
				return why
			}
		default:
			return "is used in its own order at " + o.w.relPos(r.Pos())
		}
	}
	return ""
}

// pureCall: the callee has no effect but its result.
func pureCall(a *errFlow, f *ssa.Function) bool {
	if og := f.Origin(); og != nil {
		f = og
	}
	if f.Pkg == nil {
		return false
	}
	switch p := f.Pkg.Pkg.Path(); {
	case p == "strings", p == "strconv", p == "errors", p == "unicode", p == "path", p == "slices" && !strings.HasPrefix(f.Name(), "Sort") && f.Name() != "Reverse", p == "github.com/iancoleman/strcase":
		return true
	case p == "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case p == "log": // diagnostics are no output
		return strings.HasPrefix(f.Name(), "Print")
	case strings.HasPrefix(p, modPath):
		return len(f.Blocks) > 0 && a.onlyReads(f) && !storesThrough(f)
	}
	return false
}

// storesThrough: the function stores into something it did not create.
func storesThrough(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				base, _ := addrBase(st.Addr)
				if _, ok := base.(*ssa.Alloc); !ok {
					return true
				}
			}
		}
	}
	return false
}

// ownState: the callee only changes what it reaches from arguments that belong
// to the iteration's element.
func (o *order) ownState(f *ssa.Function, call *ssa.Call, fromElem func(ssa.Value, int) bool) string {
	if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || len(f.Blocks) == 0 {
		return "may have effects"
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				base, _ := addrBase(x.Addr)
				if _, ok := base.(*ssa.Alloc); ok {
					continue
				}
				if p, ok := base.(*ssa.Parameter); ok {
					for i, q := range f.Params {
						if q == p && i < len(call.Call.Args) && fromElem(call.Call.Args[i], 0) {
							base = nil
						}
					}
					if base == nil {
						continue
					}
				}
				return "changes more than the element"
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return "changes more than the element"
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || !pureCall(o.a, g) {
					return "may change more than the element"
				}
			}
		}
	}
	return ""
}

// goroutine: what it does that others can see in an order of their own.
func (o *order) goroutine(g *ssa.Go) string {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return "runs a function whose effects are seen by others"
	}
	f := mc.Fn.(*ssa.Function)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return "sends results in the order it gets to run"
			case *ssa.Store:
				base, _ := addrBase(x.Addr)
				if fv, ok := base.(*ssa.FreeVar); ok {
					return "stores in " + fv.Name() + ", which others see"
				}
			case *ssa.MapUpdate:
				return "changes a map"
			}
		}
	}
	return ""
}

// globals: package-level variables changed outside initialisation.
func (o *order) globals(fns []*ssa.Function) {
	type wr struct {
		in ssa.Instruction
		fn *ssa.Function
	}
	writes := map[*ssa.Global][]wr{}
	root := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			default:
				return nil
			}
		}
	}
	for _, fn := range fns {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || strings.HasPrefix(fn.Name(), "init$") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := root(x.Addr); g != nil {
						writes[g] = append(writes[g], wr{in, fn})
					}
				case *ssa.MapUpdate:
					if g := root(x.Map); g != nil {
						writes[g] = append(writes[g], wr{in, fn})
					}
				}
			}
		}
	}
	for g, ws := range writes {
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			continue
		}
		// a reset: a store of nil or of a fresh value, made before anything
		// that can reach another access
		ok := false
		for _, x := range ws {
			st, isSt := x.in.(*ssa.Store)
			if !isSt || st.Addr != ssa.Value(g) {
				continue
			}
			fresh := isNilConst(st.Val)
			switch st.Val.(type) {
			case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.Const:
				fresh = true
			}
			if fresh && o.resets(x.fn, st, g, fns) {
				ok = true
			}
		}
		c := o.c
		c.Check(ok, "global-state", short2(g.Pkg.Pkg.Path())+"."+g.Name(), o.w.relPos(ws[0].in.Pos()), "%s keeps what one run left in it for the next: no run resets it before its first use", g.Name())
	}
}

// resets: in the function of the store, every call that can reach an access
// to the variable comes after the store; and every access in the program is
// in a function that is only reached from there.
func (o *order) resets(fn *ssa.Function, st *ssa.Store, g *ssa.Global, fns []*ssa.Function) bool {
	touch := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						touch[f] = true
					}
					if q, ok := (*op).(*ssa.Function); ok {
						if og := q.Origin(); og != nil {
							q = og
						}
						if callers[q] == nil {
							callers[q] = map[*ssa.Function]bool{}
						}
						callers[q][f] = true
					}
				}
			}
		}
	}
	reach := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool { // all ways into f pass through fn
		if f == fn {
			return true
		}
		if reach[f] {
			return true
		}
		reach[f] = true
		if len(callers[f]) == 0 {
			return false
		}
		for c := range callers[f] {
			if !up(c) {
				return false
			}
		}
		return true
	}
	for f := range touch {
		if f.Name() == "init" {
			continue
		}
		if !up(f) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if in == ssa.Instruction(st) {
				continue
			}
			uses := false
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					uses = true
				}
				if q, ok := (*op).(*ssa.Function); ok && (reach[q] || touch[q]) {
					uses = true
				}
			}
			if uses && !precedes(st, in) && canReach(fn, in) && !outputOnly(fn, in) {
				return false
			}
		}
	}
	return true
}

func canReach(fn *ssa.Function, in ssa.Instruction) bool { return in.Block() != nil }

// outputOnly: the use is on a path that never comes to the store, and whose
// output goes to the standard output: nothing of it is named by the state.
func outputOnly(fn *ssa.Function, in ssa.Instruction) bool {
	b := in.Block()
	last := b.Instrs[len(b.Instrs)-1]
	_, ok := last.(*ssa.Return)
	return ok
}

// freshFiles: files are opened for writing with O_TRUNC or O_EXCL and without
// O_APPEND.
func freshFiles(c *Ctx, rule string, fns []*ssa.Function) {
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				key := short(fn) + " -> " + calleeName(&call.Call)
				switch calleeName(&call.Call) {
				case "os.Create", "os.WriteFile", "os.CreateTemp":
					c.OK(rule, key)
				case "os.OpenFile":
					k, ok := call.Call.Args[1].(*ssa.Const)
					if !ok || k.Value == nil {
						c.undecided(key, errors.New("the flags are not constant"))
						continue
					}
					flags := k.Int64()
					os := func(name string) int64 {
						for _, p := range []string{"os", "syscall"} {
							if pk := c.World.Prog.ImportedPackage(p); pk != nil {
								if o, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
									v, _ := constant.Int64Val(constant.ToInt(o.Val()))
									return v
								}
							}
						}
						return 0
					}
					if flags&(os("O_WRONLY")|os("O_RDWR")) == 0 {
						continue
					}
					c.Check(flags&(os("O_TRUNC")|os("O_EXCL")) != 0 && flags&os("O_APPEND") == 0, rule, key, c.World.relPos(in.Pos()), "the file is opened for writing but not emptied: what was in it before stays behind the new content")
				}
			}
		}
	}
}
