package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error-flow analysis. For every call that yields an error it asks: assuming
// the error is non-nil, can control reach a return of the enclosing function
// that reports success? The walk is a forward dataflow over the control-flow
// graph; its state is the set of SSA values known to carry the error.

type errFlow struct {
	w      *World
	rekey  func(fn *ssa.Function) string // names the construct a violation is filed under
	wrap   map[*ssa.Function]int         // 0 unknown, 1 in progress, 2 propagates its error parameter, 3 does not
	anyErr map[*ssa.Function]bool
	failed []*ssa.Function       // the callees assumed to have failed, one of them
	gen    bool                  // the rules for the generator: errors as visitor results, lookups with fallbacks
	pure   map[*ssa.Function]int // pure lookups: 1 in progress, 2 yes, 3 no
}

func newErrFlow(w *World) *errFlow {
	return &errFlow{w: w, wrap: map[*ssa.Function]int{}, pure: map[*ssa.Function]int{}}
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// errResults returns the indexes of the error results of a signature.
func errResults(sig *types.Signature) []int {
	var out []int
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// calleeName names the statically resolved callee or the interface method.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), shortQual) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return short(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "func value " + types.TypeString(c.Value.Type(), shortQual)
}

func shortQual(p *types.Package) string {
	if p.Path() == modPath {
		return "zserio"
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath+"/internal/"), modPath+"/")
}

// neverFails lists callees documented to always return a nil error.
func neverFails(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil {
		if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" {
			switch f.Name() {
			case "Print", "Printf", "Println":
				return true // diagnostics on standard output
			case "Fprint", "Fprintf", "Fprintln":
				// never fails when the destination is an in-memory builder
				if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
					switch types.TypeString(mi.X.Type(), nil) {
					case "*strings.Builder", "*bytes.Buffer":
						return true
					}
				}
				if u, ok := c.Args[0].(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stderr" {
						return true
					}
				}
				if ci, ok := c.Args[0].(*ssa.MakeInterface); ok {
					if u, ok := ci.X.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stderr" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	switch types.TypeString(f.Signature.Recv().Type(), nil) {
	case "*strings.Builder", "*bytes.Buffer", "*hash/maphash.Hash":
		return true
	}
	return false
}

// terminates reports callees that never return.
func terminates(c *ssa.CallCommon) bool {
	if f := c.StaticCallee(); f != nil && f.Pkg != nil {
		n := f.Pkg.Pkg.Path() + "." + f.Name()
		switch n {
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
			return true
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// neverReassigned reports package-level error variables written only by their initializer.
func neverReassigned(g *ssa.Global) bool {
	n := 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		_ = f
	}
	// Globals keep no referrers; scan the package's functions.
	var scan func(f *ssa.Function)
	ok := true
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, isS := in.(*ssa.Store); isS && s.Addr == g {
					if f.Name() != "init" || !nonNilErr(s.Val, nil) {
						ok = false
					}
					n++
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, m := range g.Pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			scan(m)
		}
	}
	return ok && n == 1
}

// nonNilErr reports that a value is a non-nil error whatever the path.
func nonNilErr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return true // cycle: decided by the other operands
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeInterface:
		switch x := v.X.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Const:
			return x.Value != nil
		default:
			_, ptr := v.X.Type().Underlying().(*types.Pointer)
			return !ptr
		}
	case *ssa.ChangeInterface:
		return nonNilErr(v.X, seen)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() + "." + f.Name() {
			case "fmt.Errorf", "errors.New":
				return true
			}
			// a repository helper all of whose returns are non-nil errors
			if len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 && isErrorType(f.Signature.Results().At(0).Type()) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						if !nonNilErr(r.Results[0], seen) {
							return false
						}
					}
				}
				return true
			}
		}
		return false
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			if g.Pkg == nil {
				return false
			}
			if len(g.Pkg.Members) > 0 && g.Pkg.Func("init") != nil && len(g.Pkg.Func("init").Blocks) > 0 {
				return neverReassigned(g)
			}
			// sentinel of a dependency (io.EOF and the like)
			return isErrorType(g.Type().(*types.Pointer).Elem())
		}
		return false
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !nonNilErr(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

type efState struct {
	vals  map[ssa.Value]bool // values (or addresses of cells) that carry the error
	bools map[ssa.Value]bool // branch conditions decided by the assumption
	later map[ssa.Value]bool // lookups made after the failed one
}

func (s *efState) clone() *efState {
	n := &efState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	for k := range s.later {
		n.later[k] = true
	}
	for k := range s.vals {
		n.vals[k] = true
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	return n
}

func (s *efState) key() string {
	var ks []string
	for k := range s.vals {
		ks = append(ks, fmt.Sprintf("%s@%p", k.Name(), k))
	}
	for k, v := range s.bools {
		ks = append(ks, fmt.Sprintf("%s@%p=%v", k.Name(), k, v))
	}
	for k := range s.later {
		ks = append(ks, fmt.Sprintf("later %s@%p", k.Name(), k))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// swallow describes how the error can be lost.
type swallow struct {
	msg string
	pos token.Pos
}

// walk explores from just after instruction idx of block b with the given
// carriers, and returns the first way in which the function can return success.
func (a *errFlow) walk(fn *ssa.Function, b *ssa.BasicBlock, idx int, init *efState) *swallow {
	errIdx := errResults(fn.Signature)
	type item struct {
		b   *ssa.BasicBlock
		i   int
		st  *efState
		via *ssa.BasicBlock
	}
	seen := map[string]bool{}
	work := []item{{b, idx, init, nil}}
	var found *swallow
	for len(work) > 0 && found == nil {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st.clone()
		if it.via != nil {
			// phis first, simultaneously
			pi := -1
			for k, p := range it.b.Preds {
				if p == it.via {
					pi = k
				}
			}
			old := st.clone()
			for _, in := range it.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e := ph.Edges[pi]
				delete(st.vals, ph)
				delete(st.bools, ph)
				if old.vals[e] {
					st.vals[ph] = true
				}
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					st.bools[ph] = constant.BoolVal(c.Value)
				} else if v, ok := old.bools[e]; ok {
					st.bools[ph] = v
				}
			}
			k := fmt.Sprintf("%d|%s", it.b.Index, st.key())
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		stop := false
		for i := it.i; i < len(it.b.Instrs) && !stop; i++ {
			in := it.b.Instrs[i]
			if _, ok := in.(*ssa.Phi); ok && it.via != nil {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				_, isAlloc := v.(*ssa.Alloc)
				ex, isEx := v.(*ssa.Extract)
				if isEx {
					if _, ok := ex.Tuple.(*ssa.TypeAssert); ok {
						continue // set by the assertion
					}
				}
				if !isAlloc {
					delete(st.vals, v)
					delete(st.bools, v)
				}
				if ta, ok := v.(*ssa.TypeAssert); ok {
					for _, r := range *ta.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok {
							delete(st.vals, ex)
							delete(st.bools, ex)
						}
					}
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				base, whole := addrBase(in.Addr)
				if st.vals[in.Val] {
					switch x := base.(type) {
					case *ssa.FreeVar:
						if p, ok := x.Type().(*types.Pointer); ok && isErrorType(p.Elem()) {
							stop = true // recorded in the enclosing function's error variable
							continue
						}
						st.vals[base] = true
					default:
						st.vals[base] = true
					}
				} else if whole && st.vals[base] {
					if _, ok := base.(*ssa.Alloc); ok {
						delete(st.vals, base)
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					base, _ := addrBase(in.X)
					if st.vals[base] {
						st.vals[in] = true
					}
				} else if in.Op == token.NOT {
					if v, ok := st.bools[in.X]; ok {
						st.bools[in] = !v
					}
				}
			case *ssa.MakeInterface:
				if st.vals[in.X] {
					st.vals[in] = true
				}
			case *ssa.ChangeInterface:
				if st.vals[in.X] {
					st.vals[in] = true
				}
			case *ssa.ChangeType:
				if st.vals[in.X] {
					st.vals[in] = true
				}
			case *ssa.Slice:
				if base, _ := addrBase(in.X); st.vals[base] || st.vals[in.X] {
					st.vals[in] = true
				}
			case *ssa.TypeAssert:
				if st.vals[in.X] && a.gen {
					switch is := mayBeError(in.AssertedType); {
					case !in.CommaOk && is == 0:
						stop = true // panics
					case !in.CommaOk:
						st.vals[in] = true
					default:
						for _, r := range *in.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == 1 {
								if is == 0 {
									st.bools[ex] = false
								} else if is == 2 {
									st.bools[ex] = true
								}
							}
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 && is != 0 {
								st.vals[ex] = true
							}
						}
					}
				}
			case *ssa.Extract:
				if st.vals[in.Tuple] {
					st.vals[in] = true
				}
			case *ssa.BinOp:
				if in.Op == token.EQL || in.Op == token.NEQ {
					var other ssa.Value
					if st.vals[in.X] {
						other = in.Y
					} else if st.vals[in.Y] {
						other = in.X
					}
					if other != nil && isNilConst(other) {
						st.bools[in] = in.Op == token.NEQ
					}
				}
				if c, ok := lenOfCarrier(in, st); ok {
					st.bools[in] = c
				}
			case *ssa.Call:
				if terminates(&in.Call) {
					stop = true
					if exitsZero(&in.Call) {
						found = &swallow{"the process exits with status 0 although the error was non-nil", in.Pos()}
					}
					continue
				}
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						for _, x := range in.Call.Args {
							if st.vals[x] {
								st.vals[in] = true
							}
						}
					}
					continue
				}
				if a.gen {
					if a.pureLookups(calleesOf(&in.Call)) {
						st.later[in] = true
					}
				}
				carried := -1
				for k, x := range in.Call.Args {
					if st.vals[x] {
						carried = k
					}
				}
				if carried >= 0 && a.wraps(in, carried) {
					st.vals[in] = true
				}
			case *ssa.Panic:
				stop = true
			case *ssa.Return:
				stop = true
				if len(errIdx) == 0 && a.gen && a.reportsOtherwise(in, st) {
					continue
				}
				if len(errIdx) == 0 {
					found = &swallow{"the function returns normally although the error was non-nil, and it has no error result to report it", in.Pos()}
					continue
				}
				ok := false
				var bad ssa.Value
				for _, k := range errIdx {
					r := in.Results[k]
					if st.vals[r] || nonNilErr(r, nil) {
						ok = true
					} else {
						bad = r
					}
				}
				if !ok && a.gen && a.fallback(in, st) {
					continue
				}
				if !ok {
					what := "an unrelated error value that may be nil"
					if isNilConst(bad) {
						what = "nil"
					}
					found = &swallow{"a path on which the error is non-nil returns " + what, in.Pos()}
				}
			case *ssa.If:
				stop = true
				t, f := it.b.Succs[0], it.b.Succs[1]
				if v, ok := st.bools[in.Cond]; ok {
					if v {
						work = append(work, item{t, 0, st, it.b})
					} else {
						work = append(work, item{f, 0, st, it.b})
					}
					continue
				}
				// a test of the enclosing function's error variable inside a
				// deferred closure: if it is already set, an error is reported
				if bo, ok := in.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (isNilConst(bo.X) || isNilConst(bo.Y)) {
					x := bo.X
					if isNilConst(x) {
						x = bo.Y
					}
					if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fv, ok := u.X.(*ssa.FreeVar); ok {
							if p, ok := fv.Type().(*types.Pointer); ok && isErrorType(p.Elem()) {
								if bo.Op == token.EQL {
									work = append(work, item{t, 0, st, it.b})
								} else {
									work = append(work, item{f, 0, st, it.b})
								}
								continue
							}
						}
					}
				}
				ts, fs := st.clone(), st
				// on the edge on which another error is known to be set,
				// returning that one is a failure as well
				if x, eq := nilTest(in.Cond); x != nil && isErrorType(x.Type()) {
					if eq {
						fs.vals[x] = true
					} else {
						ts.vals[x] = true
					}
				}
				work = append(work, item{f, 0, fs, it.b}, item{t, 0, ts, it.b})
			case *ssa.Jump:
				stop = true
				work = append(work, item{it.b.Succs[0], 0, st, it.b})
			}
		}
	}
	return found
}

// addrBase strips field and element selection; whole means the cell itself.
func addrBase(v ssa.Value) (ssa.Value, bool) {
	whole := true
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v, whole = x.X, false
		case *ssa.FieldAddr:
			v, whole = x.X, false
		case *ssa.Slice:
			v, whole = x.X, false
		default:
			return v, whole
		}
	}
}

func lenOfCarrier(in *ssa.BinOp, st *efState) (bool, bool) {
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && st.vals[c.Call.Args[0]]
	}
	zero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
	}
	switch {
	case isLen(in.X) && zero(in.Y):
		switch in.Op {
		case token.GTR, token.NEQ:
			return true, true
		case token.EQL, token.LEQ:
			return false, true
		}
	case isLen(in.Y) && zero(in.X):
		switch in.Op {
		case token.LSS, token.NEQ:
			return true, true
		case token.EQL, token.GEQ:
			return false, true
		}
	}
	return false, false
}

// wraps: the call turns a non-nil error argument into a non-nil error result.
func (a *errFlow) wraps(call *ssa.Call, arg int) bool {
	if len(errResults(call.Call.Signature())) != 1 || call.Call.Signature().Results().Len() != 1 {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	if f.Pkg != nil {
		switch f.Pkg.Pkg.Path() + "." + f.Name() {
		case "fmt.Errorf", "errors.Join":
			return true
		}
	}
	if len(f.Blocks) == 0 || arg >= len(f.Params) {
		return false
	}
	switch a.wrap[f] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	a.wrap[f] = 1
	st := &efState{map[ssa.Value]bool{f.Params[arg]: true}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	if a.walk(f, f.Blocks[0], 0, st) == nil {
		a.wrap[f] = 2
		return true
	}
	a.wrap[f] = 3
	return false
}

// sites runs the analysis over every error-producing call of the functions.
func (a *errFlow) sites(c *Ctx, rule string, fns []*ssa.Function, exempt func(fn *ssa.Function, callee string) string) {
	for _, fn := range fns {
		ord := map[string]int{}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				var com *ssa.CallCommon
				var val ssa.Value
				deferred := ""
				switch x := in.(type) {
				case *ssa.Call:
					com, val = &x.Call, x
				case *ssa.Defer:
					com, deferred = &x.Call, "deferred"
				case *ssa.Go:
					com, deferred = &x.Call, "go"
				default:
					continue
				}
				idxs := errResults(com.Signature())
				if res := com.Signature().Results(); len(idxs) == 0 && a.gen && res.Len() == 1 && isAny(res.At(0).Type()) && strings.HasPrefix(calleePkg(com), modPath) {
					if !a.mayBeErr(com) {
						continue
					}
					idxs = []int{0} // a visitor's result may be an error
				}
				if a.gen && flagRegistered(com) {
					continue
				}
				if len(idxs) == 0 {
					continue
				}
				a.failed = calleesOf(com)
				name := calleeName(com)
				// error constructors produce errors, they do not report one
				if f := com.StaticCallee(); f != nil && f.Pkg != nil {
					switch f.Pkg.Pkg.Path() + "." + f.Name() {
					case "fmt.Errorf", "errors.New", "errors.Join":
						continue
					}
				}
				ord[name]++
				key := short(fn) + " -> " + name
				if ord[name] > 1 {
					key = fmt.Sprintf("%s #%d", key, ord[name])
				}
				pos := c.World.relPos(in.Pos())
				if neverFails(com) {
					continue
				}
				if exempt != nil {
					if why := exempt(fn, name); why != "" {
						c.Notes = append(c.Notes, "exempt: "+key+": "+why)
						continue
					}
				}
				if a.gen && a.alreadyFailing(b) {
					continue
				}
				if deferred != "" {
					c.Bad(rule, key, pos, "the error of a %s call is discarded", deferred)
					continue
				}
				bad := ""
				for _, ei := range idxs {
					var ev ssa.Value
					if com.Signature().Results().Len() == 1 {
						ev = val
					} else {
						for _, r := range *val.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == ei {
								ev = ex
							}
						}
					}
					if ev == nil || !hasRealUse(ev) {
						bad = "the error result is discarded"
						// a tuple returned whole: return f()
						if ev == nil && returnsTuple(val) {
							bad = ""
						}
						break
					}
					st := &efState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
					st.vals[val] = false
					delete(st.vals, val)
					if com.Signature().Results().Len() == 1 {
						st.vals[ev] = true
						if s := a.walk(fn, b, i+1, st); s != nil {
							bad = s.msg + " (" + c.World.relPos(s.pos) + ")"
						}
					} else {
						ex := ev.(*ssa.Extract)
						j := -1
						for k, q := range ex.Block().Instrs {
							if q == ssa.Instruction(ex) {
								j = k
							}
						}
						st.vals[ev] = true
						if s := a.walk(fn, ex.Block(), j+1, st); s != nil {
							bad = s.msg + " (" + c.World.relPos(s.pos) + ")"
						}
					}
				}
				if bad != "" && a.rekey != nil {
					if k := a.rekey(fn); k != "" {
						key = k
					}
				}
				c.Check(bad == "", rule, key, pos, "%s", bad)
			}
		}
	}
}

func hasRealUse(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

func returnsTuple(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// mayBeError: 0 a value of the type is never an error, 2 it always is.
func mayBeError(t types.Type) int {
	if types.Implements(t, errorType.Underlying().(*types.Interface)) {
		if types.IsInterface(t) {
			return 2
		}
		return 1
	}
	if types.IsInterface(t) {
		return 1
	}
	return 0
}

// reportsOtherwise: a function without an error result still tells its caller,
// by a result of interface type that is the error, or by a truth value that is
// decided by it.
func (a *errFlow) reportsOtherwise(r *ssa.Return, st *efState) bool {
	for _, v := range r.Results {
		if types.IsInterface(v.Type()) && (st.vals[v] && !isList(v) || nonNilErrAny(v)) {
			return true
		}
		if _, ok := st.bools[v]; ok && len(r.Results) == 1 {
			return true
		}
	}
	return false
}

// nonNilErrAny: an interface value that is a non-nil error.
func nonNilErrAny(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return mayBeError(x.X.Type()) != 0 && nonNilErr(v, nil)
	case *ssa.ChangeInterface:
		return isErrorType(x.X.Type()) && nonNilErr(x.X, nil)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !nonNilErrAny(e) {
				return false
			}
		}
		return true
	}
	return false
}

// fallback: the failed call was a lookup, and what is returned as the success
// was found by another lookup made after it.
func (a *errFlow) fallback(r *ssa.Return, st *efState) bool {
	if !a.pureLookups(a.failed) || len(st.later) == 0 {
		return false
	}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if st.later[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Extract:
			return from(x.Tuple)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if isNilConst(e) || !from(e) && !seen[e] {
					return false
				}
			}
			return true
		case *ssa.MakeInterface:
			return from(x.X)
		case *ssa.ChangeInterface:
			return from(x.X)
		case *ssa.UnOp:
			return from(x.X)
		case *ssa.FieldAddr:
			return from(x.X)
		}
		return false
	}
	return from(r.Results[0])
}

func (a *errFlow) pureLookups(fs []*ssa.Function) bool {
	for _, f := range fs {
		if !a.pureLookup(f) {
			return false
		}
	}
	return len(fs) > 0
}

// calleesOf: the function that is called, or those in the list written out in
// this function that the called value is an element of. None when the list may
// hold another.
func calleesOf(com *ssa.CallCommon) []*ssa.Function {
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if com.IsInvoke() {
		return nil
	}
	u, ok := com.Value.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	root := ia.X
	if sl, ok := root.(*ssa.Slice); ok {
		root = sl.X
	}
	al, ok := root.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Slice:
				if !uses(r) {
					return false
				}
			case *ssa.IndexAddr:
				for _, q := range *r.Referrers() {
					switch q := q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						f := funcOf(q.Val)
						if q.Addr != r || f == nil {
							return false
						}
						out = append(out, f)
					default:
						return false
					}
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	if !uses(al) {
		return nil
	}
	return out
}

// funcOf: the function a value is, a method value standing for its method.
func funcOf(v ssa.Value) *ssa.Function {
	if ct, ok := v.(*ssa.ChangeType); ok {
		v = ct.X
	}
	if mc, ok := v.(*ssa.MakeClosure); ok {
		v = mc.Fn
	}
	f, ok := v.(*ssa.Function)
	if !ok {
		return nil
	}
	if o, ok := f.Object().(*types.Func); ok && f.Synthetic != "" && f.Pkg == nil {
		return f.Prog.FuncValue(o)
	}
	return f
}

// pureLookup: the function of the repository only reads, but for what it
// creates or looks up itself, and ends in (value, error).
func (a *errFlow) pureLookup(f *ssa.Function) bool {
	if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 2 || len(errResults(f.Signature)) != 1 {
		return false
	}
	return a.onlyReads(f)
}

func (a *errFlow) onlyReads(f *ssa.Function) bool {
	switch a.pure[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	a.pure[f] = 1
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				base, _ := addrBase(x.Addr)
				switch base := base.(type) {
				case *ssa.Alloc, *ssa.Extract, *ssa.Call: // its own, or what a lookup returned
					_ = base
				case *ssa.Phi, *ssa.UnOp:
				default:
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				ok = false
			case *ssa.Call:
				if _, isB := x.Call.Value.(*ssa.Builtin); isB {
					continue
				}
				cs := calleesOf(&x.Call)
				if len(cs) == 0 {
					ok = false
				}
				for _, c := range cs {
					if c.Pkg == nil {
						ok = false
						continue
					}
					switch p := c.Pkg.Pkg.Path(); {
					case p == "errors", p == "fmt" && (c.Name() == "Errorf" || c.Name() == "Sprintf"), p == "strings", p == "slices", p == "maps":
					case strings.HasPrefix(p, modPath) && len(c.Blocks) > 0 && a.onlyReads(c):
					default:
						ok = false
					}
				}
			}
		}
	}
	if a.pure[f] = 3; ok {
		a.pure[f] = 2
	}
	return ok
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func calleePkg(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		if p := c.Method.Pkg(); p != nil {
			return p.Path()
		}
		return ""
	}
	if f := c.StaticCallee(); f != nil && f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	return ""
}

// nilTest: the value a condition compares with nil, and whether it is == .
func nilTest(cond ssa.Value) (ssa.Value, bool) {
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return nil, false
	}
	x := bo.X
	if isNilConst(x) {
		x = bo.Y
	} else if !isNilConst(bo.Y) {
		return nil, false
	}
	return x, bo.Op == token.EQL
}

// alreadyFailing: the block only runs when the error variable of the function
// (or, in a closure, of the enclosing one) is set, and an error is reported
// whatever happens in the block.
func (a *errFlow) alreadyFailing(b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, eq := nilTest(iff.Cond)
		if x == nil || !isErrorType(x.Type()) {
			continue
		}
		fail := d.Succs[0]
		if eq {
			fail = d.Succs[1]
		}
		if len(fail.Preds) != 1 || fail != b && !fail.Dominates(b) {
			continue
		}
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fv, ok := u.X.(*ssa.FreeVar); ok {
				if p, ok := fv.Type().(*types.Pointer); ok && isErrorType(p.Elem()) {
					return true
				}
			}
		}
		if len(errResults(b.Parent().Signature)) > 0 {
			st := &efState{map[ssa.Value]bool{x: true}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
			if a.walk(b.Parent(), fail, 0, st) == nil {
				return true
			}
		}
	}
	return false
}

func isList(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	_, ok = m.X.Type().Underlying().(*types.Slice)
	return ok
}

// flagRegistered: the call names, by a constant, a command line flag that the
// same function defines; it can only fail for one that does not exist.
func flagRegistered(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Name() != "MarkFlagRequired" && f.Name() != "MarkHidden" {
		return false
	}
	var name constant.Value
	for _, x := range c.Args {
		if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			name = k.Value
		}
	}
	in, ok := c.Value.(*ssa.Function)
	if name == nil || !ok || in == nil {
		return false
	}
	for _, site := range flagSites {
		if constant.Compare(site, token.EQL, name) {
			return true
		}
	}
	return false
}

// flagSites holds the constant names of the flags the generator defines.
var flagSites []constant.Value

func collectFlags(fns []*ssa.Function) {
	flagSites = nil
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || f.Signature.Recv() == nil || !strings.HasSuffix(types.TypeString(f.Signature.Recv().Type(), nil), "pflag.FlagSet") || f.Name() == "MarkHidden" || len(call.Call.Args) < 3 {
					continue
				}
				for _, x := range call.Call.Args[1:3] {
					if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						flagSites = append(flagSites, k.Value)
						break
					}
				}
			}
		}
	}
}

// mayBeErr: the call of a visitor method may return an error as its result.
// What Visit dispatches to is found from the static type of the tree.
func (a *errFlow) mayBeErr(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return true
	}
	if f.Name() == "Visit" && len(c.Args) == 2 {
		ms := a.dispatch(f, c.Args[1])
		if ms == nil {
			return true
		}
		for _, m := range ms {
			if a.returnsErr(m) {
				return true
			}
		}
		return false
	}
	return a.returnsErr(f)
}

func (a *errFlow) returnsErr(f *ssa.Function) bool {
	if v, ok := a.anyErr[f]; ok {
		return v
	}
	if len(f.Blocks) == 0 {
		return true
	}
	if a.anyErr == nil {
		a.anyErr = map[*ssa.Function]bool{}
	}
	a.anyErr[f] = false
	seen := map[ssa.Value]bool{}
	var may func(v ssa.Value) bool
	may = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return false
		case *ssa.MakeInterface:
			return mayBeError(x.X.Type()) != 0
		case *ssa.ChangeInterface:
			return mayBeError(x.X.Type()) != 0
		case *ssa.Phi:
			for _, e := range x.Edges {
				if may(e) {
					return true
				}
			}
			return false
		case *ssa.Call:
			return a.mayBeErr(&x.Call)
		case *ssa.UnOp: // elements of a list of results: lists hold no errors
			_, ok := x.X.(*ssa.IndexAddr)
			return !ok
		}
		return true
	}
	r := false
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && may(ret.Results[0]) {
			r = true
		}
	}
	a.anyErr[f] = r
	return r
}

// dispatch finds the methods of the visitor that a tree of the value's static
// type is passed to; nil when the type says too little.
func (a *errFlow) dispatch(visit *ssa.Function, tree ssa.Value) []*ssa.Function {
	for {
		switch x := tree.(type) {
		case *ssa.TypeAssert:
			if x.CommaOk {
				return nil
			}
			tree = x.X
			continue
		case *ssa.ChangeInterface:
			tree = x.X
			continue
		case *ssa.MakeInterface:
			tree = x.X
			continue
		}
		break
	}
	n, ok := tree.Type().(*types.Named)
	if p, isP := tree.Type().(*types.Pointer); isP {
		n, ok = p.Elem().(*types.Named)
	}
	if !ok || n.Obj().Pkg() == nil || !inParser(n.Obj().Pkg().Path()) {
		return nil
	}
	pk := a.w.Pkgs[n.Obj().Pkg().Path()]
	if pk == nil {
		return nil
	}
	recv := visit.Signature.Recv().Type()
	var out []*ssa.Function
	for _, name := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if it, isI := n.Underlying().(*types.Interface); isI && !types.Implements(pt, it) || !isI && tn.Type() != types.Type(n) {
			continue
		}
		acc := a.w.Prog.LookupMethod(pt, nil, "Accept")
		if acc == nil {
			return nil
		}
		for _, b := range acc.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.IsInvoke() && strings.HasPrefix(call.Call.Method.Name(), "Visit") {
					if call.Call.Method.Name() == "VisitChildren" {
						continue // for visitors of another kind
					}
					m := a.w.Prog.LookupMethod(recv, nil, call.Call.Method.Name())
					if m == nil {
						return nil
					}
					out = append(out, m)
				}
			}
		}
	}
	return out
}

func exitsZero(c *ssa.CallCommon) bool {
	if f := c.StaticCallee(); f == nil || f.Pkg.Pkg.Path() != "os" || f.Name() != "Exit" {
		return false
	}
	k, ok := c.Args[0].(*ssa.Const)
	return ok && k.Value != nil && constant.Sign(k.Value) == 0
}

// assume walks from just after an instruction with one value taken for a
// non-nil error, or for the holder of errors.
func (a *errFlow) assume(after ssa.Instruction, carrier ssa.Value) *swallow {
	b := after.Block()
	for i, in := range b.Instrs {
		if in == after {
			st := &efState{map[ssa.Value]bool{carrier: true}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
			a.failed = nil
			return a.walk(b.Parent(), b, i+1, st)
		}
	}
	return nil
}
