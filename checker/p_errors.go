package main

import (
	"errors"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C01", Gen: true, Explain: "Static forward dataflow over the SSA of the runtime library and of the code the working tree's generator emits for the schema corpus. For every call that yields an error the analysis assumes the error is non-nil and follows all paths: no path may reach a return that reports success, the error result may not be discarded, and no io.Reader.Read may be taken for a complete read.", Run: runC01})
	register(&Property{ID: "C02", Explain: "The same forward error dataflow over the generator (cli, model, visitor, ast, generator), plus rules for errors that travel as untyped visitor results, for (nil, nil) returns, for the parser's error listener, and for the process exit status.", Run: runC02})
}

// ifaceNoErr: the function implements a method of the array-traits interfaces
// whose signature has no error result, or is a helper reached only from such.
func ifaceNoErr(w *World) func(fn *ssa.Function) string {
	names := map[string]bool{}
	pk := w.Pkgs[modPath+"/ztype"]
	for _, in := range []string{"IArrayTraits", "IPackedArrayTraits", "IPackedObjectArrayTraits"} {
		o := pk.Types.Scope().Lookup(in)
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if len(errResults(m.Type().(*types.Signature))) == 0 {
				names[m.Name()] = true
			}
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range w.AllFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil {
						if o := cal.Origin(); o != nil {
							cal = o
						}
						callers[cal] = append(callers[cal], f)
					}
				}
			}
		}
	}
	var is func(fn *ssa.Function, depth int) bool
	is = func(fn *ssa.Function, depth int) bool {
		if len(errResults(fn.Signature)) != 0 || depth > 4 {
			return false
		}
		if r := fn.Signature.Recv(); r != nil && names[fn.Name()] && strings.Contains(types.TypeString(r.Type(), nil), "ArrayTraits") ||
			fn.Signature.Recv() != nil && names[fn.Name()] && strings.Contains(types.TypeString(fn.Signature.Recv().Type(), nil), "PackedTraits") {
			return true
		}
		if len(callers[fn]) == 0 {
			return false
		}
		for _, c := range callers[fn] {
			if !is(c, depth+1) {
				return false
			}
		}
		return true
	}
	return func(fn *ssa.Function) string {
		if p := fnPkg(fn); p == nil || p.Path() != modPath+"/ztype" || !is(fn, 0) {
			return ""
		}
		return "array traits methods that have no error result"
	}
}

func runC01(c *Ctx) error {
	w := c.World
	a := newErrFlow(w)
	a.rekey = ifaceNoErr(w)
	c.Rule("runtime-error-flow", "every error produced in the runtime packages reaches an error return of its function on every path on which it is non-nil", 60)
	c.Rule("generated-error-flow", "the same for every function of the code generated for the schema corpus", 500)
	a.sites(c, "runtime-error-flow", w.FnsIn("", "zstream", "ztype"), nil)
	a.sites(c, "generated-error-flow", w.GenFns, nil)
	c.Rule("no-short-read", "no runtime function takes a possibly short Read as a complete one", 0)
	for _, fn := range append(w.FnsIn("", "zstream", "ztype"), w.GenFns...) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !isReadMethod(&call.Call) {
					continue
				}
				key := short(fn) + " -> " + calleeName(&call.Call)
				// a forwarder hands count and error to its own caller unchanged
				fwd := fn.Name() == "Read"
				c.Check(fwd, "no-short-read", key, w.relPos(call.Pos()), "io.Reader.Read may return fewer bytes than requested without an error; use io.ReadFull")
			}
		}
	}
	return nil
}

func isReadMethod(c *ssa.CallCommon) bool {
	var f *types.Func
	if c.IsInvoke() {
		f = c.Method
	} else if s := c.StaticCallee(); s != nil && s.Signature.Recv() != nil {
		f, _ = s.Object().(*types.Func)
	}
	if f == nil || f.Name() != "Read" {
		return false
	}
	s := f.Type().(*types.Signature)
	return s.Params().Len() == 1 && s.Results().Len() == 2 && types.TypeString(s.Params().At(0).Type(), nil) == "[]byte"
}

func runC02(c *Ctx) error {
	w := c.World
	a := newErrFlow(w)
	a.gen = true
	c.Rule("generator-error-flow", "every error produced in the generator reaches an error return (or a process exit) on every path on which it is non-nil", 100)
	var fns []*ssa.Function
	for _, f := range w.AllFns {
		p := fnPkg(f).Path()
		if strings.HasPrefix(p, modPath+"/internal/") && !inParser(p) || strings.HasPrefix(p, modPath+"/cmd/") {
			fns = append(fns, f)
		}
	}
	collectFlags(fns)
	a.sites(c, "generator-error-flow", fns, nil)

	c.Rule("recovered-panic", "a panic that is recovered from still ends in an error", 0)
	c.Rule("syntax-errors", "the errors the lexer and the parser find are all recorded, and whoever parses returns an error when there are any", 3)
	c.Rule("exit-status", "an error that reaches the command line program ends it with a failure status", 1)
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					if s := a.assume(in, call); s != nil {
						c.Bad("recovered-panic", short(fn), w.relPos(in.Pos()), "%s", s.msg)
					} else {
						c.OK("recovered-panic", short(fn))
					}
				}
			}
		}
		syntaxErrors(c, a, fn)
	}

	c.Rule("narrowing", "a number parsed from the schema is not stored in a type that cannot hold every number the parser accepts", 1)
	for _, fn := range fns {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cv, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				max, name := parsedMax(cv.X)
				lim := intMax(cv.Type())
				if max == nil || lim == nil {
					continue
				}
				n++
				key := fmt.Sprintf("%s -> %s #%d", short(fn), name, n)
				c.Check(constant.Compare(max, token.LEQ, lim) || boundedBy(cv.X, b, lim), "narrowing", key, w.relPos(in.Pos()), "%s accepts numbers up to %s, %s holds them up to %s only", name, max, cv.Type(), lim)
			}
		}
	}

	// the command is executed by a function that main reaches, and nothing in
	// between loses the error: that part is generator-error-flow's
	execs := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !strings.HasPrefix(calleeName(&call.Call), "(*github.com/spf13/cobra.Command).Execute") {
					continue
				}
				execs++
				key := short(fn) + " -> " + calleeName(&call.Call)
				ex := ssa.Value(call)
				if s := a.assume(in, ex); s != nil && len(errResults(call.Call.Signature())) == 1 && call.Call.Signature().Results().Len() == 1 {
					c.Bad("exit-status", key, w.relPos(in.Pos()), "%s", s.msg)
				} else {
					c.OK("exit-status", key)
				}
			}
		}
	}
	return nil
}

// syntaxErrors decides the rule of that name for one function that creates a
// lexer or a parser.
func syntaxErrors(c *Ctx, a *errFlow, fn *ssa.Function) {
	w := c.World
	type maker struct {
		call *ssa.Call
		kind string
	}
	var makers []maker
	var parses []*ssa.Call
	adds := map[ssa.Value][]*ssa.Call{}
	bail := false
	owner := func(v ssa.Value) ssa.Value { // through embedded recognizers
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			default:
				return v
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := call.Call.StaticCallee()
			name := ""
			if f != nil {
				name = f.Name()
			} else if call.Call.IsInvoke() {
				name = call.Call.Method.Name()
			}
			switch {
			case f != nil && f.Pkg != nil && inParser(f.Pkg.Pkg.Path()) && (name == "NewZserioLexer" || name == "NewZserioParser"):
				makers = append(makers, maker{call, strings.ToLower(strings.TrimPrefix(name, "NewZserio"))})
			case name == "AddErrorListener":
				args := call.Call.Args
				recv := call.Call.Value
				if !call.Call.IsInvoke() {
					recv, args = args[0], args[1:]
				}
				if len(args) == 1 {
					adds[owner(recv)] = append(adds[owner(recv)], call)
				}
			case name == "SetErrorHandler":
				bail = true
			case f != nil && f.Signature.Recv() != nil && strings.HasSuffix(types.TypeString(f.Signature.Recv().Type(), nil), ".ZserioParser") && f.Pkg != nil && inParser(f.Pkg.Pkg.Path()):
				parses = append(parses, call)
			}
		}
	}
	if bail {
		c.undecided(short(fn), errors.New("it sets an error strategy of its own"))
		return
	}
	for _, m := range makers {
		key := short(fn) + " " + m.kind
		var ls []ssa.Value
		for _, add := range adds[m.call] {
			l := add.Call.Args[len(add.Call.Args)-1]
			if mi, ok := l.(*ssa.MakeInterface); ok {
				before := len(parses) > 0
				for _, p := range parses {
					before = before && precedes(add, p)
				}
				if before && records(w, mi.X.Type()) {
					ls = append(ls, mi.X)
				}
			}
		}
		if len(parses) == 0 && len(ls) == 0 {
			c.undecided(short(fn), errors.New("it creates a "+m.kind+" that is used elsewhere"))
			continue
		}
		if len(ls) == 0 {
			c.Bad("syntax-errors", key, w.relPos(m.call.Pos()), "no listener that records errors is added to the %s before parsing starts", m.kind)
			continue
		}
		bad := ""
		for _, l := range ls {
			bad = ""
			for _, p := range parses {
				if s := a.assume(p, l); s != nil {
					bad = "with a syntax error recorded, " + s.msg + " (" + w.relPos(s.pos) + ")"
				}
			}
			if bad == "" {
				break
			}
		}
		c.Check(bad == "", "syntax-errors", key, w.relPos(m.call.Pos()), "%s", bad)
	}
	if len(makers) > 0 {
		c.OK("syntax-errors", short(fn)+" listeners")
	}
}

// precedes: the first instruction is always executed before the second.
func precedes(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}

// records: SyntaxError of the listener stores something derived from its
// arguments or a new error in the listener, on every path.
func records(w *World, t types.Type) bool {
	m := w.Prog.LookupMethod(t, nil, "SyntaxError")
	if m == nil || len(m.Blocks) == 0 || m.Pkg == nil || !strings.HasPrefix(m.Pkg.Pkg.Path(), modPath) {
		return false
	}
	stores := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				base, _ := addrBase(st.Addr)
				if u, ok := base.(*ssa.UnOp); ok {
					base, _ = addrBase(u.X)
				}
				if base == ssa.Value(m.Params[0]) && !isNilConst(st.Val) {
					return true
				}
			}
			if call, ok := in.(*ssa.Call); ok { // a helper of the listener
				for _, x := range call.Call.Args {
					if x == ssa.Value(m.Params[0]) {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] || stores(b) {
			return
		}
		seen[b] = true
		if _, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ret {
			ok = false
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(m.Blocks[0])
	return ok
}

// parsedMax is the greatest number the strconv call a value comes from accepts.
func parsedMax(v ssa.Value) (constant.Value, string) {
	ex, ok := v.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return nil, ""
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return nil, ""
	}
	name := calleeName(&call.Call)
	if name != "strconv.ParseUint" && name != "strconv.ParseInt" && name != "strconv.Atoi" {
		return nil, ""
	}
	bits := int64(64)
	if len(call.Call.Args) == 3 {
		k, ok := call.Call.Args[2].(*ssa.Const)
		if !ok {
			return nil, ""
		}
		if bits, _ = constant.Int64Val(k.Value); bits == 0 {
			bits = 64
		}
	}
	if name != "strconv.ParseUint" {
		bits--
	}
	return constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits)), token.SUB, constant.MakeInt64(1)), name
}

func intMax(t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	bits := uint(0)
	switch b.Kind() {
	case types.Int8:
		bits = 7
	case types.Uint8:
		bits = 8
	case types.Int16:
		bits = 15
	case types.Uint16:
		bits = 16
	case types.Int32:
		bits = 31
	case types.Uint32:
		bits = 32
	case types.Int64, types.Int:
		bits = 63
	case types.Uint64, types.Uint:
		bits = 64
	default:
		return nil
	}
	return constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, bits), token.SUB, constant.MakeInt64(1))
}

// boundedBy: a comparison with a constant that dominates the block keeps the
// value within the limit.
func boundedBy(v ssa.Value, b *ssa.BasicBlock, lim constant.Value) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if y == v {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := y.(*ssa.Const)
		if x != v || !ok || k.Value == nil {
			continue
		}
		one := constant.MakeInt64(1)
		for i, s := range d.Succs {
			if len(s.Preds) != 1 || s != b && !s.Dominates(b) {
				continue
			}
			o := op
			if i == 1 {
				switch op {
				case token.GTR:
					o = token.LEQ
				case token.GEQ:
					o = token.LSS
				default:
					continue
				}
			}
			max := k.Value
			switch o {
			case token.LSS:
				max = constant.BinaryOp(max, token.SUB, one)
			case token.LEQ, token.EQL:
			default:
				continue
			}
			if constant.Compare(max, token.LEQ, lim) {
				return true
			}
		}
	}
	return false
}
