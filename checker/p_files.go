package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C15", Explain: "Path-sensitive typestate analysis of the functions that write output files (nilness of errors, deferred calls, facts about lengths): where a file is opened, with which path, and what has become of it on every way out.", Run: runC15})
}

// A walk over the paths of a function, with the calls that matter followed. A
// value is known by a term; errors are nil or not, as the path's branches say.

type wval struct {
	id    string // term
	lin   *flin  // integers
	nilIs int    // 0 unknown, 1 nil, 2 not nil
	cell  string // address of a variable
	fn    *ssa.MakeClosure
	env   map[ssa.Value]wval // of the closure
	tuple []wval
	conc  [2]*wval // string concatenation
	elems []wval   // slice literal
	slice *fslice
	isF   bool // the output file
	ev    string
	cmp   *fcmp
	neg   *wval
	m     string // lookup: map
	key   *wval
	ver   int
	args  []wval // of a pure call
	call  string
}

type fslice struct {
	of  wval
	hi  *flin
	hiV wval
}

type fcmp struct {
	op   token.Token
	x, y wval
}

type flin struct {
	t map[string]int64
	c int64
}

func (l *flin) add(o *flin, k int64) *flin {
	r := &flin{t: map[string]int64{}, c: l.c + k*o.c}
	for n, v := range l.t {
		r.t[n] += v
	}
	for n, v := range o.t {
		r.t[n] += k * v
		if r.t[n] == 0 {
			delete(r.t, n)
		}
	}
	return r
}

func (l *flin) String() string {
	var ks []string
	for k := range l.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%+d*%s", l.t[k], k)
	}
	return s + fmt.Sprintf("%+d", l.c)
}

func (v wval) linear() *flin {
	if v.lin != nil {
		return v.lin
	}
	return &flin{t: map[string]int64{v.id: 1}}
}

type fstate struct {
	mem      map[string]wval
	dec      map[string]bool // error events: true if not nil
	events   []fevent
	facts    []*flin // each <= 0
	bools    map[string]bool
	opened   bool
	openEv   string
	path     wval
	removed  bool
	recorded map[string]int // term of key -> value known positive
	absent   map[string]int // term of key -> version of the map at which it was not recorded
	ver      int
	slices   []fsliceAt
	fresh    int
	trace    []string
	flags    bool
	limited  bool // a truncation or a refusal
	mapOf    map[string]string
}

type fsliceAt struct {
	v   wval
	pos token.Pos
	n   int // number of facts then
}

type fevent struct {
	id, what string
	pos      token.Pos
	after    bool // after the file was opened
}

func (s *fstate) clone() *fstate {
	t := *s
	t.mem = map[string]wval{}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	t.dec = map[string]bool{}
	for k, v := range s.dec {
		t.dec[k] = v
	}
	t.bools = map[string]bool{}
	for k, v := range s.bools {
		t.bools[k] = v
	}
	t.recorded = map[string]int{}
	for k, v := range s.recorded {
		t.recorded[k] = v
	}
	t.absent = map[string]int{}
	for k, v := range s.absent {
		t.absent[k] = v
	}
	t.mapOf = map[string]string{}
	for k, v := range s.mapOf {
		t.mapOf[k] = v
	}
	t.events = append([]fevent(nil), s.events...)
	t.facts = append([]*flin(nil), s.facts...)
	t.slices = append([]fsliceAt(nil), s.slices...)
	return &t
}

// holds: l <= 0 follows from the facts.
func (s *fstate) holds(l *flin) bool { return holdsIn(s.facts, l) }

func holdsIn(facts []*flin, l *flin) bool {
	if len(l.t) == 0 {
		return l.c <= 0
	}
	all := append([]*flin(nil), facts...)
	for n := range l.t {
		if strings.HasPrefix(n, "len(") {
			all = append(all, &flin{t: map[string]int64{n: -1}})
		}
	}
	for i, f := range all {
		d := l.add(f, -1)
		if len(d.t) == 0 && d.c <= 0 {
			return true
		}
		for _, g := range all[i+1:] {
			e := d.add(g, -1)
			if len(e.t) == 0 && e.c <= 0 {
				return true
			}
		}
	}
	return false
}

type fwalk struct {
	w     *World
	in    map[*ssa.Function]bool
	steps int
	paths int
	err   error
	end   func(s *fstate, res []wval, fn *ssa.Function, pos token.Pos)
}

type fframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]wval
	defers []func(s *fstate, k func(*fstate))
	visits map[*ssa.BasicBlock]int
	depth  int
	id     string
	ret    func(s *fstate, res []wval, pos token.Pos)
}

func (fr *fframe) clone() *fframe {
	t := *fr
	t.env = map[ssa.Value]wval{}
	for k, v := range fr.env {
		t.env[k] = v
	}
	t.visits = map[*ssa.BasicBlock]int{}
	for k, v := range fr.visits {
		t.visits[k] = v
	}
	t.defers = append([]func(*fstate, func(*fstate)){}, fr.defers...)
	return &t
}

func (fw *fwalk) get(fr *fframe, s *fstate, v ssa.Value) wval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return wval{id: "nil", nilIs: 1}
		}
		if x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return wval{id: x.Value.ExactString(), lin: &flin{t: map[string]int64{}, c: n}}
			}
		}
		return wval{id: x.Value.ExactString()}
	case *ssa.Global:
		return wval{id: "&" + x.Name(), cell: "global:" + x.Name()}
	case *ssa.Function:
		return wval{id: "func " + short(x), nilIs: 2}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return wval{id: fmt.Sprintf("%s#%s.%s", fr.id, short(fr.fn), v.Name())}
}

func (s *fstate) name(p string) string {
	s.fresh++
	return fmt.Sprintf("%s#%d", p, s.fresh)
}

func (fw *fwalk) run(fr *fframe, s *fstate, b *ssa.BasicBlock, i int, pred *ssa.BasicBlock) {
	if fw.err != nil {
		return
	}
	fw.steps++
	if fw.steps > 400000 {
		fw.err = fmt.Errorf("%s has too many paths", short(fr.fn))
		return
	}
	if i == 0 {
		fr.visits[b]++
		if fr.visits[b] > 2 {
			return
		}
		// phis are simultaneous
		vals := map[ssa.Value]wval{}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, q := range b.Preds {
				if q == pred {
					vals[p] = fw.get(fr, s, p.Edges[k])
				}
			}
		}
		for v, x := range vals {
			fr.env[v] = x
		}
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			c := s.name("var " + x.Comment)
			fr.env[x] = wval{id: "&" + c, cell: c, nilIs: 2}
			if isErrorType(deref(x.Type())) || isPtr(deref(x.Type())) {
				s.mem[c] = wval{id: "nil", nilIs: 1}
			}
		case *ssa.UnOp:
			fr.env[x] = fw.unop(fr, s, x)
		case *ssa.BinOp:
			fr.env[x] = fw.binop(fw.get(fr, s, x.X), fw.get(fr, s, x.Y), x)
		case *ssa.Store:
			a := fw.get(fr, s, x.Addr)
			v := fw.get(fr, s, x.Val)
			if a.cell != "" {
				s.mem[a.cell] = v
			}
		case *ssa.FieldAddr:
			a := fw.get(fr, s, x.X)
			n := a.cell
			if n == "" {
				n = a.id
			}
			fr.env[x] = wval{id: "&" + n + "." + mrFieldName(x.X.Type(), x.Field), cell: n + "." + mrFieldName(x.X.Type(), x.Field)}
		case *ssa.Field:
			a := fw.get(fr, s, x.X)
			fr.env[x] = wval{id: a.id + "." + mrFieldName(x.X.Type(), x.Field)}
		case *ssa.IndexAddr:
			a := fw.get(fr, s, x.X)
			n := a.cell
			if n == "" {
				n = a.id
			}
			n += "[" + fw.get(fr, s, x.Index).id + "]"
			fr.env[x] = wval{id: "&" + n, cell: n}
		case *ssa.Slice:
			a := fw.get(fr, s, x.X)
			if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && a.cell != "" {
				v := wval{id: s.name("slice"), nilIs: 2}
				at := deref(x.X.Type()).Underlying().(*types.Array)
				for k := int64(0); k < at.Len() && k < 16; k++ {
					e, ok := s.mem[fmt.Sprintf("%s[%d]", a.cell, k)]
					if !ok {
						e = wval{id: s.name("elem")}
					}
					v.elems = append(v.elems, e)
				}
				fr.env[x] = v
				break
			}
			if isString(x.X.Type()) {
				v := wval{id: s.name("substring")}
				sl := &fslice{of: a}
				if x.High != nil {
					sl.hiV = fw.get(fr, s, x.High)
					sl.hi = sl.hiV.linear()
				}
				v.slice = sl
				fr.env[x] = v
				if x.Low != nil {
					if lo := fw.get(fr, s, x.Low).linear(); len(lo.t) != 0 || lo.c != 0 {
						v.slice = nil
						fr.env[x] = v
					}
				}
				s.slices = append(s.slices, fsliceAt{v, x.Pos(), len(s.facts)})
				break
			}
			fr.env[x] = a
		case *ssa.MakeInterface:
			v := fw.get(fr, s, x.X)
			v.nilIs = 2
			fr.env[x] = v
		case *ssa.ChangeInterface:
			fr.env[x] = fw.get(fr, s, x.X)
		case *ssa.ChangeType:
			fr.env[x] = fw.get(fr, s, x.X)
		case *ssa.Convert:
			fr.env[x] = fw.get(fr, s, x.X)
		case *ssa.MakeClosure:
			env := map[ssa.Value]wval{}
			for k, fv := range x.Fn.(*ssa.Function).FreeVars {
				env[fv] = fw.get(fr, s, x.Bindings[k])
			}
			fr.env[x] = wval{id: s.name("closure"), fn: x, env: env, nilIs: 2}
		case *ssa.MakeMap:
			fr.env[x] = wval{id: s.name("map"), nilIs: 2}
		case *ssa.Lookup:
			m, k := fw.get(fr, s, x.X), fw.get(fr, s, x.Index)
			v := wval{id: fmt.Sprintf("%s[%s]@%d", m.id, k.id, s.ver), m: m.id, key: &k, ver: s.ver}
			if x.CommaOk {
				fr.env[x] = wval{id: v.id, tuple: []wval{v, {id: "has " + v.id, m: m.id, key: &k, ver: s.ver}}}
			} else {
				fr.env[x] = v
			}
		case *ssa.MapUpdate:
			m, k, v := fw.get(fr, s, x.Map), fw.get(fr, s, x.Key), fw.get(fr, s, x.Value)
			s.ver++
			l := v.linear()
			if mt, ok := x.Map.Type().Underlying().(*types.Map); ok {
				if bt, ok := mt.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					counted := false // one more than the counter was
					for n, k := range l.t {
						counted = len(l.t) == 1 && k == 1 && l.c > 0 && strings.HasPrefix(n, m.id+"[")
					}
					if len(l.t) == 0 && l.c > 0 || counted || s.holds((&flin{t: map[string]int64{}, c: 1}).add(l, -1)) {
						s.recorded[k.id] = 1
					} else if len(l.t) == 0 {
						delete(s.recorded, k.id)
					}
				} else if v.id != "false" {
					s.recorded[k.id] = 1
				} else {
					delete(s.recorded, k.id)
				}
			}
			s.mapOf[k.id] = m.id
		case *ssa.Extract:
			t := fw.get(fr, s, x.Tuple)
			if x.Index < len(t.tuple) {
				fr.env[x] = t.tuple[x.Index]
			}
		case *ssa.TypeAssert:
			fr.env[x] = wval{id: s.name("assert")}
		case *ssa.Defer:
			cc := x.Common()
			args := fw.args(fr, s, cc)
			callee := fw.get(fr, s, cc.Value)
			pos := x.Pos()
			depth := fr.depth
			fr.defers = append(fr.defers, func(s *fstate, k func(*fstate)) {
				fw.invoke(s, cc, callee, args, depth, pos, func(s *fstate, _ wval) { k(s) })
			})
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			j := i
			var next func(n int, s *fstate)
			next = func(n int, s *fstate) {
				if n < 0 {
					fw.run(fr.clone(), s, b, j+1, pred)
					return
				}
				ds[n](s, func(s *fstate) { next(n-1, s) })
			}
			next(len(ds)-1, s)
			return
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				fr.env[x] = fw.builtin(fr, s, bi, x)
				break
			}
			args := fw.args(fr, s, &x.Call)
			j := i
			n := 0
			fw.invoke(s, &x.Call, fw.get(fr, s, x.Call.Value), args, fr.depth, x.Pos(), func(s *fstate, res wval) {
				n++
				f2 := fr.clone()
				f2.env[x] = res
				fw.run(f2, s, b, j+1, pred)
			})
			return
		case *ssa.If:
			fw.branch(fr, s, fw.get(fr, s, x.Cond), func(s *fstate, taken bool) {
				t := b.Succs[1]
				if taken {
					t = b.Succs[0]
				}
				fw.run(fr.clone(), s, t, 0, b)
			})
			return
		case *ssa.Jump:
			fw.run(fr, s, b.Succs[0], 0, b)
			return
		case *ssa.Return:
			var res []wval
			for _, r := range x.Results {
				res = append(res, fw.get(fr, s, r))
			}
			fr.ret(s, res, x.Pos())
			return
		case *ssa.Panic:
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = wval{id: s.name(v.Name())}
			}
		}
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (fw *fwalk) args(fr *fframe, s *fstate, c *ssa.CallCommon) []wval {
	var out []wval
	for _, a := range callArgs(c) {
		out = append(out, fw.get(fr, s, a))
	}
	return out
}

func (fw *fwalk) unop(fr *fframe, s *fstate, x *ssa.UnOp) wval {
	a := fw.get(fr, s, x.X)
	switch x.Op {
	case token.MUL:
		if a.cell != "" {
			if v, ok := s.mem[a.cell]; ok {
				return v
			}
			v := wval{id: "*" + a.cell}
			s.mem[a.cell] = v
			return v
		}
		return wval{id: "*" + a.id}
	case token.NOT:
		return wval{id: "!" + a.id, neg: &a}
	case token.SUB:
		z := &flin{t: map[string]int64{}}
		return wval{id: "-" + a.id, lin: z.add(a.linear(), -1)}
	}
	return wval{id: s.name("unop")}
}

func (fw *fwalk) binop(x, y wval, in *ssa.BinOp) wval {
	id := "(" + x.id + in.Op.String() + y.id + ")"
	switch in.Op {
	case token.ADD, token.SUB:
		if isString(in.Type()) {
			a, b := x, y
			return wval{id: id, conc: [2]*wval{&a, &b}}
		}
		k := int64(1)
		if in.Op == token.SUB {
			k = -1
		}
		l := x.linear().add(y.linear(), k)
		return wval{id: id, lin: l}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return wval{id: id, cmp: &fcmp{in.Op, x, y}}
	}
	return wval{id: id}
}

func (fw *fwalk) builtin(fr *fframe, s *fstate, b *ssa.Builtin, x *ssa.Call) wval {
	var args []wval
	for _, a := range x.Call.Args {
		args = append(args, fw.get(fr, s, a))
	}
	switch b.Name() {
	case "len":
		return wval{id: "len(" + args[0].id + ")", lin: strLen(args[0])}
	case "append":
		v := wval{id: s.name("append"), nilIs: 2}
		v.elems = append(v.elems, args[0].elems...)
		if args[0].elems == nil && args[0].nilIs != 1 {
			v.elems = append(v.elems, wval{id: args[0].id + "..."})
		}
		if len(args) > 1 {
			if args[1].elems != nil {
				v.elems = append(v.elems, args[1].elems...)
			} else if len(v.elems) > 0 {
				v.elems = append(v.elems, wval{id: args[1].id + "..."})
			}
		}
		return v
	case "delete", "clear":
		s.ver++
		if len(args) > 1 {
			delete(s.recorded, args[1].id)
		} else {
			s.recorded = map[string]int{}
		}
	}
	return wval{id: s.name(b.Name())}
}

// strLen: the length of a concatenation is the sum of those of its parts.
func strLen(v wval) *flin {
	if v.conc[0] != nil {
		return strLen(*v.conc[0]).add(strLen(*v.conc[1]), 1)
	}
	if strings.HasPrefix(v.id, "\"") {
		if c := constant.MakeFromLiteral(v.id, token.STRING, 0); c.Kind() == constant.String {
			return &flin{t: map[string]int64{}, c: int64(len(constant.StringVal(c)))}
		}
	}
	if v.slice != nil && v.slice.hi != nil {
		return v.slice.hi
	}
	return &flin{t: map[string]int64{"len(" + v.id + ")": 1}}
}

func (fw *fwalk) branch(fr *fframe, s *fstate, c wval, k func(*fstate, bool)) {
	for c.neg != nil {
		inner := *c.neg
		k0 := k
		k = func(s *fstate, t bool) { k0(s, !t) }
		c = inner
	}
	switch c.id {
	case "true":
		k(s, true)
		return
	case "false":
		k(s, false)
		return
	}
	if v, ok := s.bools[c.id]; ok {
		k(s, v)
		return
	}
	both := func(set func(s *fstate, t bool) bool) {
		for _, t := range []bool{true, false} {
			s2 := s.clone()
			s2.bools[c.id] = t
			if set == nil || set(s2, t) {
				k(s2, t)
			}
		}
	}
	if c.key != nil && c.m != "" && strings.HasPrefix(c.id, "has ") || c.key != nil && c.cmp == nil && c.m != "" {
		// recorded or not
		both(func(s *fstate, t bool) bool {
			if !t {
				s.absent[c.key.id] = c.ver
				s.mapOf[c.key.id] = c.m
			}
			return true
		})
		return
	}
	if c.cmp == nil {
		both(nil)
		return
	}
	x, y, op := c.cmp.x, c.cmp.y, c.cmp.op
	if x.nilIs == 1 && y.nilIs != 1 {
		x, y = y, x
	}
	if y.nilIs == 1 && (op == token.EQL || op == token.NEQ) {
		// nil or not
		switch {
		case x.nilIs == 1:
			k(s, op == token.EQL)
		case x.nilIs == 2:
			k(s, op == token.NEQ)
		case x.ev != "":
			if d, ok := s.dec[x.ev]; ok {
				k(s, d == (op == token.NEQ))
				return
			}
			for _, d := range []bool{true, false} {
				s2 := s.clone()
				s2.dec[x.ev] = d
				k(s2, d == (op == token.NEQ))
			}
		default:
			both(nil)
		}
		return
	}
	if x.lin != nil || y.lin != nil || op != token.EQL && op != token.NEQ {
		lx, ly := x.linear(), y.linear()
		le := func(a, b *flin, k int64) *flin { r := a.add(b, -1); r.c += k; return r } // a - b + k <= 0
		var t, f []*flin
		switch op {
		case token.LSS:
			t, f = []*flin{le(lx, ly, 1)}, []*flin{le(ly, lx, 0)}
		case token.LEQ:
			t, f = []*flin{le(lx, ly, 0)}, []*flin{le(ly, lx, 1)}
		case token.GTR:
			t, f = []*flin{le(ly, lx, 1)}, []*flin{le(lx, ly, 0)}
		case token.GEQ:
			t, f = []*flin{le(ly, lx, 0)}, []*flin{le(lx, ly, 1)}
		case token.EQL:
			t = []*flin{le(lx, ly, 0), le(ly, lx, 0)}
		case token.NEQ:
			f = []*flin{le(lx, ly, 0), le(ly, lx, 0)}
		}
		both(func(s *fstate, taken bool) bool {
			fs := f
			if taken {
				fs = t
			}
			for _, g := range fs {
				n := &flin{t: map[string]int64{}, c: 1}
				n = n.add(g, -1) // the negation: 1 - g <= 0
				if s.holds(n) {
					return false
				}
				s.facts = append(s.facts, g)
			}
			// a counter that is not positive: not recorded
			for _, v := range []wval{x, y} {
				if v.key == nil || v.m == "" {
					continue
				}
				if s.holds(v.linear()) {
					s.absent[v.key.id] = v.ver
					s.mapOf[v.key.id] = v.m
				}
			}
			return true
		})
		return
	}
	both(nil)
}

func isOSFile(t types.Type) bool {
	n, ok := derefNamed(t)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

var fpure = map[string]bool{"strings.LastIndex": true, "strings.Index": true, "strings.Contains": true, "strings.ToLower": true, "path.Join": true, "path/filepath.Join": true, "strings.HasSuffix": true, "strings.HasPrefix": true, "strings.LastIndexByte": true, "path.Dir": true, "path/filepath.Dir": true, "path.Base": true, "path/filepath.Base": true}

func (fw *fwalk) invoke(s *fstate, cc *ssa.CallCommon, callee wval, args []wval, depth int, pos token.Pos, k func(*fstate, wval)) {
	sig := cc.Signature()
	nres := sig.Results().Len()
	name := calleeName(cc)
	file := false
	for _, a := range args {
		file = file || a.isF
	}
	g := cc.StaticCallee()
	var env map[ssa.Value]wval
	if callee.fn != nil {
		g = callee.fn.Fn.(*ssa.Function)
		env = callee.env
	}
	if g != nil && g.Pkg == nil {
		g = nil
	}
	q := ""
	if g != nil {
		q = qualName(g)
	} else if cc.StaticCallee() != nil {
		q = qualName(cc.StaticCallee())
	}
	if g != nil && inModule(g) && len(g.Blocks) > 0 && depth < 5 {
		follow := env != nil || file
		for _, a := range args {
			follow = follow || a.cell != "" && a.nilIs == 2 || a.fn != nil
		}
		for i := 0; i < nres; i++ {
			follow = follow || isString(sig.Results().At(i).Type()) || isOSFile(sig.Results().At(i).Type())
		}
		follow = follow || fw.touches(g, map[*ssa.Function]bool{})
		if follow {
			f2 := &fframe{fn: g, env: map[ssa.Value]wval{}, visits: map[*ssa.BasicBlock]int{}, depth: depth + 1, id: s.name("f")}
			for v, x := range env {
				f2.env[v] = x
			}
			for i, p := range g.Params {
				if i < len(args) {
					f2.env[p] = args[i]
				}
			}
			f2.ret = func(s *fstate, res []wval, _ token.Pos) {
				switch len(res) {
				case 0:
					k(s, wval{})
				case 1:
					k(s, res[0])
				default:
					k(s, wval{id: "tuple", tuple: res})
				}
			}
			fw.run(f2, s, g.Blocks[0], 0, nil)
			return
		}
	}
	// opaque
	mk := func(i int) wval {
		t := sig.Results().At(i).Type()
		if isErrorType(t) {
			switch q {
			case "fmt.Errorf", "errors.New":
				return wval{id: s.name("error"), nilIs: 2}
			}
			ev := s.name(name)
			s.events = append(s.events, fevent{ev, name, pos, s.opened || s.openEv != ""})
			return wval{id: ev, ev: ev}
		}
		if fpure[q] {
			id := q + "("
			for _, a := range args {
				id += a.id + ","
			}
			v := wval{id: id + ")", call: q, args: args}
			if q == "path.Join" || q == "path/filepath.Join" {
				if len(args) == 1 && args[0].elems != nil {
					v.args = args[0].elems
					id = q + "("
					for _, a := range v.args {
						id += a.id + ","
					}
					v.id = id + ")"
				}
			}
			return v
		}
		return wval{id: s.name(name)}
	}
	switch q {
	case "os.OpenFile", "os.Create", "os.CreateTemp":
		if q == "os.OpenFile" && len(args) > 1 && args[1].lin != nil && len(args[1].lin.t) == 0 && args[1].lin.c&3 == 0 {
			break // read only
		}
		if s.openEv != "" {
			fw.err = fmt.Errorf("more than one file is opened")
			return
		}
		ev := s.name(q)
		s.openEv = ev
		s.path = args[0]
		s.events = append(s.events, fevent{ev, q, pos, true})
		s.opened = true
		k(s, wval{id: "open", tuple: []wval{{id: "the file", isF: true, ev: "file:" + ev}, {id: ev, ev: ev}}})
		return
	case "os.WriteFile":
		if s.openEv != "" {
			fw.err = fmt.Errorf("more than one file is opened")
			return
		}
		ev := s.name(q)
		s.path = args[0]
		s.opened = true
		s.openEv = "written:" + ev
		s.dec[s.openEv] = false
		s.events = append(s.events, fevent{ev, q, pos, true})
		k(s, wval{id: ev, ev: ev})
		return
	case "os.Remove", "os.RemoveAll":
		if s.opened && args[0].id == s.path.id {
			s.removed = true
		}
		k(s, wval{id: s.name("removed")})
		return
	case "os.Rename", "os.Link":
		fw.err = fmt.Errorf("files are renamed")
		return
	}
	if nres == 0 {
		k(s, wval{})
		return
	}
	if strings.HasPrefix(q, "log.") || strings.HasPrefix(q, "fmt.Print") || strings.HasPrefix(q, "fmt.Fprint") && !file {
		k(s, wval{id: s.name("log")})
		return
	}
	if nres == 1 {
		k(s, mk(0))
		return
	}
	t := wval{id: "tuple"}
	for i := 0; i < nres; i++ {
		t.tuple = append(t.tuple, mk(i))
	}
	k(s, t)
}

// touches: the function opens, closes or removes files, or keeps a record in a
// map, itself or through what it calls.
func (fw *fwalk) touches(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || len(seen) > 40 {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if _, local := mu.Map.(*ssa.MakeMap); !local && isString(mu.Map.Type().Underlying().(*types.Map).Key()) && fnPkg(g) != nil && strings.HasSuffix(fnPkg(g).Path(), "/generator") {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if _, ok := u.X.(*ssa.Global); ok {
							return true
						}
						if _, ok := u.X.(*ssa.FieldAddr); ok {
							return true
						}
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				switch calleeName(ci.Common()) {
				case "os.OpenFile", "os.Create", "os.Remove", "os.RemoveAll", "os.WriteFile", "(*os.File).Close":
					return true
				}
				if h := ci.Common().StaticCallee(); h != nil && inModule(h) && fw.touches(h, seen) {
					return true
				}
			}
		}
	}
	return false
}

func runC15(c *Ctx) error {
	w := c.World
	fns := generatorFns(w)
	c.Rule("fresh-files", "output files are emptied when they are opened", 1)
	c.Rule("removed", "a file that could not be finished is removed", 3)
	c.Rule("reported", "what keeps a file from being finished is reported", 3)
	c.Rule("kept", "a finished file is not removed", 1)
	c.Rule("never-shared", "the path of a file was not used before, and is recorded as used", 1)
	c.Rule("within-limit", "the path is not longer than the limit", 1)
	c.Rule("no-limit", "a limit of zero changes nothing and refuses nothing", 1)
	c.Rule("in-directory", "the path is below the output directory", 1)
	c.Rule("record-kept", "the record of used paths is not reset during a run", 1)
	c.Rule("limit-given", "the configured limit is the one that is applied", 1)
	c.Rule("own-content", "a file has the content of its own output only, made without an error", 1)
	c.Rule("own-file", "every declared type has its own output", 5)
	freshFiles(c, "fresh-files", fns)

	callers := map[*ssa.Function][]*ssa.Function{}
	opens := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && inModule(g) {
					callers[g] = append(callers[g], f)
				}
				switch calleeName(ci.Common()) {
				case "os.Create", "os.OpenFile", "os.WriteFile":
					opens[f] = true
				}
			}
		}
	}
	roots := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if t := f.Signature.Results().At(i).Type(); d < 4 && (isOSFile(t) || types.TypeString(t, nil) == "io.WriteCloser" || types.TypeString(t, nil) == "io.Writer") {
				for _, g := range callers[f] {
					up(g, d+1)
				}
				return
			}
		}
		if f.Parent() != nil && d < 4 {
			up(f.Parent(), d+1)
			return
		}
		roots[f] = true
	}
	for f := range opens {
		up(f, 0)
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return short(list[i]) < short(list[j]) })
	if len(list) == 0 {
		return fmt.Errorf("no function opens a file for writing")
	}
	for _, f := range list {
		fc := &filesCheck{c: c, w: w, callers: callers}
		fc.judge(f, 0)
	}
	recordKept(c, fns, callers)
	limitGiven(c, fns)
	ownContent(c, fns, roots)
	ownFile(c)
	return nil
}

type filesCheck struct {
	c       *Ctx
	w       *World
	callers map[*ssa.Function][]*ssa.Function
	fn      *ssa.Function
}

type verdict struct {
	ok  bool
	pos token.Pos
	msg string
}

func (fc *filesCheck) judge(f *ssa.Function, depth int) {
	c, w := fc.c, fc.w
	fc.fn = f
	verdicts := map[string]map[string]*verdict{}
	say := func(rule, key string, ok bool, pos token.Pos, format string, a ...any) {
		if verdicts[rule] == nil {
			verdicts[rule] = map[string]*verdict{}
		}
		v := verdicts[rule][key]
		if v == nil {
			v = &verdict{ok: true, pos: pos}
			verdicts[rule][key] = v
		}
		if !ok && v.ok {
			v.ok, v.pos, v.msg = false, pos, fmt.Sprintf(format, a...)
		}
	}
	fromParam := false
	paths := 0
	fw := &fwalk{w: w}
	end := func(s *fstate, res []wval, pos token.Pos) {
		paths++
		var r wval
		if n := len(res); n > 0 && isErrorType(f.Signature.Results().At(n-1).Type()) {
			r = res[n-1]
		} else {
			r = wval{nilIs: 1}
		}
		outcomes := []int{r.nilIs}
		if r.nilIs == 0 {
			if d, ok := s.dec[r.ev]; ok && r.ev != "" {
				outcomes = []int{1}
				if d {
					outcomes = []int{2}
				}
			} else {
				outcomes = []int{1, 2}
			}
		}
		isOpen := s.opened && !s.dec[s.openEv]
		for _, o := range outcomes {
			fails := o == 2
			// what failed on this path
			for _, e := range s.events {
				d, known := s.dec[e.id]
				if e.id == r.ev {
					d, known = fails, true
				}
				if !e.after && !(known && d) {
					continue
				}
				failed := !known || d // never looked at: may have failed
				if !failed {
					say("reported", short(f)+" "+e.what, true, e.pos, "")
					continue
				}
				say("reported", short(f)+" "+e.what, fails, e.pos, "an error of %s is lost: %s can end without an error after it", e.what, short(f))
				if isOpen {
					say("removed", short(f)+" "+e.what, s.removed, e.pos, "after an error of %s the file stays behind", e.what)
				}
			}
			if isOpen && fails {
				say("removed", short(f), s.removed, pos, "%s can fail with the file left behind", short(f))
			}
			if isOpen && !fails {
				say("kept", short(f), !s.removed || anyFailed(s), pos, "%s removes a file it finished", short(f))
				closed := strings.HasPrefix(s.openEv, "written:")
				for _, e := range s.events {
					if strings.HasSuffix(e.what, ".Close") {
						closed = true
					}
				}
				say("reported", short(f)+" closes", closed, pos, "%s ends without closing the file: what was not written is not noticed", short(f))
			}
			// without a limit nothing is cut, and nothing refused
			if fails && !s.opened && !anyFailed(s) && !limited(s, s.facts) {
				say("no-limit", short(f)+" refuses", false, pos, "%s can refuse a path without a limit being set", short(f))
			} else {
				say("no-limit", short(f)+" refuses", true, pos, "")
			}
		}
		if !s.opened {
			return
		}
		for _, sl := range s.slices {
			say("no-limit", short(f)+" cuts", limited(s, s.facts[:sl.n]), sl.pos, "%s can shorten a path without a limit being set", short(f))
		}
		p := s.path
		if strings.Contains(p.id, "#"+short(f)+".") || strings.HasPrefix(p.id, "param:") {
			fromParam = true
			return
		}
		// the recorded part is the path but for a constant ending
		u := p
		for i := 0; i < 4; i++ {
			if s.recorded[u.id] != 0 {
				break
			}
			if u.conc[0] == nil || !strings.HasPrefix(u.conc[1].id, "\"") {
				break
			}
			u = *u.conc[0]
		}
		_, abs := s.absent[u.id]
		say("never-shared", short(f)+" recorded", s.recorded[u.id] != 0, pos, "%s writes to a path it does not record as used", short(f))
		say("never-shared", short(f)+" unused", abs, pos, "%s writes to a path that may have been used already", short(f))
		// the limit
		ln := strLen(p)
		lim := fc.limitTerms(s)
		within := false
		for _, l := range lim {
			zero := &flin{t: map[string]int64{l: 1}}
			if s.holds(zero) {
				within = true
			}
			if s.holds(ln.add(zero, -1)) {
				within = true
			}
		}
		if len(lim) > 0 {
			say("within-limit", short(f), within, pos, "%s can write to a path longer than the limit", short(f))
		} else {
			say("within-limit", short(f), false, pos, "%s opens a file without looking at a limit of the length of its path", short(f))
		}
		// the directory
		ok, why := fc.inside(s, p)
		if why == "?" {
			c.undecided("in-directory", fmt.Errorf("%s: the path is made in a way that is not understood", short(f)))
		} else {
			say("in-directory", short(f), ok, pos, "the path of an output: %s", why)
		}
	}
	root := &fframe{fn: f, env: map[ssa.Value]wval{}, visits: map[*ssa.BasicBlock]int{}, id: "root"}
	for _, p := range f.Params {
		root.env[p] = wval{id: "param:" + p.Name()}
	}
	root.ret = end
	s := &fstate{mem: map[string]wval{}, dec: map[string]bool{}, bools: map[string]bool{}, recorded: map[string]int{}, absent: map[string]int{}, mapOf: map[string]string{}}
	s.ret(fw, root, f)
	if fw.err != nil {
		c.undecided("removed "+short(f), fw.err)
		return
	}
	c.Count("output_paths", paths)
	if fromParam && depth < 3 && len(fc.callers[f]) > 0 {
		// the path is made by a caller: judged there
		defer func() { fc.fn = f }()
		for _, g := range fc.callers[f] {
			fc.judge(g, depth+1)
		}
		for _, r := range []string{"never-shared", "within-limit", "in-directory", "no-limit"} {
			delete(verdicts, r)
		}
	}
	var rules []string
	for r := range verdicts {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	for _, r := range rules {
		var keys []string
		for k := range verdicts[r] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v := verdicts[r][k]
			c.Check(v.ok, r, k, w.relPos(v.pos), "%s", v.msg)
		}
	}
}

func (s *fstate) ret(fw *fwalk, fr *fframe, f *ssa.Function) { fw.run(fr, s, f.Blocks[0], 0, nil) }

func anyFailed(s *fstate) bool {
	for _, e := range s.events {
		if d, known := s.dec[e.id]; known && d || !known {
			return true
		}
	}
	return false
}

// limitTerms: what stands for the limit: a field or parameter that speaks of a
// length and was compared.
func (fc *filesCheck) limitTerms(s *fstate) []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range s.facts {
		for n := range f.t {
			if !seen[n] && isLimit(n) {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

// isLimit: the term is a number the function was given.
func isLimit(n string) bool {
	return (strings.HasPrefix(n, "param:") || strings.HasPrefix(n, "*")) && !strings.Contains(n, "[")
}

func limitName(n string) bool {
	n = strings.ToLower(n)
	return strings.Contains(n, "max") && strings.Contains(n, "len")
}

// limited: a limit is known to be set.
func limited(s *fstate, facts []*flin) bool {
	for _, f := range facts {
		for n := range f.t {
			if isLimit(n) && holdsIn(facts, &flin{t: map[string]int64{n: -1}, c: 1}) {
				return true
			}
		}
	}
	return false
}

// inside: the path is that of the output directory, with something after it.
func (fc *filesCheck) inside(s *fstate, p wval) (bool, string) {
	if p.conc[0] != nil {
		return fc.inside(s, *p.conc[0])
	}
	switch {
	case p.slice != nil:
		ok, why := fc.inside(s, p.slice.of)
		if !ok {
			return ok, why
		}
		// cut behind the directory
		if v := p.slice.hiV; v.call != "" && strings.HasPrefix(v.call, "strings.LastIndex") && len(v.args) == 2 && v.args[0].id == p.slice.of.id {
			for _, sep := range []string{"\"/\""} {
				slash := "strings.LastIndex(" + p.slice.of.id + "," + sep + ",)"
				if s.holds(&flin{t: map[string]int64{slash: 1, v.id: -1}, c: 1}) {
					return true, ""
				}
			}
			return false, "it is cut at a position that may be within the directory"
		}
		d := fc.dir(p.slice.of)
		if d == nil || p.slice.hi == nil {
			return false, "?"
		}
		need := strLen(*d).add(p.slice.hi, -1)
		need.c++ // len(dir) + 1 <= hi
		if s.holds(need) {
			return true, ""
		}
		return false, "it is cut where nothing says that this is behind the directory"
	case p.call == "path.Join" || p.call == "path/filepath.Join":
		if len(p.args) == 0 {
			return false, "?"
		}
		return fc.rooted(p.args[0])
	case strings.HasPrefix(p.id, "fmt.Sprintf#"):
		return true, "" // the index: seen by what it is made of
	}
	return fc.rooted(p)
}

func (fc *filesCheck) rooted(p wval) (bool, string) {
	switch {
	case p.call == "path.Join" || p.call == "path/filepath.Join":
		if len(p.args) == 0 {
			return false, "?"
		}
		return fc.rooted(p.args[0])
	case p.conc[0] != nil:
		return fc.rooted(*p.conc[0])
	case strings.HasPrefix(p.id, "param:"):
		name := strings.TrimPrefix(p.id, "param:")
		for _, q := range fc.fn.Params {
			if q.Name() == name {
				switch fc.given(q, 0) {
				case 1:
					return true, ""
				case -1:
					return false, "it begins with " + name + ", not with the output directory"
				}
			}
		}
		return false, "?"
	case strings.HasSuffix(p.id, "..."):
		return false, "it does not begin with the output directory"
	case strings.HasPrefix(p.id, "\""):
		return false, "it begins with a fixed text"
	}
	return false, "?"
}

// given: the parameter is what the caller of the generator asked for (1), or
// the name of something in the schema (-1).
func (fc *filesCheck) given(p *ssa.Parameter, d int) int {
	f := p.Parent()
	if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil {
		return 1
	}
	idx := -1
	for i, q := range f.Params {
		if q == p {
			idx = i
		}
	}
	r := 0
	for _, g := range fc.callers[f] {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				v := callArgs(ci.Common())[idx]
				for k := 0; k < 4; k++ {
					if call, ok := v.(*ssa.Call); ok && len(call.Call.Args) == 1 {
						v = call.Call.Args[0]
					}
				}
				switch x := v.(type) {
				case *ssa.Parameter:
					if d < 5 {
						if t := fc.given(x, d+1); t != 0 {
							r = t
						}
					}
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && strings.EqualFold(mrFieldName(fa.X.Type(), fa.Field), "name") {
						return -1
					}
				case *ssa.Field:
					if strings.EqualFold(mrFieldName(x.X.Type(), x.Field), "name") {
						return -1
					}
				}
			}
		}
	}
	return r
}

// dir: the directory a joined path is in.
func (fc *filesCheck) dir(p wval) *wval {
	if p.call == "path.Join" || p.call == "path/filepath.Join" {
		if len(p.args) == 2 {
			return &p.args[0]
		}
	}
	return nil
}

// recordKept: the record of used paths is only made where there is none, or
// once, before the outputs of a run.
func recordKept(c *Ctx, fns []*ssa.Function, callers map[*ssa.Function][]*ssa.Function) {
	w := c.World
	record := map[*ssa.Global]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && isString(mu.Map.Type().Underlying().(*types.Map).Key()) && strings.HasSuffix(g.Pkg.Pkg.Path(), "/generator") {
							record[g] = true
						}
					}
				}
			}
		}
	}
	var once func(f *ssa.Function, b *ssa.BasicBlock, d int) bool
	once = func(f *ssa.Function, b *ssa.BasicBlock, d int) bool {
		k := newCtl(f)
		for _, l := range k.loops {
			if l.body[b] {
				return false
			}
		}
		if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil || d > 5 {
			return true
		}
		for _, g := range callers[f] {
			for _, gb := range g.Blocks {
				for _, in := range gb.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && !once(g, gb, d+1) {
						return false
					}
				}
			}
		}
		return true
	}
	for _, f := range fns {
		k := newCtl(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					g, ok := x.Addr.(*ssa.Global)
					if !ok || !record[g] || f.Name() == "init" {
						continue
					}
					guarded := false
					for _, cd := range k.conds(b) {
						if bo, ok := cd.cond.(*ssa.BinOp); ok && isNilConst(bo.Y) && (bo.Op == token.EQL && !cd.neg || bo.Op == token.NEQ && cd.neg) {
							if u, ok := bo.X.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
								guarded = true
							}
						}
					}
					c.Check(guarded || once(f, b, 0), "record-kept", short(f)+" sets "+g.Name(), w.relPos(x.Pos()), "%s forgets the paths already used while a run goes on", short(f))
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if u, ok := x.Call.Args[0].(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok && record[g] {
								c.Check(once(f, b, 0), "record-kept", short(f)+" "+bi.Name(), w.relPos(x.Pos()), "%s forgets a path already used while a run goes on", short(f))
							}
						}
					}
				}
			}
		}
	}
	if len(record) == 0 {
		c.undecided("record-kept", fmt.Errorf("the record of used paths is not a package-level map"))
	}
}

// limitGiven: the option keeps the limit it was given, and the limit that is
// applied is the option's.
func limitGiven(c *Ctx, fns []*ssa.Function) {
	w := c.World
	isMax := func(t types.Type, i int) bool { return limitName(mrFieldName(t, i)) }
	limitVal := func(v ssa.Value) bool {
		for d := 0; d < 6; d++ {
			switch x := v.(type) {
			case *ssa.Parameter:
				return limitName(x.Name())
			case *ssa.UnOp:
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					return isMax(a.X.Type(), a.Field)
				case *ssa.Global:
					return limitName(a.Name())
				}
				return false
			case *ssa.Field:
				return isMax(x.X.Type(), x.Field)
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			return false
		}
		return false
	}
	for _, f := range append(append([]*ssa.Function(nil), fns...), w.FnsIn("internal/cli")...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isMax(fa.X.Type(), fa.Field) {
						continue
					}
					if p, ok := x.Val.(*ssa.Const); ok && p.Value != nil && f.Name() == "init" {
						continue
					}
					c.Check(limitVal(x.Val), "limit-given", short(f)+" sets "+mrFieldName(fa.X.Type(), fa.Field), w.relPos(x.Pos()), "%s sets the limit of the length of paths to something else than the limit it was given", short(f))
				case *ssa.Call:
					g := x.Call.StaticCallee()
					if g == nil || !inModule(g) || len(g.Blocks) == 0 {
						continue
					}
					for i, a := range callArgs(&x.Call) {
						if i < len(g.Params) && limitName(g.Params[i].Name()) {
							// a helper may be left less room: what the
							// caller adds to its result has to fit as well
							for bo, ok := a.(*ssa.BinOp); ok && bo.Op == token.SUB && !g.Object().Exported(); bo, ok = a.(*ssa.BinOp) {
								a = bo.X
							}
							c.Check(limitVal(a), "limit-given", short(f)+" -> "+short(g), w.relPos(x.Pos()), "%s hands %s a limit that is not the configured one", short(f), short(g))
						}
					}
				}
			}
		}
	}
}

// ownContent: what is written to a file is made for it, without an error.
func ownContent(c *Ctx, fns []*ssa.Function, roots map[*ssa.Function]bool) {
	w := c.World
	found := false
	for _, f := range fns {
		var k *ctl
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !roots[call.Call.StaticCallee()] || roots[f] {
					continue
				}
				if k == nil {
					k = newCtl(f)
				}
				for _, a := range call.Call.Args {
					if !isByteSlice(a.Type()) {
						continue
					}
					found = true
					key := short(f) + " -> " + short(call.Call.StaticCallee())
					pos := w.relPos(call.Pos())
					bc, ok := a.(*ssa.Call)
					var buf *ssa.Alloc
					if ok && bc.Call.StaticCallee() != nil && bc.Call.StaticCallee().Name() == "Bytes" {
						buf, _ = bc.Call.Args[0].(*ssa.Alloc)
					}
					if buf == nil {
						if e, ok := a.(*ssa.Extract); ok {
							if mk, ok := e.Tuple.(*ssa.Call); ok {
								ok := true
								for _, r := range *mk.Referrers() {
									if x, isx := r.(*ssa.Extract); isx && isErrorType(x.Type()) {
										ok = nilWhere(x, b)
									}
								}
								c.Check(ok, "own-content", key, pos, "%s writes a file whose content could not be made", short(f))
								continue
							}
						}
						c.undecided("own-content", fmt.Errorf("%s: the content is made in a way that is not understood", short(f)))
						continue
					}
					var inner *loop
					for _, l := range k.loops {
						if l.body[b] && (inner == nil || len(l.body) < len(inner.body)) {
							inner = l
						}
					}
					fresh := inner == nil || inner.body[buf.Block()]
					for _, r := range *buf.Referrers() {
						if rc, ok := r.(*ssa.Call); ok && inner != nil && inner.body[rc.Block()] && rc.Call.StaticCallee() != nil && rc.Call.StaticCallee().Name() == "Reset" {
							fresh = true
						}
					}
					c.Check(fresh, "own-content", key+" content", pos, "%s writes a file with what was made for the files before it", short(f))
					// every call that fills the buffer succeeded
					var fills func(v ssa.Value)
					good := true
					fills = func(v ssa.Value) {
						for _, r := range *v.Referrers() {
							switch x := r.(type) {
							case *ssa.MakeInterface:
								fills(x)
							case *ssa.Call:
								if x == bc || x.Call.StaticCallee() != nil && !inModule(x.Call.StaticCallee()) {
									continue
								}
								if isErrorType(x.Type()) {
									good = good && nilWhere(x, b)
								}
								if t, ok := x.Type().(*types.Tuple); ok {
									for i := 0; i < t.Len(); i++ {
										if !isErrorType(t.At(i).Type()) {
											continue
										}
										seen := false
										for _, q := range *x.Referrers() {
											if e, ok := q.(*ssa.Extract); ok && e.Index == i {
												seen = nilWhere(e, b)
											}
										}
										good = good && seen
									}
								}
							}
						}
					}
					fills(buf)
					c.Check(good, "own-content", key+" made", pos, "%s writes a file whose content could not be made", short(f))
				}
			}
		}
	}
	if !found {
		c.undecided("own-content", fmt.Errorf("no content is handed to what writes files"))
	}
}

// nilWhere: the block is only reached where the error is nil.
func nilWhere(v ssa.Value, b *ssa.BasicBlock) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || !isNilConst(bo.Y) || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		for _, q := range *bo.Referrers() {
			iff, ok := q.(*ssa.If)
			if !ok {
				continue
			}
			s := iff.Block().Succs[0]
			if bo.Op == token.NEQ {
				s = iff.Block().Succs[1]
			}
			if len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// ownFile: every declared type that has a file of its own gets an output, but
// for templates.
func ownFile(c *Ctx) {
	w := c.World
	ap := w.Pkgs[modPath+"/internal/ast"]
	gp := w.Pkgs[modPath+"/internal/generator"]
	if ap == nil || gp == nil {
		return
	}
	pk, _ := ap.Types.Scope().Lookup("Package").(*types.TypeName)
	if pk == nil {
		return
	}
	st, ok := pk.Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		mt, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		n, ok := derefNamed(mt.Elem())
		if !ok {
			continue
		}
		switch n.Obj().Name() {
		case "Struct", "Choice", "Union", "Enum", "BitmaskType":
		default:
			continue
		}
		name := st.Field(i).Name()
		good, why := false, "no output is made of what is in "+name
		for _, f := range w.FnsIn("internal/generator") {
			if fnPkg(f) != gp.Types {
				continue
			}
			var k *ctl
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if _, ok := call.Call.Value.(*ssa.Builtin); ok {
						continue
					}
					for _, a := range call.Call.Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if !types.Identical(a.Type(), mt.Elem()) || !outputOf(call) {
							continue
						}
						if k == nil {
							k = newCtl(f)
						}
						// under no condition but that it is not a template
						ok, cond := true, ""
						for _, cd := range k.conds(call.Block()) {
							if !plainLoop(cd.cond) && !speaksOf(cd.cond, "TemplateParameters", 0) {
								ok, cond = false, w.relPos(cd.blk.Instrs[len(cd.blk.Instrs)-1].Pos())
							}
						}
						if ok {
							good = true
						} else if !good {
							why = "an output for what is in " + name + " depends on the condition at " + cond
						}
					}
				}
			}
		}
		c.Check(good, "own-file", "Package."+name, w.relPos(pk.Pos()), "%s", why)
	}
}

// outputOf: the call makes an output.
func outputOf(call *ssa.Call) bool {
	n, ok := derefNamed(call.Type())
	return ok && strings.Contains(strings.ToLower(n.Obj().Name()), "output")
}

// plainLoop: the condition of a loop over a list.
func plainLoop(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		if x.Op != token.LSS && x.Op != token.GEQ && x.Op != token.LEQ && x.Op != token.GTR {
			return false
		}
		for _, y := range []ssa.Value{x.X, x.Y} {
			if call, ok := y.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return !speaksOf(call, "TemplateParameters", 0)
				}
			}
		}
	}
	return false
}

// speaksOf: the value is computed from the field.
func speaksOf(v ssa.Value, field string, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return mrFieldName(x.X.Type(), x.Field) == field
	case *ssa.Field:
		return mrFieldName(x.X.Type(), x.Field) == field
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && inModule(g) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && mrFieldName(fa.X.Type(), fa.Field) == field {
						return true
					}
				}
			}
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && speaksOf(*op, field, d+1) {
			return true
		}
	}
	return false
}
