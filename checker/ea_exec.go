package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unk aborts the summary of one function: the construct is outside what the
// summariser models, so nothing is decided about the function.
type unk struct{ why string }

func giveUp(format string, a ...any) { panic(unk{fmt.Sprintf(format, a...)}) }

// node is one element of an effect summary.
type node struct {
	t    string // op, if, loop, require
	dir  string // op: w write, r read, i initialise context, c create context, s size, x other
	kind string
	args []*E
	val  *E // written value, or the result symbol of a read
	cond *E
	a, b *out
	cnt  *E
	d    string
	body []*node
	pos  token.Pos
	obj  *E // pointer or list the operation works on
	typ  string
	m    *mem // terminal nodes: memory and results at the end
	rets []*E
}

// out is what happens from a program point on.
type out struct {
	t    string // arrive, ret, reject, branch
	seq  []*node
	at   *ssa.BasicBlock
	m    *mem
	phis []*E
	rets []*E
	cond *E
	a, b *out
	pos  token.Pos
}

// mem maps locations to contents; locations not in it hold what they held on
// entry.
type mem struct {
	v map[*E]*E
	q []qstore
}

// qstore is a store to key[ix] for every ix < n.
type qstore struct {
	key, val, n *E
	d           string
}

func (m *mem) clone() *mem {
	r := &mem{v: make(map[*E]*E, len(m.v)), q: append([]qstore{}, m.q...)}
	for k, v := range m.v {
		r.v[k] = v
	}
	return r
}

type ex struct {
	x      *X
	w      *World
	nNew   int
	nRes   int
	nAcc   int
	depth  int
	loopD  int
	leaf   func(e *ex, st *st, fr *frame, cc *ssa.CallCommon, args []*E, pos token.Pos) ([]*E, bool)
	inline func(fn *ssa.Function) bool
	steps  int
}

type st struct {
	m   *mem
	seq []*node
}

type frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]*E
	info *fnInfo
	free map[*ssa.FreeVar]*E
	act  map[*ssa.BasicBlock]bool // loop headers being summarised
}

type fnInfo struct {
	ipdom   map[*ssa.BasicBlock]*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body blocks
	latches map[*ssa.BasicBlock][]*ssa.BasicBlock
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// errSide returns the successor index taken when the tested error is non-nil.
func errSide(b *ssa.BasicBlock) int {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return -1
	}
	var v ssa.Value
	if c, ok := bo.Y.(*ssa.Const); ok && c.Value == nil {
		v = bo.X
	} else if c, ok := bo.X.(*ssa.Const); ok && c.Value == nil {
		v = bo.Y
	} else {
		return -1
	}
	if !isErr(v.Type()) {
		return -1
	}
	if bo.Op == token.NEQ {
		return 0
	}
	return 1
}

func errNonNil(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		_, ok := v.X.(*ssa.Global)
		return ok && v.Op == token.MUL
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() + "." + f.Name() {
			case "fmt.Errorf", "errors.New", "errors.Join":
				return true
			}
		}
	}
	return false
}

func analyse(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	n := len(fn.Blocks)
	info := &fnInfo{ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, latches: map[*ssa.BasicBlock][]*ssa.BasicBlock{}}
	fnInfos[fn] = info
	// rejecting blocks
	rej := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if rej[b.Index] {
				continue
			}
			r := false
			switch t := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				if k := len(t.Results); k > 0 && isErr(t.Results[k-1].Type()) {
					r = errNonNil(t.Results[k-1])
				}
			case *ssa.Panic:
				r = true
			default:
				r = len(b.Succs) > 0
				for i, s := range b.Succs {
					if i == errSide(b) {
						continue
					}
					if !rej[s.Index] {
						r = false
					}
				}
			}
			if r {
				rej[b.Index] = true
				ch = true
			}
		}
	}
	succ := make([][]int, n+1)
	pred := make([][]int, n+1)
	edge := func(a, b int) { succ[a] = append(succ[a], b); pred[b] = append(pred[b], a) }
	for _, b := range fn.Blocks {
		k := 0
		for i, s := range b.Succs {
			if i == errSide(b) || rej[s.Index] && !rej[b.Index] {
				continue
			}
			edge(b.Index, s.Index)
			k++
		}
		if k == 0 {
			edge(b.Index, n)
		}
	}
	// post-dominators: reverse graph from the virtual exit n
	order := make([]int, 0, n+1)
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	var dfs func(int)
	seen := make([]bool, n+1)
	dfs = func(u int) {
		seen[u] = true
		for _, p := range pred[u] {
			if !seen[p] {
				dfs(p)
			}
		}
		num[u] = len(order)
		order = append(order, u)
	}
	dfs(n)
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	for ch := true; ch; {
		ch = false
		for i := len(order) - 2; i >= 0; i-- {
			u := order[i]
			nd := -1
			for _, s := range succ[u] {
				if num[s] < 0 || idom[s] < 0 {
					continue
				}
				if nd < 0 {
					nd = s
					continue
				}
				a, b := s, nd
				for a != b {
					for num[a] < num[b] {
						a = idom[a]
					}
					for num[b] < num[a] {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd >= 0 && idom[u] != nd {
				idom[u] = nd
				ch = true
			}
		}
	}
	for _, b := range fn.Blocks {
		if d := idom[b.Index]; d >= 0 && d < n {
			info.ipdom[b] = fn.Blocks[d]
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := info.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					info.loops[s] = body
				}
				info.latches[s] = append(info.latches[s], b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					u := work[len(work)-1]
					work = work[:len(work)-1]
					if body[u] {
						continue
					}
					body[u] = true
					work = append(work, u.Preds...)
				}
			}
		}
	}
	return info
}

func (e *ex) newFrame(fn *ssa.Function, args []*E, free []*E) *frame {
	fr := &frame{fn: fn, env: map[ssa.Value]*E{}, info: analyse(fn), act: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.env[f] = free[i]
		}
	}
	return fr
}

func (e *ex) alloc() *E {
	e.nNew++
	return e.x.mk("new", fmt.Sprint(e.nNew), kOth)
}

func (e *ex) res(k kind) *E {
	e.nRes++
	return e.x.mk("res", fmt.Sprint(e.nRes), k)
}

// summarise runs a whole function.
func (e *ex) summarise(fn *ssa.Function, args []*E, init func(*mem)) (o *out, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unk); ok {
				o, err = nil, fmt.Errorf("%s: %s", short(fn), u.why)
				return
			}
			o, err = nil, fmt.Errorf("the analysis stopped: %v", r)
		}
	}()
	m := &mem{v: map[*E]*E{}}
	if init != nil {
		init(m)
	}
	return e.call(fn, args, nil, m), nil
}

func (e *ex) call(fn *ssa.Function, args, free []*E, m *mem) *out {
	if len(fn.Blocks) == 0 {
		giveUp("no body for %s", short(fn))
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 14 {
		giveUp("call depth")
	}
	fr := e.newFrame(fn, args, free)
	return e.run(fr, fn.Blocks[0], m, nil)
}

// run executes from the start of blk (phis already bound) up to a stop block,
// a return or a rejection.
func (e *ex) run(fr *frame, blk *ssa.BasicBlock, m *mem, stops []*ssa.BasicBlock) *out {
	s := &st{m: m.clone()}
	for {
		e.steps++
		if e.steps > 2000000 {
			giveUp("too large")
		}
		if fr.info.loops[blk] != nil && !fr.act[blk] {
			nxt, o := e.loop(fr, blk, s, stops)
			if o != nil {
				o.seq = append(s.seq, o.seq...)
				return o
			}
			blk = nxt
			continue
		}
		for _, in := range blk.Instrs[:len(blk.Instrs)-1] {
			e.instr(fr, s, in)
		}
		switch t := blk.Instrs[len(blk.Instrs)-1].(type) {
		case *ssa.Return:
			o := &out{t: "ret", seq: s.seq, m: s.m, pos: t.Pos()}
			for _, r := range t.Results {
				o.rets = append(o.rets, e.val(fr, s, r))
			}
			if k := len(t.Results); k > 0 && isErr(t.Results[k-1].Type()) && isPtrNonNil(o.rets[k-1]) {
				o.t = "reject"
			}
			return o
		case *ssa.Panic:
			return &out{t: "reject", seq: s.seq, m: s.m, pos: t.Pos()}
		case *ssa.Jump:
			nx := blk.Succs[0]
			ph := e.phis(fr, s, blk, nx)
			if inBlocks(stops, nx) {
				return &out{t: "arrive", seq: s.seq, m: s.m, at: nx, phis: ph}
			}
			e.bind(fr, nx, ph)
			blk = nx
		case *ssa.If:
			c := e.val(fr, s, t.Cond)
			if c.op == "c" {
				i := 0
				if c == e.x.fls {
					i = 1
				}
				nx := blk.Succs[i]
				ph := e.phis(fr, s, blk, nx)
				if inBlocks(stops, nx) {
					return &out{t: "arrive", seq: s.seq, m: s.m, at: nx, phis: ph}
				}
				e.bind(fr, nx, ph)
				blk = nx
				continue
			}
			j := fr.info.ipdom[blk]
			sub := stops
			if j != nil && !inBlocks(stops, j) {
				sub = append(append([]*ssa.BasicBlock{}, stops...), j)
			}
			side := func(i int) *out {
				nx := blk.Succs[i]
				ph := e.phis(fr, s, blk, nx)
				if inBlocks(sub, nx) {
					return &out{t: "arrive", m: s.m, at: nx, phis: ph}
				}
				e.bind(fr, nx, ph)
				return e.run(fr, nx, s.m, sub)
			}
			o1 := side(0)
			o2 := side(1)
			o := e.join(c, o1, o2, t.Cond.Pos())
			o = e.contAll(fr, o, j, stops)
			if o.t == "arrive" && o.at == j && !inBlocks(stops, j) {
				s.seq = append(s.seq, o.seq...)
				s.m = o.m
				e.bind(fr, j, o.phis)
				blk = j
				continue
			}
			o.seq = append(s.seq, o.seq...)
			return o
		default:
			giveUp("terminator %T", t)
		}
	}
}

// contAll continues the arms of an unmerged branch that stopped at j.
func (e *ex) contAll(fr *frame, o *out, j *ssa.BasicBlock, stops []*ssa.BasicBlock) *out {
	if o.t != "branch" || j == nil || inBlocks(stops, j) {
		return o
	}
	cont := func(a *out) *out {
		if a.t == "branch" {
			return e.contAll(fr, a, j, stops)
		}
		if a.t == "arrive" && a.at == j {
			e.bind(fr, j, a.phis)
			r := e.run(fr, j, a.m, stops)
			r.seq = append(append([]*node{}, a.seq...), r.seq...)
			return r
		}
		return a
	}
	a, b := cont(o.a), cont(o.b)
	r := e.join(o.cond, a, b, o.pos)
	r.seq = append(append([]*node{}, o.seq...), r.seq...)
	return r
}

// join merges the two arms of a branch.
func (e *ex) join(c *E, a, b *out, pos token.Pos) *out {
	switch {
	case a.t == "reject" && b.t == "reject":
		return &out{t: "reject", m: a.m, pos: pos}
	case a.t == "reject":
		r := *b
		r.seq = append([]*node{{t: "require", cond: e.x.not(c), pos: a.pos}}, b.seq...)
		return &r
	case b.t == "reject":
		r := *a
		r.seq = append([]*node{{t: "require", cond: c, pos: b.pos}}, a.seq...)
		return &r
	case a.t == "branch" || b.t == "branch" || a.t != b.t || a.at != b.at:
		return &out{t: "branch", cond: c, a: a, b: b, pos: pos}
	}
	r := &out{t: a.t, at: a.at, m: e.merge(c, a.m, b.m), pos: a.pos}
	if len(a.seq) > 0 || len(b.seq) > 0 {
		r.seq = []*node{{t: "if", cond: c, a: a, b: b, pos: pos}}
	}
	for i := range a.phis {
		r.phis = append(r.phis, e.x.ite(c, a.phis[i], b.phis[i]))
	}
	for i := range a.rets {
		r.rets = append(r.rets, e.x.ite(c, a.rets[i], b.rets[i]))
	}
	return r
}

func (e *ex) merge(c *E, a, b *mem) *mem {
	r := &mem{v: map[*E]*E{}}
	keys := map[*E]bool{}
	for k := range a.v {
		keys[k] = true
	}
	for k := range b.v {
		keys[k] = true
	}
	for k := range keys {
		if k.op == "born" {
			r.v[k] = e.x.tru
			continue
		}
		va, oka := a.v[k]
		vb, okb := b.v[k]
		if oka && okb && va == vb {
			r.v[k] = va
			continue
		}
		var kk kind
		if oka {
			kk = va.k
		} else {
			kk = vb.k
		}
		if !oka {
			if e.freshIn(k, a, b) {
				r.v[k] = vb
				continue
			}
			va = e.look(a, k, kk, nil)
		}
		if !okb {
			if e.freshIn(k, b, a) {
				r.v[k] = va
				continue
			}
			vb = e.look(b, k, kk, nil)
		}
		r.v[k] = e.x.ite(c, va, vb)
	}
	r.q = append(r.q, a.q...)
	for _, q := range b.q {
		dup := false
		for _, p := range a.q {
			if p == q {
				dup = true
			}
		}
		if !dup {
			r.q = append(r.q, q)
		}
	}
	return r
}

// freshIn reports whether location k lies in an object allocated on the other
// arm only, so that its content on this arm cannot be observed.
func (e *ex) freshIn(k *E, here, other *mem) bool {
	root := k
	for root.op == "fa" || root.op == "ia" {
		root = root.args[0]
	}
	if root.op != "new" {
		return false
	}
	mark := e.x.mk("born", "", kOth, root)
	_, h := here.v[mark]
	_, o := other.v[mark]
	return o && !h
}

func inBlocks(s []*ssa.BasicBlock, b *ssa.BasicBlock) bool {
	for _, x := range s {
		if x == b {
			return true
		}
	}
	return false
}

func (e *ex) phis(fr *frame, s *st, from, to *ssa.BasicBlock) []*E {
	var r []*E
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == from {
				r = append(r, e.val(fr, s, p.Edges[i]))
				break
			}
		}
	}
	return r
}

func (e *ex) bind(fr *frame, b *ssa.BasicBlock, ph []*E) {
	i := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[p] = ph[i]
		i++
	}
}

func (e *ex) val(fr *frame, s *st, v ssa.Value) *E {
	switch v := v.(type) {
	case *ssa.Const:
		if _, ok := v.Type().(*types.TypeParam); ok && v.Value == nil {
			return e.x.zero(v.Type())
		}
		return e.x.constant(v.Value, v.Type())
	case *ssa.Global:
		return e.x.mk("glob", v.Pkg.Pkg.Path()+"."+v.Name(), kOth)
	case *ssa.Function:
		r := e.x.mk("func", v.String(), kOth)
		r.fn = v
		return r
	case *ssa.Builtin:
		return e.x.mk("builtin", v.Name(), kOth)
	}
	r, ok := fr.env[v]
	if !ok {
		giveUp("value %s (%T) not available", v.Name(), v)
	}
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldName(t types.Type, i int) string {
	if s, ok := deref(t).Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("#%d", i)
}

func (e *ex) instr(fr *frame, s *st, in ssa.Instruction) {
	x := e.x
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		p := e.alloc()
		s.m.v[x.mk("born", "", kOth, p)] = x.tru
		fr.env[in] = p
	case *ssa.Store:
		e.store(s.m, e.val(fr, s, in.Addr), e.val(fr, s, in.Val))
	case *ssa.UnOp:
		a := e.val(fr, s, in.X)
		switch in.Op {
		case token.MUL:
			if a.op == "glob" && isErr(in.Type()) {
				fr.env[in] = x.mk("nonnil", a.s, kOth)
				return
			}
			fr.env[in] = e.look(s.m, a, kindOf(in.Type()), in.Type())
		case token.NOT:
			fr.env[in] = x.not(a)
		case token.SUB:
			if k := kindOf(in.Type()); k.cls == 'i' {
				fr.env[in] = x.conv(k, x.sub(x.int(0), x.wide(a)))
			} else {
				fr.env[in] = x.mk("neg", "", k, a)
			}
		case token.XOR:
			k := kindOf(in.Type())
			fr.env[in] = x.conv(k, x.sub(x.int(-1), x.wide(a)))
		default:
			giveUp("unary %s", in.Op)
		}
	case *ssa.BinOp:
		a, b := e.val(fr, s, in.X), e.val(fr, s, in.Y)
		if isErr(in.X.Type()) && (a.op == "nil" || b.op == "nil") {
			o := a
			if a.op == "nil" {
				o = b
			}
			_ = o
		}
		t := in.X.Type()
		r := x.bin(in.Op, a, b, t)
		// strings and unknown comparisons stay as they are
		fr.env[in] = r
	case *ssa.FieldAddr:
		fr.env[in] = x.fa(e.val(fr, s, in.X), fieldName(in.X.Type(), in.Field))
	case *ssa.Field:
		fr.env[in] = x.fld(e.val(fr, s, in.X), fieldName(in.X.Type(), in.Field), kindOf(in.Type()))
	case *ssa.IndexAddr:
		fr.env[in] = x.ia(e.val(fr, s, in.X), e.val(fr, s, in.Index))
	case *ssa.Index:
		fr.env[in] = x.mk("elem", "", kindOf(in.Type()), e.val(fr, s, in.X), x.wide(e.val(fr, s, in.Index)))
	case *ssa.Lookup:
		a, b := e.val(fr, s, in.X), e.val(fr, s, in.Index)
		if in.CommaOk {
			fr.env[in] = x.mk("tup", "", kOth, x.mk("lookup", "", kindOf(in.Type().(*types.Tuple).At(0).Type()), a, b), x.mk("lookupok", "", kBool, a, b))
		} else {
			fr.env[in] = x.mk("lookup", "", kindOf(in.Type()), a, b)
		}
	case *ssa.Slice:
		fr.env[in] = e.slice(fr, s, in)
	case *ssa.MakeSlice:
		n := e.val(fr, s, in.Len)
		if n.isInt() && n.c == 0 {
			fr.env[in] = x.mk("empty", "", kOth)
		} else {
			// one per place: two slices of the same length are two slices
			fr.env[in] = x.mk("zeros", fmt.Sprint(in.Pos()), kOth, x.wide(n))
		}
	case *ssa.MakeClosure:
		var as []*E
		for _, b := range in.Bindings {
			as = append(as, e.val(fr, s, b))
		}
		r := x.mk("closure", in.Fn.String()+in.Fn.(*ssa.Function).RelString(nil), kOth, as...)
		r.fn = in.Fn
		fr.env[in] = r
	case *ssa.MakeInterface:
		v := e.val(fr, s, in.X)
		fr.env[in] = x.mk("mki", in.X.Type().String(), kOth, v)
	case *ssa.ChangeType:
		fr.env[in] = e.val(fr, s, in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = e.val(fr, s, in.X)
	case *ssa.MultiConvert:
		fr.env[in] = x.mk("mconv:"+in.Type().String(), "", kindOf(in.Type()), e.val(fr, s, in.X))
	case *ssa.Convert:
		v := e.val(fr, s, in.X)
		k := kindOf(in.Type())
		if k.cls == 'i' && v.k.cls == 'i' {
			fr.env[in] = x.conv(k, v)
		} else if _, ok := in.Type().(*types.TypeParam); ok || kindOf(in.X.Type()) == kOth && k == kOth {
			fr.env[in] = x.mk("conv:"+in.Type().String(), "", k, v)
		} else {
			fr.env[in] = x.mk("cv", "", k, v)
		}
	case *ssa.TypeAssert:
		v := e.val(fr, s, in.X)
		var r *E
		if v.op == "mki" && v.s == in.AssertedType.String() {
			r = v.args[0]
		} else {
			r = x.mk("ta", in.AssertedType.String(), kindOf(in.AssertedType), v)
		}
		if in.CommaOk {
			r = x.mk("tup", "", kOth, r, x.mk("taok", in.AssertedType.String(), kBool, v))
		}
		fr.env[in] = r
	case *ssa.Extract:
		t := e.val(fr, s, in.Tuple)
		if t.op != "tup" || in.Index >= len(t.args) {
			giveUp("extract from %s", t.op)
		}
		fr.env[in] = t.args[in.Index]
	case *ssa.Call:
		rs := e.doCall(fr, s, &in.Call, in.Pos())
		switch {
		case len(rs) == 1:
			fr.env[in] = rs[0]
		case len(rs) > 1:
			fr.env[in] = x.mk("tup", "", kOth, rs...)
		}
	default:
		giveUp("instruction %T", in)
	}
}

func (e *ex) slice(fr *frame, s *st, in *ssa.Slice) *E {
	x := e.x
	base := e.val(fr, s, in.X)
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok && in.Low == nil && in.High == nil {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok && base.op == "new" && arr.Len() <= 64 {
			var es []*E
			for i := int64(0); i < arr.Len(); i++ {
				es = append(es, e.look(s.m, x.ia(base, x.int(i)), kindOf(arr.Elem()), arr.Elem()))
			}
			if len(es) == 0 {
				return x.mk("empty", "", kOth)
			}
			return x.mk("list", "", kOth, es...)
		}
	}
	as := []*E{base}
	for _, v := range []ssa.Value{in.Low, in.High, in.Max} {
		if v == nil {
			as = append(as, x.mk("none", "", kOth))
		} else {
			as = append(as, e.val(fr, s, v))
		}
	}
	if in.Low == nil && in.High == nil && in.Max == nil {
		return base
	}
	return x.mk("slice", "", kOth, as...)
}

// --- memory

func rootOf(p *E) *E {
	for p.op == "fa" || p.op == "ia" {
		p = p.args[0]
	}
	return p
}

// under reports whether location k lies strictly inside location p.
func under(k, p *E) bool {
	for k.op == "fa" || k.op == "ia" {
		k = k.args[0]
		if k == p {
			return true
		}
	}
	return false
}

func (e *ex) store(m *mem, p, v *E) {
	if p.op == "ite" {
		c := p.args[0]
		e.store(m, p.args[1], e.x.ite(c, v, e.look(m, p.args[1], v.k, nil)))
		e.store(m, p.args[2], e.x.ite(c, e.look(m, p.args[2], v.k, nil), v))
		return
	}
	for k := range m.v {
		if under(k, p) {
			delete(m.v, k)
		}
	}
	if p.op == "ia" && !p.args[1].isInt() {
		for k := range m.v {
			if k.op == "ia" && k != p && k.args[0] == p.args[0] {
				giveUp("stores to several elements of one slice")
			}
		}
	}
	m.v[p] = v
}

func (e *ex) look(m *mem, p *E, k kind, t types.Type) *E {
	x := e.x
	if p.op == "ite" {
		return x.ite(p.args[0], e.look(m, p.args[1], k, t), e.look(m, p.args[2], k, t))
	}
	r := e.lookBase(m, p, k, t)
	// overlay stores to parts
	if k.cls == 'o' || k.cls == 0 {
		subs := map[string]bool{}
		for l := range m.v {
			if under(l, p) {
				q := l
				for q.args[0] != p {
					q = q.args[0]
				}
				if q.op == "fa" {
					subs[q.s] = true
				}
			}
		}
		if len(subs) > 0 {
			var ns []string
			for n := range subs {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			var vs []*E
			for _, n := range ns {
				q := x.fa(p, n)
				kk := kOth
				if v, ok := m.v[q]; ok {
					kk = v.k
				}
				vs = append(vs, e.look(m, q, kk, nil))
			}
			r = x.aggregate(r, ns, vs)
		}
	}
	return r
}

func (e *ex) lookBase(m *mem, p *E, k kind, t types.Type) *E {
	x := e.x
	if v, ok := m.v[p]; ok {
		return v
	}
	// quantified stores, most recent first
	for i := len(m.q) - 1; i >= 0; i-- {
		q := m.q[i]
		if ix, ok := matchIx(x, q.key, p, q.d); ok {
			return x.subst(q.val, map[*E]*E{x.ix(q.d): ix})
		}
	}
	switch p.op {
	case "fa":
		q := p.args[0]
		// content of an enclosing object stored as a whole
		for a := q; ; a = a.args[0] {
			if _, ok := m.v[a]; ok {
				return x.fld(e.lookBase(m, q, kOth, nil), p.s, k)
			}
			if a.op != "fa" && a.op != "ia" {
				if a.op == "new" {
					if t != nil {
						return x.zero(t)
					}
					return x.zeroK(k)
				}
				break
			}
		}
		if rootOf(p).op == "new" {
			if t != nil {
				return x.zero(t)
			}
			return x.zeroK(k)
		}
	case "ia":
		if rootOf(p).op == "new" {
			if t != nil {
				return x.zero(t)
			}
			return x.zeroK(k)
		}
	case "new":
		if t != nil {
			return x.zero(t)
		}
		return x.zeroK(k)
	}
	return x.ld(p, k)
}

// matchIx matches a location against a pattern with binder d.
func matchIx(x *X, pat, p *E, d string) (*E, bool) {
	if pat.op == "ia" && pat.args[1] == x.ix(d) && p.op == "ia" && p.args[0] == pat.args[0] {
		return p.args[1], true
	}
	if pat.op == "fa" && p.op == "fa" && pat.s == p.s {
		return matchIx(x, pat.args[0], p.args[0], d)
	}
	return nil, false
}

// --- calls

func (e *ex) doCall(fr *frame, s *st, cc *ssa.CallCommon, pos token.Pos) []*E {
	x := e.x
	var args []*E
	if cc.IsInvoke() {
		args = append(args, e.val(fr, s, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, e.val(fr, s, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			return []*E{x.len(args[0])}
		case "append":
			if len(args) == 1 {
				return []*E{args[0]}
			}
			return []*E{x.cat(args[0], args[1])}
		case "min", "max":
			var sorted []*E
			sorted = append(sorted, args...)
			sort.Slice(sorted, func(i, j int) bool { return sorted[i].id < sorted[j].id })
			if k := kindOf(cc.Args[0].Type()); len(sorted) == 2 && k.cls == 'i' && !sorted[0].isInt() && !sorted[1].isInt() {
				less := x.lt(sorted[1], sorted[0])
				if bt, ok := cc.Args[0].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
					less = x.ult(sorted[1], sorted[0])
				}
				if b.Name() == "min" {
					return []*E{x.ite(less, sorted[1], sorted[0])}
				}
				return []*E{x.ite(less, sorted[0], sorted[1])}
			}
			return []*E{x.mk("call", b.Name(), kindOf(cc.Args[0].Type()), sorted...)}
		case "cap":
			return []*E{x.mk("cap", "", k64, args[0])}
		case "ssa:wrapnilchk":
			return []*E{args[0]}
		}
		giveUp("builtin %s", b.Name())
	}
	if rs, ok := e.leaf(e, s, fr, cc, args, pos); ok {
		return rs
	}
	var callee *ssa.Function
	var free []*E
	if !cc.IsInvoke() {
		if f := cc.StaticCallee(); f != nil {
			callee = f
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					free = append(free, e.val(fr, s, b))
				}
			}
		} else {
			v := e.val(fr, s, cc.Value)
			if f, ok := v.fn.(*ssa.Function); ok {
				callee = f
				free = v.args
			}
		}
	}
	if callee == nil {
		giveUp("dynamic call %s", cc.String())
	}
	if o := callee.Origin(); o != nil {
		callee = o
	}
	full := callee.String()
	switch full {
	case "fmt.Errorf", "errors.New", "errors.Join":
		return []*E{x.mk("nonnil", full, kOth)}
	}
	pk := fnPkg(callee)
	if pk != nil && len(callee.Blocks) > 0 && (e.inline == nil || e.inline(callee)) && (strings.HasPrefix(pk.Path(), modPath) || strings.HasPrefix(pk.Path(), "gen/")) {
		o := e.call(callee, args, free, s.m)
		switch o.t {
		case "ret":
			s.seq = append(s.seq, unret(o.seq)...)
			s.m = o.m
			return o.rets
		case "reject":
			s.seq = append(s.seq, unret(o.seq)...)
			s.seq = append(s.seq, &node{t: "require", cond: x.fls, pos: pos})
			s.m = o.m
			var rs []*E
			for i := 0; i < callee.Signature.Results().Len(); i++ {
				t := callee.Signature.Results().At(i).Type()
				if isErr(t) {
					rs = append(rs, x.nil_)
				} else {
					rs = append(rs, x.zero(t))
				}
			}
			return rs
		}
		giveUp("call of %s has several outcomes", short(callee))
	}
	// pure library function
	var rs []*E
	sig := callee.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		t := sig.At(i).Type()
		if isErr(t) {
			rs = append(rs, x.nil_)
			continue
		}
		rs = append(rs, x.mk("call", fmt.Sprintf("%s#%d", full, i), kindOf(t), args...))
	}
	for _, a := range args {
		if rootOf(a).op == "new" {
			giveUp("pointer passed to %s", full)
		}
	}
	return rs
}

// unret lets the arms of a called function's branches end where the call
// does, rather than end the caller.
func unret(l []*node) []*node {
	var r []*node
	for _, n := range l {
		if n.t == "if" {
			c := *n
			arm := func(o *out) *out {
				o2 := *o
				o2.seq = unret(o.seq)
				if o2.t == "ret" {
					o2.t = "arrive"
				}
				return &o2
			}
			c.a, c.b = arm(n.a), arm(n.b)
			n = &c
		}
		r = append(r, n)
	}
	return r
}

// --- loops

// loop summarises the natural loop with header h and continues after it.
func (e *ex) loop(fr *frame, h *ssa.BasicBlock, s *st, stops []*ssa.BasicBlock) (*ssa.BasicBlock, *out) {
	x := e.x
	body := fr.info.loops[h]
	lat := fr.info.latches[h]
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	inits := make([]*E, len(phis))
	for i, p := range phis {
		inits[i] = fr.env[p]
	}
	d := fmt.Sprint(e.loopD)
	e.loopD++
	defer func() { e.loopD-- }()
	fr.act[h] = true
	defer func() { delete(fr.act, h) }()

	// the guard
	var guard *ssa.BasicBlock
	if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok && body[h.Succs[0]] != body[h.Succs[1]] {
		_ = iff
		guard = h
	} else if len(lat) == 1 {
		if _, ok := lat[0].Instrs[len(lat[0].Instrs)-1].(*ssa.If); ok {
			guard = lat[0]
		}
	}
	if guard == nil {
		giveUp("loop without a single guard")
	}
	var exit *ssa.BasicBlock
	contIdx := 0
	for i, su := range guard.Succs {
		if !body[su] {
			exit = su
		} else {
			contIdx = i
		}
	}
	if exit == nil {
		giveUp("loop guard does not leave the loop")
	}
	type result struct {
		ph   []*E
		m    *mem
		seq  []*node
		cond *E // continue condition
	}
	one := func(ph []*E, m *mem) result {
		e.bind(fr, h, ph)
		s2 := &st{m: m.clone()}
		if guard == h {
			for _, in := range h.Instrs[:len(h.Instrs)-1] {
				e.instr(fr, s2, in)
			}
			c := e.val(fr, s2, h.Instrs[len(h.Instrs)-1].(*ssa.If).Cond)
			if contIdx == 1 {
				c = x.not(c)
			}
			if len(s2.seq) > 0 {
				giveUp("effects in a loop guard")
			}
			nx := h.Succs[contIdx]
			if nx == h {
				return result{e.phis(fr, s2, h, h), s2.m, nil, c}
			}
			e.bind(fr, nx, e.phis(fr, s2, h, nx))
			o := e.run(fr, nx, s2.m, append([]*ssa.BasicBlock{h}, stops...))
			if o.t != "arrive" || o.at != h {
				giveUp("loop body does not always come back")
			}
			return result{o.phis, o.m, o.seq, c}
		}
		// rotated loop: run up to the latch, evaluate its condition
		var o *out
		g := guard
		if h == g {
			giveUp("loop shape")
		}
		saved := fr.act[h]
		o = e.runTo(fr, h, s2.m, g)
		fr.act[h] = saved
		if o.t != "arrive" || o.at != g {
			giveUp("loop body does not always reach the guard")
		}
		e.bind(fr, g, o.phis)
		s3 := &st{m: o.m}
		for _, in := range g.Instrs[:len(g.Instrs)-1] {
			e.instr(fr, s3, in)
		}
		c := e.val(fr, s3, g.Instrs[len(g.Instrs)-1].(*ssa.If).Cond)
		if contIdx == 1 {
			c = x.not(c)
		}
		return result{e.phis(fr, s3, g, h), s3.m, append(o.seq, s3.seq...), c}
	}
	acc := func(k kind) *E {
		e.nAcc++
		return x.mk("acc", fmt.Sprintf("%s.%d", d, e.nAcc), k)
	}
	newMark := e.nNew
	// pass 1: find induction variables and carried locations
	ph := make([]*E, len(phis))
	for i, p := range phis {
		if inits[i].op == "nil" && isErr(p.Type()) {
			ph[i] = x.nil_
			continue
		}
		ph[i] = acc(kindOf(p.Type()))
	}
	r := one(ph, s.m)
	ixe := x.ix(d)
	ind := make([]bool, len(phis))
	anyInd := false
	for i := range phis {
		if ph[i].op != "acc" {
			continue
		}
		df := x.sub(x.wide(r.ph[i]), x.wide(ph[i]))
		if kindOf(phis[i].Type()).cls == 'i' && df.isInt() && df.c == 1 {
			ind[i] = true
			anyInd = true
		}
	}
	carried := map[*E]*E{}
	for it := 0; ; it++ {
		if it > 4 {
			giveUp("loop does not stabilise")
		}
		for i := range phis {
			if ind[i] {
				ph[i] = x.conv(kindOf(phis[i].Type()), x.add(x.wide(inits[i]), ixe))
			}
		}
		m := s.m.clone()
		for l, a := range carried {
			m.v[l] = a
		}
		r = one(ph, m)
		ch := false
		for l, v := range r.m.v {
			if l.op == "born" || m.v[l] == v || carried[l] != nil {
				continue
			}
			if x.contains(l, ixe) || e.localNew(l, newMark) || x.has(l, func(q *E) bool { return q.op == "acc" && strings.HasPrefix(q.s, d+".") }) {
				continue
			}
			carried[l] = acc(v.k)
			ch = true
		}
		if !ch {
			break
		}
	}
	if !anyInd {
		giveUp("loop without induction variable")
	}
	// iteration count from the guard
	n := e.count(r.cond, ixe, guard != h)
	if n == nil {
		giveUp("loop bound not recognised: %s", r.cond)
	}
	accs := map[*E]bool{}
	for i := range phis {
		if !ind[i] && ph[i].op == "acc" {
			accs[ph[i]] = true
		}
	}
	for _, a := range carried {
		accs[a] = true
	}
	fin := func(a, init, u *E) *E {
		return e.summary(a, init, u, n, d, accs, newMark)
	}
	// the element appended in this iteration, with what was stored into it
	lastElem := func(u *E) *E {
		if u.op == "cat" && accs[u.args[0]] && u.args[1].op == "list" && len(u.args[1].args) == 1 {
			loc := x.ia(u, ixe)
			v := e.look(r.m, loc, u.args[1].args[0].k, nil)
			if v != x.ld(loc, v.k) && !(v.op == "elem") {
				return x.mk("cat", "", kOth, u.args[0], x.mk("list", "", kOth, v))
			}
		}
		return u
	}
	finals := make([]*E, len(phis))
	for i, p := range phis {
		switch {
		case ind[i]:
			finals[i] = x.conv(kindOf(p.Type()), x.add(x.wide(inits[i]), n))
		case ph[i].op != "acc":
			if r.ph[i].op != "nil" {
				finals[i] = x.mk("unk", fmt.Sprint(e.nAcc), kOth)
				e.nAcc++
			} else {
				finals[i] = x.nil_
			}
		default:
			finals[i] = fin(ph[i], inits[i], lastElem(r.ph[i]))
		}
	}
	nm := s.m.clone()
	for l, a := range carried {
		init := e.look(s.m, l, a.k, nil)
		nm.v[l] = fin(a, init, lastElem(r.m.v[l]))
	}
	nm.q = append([]qstore{}, r.m.q...)
	filled := map[*E]*E{}
	for l, v := range r.m.v {
		if l.op == "born" || carried[l] != nil || s.m.v[l] == v || e.localNew(l, newMark) {
			continue
		}
		if x.contains(l, ixe) {
			if x.has(l, func(q *E) bool { return accs[q] }) {
				continue // element of a slice under construction, folded in above
			}
			if x.has(v, func(q *E) bool { return accs[q] }) {
				v = x.mk("unk", fmt.Sprint(e.nAcc), v.k)
				e.nAcc++
			}
			nm.q = append(nm.q, qstore{l, v, n, d})
			if z := l; z.op == "ia" && z.args[0].op == "zeros" {
				// a slice made before the loop: filled by it, or partly so
				z = z.args[0]
				full := x.mk("unk", fmt.Sprint(e.nAcc), kOth)
				e.nAcc++
				if l.args[1] == ixe && n == z.args[0] {
					full = x.mapl(n, v, d)
				}
				filled[z] = full
			}
		}
	}
	for l, v := range nm.v {
		if f := filled[v]; f != nil {
			nm.v[l] = f
		}
	}
	for k, v := range fr.env {
		if f := filled[v]; f != nil {
			fr.env[k] = f
		}
	}
	for i, v := range finals {
		if f := filled[v]; f != nil {
			finals[i] = f
		}
	}
	if len(r.seq) > 0 {
		s.seq = append(s.seq, &node{t: "loop", cnt: n, d: d, body: r.seq, pos: h.Instrs[0].Pos()})
	}
	s.m = nm
	// leave the loop
	if guard == h {
		e.bind(fr, h, finals)
		for _, in := range h.Instrs[:len(h.Instrs)-1] {
			e.instr(fr, s, in)
		}
		ph2 := e.phis(fr, s, h, exit)
		if inBlocks(stops, exit) {
			return nil, &out{t: "arrive", m: s.m, at: exit, phis: ph2}
		}
		e.bind(fr, exit, ph2)
		return exit, nil
	}
	var ph2 []*E
	for _, in := range exit.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range exit.Preds {
			if pr != guard {
				continue
			}
			ed := p.Edges[i]
			v := (*E)(nil)
			for j, hp := range phis {
				for q, hpr := range h.Preds {
					if hpr == guard && hp.Edges[q] == ed {
						v = finals[j]
					}
				}
			}
			if v == nil {
				v = e.val(fr, s, ed)
				if x.contains(v, ixe) || x.has(v, func(q *E) bool { return accs[q] }) {
					giveUp("value leaves a rotated loop")
				}
			}
			ph2 = append(ph2, v)
		}
	}
	if inBlocks(stops, exit) {
		return nil, &out{t: "arrive", m: s.m, at: exit, phis: ph2}
	}
	e.bind(fr, exit, ph2)
	return exit, nil
}

// runTo runs from h to block g inside a loop.
func (e *ex) runTo(fr *frame, h *ssa.BasicBlock, m *mem, g *ssa.BasicBlock) *out {
	return e.run(fr, h, m, []*ssa.BasicBlock{g})
}

func (e *ex) localNew(l *E, mark int) bool {
	r := rootOf(l)
	if r.op != "new" {
		return false
	}
	var id int
	fmt.Sscan(r.s, &id)
	return id > mark
}

// count recognises ix + c < N (or its rotated form) and returns N - c.
func (e *ex) count(c, ix *E, rotated bool) *E {
	x := e.x
	if c.op == "not" {
		// !(N < ix+c)  is ix+c <= N
		if i := c.args[0]; i.op == "lt" || i.op == "ult" {
			a, b := i.args[1], i.args[0]
			ca, ma := linOf(a)
			if ma[ix] == 1 && !x.contains(b, ix) {
				delete(ma, ix)
				n := x.add(x.sub(b, x.lin(ca, ma)), x.int(1))
				if rotated {
					n = x.add(n, x.int(1))
				}
				return n
			}
		}
		return nil
	}
	if c.op != "lt" && c.op != "ult" {
		return nil
	}
	a, b := c.args[0], c.args[1]
	ca, ma := linOf(a)
	if ma[ix] != 1 || x.contains(b, ix) {
		return nil
	}
	delete(ma, ix)
	n := x.sub(b, x.lin(ca, ma))
	if rotated {
		n = x.add(n, x.int(1))
	}
	return n
}

// summary closes the recurrence a' = u over n iterations.
func (e *ex) summary(a, init, u, n *E, d string, accs map[*E]bool, mark int) *E {
	x := e.x
	ix := x.ix(d)
	hasAcc := func(v *E) bool { return x.has(v, func(q *E) bool { return accs[q] }) }
	fresh := func() *E { e.nAcc++; return x.mk("unk", fmt.Sprint(e.nAcc), a.k) }
	if x.has(u, func(q *E) bool { return q.op == "new" && e.localNew(q, mark) }) {
		return fresh()
	}
	if u == a {
		return init
	}
	if !hasAcc(u) {
		if !x.contains(u, ix) {
			return x.ite(x.lt(x.int(0), n), u, init)
		}
		return x.ite(x.lt(x.int(0), n), x.subst(u, map[*E]*E{ix: x.sub(n, x.int(1))}), init)
	}
	if a.k.cls == 'i' && a.k.w == 64 {
		if df := x.sub(u, a); !hasAcc(df) {
			return x.add(init, x.sum(n, df, d))
		}
	}
	if u.op == "cat" && u.args[0] == a && !hasAcc(u.args[1]) && u.args[1].op == "list" && len(u.args[1].args) == 1 {
		return x.cat(init, x.mapl(n, u.args[1].args[0], d))
	}
	only := true
	x.has(u, func(q *E) bool {
		if accs[q] && q != a {
			only = false
		}
		return false
	})
	if only {
		c := x.mk("facc", d, a.k)
		return x.fold(n, init, x.subst(u, map[*E]*E{a: c}), d, a.k)
	}
	return fresh()
}
