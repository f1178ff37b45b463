package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- the runtime's arrays, over any element traits

func isPackedTraits(t types.Type) bool {
	n := namedOf(t)
	return n != nil && strings.Contains(n.Obj().Name(), "Packed")
}

func (l *lay) runtimeInvoke(e *ex, s *st, cc *ssa.CallCommon, name string, args []*E, add func(*node)) ([]*E, bool) {
	return l.traitOp(e, s, name, isPackedTraits(cc.Value.Type()), cc.Method.Type().(*types.Signature).Results(), args, add)
}

// traitOp is the effect of a method of element traits (args[0]).
func (l *lay) traitOp(e *ex, s *st, name string, packed bool, res *types.Tuple, args []*E, add func(*node)) ([]*E, bool) {
	x := l.x
	nilE := x.nil_
	tr := l.normTraits(args[0])
	if packed {
		tr = x.nil_ // one packed traits value per array, made from its traits
	}
	kind := "Elem"
	if packed {
		kind = "PElem"
	}
	k0 := kOth
	if res != nil && res.Len() > 0 {
		k0 = kindOf(res.At(0).Type())
	}
	switch name {
	case "PackedTraits":
		return []*E{x.mk("ptraits", "", kOth, tr)}, true
	case "BitSizeOfIsConstant":
		return []*E{x.mk("econst", "", kBool, tr)}, true
	case "AsUint64":
		return []*E{x.mk("asu", "", kind64u, args[1])}, true
	case "FromUint64":
		return []*E{x.mk("fromu", "", kOth, args[1])}, true
	case "CreateContext":
		l.nctx++
		c := x.mk("new", fmt.Sprintf("ctx%d", l.nctx), kOth)
		add(&node{t: "op", dir: "w", kind: "NewCtx", val: c})
		return []*E{c, nilE}, true
	case "InitContext":
		add(&node{t: "op", dir: "i", kind: kind, args: []*E{args[1]}, val: args[2], obj: args[2]})
		return []*E{nilE}, true
	case "Write":
		n := &node{t: "op", dir: "w", kind: kind, args: []*E{tr}, val: args[len(args)-1], obj: args[len(args)-1]}
		if packed {
			n.args = []*E{args[1]}
		}
		add(n)
		return []*E{nilE}, true
	case "Read":
		n := &node{t: "op", dir: "r", kind: kind, args: []*E{tr}}
		if packed {
			n.args = []*E{args[1]}
		}
		if res.Len() == 1 { // into an object
			n.obj = args[len(args)-1]
			n.val = e.res(kOth)
			e.store(s.m, n.obj, n.val)
			add(n)
			return []*E{nilE}, true
		}
		n.val = e.res(k0)
		add(n)
		return []*E{n.val, nilE}, true
	case "BitSizeOf":
		if packed {
			add(&node{t: "op", dir: "s", kind: kind, args: []*E{args[1]}, val: args[3], obj: args[3]})
			return []*E{x.mk("pesize", "", k64, args[1], x.wide(args[2]), args[3]), nilE}, true
		}
		return []*E{x.mk("esize", "", k64, tr, args[1], x.wide(args[2]))}, true
	}
	return nil, false
}

var kind64u = kind{'i', 64, false}

func (l *lay) runtimeDynamic(e *ex, s *st, cc *ssa.CallCommon, args []*E, add func(*node)) ([]*E, bool) {
	switch n := namedOf(cc.Value.Type()); {
	case n != nil && n.Obj().Name() == "OffsetMethod":
		// called with a position, to note or check it; touches no stream
		return nil, true
	case n == nil && len(args) == 2 && cc.Signature().Results().Len() == 0:
		add(&node{t: "op", dir: "p", kind: "SetParam", args: []*E{args[0]}, val: args[1], obj: args[1]})
		return nil, true
	}
	return nil, false
}

// rtMethod finds a method of a type of the runtime.
func (w *World) rtMethod(typ, name string) *ssa.Function {
	for _, p := range w.Pkgs {
		if p.PkgPath != modPath+"/ztype" {
			continue
		}
		o := p.Types.Scope().Lookup(typ)
		if o == nil {
			return nil
		}
		n, _ := o.Type().(*types.Named)
		if n == nil {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == name {
				return w.Prog.FuncValue(n.Method(i))
			}
		}
	}
	return nil
}

type rtArray struct {
	w      *World
	s      *session
	object bool
	name   string
}

func newRtArray(w *World, object bool) *rtArray {
	x := newX()
	l := &lay{w: w, x: x, params: map[string][]string{}, runtime: true}
	l.abstract = func(f *ssa.Function) bool {
		n := namedOf(f.Signature.Recv().Type())
		return n != nil && strings.HasSuffix(n.Obj().Name(), "Traits")
	}
	e := &ex{x: x, w: w, leaf: l.leaf}
	a := &rtArray{w: w, s: &session{l, x, e, nil, map[*E]*E{}}, object: object, name: "Array"}
	if object {
		a.name = "ObjectArray"
	}
	return a
}

// run summarises an operation of the array value a; the fixed size of an
// array that is not of automatic size is its number of elements, which the
// generated code ensures.
func (a *rtArray) run(method string, packed *E) (*out, error) {
	fn := a.w.rtMethod(a.name, method)
	if fn == nil {
		return nil, fmt.Errorf("no method %s.%s", a.name, method)
	}
	x := a.s.x
	if packed == nil {
		packed = x.mk("p", "packed", kBool)
	}
	a.s.l.nctx = 0
	v := a.v()
	elems := x.mk("p", "elements", kOth)
	raw := a.raw()
	var args []*E
	for i, p := range fn.Params {
		switch k := kindOf(p.Type()); {
		case i == 0:
			args = append(args, v)
		case isRW(p.Type()) != "":
			args = append(args, x.mk("p", "stream", kOth))
		case k.cls == 'i':
			args = append(args, x.mk("p", "pos", k64))
		default:
			args = append(args, elems)
		}
	}
	auto := x.mk("p", "auto", kBool)
	return a.s.e.summarise(fn, args, func(m *mem) {
		m.v[x.fa(v, "IsAuto")] = auto
		m.v[x.fa(v, "FixedSize")] = x.ite(auto, x.mk("p", "anyFixed", k64), x.len(raw))
		m.v[x.fa(v, "IsPacked")] = packed
		m.v[x.fa(v, "ArrayTraits")] = x.mk("p", "traits", kOth)
		m.v[x.fa(v, "checkOffsetMethod")] = x.nil_
		m.v[x.fa(v, "setOffsetMethod")] = x.nil_
		m.v[x.fa(v, "SetCompoundParameterFn")] = x.mk("p", "paramfn", kOth)
		if !a.object && !strings.HasPrefix(method, "Unmarshal") {
			m.v[x.fa(v, "RawArray")] = raw
		}
	})
}

func dumpNodes(l []*node, ind string) {
	for _, n := range l {
		s := fmt.Sprintf("%s%s %s %s", ind, n.t, n.dir, n.kind)
		for _, a := range n.args {
			s += " " + cut(a.String(), 150)
		}
		if n.val != nil {
			s += " val=" + cut(n.val.String(), 150)
		}
		if n.obj != nil {
			s += " obj=" + cut(n.obj.String(), 150)
		}
		if n.cond != nil {
			s += " cond=" + cut(n.cond.String(), 150)
		}
		if n.cnt != nil {
			s += " cnt=" + cut(n.cnt.String(), 100)
		}
		for _, r := range n.rets {
			s += " ret=" + cut(r.String(), 300)
		}
		fmt.Println(s)
		if n.t == "loop" {
			dumpNodes(n.body, ind+"  ")
		}
		if n.t == "if" {
			dumpNodes(flat(n.a), ind+"  ")
			fmt.Println(ind + "else")
			dumpNodes(flat(n.b), ind+"  ")
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + ".."
	}
	return s
}

func (a *rtArray) v() *E { return a.s.x.mk("p", "a", kOth) }
func (a *rtArray) raw() *E {
	if a.object {
		return a.s.x.mk("p", "elements", kOth)
	}
	return a.s.x.mk("p", "raw", kOth)
}

// nothing: the assumption that an array is empty, or not.
func (a *rtArray) empty(env *envt, is bool) {
	x := a.s.x
	env.assume(x.lt(x.int(0), x.len(a.raw())), !is)
	env.assume(x.eq(x.len(a.raw()), x.int(0)), is)
	if is {
		env.a[x.len(a.raw())] = x.int(0)
		env.a[a.raw()] = x.mk("empty", "", kOth)
	}
}

// mirror decides whether reading an array mirrors writing it.
func (a *rtArray) mirror() (why string, ops int, err error) {
	err = guarded(func() error {
		eo, err := a.run("MarshalZserio", nil)
		if err != nil {
			return err
		}
		do, err := a.run("UnmarshalZserio", nil)
		if err != nil {
			return err
		}
		x := a.s.x
		for _, is := range []bool{true, false} {
			c := &cmp{l: a.s.l, x: x, e: a.s.e, budget: 20000, enc: a.v(), dec: a.v()}
			c.final = func(c *cmp, env *envt, m *mem, _ []*E) string {
				var got *E
				if a.object {
					// an object is written and read through a pointer to it, so
					// the list of what was read is one of pointers
					got = env.simp(c.yrets[0])
					if got.op == "mapl" && got.args[0] == x.len(a.raw()) && got.args[1] == x.ia(a.raw(), x.ix(got.s)) {
						got = a.raw()
					}
				} else {
					got = a.s.e.look(m, x.fa(a.v(), "RawArray"), kOth, nil)
				}
				if !c.eqUnder(got, a.raw(), env, 30) {
					return "the elements read are not the elements written: " + cut(c.diff, 300)
				}
				return ""
			}
			env := newEnv(x)
			a.empty(env, is)
			if why = c.match(flat(eo), flat(do), env); why != "" {
				return nil
			}
			ops += c.ops
		}
		if a.object {
			why = a.paramsFirst(flat(do), map[*E]bool{})
		}
		return nil
	})
	return
}

// paramsFirst: an element's parameters are set before it is read.
func (a *rtArray) paramsFirst(l []*node, set map[*E]bool) string {
	x := a.s.x
	env := newEnv(x)
	env.assume(x.eq(x.mk("p", "paramfn", kOth), x.nil_), false)
	for _, n := range l {
		switch n.t {
		case "op":
			if n.kind == "SetParam" {
				if n.args[0] != x.ix("0") {
					return "the parameter function is called with an index that is not the element's"
				}
				set[n.obj] = true
			}
			if n.dir == "r" && n.obj != nil && (n.kind == "Elem" || n.kind == "PElem") && !set[n.obj] {
				return a.w.relPos(n.pos) + ": an element is read before its parameters are set"
			}
		case "if":
			c := env.simp(n.cond)
			switch c {
			case x.tru, x.fls:
				arm := n.a
				if c == x.fls {
					arm = n.b
				}
				if w := a.paramsFirst(flat(arm), set); w != "" {
					return w
				}
			default:
				s1, s2 := map[*E]bool{}, map[*E]bool{}
				for k := range set {
					s1[k], s2[k] = true, true
				}
				if w := a.paramsFirst(flat(n.a), s1); w != "" {
					return w
				}
				if w := a.paramsFirst(flat(n.b), s2); w != "" {
					return w
				}
				for k := range s1 {
					if s2[k] {
						set[k] = true
					}
				}
			}
		case "loop":
			if w := a.paramsFirst(n.body, set); w != "" {
				return w
			}
		}
	}
	return ""
}

// filter keeps the operations pred holds for.
func filter(l []*node, pred func(*node) bool) []*node {
	var r []*node
	for _, n := range l {
		switch n.t {
		case "op":
			if pred(n) {
				r = append(r, n)
			}
		case "if":
			c := *n
			c.a = filterOut(n.a, pred)
			c.b = filterOut(n.b, pred)
			r = append(r, &c)
		case "loop":
			c := *n
			c.body = filter(n.body, pred)
			if len(c.body) > 0 {
				r = append(r, &c)
			}
		default:
			r = append(r, n)
		}
	}
	return r
}

func filterOut(o *out, pred func(*node) bool) *out {
	c := *o
	c.seq = filter(o.seq, pred)
	if o.t == "branch" {
		c.a, c.b = filterOut(o.a, pred), filterOut(o.b, pred)
	}
	return &c
}

// initFirst decides whether every element handled through a packing context
// (dir) was introduced to it, all of them before the first is handled.
func (a *rtArray) initFirst(method, dir string) (why string, ops int, err error) {
	err = guarded(func() error {
		x := a.s.x
		o, err := a.run(method, x.tru)
		if err != nil {
			return err
		}
		is := func(d string) func(*node) bool {
			return func(n *node) bool { return n.kind == "PElem" && n.dir == d }
		}
		l := flat(o)
		for _, e := range []bool{true, false} {
			c := &cmp{l: a.s.l, x: x, e: a.s.e, budget: 20000, same: true}
			c.keep = func(n *node) bool { return true }
			env := newEnv(x)
			a.empty(env, e)
			if w := c.match(filter(l, is(dir)), filter(l, is("i")), env); w != "" {
				why = "elements are not introduced to the packing context as they are handled: " + w
				return nil
			}
			ops += c.ops
		}
		// order
		n, last, first := 0, -1, -1
		var walk func(l []*node)
		walk = func(l []*node) {
			for _, k := range l {
				n++
				switch k.t {
				case "op":
					if is("i")(k) {
						last = n
					}
					if is(dir)(k) && first < 0 {
						first = n
					}
				case "if":
					walk(flat(k.a))
					walk(flat(k.b))
				case "loop":
					f0, l0 := first, last
					walk(k.body)
					if l0 != last && f0 != first {
						first = n
						last = n + 1 // interleaved
					}
				}
			}
		}
		walk(l)
		if first >= 0 && last > first {
			why = method + ": elements are handled before all are introduced to the packing context"
		}
		return nil
	})
	return
}

// size decides whether method sm reports the bits MarshalZserio writes.
func (a *rtArray) size(sm string, packed *E) (why string, err error) {
	err = guarded(func() error {
		x := a.s.x
		mp := packed
		if sm == "ZserioBitSizePacked" {
			mp = x.tru
		}
		eo, err := a.run("MarshalZserio", mp)
		if err != nil {
			return err
		}
		so, err := a.run(sm, packed)
		if err != nil {
			return err
		}
		pos := x.mk("p", "pos", k64)
		var req []*E
		want := x.sub(a.s.endPos(flat(eo), pos, &req), pos)
		got := a.s.retVal(so)
		for _, is := range []bool{true, false} {
			for _, constant := range []bool{true, false} {
				env := newEnv(x)
				a.empty(env, is)
				// BitSizeOfIsConstant: the size of an element is the same for all
				sizes := map[*E]*E{}
				var flags []*E
				for _, e := range []*E{want, got} {
					x.has(e, func(q *E) bool {
						if q.op == "esize" {
							sizes[q] = x.mk("esize0", "", k64, q.args[0])
						}
						if q.op == "econst" {
							flags = append(flags, q)
						}
						return false
					})
				}
				for _, f := range flags {
					env.assume(f, constant)
				}
				p, q := want, got
				if constant {
					p, q = x.subst(p, sizes), x.subst(q, sizes)
				}
				c := &cmp{l: a.s.l, x: x, e: a.s.e, budget: 20000}
				if !c.eqUnder(p, q, env, 40) {
					why = fmt.Sprintf("bits written minus bits reported by %s: %s", sm, cut(c.diff, 500))
					return nil
				}
			}
		}
		return nil
	})
	return
}

// --- element traits

type rtTraits struct {
	w    *World
	n    *types.Named
	s    *session
	elem types.Type
}

func (w *World) traitTypes() []*types.Named {
	var out []*types.Named
	for _, p := range w.Pkgs {
		if p.PkgPath != modPath+"/ztype" {
			continue
		}
		for _, nm := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			has := map[string]bool{}
			for i := 0; i < n.NumMethods(); i++ {
				has[n.Method(i).Name()] = true
			}
			if has["Read"] && has["Write"] && has["BitSizeOf"] && (has["PackedTraits"] || has["CreateContext"]) {
				out = append(out, n)
			}
		}
	}
	return out
}

func newRtTraits(w *World, n *types.Named) *rtTraits {
	x := newX()
	l := &lay{w: w, x: x, params: map[string][]string{}, runtime: true, delta: true}
	e := &ex{x: x, w: w, leaf: l.leaf}
	return &rtTraits{w: w, n: n, s: &session{l, x, e, nil, map[*E]*E{}}}
}

func (t *rtTraits) run(method string) (*out, error) {
	var fn *ssa.Function
	for i := 0; i < t.n.NumMethods(); i++ {
		if t.n.Method(i).Name() == method {
			fn = t.w.Prog.FuncValue(t.n.Method(i))
		}
	}
	if fn == nil {
		return nil, fmt.Errorf("no method %s.%s", t.n.Obj().Name(), method)
	}
	x := t.s.x
	var args []*E
	for i, p := range fn.Params {
		switch k := kindOf(p.Type()); {
		case i == 0:
			args = append(args, x.mk("p", "traits", kOth))
		case isRW(p.Type()) == "PackingContextNode":
			args = append(args, x.mk("p", "ctx", kOth))
		case isRW(p.Type()) != "":
			args = append(args, x.mk("p", "stream", kOth))
		case types.Identical(p.Type(), types.Typ[types.Int]):
			args = append(args, x.mk("p", "pos", k64))
		default:
			args = append(args, x.mk("p", "v", k))
		}
	}
	// value and pointer receivers name the same traits
	return t.s.e.summarise(fn, args, nil)
}

func (t *rtTraits) check(c *Ctx) {
	x := t.s.x
	name := t.n.Obj().Name()
	pos := t.w.relPos(t.n.Obj().Pos())
	decide := func(rule string, f func() (string, error)) {
		var why string
		err := guarded(func() (e error) { why, e = f(); return })
		if err != nil {
			c.undecided(name+" "+rule, err)
			return
		}
		c.Check(why == "", rule, name, pos, "%s", why)
	}
	packed := isPackedTraits(t.n)
	// Traits for a bit field whose width is known at run time only convert
	// between signed and unsigned on the way; C09 decides them, width by width.
	_, dyn := t.n.Underlying().(*types.Struct)
	dyn = dyn && !packed && t.hasIntField()
	decide("traits-mirror", func() (string, error) {
		eo, err := t.run("Write")
		if err != nil {
			return "", err
		}
		do, err := t.run("Read")
		if err != nil {
			return "", err
		}
		k := &cmp{l: t.s.l, x: x, e: t.s.e, budget: 2000}
		if dyn {
			k.uns = true
		}
		k.final = func(k *cmp, env *envt, m *mem, _ []*E) string {
			if len(k.yrets) == 2 && !dyn {
				if got := env.simp(k.yrets[0]); stripRound(x, got).s != "v" {
					return fmt.Sprintf("Read returns %s for the element written", cut(got.String(), 200))
				}
			}
			return ""
		}
		w := k.match(flat(eo), flat(do), newEnv(x))
		c.Count("operations_matched", k.ops)
		if w == "" && k.ops == 0 {
			w = "Write writes nothing"
		}
		return w, nil
	})
	decide("traits-size", func() (string, error) {
		eo, err := t.run("Write")
		if err != nil {
			return "", err
		}
		so, err := t.run("BitSizeOf")
		if err != nil {
			return "", err
		}
		p := x.mk("p", "pos", k64)
		var req []*E
		end := t.s.endPos(flat(eo), p, &req)
		got := t.s.retVal(so)
		if end == nil || got == nil {
			return "", nil
		}
		k := &cmp{l: t.s.l, x: x, e: t.s.e, budget: 2000}
		if !k.eqUnder(x.sub(end, p), got, newEnv(x), 20) {
			return "bits written by Write minus BitSizeOf: " + cut(k.diff, 300), nil
		}
		return "", nil
	})
	if packed {
		decide("traits-init", func() (string, error) {
			eo, err := t.run("Write")
			if err != nil {
				return "", err
			}
			io, err := t.run("InitContext")
			if err != nil {
				return "", err
			}
			k := &cmp{l: t.s.l, x: x, e: t.s.e, budget: 2000, same: true}
			k.keep = func(*node) bool { return true }
			w := k.match(flat(eo), flat(io), newEnv(x))
			if w == "" && k.ops == 0 {
				w = "InitContext introduces nothing"
			}
			return w, nil
		})
		return
	}
	decide("traits-constant-size", func() (string, error) {
		co, err := t.run("BitSizeOfIsConstant")
		if err != nil {
			return "", err
		}
		so, err := t.run("BitSizeOf")
		if err != nil {
			return "", err
		}
		is, got := t.s.retVal(co), t.s.retVal(so)
		if is == x.fls {
			return "", nil
		}
		if is != x.tru {
			giveUp("constant size %s", is)
		}
		if x.has(got, func(q *E) bool { return q.op == "p" && (q.s == "v" || q.s == "pos") }) {
			return "the size is declared constant but depends on " + cut(got.String(), 200), nil
		}
		return "", nil
	})
	if rd := t.w.rtMethod(name, "Read"); dyn || rd == nil || rd.Signature.Results().Len() == 1 {
		return
	}
	decide("traits-uint64", func() (string, error) {
		po, err := t.run("PackedTraits")
		if err != nil {
			return "", err
		}
		pt := t.s.retVal(po)
		if pt == x.nil_ {
			return "", nil
		}
		if pt.op != "mki" {
			giveUp("packed traits %s", pt)
		}
		ao, err := t.run("AsUint64")
		if err != nil {
			return "", err
		}
		fo, err := t.run("FromUint64")
		if err != nil {
			return "", err
		}
		a, f := t.s.retVal(ao), t.s.retVal(fo)
		var arg *E
		x.has(f, func(q *E) bool {
			if q.op == "p" && q.s == "v" {
				arg = q
			}
			return false
		})
		if arg == nil {
			return "FromUint64 ignores its argument", nil
		}
		back := stripRound(x, x.subst(f, map[*E]*E{arg: a}))
		if back.op != "p" || back.s != "v" {
			return "FromUint64(AsUint64(v)) is " + cut(back.String(), 200), nil
		}
		return "", nil
	})
}

// hasIntField: the traits carry a width.
func (t *rtTraits) hasIntField() bool {
	st, ok := t.n.Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return true
		}
	}
	return false
}

// stripRound removes conversions of a type parameter's value to 64 bits and
// back.
func stripRound(x *X, e *E) *E {
	for {
		switch {
		case strings.HasPrefix(e.op, "mconv:") && len(e.args) == 1:
			in := e.args[0]
			if strings.HasPrefix(in.op, "mconv:") && in.k.cls == 'i' && in.k.w == 64 && len(in.args) == 1 {
				e = in.args[0]
				continue
			}
			if in.op == "cv" && len(in.args) == 1 && in.args[0].k.cls == 'i' && in.args[0].k.w == 64 && in.k.w == 64 {
				e = x.mk(e.op, "", e.k, in.args[0])
				continue
			}
		}
		return e
	}
}

func init() {
	register(&Property{ID: "C07", Gen: true,
		Explain: "The runtime's array operations are summarised by gated value numbering over their generic SSA form, for any element traits: an ordered tree of element operations, contexts created, and the resulting list or size. Reading is compared with writing, sizes with what is written, and the elements introduced to packing contexts with those handled through them; then each element traits' own operations are compared with each other.",
		Run: func(c *Ctx) error {
			c.blobs()
			c.Rule("array-mirror", "reading an array reads its size and elements, aligned and packed as they were written, into the same list, parameters set first", 2)
			c.Rule("array-size", "the size of an array is the bits writing it takes", 4)
			c.Rule("array-init", "every element is introduced to the packing context before any is written or sized", 4)
			c.Rule("traits-mirror", "reading an element mirrors writing it and returns the same value", 20)
			c.Rule("traits-size", "the size of an element is the bits writing it takes", 20)
			c.Rule("traits-init", "introducing an element to a packing context introduces what is written through it", 2)
			c.Rule("traits-constant-size", "a size declared constant depends on neither element nor position", 15)
			c.Rule("traits-uint64", "traits that support delta packing convert to 64 bits and back without loss", 10)
			for _, object := range []bool{false, true} {
				a := newRtArray(c.World, object)
				pos := ""
				if fn := c.World.rtMethod(a.name, "MarshalZserio"); fn != nil {
					pos = c.World.relPos(fn.Pos())
				}
				decide := func(rule, key string, f func() (string, int, error)) {
					why, ops, err := f()
					if err != nil {
						c.undecided(a.name+" "+rule, err)
						return
					}
					c.Count("operations_matched", ops)
					c.Check(why == "", rule, key, pos, "%s", why)
				}
				decide("array-mirror", a.name, a.mirror)
				for _, m := range []string{"ZserioBitSize", "ZserioBitSizePacked"} {
					m := m
					decide("array-size", a.name+"."+m, func() (string, int, error) {
						for _, p := range []*E{a.s.x.tru, a.s.x.fls} {
							if w, err := a.size(m, p); w != "" || err != nil {
								return w, 0, err
							}
						}
						return "", 0, nil
					})
				}
				decide("array-init", a.name+".MarshalZserio", func() (string, int, error) { return a.initFirst("MarshalZserio", "w") })
				decide("array-init", a.name+".ZserioBitSizePacked", func() (string, int, error) { return a.initFirst("ZserioBitSizePacked", "s") })
			}
			for _, n := range c.World.traitTypes() {
				newRtTraits(c.World, n).check(c)
				c.Count("traits", 1)
			}
			return nil
		}})
}
