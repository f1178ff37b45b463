package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- delta packing contexts

type rtDelta struct {
	w *World
	s *session
}

func newRtDelta(w *World) *rtDelta {
	x := newX()
	l := &lay{w: w, x: x, params: map[string][]string{}, runtime: true}
	l.abstract = func(f *ssa.Function) bool { return false }
	e := &ex{x: x, w: w, leaf: l.leaf}
	return &rtDelta{w, &session{l, x, e, nil, map[*E]*E{}}}
}

// dstate is the state of a context on entry; nil fields are symbols.
type dstate struct {
	started, packed, m, prev *E
}

func (t *rtDelta) sym() dstate {
	x := t.s.x
	return dstate{x.mk("p", "started", kBool), x.mk("p", "packed", kBool), x.mk("p", "M", k64), x.mk("p", "prev", kOth)}
}

type dfields struct{ started, packed, m, prev string }

// fields finds which field of a context plays which part: the one of pointer
// type is the previous element; a first element is announced by a Bool, the
// decision, and a width.
func (t *rtDelta) fields() dfields {
	f := dfields{"processingStarted", "isPacked", "maxBitNumber", "previousElement"}
	fn := t.w.rtMethod("DeltaContext", "Init")
	if fn == nil {
		giveUp("no DeltaContext.Init")
	}
	st, ok := namedOf(fn.Params[0].Type()).Underlying().(*types.Struct)
	if !ok {
		giveUp("DeltaContext is not a struct")
	}
	has := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		has[st.Field(i).Name()] = true
	}
	for _, n := range []string{f.started, f.packed, f.m, f.prev} {
		if !has[n] {
			giveUp("DeltaContext has no field %s", n)
		}
	}
	return f
}

func (t *rtDelta) v() *E    { return t.s.x.mk("p", "v", kOth) }
func (t *rtDelta) prev() *E { return t.s.x.mk("p", "P", kind64u) }
func (t *rtDelta) asu() *E  { return t.s.x.mk("asu", "", kind64u, t.v()) }

// run summarises a method of a context in state d.
func (t *rtDelta) run(method string, d dstate) (*out, error) {
	fn := t.w.rtMethod("DeltaContext", method)
	if fn == nil {
		return nil, fmt.Errorf("no method DeltaContext.%s", method)
	}
	f := t.fields()
	x := t.s.x
	var args []*E
	for i, p := range fn.Params {
		switch k := kindOf(p.Type()); {
		case i == 0:
			args = append(args, x.mk("p", "ctx", kOth))
		case isRW(p.Type()) != "":
			args = append(args, x.mk("p", "stream", kOth))
		case types.IsInterface(p.Type()) && strings.HasSuffix(namedStr(p.Type()), "Traits"):
			args = append(args, x.mk("p", "traits", kOth))
		case k.cls == 'i':
			args = append(args, x.mk("p", "pos", k64))
		default:
			args = append(args, t.v())
		}
	}
	return t.s.e.summarise(fn, args, func(m *mem) {
		m.v[x.fa(args[0], f.started)] = d.started
		m.v[x.fa(args[0], f.packed)] = d.packed
		m.v[x.fa(args[0], f.m)] = d.m
		m.v[x.fa(args[0], f.prev)] = d.prev
		if d.prev.op == "p" {
			m.v[d.prev] = t.prev()
		}
	})
}

// post is what g sees of the memory a method leaves behind.
func (t *rtDelta) post(o *out, g func(m *mem) *E) *E {
	switch o.t {
	case "ret":
		return g(o.m)
	case "branch":
		p, q := t.post(o.a, g), t.post(o.b, g)
		if p == nil {
			return q
		}
		if q == nil {
			return p
		}
		return t.s.x.ite(o.cond, p, q)
	}
	return nil
}

// after is the state a method leaves, prev being the previous element itself.
func (t *rtDelta) after(o *out) dstate {
	f := t.fields()
	x := t.s.x
	ctx := x.mk("p", "ctx", kOth)
	get := func(n string, k kind) *E {
		return t.post(o, func(m *mem) *E { return t.s.e.look(m, x.fa(ctx, n), k, nil) })
	}
	d := dstate{get(f.started, kBool), get(f.packed, kBool), get(f.m, k64), nil}
	d.prev = t.post(o, func(m *mem) *E {
		return t.deref(m, t.s.e.look(m, x.fa(ctx, f.prev), kOth, nil))
	})
	for _, e := range []*E{d.started, d.packed, d.m, d.prev} {
		if e == nil {
			giveUp("no state after")
		}
	}
	return d
}

func (t *rtDelta) deref(m *mem, p *E) *E {
	switch p.op {
	case "ite":
		return t.s.x.ite(p.args[0], t.deref(m, p.args[1]), t.deref(m, p.args[2]))
	case "nil":
		return t.s.x.mk("p", "none", kind64u)
	}
	return t.s.e.look(m, p, kind64u, nil)
}

// dcase is a class of states a context can be in.
type dcase struct {
	name string
	w, r dstate // as the writer and as the reader hold it
	env  *envt
	sub  map[*E]*E
}

func (t *rtDelta) cases() []dcase {
	x := t.s.x
	s := t.sym()
	zero := dstate{x.fls, x.fls, x.int(0), x.nil_}
	pos := func() *envt {
		e := newEnv(x)
		e.assume(x.eq(s.prev, x.nil_), false)
		return e
	}
	m := pos()
	m.assume(x.lt(x.int(0), s.m), true)
	m.assume(x.eq(s.m, x.int(0)), false)
	m.assume(x.lt(s.m, x.int(1)), false)
	w0 := s
	w0.started = x.fls
	st := func(p, m *E) dstate { return dstate{x.tru, p, m, s.prev} }
	plain := st(x.fls, s.m)
	plainR := st(x.fls, x.mk("p", "Mr", k64))
	return []dcase{
		{"first element", w0, zero, newEnv(x), nil},
		{"packed, width 0", st(x.tru, x.int(0)), st(x.tru, x.int(0)), pos(), map[*E]*E{t.asu(): t.prev()}},
		{"packed, width above 0", st(x.tru, s.m), st(x.tru, s.m), m, nil},
		{"not packed", plain, plainR, pos(), nil},
	}
}

func (t *rtDelta) eq(p, q *E, d dcase, env *envt) string {
	x := t.s.x
	if d.sub != nil {
		p, q = x.subst(p, d.sub), x.subst(q, d.sub)
	}
	// conversion to 64 bits and back is the identity (see C07)
	strip := func(e *E) *E {
		if e.op == "fromu" && e.args[0].op == "asu" {
			return e.args[0].args[0]
		}
		if e.op == "fromu" && d.sub != nil && e.args[0] == t.prev() {
			return t.v()
		}
		return e
	}
	p, q = env.simp(p), env.simp(q)
	p, q = strip(p), strip(q)
	k := &cmp{l: t.s.l, x: x, e: t.s.e, budget: 4000}
	if k.eqUnder(p, q, env, 30) {
		return ""
	}
	return cut(k.diff, 300)
}

// lockstep: reading a case mirrors writing it and leaves the same state.
func (t *rtDelta) lockstep(d dcase) (why string, ops int) {
	x := t.s.x
	wo, err := t.run("Write", d.w)
	if err != nil {
		giveUp("%s", err)
	}
	ro, err := t.run("Read", d.r)
	if err != nil {
		giveUp("%s", err)
	}
	wa, ra := t.after(wo), t.after(ro)
	k := &cmp{l: t.s.l, x: x, e: t.s.e, budget: 4000, uns: true}
	k.final = func(k *cmp, env *envt, m *mem, _ []*E) string {
		if len(k.yrets) == 2 {
			if w := t.eq(k.yrets[0], t.v(), d, env); w != "" {
				return "Read does not return the element written: " + w
			}
		}
		if w := t.eq(wa.started, x.tru, d, env); w != "" {
			return "the writer's context is not marked as started after an element"
		}
		if w := t.eq(ra.started, x.tru, d, env); w != "" {
			return "the reader's context is not marked as started after an element"
		}
		if w := t.eq(wa.packed, ra.packed, d, env); w != "" {
			return "afterwards, reader and writer disagree on whether the array is packed: " + w
		}
		if p := env.simp(wa.packed); p != x.fls {
			e2 := env.clone()
			e2.assume(p, true)
			if w := t.eq(wa.m, ra.m, d, e2); w != "" {
				return "afterwards, reader and writer disagree on the width of deltas: " + w
			}
		}
		if w := t.eq(wa.prev, ra.prev, d, env); w != "" {
			return "afterwards, reader and writer disagree on the previous element: " + w
		}
		if w := t.eq(wa.prev, t.asu(), d, env); w != "" {
			return "afterwards, the previous element is not the element written: " + w
		}
		return ""
	}
	why = k.match(flat(wo), flat(ro), d.env.clone())
	return why, k.ops + 1
}

// paths lists the operations of every path through l.
func (t *rtDelta) paths(l []*node, env *envt, have []*node, f func([]*node, *envt) string) string {
	for len(l) > 0 {
		h := l[0]
		switch h.t {
		case "op":
			if h.dir == "w" {
				have = append(have[:len(have):len(have)], h)
			}
		case "if":
			k := env.simp(h.cond)
			arm := func(o *out, e *envt) string {
				return t.paths(append(append([]*node{}, flat(o)...), l[1:]...), e, have, f)
			}
			if k == t.s.x.tru {
				return arm(h.a, env)
			}
			if k == t.s.x.fls {
				return arm(h.b, env)
			}
			e1, e2 := env.clone(), env.clone()
			e1.assume(k, true)
			e2.assume(k, false)
			if w := arm(h.a, e1); w != "" {
				return w
			}
			return arm(h.b, e2)
		case "loop":
			giveUp("a loop in the packing context")
		case "ret":
			return f(have, env)
		case "reject":
			return ""
		}
		l = l[1:]
	}
	return f(have, env)
}

// form: what writing an element in a case puts on the stream. width is set to
// the width of the field for the number of delta bits.
func (t *rtDelta) form(d dcase, width *int64) string {
	x := t.s.x
	wo, err := t.run("Write", d.w)
	if err != nil {
		giveUp("%s", err)
	}
	isElem := func(n *node) bool { return n.kind == "Elem" && n.val == t.v() }
	list := func(l []*node) string {
		var s []string
		for _, n := range l {
			s = append(s, cut(opStr(n), 80))
		}
		return strings.Join(s, "; ")
	}
	return t.paths(flat(wo), d.env.clone(), nil, func(l []*node, env *envt) string {
		switch d.name {
		case "first element":
			if len(l) < 2 || !(l[0].kind == "Bool" || l[0].kind == "U" && l[0].args[0] == x.int(1)) || !isElem(l[len(l)-1]) {
				return "a first element is written as " + list(l) + ", not as a descriptor and the element"
			}
			if len(l) > 3 || len(l) == 3 && (l[1].kind != "U" || !l[1].args[0].isInt() || t.eq(l[1].val, t.sym().m, d, env) != "") {
				return "a first element's descriptor is " + list(l)
			}
			if len(l) == 3 {
				*width = l[1].args[0].c
			}
		case "packed, width 0":
			if len(l) != 0 {
				return "elements of a packed array without differences are written: " + list(l)
			}
		case "packed, width above 0":
			if len(l) != 1 || l[0].kind != "U" && l[0].kind != "S" {
				return "an element of a packed array is written as " + list(l)
			}
			w := l[0].args[0]
			for w.op == "cv" {
				w = w.args[0]
			}
			if s := t.eq(w, x.add(t.sym().m, x.int(1)), d, env); s != "" {
				return "an element of a packed array takes other than one bit more than the widest difference: " + s
			}
			if s := t.eq(l[0].val, x.sub(t.asu(), t.prev()), d, env); s != "" {
				return "an element of a packed array is not written as its difference: " + s
			}
		case "not packed":
			if len(l) != 1 || !isElem(l[0]) {
				return "an element of an array that is not packed is written as " + list(l)
			}
		}
		return ""
	})
}

// size: sizing an element reports what writing it writes and leaves the same
// state.
func (t *rtDelta) size(d dcase) string {
	x := t.s.x
	wo, err := t.run("Write", d.w)
	if err != nil {
		giveUp("%s", err)
	}
	so, err := t.run("BitSizeOf", d.w)
	if err != nil {
		giveUp("%s", err)
	}
	p := x.mk("p", "at", k64)
	var req []*E
	end := t.s.endPos(flat(wo), p, &req)
	got := t.s.retVal(so)
	if end == nil || got == nil {
		giveUp("no size")
	}
	// the size of a packable element does not depend on its position
	free := func(e *E) *E {
		m := map[*E]*E{}
		x.has(e, func(q *E) bool {
			if q.op == "esize" {
				m[q] = x.mk("esize", "", k64, q.args[0], q.args[1], x.int(0))
			}
			if q.op == "cv" && q.k.w == 64 && q.args[0].op == "cv" && q.args[0].k.w == 8 {
				m[q] = q.args[0].args[0] // widths are at most 64
			}
			return false
		})
		return x.subst(e, m)
	}
	if w := t.eq(free(x.sub(end, p)), free(got), d, d.env.clone()); w != "" {
		return "bits written minus bits reported: " + w
	}
	wa, sa := t.after(wo), t.after(so)
	for _, k := range []struct {
		what string
		p, q *E
	}{{"that the array has started", wa.started, sa.started}, {"whether the array is packed", wa.packed, sa.packed}, {"the width of deltas", wa.m, sa.m}} {
		if w := t.eq(k.p, k.q, d, d.env.clone()); w != "" {
			return "afterwards, sizing and writing disagree on " + k.what + ": " + w
		}
	}
	return ""
}

// initWidth decides whether the width found by introducing elements fits every
// difference between neighbours. The transfer function of Init on the state
// (width, packed) is tabulated over all widths 0 to 64 of the state and of the
// difference; then an invariant is sought.
func (t *rtDelta) initWidth(width int64) (why string, n int) {
	x := t.s.x
	s := t.sym()
	o, err := t.run("Init", s)
	if err != nil {
		giveUp("%s", err)
	}
	a := t.after(o)
	if k := t.eqPlain(a.prev, t.asu()); k != "" {
		return "the previous element is not the one introduced last: " + k, 1
	}
	if k := t.eqPlain(a.started, s.started); k != "" {
		return "introducing an element marks the array as started: " + k, 1
	}
	isNil := x.eq(s.prev, x.nil_)
	L := x.mk("p", "L", k64)
	sub := map[*E]*E{}
	for _, e := range []*E{a.packed, a.m} {
		x.has(e, func(q *E) bool {
			if q.op == "cv" && isLen64(q.args[0]) {
				sub[q] = L
			}
			if isLen64(q) {
				sub[q] = L
				if w := t.isDiff(q.args[0]); w != "" && why == "" {
					why = "the width is that of " + cut(w, 200) + ", which is not the difference to the previous element"
				}
			}
			return false
		})
	}
	if why != "" {
		return why, 1
	}
	if len(sub) == 0 {
		giveUp("no width of a difference in Init")
	}
	pk, mm := x.subst(a.packed, sub), x.subst(a.m, sub)
	type key struct {
		none, p bool
		m, l    int64
	}
	type res struct {
		p bool
		m int64
	}
	tab := map[key]res{}
	var keys []key
	for _, none := range []bool{true, false} {
		for _, p := range []bool{true, false} {
			for m := int64(0); m <= 64; m++ {
				if none && (p || m > 0) {
					continue
				}
				for l := int64(0); l <= 64; l++ {
					v := map[*E]*E{isNil: x.boolc(none), s.packed: x.boolc(p), s.m: x.int(m), L: x.int(l)}
					p2, m2 := x.subst(pk, v), x.subst(mm, v)
					if !p2.isConst() || !m2.isInt() {
						giveUp("Init: %s, %s", cut(p2.String(), 100), cut(m2.String(), 100))
					}
					keys = append(keys, key{none, p, m, l})
					tab[key{none, p, m, l}] = res{p2 == x.tru, m2.c}
				}
			}
		}
	}
	// J(T): packed -> width <= T, and width <= T -> width >= every difference's
	first := ""
	for T := int64(63); T >= 1; T-- {
		if T >= 1<<uint(width) {
			continue
		}
		why = ""
		for _, k := range keys {
			r := tab[k]
			if !k.none && k.p && k.m > T {
				continue // not in J
			}
			in := fmt.Sprintf("width %d, packed %v, a difference of %d bits -> width %d, packed %v", k.m, k.p, k.l, r.m, r.p)
			switch {
			case r.p && r.m > T:
				why = in
			case r.m < 0 || r.m > 64:
				why = in
			case !k.none && r.m <= T && (k.m > T || r.m < k.m || r.m < k.l):
				why = in
			}
			if why != "" {
				break
			}
		}
		if why == "" {
			return "", len(tab)
		}
		if first == "" {
			first = why
		}
	}
	return "a width can end up too small for a difference, or too large to announce or write: " + first, len(tab)
}

func isLen64(q *E) bool {
	return strings.HasPrefix(q.op+":"+q.s, "call:math/bits.Len") || strings.HasPrefix(q.op, "call:math/bits.Len") || strings.HasPrefix(q.s, "math/bits.Len64")
}

func (t *rtDelta) eqPlain(p, q *E) string {
	return t.eq(p, q, dcase{}, newEnv(t.s.x))
}

// isDiff: every arm of e is the difference of element and previous element,
// either way round.
func (t *rtDelta) isDiff(e *E) string {
	x := t.s.x
	d := x.sub(t.asu(), t.prev())
	n := x.sub(t.prev(), t.asu())
	var f func(e *E, env *envt, depth int) string
	f = func(e *E, env *envt, depth int) string {
		e = env.simp(e)
		for e.op == "cv" && e.k.w == 64 {
			e = e.args[0]
		}
		if e == d || e == n {
			return ""
		}
		if i := findIte(e); i != nil && depth < 8 {
			c := i.args[0]
			e1, e2 := env.clone(), env.clone()
			e1.assume(c, true)
			e2.assume(c, false)
			if w := f(e, e1, depth+1); w != "" {
				return w
			}
			return f(e, e2, depth+1)
		}
		return e.String()
	}
	return f(e, newEnv(x), 0)
}

func init() {
	register(&Property{
		ID:      "C10",
		Explain: "Write, Read, BitSizeOf and Init of the delta packing context are summarised over an abstract state (started, packed, width, previous element) by gated value numbering. Writer and reader are compared as a lockstep simulation in each of the four classes of states; Init's effect on width and packed is tabulated over all widths and an inductive invariant sought that makes every difference fit.",
		Run: func(c *Ctx) error {
			c.Rule("lockstep", "reading an element mirrors writing it from the same state and leaves the same state", 4)
			c.Rule("wire-form", "a descriptor and the full element first, then differences of one width, or plain elements", 4)
			c.Rule("size", "sizing an element reports what writing it writes, from and to the same state", 4)
			c.Rule("width", "the width found by introducing the elements fits every difference and its announcement", 1)
			c.Rule("position-free", "the size of a packable element does not depend on its position", 8)
			w := c.World
			t := newRtDelta(w)
			pos := "ztype/delta_context.go"
			if fn := w.rtMethod("DeltaContext", "Write"); fn != nil {
				pos = w.relPos(fn.Pos())
			}
			decide := func(rule, key string, f func() string) {
				var why string
				if err := guarded(func() error { why = f(); return nil }); err != nil {
					c.undecided(rule+" "+key, err)
					return
				}
				c.Check(why == "", rule, key, pos, "%s", why)
			}
			var cases []dcase
			if err := guarded(func() error { t.fields(); cases = t.cases(); return nil }); err != nil {
				return err
			}
			width := int64(6)
			for _, d := range cases {
				d := d
				decide("lockstep", d.name, func() string {
					why, n := t.lockstep(d)
					c.Count("operations_matched", n)
					return why
				})
				decide("wire-form", d.name, func() string { return t.form(d, &width) })
				decide("size", d.name, func() string { return t.size(d) })
			}
			decide("width", "Init", func() string {
				why, n := t.initWidth(width)
				c.Count("transitions_tabulated", n)
				return why
			})
			decide("width", "packing decision", func() string {
				x := t.s.x
				s := t.sym()
				s.started, s.packed = x.fls, x.fls
				for _, m := range []string{"Write", "BitSizeOf"} {
					o, err := t.run(m, s)
					if err != nil {
						giveUp("%s", err)
					}
					a := t.after(o)
					if w := t.eqPlain(a.packed, x.fls); w != "" {
						return m + " packs an array that was found not to be packable: " + w
					}
					s2 := t.sym()
					s2.started = x.fls
					if o, err = t.run(m, s2); err != nil {
						giveUp("%s", err)
					}
					if w := t.eqPlain(t.after(o).m, s2.m); w != "" {
						return m + " changes the width: " + w
					}
				}
				return ""
			})
			for _, n := range w.traitTypes() {
				n := n
				tr := newRtTraits(w, n)
				if isPackedTraits(n) {
					continue
				}
				decide("position-free", n.Obj().Name(), func() string {
					po, err := tr.run("PackedTraits")
					if err != nil {
						giveUp("%s", err)
					}
					pt := tr.s.retVal(po)
					if pt == tr.s.x.nil_ || strings.HasPrefix(n.Obj().Name(), "Object") {
						return ""
					}
					so, err := tr.run("BitSizeOf")
					if err != nil {
						giveUp("%s", err)
					}
					got := tr.s.retVal(so)
					if tr.s.x.has(got, func(q *E) bool { return q.op == "p" && q.s == "pos" }) {
						return "the size of a packable element depends on its position: " + cut(got.String(), 200)
					}
					return ""
				})
			}
			return c.rests(on{"C07", "traits-uint64"})
		},
	})
}
