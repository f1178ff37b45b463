package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genType is one generated type with its operations.
type genType struct {
	n    *types.Named
	name string
	fns  map[string]*ssa.Function
}

func (w *World) genTypes() []*genType {
	var out []*genType
	for _, p := range w.Gen {
		if len(p.Errors) > 0 || p.Types == nil {
			continue
		}
		sc := p.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			g := &genType{n: n, name: short2(p.PkgPath) + "." + nm, fns: map[string]*ssa.Function{}}
			for i := 0; i < n.NumMethods(); i++ {
				m := n.Method(i)
				if f := w.Prog.FuncValue(m); f != nil && len(f.Blocks) > 0 {
					g.fns[m.Name()] = f
				}
			}
			if g.fns["MarshalZserio"] != nil || g.fns["UnmarshalZserio"] != nil {
				out = append(out, g)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func short2(p string) string {
	for _, pre := range []string{"gen/github.com/woven-planet/go-zserio/", "gen/"} {
		if len(p) > len(pre) && p[:len(pre)] == pre {
			return p[len(pre):]
		}
	}
	return p
}

// session is one universe for comparing the operations of one type.
type session struct {
	l *lay
	x *X
	e *ex
	g *genType
	// widths of operations whose conversion to a byte is ignored, to the width
	widths map[*E]*E
}

func newSession(w *World, g *genType, params map[string][]string) *session {
	x := newX()
	l := &lay{w: w, x: x, params: params}
	e := &ex{x: x, w: w, leaf: l.leaf}
	return &session{l, x, e, g, map[*E]*E{}}
}

// args builds the argument expressions of an operation: the receiver is named
// recv, contexts, streams and positions by their type.
func (s *session) args(fn *ssa.Function, recv string) []*E {
	var out []*E
	for i, p := range fn.Params {
		k := kindOf(p.Type())
		switch {
		case i == 0 && fn.Signature.Recv() != nil:
			out = append(out, s.x.mk("p", recv, k))
		case isRW(p.Type()) == "PackingContextNode":
			out = append(out, s.x.mk("p", "ctx", kOth))
		case isRW(p.Type()) != "":
			out = append(out, s.x.mk("p", "stream", kOth))
		case k.cls == 'i':
			out = append(out, s.x.mk("p", "pos", k64))
		default:
			out = append(out, s.x.mk("p", p.Name(), k))
		}
	}
	return out
}

func (s *session) sum(method, recv string) (*out, error) {
	fn := s.g.fns[method]
	if fn == nil {
		return nil, fmt.Errorf("no %s", method)
	}
	return s.e.summarise(fn, s.args(fn, recv), func(m *mem) {
		if recv != "v" {
			v, d := s.x.mk("p", "v", kOth), s.x.mk("p", recv, kOth)
			st, _ := s.g.n.Underlying().(*types.Struct)
			for _, f := range s.l.paramFields(s.g.n) {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						m.v[s.x.fa(d, f)] = s.x.ld(s.x.fa(v, f), kindOf(st.Field(i).Type()))
					}
				}
			}
		}
	})
}

// decPtr translates a location of the encoder's value to the decoder's.
func (c *cmp) decPtr(p *E, env *envt, m *mem) *E {
	switch p.op {
	case "p":
		if p == c.enc {
			return c.dec
		}
	case "fa":
		if q := c.decPtr(p.args[0], env, m); q != nil {
			return c.x.fa(q, p.s)
		}
	case "ld":
		return c.decVal(p, env, m)
	}
	return nil
}

// decVal is what the decoder leaves where the encoder's value v (a load) was.
func (c *cmp) decVal(v *E, env *envt, m *mem) *E {
	q := c.decPtr(v.args[0], env, m)
	if q == nil {
		return nil
	}
	q = env.simp(q)
	if q.op == "res" || q.op == "ld" {
		return env.simp(c.x.ld(q, v.k))
	}
	return env.simp(c.e.look(m, q, v.k, nil))
}

// stored checks that every written member is back where it was read from.
func stored(c *cmp, env *envt, m *mem, _ []*E) string {
	for _, w := range c.wr {
		en := env.clone()
		for k, v := range w.env.a {
			en.a[k] = v
		}
		for k, v := range w.env.r {
			en.r[k] = v
		}
		// an optional member that was dereferenced was present
		v := w.val
		for v.op == "cv" && len(v.args) == 1 {
			v = v.args[0]
		}
		neg := false
		for v.op == "not" {
			v, neg = v.args[0], !neg
		}
		if v.op == "eq" && v.args[1].op == "nil" && v.args[0].op == "ld" {
			p := v.args[0]
			// presence: nil exactly when it was nil
			for _, isNil := range []bool{true, false} {
				e2 := en.clone()
				e2.assume(v, isNil)
				if k := e2.simp(c.x.fls); k != c.x.fls {
					continue
				}
				got := c.decVal(p, e2, m)
				if got == nil {
					break
				}
				t := e2.simp(c.x.eq(got, c.x.nil_))
				if t != c.x.boolc(isNil) {
					if t.op == "c" || findIte(t) == nil {
						return fmt.Sprintf("%s: presence of %s is written, but the decoder leaves %s", c.e.w.relPos(w.pos), p, got)
					}
				}
			}
			continue
		}
		if v.op != "ld" {
			continue
		}
		if b := v.args[0]; b.op == "ld" {
			en.assume(c.x.eq(b, c.x.nil_), false)
		}
		got := c.decVal(v, en, m)
		if got == nil {
			continue
		}
		want := en.simp(v)
		if got != want && got.op == "agg" {
			// parameters of a member are compared where it is decoded
			got = stripAgg(c.x, got, want)
		}
		if got != want && !c.eqUnder(got, want, en, 8) {
			return fmt.Sprintf("%s: the encoder writes %s, but after decoding that member holds %s", c.e.w.relPos(w.pos), v, got)
		}
		c.ops++
	}
	return ""
}

func stripAgg(x *X, got, want *E) *E {
	if got.op == "agg" && got.args[0] == want {
		return want
	}
	return got
}

// compareED decides whether decoder dm reads what encoder em writes.
func (s *session) compareED(em, dm string) (why string, ops int, undecided error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unk); ok {
				undecided = fmt.Errorf("%s", u.why)
				return
			}
			undecided = fmt.Errorf("the analysis stopped: %v", r)
		}
	}()
	eo, err := s.sum(em, "v")
	if err != nil {
		return "", 0, err
	}
	do, err := s.sum(dm, "d")
	if err != nil {
		return "", 0, err
	}
	c := &cmp{l: s.l, x: s.x, e: s.e, budget: 20000, enc: s.x.mk("p", "v", kOth), dec: s.x.mk("p", "d", kOth), final: stored}
	why = c.match(flat(eo), flat(do), newEnv(s.x))
	return why, c.ops, nil
}

// guarded runs f, turning a give-up into an error.
func guarded(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unk); ok {
				err = fmt.Errorf("%s", u.why)
				return
			}
			err = fmt.Errorf("the analysis stopped: %v", r)
		}
	}()
	return f()
}

func (s *session) v() *E { return s.x.mk("p", "v", kOth) }

// compareInit decides whether the packing contexts are initialised with
// exactly what the packed encoder writes through them.
func (s *session) compareInit() (why string, ops int, err error) {
	err = guarded(func() error {
		eo, err := s.sum("MarshalZserioPacked", "v")
		if err != nil {
			return err
		}
		io, err := s.sum("ZserioInitPackingContext", "v")
		if err != nil {
			return err
		}
		c := &cmp{l: s.l, x: s.x, e: s.e, budget: 20000, same: true, enc: s.v(), dec: s.v()}
		c.keep = func(n *node) bool {
			return n.kind == "Ctx" || len(n.kind) > 5 && n.kind[:5] == "PObj:"
		}
		why = c.match(flat(eo), flat(io), newEnv(s.x))
		ops = c.ops
		return nil
	})
	return
}

// ctxUse is one use of a packing context by an operation.
type ctxUse struct {
	n    *node
	path string // "" for the node itself, "3" for child 3
	typ  string // delta context type, or member type
}

func walkOps(l []*node, f func(*node)) {
	for _, n := range l {
		switch n.t {
		case "op":
			f(n)
		case "if":
			walkOps(flat(n.a), f)
			walkOps(flat(n.b), f)
		case "loop":
			walkOps(n.body, f)
		}
	}
}

// nodePath recognises ctx (path "") and the i-th child of ctx (path "i").
func (s *session) nodePath(p *E) (string, bool) {
	ctx := s.x.mk("p", "ctx", kOth)
	if p == ctx {
		return "", true
	}
	if p.op == "ld" && p.args[0].op == "ia" && p.args[0].args[1].isInt() {
		l := p.args[0].args[0]
		if l.op == "ld" && l.args[0].op == "fa" && l.args[0].args[0] == ctx {
			return p.args[0].args[1].s, true
		}
	}
	return "", false
}

// contextTree checks that every context an operation uses was created at that
// place with that type, and that no two members share one.
func (s *session) contextTree() (bad []string, uses int, err error) {
	err = guarded(func() error {
		co, err := s.sum("ZserioCreatePackingContext", "v")
		if err != nil {
			return err
		}
		if co.t != "ret" {
			giveUp("context creation has several outcomes")
		}
		ctx := s.x.mk("p", "ctx", kOth)
		// children and contexts as created
		type made struct{ ctxT, objT string }
		created := map[string]*made{}
		ptrs := map[*E]string{ctx: ""}
		created[""] = &made{}
		for k, v := range co.m.v {
			if k.op == "fa" && k.args[0] == ctx && (v.op == "cat" || v.op == "list") {
				l := v
				if l.op == "cat" {
					if l.args[0].op != "ld" || l.args[1].op != "list" {
						giveUp("context children are not a plain list")
					}
					l = l.args[1]
				}
				for i, p := range l.args {
					if _, dup := ptrs[p]; dup {
						bad = append(bad, fmt.Sprintf("child context %d is used twice", i))
					}
					ptrs[p] = fmt.Sprint(i)
					created[fmt.Sprint(i)] = &made{}
				}
			}
		}
		for k, v := range co.m.v {
			if k.op == "fa" && v.op == "mki" {
				if pth, ok := ptrs[k.args[0]]; ok {
					created[pth].ctxT = v.s
				}
			}
		}
		walkOps(co.seq, func(n *node) {
			if n.dir == "c" {
				if pth, ok := ptrs[n.args[0]]; ok {
					created[pth].objT = n.typ
				}
			}
		})
		seen := map[string]*E{}
		for _, m := range []string{"MarshalZserioPacked", "UnmarshalZserioPacked", "ZserioInitPackingContext", "ZserioBitSizePacked"} {
			o, err := s.sum(m, "v")
			if err != nil {
				return err
			}
			walkOps(flat(o), func(n *node) {
				var p *E
				want := ""
				isCtx := false
				switch {
				case n.kind == "Ctx":
					isCtx = true
					q := n.args[0]
					if q.op != "ta" || q.args[0].op != "ld" || q.args[0].args[0].op != "fa" {
						giveUp("context expression %s", q)
					}
					want = q.s
					p = q.args[0].args[0].args[0]
				case len(n.kind) > 5 && n.kind[:5] == "PObj:":
					p = n.args[0]
					want = n.typ
				default:
					return
				}
				pth, ok := s.nodePath(p)
				if !ok {
					giveUp("context node %s", p)
				}
				uses++
				cr := created[pth]
				pos := s.l.w.relPos(n.pos)
				if cr == nil {
					bad = append(bad, fmt.Sprintf("%s: %s uses child context %s, which is never created", pos, m, pth))
					return
				}
				got := cr.objT
				if isCtx {
					got = cr.ctxT
				}
				if got != want {
					bad = append(bad, fmt.Sprintf("%s: %s uses context %q as %s, but it is created as %q", pos, m, pth, want, got))
				}
				if m == "UnmarshalZserioPacked" || n.val == nil {
					return
				}
				v := n.val
				for v.op == "cv" && len(v.args) == 1 {
					v = v.args[0]
				}
				// through an optional member
				if v.op == "ld" && v.args[0].op == "ld" {
					v = v.args[0]
				}
				if o, ok := seen[pth]; ok && o != v {
					bad = append(bad, fmt.Sprintf("%s: context %q serves both %s and %s", pos, pth, o, v))
				}
				seen[pth] = v
			})
		}
		return nil
	})
	return
}

// --- sizes

var varBytes = map[string]struct {
	s string
	n int64
}{
	"Varint16": {"S", 2}, "Varint32": {"S", 4}, "Varint64": {"S", 8}, "Varint": {"S", 9},
	"Varuint16": {"U", 2}, "Varuint32": {"U", 4}, "Varuint64": {"U", 8}, "Varuint": {"U", 9}, "Varsize": {"U", 5},
}

// opSize is the number of bits an encoder operation writes at position pos.
func (s *session) opSize(n *node, pos *E) *E {
	x := s.x
	switch n.kind {
	case "U", "S":
		// a width is taken modulo 256 by the stream; widths are assumed below that
		if w := n.args[0]; w.op == "cv" && w.k.w == 64 && w.args[0].op == "cv" && w.args[0].k.w == 8 && !w.args[0].k.s && w.args[0].args[0].k.cls == 'i' {
			s.widths[w] = x.wide(w.args[0].args[0])
			return s.widths[w]
		}
		return n.args[0]
	case "Elem":
		return x.mk("esize", "", k64, n.args[0], n.val, pos)
	case "PElem":
		return x.mk("pesize", "", k64, n.args[0], pos, n.val)
	case "NewCtx":
		return x.int(0)
	case "Bool":
		return x.int(1)
	case "Float16":
		return x.int(16)
	case "Float32":
		return x.int(32)
	case "Float64":
		return x.int(64)
	case "String", "Bytes", "Extern":
		return x.mk("bsz", n.kind, k64, n.val)
	case "Align":
		return x.mk("alignbits", "", k64, pos, n.args[0])
	case "Ctx":
		return x.mk("ctxsize", "", k64, n.args[0], n.args[1], n.val)
	}
	if v, ok := varBytes[n.kind]; ok {
		return x.mk("bsz", v.s, k64, x.wide(n.val), x.int(v.n))
	}
	switch {
	case len(n.kind) > 4 && n.kind[:4] == "Obj:":
		return x.mk("objsize", n.typ, k64, n.val, n.args[0], pos)
	case len(n.kind) > 5 && n.kind[:5] == "PObj:":
		return x.mk("pobjsize", n.typ, k64, n.val, n.args[1], n.args[0], pos)
	case len(n.kind) > 4 && n.kind[:4] == "Arr:" || len(n.kind) > 5 && n.kind[:5] == "OArr:":
		as := append([]*E{n.val}, n.args...)
		return x.mk("arrsize", n.kind, k64, append(as, pos)...)
	}
	giveUp("size of %s", n.kind)
	return nil
}

// endPos is the stream position after a list of encoder operations.
func (s *session) endPos(l []*node, pos *E, req *[]*E) *E {
	x := s.x
	for _, n := range l {
		switch n.t {
		case "op":
			if n.dir == "w" {
				pos = x.add(pos, s.opSize(n, pos))
			}
		case "if":
			p := s.endPos(flat(n.a), pos, req)
			q := s.endPos(flat(n.b), pos, req)
			switch {
			case p == nil && q == nil:
				return nil
			case p == nil:
				pos = q
			case q == nil:
				pos = p
			default:
				pos = x.ite(n.cond, p, q)
			}
		case "loop":
			acc := x.mk("facc", n.d, k64)
			b := s.endPos(n.body, acc, req)
			if b == nil {
				return nil
			}
			if d := x.sub(b, acc); !x.contains(d, acc) {
				pos = x.add(pos, x.sum(n.cnt, d, n.d))
			} else {
				pos = x.fold(n.cnt, pos, b, n.d, k64)
			}
		case "require":
			*req = append(*req, n.cond)
		case "reject":
			return nil
		}
	}
	return pos
}

// retVal is the returned value as one gated expression.
func (s *session) retVal(o *out) *E {
	switch o.t {
	case "ret":
		return o.rets[0]
	case "reject":
		return nil
	case "branch":
		p, q := s.retVal(o.a), s.retVal(o.b)
		if p == nil {
			return q
		}
		if q == nil {
			return p
		}
		return s.x.ite(o.cond, p, q)
	}
	return nil
}

func (s *session) compareSize(em, sm string) (why string, err error) {
	err = guarded(func() error {
		eo, err := s.sum(em, "v")
		if err != nil {
			return err
		}
		so, err := s.sum(sm, "v")
		if err != nil {
			return err
		}
		pos := s.x.mk("p", "pos", k64)
		var req []*E
		end := s.endPos(flat(eo), pos, &req)
		got := s.retVal(so)
		if end == nil || got == nil {
			return nil
		}
		want := s.x.subst(s.x.sub(end, pos), s.widths)
		got = s.x.subst(got, s.widths)
		env := newEnv(s.x)
		for _, r := range req {
			env.assume(r, true)
		}
		c := &cmp{l: s.l, x: s.x, e: s.e, budget: 20000}
		if !c.eqUnder(want, got, env, 60) {
			d := c.diff
			if len(d) > 600 {
				d = d[:600] + "..."
			}
			why = fmt.Sprintf("bits written by %s minus bits reported by %s: %s", em, sm, d)
		}
		return nil
	})
	return
}

func (c *Ctx) undecided(name string, err error) {
	c.Count("undecided", 1)
	c.Notes = append(c.Notes, name+": "+err.Error())
	if os.Getenv("ZSV_DEBUG") != "" {
		fmt.Println("UNDECIDED", name, err)
	}
}

const layoutMethod = "Every generated operation is summarised by gated value numbering over its SSA form (merges at joins, loops as comprehensions, helpers inlined): an ordered tree of wire operations with kind, width, alignment, conditions and parameter values, plus the final contents of the receiver. "

func init() {
	register(&Property{ID: "C03", Gen: true,
		Explain: layoutMethod + "The summaries of encoder and decoder are compared operation by operation, unifying each value read with the value written; each written member must end up in the member it came from.",
		Run: func(c *Ctx) error {
			c.blobs()
			c.Rule("same-layout", "the decoder's wire operations are the encoder's, in order, under the same conditions, and every written member is restored", 60)
			params := map[string][]string{}
			for _, g := range c.World.genTypes() {
				s := newSession(c.World, g, params)
				why, ops, und := s.compareED("MarshalZserio", "UnmarshalZserio")
				c.Count("types", 1)
				if und != nil {
					c.undecided(g.name, und)
					continue
				}
				c.Count("operations_matched", ops)
				c.Check(why == "", "same-layout", g.name, c.World.relPos(g.n.Obj().Pos()), "%s", why)
			}
			return c.rests(on{"C07", "array-mirror traits-mirror traits-uint64"}, on{"C08", "writes-minimal-and-reads-back"}, on{"C09", "fixed-width"}, on{"C10", "lockstep wire-form width"},
				on{"C11", "align stream-bits flush"}, on{"C23", "writes-nearest reads-exactly"})
		}})
	register(&Property{ID: "C04", Gen: true,
		Explain: layoutMethod + "Packed encoder and decoder are compared operation by operation; the initialisation pass must feed each packing context exactly the values the packed encoder writes through it, under the same conditions; the tree of contexts created must provide, at each place, the context type every operation uses, and no two members may share a context.",
		Run: func(c *Ctx) error {
			c.Rule("packed-layout", "the packed decoder's operations are the packed encoder's, in order, through the same contexts, and every written member is restored", 60)
			c.Rule("init-projection", "initialising the contexts visits the members the packed encoder writes through contexts, with the same values, parameters, contexts and conditions", 60)
			c.Rule("context-tree", "each context used exists in the created tree with that type and serves one member only", 60)
			params := map[string][]string{}
			for _, g := range c.World.genTypes() {
				pos := c.World.relPos(g.n.Obj().Pos())
				c.Count("types", 1)
				s := newSession(c.World, g, params)
				if why, ops, und := s.compareED("MarshalZserioPacked", "UnmarshalZserioPacked"); und != nil {
					c.undecided(g.name+" packed", und)
				} else {
					c.Count("operations_matched", ops)
					c.Check(why == "", "packed-layout", g.name, pos, "%s", why)
				}
				s = newSession(c.World, g, params)
				if why, ops, und := s.compareInit(); und != nil {
					c.undecided(g.name+" init", und)
				} else {
					c.Count("context_operations_matched", ops)
					c.Check(why == "", "init-projection", g.name, pos, "%s", why)
				}
				s = newSession(c.World, g, params)
				if bad, uses, und := s.contextTree(); und != nil {
					c.undecided(g.name+" contexts", und)
				} else {
					c.Count("context_uses", uses)
					why := ""
					if len(bad) > 0 {
						why = bad[0]
					}
					c.Check(why == "", "context-tree", g.name, pos, "%s", why)
				}
			}
			return c.rests(on{"C07", "array-mirror array-init traits-mirror traits-init traits-uint64"}, on{"C10", "lockstep wire-form size width position-free"})
		}})
	register(&Property{ID: "C05", Gen: true,
		Explain: layoutMethod + "The encoder's operations are folded into the stream position they end at, as a function of value and start position; the size function's result must be the same expression.",
		Run: func(c *Ctx) error {
			c.Rule("size-is-written", "the bit size returned equals the bits the encoder writes, as an expression over the value and the start position", 60)
			c.Rule("packed-size-is-written", "the packed bit size returned equals the bits the packed encoder writes", 60)
			params := map[string][]string{}
			for _, g := range c.World.genTypes() {
				pos := c.World.relPos(g.n.Obj().Pos())
				c.Count("types", 1)
				s := newSession(c.World, g, params)
				if os.Getenv("ZSV_DEBUG") != "" {
					fmt.Println("SIZE", g.name)
				}
				if why, und := s.compareSize("MarshalZserio", "ZserioBitSize"); und != nil {
					c.undecided(g.name, und)
				} else {
					c.Check(why == "", "size-is-written", g.name, pos, "%s", why)
				}
				s = newSession(c.World, g, params)
				if why, und := s.compareSize("MarshalZserioPacked", "ZserioBitSizePacked"); und != nil {
					c.undecided(g.name+" packed", und)
				} else {
					c.Check(why == "", "packed-size-is-written", g.name, pos, "%s", why)
				}
			}
			return c.rests(on{"C07", "array-size traits-size traits-constant-size"}, on{"C08", "writes-minimal-and-reads-back"}, on{"C10", "size position-free"}, on{"C11", "align align-size"}, on{"C27", "byte-sequences"})
		}})
}

// on names rules of another property.
type on struct{ id, rules string }

// rests decides the rules of other properties that this one rests on.
func (c *Ctx) rests(list ...on) error {
	for _, o := range list {
		if err := c.also(o.id, strings.Fields(o.rules)...); err != nil {
			c.undecided("rules of "+o.id, err)
		}
	}
	return nil
}
