package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wireKinds maps the suffix of the runtime's Write*/Read* functions to a wire
// element kind; the fixed-width ones are U/S with a width.
var wireFixed = map[string]struct {
	k string
	n int64
}{
	"Uint8": {"U", 8}, "Uint16": {"U", 16}, "Uint32": {"U", 32}, "Uint64": {"U", 64},
	"Int8": {"S", 8}, "Int16": {"S", 16}, "Int32": {"S", 32}, "Int64": {"S", 64},
}
var wireOther = map[string]bool{
	"Bool": true, "String": true, "Bytes": true, "Extern": true, "Float16": true, "Float32": true, "Float64": true,
	"Varint16": true, "Varint32": true, "Varint64": true, "Varint": true,
	"Varuint16": true, "Varuint32": true, "Varuint64": true, "Varuint": true, "Varsize": true,
}

// lay is the effect model of encoders, decoders and size functions.
type lay struct {
	w       *World
	x       *X
	params  map[string][]string // type -> parameter fields
	nctx    int
	delta   bool // delta contexts are taken as operations of their own
	runtime bool // analysing the runtime's own array code
	// abstract: methods of traits that are taken as operations of their own
	abstract func(*ssa.Function) bool
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func namedStr(t types.Type) string {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// paramFields lists the fields of a generated type that its decoder does not
// set: they are handed down by the containing type.
func (l *lay) paramFields(t types.Type) []string {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	key := namedStr(n)
	if r, ok := l.params[key]; ok {
		return r
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		l.params[key] = nil
		return nil
	}
	set := map[string]bool{}
	for _, mn := range []string{"UnmarshalZserio"} {
		f := l.method(n, mn)
		if f == nil {
			l.params[key] = nil
			return nil
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != n {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == ssa.Value(fa) {
							set[s.Field(fa.Field).Name()] = true
						}
					case *ssa.Call:
						for _, a := range r.Call.Args {
							if a == ssa.Value(fa) {
								set[s.Field(fa.Field).Name()] = true
							}
						}
					}
				}
			}
		}
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if s.Tag(i) == "" && !set[s.Field(i).Name()] {
			out = append(out, s.Field(i).Name())
		}
	}
	l.params[key] = out
	return out
}

func (l *lay) method(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return l.w.Prog.FuncValue(m)
		}
	}
	return nil
}

func (l *lay) stripParams(v *E, t types.Type) *E {
	if v.op != "agg" {
		return v
	}
	ps := l.paramFields(t)
	is := map[string]bool{}
	for _, p := range ps {
		is[p] = true
	}
	var ns []string
	var vs []*E
	for i, n := range strings.Split(v.s, ";") {
		if !is[n] {
			ns = append(ns, n)
			vs = append(vs, v.args[i+1])
		}
	}
	if len(ns) == 0 {
		return v.args[0]
	}
	return l.x.aggregate(v.args[0], ns, vs)
}

// snapshot records the parameter values of the object at p.
func (l *lay) snapshot(e *ex, m *mem, p *E, t types.Type) *E {
	ps := l.paramFields(t)
	if len(ps) == 0 {
		return l.x.mk("snap", "", kOth)
	}
	n := namedOf(t).Underlying().(*types.Struct)
	var vs []*E
	for _, f := range ps {
		var ft types.Type
		for i := 0; i < n.NumFields(); i++ {
			if n.Field(i).Name() == f {
				ft = n.Field(i).Type()
			}
		}
		vs = append(vs, e.look(m, l.x.fa(p, f), kindOf(ft), ft))
	}
	return l.x.mk("snap", strings.Join(ps, ";"), kOth, vs...)
}

var objMethods = map[string]string{
	"MarshalZserio": "w", "UnmarshalZserio": "r", "ZserioBitSize": "s",
	"MarshalZserioPacked": "w", "UnmarshalZserioPacked": "r", "ZserioBitSizePacked": "s",
	"ZserioInitPackingContext": "i", "ZserioCreatePackingContext": "c",
}

func isRW(t types.Type) string {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
		return n.Obj().Name()
	}
	return ""
}

// normTraits strips interface boxes and the pointer of a traits value.
func (l *lay) normTraits(v *E) *E {
	for v.op == "mki" {
		v = v.args[0]
	}
	return v
}

func (l *lay) leaf(e *ex, s *st, fr *frame, cc *ssa.CallCommon, args []*E, pos token.Pos) ([]*E, bool) {
	x := l.x
	nilE := x.nil_
	add := func(n *node) { n.pos = pos; s.seq = append(s.seq, n) }
	if cc.IsInvoke() {
		rw := isRW(cc.Value.Type())
		name := cc.Method.Name()
		switch {
		case rw == "Writer" || rw == "Reader" || rw == "Aligner":
			switch name {
			case "WriteBits", "WriteBitsUnsafe":
				add(&node{t: "op", dir: "w", kind: "U", args: []*E{x.wide(args[2])}, val: args[1]})
				return []*E{nilE}, true
			case "WriteBool":
				add(&node{t: "op", dir: "w", kind: "Bool", val: args[1]})
				return []*E{nilE}, true
			case "WriteByte":
				add(&node{t: "op", dir: "w", kind: "U", args: []*E{x.int(8)}, val: args[1]})
				return []*E{nilE}, true
			case "ReadBits":
				r := e.res(kind{'i', 64, false})
				add(&node{t: "op", dir: "r", kind: "U", args: []*E{x.wide(args[1])}, val: r})
				return []*E{r, nilE}, true
			case "ReadBool":
				r := e.res(kBool)
				add(&node{t: "op", dir: "r", kind: "Bool", val: r})
				return []*E{r, nilE}, true
			case "ReadByte":
				r := e.res(kind{'i', 8, false})
				add(&node{t: "op", dir: "r", kind: "U", args: []*E{x.int(8)}, val: r})
				return []*E{r, nilE}, true
			case "Align":
				r := e.res(k64)
				d := "w"
				if rw == "Reader" {
					d = "r"
				}
				add(&node{t: "op", dir: d, kind: "Align", args: []*E{x.wide(args[1])}, val: r})
				return []*E{r, nilE}, true
			}
			giveUp("stream operation %s", name)
		case objMethods[name] != "":
			return l.objOp(e, s, name, cc.Value.Type(), args, add)
		case l.runtime:
			return l.runtimeInvoke(e, s, cc, name, args, add)
		}
		return nil, false
	}
	callee := cc.StaticCallee()
	if callee == nil {
		if l.runtime {
			return l.runtimeDynamic(e, s, cc, args, add)
		}
		return nil, false
	}
	orig := callee
	if o := callee.Origin(); o != nil {
		orig = o
	}
	pk := fnPkg(orig)
	if pk == nil {
		return nil, false
	}
	recv := orig.Signature.Recv()
	if pk.Path() == modPath+"/ztype" && recv == nil {
		name := orig.Name()
		if l.runtime && orig.Parent() == nil && strings.HasPrefix(name, "CreatePackingContextNode") {
			return []*E{x.mk("call", "CreatePackingContextNode", kOth)}, true
		}
		dir, suf := "", ""
		if strings.HasPrefix(name, "Write") {
			dir, suf = "w", name[5:]
		} else if strings.HasPrefix(name, "Read") {
			dir, suf = "r", name[4:]
		}
		if dir != "" && orig.Signature.Params().Len() > 0 && isRW(orig.Signature.Params().At(0).Type()) != "" {
			n := &node{t: "op", dir: dir}
			ok := true
			if f, is := wireFixed[suf]; is {
				n.kind, n.args = f.k, []*E{x.int(f.n)}
			} else if wireOther[suf] {
				n.kind = suf
			} else if suf == "UnsignedBits" || suf == "SignedBits" {
				n.kind = suf[:1]
				n.args = []*E{x.wide(args[len(args)-1])}
			} else {
				ok = false
			}
			if ok {
				if dir == "w" {
					n.val = args[1]
					add(n)
					return []*E{nilE}, true
				}
				n.val = e.res(kindOf(orig.Signature.Results().At(0).Type()))
				add(n)
				return []*E{n.val, nilE}, true
			}
		}
		switch name {
		case "SignedBitSize", "UnsignedBitSize":
			return []*E{x.mk("bsz", name[:1], k64, x.wide(args[0]), x.wide(args[1])), nilE}, true
		case "BitSizeOfString", "BitSizeOfBytes", "BitSizeOfExtern":
			return []*E{x.mk("bsz", name[9:], k64, args[0]), nilE}, true
		case "CountAlignBits":
			return []*E{x.mk("alignbits", "", k64, x.wide(args[0]), x.wide(args[1]))}, true
		case "GetBitFieldArrayTraits", "GetSignedBitFieldArrayTraits":
			return []*E{x.mk("call", callee.Name(), kOth, x.wide(args[0]))}, true
		}
		return nil, false
	}
	if recv == nil {
		return nil, false
	}
	rn := namedOf(recv.Type())
	if rn == nil || rn.Obj().Pkg() == nil {
		return nil, false
	}
	rp := rn.Obj().Pkg().Path()
	if l.runtime && l.abstract != nil && l.abstract(orig) {
		return l.traitOp(e, s, orig.Name(), isPackedTraits(recv.Type()), cc.Signature().Results(), args, add)
	}
	if rp == modPath+"/ztype" && (!l.runtime || l.delta && rn.Obj().Name() == "DeltaContext") {
		switch rn.Obj().Name() {
		case "Array":
			return l.arrayOp(e, s, fr, orig, callee, args, add, false)
		case "ObjectArray":
			return l.arrayOp(e, s, fr, orig, callee, args, add, true)
		case "DeltaContext":
			tr := func(i int) *E { return l.normTraits(args[i]) }
			n := &node{t: "op", kind: "Ctx", obj: args[0]}
			switch orig.Name() {
			case "Init":
				n.dir, n.args, n.val = "i", []*E{args[0], tr(1)}, args[2]
				add(n)
				return nil, true
			case "Write":
				n.dir, n.args, n.val = "w", []*E{args[0], tr(1)}, args[3]
				add(n)
				return []*E{nilE}, true
			case "Read":
				k := kOth
				if r := callee.Signature.Results(); r.Len() > 0 {
					k = kindOf(r.At(0).Type())
				}
				n.dir, n.args, n.val = "r", []*E{args[0], tr(1)}, e.res(k)
				add(n)
				return []*E{n.val, nilE}, true
			case "BitSizeOf":
				n.dir, n.args, n.val = "s", []*E{args[0], tr(1)}, args[3]
				add(n)
				return []*E{x.mk("ctxsize", "", k64, args[0], tr(1), args[3]), nilE}, true
			}
		}
	}
	if strings.HasPrefix(rp, "gen/") && objMethods[orig.Name()] != "" {
		rt := recv.Type()
		return l.objOp(e, s, orig.Name(), rt, args, add)
	}
	return nil, false
}

func (l *lay) objOp(e *ex, s *st, name string, rt types.Type, args []*E, add func(*node)) ([]*E, bool) {
	x := l.x
	nilE := x.nil_
	tn := namedStr(rt)
	if tn == "" {
		tn = rt.String()
	}
	p := args[0]
	_, isPtr := rt.Underlying().(*types.Pointer)
	if _, ok := rt.(*types.TypeParam); ok {
		isPtr = true // PT constrained to *T
	}
	elemT := deref(rt)
	k := kindOf(elemT)
	n := &node{t: "op", dir: objMethods[name], kind: "Obj:" + tn, obj: p, typ: tn}
	packed := strings.Contains(name, "Packed") || strings.Contains(name, "Packing")
	if packed {
		n.kind = "PObj:" + tn
		if n.dir != "c" {
			n.args = append(n.args, args[1])
		}
	}
	value := func() *E {
		if !isPtr {
			return p
		}
		return l.stripParams(e.look(s.m, p, k, elemT), elemT)
	}
	snap := func() *E {
		if !isPtr {
			return x.mk("snap", "", kOth)
		}
		return l.snapshot(e, s.m, p, elemT)
	}
	switch n.dir {
	case "w":
		n.val = value()
		n.args = append(n.args, snap())
		add(n)
		return []*E{nilE}, true
	case "i":
		n.val = value()
		n.args = append(n.args, snap())
		add(n)
		return []*E{nilE}, true
	case "c":
		n.args = []*E{args[1]}
		n.val = nilE
		add(n)
		return []*E{nilE}, true
	case "r":
		n.args = append(n.args, snap())
		n.val = e.res(k)
		ps := l.paramFields(elemT)
		var keep []*E
		for _, f := range ps {
			keep = append(keep, e.look(s.m, x.fa(p, f), kOth, nil))
		}
		// the kinds of parameter values matter when they are read back
		if len(ps) > 0 {
			if sn := n.args[len(n.args)-1]; len(sn.args) == len(ps) {
				keep = sn.args
			}
		}
		e.store(s.m, p, n.val)
		for i, f := range ps {
			s.m.v[x.fa(p, f)] = keep[i]
		}
		add(n)
		return []*E{nilE}, true
	case "s":
		v := value()
		op := "objsize"
		as := []*E{v, snap()}
		if packed {
			op = "pobjsize"
			as = append(as, args[1], x.wide(args[2]))
		} else {
			as = append(as, x.wide(args[1]))
		}
		n.val = v
		n.args = append(n.args, as[1])
		add(n)
		return []*E{x.mk(op, tn, k64, as...), nilE}, true
	}
	return nil, false
}

func (l *lay) arrayOp(e *ex, s *st, fr *frame, orig, callee *ssa.Function, args []*E, add func(*node), object bool) ([]*E, bool) {
	x := l.x
	nilE := x.nil_
	name := orig.Name()
	dir := map[string]string{"MarshalZserio": "w", "UnmarshalZserio": "r", "ZserioBitSize": "s", "ZserioBitSizePacked": "s"}[name]
	if dir == "" {
		return nil, false
	}
	recvT := callee.Signature.Recv().Type()
	stt, ok := deref(recvT).Underlying().(*types.Struct)
	if !ok {
		giveUp("array receiver %s", recvT)
	}
	n := &node{t: "op", dir: dir, kind: "Arr", obj: args[0]}
	var elemT types.Type
	if nm := namedOf(recvT); nm != nil && nm.TypeArgs().Len() > 0 {
		elemT = nm.TypeArgs().At(0)
		n.typ = elemT.String()
		if a := namedStr(elemT); a != "" {
			n.typ = a
		}
	}
	if object {
		n.kind = "OArr:" + n.typ
	} else {
		n.kind = "Arr:" + n.typ
	}
	var names []string
	vals := map[string]*E{}
	var raw string
	var closure *E
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			raw = f.Name()
			continue
		case *types.Signature:
			if object && u.Params().Len() == 2 {
				if _, isP := u.Params().At(1).Type().Underlying().(*types.Pointer); isP {
					closure = e.look(s.m, x.fa(args[0], f.Name()), kOth, f.Type())
				}
			}
			continue
		case *types.Pointer:
			continue // the packing context
		}
		names = append(names, f.Name())
		vals[f.Name()] = e.look(s.m, x.fa(args[0], f.Name()), kindOf(f.Type()), f.Type())
	}
	sort.Strings(names)
	// ZserioBitSizePacked is the size of the array with IsPacked set (decided by C07)
	if name == "ZserioBitSizePacked" && vals["IsPacked"] != nil {
		vals["IsPacked"] = x.tru
	}
	cfg := x.mk("cfg", strings.Join(names, ";"), kOth)
	n.args = []*E{cfg}
	for _, nm := range names {
		n.args = append(n.args, l.normTraits(vals[nm]))
	}
	var list *E
	if object {
		if dir != "r" {
			list = args[1]
		}
	} else if raw != "" {
		list = e.look(s.m, x.fa(args[0], raw), kOth, nil)
	}
	// element parameters
	snap := x.mk("snap", "", kOth)
	if object && elemT != nil {
		if ps := l.paramFields(elemT); len(ps) > 0 {
			ix := x.ix("snap")
			var vs []*E
			if dir == "r" {
				pe := x.mk("p", "elem", kOth)
				m := s.m
				if closure != nil && closure.fn != nil {
					o := e.call(closure.fn.(*ssa.Function), []*E{ix, pe}, closure.args, s.m)
					if o.t != "ret" {
						giveUp("element parameter function")
					}
					m = o.m
					for _, f := range ps {
						v := e.look(m, x.fa(pe, f), kOth, nil)
						vs = append(vs, v)
					}
				} else {
					for range ps {
						vs = append(vs, x.mk("unset", "", kOth))
					}
				}
			} else {
				for _, f := range ps {
					vs = append(vs, e.look(s.m, x.fa(x.ia(list, ix), f), kOth, nil))
				}
			}
			snap = x.mk("snap", strings.Join(ps, ";"), kOth, vs...)
		}
	}
	n.args = append(n.args, snap)
	switch dir {
	case "w":
		n.val = list
		add(n)
		return []*E{nilE}, true
	case "r":
		n.val = e.res(kOth)
		add(n)
		if object {
			return []*E{n.val, nilE}, true
		}
		e.store(s.m, x.fa(args[0], raw), n.val)
		return []*E{nilE}, true
	}
	n.val = list
	add(n)
	op := "arrsize"
	as := append([]*E{list}, n.args...)
	as = append(as, x.wide(args[len(args)-1]))
	return []*E{x.mk(op, n.kind, k64, as...), nilE}, true
}

// --- comparing summaries

// flat turns an outcome into a node list ending in a terminator.
func flat(o *out) []*node {
	l := append([]*node{}, o.seq...)
	switch o.t {
	case "ret":
		l = append(l, &node{t: "ret", m: o.m, rets: o.rets, pos: o.pos})
	case "reject":
		l = append(l, &node{t: "reject", pos: o.pos})
	case "branch":
		l = append(l, &node{t: "if", cond: o.cond, a: o.a, b: o.b, pos: o.pos})
	}
	return l
}

func hasTerm(o *out) bool {
	if o.t == "ret" || o.t == "reject" || o.t == "branch" {
		return true
	}
	return false
}

type envt struct {
	x *X
	a map[*E]*E // facts
	r map[*E]*E // decoder results
}

func newEnv(x *X) *envt { return &envt{x, map[*E]*E{}, map[*E]*E{}} }

func (v *envt) clone() *envt {
	n := newEnv(v.x)
	for k, e := range v.a {
		n.a[k] = e
	}
	for k, e := range v.r {
		n.r[k] = e
	}
	return n
}

func (v *envt) simp(e *E) *E {
	if e == nil {
		return nil
	}
	for i := 0; i < 12; i++ {
		o := e
		if len(v.r) > 0 {
			e = v.x.subst(e, v.r)
		}
		if len(v.a) > 0 {
			e = v.x.subst(e, v.a)
		}
		if e == o {
			break
		}
	}
	return e
}

func (v *envt) assume(c *E, val bool) {
	x := v.x
	for c.op == "not" {
		c, val = c.args[0], !val
	}
	if c.op == "c" {
		return
	}
	v.a[c] = x.boolc(val)
	if c.op == "ite" {
		p, a, b := c.args[0], c.args[1], c.args[2]
		if val && b == x.fls {
			v.assume(p, true)
			v.assume(a, true)
		}
		if !val && b == x.tru {
			v.assume(p, true)
			v.assume(a, false)
		}
		if val && a == x.fls {
			v.assume(p, false)
			v.assume(b, true)
		}
		if !val && a == x.tru {
			v.assume(p, false)
			v.assume(b, false)
		}
	}
	if val && c.op == "eq" && c.args[1].isConst() && !c.args[0].isConst() && c.args[0].k.cls == 'i' {
		if _, ok := v.a[c.args[0]]; !ok && c.args[0].op != "len" {
			v.a[c.args[0]] = c.args[1]
		}
	}
}

type wrote struct {
	val *E
	env *envt
	typ string
	pos token.Pos
	n   string
}

type cmp struct {
	yrets  []*E // the decoder's results, for final
	diff   string
	splits int
	l      *lay
	x      *X
	e      *ex
	wr     []wrote
	ops    int
	budget int
	dec    *E // the decoder's receiver
	enc    *E // the encoder's receiver
	final  func(c *cmp, env *envt, m *mem, rets []*E) string
	// same compares two summaries of the same direction: operations for
	// which keep holds must agree in kind, arguments and value.
	same bool
	keep func(*node) bool
	uns  bool // signed and unsigned fields of one width are the same bits
}

func (c *cmp) norm(l []*node, env *envt, enc bool) ([]*node, string, bool) {
	for len(l) > 0 {
		h := l[0]
		switch h.t {
		case "op":
			if !c.kept(h) {
				l = l[1:]
				continue
			}
		case "if":
			k := env.simp(h.cond)
			if k.op == "c" {
				arm := h.a
				if k == c.x.fls {
					arm = h.b
				}
				l = append(flat(arm), l[1:]...)
				continue
			}
			if !c.effects(flat(h.a), env) && !c.effects(flat(h.b), env) {
				l = l[1:]
				continue
			}
		case "require":
			k := env.simp(h.cond)
			if k == c.x.fls {
				if enc {
					return nil, "", true
				}
				if c.same {
					return nil, "", true
				}
				return nil, fmt.Sprintf("%s: the decoder rejects what the encoder writes (%s)", c.e.w.relPos(h.pos), h.cond), false
			}
			if k != c.x.tru {
				if !enc && !c.same && !onlyAssumed(k) {
					return nil, fmt.Sprintf("%s: the decoder only accepts data with %s, which the encoder does not ensure", c.e.w.relPos(h.pos), k), false
				}
				env.assume(k, true)
			}
			l = l[1:]
			continue
		case "loop":
			n := env.simp(h.cnt)
			k := env.simp(c.x.lt(c.x.int(0), n))
			if k == c.x.fls || !c.effects(h.body, env) {
				l = l[1:]
				continue
			}
		}
		break
	}
	return l, "", false
}

// onlyAssumed: conditions about the kind of a packing context, settled by the
// check of the context tree.
func onlyAssumed(k *E) bool { return k.op == "taok" }

func (c *cmp) kept(n *node) bool {
	if c.keep != nil {
		return c.keep(n)
	}
	return n.dir == "w" || n.dir == "r"
}

// effects: whether nodes can do anything that counts under env.
func (c *cmp) effects(l []*node, env *envt) bool {
	for _, n := range l {
		switch n.t {
		case "op":
			if c.kept(n) {
				return true
			}
		case "if":
			k := env.simp(n.cond)
			if k != c.x.fls && c.effects(flat(n.a), env) || k != c.x.tru && c.effects(flat(n.b), env) {
				return true
			}
		case "loop":
			if c.effects(n.body, env) {
				return true
			}
		case "ret", "reject", "require":
			return true
		}
	}
	return false
}

func opStr(n *node) string {
	if n == nil {
		return "nothing"
	}
	switch n.t {
	case "op":
		s := n.kind
		for _, a := range n.args {
			if a.op == "snap" && len(a.args) == 0 {
				continue
			}
			s += " " + a.String()
		}
		if n.val != nil && n.dir == "w" {
			s += " of " + n.val.String()
		}
		return s
	case "ret":
		return "the end"
	case "loop":
		return "a loop over " + n.cnt.String()
	case "if":
		return "a choice on " + n.cond.String()
	}
	return n.t
}

// match compares the encoder's list a with the decoder's list b; "" is equal.
func (c *cmp) match(a, b []*node, env *envt) string {
	c.budget--
	if c.budget < 0 {
		giveUp("comparison too large")
	}
	for {
		var why string
		var dead bool
		a, why, dead = c.norm(a, env, true)
		if dead || why != "" {
			return why
		}
		if len(a) > 0 && a[0].t == "reject" {
			return ""
		}
		b, why, dead = c.norm(b, env, false)
		if dead || why != "" {
			return why
		}
		a, _, dead = c.norm(a, env, true)
		if dead {
			return ""
		}
		var x, y *node
		if len(a) > 0 {
			x = a[0]
		}
		if len(b) > 0 {
			y = b[0]
		}
		if x == nil && y == nil {
			return ""
		}
		at := func(n *node) string {
			if n == nil {
				return "-"
			}
			return c.e.w.relPos(n.pos)
		}
		// equal conditions: match the arms by themselves
		if x != nil && y != nil && x.t == "if" && y.t == "if" {
			cx, cy := env.simp(x.cond), env.simp(y.cond)
			ya, yb := y.a, y.b
			if cx == c.x.not(cy) {
				cy = cx
				ya, yb = yb, ya
			}
			if cx == cy && !hasTerm(x.a) && !hasTerm(x.b) && !hasTerm(ya) && !hasTerm(yb) {
				save := len(c.wr)
				e1, e2 := env.clone(), env.clone()
				e1.assume(cx, true)
				e2.assume(cx, false)
				w1 := c.match(flat(x.a), flat(ya), e1)
				w2 := ""
				if w1 == "" {
					w2 = c.match(flat(x.b), flat(yb), e2)
				}
				if w1 == "" && w2 == "" {
					for k, v := range e1.r {
						env.r[k] = v
					}
					for k, v := range e2.r {
						env.r[k] = v
					}
					a, b = a[1:], b[1:]
					continue
				}
				c.wr = c.wr[:save]
			}
		}
		if x != nil && x.t == "if" || y != nil && y.t == "if" {
			n, isA := x, true
			if x == nil || x.t != "if" {
				n, isA = y, false
			}
			_ = isA
			k := env.simp(n.cond)
			at := atomOf(k)
			var es [2]*envt
			for i, v := range []bool{true, false} {
				e2 := env.clone()
				e2.assume(at, v)
				save := len(c.wr)
				if w := c.match(a, b, e2); w != "" {
					return w
				}
				if endsRet(a) {
					c.wr = c.wr[:save]
				}
				es[i] = e2
			}
			for k, v := range es[0].r {
				if v2, ok := es[1].r[k]; ok && v2 != v {
					v = c.x.ite(at, v, v2)
				}
				env.r[k] = v
			}
			for k, v := range es[1].r {
				if _, ok := env.r[k]; !ok {
					env.r[k] = v
				}
			}
			return ""
		}
		if x != nil && x.t == "reject" {
			return ""
		}
		if y != nil && y.t == "reject" {
			if c.same {
				return ""
			}
			return fmt.Sprintf("%s: the decoder rejects what the encoder (%s) writes", at(y), at(x))
		}
		if x != nil && y != nil && x.t == "ret" && y.t == "ret" {
			if c.final != nil {
				c.yrets = y.rets
				return c.final(c, env, y.m, x.rets)
			}
			return ""
		}
		if x == nil || y == nil || x.t != y.t {
			return fmt.Sprintf("%s writes %s where %s reads %s", at(x), opStr(x), at(y), opStr(y))
		}
		if x.t == "loop" {
			nx, ny := env.simp(x.cnt), env.simp(y.cnt)
			if nx != ny {
				return fmt.Sprintf("%s: %s elements are written, %s: %s elements are read", at(x), nx, at(y), ny)
			}
			e2 := env.clone()
			if w := c.match(x.body, renameIx(c.x, y.body, y.d, x.d), e2); w != "" {
				return w
			}
			for k, v := range e2.r {
				env.r[k] = v
			}
			a, b = a[1:], b[1:]
			continue
		}
		if why := c.matchOp(x, y, env); why != "" {
			return why
		}
		a, b = a[1:], b[1:]
	}
}

func renameIx(x *X, b []*node, from, to string) []*node {
	if from == to {
		return b
	}
	giveUp("loops nested differently")
	return nil
}

func endsRet(l []*node) bool {
	if len(l) == 0 {
		return false
	}
	n := l[len(l)-1]
	return n.t == "ret" || n.t == "reject" || n.t == "if" && (hasTerm(n.a) || hasTerm(n.b))
}

// atomOf picks an undecided atomic condition of k.
func atomOf(k *E) *E {
	for {
		switch k.op {
		case "not":
			k = k.args[0]
			continue
		case "ite":
			k = k.args[0]
			continue
		case "eq", "lt", "ult":
			if i := findIte(k); i != nil {
				k = i.args[0]
				continue
			}
		}
		return k
	}
}

func findIte(e *E) *E {
	var best *E
	seen := map[*E]bool{}
	var f func(e *E)
	f = func(e *E) {
		if seen[e] {
			return
		}
		seen[e] = true
		if e.op == "ite" && (best == nil || e.h < best.h) {
			best = e
		}
		if e.op == "mapl" || e.op == "fold" || e.op == "sum" {
			f(e.args[0])
			return
		}
		for _, a := range e.args {
			f(a)
		}
	}
	f(e)
	return best
}

func (c *cmp) matchOp(x, y *node, env *envt) string {
	where := func() string {
		return fmt.Sprintf("%s writes %s, %s reads %s", c.e.w.relPos(x.pos), opStr(x), c.e.w.relPos(y.pos), opStr(y))
	}
	if c.same {
		if x.kind != y.kind || len(x.args) != len(y.args) {
			return where()
		}
		for i := range x.args {
			if !c.eqUnder(x.args[i], y.args[i], env, 8) {
				return where() + fmt.Sprintf(" (%s is not %s)", x.args[i], y.args[i])
			}
		}
		if !c.eqUnder(x.val, y.val, env, 8) {
			return where() + fmt.Sprintf(" (%s is not %s)", x.val, y.val)
		}
		c.ops++
		return ""
	}
	if x.kind == "NewCtx" && y.kind == "NewCtx" {
		c.ops++
		return ""
	}
	kinds := x.kind == y.kind || c.uns && strings.Contains("US", x.kind) && strings.Contains("US", y.kind)
	if x.dir != "w" || y.dir != "r" || !kinds || len(x.args) != len(y.args) {
		return where()
	}
	for i := range x.args {
		p, q := env.simp(x.args[i]), env.simp(y.args[i])
		if p != q && !c.eqUnder(p, q, env, 8) {
			return where() + fmt.Sprintf(" (%s is not %s)", p, q)
		}
	}
	c.ops++
	env.r[y.val] = env.simp(x.val)
	if x.kind == "Align" {
		return ""
	}
	c.wr = append(c.wr, wrote{x.val, env.clone(), x.typ, x.pos, opStr(x)})
	return ""
}

// eqUnder compares two expressions, splitting on the gates inside them.
func (c *cmp) eqUnder(p, q *E, env *envt, depth int) bool {
	p, q = env.simp(p), env.simp(q)
	if p == q {
		return true
	}
	if p.op == "snap" && q.op == "snap" && p.s == q.s && len(p.args) == len(q.args) {
		for i := range p.args {
			if !c.eqUnder(p.args[i], q.args[i], env, depth) {
				return false
			}
		}
		return true
	}
	var g *E
	if p.k.cls == 'i' && q.k.cls == 'i' {
		g = findIte(c.x.sub(p, q))
	}
	if g == nil {
		g = findIte(p)
	}
	if g == nil {
		g = findIte(q)
	}
	if g == nil || depth == 0 {
		if depth == 0 && g != nil {
			giveUp("too many gates to compare")
		}
		if p.k.cls == 'i' && q.k.cls == 'i' {
			c.diff = c.x.sub(p, q).String()
		} else {
			c.diff = p.String() + " <> " + q.String()
		}
		return false
	}
	if c.splits++; c.splits > 3000 {
		giveUp("too many cases to compare")
	}
	at := atomOf(g.args[0])
	for _, v := range []bool{true, false} {
		e2 := env.clone()
		e2.assume(at, v)
		if !c.eqUnder(p, q, e2, depth-1) {
			return false
		}
	}
	return true
}
