package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: the effect summary of every generated encoder is compared with what the
// schema, read independently, says it must write.

// zval is the value of a schema expression over a generated value.
type zval struct {
	e    *E
	addr *E
	gt   types.Type
	rt   *rtype
	arr  bool
	recv *E // functions: what they are called on
	rgt  types.Type
	rsc  *zscope
	fn   *zfunc
}

// wire builds expectations for one generated type.
type wire struct {
	s  *session
	x  *X
	w  *World
	z  *zschema
	ix *E
	// packed: what is written inside a packed array
	packed bool
	reqs   map[*E]bool // conditions the encoder may insist on
	ctxs   map[*E]*E   // delta contexts, to the member they are used for
	wrong  string
}

func (c *wire) at(sc *zscope, recv *E, gt types.Type, f *zfield) zval {
	v := goField(gt, f.name)
	if v == nil {
		giveUp("no Go field for %s", f.name)
	}
	x := c.x
	p := x.fa(recv, v.Name())
	t := v.Type()
	val := x.ld(p, kindOf(t))
	if pt, ok := types.Unalias(t).(*types.Pointer); ok && f.optional {
		p, t = val, pt.Elem()
		val = x.ld(p, kindOf(t))
	}
	r := zval{e: val, addr: p, gt: t, rt: sc.resolve(f.typ), arr: f.array}
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		// compound parameters are pointers
		r.addr, r.gt = val, pt.Elem()
	}
	return r
}

func (c *wire) int(e *E) *E {
	if e == nil || e.k.cls != 'i' {
		giveUp("not an integer")
	}
	return c.x.wide(e)
}

func (c *wire) boolean(e *E) *E {
	if e == nil || e.k.cls != 'b' {
		giveUp("not a condition")
	}
	return e
}

func try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unk); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// eval gives a schema expression the value it has for the object at recv.
func (c *wire) eval(sc *zscope, recv *E, gt types.Type, e *zexpr) zval {
	x := c.x
	var k cv
	if try(func() { k = sc.constantNoMember(e) }) {
		switch k.k {
		case 'i':
			return zval{e: x.int(k.i)}
		case 'b':
			return zval{e: x.boolc(k.b)}
		}
		giveUp("constant of another type")
	}
	in := func(i int) *E { return c.int(c.eval(sc, recv, gt, e.a[i]).e) }
	bo := func(i int) *E { return c.boolean(c.eval(sc, recv, gt, e.a[i]).e) }
	switch e.op {
	case "id":
		if sc.decl == nil {
			giveUp("%s is not found", e.s)
		}
		for _, p := range append(append([]*zfield{}, sc.decl.params...), sc.decl.allFields()...) {
			if p.name == e.s {
				return c.at(sc, recv, gt, p)
			}
		}
		for _, f := range sc.decl.funcs {
			if f.name == e.s {
				return zval{fn: f, recv: recv, rgt: gt, rsc: sc}
			}
		}
		giveUp("%s is not found", e.s)
	case "index":
		if c.ix == nil {
			giveUp("@index outside of an array")
		}
		return zval{e: c.ix}
	case ".":
		l := c.eval(sc, recv, gt, e.a[0])
		if l.rt == nil || l.rt.decl == nil || l.addr == nil || l.arr {
			giveUp("member of no compound")
		}
		return c.eval(l.rt.scope(c.z), l.addr, l.gt, &zexpr{op: "id", s: e.s, line: e.line})
	case "call":
		f := c.eval(sc, recv, gt, e.a[0])
		if f.fn == nil {
			giveUp("call of no function")
		}
		r := c.eval(f.rsc, f.recv, f.rgt, f.fn.body)
		return r
	case "[]":
		l := c.eval(sc, recv, gt, e.a[0])
		i := in(1)
		sl, ok := l.gt.Underlying().(*types.Slice)
		if !ok || !l.arr {
			giveUp("index into no array")
		}
		p := x.ia(l.e, i)
		return zval{addr: p, e: x.ld(p, kindOf(sl.Elem())), gt: sl.Elem(), rt: l.rt}
	case "lengthof":
		l := c.eval(sc, recv, gt, e.a[0])
		if !l.arr {
			giveUp("length of no array")
		}
		return zval{e: x.len(l.e)}
	case "valueof", "u+":
		return zval{e: in(0)}
	case "u-":
		return zval{e: x.mul(x.int(-1), in(0))}
	case "!":
		return zval{e: x.not(bo(0))}
	case "isset":
		a, b := in(0), in(1)
		return zval{e: x.not(c.zeroEq(c.abs(token.AND, a, b)))}
	case "?:":
		p := bo(0)
		a, b := c.eval(sc, recv, gt, e.a[1]).e, c.eval(sc, recv, gt, e.a[2]).e
		if a == nil || b == nil {
			giveUp("choice of no values")
		}
		if a.k.cls == 'i' {
			a, b = c.int(a), c.int(b)
		}
		return zval{e: x.ite(p, a, b)}
	case "&&":
		return zval{e: x.ite(bo(0), bo(1), x.fls)}
	case "||":
		return zval{e: x.ite(bo(0), x.tru, bo(1))}
	case "==", "!=":
		a, b := c.eval(sc, recv, gt, e.a[0]).e, c.eval(sc, recv, gt, e.a[1]).e
		if a == nil || b == nil || a.k.cls != b.k.cls || a.k.cls != 'i' && a.k.cls != 'b' {
			giveUp("comparison of other values")
		}
		r := x.eq(a, b)
		if e.op == "!=" {
			r = x.not(r)
		}
		return zval{e: r}
	case "<":
		return zval{e: x.lt(in(0), in(1))}
	case ">":
		return zval{e: x.lt(in(1), in(0))}
	case "<=":
		return zval{e: x.not(x.lt(in(1), in(0)))}
	case ">=":
		return zval{e: x.not(x.lt(in(0), in(1)))}
	case "+":
		return zval{e: x.add(in(0), in(1))}
	case "-":
		return zval{e: x.sub(in(0), in(1))}
	case "*":
		return zval{e: x.mul(in(0), in(1))}
	}
	if t, ok := map[string]token.Token{"/": token.QUO, "%": token.REM, "<<": token.SHL, ">>": token.SHR, "&": token.AND, "|": token.OR, "^": token.XOR}[e.op]; ok {
		return zval{e: c.abs(t, in(0), in(1))}
	}
	giveUp("%s is not modelled", e.op)
	return zval{}
}

// constantNoMember evaluates constants, and gives up on names of members.
func (sc *zscope) constantNoMember(e *zexpr) cv {
	if sc.decl != nil {
		var chk func(e *zexpr)
		chk = func(e *zexpr) {
			if e.op == "id" && sc.member(e.s) {
				giveUp("a member")
			}
			for _, a := range e.a {
				chk(a)
			}
		}
		chk(e)
	}
	return sc.constant(e)
}

var kAbs = kind{'i', 32, false}

// abs is an operation on mathematical integers that are not negative.
func (c *wire) abs(t token.Token, a, b *E) *E {
	x := c.x
	a, b = x.wide(a), x.wide(b)
	if a.isInt() && b.isInt() {
		return x.wide(x.binK(t, a, b, k64))
	}
	if t == token.SHL && b.isInt() && b.c >= 0 && b.c < 63 {
		return x.mul(x.int(1<<uint(b.c)), a)
	}
	if (t == token.AND || t == token.OR || t == token.XOR) && a.id > b.id {
		a, b = b, a
	}
	return x.wide(x.mk("abs"+t.String(), "", kAbs, a, b))
}

// zeroEq is e == 0, for an e of unsigned parts.
func (c *wire) zeroEq(e *E) *E {
	x := c.x
	e = x.wide(e)
	if e.isInt() {
		return x.boolc(e.c == 0)
	}
	if e.op == "lin" && len(e.args) == 1 && (e.co[0] == 1 || e.co[0] == -1) {
		return x.mk("eq", "", kBool, e.args[0], x.int(-e.c*e.co[0]))
	}
	return x.mk("eq", "", kBool, e, x.int(0))
}

func (c *wire) unsigned(e *E) bool {
	return !c.x.has(e, func(e *E) bool {
		return e.k.cls == 'i' && e.k.s && (e.op == "ld" || e.op == "elem" || e.op == "fld")
	})
}

// canonBool gives conditions about zero one form.
func (c *wire) canonBool(r *E) *E {
	x := c.x
	if r.op == "not" {
		return x.not(c.canonBool(r.args[0]))
	}
	zero := func(e *E) bool { return e.isInt() && e.c == 0 }
	if r.op == "lt" && zero(r.args[0]) && c.unsigned(r.args[1]) {
		return x.not(c.zeroEq(r.args[1]))
	}
	if r.op == "lt" && r.args[1].isInt() && r.args[1].c == 1 && c.unsigned(r.args[0]) {
		return c.zeroEq(r.args[0])
	}
	return r
}

// strip removes the Go integer types from an expression: what is left is its
// value over the mathematical integers.
func (c *wire) strip(e *E, memo map[*E]*E) *E {
	if e == nil {
		return nil
	}
	if r, ok := memo[e]; ok {
		return r
	}
	x := c.x
	var r *E
	if len(e.args) == 0 {
		r = e
		if r.k.cls == 'i' {
			r = x.wide(r)
		}
		memo[e] = r
		return r
	}
	var as []*E
	for _, a := range e.args {
		as = append(as, c.strip(a, memo))
	}
	isInt := func(i int) bool { return as[i].k.cls == 'i' }
	if e.op == "eq" || e.op == "lt" || e.op == "ult" || strings.HasPrefix(e.op, "op") {
		// a member is not cut down to fewer bits to take part in an operation
		for i, a := range e.args {
			for a.op == "cv" && a.k.cls == 'i' && a.args[0].k.cls == 'i' && a.k.w >= a.args[0].k.w {
				a = a.args[0]
			}
			if a.op == "cv" && a.k.cls == 'i' && a.args[0].op == "ld" && a.args[0].k.cls == 'i' {
				as[i] = x.mk(fmt.Sprintf("low%d", a.k.w), "", k64, as[i])
			}
		}
	}
	switch {
	case e.op == "cv" && e.k.cls == 'i' && isInt(0):
		r = x.wide(as[0])
	case e.op == "eq" && isInt(0) && isInt(1):
		r = c.canonBool(x.eq(as[0], as[1]))
	case e.op == "lt" || e.op == "ult":
		r = c.canonBool(x.lt(as[0], as[1]))
	case strings.HasPrefix(e.op, "op") && e.k.cls == 'i' && len(as) == 2:
		for _, t := range intOps {
			if s, ok := strings.CutPrefix(e.op, "op"+t.String()); ok && len(s) > 1 && (s[0] == 'u' || s[0] == 's') {
				r = c.abs(t, as[0], as[1])
				break
			}
		}
		if r == nil {
			r = x.rebuild(e, as)
		}
	case strings.HasPrefix(e.op, "abs"):
		r = x.mk(e.op, "", kAbs, as...)
	case e.op == "snap":
		r = x.mk("snap", e.s, e.k, as...)
	case e.op == "mapl":
		b := as[1]
		for b.op == "cv" {
			b = b.args[0]
		}
		r = x.mapl(as[0], b, e.s)
	default:
		r = x.rebuild(e, as)
	}
	if r.k.cls == 'i' {
		r = x.wide(r)
	}
	memo[e] = r
	return r
}

// traitsCodec is how a runtime array traits value writes its elements.
func (c *wire) traitsCodec(t *E) (kind string, width *E) {
	for t.op == "cv" || t.op == "mki" {
		t = t.args[0]
	}
	str := t.String()
	for t.op == "ld" {
		t = t.args[0]
	}
	if strings.HasPrefix(t.op, "call") {
		if len(t.args) != 1 {
			giveUp("array traits %s", str)
		}
		if strings.Contains(t.String(), "GetSignedBitFieldArrayTraits") {
			return "S", t.args[0]
		}
		if strings.Contains(t.String(), "GetBitFieldArrayTraits") {
			return "U", t.args[0]
		}
	}
	if t.op == "fa" && strings.HasSuffix(t.args[0].String(), "ztype.ArrayTraits") {
		k, n := c.w.staticTraits(t.s)
		if k != "" {
			return k, c.x.int(n)
		}
	}
	giveUp("array traits %s", str)
	return
}

// staticTraits says how the traits in a field of ztype.ArrayTraits write.
func (w *World) staticTraits(field string) (string, int64) {
	if w.static == nil {
		w.static = map[string][2]any{}
		w.findStatic()
	}
	r, ok := w.static[field]
	if !ok {
		return "", 0
	}
	return r[0].(string), r[1].(int64)
}

// findStatic reads the initialisation of ztype.ArrayTraits.
func (w *World) findStatic() {
	p := w.SSA[modPath+"/ztype"]
	if p == nil {
		return
	}
	in := p.Func("init")
	g := p.Var("ArrayTraits")
	if in == nil || g == nil {
		return
	}
	num := map[ssa.Value]int64{} // traits objects, to their NumBits
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
				if deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "NumBits" {
					num[fa.X] = k.Int64()
				}
			}
		}
	}
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), deref(g.Type())) {
				continue
			}
			fn := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
			n := namedOf(st.Val.Type())
			if n == nil {
				continue
			}
			k, wd := w.traitsWrites(n)
			if k == "" && os.Getenv("ZSV_DEBUG") != "" {
				fmt.Println("TRAITS", n)
			}
			if k != "" {
				if wd == -1 {
					wd = num[st.Val]
				}
				w.static[fn] = [2]any{k, wd}
			}
		}
	}
}

// traitsWrites finds the single wire operation of a traits type's Write; the
// width is -1 if it is the NumBits field.
func (w *World) traitsWrites(n *types.Named) (kind string, width int64) {
	_ = guarded(func() error {
		x := newX()
		l := &lay{w: w, x: x, params: map[string][]string{}}
		e := &ex{x: x, w: w, leaf: l.leaf}
		fn := l.method(n.Origin(), "Write")
		if fn == nil {
			return nil
		}
		var as []*E
		for i, p := range fn.Params {
			as = append(as, x.mk("p", []string{"t", "stream", "value"}[i], kindOf(p.Type())))
		}
		o, err := e.summarise(fn, as, nil)
		if err != nil {
			return err
		}
		var ops []*node
		walkOps(flat(o), func(n *node) { ops = append(ops, n) })
		if len(ops) != 1 || ops[0].dir != "w" {
			return nil
		}
		op := ops[0]
		if op.kind == "U" || op.kind == "S" {
			wd := op.args[0]
			for wd.op == "cv" {
				wd = wd.args[0]
			}
			switch {
			case wd.isInt():
				kind, width = op.kind, wd.c
			case wd.op == "ld" && wd.args[0].op == "fa" && wd.args[0].s == "NumBits",
				wd.op == "fld" && wd.s == "NumBits":
				kind, width = op.kind, -1
			}
			return nil
		}
		kind = op.kind
		return nil
	})
	return
}

// --- expected operations

func (c *wire) seqOut(l []*node) *out { return &out{t: "fall", seq: l} }

func (c *wire) op(kind string, val *E, args ...*E) *node {
	return &node{t: "op", dir: "w", kind: kind, val: val, args: args}
}

func (c *wire) when(cond *E, l []*node) []*node {
	if cond == c.x.tru {
		return l
	}
	if cond == c.x.fls {
		return nil
	}
	return []*node{{t: "if", cond: cond, a: c.seqOut(l), b: c.seqOut(nil)}}
}

// expWidth is the width of a bit field type.
func (c *wire) expWidth(r *rtype, recv *E, gt types.Type) *E {
	if r.bits > 0 {
		return c.x.int(r.bits)
	}
	if r.width != nil {
		return c.int(c.eval(r.wsc, recv, gt, r.width).e)
	}
	giveUp("bit field without a width")
	return nil
}

// codec is the wire element of a builtin type.
func (c *wire) codec(r *rtype, recv *E, gt types.Type) (string, *E) {
	k, n := builtinWire(r.name)
	if n > 0 {
		return k, c.x.int(n)
	}
	if k == "U" || k == "S" {
		return k, c.expWidth(r, recv, gt)
	}
	return k, nil
}

var packable = map[string]bool{"U": true, "S": true, "Varint": true, "Varint16": true, "Varint32": true, "Varint64": true, "Varuint": true, "Varuint16": true, "Varuint32": true, "Varuint64": true, "Varsize": true}

// snapOf are the parameter values handed to a compound.
func (c *wire) snapOf(sc *zscope, recv *E, gt types.Type, f *zfield, r *rtype, elem types.Type) *E {
	x := c.x
	if len(r.decl.params) == 0 {
		return x.mk("snap", "", kOth)
	}
	if len(f.typ.args) != len(r.decl.params) {
		giveUp("%s: other number of arguments", f.name)
	}
	ps := c.s.l.paramFields(elem)
	var vs []*E
	for _, p := range ps {
		var v *E
		for i, d := range r.decl.params {
			if normName(d.name) == normName(p) {
				v = c.eval(sc, recv, gt, f.typ.args[i]).e
			}
		}
		if v == nil {
			giveUp("parameter %s of %s", p, f.name)
		}
		vs = append(vs, v)
	}
	return x.mk("snap", strings.Join(ps, ";"), kOth, vs...)
}

func goElem(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = types.Unalias(s.Elem())
	}
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	return t
}

// scalar is how a value of a builtin type is written.
func (c *wire) scalar(r *rtype, recv *E, gt types.Type, val *E) *node {
	k, wd := c.codec(r, recv, gt)
	if c.packed && packable[k] {
		k = "Ctx:" + k
	}
	n := c.op(k, val)
	if wd != nil {
		n.args = []*E{wd}
	}
	return n
}

// objType finds the generated type that carries the encoder of a member's
// type; Go types defined as subtypes are followed through the encoder's use.
func (c *wire) field(sc *zscope, recv *E, gt types.Type, f *zfield) []*node {
	x := c.x
	r := sc.resolve(f.typ)
	at := c.at(sc, recv, gt, f)
	var body []*node
	val := at.e
	switch {
	case f.array:
		var fixed, auto *E = x.int(0), x.tru
		var req []*node
		if f.length != nil {
			fixed, auto = c.int(c.eval(sc, recv, gt, f.length).e), x.fls
			req = append(req, &node{t: "require", cond: x.eq(x.len(val), fixed)})
		}
		packed := x.boolc(f.packed || c.packed)
		if r.decl == nil {
			k, wd := c.codec(r, recv, gt)
			if !packable[k] {
				packed = x.mk("any", "", kOth)
			}
			kind := "Arr:" + k
			args := []*E{fixed, auto, packed}
			if wd != nil {
				args = append(args, wd)
			}
			body = append(req, c.op(kind, val, args...))
		} else {
			old := c.ix
			c.ix = x.ix("snap")
			snap := c.snapOf(sc, recv, gt, f, r, goElem(at.gt))
			c.ix = old
			body = append(req, c.op("OArr:"+r.key(), val, fixed, auto, packed, snap))
		}
	case r.decl == nil:
		body = []*node{c.scalar(r, recv, gt, val)}
	default:
		k := "Obj:"
		if c.packed {
			k = "PObj:"
		}
		body = []*node{c.op(k+r.key(), val, c.snapOf(sc, recv, gt, f, r, goElem(at.gt)))}
	}
	var al *node
	if f.align != nil {
		k := sc.constant(f.align)
		al = c.op("Align", nil, x.int(k.i))
	}
	var l []*node
	if al != nil && !c.packed {
		l = append(l, al)
	}
	if f.optional {
		v := goField(gt, f.name)
		present := x.not(x.eq(x.ld(x.fa(recv, v.Name()), kindOf(v.Type())), x.nil_))
		l = append(l, c.op("Bool", present))
		if al != nil && c.packed {
			body = append([]*node{al}, body...)
		}
		l = append(l, c.when(present, body)...)
	} else {
		if al != nil && c.packed {
			l = append(l, al)
		}
		l = append(l, body...)
	}
	if f.cond != nil {
		l = c.when(c.boolean(c.eval(sc, recv, gt, f.cond).e), l)
	}
	return l
}

// expect builds what the encoder of a schema type must do.
func (c *wire) expect(r *rtype, gt *types.Named) []*node {
	x := c.x
	d := r.decl
	sc := r.scope(c.z)
	v := c.s.v()
	switch d.kind {
	case "enum", "bitmask":
		base := (&zscope{z: c.z, pkg: d.pkg}).resolve(d.typ)
		return []*node{c.scalar(base, v, gt, x.ld(v, kindOf(gt.Underlying())))}
	case "struct":
		var l []*node
		for _, f := range d.fields {
			l = append(l, c.field(sc, v, gt, f)...)
		}
		return l
	case "union":
		fv := goField(gt, "UnionChoice")
		if fv == nil {
			giveUp("no union tag")
		}
		tag := x.ld(x.fa(v, fv.Name()), kindOf(fv.Type()))
		k := "Varsize"
		if c.packed {
			k = "Ctx:" + k
		}
		l := []*node{c.op(k, tag)}
		for i, f := range d.fields {
			l = append(l, c.when(x.eq(x.wide(tag), x.int(int64(i+1))), c.field(sc, v, gt, f))...)
		}
		return l
	case "choice":
		sv := c.eval(sc, v, gt, d.selector)
		sel := sv.e
		if sel == nil || sel.k.cls != 'b' {
			sel = c.int(sel)
		}
		csc := *sc
		if sv.rt != nil && sv.rt.decl != nil && sv.rt.decl.kind == "enum" {
			csc.enum = sv.rt.decl
		}
		var rest []*node
		cs := append([]*zcase{}, d.cases...)
		sort.SliceStable(cs, func(i, j int) bool { return len(cs[i].conds) > 0 && len(cs[j].conds) == 0 })
		for i := len(cs) - 1; i >= 0; i-- {
			var arm []*node
			if cs[i].f != nil {
				arm = c.field(sc, v, gt, cs[i].f)
			}
			if len(cs[i].conds) == 0 {
				rest = arm
				continue
			}
			for j := len(cs[i].conds) - 1; j >= 0; j-- {
				k := csc.constant(cs[i].conds[j])
				var cond *E
				switch {
				case k.k == 'i' && sel.k.cls != 'b':
					cond = x.eq(sel, x.int(k.i))
				case k.k == 'b' && sel.k.cls == 'b' && k.b:
					cond = sel
				case k.k == 'b' && sel.k.cls == 'b':
					cond = x.not(sel)
				default:
					giveUp("case of another type")
				}
				rest = []*node{{t: "if", cond: cond, a: c.seqOut(arm), b: c.seqOut(rest)}}
			}
		}
		return rest
	}
	giveUp("a %s", d.kind)
	return nil
}

// conv rewrites the nodes of a generated encoder to the form of expectations.
func (c *wire) conv(l []*node, memo map[*E]*E, obj func(string) string) []*node {
	x := c.x
	var r []*node
	st := func(e *E) *E { return c.strip(e, memo) }
	for _, n := range l {
		m := *n
		m.cond, m.cnt = st(n.cond), st(n.cnt)
		if n.t == "reject" && obj != nil && c.wrong == "" {
			c.wrong = fmt.Sprintf("%s: the encoder refuses values that the schema allows", c.w.relPos(n.pos))
		}
		if n.t == "require" && n.cond.op != "taok" && n.cond != x.tru {
			if obj == nil {
				c.reqs[m.cond] = true
			} else if !c.reqs[m.cond] && c.wrong == "" {
				c.wrong = fmt.Sprintf("%s: values with %s are not written, which the schema allows", c.w.relPos(n.pos), x.not(m.cond))
			}
		}
		m.val = st(n.val)
		m.body = c.conv(n.body, memo, obj)
		co := func(o *out) *out {
			if o == nil {
				return nil
			}
			q := *o
			q.cond = st(o.cond)
			q.seq = c.conv(flat(o), memo, obj)
			q.t = "fall"
			return &q
		}
		m.a, m.b = co(n.a), co(n.b)
		m.args = nil
		if n.t == "op" {
			switch {
			case obj == nil:
				for _, a := range n.args {
					m.args = append(m.args, st(a))
				}
			case n.kind == "Align":
				m.val = nil
				m.args = []*E{st(n.args[0])}
			case strings.HasPrefix(n.kind, "Obj:"):
				m.kind = "Obj:" + obj(n.typ)
				m.args = []*E{st(n.args[0])}
			case strings.HasPrefix(n.kind, "PObj:"):
				m.kind = "PObj:" + obj(n.typ)
				m.args = []*E{st(n.args[1])}
				c.useCtx(n.args[0], m.val, n)
			case n.kind == "Ctx":
				k, wd := c.traitsCodec(n.args[1])
				m.kind = "Ctx:" + k
				m.args = nil
				if k == "U" || k == "S" {
					m.args = []*E{st(wd)}
				}
				c.useCtx(n.args[0], m.val, n)
			case strings.HasPrefix(n.kind, "OArr:"), strings.HasPrefix(n.kind, "Arr:"):
				names := strings.Split(n.args[0].s, ";")
				get := func(nm string) *E {
					for i, s := range names {
						if s == nm {
							return n.args[i+1]
						}
					}
					giveUp("no %s in an array", nm)
					return nil
				}
				fixed, auto, packed := st(get("FixedSize")), st(get("IsAuto")), st(get("IsPacked"))
				if auto == x.tru {
					fixed = x.int(0)
				}
				if strings.HasPrefix(n.kind, "OArr:") {
					m.kind = "OArr:" + obj(n.typ)
					m.args = []*E{fixed, auto, packed, st(n.args[len(n.args)-1])}
				} else {
					k, wd := c.traitsCodec(get("ArrayTraits"))
					if !packable[k] {
						packed = x.mk("any", "", kOth)
					}
					m.kind = "Arr:" + k
					m.args = []*E{fixed, auto, packed}
					if k == "U" || k == "S" {
						m.args = append(m.args, st(wd))
					}
				}
			default:
				for _, a := range n.args {
					m.args = append(m.args, st(a))
				}
			}
		}
		r = append(r, &m)
	}
	return r
}

// useCtx: a delta context belongs to one member.
func (c *wire) useCtx(ctx, val *E, n *node) {
	if o, ok := c.ctxs[ctx]; ok && o != val && c.wrong == "" {
		c.wrong = fmt.Sprintf("%s: %s shares its packing context with %s", c.w.relPos(n.pos), val, o)
	}
	c.ctxs[ctx] = val
}

func (c *wire) compare(r *rtype, gt *types.Named, method string, obj func(string) string) (why string, ops int, err error) {
	err = guarded(func() error {
		o, err := c.s.sum(method, "v")
		if err != nil {
			return err
		}
		memo := map[*E]*E{}
		c.packed = method == "MarshalZserioPacked"
		c.reqs, c.ctxs, c.wrong = map[*E]bool{}, map[*E]*E{}, ""
		want := append(c.conv(c.expect(r, gt), memo, nil), &node{t: "ret"})
		got := c.conv(flat(o), memo, obj)
		m := &cmp{l: c.s.l, x: c.x, e: c.s.e, budget: 40000, same: true}
		why = m.match(got, want, newEnv(c.x))
		ops = m.ops
		if why == "" {
			why = c.wrong
		}
		why = strings.ReplaceAll(strings.ReplaceAll(why, " where - reads ", ", the schema says "), ", - reads ", ", the schema says ")
		return nil
	})
	return
}

func init() {
	register(&Property{ID: "C06", Gen: true, Explain: "what generated encoders write, from their effect summaries, is what an independent reading of the schema says", Run: runC06})
}

func runC06(c *Ctx) error {
	c.Rule("go-type", "the Go type of a member or its elements has room for every value of the schema type", 1000)
	c.Rule("members", "every member of a schema type has a field in the generated Go type", 1000)
	c.Rule("encodes-schema", "the encoder generated for a schema type writes its members in order, with the wire type, width, alignment, presence and array form that the schema declares", 60)
	zs, ps, notes := c.World.loadSchemas()
	for _, n := range notes {
		c.Notes = append(c.Notes, "not read: "+n)
	}
	byPath := map[string]*genType{}
	for _, g := range c.World.genTypes() {
		byPath[namedStr(g.n)] = g
	}
	params := map[string][]string{}
	var gps []string
	for g := range zs {
		gps = append(gps, g)
	}
	sort.Strings(gps)
	bound := map[string]string{} // Go type -> schema type
	type job struct {
		g *genType
		r *rtype
		z *zschema
	}
	var jobs []job
	done := map[string]bool{}
	for _, gp := range gps {
		z, p := zs[gp], ps[gp]
		bad := true
		for _, pk := range c.World.Gen {
			if pk.PkgPath == gp && len(pk.Errors) == 0 {
				bad = false
			}
		}
		if bad {
			c.Notes = append(c.Notes, "not generated: "+gp)
			continue
		}
		for _, d := range p.decls {
			if d.kind == "const" || d.kind == "subtype" || d.kind == "other" || d.kind == "instantiate" || len(d.tparams) > 0 {
				continue
			}
			var g *genType
			for path, t := range byPath {
				if strings.HasPrefix(path, gp+".") && normName(strings.TrimPrefix(path, gp+".")) == normName(d.name) {
					g = t
				}
			}
			name := gp + "." + d.name
			if g == nil {
				c.Bad("encodes-schema", name, fmt.Sprintf("%s:%d", p.file, d.line), "no type is generated for %s", d.name)
				continue
			}
			bound[namedStr(g.n)] = (&rtype{decl: d}).key()
			jobs = append(jobs, job{g, &rtype{decl: d}, z})
		}
	}
	for len(jobs) > 0 {
		j := jobs[0]
		jobs = jobs[1:]
		if done[j.g.name] {
			continue
		}
		done[j.g.name] = true
		s := newSession(c.World, j.g, params)
		wc := &wire{s: s, x: s.x, w: c.World, z: j.z}
		// types of members that the schema names by template
		inst := map[string]*rtype{}
		collect := func(r *rtype) {
			if r != nil && r.decl != nil {
				inst[r.key()] = r
			}
		}
		sc := j.r.scope(j.z)
		for _, f := range j.r.decl.allFields() {
			if !try(func() { collect(sc.resolve(f.typ)) }) {
				continue
			}
		}
		obj := func(t string) string {
			if k, ok := bound[t]; ok {
				return k
			}
			// an instance seen for the first time: it is what the schema names here
			return "?" + t
		}
		// bind unknown instances by the field they are used for
		for _, f := range j.r.decl.allFields() {
			f := f
			try(func() {
				r := sc.resolve(f.typ)
				if r.decl == nil || len(r.targs) == 0 {
					return
				}
				v := goField(j.g.n, f.name)
				if v == nil {
					return
				}
				t := goElem(v.Type())
				g := byPath[namedStr(t)]
				if g == nil {
					return
				}
				if _, ok := bound[namedStr(t)]; !ok {
					bound[namedStr(t)] = r.key()
					jobs = append(jobs, job{g, r, j.z})
				}
			})
		}
		for _, f := range j.r.decl.allFields() {
			c.Check(goField(j.g.n, f.name) != nil, "members", j.g.name+"."+f.name, c.World.relPos(j.g.n.Obj().Pos()), "member %s of %s has no field in the Go type", f.name, j.g.name)
			if v := goField(j.g.n, f.name); v != nil {
				try(func() {
					if why, ok := holds(sc.resolve(f.typ), v.Type()); ok {
						c.Check(why == "", "go-type", j.g.name+"."+f.name, c.World.relPos(v.Pos()), "member %s of %s: %s", f.name, j.g.name, why)
					}
				})
			}
		}
		for _, meth := range []string{"MarshalZserio", "MarshalZserioPacked"} {
			f := j.g.fns[meth]
			if f == nil {
				continue
			}
			why, ops, err := wc.compare(j.r, j.g.n, meth, obj)
			loc := c.World.relPos(f.Pos())
			name := j.g.name + "." + meth
			switch {
			case err != nil:
				c.undecided(name, err)
			default:
				c.Count("operations_matched", ops)
				c.Check(why == "", "encodes-schema", name, loc, "%s: %s", name, why)
			}
		}
	}
	return c.rests(on{"C08", "writes-minimal-and-reads-back"}, on{"C09", "fixed-width"}, on{"C10", "wire-form width"}, on{"C11", "align stream-bits flush"}, on{"C23", "writes-nearest"}, on{"C27", "byte-sequences"})
}

// holds reports why a Go type has no room for the values of a builtin integer,
// floating-point, string or boolean type, or false when that is not the question.
func holds(r *rtype, t types.Type) (string, bool) {
	if r.decl != nil {
		return "", false
	}
	b, ok := goElem(t).Underlying().(*types.Basic)
	if !ok {
		return "", false
	}
	need := func(info types.BasicInfo, kind string) (string, bool) {
		if b.Info()&info == 0 {
			return fmt.Sprintf("a value of type %s is held as %s", r.key(), b), true
		}
		return "", true
	}
	switch r.name {
	case "bool":
		return need(types.IsBoolean, "bool")
	case "string":
		return need(types.IsString, "string")
	case "float16", "float32", "float64":
		if w, ok := need(types.IsFloat, "float"); w != "" {
			return w, ok
		}
		if r.name == "float64" && b.Kind() != types.Float64 {
			return "a float64 is held as " + b.String(), true
		}
		return "", true
	}
	k, ok := zint[r.name]
	if !ok {
		return "", false
	}
	bits := k.bits
	if bits == 0 {
		if bits = r.bits; r.width != nil || bits == 0 {
			bits = 64
		}
	}
	if w, ok := need(types.IsInteger, "integer"); w != "" {
		return w, ok
	}
	have := int64(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		have = 8
	case types.Int16, types.Uint16:
		have = 16
	case types.Int32, types.Uint32:
		have = 32
	}
	if k.signed == (b.Info()&types.IsUnsigned != 0) || have < bits {
		return fmt.Sprintf("a value of type %s does not fit %s", r.key(), b), true
	}
	return "", true
}

// zint are the widths of the builtin integer types, by their ranges; 0: the
// declared one.
var zint = map[string]struct {
	bits   int64
	signed bool
}{
	"uint8": {8, false}, "uint16": {16, false}, "uint32": {32, false}, "uint64": {64, false},
	"int8": {8, true}, "int16": {16, true}, "int32": {32, true}, "int64": {64, true},
	"bit": {0, false}, "uint": {0, false}, "int": {0, true},
	"varuint16": {15, false}, "varuint32": {29, false}, "varuint64": {57, false}, "varuint": {64, false}, "varsize": {31, false},
	"varint16": {15, true}, "varint32": {29, true}, "varint64": {57, true}, "varint": {64, true},
}
