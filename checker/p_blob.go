package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sequences of bytes of any length in engine B. Lengths are linear forms over
// named unknowns, ordered by facts (forms that are not negative); a comparison
// the facts do not decide splits the class. Loops are summarised by a template
// found from their first iteration and shown to be kept by every other.

type lin struct {
	c int64
	t string // canonical text of the terms, for comparison
	m map[string]int64
	w int
	s bool
}

func lform(c int64, terms map[string]int64) lin {
	l := lin{c: c, m: map[string]int64{}, w: 64}
	var ks []string
	for k, v := range terms {
		if v != 0 {
			l.m[k] = v
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%+d*%s", l.m[k], k)
	}
	l.t = b.String()
	return l
}

func linSym(n string) lin { return lform(0, map[string]int64{n: 1}) }

func (a lin) add(b lin, k int64) lin {
	m := map[string]int64{}
	for n, v := range a.m {
		m[n] = v
	}
	for n, v := range b.m {
		m[n] += k * v
	}
	r := lform(a.c+k*b.c, m)
	r.w, r.s = a.w, a.s
	return r
}

func (a lin) plus(c int64) lin { return a.add(lform(c, nil), 1) }

func (a lin) String() string {
	if a.t == "" {
		return fmt.Sprint(a.c)
	}
	r := strings.TrimPrefix(strings.ReplaceAll(a.t, "1*", ""), "+")
	if a.c != 0 {
		r += fmt.Sprintf("%+d", a.c)
	}
	return r
}

type seg struct {
	src string // "" for zero bytes
	off lin
	n   lin
	b   *bv // one byte that is known bit by bit
}

type aslice struct {
	c      *bcell
	lo, hi lin
}
type bcell struct{ segs []seg }
type aelem struct {
	s aslice
	i lin
}
type bhead struct {
	kind string
	x    lin
}
type bbits struct{ b []bit }

type linSplit struct{ f lin }

type blob struct {
	w     *World
	facts []lin
	out   []any // bhead, seg, bbits
	pos   lin   // bytes read
	bitAt int   // and bits of the next one
	head  []bhead
	hsize []bhead // sizes of headers asked for
	fixed map[bit]bit
	named []seg // bytes whose bits have names
	cells []*bcell
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	fresh int
	deep  int
	gave  string // why a loop was not summarised
}

func (q *blob) prove(g lin) bool { return q.prove1(g, 3) }

func (q *blob) prove1(g lin, d int) bool {
	if g.t == "" {
		return g.c >= 0
	}
	if d == 0 {
		return false
	}
	for _, f := range q.facts {
		// only facts that take a term away
		use := false
		for k, v := range g.m {
			if w := f.m[k]; w != 0 && (w > 0) == (v > 0) {
				use = true
			}
		}
		if use && q.prove1(g.add(f, -1), d-1) {
			return true
		}
	}
	// a multiple of a fact
	for _, f := range q.facts {
		for k, v := range g.m {
			if w := f.m[k]; w != 0 && v%w == 0 && v/w > 1 && q.prove1(g.add(f, -(v/w)), d-1) {
				return true
			}
		}
	}
	return false
}

func (q *blob) eq(a, b lin) bool {
	d := a.add(b, -1)
	return d.t == "" && d.c == 0 || q.prove(d) && q.prove(lform(0, nil).add(d, -1))
}

// nonneg decides g >= 0.
func (q *blob) nonneg(g lin) bool {
	if q.prove(g) {
		return true
	}
	if q.prove(lform(-1, nil).add(g, -1)) {
		return false
	}
	panic(linSplit{g})
}

func (q *blob) contradictory() bool {
	for _, f := range q.facts {
		if q.prove(lform(-1, nil).add(f, -1)) {
			return true
		}
	}
	return false
}

func toLin(x av) (lin, bool) {
	switch x := x.(type) {
	case lin:
		return x, true
	case *bv:
		if x.isConst() {
			l := lform(x.i64(), nil)
			l.w, l.s = x.w, x.s
			return l, true
		}
	}
	return lin{}, false
}

func fromLin(l lin) av {
	if l.t == "" {
		return bconst(l.c, l.w, l.s)
	}
	return l
}

func (q *blob) bin(op token.Token, x, y av) (av, bool) {
	_, l1 := x.(lin)
	_, l2 := y.(lin)
	if s, ok := x.(aslice); ok && (op == token.EQL || op == token.NEQ) {
		if _, isNil := y.(aopaque); isNil {
			return abit((op == token.EQL) == q.eq(s.hi, s.lo)), true
		}
	}
	if !l1 && !l2 {
		return nil, false
	}
	a, ok1 := toLin(x)
	b, ok2 := toLin(y)
	if !ok1 || !ok2 {
		bGive("operator %s on a length", op)
	}
	pow := func(n int64) int64 {
		if n < 0 || n > 40 {
			bGive("shift of a length")
		}
		return int64(1) << uint(n)
	}
	konst := func() int64 {
		if b.t != "" {
			bGive("operator %s on lengths", op)
		}
		return b.c
	}
	// a = d*k + r, exactly, for the terms that k divides
	divmod := func(k int64) (lin, lin) {
		if k <= 0 {
			bGive("division of a length")
		}
		if k == 1 {
			return a, lform(0, nil)
		}
		if !q.nonneg(a) {
			bGive("division of a negative length")
		}
		m := map[string]int64{}
		for n, v := range a.m {
			if v%k != 0 {
				// quotient and remainder get names
				d := linSym(fmt.Sprintf("(%s)/%d", strings.NewReplacer("+", "p", "-", "m").Replace(a.String()), k))
				r := a.add(d, -k)
				q.facts = append(q.facts, d, r, lform(k-1, nil).add(r, -1))
				d.w, d.s = a.w, a.s
				return d, r
			}
			m[n] = v / k
		}
		r := a.c % k
		if r < 0 {
			r += k
		}
		d := lform((a.c-r)/k, m)
		d.w, d.s = a.w, a.s
		return d, lform(r, nil)
	}
	rem := func(r lin) av {
		r.w, r.s = a.w, a.s
		return fromLin(r)
	}
	switch op {
	case token.ADD:
		return fromLin(a.add(b, 1)), true
	case token.SUB:
		r := a.add(b, -1)
		if !a.s && !q.nonneg(r) {
			bGive("a length below zero")
		}
		return fromLin(r), true
	case token.MUL:
		if a.t == "" {
			a, b = b, a
		}
		k := konst()
		r := lform(0, nil).add(a, k)
		r.w, r.s = a.w, a.s
		return fromLin(r), true
	case token.SHL:
		r := lform(0, nil).add(a, pow(konst()))
		r.w, r.s = a.w, a.s
		return fromLin(r), true
	case token.QUO:
		d, _ := divmod(konst())
		return fromLin(d), true
	case token.SHR:
		d, _ := divmod(pow(konst()))
		return fromLin(d), true
	case token.REM:
		_, r := divmod(konst())
		return rem(r), true
	case token.AND:
		k := konst() + 1
		if k&(k-1) != 0 {
			bGive("bits of a length")
		}
		_, r := divmod(k)
		return rem(r), true
	case token.EQL, token.NEQ:
		d := a.add(b, -1)
		eq := q.eq(a, b)
		if !eq {
			// equal only if neither is larger
			eq = q.nonneg(d) && q.nonneg(lform(0, nil).add(d, -1))
		}
		return abit(eq == (op == token.EQL)), true
	case token.LSS:
		return abit(!q.nonneg(a.add(b, -1))), true
	case token.GEQ:
		return abit(q.nonneg(a.add(b, -1))), true
	case token.GTR:
		return abit(!q.nonneg(b.add(a, -1))), true
	case token.LEQ:
		return abit(q.nonneg(b.add(a, -1))), true
	}
	bGive("operator %s on a length", op)
	return nil, true
}

// --- bytes

func (s aslice) len() lin { return s.hi.add(s.lo, -1) }

func (q *blob) norm(segs []seg) []seg {
	var r []seg
	for _, s := range segs {
		if q.eq(s.n, lform(0, nil)) {
			continue
		}
		if k := len(r) - 1; k >= 0 && s.b == nil && r[k].b == nil && s.src == r[k].src && (s.src == "" || q.eq(r[k].off.add(r[k].n, 1), s.off)) {
			r[k].n = r[k].n.add(s.n, 1)
			continue
		}
		r = append(r, s)
	}
	return r
}

// cut gives the bytes lo..hi of a sequence.
func (q *blob) cut(segs []seg, lo, hi lin) []seg {
	var r []seg
	at := lform(0, nil)
	for _, s := range segs {
		end := at.add(s.n, 1)
		// [at,end) with [lo,hi)
		if !q.nonneg(lo.add(end, -1)) && !q.nonneg(at.add(hi, -1)) { // lo < end && at < hi
			from, to := at, end
			if !q.nonneg(at.add(lo, -1)) {
				from = lo
			}
			if !q.nonneg(hi.add(end, -1)) {
				to = hi
			}
			t := s
			if s.b == nil {
				t.off = s.off.add(from.add(at, -1), 1)
				t.n = to.add(from, -1)
			}
			r = append(r, t)
		}
		at = end
	}
	return q.norm(r)
}

func (q *blob) bytes(s aslice) []seg { return q.cut(s.c.segs, s.lo, s.hi) }

func total(segs []seg) lin {
	n := lform(0, nil)
	for _, s := range segs {
		n = n.add(s.n, 1)
	}
	return n
}

func (q *blob) slice(segs []seg) aslice {
	segs = q.norm(segs)
	c := &bcell{segs}
	q.cells = append(q.cells, c)
	return aslice{c, lform(0, nil), total(segs)}
}

// set replaces bytes lo..hi.
func (q *blob) set(c *bcell, lo, hi lin, by []seg) {
	n := total(c.segs)
	r := append(append(q.cut(c.segs, lform(0, nil), lo), by...), q.cut(c.segs, hi, n)...)
	c.segs = q.norm(r)
}

// name gives the eight bits of a byte of a source names.
func (q *blob) byteAt(src string, i lin) *bv {
	v := &bv{w: 8}
	if src == "" {
		return v
	}
	k := -1
	for j, o := range q.named {
		if o.src == src && q.eq(o.off, i) {
			k = j
			break
		}
	}
	if k < 0 {
		k = len(q.named)
		q.named = append(q.named, seg{src: src, off: i, n: lform(1, nil)})
	}
	for j := 0; j < 8; j++ {
		v.b[j] = bit(1000 + 8*k + j)
		if x, ok := q.fixed[v.b[j]]; ok {
			v.b[j] = x
		}
	}
	return v
}

func (q *blob) at(s aslice, i lin) *bv {
	if !q.nonneg(i) || q.nonneg(i.add(s.len(), -1)) {
		bViol("index out of range")
	}
	b := q.cut(s.c.segs, s.lo.add(i, 1), s.lo.add(i, 1).plus(1))
	if len(b) != 1 {
		bGive("byte of a sequence")
	}
	if b[0].b != nil {
		return b[0].b
	}
	return q.byteAt(b[0].src, b[0].off)
}

// oneByte is the segment of a byte known by its bits.
func (q *blob) oneByte(v *bv) seg {
	if k := int(v.b[0]-1000) / 8; v.b[0] >= 1000 && k < len(q.named) {
		same := true
		for j := 0; j < 8; j++ {
			same = same && v.b[j] == bit(1000+8*k+j)
		}
		if same {
			return q.named[k]
		}
	}
	z := true
	for j := 0; j < 8; j++ {
		z = z && v.b[j] == 0
	}
	if z {
		return seg{n: lform(1, nil)}
	}
	w := *v
	w.w, w.s, w.neg = 8, false, false
	return seg{b: &w, n: lform(1, nil)}
}

// --- streams

func (q *blob) stream(f *bi, name string, args []av) av {
	switch name {
	case "Write":
		s, ok := args[0].(aslice)
		if !ok {
			bGive("bytes written")
		}
		q.emit(q.bytes(s)...)
		return atuple{fromLin(s.len()), aerr{false}}
	case "WriteByte":
		v, ok := args[0].(*bv)
		if !ok {
			bGive("byte written")
		}
		q.emitBits(v.plain().convert(8, false), 8)
		return aerr{false}
	case "WriteBits", "WriteBitsUnsafe":
		v, ok := args[0].(*bv)
		n, ok2 := args[1].(*bv)
		if !ok || !ok2 || !n.isConst() {
			bGive("bits written")
		}
		k := int(n.i64())
		if k > 64 {
			return aerr{true}
		}
		v = v.plain()
		if name == "WriteBitsUnsafe" {
			for i := k; i < v.w; i++ {
				if v.b[i] != 0 {
					bViol("WriteBitsUnsafe of a value with bits above the %d written", k)
				}
			}
		}
		q.emitBits(v, k)
		return aerr{false}
	case "WriteBool":
		b, ok := args[0].(abool)
		if !ok {
			bGive("bit written")
		}
		q.out = append(q.out, bbits{[]bit{b.v}})
		return aerr{false}
	case "ReadByte":
		return atuple{q.take(8, 8), aerr{false}}
	case "ReadBits":
		n, ok := args[0].(*bv)
		if !ok || !n.isConst() {
			bGive("bits read")
		}
		return atuple{q.take(int(n.i64()), 64), aerr{false}}
	case "ReadBool":
		return atuple{abool{q.take(1, 1).b[0]}, aerr{false}}
	}
	bGive("stream operation %s", name)
	return nil
}

func (q *blob) emit(segs ...seg) {
	for _, s := range segs {
		if k := len(q.out) - 1; k >= 0 {
			if t, ok := q.out[k].(seg); ok {
				if r := q.norm([]seg{t, s}); len(r) == 1 {
					q.out[k] = r[0]
					continue
				}
			}
		}
		if !q.eq(s.n, lform(0, nil)) {
			q.out = append(q.out, s)
		}
	}
}

func (q *blob) emitBits(v *bv, n int) {
	if n == 0 {
		return
	}
	odd := false
	if k := len(q.out) - 1; k >= 0 {
		b, ok := q.out[k].(bbits)
		odd = ok && len(b.b)%8 != 0
	}
	if n%8 == 0 && !odd {
		for i := n - 8; i >= 0; i -= 8 {
			e := &bv{w: 8}
			if i < v.w {
				copy(e.b[:8], v.b[i:min(i+8, 64)])
			}
			q.emit(q.oneByte(e))
		}
		return
	}
	for i := n - 1; i >= 0; i-- {
		b := bit(0)
		if i < v.w {
			b = v.b[i]
		}
		if k := len(q.out) - 1; k >= 0 {
			if t, ok := q.out[k].(bbits); ok {
				q.out[k] = bbits{append(append([]bit{}, t.b...), b)}
				continue
			}
		}
		q.out = append(q.out, bbits{[]bit{b}})
	}
}

func (q *blob) take(n, w int) *bv {
	r := &bv{w: w}
	for i := n - 1; i >= 0; i-- {
		b := q.byteAt("stream", q.pos).b[7-q.bitAt]
		if i < w {
			r.b[i] = b
		}
		if q.bitAt++; q.bitAt == 8 {
			q.bitAt = 0
			q.pos = q.pos.plus(1)
		}
	}
	return r
}

func (q *blob) takeBytes(n lin) seg {
	if q.bitAt != 0 {
		bGive("bytes read after bits")
	}
	s := seg{src: "stream", off: q.pos, n: n}
	q.pos = q.pos.add(n, 1)
	return s
}

// --- instructions

func isBytes(t types.Type) bool { return isByteSlice(t) || isString(t) }

func (q *blob) instr(f *bi, fr *bframe, in ssa.Instruction) bool {
	num := func(v ssa.Value) lin {
		l, ok := toLin(f.val(fr, v))
		if !ok {
			bGive("length")
		}
		return l
	}
	switch in := in.(type) {
	case *ssa.MakeSlice:
		if !isByteSlice(in.Type()) {
			return false
		}
		n, c := num(in.Len), num(in.Cap)
		if !q.nonneg(n) || !q.nonneg(c.add(n, -1)) {
			bViol("%s: an allocation of negative length", f.w.relPos(in.Pos()))
		}
		fr.env[in] = q.slice([]seg{{n: n}})
		return true
	case *ssa.Alloc:
		a, ok := deref(in.Type()).Underlying().(*types.Array)
		if !ok {
			return false
		}
		if b, ok := a.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return false
		}
		fr.env[in] = q.slice([]seg{{n: lform(a.Len(), nil)}})
		return true
	case *ssa.Slice:
		s, ok := f.val(fr, in.X).(aslice)
		if !ok {
			return false
		}
		lo, hi := lform(0, nil), s.len()
		if in.Low != nil {
			lo = num(in.Low)
		}
		if in.High != nil {
			hi = num(in.High)
		}
		if !q.nonneg(lo) || !q.nonneg(hi.add(lo, -1)) {
			bViol("%s: slice bounds out of order", f.w.relPos(in.Pos()))
		}
		if !q.nonneg(s.len().add(hi, -1)) {
			bGive("slice past the length")
		}
		fr.env[in] = aslice{s.c, s.lo.add(lo, 1), s.lo.add(hi, 1)}
		return true
	case *ssa.IndexAddr:
		if s, ok := f.val(fr, in.X).(aslice); ok {
			fr.env[in] = aelem{s, num(in.Index)}
			return true
		}
	case *ssa.Index:
		if s, ok := f.val(fr, in.X).(aslice); ok {
			fr.env[in] = q.at(s, num(in.Index))
			return true
		}
	case *ssa.Lookup:
		if s, ok := f.val(fr, in.X).(aslice); ok {
			fr.env[in] = q.at(s, num(in.Index))
			return true
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if e, ok := f.val(fr, in.X).(aelem); ok {
				fr.env[in] = q.at(e.s, e.i)
				return true
			}
			if s, ok := f.val(fr, in.X).(aslice); ok { // an array's content
				fr.env[in] = q.slice(q.bytes(s))
				return true
			}
		}
	case *ssa.Store:
		if e, ok := f.val(fr, in.Addr).(aelem); ok {
			v, ok := f.val(fr, in.Val).(*bv)
			if !ok {
				bGive("byte stored")
			}
			if !q.nonneg(e.i) || q.nonneg(e.i.add(e.s.len(), -1)) {
				bViol("%s: index out of range", f.w.relPos(in.Pos()))
			}
			at := e.s.lo.add(e.i, 1)
			q.set(e.s.c, at, at.plus(1), []seg{q.oneByte(v.plain())})
			return true
		}
	case *ssa.Convert:
		x := f.val(fr, in.X)
		if s, ok := x.(aslice); ok && isBytes(in.Type()) {
			fr.env[in] = q.slice(q.bytes(s))
			return true
		}
		if l, ok := x.(lin); ok {
			w, s, ok := intType(in.Type())
			if !ok {
				bGive("conversion of a length")
			}
			if w < 32 {
				lim := lform(int64(1)<<uint(w)-1, nil)
				if !q.nonneg(lim.add(l, -1)) {
					q.fresh++
					l = linSym(fmt.Sprintf("cut%d", q.fresh))
				}
			}
			l.w, l.s = w, s
			fr.env[in] = l
			return true
		}
	}
	return false
}

func (q *blob) builtin(f *bi, name string, args []av) (av, bool) {
	switch name {
	case "len", "cap":
		if s, ok := args[0].(aslice); ok && name == "len" {
			l := s.len()
			l.s, l.w = true, 64
			return fromLin(l), true
		}
		if o, ok := args[0].(aopaque); ok && name == "len" && strings.HasPrefix(o.what, "zero of") {
			return bconst(0, 64, true), true
		}
	case "min", "max":
		some := false
		for _, a := range args {
			if _, ok := a.(lin); ok {
				some = true
			}
		}
		if !some {
			return nil, false
		}
		r, ok := toLin(args[0])
		for _, a := range args[1:] {
			l, ok2 := toLin(a)
			ok = ok && ok2
			if ok && q.nonneg(l.add(r, -1)) == (name == "max") {
				l.w, l.s = r.w, r.s
				r = l
			}
		}
		if ok {
			return fromLin(r), true
		}
	case "append":
		var segs []seg
		for i, a := range args {
			switch a := a.(type) {
			case aslice:
				segs = append(segs, q.bytes(a)...)
			case aopaque:
				if !strings.HasPrefix(a.what, "zero of") {
					return nil, false
				}
			case *bv:
				if i == 0 {
					return nil, false
				}
				segs = append(segs, q.oneByte(a.plain()))
			default:
				return nil, false
			}
		}
		return q.slice(segs), true
	case "copy":
		d, ok := args[0].(aslice)
		s, ok2 := args[1].(aslice)
		if ok && ok2 {
			n := d.len()
			if !q.nonneg(s.len().add(n, -1)) {
				n = s.len()
			}
			q.set(d.c, d.lo, d.lo.add(n, 1), q.cut(s.c.segs, s.lo, s.lo.add(n, 1)))
			n.w, n.s = 64, true
			return fromLin(n), true
		}
	}
	return nil, false
}

// calls interprets what the codecs of byte sequences use.
func (q *blob) calls(f *bi, callee *ssa.Function, args []av) (av, bool) {
	name := callee.String()
	switch name {
	case "io.ReadFull":
		s, ok := args[1].(aslice)
		if _, ok2 := args[0].(astream); !ok || !ok2 {
			bGive("io.ReadFull")
		}
		n := s.len()
		q.set(s.c, s.lo, s.hi, []seg{q.takeBytes(n)})
		n.w, n.s = 64, true
		return atuple{fromLin(n), aerr{false}}, true
	case "io.ReadAtLeast":
		s, ok := args[1].(aslice)
		n, ok2 := toLin(args[2])
		if !ok || !ok2 || !q.eq(n, s.len()) {
			bGive("io.ReadAtLeast")
		}
		q.set(s.c, s.lo, s.hi, []seg{q.takeBytes(n)})
		n.w, n.s = 64, true
		return atuple{fromLin(n), aerr{false}}, true
	case "io.WriteString":
		s, ok := args[1].(aslice)
		if _, ok2 := args[0].(astream); !ok || !ok2 {
			bGive("io.WriteString")
		}
		q.emit(q.bytes(s)...)
		return atuple{fromLin(s.len()), aerr{false}}, true
	}
	p := fnPkg(callee)
	if p != nil && p.Path() == modPath+"/ztype" && callee.Name() == "UnsignedBitSize" && len(args) == 2 {
		x, ok := toLin(args[0])
		k, ok2 := args[1].(*bv)
		if !ok || !ok2 || !k.isConst() {
			bGive("the size of a header")
		}
		for i, h := range q.hsize {
			if h.kind == fmt.Sprint(k.i64()) && q.eq(h.x, x) {
				l := linSym(fmt.Sprintf("header%d", i))
				l.w, l.s = 64, true
				return atuple{l, aerr{false}}, true
			}
		}
		q.hsize = append(q.hsize, bhead{fmt.Sprint(k.i64()), x})
		l := linSym(fmt.Sprintf("header%d", len(q.hsize)-1))
		l.w, l.s = 64, true
		return atuple{l, aerr{false}}, true
	}
	if p != nil && p.Path() == modPath+"/ztype" && len(args) > 0 {
		if _, ok := args[0].(astream); ok {
			n := callee.Name()
			switch {
			case strings.HasPrefix(n, "WriteVar") && len(args) == 2:
				x, ok := toLin(args[1])
				if !ok {
					bGive("a header")
				}
				q.out = append(q.out, bhead{n[5:], x})
				return aerr{false}, true
			case strings.HasPrefix(n, "ReadVar") && len(args) == 1:
				if len(q.head) == 0 {
					bViol("a second header is read")
				}
				h := q.head[0]
				q.head = q.head[1:]
				if h.kind != n[4:] {
					bViol("the header written as %s is read as %s", h.kind, n[4:])
				}
				w, s, _ := intType(callee.Signature.Results().At(0).Type())
				h.x.w, h.x.s = w, s
				return atuple{fromLin(h.x), aerr{false}}, true
			}
		}
	}
	return nil, false
}

// --- loops

func (q *blob) loop(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if r, ok := q.loops[b]; ok {
		return r
	}
	var body map[*ssa.BasicBlock]bool
	for _, p := range b.Preds {
		if b.Dominates(p) {
			if body == nil {
				body = map[*ssa.BasicBlock]bool{b: true}
			}
			work := []*ssa.BasicBlock{p}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	q.loops[b] = body
	return body
}

type bstate struct {
	env   map[ssa.Value]av
	cells map[*bcell][]seg
	out   []any
	pos   lin
	bitAt int
	nh    []bhead
}

func (q *blob) save(fr *bframe) bstate {
	s := bstate{env: map[ssa.Value]av{}, cells: map[*bcell][]seg{}, out: append([]any{}, q.out...), pos: q.pos, bitAt: q.bitAt, nh: q.head}
	for k, v := range fr.env {
		s.env[k] = v
	}
	for _, c := range q.cells {
		s.cells[c] = append([]seg{}, c.segs...)
	}
	return s
}

func (q *blob) restore(fr *bframe, s bstate) {
	fr.env = map[ssa.Value]av{}
	for k, v := range s.env {
		fr.env[k] = v
	}
	for c, g := range s.cells {
		c.segs = append([]seg{}, g...)
	}
	q.out, q.pos, q.bitAt, q.head = append([]any{}, s.out...), s.pos, s.bitAt, s.nh
}

// progress is what an iteration adds to the end of what was there: bytes of
// one source.
func (q *blob) grown(from, to []seg) (seg, bool) {
	n := total(from)
	m := total(to)
	if !q.sameSegs(q.cut(to, lform(0, nil), n), from) {
		return seg{}, false
	}
	r := q.cut(to, n, m)
	if len(r) == 0 {
		return seg{n: lform(0, nil)}, true
	}
	if len(r) != 1 || r[0].b != nil {
		return seg{}, false
	}
	return r[0], true
}

func (q *blob) sameSegs(a, b []seg) bool {
	a, b = q.norm(a), q.norm(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !q.sameSeg(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (q *blob) sameSeg(a, b seg) bool {
	if a.b != nil || b.b != nil {
		for _, s := range []*seg{&a, &b} {
			if s.b == nil && q.eq(s.n, lform(1, nil)) {
				s.b = q.byteAt(s.src, s.off)
			}
		}
		if a.b == nil || b.b == nil {
			return false
		}
		for i := 0; i < 8; i++ {
			if a.b.b[i] != b.b.b[i] {
				return false
			}
		}
		return true
	}
	return a.src == b.src && q.eq(a.n, b.n) && (a.src == "" || q.eq(a.off, b.off))
}

// template says how a value of the loop depends on the progress n.
type template func(n lin) av

// over summarises the loop at header b, entered with its phis set, and gives
// the edge it is left by.
func (q *blob) over(f *bi, fr *bframe, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (from, to *ssa.BasicBlock, ret av) {
	q.deep++
	defer func() { q.deep-- }()
	f0 := q.facts
	s0 := q.save(fr)
	stop := func(x *ssa.BasicBlock) bool { return x == b || !body[x] }
	ret, at, prev := f.run(fr, nil, b, stop)
	if at != b {
		return prev, at, ret // left in its first iteration, in this class
	}
	f.phis(fr, prev, b)
	s1 := q.save(fr)
	f1 := q.facts
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if g, ok := r.(bgive); !ok || q.deep > 3 {
			panic(r)
		} else if q.gave == "" {
			q.gave = g.why
		}
		// one iteration on its own, then
		q.restore(fr, s1)
		q.facts = f1
		from, to, ret = q.over(f, fr, b, body)
	}()
	q.facts = f0
	// the progress: bytes read, bytes written, or a number
	var d lin
	found := false
	step := func(x lin) {
		if !found && !(x.t == "" && x.c == 0) {
			d, found = x, true
		}
	}
	if s0.bitAt != 0 || s1.bitAt != 0 || len(s1.nh) != len(s0.nh) {
		bGive("a loop over bits")
	}
	step(s1.pos.add(s0.pos, -1))
	var outSrc seg
	outGrow := func(a, c []any) (seg, bool) {
		k := len(a)
		if len(c) == k && k > 0 {
			x, ok1 := a[k-1].(seg)
			y, ok2 := c[k-1].(seg)
			if ok1 && ok2 {
				return q.grown([]seg{x}, []seg{y})
			}
			return seg{n: lform(0, nil)}, true
		}
		if len(c) == k {
			return seg{n: lform(0, nil)}, true
		}
		if y, ok := c[k].(seg); ok && len(c) == k+1 && y.b == nil {
			return y, true
		}
		return seg{}, false
	}
	outSrc, ok := outGrow(s0.out, s1.out)
	if !ok {
		bGive("what a loop writes")
	}
	step(outSrc.n)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		x, ok1 := toLin(s0.env[p])
		y, ok2 := toLin(s1.env[p])
		if ok1 && ok2 {
			step(y.add(x, -1))
		}
	}
	if !found {
		bGive("a loop without progress")
	}
	// coefficient of the progress in a difference
	coef := func(x lin) (int64, bool) {
		for _, k := range []int64{0, 1, -1, 8, -8} {
			if q.eq(x, lform(0, nil).add(d, k)) {
				return k, true
			}
		}
		return 0, false
	}
	segT := func(x0, x1 []seg) func(n lin) []seg {
		g, ok := q.grown(x0, x1)
		if ok {
			k, ok := coef(g.n)
			if !ok || k != 0 && k != 1 {
				bGive("how a loop grows bytes")
			}
			return func(n lin) []seg {
				if k == 0 {
					return x0
				}
				return append(append([]seg{}, x0...), seg{src: g.src, off: g.off, n: n})
			}
		}
		// bytes that are overwritten from the front
		n0 := total(x0)
		if q.eq(n0, total(x1)) {
			pre := q.cut(x1, lform(0, nil), d)
			if len(pre) == 1 && pre[0].b == nil && q.sameSegs(q.cut(x1, d, n0), q.cut(x0, d, n0)) {
				return func(n lin) []seg {
					return append([]seg{{src: pre[0].src, off: pre[0].off, n: n}}, q.cut(x0, n, n0)...)
				}
			}
		}
		bGive("what a loop does to bytes")
		return nil
	}
	tmpl := map[*ssa.Phi]template{}
	same := map[*ssa.Phi]func(x av, n lin) bool{}
	for _, p := range phis {
		x0, x1 := s0.env[p], s1.env[p]
		if o, ok := x0.(aopaque); ok && strings.HasPrefix(o.what, "zero of") && isByteSlice(p.Type()) {
			x0 = q.slice(nil)
		}
		if a, ok := x0.(aslice); ok {
			c, ok := x1.(aslice)
			if !ok {
				bGive("loop variable")
			}
			if a.c == c.c && !isString(p.Type()) {
				// a window on one buffer that moves
				k1, ok1 := coef(c.lo.add(a.lo, -1))
				k2, ok2 := coef(c.hi.add(a.hi, -1))
				if !ok1 || !ok2 {
					bGive("loop variable")
				}
				tmpl[p] = func(n lin) av { return aslice{a.c, a.lo.add(n, k1), a.hi.add(n, k2)} }
				same[p] = func(x av, n lin) bool {
					y, ok := x.(aslice)
					w := tmpl[p](n).(aslice)
					return ok && y.c == w.c && q.eq(y.lo, w.lo) && q.eq(y.hi, w.hi)
				}
				continue
			}
			t := segT(q.cut(s0.segsOf(a), a.lo, a.hi), q.cut(s1.segsOf(c), c.lo, c.hi))
			tmpl[p] = func(n lin) av { return q.slice(t(n)) }
			same[p] = func(x av, n lin) bool {
				y, ok := x.(aslice)
				return ok && q.sameSegs(q.bytes(y), t(n))
			}
			continue
		}
		if x, ok := toLin(x0); ok {
			y, ok := toLin(x1)
			if !ok {
				bGive("loop variable")
			}
			k, ok := coef(y.add(x, -1))
			if !ok {
				bGive("loop variable")
			}
			w, sg, _ := intType(p.Type())
			tmpl[p] = func(n lin) av {
				r := x.add(n, k)
				r.w, r.s = w, sg
				return fromLin(r)
			}
			same[p] = func(v av, n lin) bool {
				y, ok := toLin(v)
				return ok && q.eq(y, x.add(n, k))
			}
			continue
		}
		if x0 == x1 {
			tmpl[p] = func(lin) av { return x0 }
			same[p] = func(v av, _ lin) bool { return v == x0 }
			continue
		}
		bGive("loop variable %s", p.Name())
	}
	cellT := map[*bcell]func(n lin) []seg{}
	havoc := map[*bcell]lin{}
	// scratch space: its content is not known
	scratch := func(c *bcell, n lin) {
		havoc[c] = n
		nm := fmt.Sprintf("scratch%d.%d", b.Index, len(havoc))
		cellT[c] = func(lin) []seg { return []seg{{src: nm, off: lform(0, nil), n: n}} }
	}
	try := func(a, b []seg) (t func(n lin) []seg, why string) {
		defer func() {
			if r := recover(); r != nil {
				g, ok := r.(bgive)
				if !ok {
					panic(r)
				}
				why = g.why
			}
		}()
		return segT(a, b), ""
	}
	for c, g := range s0.cells {
		if !q.sameSegs(g, s1.cells[c]) {
			if t, why := try(g, s1.cells[c]); why == "" {
				cellT[c] = t
			} else if n := total(g); q.eq(n, total(s1.cells[c])) {
				scratch(c, n)
			} else {
				bGive("%s", why)
			}
		}
	}
	kpos, ok := coef(s1.pos.add(s0.pos, -1))
	if !ok {
		bGive("how far a loop reads")
	}
	kout, ok := coef(outSrc.n)
	if !ok {
		bGive("how much a loop writes")
	}
	outT := func(n lin) []any {
		r := append([]any{}, s0.out...)
		if kout == 1 {
			sv := q.out
			q.out = r
			q.emit(seg{src: outSrc.src, off: outSrc.off, n: n})
			r, q.out = q.out, sv
		} else if kout != 0 {
			bGive("how much a loop writes")
		}
		return r
	}
	N := linSym(fmt.Sprintf("n%d", b.Index))
	base := q.facts
	generic := func() {
		q.restore(fr, s0)
		for c, t := range cellT {
			c.segs = q.norm(t(N))
		}
		for _, p := range phis {
			fr.env[p] = tmpl[p](N)
		}
		q.pos = s0.pos.add(N, kpos)
		q.out = outT(N)
	}
	// what the progress cannot exceed: guessed from the forms at hand
	var cands []lin
	seen := map[string]bool{}
	cand := func(x lin) {
		if x.t != "" && !seen[x.String()] && q.prove(x.add(d, -1)) {
			seen[x.String()] = true
			cands = append(cands, x.add(N, -1))
		}
	}
	for _, v := range s0.env {
		switch v := v.(type) {
		case lin:
			cand(v)
		case aslice:
			cand(v.len())
		}
	}
	for _, c := range q.cells {
		cand(total(c.segs))
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].String() < cands[j].String() })
	for {
		drop := map[int]bool{}
		again := false
		work := [][]lin{nil}
		for n := 0; len(work) > 0; n++ {
			if n > 200 {
				bGive("too many cases in a loop")
			}
			local := work[0]
			work = work[1:]
			q.facts = append(append(append(append([]lin{}, base...), N), cands...), local...)
			if q.contradictory() {
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						s, ok := r.(linSplit)
						if !ok {
							panic(r)
						}
						work = append(work, append(append([]lin{}, local...), s.f), append(append([]lin{}, local...), lform(-1, nil).add(s.f, -1)))
					}
				}()
				generic()
				ret, at, prev := f.run(fr, nil, b, stop)
				if at != b {
					if at == nil {
						if _, e := errOf(ret); !e {
							bGive("a loop returns")
						}
					} else if prev != b {
						bGive("a loop is left in its middle")
					}
					return
				}
				f.phis(fr, prev, b)
				// the progress made
				var n2 lin
				switch {
				case kpos != 0:
					n2 = q.pos.add(s0.pos, -1)
				case kout != 0:
					g, ok := outGrow(s0.out, q.out)
					if !ok {
						bGive("what a loop writes")
					}
					n2 = g.n
				default:
					for _, p := range phis {
						x, ok1 := toLin(s0.env[p])
						y, ok2 := toLin(s1.env[p])
						z, ok3 := toLin(fr.env[p])
						if ok1 && ok2 && ok3 {
							if k, ok := coef(y.add(x, -1)); ok && k == 1 {
								n2 = z.add(x, -1)
							} else if ok && k == -1 {
								n2 = x.add(z, -1)
							}
						}
					}
					if n2.m == nil {
						bGive("the progress of a loop")
					}
				}
				if !q.prove(n2) {
					bGive("a loop may go back")
				}
				if !q.eq(q.pos, s0.pos.add(n2, kpos)) || q.bitAt != 0 || !q.sameOut(q.out, outT(n2)) {
					bGive("what a loop reads or writes differs between its iterations")
				}
				for _, p := range phis {
					if !same[p](fr.env[p], n2) {
						bGive("loop variable %s does not keep its form", p.Name())
					}
				}
				for c, g := range s0.cells {
					w := g
					if t := cellT[c]; t != nil {
						w = t(n2)
					}
					if n, ok := havoc[c]; ok && q.eq(n, total(c.segs)) {
						continue
					}
					if !q.sameSegs(c.segs, w) {
						if n := total(g); q.eq(n, total(c.segs)) {
							scratch(c, n)
							again = true
							continue
						}
						bGive("bytes do not keep their form in a loop")
					}
				}
				for i, c := range cands {
					if !q.prove(c.add(N, 1).add(n2, -1)) {
						drop[i] = true
					}
				}
			}()
		}
		if len(drop) == 0 && !again {
			break
		}
		var keep []lin
		for i, c := range cands {
			if !drop[i] {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	// leave the loop from the generic state
	q.facts = append(append(append([]lin{}, base...), N), cands...)
	keepFacts := q.facts
	for _, try := range [][]lin{nil} {
		work := [][]lin{try}
		for n := 0; len(work) > 0 && n < 50; n++ {
			local := work[0]
			work = work[1:]
			q.facts = append(append([]lin{}, keepFacts...), local...)
			if q.contradictory() {
				continue
			}
			done := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						s, ok := r.(linSplit)
						if !ok {
							panic(r)
						}
						work = append(work, append(append([]lin{}, local...), s.f), append(append([]lin{}, local...), lform(-1, nil).add(s.f, -1)))
					}
				}()
				generic()
				next, _ := f.body(fr, b)
				if next != nil && !body[next] {
					from, to, done = b, next, true
				}
			}()
			if done {
				return from, to, nil
			}
		}
	}
	bGive("how a loop ends")
	return nil, nil, nil
}

func (s bstate) segsOf(a aslice) []seg {
	if g, ok := s.cells[a.c]; ok {
		return g
	}
	return a.c.segs
}

func (q *blob) sameOut(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case bhead:
			y, ok := b[i].(bhead)
			if !ok || x.kind != y.kind || !q.eq(x.x, y.x) {
				return false
			}
		case seg:
			y, ok := b[i].(seg)
			if !ok || !q.sameSeg(x, y) {
				return false
			}
		case bbits:
			y, ok := b[i].(bbits)
			if !ok || !sameBits(x.b, y.b) {
				return false
			}
		}
	}
	return true
}

func (q *blob) show(out []any) string {
	var r []string
	for _, o := range out {
		switch o := o.(type) {
		case bhead:
			r = append(r, fmt.Sprintf("%s(%s)", o.kind, o.x))
		case seg:
			r = append(r, q.showSeg(o))
		case bbits:
			r = append(r, fmt.Sprintf("%d bits", len(o.b)))
		}
	}
	return "[" + strings.Join(r, " ") + "]"
}

func (q *blob) showSeg(o seg) string {
	switch {
	case o.b != nil:
		return "a byte"
	case o.src == "":
		return fmt.Sprintf("%s zero bytes", o.n)
	}
	return fmt.Sprintf("%s[%s:%s]", o.src, o.off, o.off.add(o.n, 1))
}

func (q *blob) showSegs(s []seg) string {
	var r []string
	for _, o := range s {
		r = append(r, q.showSeg(o))
	}
	return "[" + strings.Join(r, " ") + "]"
}

// --- the rule

// blobClass is a class of values: the size field, and the length of the
// buffer, as forms, with the facts about their unknowns.
type blobClass struct {
	size, n lin
	facts   []lin
	fits    bool
	rest    int
}

func (c *Ctx) blobs() {
	c.Rule("byte-sequences", "strings, byte buffers and bit buffers are written as their length and their content, and read back as the same; a buffer that does not have the length given is rejected; the size is that of header and content", 9)
	w := c.World
	q, l, t := linSym("q"), linSym("l"), linSym("t")
	lim := lform(1<<31-1, nil)
	bytesClasses := []blobClass{
		{size: lform(0, nil), n: lform(0, nil), fits: true},
		{size: q, n: q, facts: []lin{q.plus(-1), lim.add(q, -1)}, fits: true},
	}
	var bits []blobClass
	for r := int64(0); r < 8; r++ {
		up := int64(0)
		if r > 0 {
			up = 1
		}
		size := lform(r, map[string]int64{"q": 8})
		bits = append(bits,
			blobClass{size: lform(r, nil), n: lform(up, nil), fits: true, rest: int(r)},
			blobClass{size: size, n: q.plus(up), facts: []lin{q.plus(-1), lim.add(size, -1)}, fits: true, rest: int(r)},
			blobClass{size: size, n: q.plus(up+1).add(t, 1), facts: []lin{q, t, lim.add(size, -1)}},
			blobClass{size: lform(r, map[string]int64{"l": 8, "t": 8}).plus(8 * (1 - up)), n: l, facts: []lin{l, t}},
		)
	}
	mism := append(append([]blobClass{}, bytesClasses...),
		blobClass{size: q, n: q.plus(1).add(t, 1), facts: []lin{q, t, lim.add(q, -1)}},
		blobClass{size: l.plus(1).add(t, 1), n: l, facts: []lin{l, t}})
	for _, k := range []struct {
		name    string
		classes []blobClass
	}{{"String", bytesClasses}, {"Bytes", mism}, {"Extern", bits}} {
		for _, dir := range []string{"Write", "Read", "BitSizeOf"} {
			fn := w.rtFunc(dir + k.name)
			if fn == nil {
				c.undecided(dir+k.name, fmt.Errorf("function not found"))
				continue
			}
			var why string
			var err, gave error
			n := 0
			for _, cl := range k.classes {
				if dir != "Write" && !cl.fits {
					continue
				}
				why, err = c.blobClass(fn, dir, cl, k.name, &n)
				if why != "" {
					break
				}
				if err != nil && gave == nil {
					gave = err
				}
			}
			if why == "" && err == nil {
				err = gave
			}
			c.Count("byte_sequence_classes", n)
			if err != nil && why == "" {
				c.undecided(dir+k.name, err)
				continue
			}
			c.Check(why == "", "byte-sequences", dir+k.name, w.relPos(fn.Pos()), "%s", why)
		}
	}
}

func (c *Ctx) blobClass(fn *ssa.Function, dir string, cl blobClass, kind string, n *int) (why string, err error) {
	type run struct {
		facts []lin
		fixed map[bit]bit
	}
	work := []run{{cl.facts, nil}}
	start := *n
	for len(work) > 0 && why == "" {
		if *n++; *n > start+400 {
			return "", fmt.Errorf("too many classes")
		}
		facts, fixed := work[0].facts, work[0].fixed
		work = work[1:]
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case linSplit:
					work = append(work, run{append(append([]lin{}, facts...), r.f), fixed}, run{append(append([]lin{}, facts...), lform(-1, nil).add(r.f, -1)), fixed})
				case split:
					for _, x := range []bit{0, 1} {
						m := map[bit]bit{r.b: x}
						for k, v := range fixed {
							m[k] = v
						}
						work = append(work, run{facts, m})
					}
				case bgive:
					err = fmt.Errorf("%s", r.why)
				case bviol:
					why = r.why
				default:
					err = fmt.Errorf("the analysis stopped: %v", r)
				}
			}()
			q := &blob{w: c.World, fixed: fixed, facts: append([]lin{}, facts...), loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, pos: lform(0, nil)}
			if q.contradictory() {
				return
			}
			f := &bi{w: c.World, blob: q, calls: q.calls}
			switch dir {
			case "Write":
				q.checkWrite(f, fn, cl, kind)
			case "Read":
				q.checkRead(f, fn, cl, kind)
			default:
				q.checkSize(f, fn, cl, kind)
			}
		}()
	}
	return
}

// blobFields gives the fields of a buffer type that hold size and content.
func blobFields(t types.Type) (size, buf int) {
	size, buf = -1, -1
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		bGive("type %s", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if isByteSlice(st.Field(i).Type()) {
			buf = i
		} else if _, _, ok := intType(st.Field(i).Type()); ok {
			size = i
		}
	}
	if size < 0 || buf < 0 {
		bGive("type %s", t)
	}
	return
}

func (q *blob) expect(cl blobClass, src string) []any {
	sv := q.out
	q.out = []any{bhead{"Varsize", cl.size}}
	full := cl.n
	if cl.rest > 0 {
		full = full.plus(-1)
	}
	q.emit(seg{src: src, off: lform(0, nil), n: full})
	if cl.rest > 0 {
		b := q.byteAt(src, full)
		var m []bit
		for i := 0; i < cl.rest; i++ {
			m = append(m, b.b[7-i])
		}
		q.out = append(q.out, bbits{m})
	}
	r := q.out
	q.out = sv
	return r
}

func (q *blob) value(pt types.Type, cl blobClass, kind string) av {
	content := q.slice([]seg{{src: "content", off: lform(0, nil), n: cl.n}})
	var arg av = content
	if kind != "String" {
		s, b := blobFields(pt)
		st := astruct{map[int]av{s: fromLin(cl.size), b: content}}
		arg = av(st)
		if _, ok := pt.Underlying().(*types.Pointer); ok {
			arg = aptr{c: &acell{st}}
		}
	}
	return arg
}

func (q *blob) checkSize(f *bi, fn *ssa.Function, cl blobClass, kind string) {
	got, e := errOf(f.call(fn, []av{q.value(fn.Params[0].Type(), cl, kind)}, nil))
	what := fmt.Sprintf("a buffer of %s bytes with size %s", cl.n, cl.size)
	if e {
		bViol("%s cannot be sized", what)
	}
	x, ok := toLin(got)
	if !ok {
		bGive("size")
	}
	if len(q.hsize) != 1 || q.hsize[0].kind != "5" || !q.eq(q.hsize[0].x, cl.size) {
		if len(q.hsize) == 1 {
			bViol("%s is sized with a header of at most %s bytes for %s", what, q.hsize[0].kind, q.hsize[0].x)
		}
		bGive("the size of the header")
	}
	n := cl.size
	if kind != "Extern" {
		n = lform(0, nil).add(n, 8)
	}
	if !q.eq(x, n.add(linSym("header0"), 1)) {
		bViol("%s is sized as %s", what, x)
	}
}

func (q *blob) checkWrite(f *bi, fn *ssa.Function, cl blobClass, kind string) {
	_, e := errOf(f.call(fn, []av{astream{true}, q.value(fn.Params[1].Type(), cl, kind)}, nil))
	what := fmt.Sprintf("a buffer of %s bytes with size %s", cl.n, cl.size)
	if !cl.fits {
		if !e {
			bViol("%s is accepted, and written as %s", what, q.show(q.out))
		}
		return
	}
	if e {
		bViol("%s is rejected", what)
	}
	want := q.expect(cl, "content")
	if !q.sameOut(q.out, want) {
		bViol("%s is written as %s instead of %s", what, q.show(q.out), q.show(want))
	}
}

func (q *blob) checkRead(f *bi, fn *ssa.Function, cl blobClass, kind string) {
	q.head = []bhead{{"Varsize", cl.size}}
	got, e := errOf(f.call(fn, []av{astream{false}}, nil))
	what := fmt.Sprintf("a buffer of %s bytes with size %s", cl.n, cl.size)
	if e {
		bViol("%s is rejected when it is read", what)
	}
	full := cl.n
	if cl.rest > 0 {
		full = full.plus(-1)
	}
	if !q.eq(q.pos, full) || q.bitAt != cl.rest || len(q.head) != 0 {
		bViol("of %s, %s bytes and %d bits are read", what, q.pos, q.bitAt)
	}
	if kind != "String" {
		si, bi := blobFields(fn.Signature.Results().At(0).Type())
		if p, ok := got.(aptr); ok {
			got = p.load()
		}
		st, ok := got.(astruct)
		if !ok {
			bGive("result")
		}
		x, ok := toLin(st.f[si])
		if !ok {
			bGive("size")
		}
		if !q.eq(x, cl.size) {
			bViol("%s is read with size %s", what, x)
		}
		got = st.f[bi]
	}
	var segs []seg
	switch g := got.(type) {
	case aslice:
		segs = q.bytes(g)
	case aopaque:
		if !strings.HasPrefix(g.what, "zero of") && g.what != "constant" {
			bGive("result")
		}
	default:
		bGive("result")
	}
	if !q.eq(total(segs), cl.n) {
		bViol("%s is read as %s bytes", what, total(segs))
	}
	want := q.norm([]seg{{src: "stream", off: lform(0, nil), n: full}})
	if !q.sameSegs(q.cut(segs, lform(0, nil), full), want) {
		bViol("%s is read as %s", what, q.showSegs(segs))
	}
	if cl.rest > 0 {
		last := q.at(aslice{&bcell{segs}, lform(0, nil), cl.n}, full)
		b := q.byteAt("stream", full)
		for i := 0; i < cl.rest; i++ {
			if last.b[7-i] != b.b[7-i] {
				bViol("the last %d bits of %s are read as other bits of the last byte", cl.rest, what)
			}
		}
	}
}

func init() {
	register(&Property{ID: "C27",
		Explain: "Abstract interpretation of the functions that write and read strings, byte buffers and bit buffers over go/ssa: lengths are linear forms, contents are ranges of named sources, loops are summarised by an inductively checked template. What is written is compared with the length and the content, what is read with what the stream holds, for every length and every number of odd bits.",
		Run: func(c *Ctx) error {
			c.blobs()
			return c.rests(on{"C01", "no-short-read"})
		}})
}
