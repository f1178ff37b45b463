package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// E is a hash-consed value expression: two program values with the same
// expression are equal. Integer arithmetic is normalised as a linear
// combination over the 64 bit ring, merges at joins become gated values.
type E struct {
	id   int
	op   string
	s    string
	args []*E
	k    kind
	co   []int64 // lin: coefficients of args; c is the constant
	c    int64
	fn   any // closure: *ssa.Function
	h    int // height, for cheap ordering
}

type kind struct {
	cls byte // i integer, b bool, f float, o other
	w   uint8
	s   bool
}

var (
	k64   = kind{'i', 64, true}
	kBool = kind{'b', 1, false}
	kOth  = kind{'o', 0, false}
)

func kindOf(t types.Type) kind {
	if t == nil {
		return kOth
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kOth
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kBool
	case types.Int8:
		return kind{'i', 8, true}
	case types.Int16:
		return kind{'i', 16, true}
	case types.Int32, types.UntypedRune:
		return kind{'i', 32, true}
	case types.Int64, types.Int, types.UntypedInt:
		return kind{'i', 64, true}
	case types.Uint8:
		return kind{'i', 8, false}
	case types.Uint16:
		return kind{'i', 16, false}
	case types.Uint32:
		return kind{'i', 32, false}
	case types.Uint64, types.Uint, types.Uintptr:
		return kind{'i', 64, false}
	case types.Float32:
		return kind{'f', 32, true}
	case types.Float64:
		return kind{'f', 64, true}
	}
	return kOth
}

// X is an expression universe.
type X struct {
	tab  map[string]*E
	n    int
	tru  *E
	fls  *E
	nil_ *E
}

func newX() *X {
	x := &X{tab: map[string]*E{}}
	x.tru = x.mk("c", "true", kBool)
	x.fls = x.mk("c", "false", kBool)
	x.nil_ = x.mk("nil", "", kOth)
	return x
}

func (x *X) key(op, s string, args []*E, co []int64, c int64) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for i, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if co != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(co[i], 10))
		}
	}
	if co != nil {
		b.WriteByte('+')
		b.WriteString(strconv.FormatInt(c, 10))
	}
	return b.String()
}

func (x *X) mk(op, s string, k kind, args ...*E) *E {
	key := x.key(op, s, args, nil, 0) + string([]byte{'/', k.cls, k.w})
	if k.s {
		key += "s"
	}
	if e, ok := x.tab[key]; ok {
		return e
	}
	e := &E{id: x.n, op: op, s: s, args: args, k: k}
	for _, a := range args {
		if a.h >= e.h {
			e.h = a.h + 1
		}
	}
	x.n++
	x.tab[key] = e
	return e
}

func (x *X) int(v int64) *E {
	key := "ci" + strconv.FormatInt(v, 10)
	if e, ok := x.tab[key]; ok {
		return e
	}
	e := &E{id: x.n, op: "c", s: strconv.FormatInt(v, 10), k: k64, c: v}
	x.n++
	x.tab[key] = e
	return e
}

func (e *E) isInt() bool   { return e.op == "c" && e.k.cls == 'i' }
func (e *E) isConst() bool { return e.op == "c" || e.op == "nil" }
func (x *X) boolc(b bool) *E {
	if b {
		return x.tru
	}
	return x.fls
}
func (x *X) isTrue(e *E) bool  { return e == x.tru }
func (x *X) isFalse(e *E) bool { return e == x.fls }

// lin builds c + sum co*args with the args reduced.
func (x *X) lin(c int64, terms map[*E]int64) *E {
	var as []*E
	for a, k := range terms {
		if k != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return x.int(c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	co := make([]int64, len(as))
	for i, a := range as {
		co[i] = terms[a]
	}
	if c == 0 && len(as) == 1 && co[0] == 1 {
		return as[0]
	}
	key := x.key("lin", "", as, co, c)
	if e, ok := x.tab[key]; ok {
		return e
	}
	e := &E{id: x.n, op: "lin", args: as, co: co, c: c, k: k64}
	for _, a := range as {
		if a.h >= e.h {
			e.h = a.h + 1
		}
	}
	x.n++
	x.tab[key] = e
	return e
}

func linOf(e *E) (int64, map[*E]int64) {
	if e.isInt() {
		return e.c, map[*E]int64{}
	}
	m := map[*E]int64{}
	if e.op == "lin" {
		for i, a := range e.args {
			m[a] = e.co[i]
		}
		return e.c, m
	}
	m[e] = 1
	return 0, m
}

func (x *X) addk(a, b *E, k int64) *E { // a + k*b
	ca, ma := linOf(a)
	cb, mb := linOf(b)
	for t, c := range mb {
		ma[t] += k * c
	}
	return x.lin(ca+k*cb, ma)
}
func (x *X) add(a, b *E) *E { return x.addk(a, b, 1) }
func (x *X) sub(a, b *E) *E { return x.addk(a, b, -1) }
func (x *X) mul(a, b *E) *E {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		c, m := linOf(b)
		for t := range m {
			m[t] *= a.c
		}
		return x.lin(c*a.c, m)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk("mul", "", k64, a, b)
}

// wide converts an integer of a narrow kind to the 64 bit ring.
func (x *X) wide(e *E) *E {
	if e.k.cls != 'i' || e.k.w == 64 {
		return e
	}
	return x.conv(k64, e)
}

func (x *X) conv(k kind, e *E) *E {
	if k.cls == 'i' && k.w == 64 {
		k = k64 // one ring of 64 bit words; signedness is in the operators
	}
	if k == e.k || k.cls != 'i' || e.k.cls != 'i' {
		if k == e.k {
			return e
		}
		return x.mk("cv", "", k, e)
	}
	if k.w == 64 && e.k.w == 64 {
		return e
	}
	if e.isInt() {
		v := e.c
		switch {
		case k.w == 64:
			return e
		case k.s:
			sh := 64 - uint(k.w)
			v = v << sh >> sh
		default:
			v = int64(uint64(v) << (64 - uint(k.w)) >> (64 - uint(k.w)))
		}
		return x.int(v)
	}
	if e.op == "cv" && len(e.args) == 1 && e.args[0].k.cls == 'i' {
		y := e.args[0]
		m := e.k
		if m.w >= k.w || m.w >= y.k.w && m.s == y.k.s || !y.k.s && m.w > y.k.w {
			return x.conv(k, y)
		}
	}
	if k.w < 64 && (e.op == "lin" || e.op == "cv") {
		if y := x.low(e, int(k.w)); y != e {
			return x.conv(k, y)
		}
	}
	if e.op == "ite" {
		// constants under a gate convert exactly
		if e.args[1].isInt() || e.args[2].isInt() {
			return x.ite(e.args[0], x.conv(k, e.args[1]), x.conv(k, e.args[2]))
		}
	}
	return x.mk("cv", "", k, e)
}

// low is a value of 64 bits with the same w low bits as e: what narrows a term
// to no fewer than w bits does not matter.
func (x *X) low(e *E, w int) *E {
	if e.k.cls != 'i' || int(e.k.w) < w {
		return e
	}
	switch {
	case e.op == "lin":
		c, m := linOf(e)
		r := x.int(int64(uint64(c) << (64 - uint(w)) >> (64 - uint(w))))
		if c < 0 && c >= -128 {
			r = x.int(c)
		}
		for _, a := range e.args {
			r = x.addk(r, x.low(a, w), m[a])
		}
		return r
	case e.op == "cv" && e.args[0].k.cls == 'i' && int(e.args[0].k.w) >= w:
		return x.wide(x.low(e.args[0], w))
	}
	return e
}

func (x *X) nonneg(e *E) bool {
	switch {
	case e.isInt():
		return e.c >= 0
	case e.op == "len" || e.op == "ix" || e.op == "cnt":
		return true
	case e.op == "cv" && e.k.w == 64 && e.args[0].k.cls == 'i' && e.args[0].k.w < 64 && !e.args[0].k.s:
		return true
	case e.op == "ite":
		return x.nonneg(e.args[1]) && x.nonneg(e.args[2])
	case e.op == "lin":
		if e.c < 0 {
			return false
		}
		for i, a := range e.args {
			if e.co[i] < 0 || !x.nonneg(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *X) not(a *E) *E {
	switch {
	case a == x.tru:
		return x.fls
	case a == x.fls:
		return x.tru
	case a.op == "not":
		return a.args[0]
	case a.op == "ite":
		return x.ite(a.args[0], x.not(a.args[1]), x.not(a.args[2]))
	}
	return x.mk("not", "", kBool, a)
}

func isPtrNonNil(e *E) bool {
	switch e.op {
	case "new", "nonnil", "mki", "closure", "glob", "fa", "ia", "func":
		return true
	}
	return false
}

func (x *X) eq(a, b *E) *E {
	if a.k.cls == 'i' || b.k.cls == 'i' {
		a, b = x.wide(a), x.wide(b)
	}
	if a == b {
		return x.tru
	}
	if a.op == "c" && b.op == "c" {
		return x.fls
	}
	if a.op == "nil" || a.op == "c" {
		a, b = b, a
	}
	if b.op == "nil" && isPtrNonNil(a) {
		return x.fls
	}
	if b.op == "nil" && (a.op == "empty" || a.op == "mapl" || a.op == "cat") {
		return x.mk("eq", "", kBool, a, b)
	}
	if a.op == "new" && b.op == "new" {
		return x.fls
	}
	if b == x.tru {
		return a
	}
	if b == x.fls {
		return x.not(a)
	}
	if a.op == "ite" && a.k.cls != 'b' {
		p, q := x.eq(a.args[1], b), x.eq(a.args[2], b)
		if p.isConst() || q.isConst() {
			return x.ite(a.args[0], p, q)
		}
	}
	if b.op == "ite" && b.k.cls != 'b' {
		p, q := x.eq(a, b.args[1]), x.eq(a, b.args[2])
		if p.isConst() || q.isConst() {
			return x.ite(b.args[0], p, q)
		}
	}
	if a.k.cls == 'i' {
		if d := x.sub(a, b); d.isInt() {
			return x.boolc(d.c == 0)
		} else if d.op == "lin" && len(d.args) == 1 && (d.co[0] == 1 || d.co[0] == -1) {
			// v + c == 0
			v := d.args[0]
			c := -d.c * d.co[0]
			if c == 0 && x.nonneg(v) {
				return x.not(x.lt(x.int(0), v))
			}
			if v.op == "ite" {
				return x.eq2(v, x.int(c))
			}
			return x.mk("eq", "", kBool, v, x.int(c))
		} else if x.nonneg(d) {
			// plain atom d == 0
			return x.not(x.lt(x.int(0), d))
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return x.mk("eq", "", kBool, a, b)
}

func (x *X) eq2(ite, b *E) *E {
	p, q := x.eq(ite.args[1], b), x.eq(ite.args[2], b)
	if p.isConst() || q.isConst() {
		return x.ite(ite.args[0], p, q)
	}
	return x.mk("eq", "", kBool, ite, b)
}

// lt is signed order on the ring.
func (x *X) lt(a, b *E) *E {
	a, b = x.wide(a), x.wide(b)
	if a == b {
		return x.fls
	}
	if a.isInt() && b.isInt() {
		return x.boolc(a.c < b.c)
	}
	if b.isInt() && b.c <= 0 && x.nonneg(a) {
		return x.fls
	}
	if a.isInt() && a.c < 0 && x.nonneg(b) {
		return x.tru
	}
	if b.isInt() && b.c == 1 && x.nonneg(a) {
		return x.not(x.lt(x.int(0), a))
	}
	if x.nonneg(a) && x.nonneg(b) {
		if d := x.sub(a, b); d.isInt() {
			return x.boolc(d.c < 0)
		}
	}
	if a.op == "ite" {
		p, q := x.lt(a.args[1], b), x.lt(a.args[2], b)
		if p.isConst() || q.isConst() {
			return x.ite(a.args[0], p, q)
		}
	}
	if b.op == "ite" {
		p, q := x.lt(a, b.args[1]), x.lt(a, b.args[2])
		if p.isConst() || q.isConst() {
			return x.ite(b.args[0], p, q)
		}
	}
	return x.mk("lt", "", kBool, a, b)
}

func (x *X) ult(a, b *E) *E {
	a, b = x.wide(a), x.wide(b)
	if a == b {
		return x.fls
	}
	if x.nonneg(a) && x.nonneg(b) {
		return x.lt(a, b)
	}
	if a.isInt() && b.isInt() {
		return x.boolc(uint64(a.c) < uint64(b.c))
	}
	if b.isInt() && b.c == 0 {
		return x.fls
	}
	return x.mk("ult", "", kBool, a, b)
}

func (x *X) ite(c, a, b *E) *E {
	if c == x.tru || a == b {
		return a
	}
	if c == x.fls {
		return b
	}
	if c.op == "not" {
		return x.ite(c.args[0], b, a)
	}
	if c.op == "ite" { // gate is itself gated with a constant arm
		p, q := c.args[1], c.args[2]
		if p.isConst() && q.isConst() {
			return x.ite(c.args[0], x.ite(p, a, b), x.ite(q, a, b))
		}
		if q.isConst() { // p && d  /  !p || ...
			return x.ite(c.args[0], x.ite(p, a, b), x.ite(q, a, b))
		}
		if p.isConst() {
			return x.ite(c.args[0], x.ite(p, a, b), x.ite(q, a, b))
		}
	}
	a = x.subst(a, map[*E]*E{c: x.tru})
	b = x.subst(b, map[*E]*E{c: x.fls})
	if a == b {
		return a
	}
	if a.k.cls == 'b' || b.k.cls == 'b' {
		if a == x.tru && b == x.fls {
			return c
		}
		if a == x.fls && b == x.tru {
			return x.not(c)
		}
	}
	k := a.k
	if a.isConst() {
		k = b.k
	}
	if k.cls == 'i' && k.w == 64 && b.op != "nil" && a.op != "nil" {
		if b.isInt() && b.c == 0 {
			return x.mk("ite", "", k64, c, a, b)
		}
		// common part out: b + ite(c, a-b, 0)
		d := x.sub(a, b)
		return x.add(b, x.ite(c, d, x.int(0)))
	}
	return x.mk("ite", "", k, c, a, b)
}

// subst replaces expressions bottom-up, rebuilding with the normalising
// constructors.
func (x *X) subst(e *E, m map[*E]*E) *E {
	if len(m) == 0 {
		return e
	}
	minH := 1 << 30
	for k := range m {
		if k.h < minH {
			minH = k.h
		}
	}
	return x.substM(e, m, map[*E]*E{}, minH)
}

func (x *X) substM(e *E, m, memo map[*E]*E, minH int) *E {
	if r, ok := m[e]; ok {
		return r
	}
	if len(e.args) == 0 || e.h < minH {
		return e
	}
	if r, ok := memo[e]; ok {
		return r
	}
	na := make([]*E, len(e.args))
	ch := false
	for i, a := range e.args {
		na[i] = x.substM(a, m, memo, minH)
		if na[i] != a {
			ch = true
		}
	}
	r := e
	if ch {
		r = x.rebuild(e, na)
		if rr, ok := m[r]; ok {
			r = rr
		}
	}
	memo[e] = r
	return r
}

func (x *X) rebuild(e *E, a []*E) *E {
	switch e.op {
	case "lin":
		r := x.int(e.c)
		for i := range a {
			r = x.addk(r, x.wide(a[i]), e.co[i])
		}
		return r
	case "mul":
		return x.mul(a[0], a[1])
	case "cv":
		return x.conv(e.k, a[0])
	case "not":
		return x.not(a[0])
	case "eq":
		return x.eq(a[0], a[1])
	case "lt":
		return x.lt(a[0], a[1])
	case "ult":
		return x.ult(a[0], a[1])
	case "ite":
		return x.ite(a[0], a[1], a[2])
	case "fld":
		return x.fld(a[0], e.s, e.k)
	case "ld":
		return x.ld(a[0], e.k)
	case "len":
		return x.len(a[0])
	case "mapl":
		return x.mapl(a[0], a[1], e.s)
	case "cat":
		return x.cat(a[0], a[1])
	case "agg":
		return x.aggregate(a[0], strings.Split(e.s, ";"), a[1:])
	case "sum":
		return x.sum(a[0], a[1], e.s)
	case "fold":
		return x.fold(a[0], a[1], a[2], e.s, e.k)
	case "elem":
		return x.elem(a[0], a[1], e.k)
	case "fa", "ia", "new":
		return x.mk(e.op, e.s, e.k, a...)
	}
	if strings.HasPrefix(e.op, "op") && e.k.cls == 'i' && len(a) == 2 {
		for _, t := range intOps {
			if r, ok := strings.CutPrefix(e.op, "op"+t.String()); ok && len(r) > 1 && (r[0] == 'u' || r[0] == 's') {
				return x.binK(t, a[0], a[1], e.k)
			}
		}
	}
	r := x.mk(e.op, e.s, e.k, a...)
	if e.fn != nil {
		r.fn = e.fn
	}
	return r
}

func (x *X) contains(e, s *E) bool {
	seen := map[*E]bool{}
	var f func(e *E) bool
	f = func(e *E) bool {
		if e == s {
			return true
		}
		if e.h <= s.h || seen[e] {
			return false
		}
		seen[e] = true
		for _, a := range e.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(e)
}

func (x *X) has(e *E, pred func(*E) bool) bool {
	seen := map[*E]bool{}
	var f func(e *E) bool
	f = func(e *E) bool {
		if seen[e] {
			return false
		}
		seen[e] = true
		if pred(e) {
			return true
		}
		for _, a := range e.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(e)
}

// --- pointers and aggregates

func (x *X) fa(p *E, f string) *E {
	if p.op == "ite" {
		return x.ite(p.args[0], x.fa(p.args[1], f), x.fa(p.args[2], f))
	}
	return x.mk("fa", f, kOth, p)
}
func (x *X) ia(p, i *E) *E {
	if p.op == "ite" {
		return x.ite(p.args[0], x.ia(p.args[1], i), x.ia(p.args[2], i))
	}
	return x.mk("ia", "", kOth, p, x.wide(i))
}

// ld is the content of a location in the initial memory.
func (x *X) ld(p *E, k kind) *E {
	if p.op == "ite" {
		return x.ite(p.args[0], x.ld(p.args[1], k), x.ld(p.args[2], k))
	}
	if p.op == "ia" && (p.args[0].op == "mapl" || p.args[0].op == "cat" || p.args[0].op == "list") {
		return x.elem(p.args[0], p.args[1], k)
	}
	if p.op == "fa" { // field of an element of a value slice
		q := p.args[0]
		for q.op == "fa" {
			q = q.args[0]
		}
		if q.op == "ia" && (q.args[0].op == "mapl" || q.args[0].op == "list") {
			return x.fld(x.ld(p.args[0], kOth), p.s, k)
		}
	}
	return x.mk("ld", "", k, p)
}

// fld extracts a field of a struct value.
func (x *X) fld(v *E, f string, k kind) *E {
	switch v.op {
	case "ld":
		return x.ld(x.fa(v.args[0], f), k)
	case "agg":
		for i, n := range strings.Split(v.s, ";") {
			if n == f {
				return v.args[i+1]
			}
		}
		return x.fld(v.args[0], f, k)
	case "zero":
		return x.zeroK(k)
	case "ite":
		return x.ite(v.args[0], x.fld(v.args[1], f, k), x.fld(v.args[2], f, k))
	}
	return x.mk("fld", f, k, v)
}

func (x *X) zeroK(k kind) *E {
	switch k.cls {
	case 'i':
		return x.int(0)
	case 'b':
		return x.fls
	case 'f':
		return x.mk("c", "0", k)
	}
	return x.mk("zero", "", kOth)
}

func (x *X) zero(t types.Type) *E {
	k := kindOf(t)
	switch k.cls {
	case 'i', 'b', 'f':
		return x.zeroK(k)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return x.nil_
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return x.mk("zero", "T:"+t.String(), kOth)
		}
		return x.nil_
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.mk("c", `""`, kOth)
		}
	}
	return x.mk("zero", "", kOth)
}

// aggregate is a struct value with some fields replaced.
func (x *X) aggregate(base *E, names []string, vals []*E) *E {
	m := map[string]*E{}
	if base.op == "agg" {
		for i, n := range strings.Split(base.s, ";") {
			m[n] = base.args[i+1]
		}
		base = base.args[0]
	}
	for i, n := range names {
		m[n] = vals[i]
	}
	var ks []string
	for n := range m {
		if x.fld(base, n, m[n].k) == m[n] {
			continue
		}
		ks = append(ks, n)
	}
	if len(ks) == 0 {
		return base
	}
	sort.Strings(ks)
	args := []*E{base}
	for _, n := range ks {
		args = append(args, m[n])
	}
	return x.mk("agg", strings.Join(ks, ";"), kOth, args...)
}

// --- slices as values

func (x *X) len(s *E) *E {
	switch s.op {
	case "empty", "nil", "zero":
		return x.int(0)
	case "zeros":
		return s.args[0]
	case "mapl":
		return s.args[0]
	case "list":
		return x.int(int64(len(s.args)))
	case "cat":
		return x.add(x.len(s.args[0]), x.len(s.args[1]))
	case "ite":
		return x.ite(s.args[0], x.len(s.args[1]), x.len(s.args[2]))
	case "c":
		if str, err := strconv.Unquote(s.s); err == nil {
			return x.int(int64(len(str)))
		}
	}
	return x.mk("len", "", k64, s)
}

func (x *X) cat(a, b *E) *E {
	if a.op == "empty" || a.op == "nil" || a.op == "zero" {
		return b
	}
	if b.op == "empty" || b.op == "nil" || b.op == "zero" {
		return a
	}
	if a.op == "list" && b.op == "list" {
		return x.mk("list", "", kOth, append(append([]*E{}, a.args...), b.args...)...)
	}
	if a.op == "cat" && a.args[1].op == "list" && b.op == "list" {
		return x.mk("cat", "", kOth, a.args[0], x.cat(a.args[1], b))
	}
	return x.mk("cat", "", kOth, a, b)
}

func (x *X) ix(d string) *E { return x.mk("ix", d, k64) }

// mapl is the list of body[ix] for ix < n; ix is the binder named d.
func (x *X) mapl(n, body *E, d string) *E {
	if n.isInt() && n.c == 0 {
		return x.mk("empty", "", kOth)
	}
	// the list of all elements of S is S
	if body.op == "ld" && body.args[0].op == "ia" && body.args[0].args[1] == x.ix(d) {
		if s := body.args[0].args[0]; x.len(s) == n && !x.contains(s, x.ix(d)) {
			return s
		}
	}
	return x.mk("mapl", d, kOth, n, body)
}

func (x *X) elem(s, i *E, k kind) *E {
	switch s.op {
	case "mapl":
		return x.subst(s.args[1], map[*E]*E{x.ix(s.s): i})
	case "list":
		if i.isInt() && i.c >= 0 && int(i.c) < len(s.args) {
			return s.args[i.c]
		}
	case "ld", "res", "acc", "p":
		return x.ld(x.ia(s, i), k)
	}
	return x.mk("elem", "", k, s, i)
}

// sum of body[ix] over ix < n.
func (x *X) sum(n, body *E, d string) *E {
	if n.isInt() && n.c == 0 {
		return n
	}
	if !x.contains(body, x.ix(d)) {
		return x.mul(n, body)
	}
	return x.mk("sum", d, k64, n, body)
}

// fold is facc after n steps facc := body from init.
func (x *X) fold(n, init, body *E, d string, k kind) *E {
	acc := x.mk("facc", d, k)
	if n.isInt() && n.c == 0 {
		return init
	}
	// count from where every use of the accumulator counts from
	if k.cls == 'i' && k.w == 64 {
		if off := x.foldOff(body, acc, x.ix(d)); off != nil {
			tmp := x.mk("facc", d+"'", k)
			b := x.add(x.subst(body, map[*E]*E{acc: x.sub(tmp, off)}), off)
			b = x.subst(b, map[*E]*E{tmp: acc})
			return x.sub(x.fold1(n, x.add(init, off), b, d, k), off)
		}
	}
	return x.fold1(n, init, body, d, k)
}

func (x *X) fold1(n, init, body *E, d string, k kind) *E {
	acc := x.mk("facc", d, k)
	if k.cls == 'i' && k.w == 64 {
		if df := x.sub(body, acc); !x.contains(df, acc) {
			return x.add(init, x.sum(n, df, d))
		}
	}
	return x.mk("fold", d, k, n, init, body)
}

// foldOff is the offset that all uses of an accumulator add to it, if it is not
// nothing and does not change from step to step.
func (x *X) foldOff(body, acc, ix *E) *E {
	var off *E
	ok := true
	seen := map[*E]bool{}
	var visit func(e *E, top bool)
	visit = func(e *E, top bool) {
		if !ok || !top && seen[e] || !x.contains(e, acc) {
			return
		}
		seen[e] = !top
		d := x.int(0)
		if e == acc {
			if top {
				return
			}
		} else if e.op == "lin" {
			for _, a := range e.args {
				if a != acc {
					visit(a, false)
				}
			}
			if top {
				return
			}
			_, m := linOf(e)
			d = x.sub(e, acc)
			if m[acc] != 1 || x.contains(d, acc) || x.contains(d, ix) {
				return
			}
		} else {
			for _, a := range e.args {
				visit(a, false)
			}
			return
		}
		if off != nil && off != d {
			ok = false
		}
		off = d
	}
	visit(body, true)
	if !ok || off == nil || off == x.int(0) {
		return nil
	}
	return off
}

// --- constants and operators

func (x *X) constant(v constant.Value, t types.Type) *E {
	if v == nil {
		return x.zero(t)
	}
	k := kindOf(t)
	switch k.cls {
	case 'b':
		return x.boolc(constant.BoolVal(v))
	case 'i':
		v = constant.ToInt(v)
		if i, ok := constant.Int64Val(v); ok {
			return x.int(i)
		}
		if u, ok := constant.Uint64Val(v); ok {
			return x.int(int64(u))
		}
	}
	return x.mk("c", v.ExactString(), k)
}

func (x *X) bin(op token.Token, a, b *E, t types.Type) *E {
	return x.binK(op, a, b, kindOf(t))
}

var intOps = []token.Token{token.AND_NOT, token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.QUO, token.REM}

// binK is a binary operation on operands of kind k.
func (x *X) binK(op token.Token, a, b *E, k kind) *E {
	switch op {
	case token.EQL:
		return x.eq(a, b)
	case token.NEQ:
		return x.not(x.eq(a, b))
	}
	if k.cls == 'i' {
		wa, wb := x.wide(a), x.wide(b)
		cmp := x.lt
		if !k.s {
			cmp = x.ult
		}
		switch op {
		case token.LSS:
			return cmp(wa, wb)
		case token.GTR:
			return cmp(wb, wa)
		case token.LEQ:
			return x.not(cmp(wb, wa))
		case token.GEQ:
			return x.not(cmp(wa, wb))
		case token.ADD:
			return x.conv(k, x.add(wa, wb))
		case token.SUB:
			return x.conv(k, x.sub(wa, wb))
		case token.MUL:
			return x.conv(k, x.mul(wa, wb))
		}
		if wa.isInt() && wb.isInt() {
			p, q := wa.c, wb.c
			switch op {
			case token.AND:
				return x.int(p & q)
			case token.OR:
				return x.int(p | q)
			case token.XOR:
				return x.int(p ^ q)
			case token.SHL:
				if q >= 0 && q < 64 {
					return x.conv(k, x.int(p<<uint(q)))
				}
				return x.int(0)
			case token.SHR:
				if q >= 0 && q < 64 {
					if k.s {
						return x.int(p >> uint(q))
					}
					return x.int(int64(uint64(p) >> uint(q)))
				}
			case token.QUO:
				if q != 0 && k.s {
					return x.int(p / q)
				}
			case token.REM:
				if q != 0 && k.s {
					return x.int(p % q)
				}
			}
		}
		if op == token.SHL && wb.isInt() && wb.c >= 0 && wb.c < 63 {
			return x.conv(k, x.mul(x.int(1<<uint(wb.c)), wa))
		}
		if (op == token.AND || op == token.OR || op == token.XOR) && wa.id > wb.id {
			wa, wb = wb, wa
		}
		sg := "u"
		if k.s {
			sg = "s"
		}
		return x.mk("op"+op.String()+sg+strconv.Itoa(int(k.w)), "", k, wa, wb)
	}
	switch op {
	case token.LSS:
		return x.mk("fl<", "", kBool, a, b)
	case token.GTR:
		return x.mk("fl<", "", kBool, b, a)
	case token.LEQ:
		return x.mk("fl<=", "", kBool, a, b)
	case token.GEQ:
		return x.mk("fl<=", "", kBool, b, a)
	}
	return x.mk("op"+op.String(), "", k, a, b)
}

// String renders an expression for reports.
func (e *E) String() string {
	strBudget = 60
	return e.str(0)
}

var strBudget int

func (e *E) str(d int) string {
	strBudget--
	if d > 10 || strBudget < 0 {
		return "…"
	}
	as := func(i int) string { return e.args[i].str(d + 1) }
	switch e.op {
	case "c":
		return e.s
	case "nil":
		return "nil"
	case "p", "glob", "func":
		return e.s
	case "ix":
		return "i" + e.s
	case "new":
		return "new#" + e.s
	case "fa":
		return as(0) + "." + e.s
	case "fld":
		return as(0) + "." + e.s
	case "ia":
		return as(0) + "[" + as(1) + "]"
	case "ld":
		p := e.args[0]
		if p.op == "fa" || p.op == "ia" || p.op == "glob" {
			return p.str(d)
		}
		return "*" + p.str(d+1)
	case "lin":
		var b []string
		if e.c != 0 {
			b = append(b, strconv.FormatInt(e.c, 10))
		}
		for i := range e.args {
			if e.co[i] == 1 {
				b = append(b, as(i))
			} else {
				b = append(b, strconv.FormatInt(e.co[i], 10)+"*"+as(i))
			}
		}
		return "(" + strings.Join(b, " + ") + ")"
	case "cv":
		sg := "u"
		if e.k.s {
			sg = "i"
		}
		return fmt.Sprintf("%s%d(%s)", sg, e.k.w, as(0))
	case "eq":
		return "(" + as(0) + " == " + as(1) + ")"
	case "lt", "ult":
		return "(" + as(0) + " < " + as(1) + ")"
	case "not":
		return "!" + as(0)
	case "ite":
		return "(" + as(0) + " ? " + as(1) + " : " + as(2) + ")"
	}
	var b []string
	for i := range e.args {
		b = append(b, as(i))
	}
	n := e.op
	if e.s != "" {
		n += ":" + e.s
	}
	if len(b) == 0 {
		return n
	}
	return n + "(" + strings.Join(b, ", ") + ")"
}

var _ = bits.Len64
