package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Floating point numbers in engine B: a number is the vector of its IEEE 754
// bits, sign first, then exponent and mantissa. Conversions between widths
// keep what they were made of, and are worked out on the bits only when
// something looks at them.

type aflt struct {
	b    *bv // of width 16, 32 or 64; nil if not worked out yet
	of   *bv // the half (16 bits) or single (32 bits) this is the exact widening of
	wide int // the width of the number
}

// expMant gives the numbers of exponent and mantissa bits.
func expMant(w int) (int, int) {
	switch w {
	case 16:
		return 5, 10
	case 32:
		return 8, 23
	}
	return 11, 52
}

// num decides bits lo..lo+n-1 of v.
func (v *bv) num(lo, n int) int {
	r := 0
	for i := lo + n - 1; i >= lo; i-- {
		r <<= 1
		if decide(v.b[i]) {
			r |= 1
		}
	}
	return r
}

// any decides whether one of the bits lo..hi-1 is set.
func (v *bv) any(lo, hi int) bool {
	for i := lo; i < hi; i++ {
		if v.b[i] == 1 {
			return true
		}
	}
	for i := hi - 1; i >= lo; i-- {
		if decide(v.b[i]) {
			return true
		}
	}
	return false
}

func fltNaN(v *bv) bool {
	e, m := expMant(v.w)
	return v.num(m, e) == 1<<uint(e)-1 && v.any(0, m)
}

// refloat is the number v of another width: exact when it gets wider, and
// rounded to the nearest, ties to even, when it gets narrower. A NaN becomes
// a NaN with bits that are not known, but for one.
func refloat(v *bv, w int) *bv {
	e1, m1 := expMant(v.w)
	e2, m2 := expMant(w)
	r := &bv{w: w}
	r.b[w-1] = v.b[v.w-1]
	setExp := func(x int) {
		for i := 0; i < e2; i++ {
			r.b[m2+i] = bit(x >> uint(i) & 1)
		}
	}
	ex := v.num(m1, e1)
	bias1, bias2 := 1<<uint(e1-1)-1, 1<<uint(e2-1)-1
	max2 := 1<<uint(e2) - 1
	if ex == 1<<uint(e1)-1 {
		setExp(max2)
		if v.any(0, m1) {
			for i := 0; i < m2; i++ {
				r.b[i] = bTop
			}
			r.b[m2-1] = 1
		}
		return r
	}
	// the significand, its leading bit at position top, with exponent p
	var sig [64]bit
	copy(sig[:], v.b[:m1])
	top, p := m1, ex-bias1
	if ex == 0 {
		top = -1
		for i := m1 - 1; i >= 0; i-- {
			if decide(v.b[i]) {
				top = i
				break
			}
		}
		if top < 0 {
			return r // zero
		}
		p = 1 - bias1 - (m1 - top)
	}
	sig[top] = 1
	// position of the bit that becomes the lowest of the mantissa
	low := top - m2
	ne := p + bias2
	if ne < 1 {
		low += 1 - ne
		ne = 0
	}
	at := func(i int) bit {
		if i < 0 || i > top {
			return 0
		}
		return sig[i]
	}
	for i := 0; i < m2; i++ {
		r.b[i] = at(low + i)
	}
	if ne >= max2 {
		for i := 0; i < m2; i++ {
			r.b[i] = 0
		}
		setExp(max2)
		return r
	}
	setExp(ne)
	if low > 0 && decide(at(low-1)) {
		up := false
		for i := min(low-2, top); i >= 0 && !up; i-- {
			up = at(i) == 1
		}
		for i := min(low-2, top); i >= 0 && !up; i-- {
			up = decide(at(i))
		}
		if up || decide(r.b[0]) {
			for i := 0; ; i++ {
				if i == w-1 {
					break
				}
				if !decide(r.b[i]) {
					r.b[i] = 1
					break
				}
				r.b[i] = 0
			}
		}
	}
	return r
}

// bits works out the bits of a number.
func (a aflt) bits() *bv {
	if a.b != nil {
		return a.b
	}
	return refloat(a.of, a.wide)
}

func (a aflt) convert(w int) aflt {
	if w == a.wide {
		return a
	}
	if a.of != nil && w >= a.of.w {
		if w == a.of.w {
			return aflt{b: a.of, wide: w}
		}
		return aflt{of: a.of, wide: w}
	}
	if w > a.wide {
		return aflt{of: a.bits(), wide: w}
	}
	return aflt{b: refloat(a.bits(), w), wide: w}
}

func fltWidth(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Float32:
			return 32
		case types.Float64:
			return 64
		}
	}
	return 0
}

func fltConst(v constant.Value, w int) aflt {
	if w == 32 {
		x, _ := constant.Float32Val(constant.ToFloat(v))
		return aflt{b: bconst(int64(math.Float32bits(x)), 32, false), wide: 32}
	}
	x, _ := constant.Float64Val(constant.ToFloat(v))
	return aflt{b: bconst(int64(math.Float64bits(x)), 64, false), wide: 64}
}

// fltLess: x < y, for numbers that are not NaN and not both zero.
func fltLess(x, y *bv) bool {
	w := x.w
	sx, sy := decide(x.b[w-1]), decide(y.b[w-1])
	if sx != sy {
		return sx
	}
	for i := w - 2; i >= 0; i-- {
		if x.b[i] == y.b[i] {
			continue
		}
		p, q := decide(x.b[i]), decide(y.b[i])
		if p != q {
			return q != sx
		}
	}
	return false
}

func fltEqual(x, y *bv) bool {
	if !x.any(0, x.w-1) {
		return !y.any(0, y.w-1)
	}
	for i := x.w - 1; i >= 0; i-- {
		if x.b[i] != y.b[i] && decide(x.b[i]) != decide(y.b[i]) {
			return false
		}
	}
	return true
}

func fltBin(op token.Token, a, b aflt) av {
	x, y := a.bits(), b.bits()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		bGive("operator %s on floating point numbers", op)
	}
	if fltNaN(x) || fltNaN(y) {
		return abit(op == token.NEQ)
	}
	eq := fltEqual(x, y)
	switch op {
	case token.EQL:
		return abit(eq)
	case token.NEQ:
		return abit(!eq)
	case token.LSS:
		return abit(!eq && fltLess(x, y))
	case token.LEQ:
		return abit(eq || fltLess(x, y))
	case token.GTR:
		return abit(!eq && fltLess(y, x))
	}
	return abit(eq || fltLess(y, x))
}

// fltCalls interprets what the float functions use of other packages.
func fltCalls(f *bi, callee *ssa.Function, args []av) (av, bool) {
	fl := func(i int) aflt {
		a, ok := args[i].(aflt)
		if !ok {
			bGive("number")
		}
		return a
	}
	vec := func(i int) *bv {
		a, ok := args[i].(*bv)
		if !ok {
			bGive("bits")
		}
		return a.plain()
	}
	sign := func(v *bv, s bit) aflt {
		r := *v
		r.b[r.w-1] = s
		return aflt{b: &r, wide: r.w}
	}
	name := callee.String()
	switch name {
	case "math.Float32bits", "math.Float64bits":
		return fl(0).bits().convert(fl(0).wide, false), true
	case "math.Float32frombits", "math.Float64frombits":
		v := vec(0)
		return aflt{b: v, wide: v.w}, true
	case "math.IsNaN":
		a := fl(0)
		if a.of != nil {
			return abit(fltNaN(a.of)), true
		}
		return abit(fltNaN(a.bits())), true
	case "math.IsInf":
		v := fl(0).bits()
		s, ok := args[1].(*bv)
		if !ok || !s.isConst() {
			bGive("sign")
		}
		e, m := expMant(v.w)
		if v.num(m, e) != 1<<uint(e)-1 || v.any(0, m) {
			return abit(false), true
		}
		return abit(s.i64() == 0 || decide(v.b[v.w-1]) == (s.i64() < 0)), true
	case "math.Inf":
		s, ok := args[0].(*bv)
		if !ok || !s.isConst() {
			bGive("sign")
		}
		sg := 1
		if s.i64() < 0 {
			sg = -1
		}
		return aflt{b: bconst(int64(math.Float64bits(math.Inf(sg))), 64, false), wide: 64}, true
	case "math.NaN":
		return aflt{b: bconst(int64(math.Float64bits(math.NaN())), 64, false), wide: 64}, true
	case "math.Signbit":
		a := fl(0)
		v := a.b
		if a.of != nil {
			v = a.of
		}
		return abool{v.b[v.w-1]}, true
	case "math.Abs":
		return sign(fl(0).bits(), 0), true
	case "math.Copysign":
		y := fl(1).bits()
		return sign(fl(0).bits(), y.b[y.w-1]), true
	case "github.com/x448/float16.Fromfloat32":
		// documented: IEEE 754 rounding to nearest, ties to even
		a := fl(0)
		if a.of != nil && a.of.w == 16 {
			return a.of, true
		}
		return refloat(a.bits(), 16), true
	case "github.com/x448/float16.Frombits":
		return vec(0), true
	case "(github.com/x448/float16.Float16).Bits":
		return vec(0), true
	case "(github.com/x448/float16.Float16).Float32":
		return aflt{of: vec(0), wide: 32}, true
	case "(github.com/x448/float16.Float16).IsNaN":
		return abit(fltNaN(vec(0))), true
	case "(github.com/x448/float16.Float16).Signbit":
		return abool{vec(0).b[15]}, true
	case "encoding/binary.Write":
		little := byteOrder(args[1])
		var v *bv
		switch x := args[2].(type) {
		case *bv:
			v = x.plain()
		case aflt:
			v = x.bits()
		case aptr:
			switch x := x.load().(type) {
			case *bv:
				v = x.plain()
			case aflt:
				v = x.bits()
			}
		}
		if _, ok := args[0].(astream); !ok || v == nil || v.w%8 != 0 {
			bGive("binary.Write")
		}
		f.put(swapped(v, little), v.w, true, token.NoPos)
		return aerr{false}, true
	case "encoding/binary.Read":
		little := byteOrder(args[1])
		p, ok := args[2].(aptr)
		if _, ok2 := args[0].(astream); !ok || !ok2 {
			bGive("binary.Read")
		}
		switch x := p.load().(type) {
		case *bv:
			v := swapped(f.get(x.w, x.w), little)
			v.s = x.s
			p.store(v)
		case aflt:
			p.store(aflt{b: swapped(f.get(x.wide, x.wide), little), wide: x.wide})
		default:
			bGive("binary.Read into %T", x)
		}
		return aerr{false}, true
	case "io.ReadFull":
		return f.readBytes(args[0], args[1]), true
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		little := strings.Contains(name, "little")
		n := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[callee.Name()]
		if n == 0 {
			return nil, false
		}
		p, at := byteArray(args[1])
		if len(at.f) < n {
			bViol("%d bytes are used of %d", n, len(at.f))
		}
		if strings.HasPrefix(callee.Name(), "Put") {
			v := swapped(vec(2), little)
			for i := 0; i < n; i++ {
				e := &bv{w: 8}
				copy(e.b[:8], v.b[8*(n-1-i):8*(n-i)])
				aptr{p.c, append(append([]int{}, p.path...), i)}.store(e)
			}
			return nil, true
		}
		v := &bv{w: 8 * n}
		for i := 0; i < n; i++ {
			e, ok := at.f[i].(*bv)
			if !ok {
				bGive("byte")
			}
			copy(v.b[8*(n-1-i):8*(n-i)], e.b[:8])
		}
		return swapped(v, little), true
	}
	return nil, false
}

func byteArray(a av) (aptr, astruct) {
	p, ok := a.(aptr)
	if !ok {
		bGive("bytes")
	}
	at, ok := p.load().(astruct)
	if !ok {
		bGive("bytes")
	}
	return p, at
}

// readBytes fills an array of bytes from the stream.
func (f *bi) readBytes(r, buf av) av {
	if _, ok := r.(astream); !ok {
		bGive("io.ReadFull")
	}
	p, at := byteArray(buf)
	for i := 0; i < len(at.f); i++ {
		aptr{p.c, append(append([]int{}, p.path...), i)}.store(f.get(8, 8))
	}
	return atuple{bconst(int64(len(at.f)), 64, true), aerr{false}}
}

// writeBytes writes an array of bytes to the stream.
func (f *bi) writeBytes(buf av) av {
	_, at := byteArray(buf)
	for i := 0; i < len(at.f); i++ {
		e, ok := at.f[i].(*bv)
		if !ok {
			bGive("byte")
		}
		f.put(e, 8, true, token.NoPos)
	}
	return atuple{bconst(int64(len(at.f)), 64, true), aerr{false}}
}

func byteOrder(a av) (little bool) {
	o, ok := a.(aopaque)
	switch {
	case ok && o.what == "global BigEndian":
		return false
	case ok && o.what == "global LittleEndian":
		return true
	}
	bGive("byte order")
	return
}

func swapped(v *bv, little bool) *bv {
	if !little {
		r := *v
		return &r
	}
	r := &bv{w: v.w, s: v.s}
	for i := 0; i < v.w; i += 8 {
		copy(r.b[i:i+8], v.b[v.w-8-i:v.w-i])
	}
	return r
}

// fltInput is the class of the numbers of a width with one exponent, or with
// any if e is negative.
func fltInput(w, e int) *bv {
	v := &bv{w: w}
	for i := 0; i < w; i++ {
		v.b[i] = bit(i + 2)
	}
	if e >= 0 {
		n, m := expMant(w)
		for i := 0; i < n; i++ {
			v.b[m+i] = bit(e >> uint(i) & 1)
		}
	}
	return v
}

// sameFloat: got is want, or both are NaN.
func sameFloat(got, want *bv) bool {
	if got.w != want.w {
		return false
	}
	same := true
	for i := 0; i < want.w; i++ {
		if got.b[i] != want.b[i] || got.b[i] == bTop {
			same = false
		}
	}
	if same {
		return true
	}
	if fltNaN(want) {
		e, m := expMant(got.w)
		if got.num(m, e) != 1<<uint(e)-1 {
			return false
		}
		if !got.any(0, m) {
			return false
		}
		// its sign and payload are kept where they are known
		for i := 0; i < want.w; i++ {
			if g, x := got.b[i], want.b[i]; g != bTop && x != bTop && g != x && decide(g) != decide(x) {
				return false
			}
		}
		return true
	}
	top := false
	for i := 0; i < want.w; i++ {
		g, x := got.b[i], want.b[i]
		if g == bTop {
			top = true
		} else if g != x && decide(g) != decide(x) {
			return false
		}
	}
	if top {
		bGive("bits outside the domain")
	}
	return true
}

func init() {
	register(&Property{ID: "C23",
		Explain: "Abstract interpretation of the floating point functions and of the operations of their array traits over go/ssa: numbers are vectors of their IEEE 754 bits, in classes of one exponent each, that are split further where something depends on a bit. The bits written are compared with the number rounded to nearest, ties to even, and the number read with the number the bits stand for.",
		Run: func(c *Ctx) error {
			c.Rule("writes-nearest", "a number is written as the bits of the nearest number of the width, infinities, NaNs, subnormals and the sign of zero kept", 6)
			c.Rule("reads-exactly", "bits are read as exactly the number they stand for", 6)
			w := c.World
			run := func(key string, n int, write, read func(f *bi, v av) av, wpos, rpos string) {
				c.floats(key, n, write, read, wpos, rpos)
			}
			for _, n := range []int{16, 32, 64} {
				wf, rf := w.rtFunc(fmt.Sprintf("WriteFloat%d", n)), w.rtFunc(fmt.Sprintf("ReadFloat%d", n))
				if wf == nil || rf == nil {
					c.undecided(fmt.Sprintf("Float%d", n), fmt.Errorf("functions not found"))
					c.undecided(fmt.Sprintf("Float%d", n), fmt.Errorf("functions not found"))
				} else {
					run(fmt.Sprintf("Float%d", n), n,
						func(f *bi, v av) av { return f.call(wf, []av{astream{true}, v}, nil) },
						func(f *bi, _ av) av { return f.call(rf, []av{astream{false}}, nil) }, w.relPos(wf.Pos()), w.relPos(rf.Pos()))
				}
				name := fmt.Sprintf("Float%dArrayTraits", n)
				for _, t := range w.traitTypes() {
					if t.Obj().Name() != name {
						continue
					}
					m := map[string]*ssa.Function{}
					for i := 0; i < t.NumMethods(); i++ {
						m[t.Method(i).Name()] = w.Prog.FuncValue(t.Method(i))
					}
					if m["Write"] == nil || m["Read"] == nil {
						c.undecided(name, fmt.Errorf("methods not found"))
						continue
					}
					recv := func(fn *ssa.Function) av {
						if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
							return aptr{c: &acell{astruct{map[int]av{}}}}
						}
						return astruct{map[int]av{}}
					}
					run(name, n,
						func(f *bi, v av) av { return f.call(m["Write"], []av{recv(m["Write"]), astream{true}, v}, nil) },
						func(f *bi, _ av) av {
							return f.call(m["Read"], []av{recv(m["Read"]), astream{false}, bconst(0, 64, true)}, nil)
						}, w.relPos(m["Write"].Pos()), w.relPos(m["Read"].Pos()))
				}
			}
			return nil
		}})
}

func (c *Ctx) floats(key string, n int, write, read func(f *bi, v av) av, wpos, rpos string) {
	from := n // the width of the number written
	if n == 16 {
		from = 32
	}
	each := func(width int, f func(v *bv)) (string, error) {
		classes := 0
		e, _ := expMant(width)
		// all exponents at once where nothing looks at them, and one by one
		// where something does
		why, err := explore(fltInput(width, -1), &classes, f)
		if err != nil {
			for x := 0; x < 1<<uint(e); x++ {
				if why, err = explore(fltInput(width, x), &classes, f); why != "" || err != nil {
					break
				}
			}
		}
		c.Count("classes", classes)
		return why, err
	}
	newbi := func(in []bit) *bi { return &bi{w: c.World, in: in, calls: fltCalls} }
	why, err := each(from, func(v *bv) {
		f := newbi(nil)
		_, e := errOf(write(f, aflt{b: v, wide: from}))
		if e {
			bViol("%s is rejected", v)
		}
		want := v
		if n == 16 {
			want = refloat(v, 16)
		}
		if len(f.out) != n {
			bViol("%d bits are written for %d", len(f.out), n)
		}
		got := &bv{w: n}
		for i := range f.out {
			got.b[n-1-i] = f.out[i]
		}
		if !sameFloat(got, want) {
			bViol("%s is written as %s instead of %s", v, got, want)
		}
	})
	if err != nil {
		c.undecided(key+" write", err)
	} else {
		c.Check(why == "", "writes-nearest", key, wpos, "%s", why)
	}
	why, err = each(n, func(v *bv) {
		f := newbi(v.msb(n))
		got, e := errOf(read(f, nil))
		if e {
			bViol("%s is rejected", v)
		}
		x, ok := got.(aflt)
		if !ok {
			bGive("result")
		}
		if f.inAt != n {
			bViol("%d bits are read of %d", f.inAt, n)
		}
		if x.of != nil && n == 16 && x.of.w == 16 && sameFloat(x.of, v) {
			return
		}
		want := v
		if n == 16 {
			want = refloat(v, 32)
		}
		if !sameFloat(x.bits(), want) {
			bViol("%s is read as %s instead of %s", v, x.bits(), want)
		}
	})
	if err != nil {
		c.undecided(key+" read", err)
	} else {
		c.Check(why == "", "reads-exactly", key, rpos, "%s", why)
	}
}
