package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// Engine B is an abstract interpreter over go/ssa. An integer is a vector of
// bits, each 0, 1, a named bit of the input, or unknown, with an optional
// minus sign in front; inputs are partitioned by sign and magnitude, and a
// class is split on one of its bits where a comparison is not decided by it.

// bit: 0 and 1 are constants, -1 is unknown, n>=2 is input bit n-2.
type bit int32

const bTop bit = -1

type av interface{}

type bv struct {
	w   int
	s   bool
	neg bool // the value is minus the bits
	b   [64]bit
	// cong, if not nil: the value is m*k + r, where k is an unknown number of
	// at least min (the same for all values derived from one): {m, r, min}
	cong *linear
}

type linear [3]int64

func (l *linear) nonNeg() bool { return l[0] >= 0 && l[0]*l[2]+l[1] >= 0 }
func (l *linear) nonPos() bool { return l[0] <= 0 && l[0]*l[2]+l[1] <= 0 }

type abool struct{ v bit } // 0, 1 or unknown, or an input bit
type aerr struct{ err bool }
type atuple []av
type aopaque struct{ what string }
type astream struct{ w bool }
type astruct struct{ f map[int]av }
type aptr struct {
	c    *acell
	path []int
}
type acell struct{ v av }
type afn struct {
	f    *ssa.Function
	free []av
}

type split struct{ b bit }
type bgive struct{ why string }
type bviol struct{ why string }

func bGive(f string, a ...any) { panic(bgive{fmt.Sprintf(f, a...)}) }
func bViol(f string, a ...any) { panic(bviol{fmt.Sprintf(f, a...)}) }

type bi struct {
	w     *World
	steps int
	depth int
	out   []bit // bits written, most significant first
	in    []bit
	inAt  int
	calls func(f *bi, callee *ssa.Function, args []av) (av, bool)
	// invokes: calls of methods of interface values other than streams
	invokes func(f *bi, recv av, name string, args []av) (av, bool)
	// blob: sequences of bytes are followed (p_blob.go)
	blob *blob
}

func (v *bv) isConst() bool {
	for i := 0; i < v.w; i++ {
		if v.b[i] != 0 && v.b[i] != 1 {
			return false
		}
	}
	return v.cong == nil
}

// i64 is the value of a constant vector.
func (v *bv) i64() int64 {
	var u uint64
	for i := 0; i < v.w; i++ {
		if v.b[i] == 1 {
			u |= 1 << uint(i)
		}
	}
	r := int64(u)
	if v.s && v.w < 64 && u>>(uint(v.w)-1) == 1 {
		r = int64(u | ^uint64(0)<<uint(v.w))
	}
	if v.neg {
		r = -r
	}
	return r
}

func bconst(c int64, w int, s bool) *bv {
	v := &bv{w: w, s: s}
	for i := 0; i < w; i++ {
		v.b[i] = bit(uint64(c) >> uint(i) & 1)
	}
	return v
}

func btop(w int, s bool) *bv {
	v := &bv{w: w, s: s}
	for i := 0; i < w; i++ {
		v.b[i] = bTop
	}
	return v
}

// plain gives the vector of v without a sign in front.
func (v *bv) plain() *bv {
	if !v.neg {
		return v
	}
	if v.isConst() {
		return bconst(v.i64(), v.w, v.s)
	}
	z := true
	for i := 0; i < v.w; i++ {
		if v.b[i] != 0 {
			z = false
		}
	}
	if z {
		return bconst(0, v.w, v.s)
	}
	// two's complement: low zeros stay, the lowest one stays, the rest flips;
	// flipped input bits have no name
	r := &bv{w: v.w, s: v.s}
	i := 0
	for ; i < v.w && v.b[i] == 0; i++ {
		r.b[i] = 0
	}
	if i < v.w && v.b[i] == 1 {
		r.b[i] = 1
		for i++; i < v.w; i++ {
			switch v.b[i] {
			case 0:
				r.b[i] = 1
			case 1:
				r.b[i] = 0
			default:
				r.b[i] = bTop
			}
		}
		return r
	}
	for ; i < v.w; i++ {
		r.b[i] = bTop
	}
	return r
}

func (v *bv) convert(w int, s bool) *bv {
	if v.cong != nil {
		if w >= v.w && (w == v.w || v.s || v.cong.nonNeg()) {
			r := *v
			r.w, r.s = w, s
			return &r
		}
		if w < 64 && v.cong[0]%(1<<uint(w)) == 0 {
			return bconst(v.cong[1]&(1<<uint(w)-1), w, s)
		}
		return btop(w, s)
	}
	if v.neg {
		// exact when nothing is cut off, and modulo 2^w otherwise
		r := *v
		if w > v.w {
			if !v.s {
				return v.plain().convert(w, s)
			}
			if v.b[v.w-1] != 0 { // the magnitude does not fit the type
				return v.plain().convert(w, s)
			}
			for i := v.w; i < w; i++ {
				r.b[i] = 0
			}
		}
		for i := w; i < 64; i++ {
			r.b[i] = 0
		}
		r.w, r.s = w, s
		return &r
	}
	r := &bv{w: w, s: s}
	for i := 0; i < w; i++ {
		if i < v.w {
			r.b[i] = v.b[i]
		} else if v.s {
			r.b[i] = v.b[v.w-1]
		}
	}
	return r
}

func badd(a, b *bv, carry bit) *bv {
	a, b = a.plain(), b.plain()
	r := &bv{w: a.w, s: a.s}
	for i := 0; i < a.w; i++ {
		x, y, c := a.b[i], b.b[i], carry
		r.b[i] = xor3(x, y, c)
		carry = maj(x, y, c)
	}
	return r
}

func xor2(x, y bit) bit {
	switch {
	case x == bTop || y == bTop:
		return bTop
	case x == 0:
		return y
	case y == 0:
		return x
	case x == y:
		return 0
	}
	return bTop
}
func xor3(x, y, z bit) bit {
	// constants first, so that 1+1+b is b
	a := []bit{x, y, z}
	ones, rest := 0, bit(0)
	n := 0
	for _, b := range a {
		switch b {
		case 0:
		case 1:
			ones++
		default:
			n++
			rest = xor2(rest, b)
		}
	}
	if n == 0 {
		return bit(ones & 1)
	}
	if rest == bTop {
		return bTop
	}
	if ones&1 == 0 {
		return rest
	}
	if rest == 0 {
		return 1
	}
	return bTop
}
func maj(x, y, z bit) bit {
	switch {
	case x == y:
		if x != bTop {
			return x
		}
	case x == z && x != bTop:
		return x
	case y == z && y != bTop:
		return y
	}
	c0, c1 := 0, 0
	for _, b := range []bit{x, y, z} {
		if b == 0 {
			c0++
		}
		if b == 1 {
			c1++
		}
	}
	if c0 >= 2 {
		return 0
	}
	if c1 >= 2 {
		return 1
	}
	if c0 == 1 && c1 == 1 {
		for _, b := range []bit{x, y, z} {
			if b != 0 && b != 1 {
				return b
			}
		}
	}
	return bTop
}

func band(x, y bit) bit {
	switch {
	case x == 0 || y == 0:
		return 0
	case x == 1:
		return y
	case y == 1:
		return x
	case x == y:
		return x
	}
	return bTop
}
func bor(x, y bit) bit {
	switch {
	case x == 1 || y == 1:
		return 1
	case x == 0:
		return y
	case y == 0:
		return x
	case x == y:
		return x
	}
	return bTop
}

// decide resolves a bit to a constant, splitting the class if it is an input.
func decide(b bit) bool {
	switch b {
	case 0:
		return false
	case 1:
		return true
	case bTop:
		bGive("a branch depends on a value outside the domain")
	}
	panic(split{b})
}

// cmp orders two integers of one type: -1, 0, 1.
func bcmp(a, b *bv) int {
	if a.isConst() && b.isConst() {
		x, y := a.i64(), b.i64()
		if !a.s {
			switch {
			case uint64(x) < uint64(y):
				return -1
			case uint64(x) > uint64(y):
				return 1
			}
			return 0
		}
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	if a.s && (a.neg || b.neg) {
		// signs first
		sign := func(v *bv) int {
			z := true
			for i := 0; i < v.w; i++ {
				if v.b[i] == 1 {
					z = false
				}
			}
			if z {
				for i := v.w - 1; i >= 0; i-- {
					if v.b[i] != 0 {
						if decide(v.b[i]) {
							z = false
						}
					}
				}
			}
			if z {
				return 0
			}
			if v.neg {
				if v.b[v.w-1] != 0 {
					bGive("magnitude out of range")
				}
				return -1
			}
			if decide(v.b[v.w-1]) {
				return -1
			}
			return 1
		}
		x, y := sign(a), sign(b)
		if x != y {
			if x < y {
				return -1
			}
			return 1
		}
		if x == 0 {
			return 0
		}
		if x < 0 {
			// both negative: compare magnitudes
			m := func(v *bv) *bv {
				if v.neg {
					r := *v
					r.neg = false
					return &r
				}
				if v.isConst() {
					return bconst(-v.i64(), v.w, v.s)
				}
				bGive("comparison of mixed representations")
				return nil
			}
			return -bcmpBits(m(a), m(b), false)
		}
		return bcmpBits(a, b, false)
	}
	a, b = a.plain(), b.plain()
	return bcmpBits(a, b, a.s)
}

func bcmpBits(a, b *bv, signed bool) int {
	for i := a.w - 1; i >= 0; i-- {
		x, y := a.b[i], b.b[i]
		if x == y && x != bTop {
			continue
		}
		p, q := decide(x), decide(y)
		if p == q {
			continue
		}
		r := 1
		if !p {
			r = -1
		}
		if signed && i == a.w-1 {
			r = -r
		}
		return r
	}
	return 0
}

func beq(a, b *bv) bool {
	a2, b2 := a, b
	if a.neg || b.neg {
		return bcmp(a, b) == 0
	}
	for i := 0; i < a.w; i++ {
		if x, y := a2.b[i], b2.b[i]; x >= 0 && x <= 1 && y >= 0 && y <= 1 && x != y {
			return false
		}
	}
	for i := a.w - 1; i >= 0; i-- {
		x, y := a2.b[i], b2.b[i]
		if x == y && x != bTop {
			continue
		}
		if decide(x) != decide(y) {
			return false
		}
	}
	return true
}

func abit(b bool) abool {
	if b {
		return abool{1}
	}
	return abool{0}
}

func (f *bi) bin(op token.Token, x, y av, pos token.Pos) av {
	if f.blob != nil {
		if r, ok := f.blob.bin(op, x, y); ok {
			return r
		}
	}
	if p, ok := x.(abool); ok {
		q, ok := y.(abool)
		if !ok {
			bGive("operator %s", op)
		}
		switch op {
		case token.EQL:
			if p == q && p.v != bTop {
				return abool{1}
			}
			return abit(decide(p.v) == decide(q.v))
		case token.NEQ:
			return abit(decide(p.v) != decide(q.v))
		}
		bGive("operator %s", op)
	}
	if p, ok := x.(aerr); ok {
		q, ok := y.(aerr)
		if !ok || p.err && q.err {
			bGive("comparison of errors")
		}
		switch op {
		case token.EQL:
			return abit(p.err == q.err)
		case token.NEQ:
			return abit(p.err != q.err)
		}
	}
	if p, ok := x.(aflt); ok {
		q, ok := y.(aflt)
		if !ok {
			bGive("operator %s", op)
		}
		return fltBin(op, p, q)
	}
	a, ok1 := x.(*bv)
	b, ok2 := y.(*bv)
	if !ok1 || !ok2 {
		bGive("operator %s on values outside the domain", op)
	}
	switch op {
	case token.SHL, token.SHR:
		if b.neg || !b.isConst() {
			for i := b.w - 1; i >= 0; i-- {
				decide(b.b[i])
			}
		}
		n := b.i64()
		if b.s && n < 0 {
			bViol("%s: shift by a negative amount", f.w.relPos(pos))
		}
		if !b.s && n < 0 || n > 64 {
			n = 64
		}
		if a.cong != nil {
			if n > 32 {
				return btop(a.w, a.s)
			}
			c := bconst(1<<uint(n), a.w, a.s)
			if op == token.SHL {
				return f.congOp(token.MUL, a, c)
			}
			return f.congOp(token.SHR, a, c)
		}
		if op == token.SHL && a.neg {
			r := *a
			m := a.shift(int(n), true)
			r.b = m.b
			return &r
		}
		return a.plain().shift(int(n), op == token.SHL)
	}
	if op == token.EQL || op == token.NEQ || op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ {
		if a.cong != nil || b.cong != nil {
			return f.congCmp(op, a, b)
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		return abit(beq(a, b) == (op == token.EQL))
	case token.LSS:
		return abit(bcmp(a, b) < 0)
	case token.GTR:
		return abit(bcmp(a, b) > 0)
	case token.LEQ:
		return abit(bcmp(a, b) <= 0)
	case token.GEQ:
		return abit(bcmp(a, b) >= 0)
	}
	if a.isConst() && b.isConst() {
		p, q := a.i64(), b.i64()
		switch op {
		case token.ADD:
			return bconst(p+q, a.w, a.s)
		case token.SUB:
			return bconst(p-q, a.w, a.s)
		case token.MUL:
			return bconst(p*q, a.w, a.s)
		case token.QUO, token.REM:
			if q == 0 {
				bViol("%s: division by zero", f.w.relPos(pos))
			}
			if !a.s {
				if op == token.QUO {
					return bconst(int64(uint64(p)/uint64(q)), a.w, a.s)
				}
				return bconst(int64(uint64(p)%uint64(q)), a.w, a.s)
			}
			if op == token.QUO {
				return bconst(p/q, a.w, a.s)
			}
			return bconst(p%q, a.w, a.s)
		}
	}
	if a.cong != nil || b.cong != nil {
		return f.congOp(op, a, b)
	}
	isZero := func(v *bv) bool { return v.isConst() && v.i64() == 0 }
	switch op {
	case token.ADD:
		if isZero(a) {
			return b
		}
		if isZero(b) {
			return a
		}
		return badd(a, b, 0)
	case token.SUB:
		if isZero(b) {
			return a
		}
		if isZero(a) {
			r := *b
			r.neg = !r.neg
			return &r
		}
		if b.isConst() {
			return badd(a, bconst(-b.i64(), b.w, b.s), 0)
		}
		// no borrow when every bit of b is a bit of a
		p, q := a.plain(), b.plain()
		r := &bv{w: a.w, s: a.s}
		for i := 0; i < a.w; i++ {
			switch {
			case p.b[i] != bTop && p.b[i] == q.b[i]:
				r.b[i] = 0
			case q.b[i] == 0:
				r.b[i] = p.b[i]
			default:
				for ; i < a.w; i++ {
					r.b[i] = bTop
				}
				return r
			}
		}
		return r
	case token.MUL:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if c := b.i64(); c > 0 && c&(c-1) == 0 {
				return a.plain().shift(big.NewInt(c).BitLen()-1, true)
			}
		}
		return btop(a.w, a.s)
	case token.QUO, token.REM:
		if b.isConst() && !a.neg && (!a.s || a.b[a.w-1] == 0) {
			if c := b.i64(); c > 0 && c&(c-1) == 0 {
				n := big.NewInt(c).BitLen() - 1
				if op == token.QUO {
					return a.shift(n, false)
				}
				r := *a
				for i := n; i < a.w; i++ {
					r.b[i] = 0
				}
				return &r
			}
		}
		return btop(a.w, a.s)
	}
	p, q := a.plain(), b.plain()
	r := &bv{w: a.w, s: a.s}
	for i := 0; i < a.w; i++ {
		switch op {
		case token.AND:
			r.b[i] = band(p.b[i], q.b[i])
		case token.OR:
			r.b[i] = bor(p.b[i], q.b[i])
		case token.XOR:
			r.b[i] = xor3(p.b[i], q.b[i], 0)
		case token.AND_NOT:
			switch {
			case q.b[i] == 0:
				r.b[i] = p.b[i]
			case q.b[i] == 1 || p.b[i] == 0 || p.b[i] == q.b[i] && p.b[i] != bTop:
				r.b[i] = 0
			default:
				r.b[i] = bTop
			}
		default:
			bGive("operator %s", op)
		}
	}
	return r
}

func (v *bv) shift(n int, left bool) *bv {
	r := &bv{w: v.w, s: v.s}
	for i := 0; i < v.w; i++ {
		j := i + n
		if left {
			j = i - n
		}
		switch {
		case j >= 0 && j < v.w:
			r.b[i] = v.b[j]
		case !left && v.s:
			r.b[i] = v.b[v.w-1]
		}
	}
	return r
}

// congOp: arithmetic on a linear form. Values that are or may be negative wrap
// when they are unsigned, which only matters where they are divided or compared.
func (f *bi) congOp(op token.Token, a, b *bv) av {
	mk := func(m, r, min int64) av {
		if m == 0 {
			return bconst(r, a.w, a.s)
		}
		return &bv{w: a.w, s: a.s, cong: &linear{m, r, min}}
	}
	floorDiv := func(x, n int64) int64 {
		q := x / n
		if x%n < 0 {
			q--
		}
		return q
	}
	if a.cong == nil {
		switch op {
		case token.ADD, token.MUL, token.AND, token.OR:
			a, b = b, a
		case token.SUB:
			if a.isConst() {
				return mk(-b.cong[0], a.i64()-b.cong[1], b.cong[2])
			}
			return btop(a.w, a.s)
		default:
			return btop(a.w, a.s)
		}
	}
	l := a.cong
	if b.cong != nil {
		min := l[2]
		if b.cong[2] > min {
			min = b.cong[2]
		}
		switch op {
		case token.ADD:
			return mk(l[0]+b.cong[0], l[1]+b.cong[1], min)
		case token.SUB:
			return mk(l[0]-b.cong[0], l[1]-b.cong[1], min)
		}
		return btop(a.w, a.s)
	}
	if !b.isConst() {
		return btop(a.w, a.s)
	}
	n := b.i64()
	if n > 1<<40 || n < -1<<40 {
		return btop(a.w, a.s)
	}
	small := n >= 0 && l[0]%(1<<uint(bits.Len64(uint64(n)))) == 0
	switch op {
	case token.ADD:
		return mk(l[0], l[1]+n, l[2])
	case token.SUB:
		return mk(l[0], l[1]-n, l[2])
	case token.MUL:
		return mk(l[0]*n, l[1]*n, l[2])
	case token.QUO:
		if n > 0 && l[0]%n == 0 && l.nonNeg() {
			return mk(l[0]/n, floorDiv(l[1], n), l[2])
		}
	case token.SHR: // n is the power of two
		if l[0]%n == 0 && (a.s || l.nonNeg()) {
			return mk(l[0]/n, floorDiv(l[1], n), l[2])
		}
	case token.REM:
		if n > 0 && l[0]%n == 0 && l.nonNeg() {
			return bconst(l[1]-floorDiv(l[1], n)*n, a.w, a.s)
		}
		if n > 0 && l[0]%n == 0 && a.s && l.nonPos() {
			return bconst(-(-l[1] - floorDiv(-l[1], n)*n), a.w, a.s)
		}
		if n > 0 && n&(n-1) == 0 && !a.s && l[0]%n == 0 {
			return bconst(l[1]&(n-1), a.w, a.s)
		}
	case token.AND:
		if small {
			return bconst(l[1]&n, a.w, a.s)
		}
		if low := ^n; n < 0 && low&(low+1) == 0 && l[0]%(low+1) == 0 {
			return mk(l[0], l[1]&n, l[2])
		}
	case token.AND_NOT:
		if small && n&(n+1) == 0 {
			return mk(l[0], l[1]&^n, l[2])
		}
	case token.OR:
		if small && n&(n+1) == 0 {
			return mk(l[0], l[1]|n, l[2])
		}
	}
	return btop(a.w, a.s)
}

// congCmp compares a linear form with a constant.
func (f *bi) congCmp(op token.Token, a, b *bv) av {
	if a.cong == nil {
		sw := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		if o, ok := sw[op]; ok {
			op = o
		}
		a, b = b, a
	}
	if b.cong != nil && a.s && b.s {
		d, ok := f.congOp(token.SUB, a, b).(*bv)
		if ok && d.isConst() {
			return f.bin(op, d, bconst(0, a.w, a.s), token.NoPos)
		}
	}
	if b.isConst() && (a.s || a.cong.nonNeg()) {
		k, l := b.i64(), a.cong
		end := l[0]*l[2] + l[1] // the least value, or the greatest
		above, below := l[0] > 0 && end > k, l[0] < 0 && end < k
		from, to := l[0] > 0 && end >= k, l[0] < 0 && end <= k
		switch op {
		case token.EQL, token.NEQ:
			if above || below || (k-l[1])%l[0] != 0 {
				return abit(op == token.NEQ)
			}
		case token.GTR, token.LEQ:
			if above || to {
				return abit(above == (op == token.GTR))
			}
		case token.GEQ, token.LSS:
			if from || below {
				return abit(from == (op == token.GEQ))
			}
		}
	}
	bGive("comparison of an unbounded value")
	return nil
}

// --- interpretation

func intType(t types.Type) (int, bool, bool) {
	k := kindOf(t)
	if k.cls == 'i' {
		return int(k.w), k.s, true
	}
	if _, ok := t.(*types.TypeParam); ok {
		return 64, true, true // stands for any integer type the value fits
	}
	return 0, false, false
}

func (f *bi) zero(t types.Type) av {
	if w, s, ok := intType(t); ok {
		return bconst(0, w, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return abool{0}
		}
		if n := fltWidth(u); n > 0 {
			return aflt{b: bconst(0, n, false), wide: n}
		}
	case *types.Interface:
		if isErr(t) {
			return aerr{false}
		}
	case *types.Struct:
		r := astruct{map[int]av{}}
		for i := 0; i < u.NumFields(); i++ {
			r.f[i] = f.zero(u.Field(i).Type())
		}
		return r
	case *types.Pointer:
		return aptr{}
	}
	return aopaque{"zero of " + t.String()}
}

type bframe struct {
	fn   *ssa.Function
	env  map[ssa.Value]av
	free []av

	defers []*ssa.Defer
}

func (f *bi) val(fr *bframe, v ssa.Value) av {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return f.zero(v.Type())
		}
		if w, s, ok := intType(v.Type()); ok {
			i, exact := constant.Int64Val(constant.ToInt(v.Value))
			if !exact {
				u, _ := constant.Uint64Val(constant.ToInt(v.Value))
				i = int64(u)
			}
			return bconst(i, w, s)
		}
		if n := fltWidth(v.Type()); n > 0 {
			return fltConst(v.Value, n)
		}
		if v.Value.Kind() == constant.Bool {
			return abit(constant.BoolVal(v.Value))
		}
		return aopaque{"constant"}
	case *ssa.Function:
		return afn{v, nil}
	case *ssa.Global:
		if isErr(deref(v.Type())) {
			return aptr{c: &acell{aerr{true}}}
		}
		if g := f.globalInit(v); g != nil {
			return aptr{c: &acell{g}}
		}
		return aopaque{"global " + v.Name()}
	case *ssa.FreeVar:
		for i, q := range fr.fn.FreeVars {
			if q == v && i < len(fr.free) {
				return fr.free[i]
			}
		}
	}
	bGive("value %s", v.Name())
	return nil
}

// globalInit is the content of a table that is only written by its
// initialiser.
func (f *bi) globalInit(g *ssa.Global) av {
	for _, fn := range f.w.AllFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && fn.Name() != "init" {
					r := s.Addr
					for {
						if q, ok := r.(*ssa.IndexAddr); ok {
							r = q.X
							continue
						}
						if q, ok := r.(*ssa.FieldAddr); ok {
							r = q.X
							continue
						}
						break
					}
					if r == ssa.Value(g) {
						return nil
					}
				}
			}
		}
	}
	// stores of constants in the package initialiser
	ini := g.Pkg.Func("init")
	if ini == nil {
		return nil
	}
	cell := &acell{f.zero(deref(g.Type()))}
	if a, ok := deref(g.Type()).Underlying().(*types.Array); ok {
		st := astruct{map[int]av{}}
		for i := 0; i < int(a.Len()); i++ {
			st.f[i] = f.zero(a.Elem())
		}
		cell.v = st
	}
	fr := &bframe{fn: ini, env: map[ssa.Value]av{}}
	done := false
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			switch ad := s.Addr.(type) {
			case *ssa.Global:
				if ad == g {
					c, ok := s.Val.(*ssa.Const)
					if !ok {
						return nil
					}
					cell.v = f.val(fr, c)
					done = true
				}
			case *ssa.IndexAddr:
				if ad.X == ssa.Value(g) {
					c, ok1 := s.Val.(*ssa.Const)
					ix, ok2 := ad.Index.(*ssa.Const)
					if !ok1 || !ok2 {
						return nil
					}
					cell.v.(astruct).f[int(ix.Int64())] = f.val(fr, c)
					done = true
				}
			}
		}
	}
	if !done {
		return nil
	}
	return cell.v
}

func (f *bi) call(fn *ssa.Function, args, free []av) av {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if len(fn.Blocks) == 0 {
		bGive("no body for %s", fn.String())
	}
	f.depth++
	defer func() { f.depth-- }()
	if f.depth > 30 {
		bGive("call depth")
	}
	fr := &bframe{fn: fn, env: map[ssa.Value]av{}, free: free}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	r, _, _ := f.run(fr, nil, fn.Blocks[0], nil)
	return r
}

// phis gives the phis of a block their values.
func (f *bi) phis(fr *bframe, prev, b *ssa.BasicBlock) {
	var ph []av
	n := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				ph = append(ph, f.val(fr, p.Edges[i]))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[b.Instrs[i].(*ssa.Phi)] = ph[i]
	}
}

// body interprets a block after its phis.
func (f *bi) body(fr *bframe, b *ssa.BasicBlock) (next *ssa.BasicBlock, ret av) {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		f.steps++
		if f.steps > 200000 {
			bGive("too many steps")
		}
		switch in := in.(type) {
		case *ssa.If:
			c, ok := f.val(fr, in.Cond).(abool)
			if !ok {
				bGive("condition")
			}
			if decide(c.v) {
				next = b.Succs[0]
			} else {
				next = b.Succs[1]
			}
		case *ssa.Jump:
			next = b.Succs[0]
		case *ssa.Return:
			var r atuple
			for _, v := range in.Results {
				r = append(r, f.val(fr, v))
			}
			if len(r) == 1 {
				return nil, r[0]
			}
			return nil, r
		case *ssa.Panic:
			bViol("%s: panics", f.w.relPos(in.Pos()))
		default:
			f.instr(fr, in)
		}
	}
	if next == nil {
		bGive("control flow")
	}
	return next, nil
}

// run interprets blocks until a return, or until stop says so before a block
// is entered.
func (f *bi) run(fr *bframe, prev, b *ssa.BasicBlock, stop func(b *ssa.BasicBlock) bool) (ret av, at, from *ssa.BasicBlock) {
	for first := true; ; first = false {
		if stop != nil && !first && stop(b) {
			return nil, b, prev
		}
		if !(stop != nil && first) {
			f.phis(fr, prev, b)
			if f.blob != nil {
				if body := f.blob.loop(b); body != nil && !body[prev] {
					prev, b, ret = f.blob.over(f, fr, b, body)
					if b == nil {
						return ret, nil, nil
					}
					continue
				}
			}
		}
		next, r := f.body(fr, b)
		if next == nil {
			return r, nil, nil
		}
		prev, b = b, next
	}
}

func (p aptr) load() av {
	if p.c == nil {
		bViol("nil dereference")
	}
	v := p.c.v
	for _, i := range p.path {
		s, ok := v.(astruct)
		if !ok {
			bGive("field of %T", v)
		}
		v = s.f[i]
	}
	return v
}

func (p aptr) store(v av) {
	if p.c == nil {
		bViol("nil dereference")
	}
	var set func(o av, path []int) av
	set = func(o av, path []int) av {
		if len(path) == 0 {
			return v
		}
		s, ok := o.(astruct)
		if !ok {
			bGive("field of %T", o)
		}
		n := astruct{map[int]av{}}
		for k, e := range s.f {
			n.f[k] = e
		}
		n.f[path[0]] = set(s.f[path[0]], path[1:])
		return n
	}
	p.c.v = set(p.c.v, p.path)
}

func (f *bi) instr(fr *bframe, in ssa.Instruction) {
	if f.blob != nil && f.blob.instr(f, fr, in) {
		return
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		fr.env[in] = f.bin(in.Op, f.val(fr, in.X), f.val(fr, in.Y), in.Pos())
	case *ssa.UnOp:
		x := f.val(fr, in.X)
		switch in.Op {
		case token.NOT:
			b := x.(abool)
			switch b.v {
			case 0, 1:
				fr.env[in] = abool{1 - b.v}
			default:
				fr.env[in] = abit(!decide(b.v))
			}
		case token.SUB:
			if a, ok := x.(aflt); ok {
				r := *a.bits()
				switch s := r.b[r.w-1]; {
				case decide(s):
					r.b[r.w-1] = 0
				default:
					r.b[r.w-1] = 1
				}
				fr.env[in] = aflt{b: &r, wide: r.w}
				return
			}
			v, ok := x.(*bv)
			if !ok {
				bGive("negation")
			}
			if v.cong != nil {
				fr.env[in] = f.congOp(token.SUB, bconst(0, v.w, v.s), v)
				return
			}
			r := *v
			r.neg = !r.neg
			if v.isConst() {
				fr.env[in] = bconst(-v.i64(), v.w, v.s)
			} else {
				fr.env[in] = &r
			}
		case token.XOR:
			v, ok := x.(*bv)
			if !ok || v.cong != nil {
				bGive("complement")
			}
			v = v.plain()
			r := &bv{w: v.w, s: v.s}
			for i := 0; i < v.w; i++ {
				switch v.b[i] {
				case 0, 1:
					r.b[i] = 1 - v.b[i]
				default:
					r.b[i] = bTop
				}
			}
			fr.env[in] = r
		case token.MUL:
			if o, ok := x.(aopaque); ok {
				fr.env[in] = o // the content of a variable of another package
				return
			}
			p, ok := x.(aptr)
			if !ok {
				bGive("load of %T", x)
			}
			fr.env[in] = p.load()
		default:
			bGive("operator %s", in.Op)
		}
	case *ssa.Convert, *ssa.MultiConvert:
		var xv ssa.Value
		if c, ok := in.(*ssa.Convert); ok {
			xv = c.X
		} else {
			xv = in.(*ssa.MultiConvert).X
		}
		v := in.(ssa.Value)
		x := f.val(fr, xv)
		if a, ok := x.(aflt); ok {
			if n := fltWidth(v.Type()); n > 0 {
				fr.env[v] = a.convert(n)
				return
			}
		}
		w, s, ok := intType(v.Type())
		b, ok2 := x.(*bv)
		if !ok || !ok2 {
			bGive("conversion to %s", v.Type())
		}
		fr.env[v] = b.convert(w, s)
	case *ssa.ChangeType:
		fr.env[in] = f.val(fr, in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = f.val(fr, in.X)
	case *ssa.MakeInterface:
		if isErr(in.Type()) {
			fr.env[in] = aerr{true}
		} else {
			fr.env[in] = f.val(fr, in.X)
		}
	case *ssa.Extract:
		t, ok := f.val(fr, in.Tuple).(atuple)
		if !ok {
			bGive("tuple")
		}
		fr.env[in] = t[in.Index]
	case *ssa.Alloc:
		z := f.zero(deref(in.Type()))
		if a, ok := deref(in.Type()).Underlying().(*types.Array); ok && a.Len() <= 1024 {
			st := astruct{map[int]av{}}
			for i := 0; i < int(a.Len()); i++ {
				st.f[i] = f.zero(a.Elem())
			}
			z = st
		}
		fr.env[in] = aptr{c: &acell{z}}
	case *ssa.Store:
		p, ok := f.val(fr, in.Addr).(aptr)
		if !ok {
			bGive("store")
		}
		p.store(f.val(fr, in.Val))
	case *ssa.FieldAddr:
		p, ok := f.val(fr, in.X).(aptr)
		if !ok {
			bGive("field of %T", f.val(fr, in.X))
		}
		fr.env[in] = aptr{p.c, append(append([]int{}, p.path...), in.Field)}
	case *ssa.Field:
		s, ok := f.val(fr, in.X).(astruct)
		if !ok {
			bGive("field")
		}
		fr.env[in] = s.f[in.Field]
	case *ssa.IndexAddr, *ssa.Index:
		var X, I ssa.Value
		if q, ok := in.(*ssa.IndexAddr); ok {
			X, I = q.X, q.Index
		} else {
			X, I = in.(*ssa.Index).X, in.(*ssa.Index).Index
		}
		ix, ok := f.val(fr, I).(*bv)
		if !ok || !ix.isConst() {
			bGive("index")
		}
		switch p := f.val(fr, X).(type) {
		case aptr:
			at, ok := p.load().(astruct)
			if q, isP := p.load().(aptr); isP { // a slice of an array
				at, ok = q.load().(astruct)
				p = q
			}
			if !ok {
				bGive("index of %T", p.load())
			}
			if _, ok := at.f[int(ix.i64())]; !ok {
				bViol("%s: index %d out of range", f.w.relPos(in.Pos()), ix.i64())
			}
			fr.env[in.(ssa.Value)] = aptr{p.c, append(append([]int{}, p.path...), int(ix.i64()))}
		case astruct:
			if _, ok := p.f[int(ix.i64())]; !ok {
				bViol("%s: index %d out of range", f.w.relPos(in.Pos()), ix.i64())
			}
			fr.env[in.(ssa.Value)] = p.f[int(ix.i64())]
		default:
			bGive("index of %T", p)
		}
	case *ssa.Slice:
		p, ok := f.val(fr, in.X).(aptr)
		if ok && in.High != nil {
			h, ok2 := f.val(fr, in.High).(*bv)
			at, ok3 := p.load().(astruct)
			ok = ok2 && ok3 && h.isConst() && int(h.i64()) == len(at.f)
		}
		if !ok || in.Low != nil {
			bGive("slice")
		}
		fr.env[in] = p
	case *ssa.MakeClosure:
		var free []av
		for _, b := range in.Bindings {
			free = append(free, f.val(fr, b))
		}
		fr.env[in] = afn{in.Fn.(*ssa.Function), free}
	case *ssa.Call:
		fr.env[in] = f.doCall(fr, in.Common(), in.Pos())
	case *ssa.Defer:
		fr.defers = append(fr.defers, in)
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			f.doCall(fr, &d.Call, d.Pos())
		}
	case *ssa.DebugRef:
	default:
		bGive("instruction %T", in)
	}
}

// put appends the low n bits of v to the bits written.
func (f *bi) put(v *bv, n int, mask bool, pos token.Pos) {
	v = v.plain()
	for i := n; i < v.w && !mask; i++ {
		if v.b[i] != 0 {
			bViol("%s: WriteBitsUnsafe of a value with bits above the %d written", f.w.relPos(pos), n)
		}
	}
	for i := n - 1; i >= 0; i-- {
		if i >= v.w {
			f.out = append(f.out, 0)
		} else {
			f.out = append(f.out, v.b[i])
		}
	}
}

func (f *bi) get(n int, w int) *bv {
	r := &bv{w: w}
	if f.inAt+n > len(f.in) {
		bViol("more bits are read than were written")
	}
	for i := n - 1; i >= 0; i-- {
		if i < w {
			r.b[i] = f.in[f.inAt]
		}
		f.inAt++
	}
	return r
}

// doCall interprets a call; a deferred one is interpreted when the function
// returns, its arguments being values that do not change.
func (f *bi) doCall(fr *bframe, cc *ssa.CallCommon, pos token.Pos) av {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if f.blob != nil {
			var args []av
			for _, a := range cc.Args {
				args = append(args, f.val(fr, a))
			}
			if r, ok := f.blob.builtin(f, b.Name(), args); ok {
				return r
			}
		}
		switch b.Name() {
		case "min", "max":
			r := f.val(fr, cc.Args[0]).(*bv)
			for _, a := range cc.Args[1:] {
				v := f.val(fr, a).(*bv)
				if c := bcmp(v, r); c < 0 && b.Name() == "min" || c > 0 && b.Name() == "max" {
					r = v
				}
			}
			return r
		case "len":
			if p, ok := f.val(fr, cc.Args[0]).(aptr); ok {
				if s, ok := p.load().(astruct); ok {
					return bconst(int64(len(s.f)), 64, true)
				}
			}
		}
		bGive("builtin %s", b.Name())
	}
	var args []av
	if cc.IsInvoke() {
		recv := f.val(fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, f.val(fr, a))
		}
		if _, ok := recv.(astream); ok {
			return f.stream(cc.Method.Name(), args, pos)
		}
		if f.invokes != nil {
			if r, ok := f.invokes(f, recv, cc.Method.Name(), args); ok {
				return r
			}
		}
		bGive("call of %s", cc.Method.Name())
	}
	for _, a := range cc.Args {
		args = append(args, f.val(fr, a))
	}
	callee := cc.StaticCallee()
	var free []av
	if callee == nil {
		fn, ok := f.val(fr, cc.Value).(afn)
		if !ok {
			bGive("dynamic call")
		}
		callee, free = fn.f, fn.free
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			free = append(free, f.val(fr, b))
		}
	}
	full := callee.String()
	switch full {
	case "fmt.Errorf", "errors.New", "errors.Join":
		return aerr{true}
	case "math/bits.Len64", "math/bits.Len", "math/bits.Len32", "math/bits.Len16", "math/bits.Len8",
		"math/bits.LeadingZeros64", "math/bits.LeadingZeros32", "math/bits.LeadingZeros16", "math/bits.LeadingZeros8":
		v := args[0].(*bv).plain()
		n := 0
		for i := v.w - 1; i >= 0; i-- {
			if decide(v.b[i]) {
				n = i + 1
				break
			}
		}
		if callee.Name()[:3] != "Len" {
			n = v.w - n
		}
		return bconst(int64(n), 64, true)
	}
	if f.calls != nil {
		if r, ok := f.calls(f, callee, args); ok {
			return r
		}
	}
	pk := fnPkg(callee)
	if pk == nil || len(pk.Path()) < len(modPath) || pk.Path()[:len(modPath)] != modPath {
		bGive("call of %s", full)
	}
	return f.call(callee, args, free)
}

func (f *bi) stream(name string, args []av, pos token.Pos) av {
	if f.blob != nil {
		return f.blob.stream(f, name, args)
	}
	num := func(i int) int {
		v, ok := args[i].(*bv)
		if !ok {
			bGive("width")
		}
		if !v.isConst() {
			for j := v.w - 1; j >= 0; j-- {
				decide(v.b[j])
			}
		}
		return int(v.i64())
	}
	switch name {
	case "Write":
		return f.writeBytes(args[0])
	case "Read":
		return f.readBytes(astream{}, args[0])
	case "WriteByte":
		f.put(args[0].(*bv), 8, true, pos)
		return aerr{false}
	case "WriteBits", "WriteBitsUnsafe":
		n := num(1)
		if n > 64 {
			// rejected or padded by the stream; not a value that can be read
			return aerr{true}
		}
		f.put(args[0].(*bv), n, name == "WriteBits", pos)
		return aerr{false}
	case "WriteBool":
		b := args[0].(abool)
		f.out = append(f.out, b.v)
		return aerr{false}
	case "ReadByte":
		return atuple{f.get(8, 8), aerr{false}}
	case "ReadBits":
		return atuple{f.get(num(0), 64), aerr{false}}
	case "ReadBool":
		v := f.get(1, 1)
		return atuple{abool{v.b[0]}, aerr{false}}
	}
	bGive("stream operation %s", name)
	return nil
}

// --- classes of inputs

// subst replaces input bit s by the constant c in a class.
func substBits(b [64]bit, s bit, c bit) [64]bit {
	for i := range b {
		if b[i] == s {
			b[i] = c
		}
	}
	return b
}

// explore runs f on a class, and on its halves where f asks for a split.
// classes counts the runs.
func explore(v *bv, classes *int, f func(v *bv)) (why string, err error) {
	*classes++
	if *classes > 60000 {
		return "", fmt.Errorf("too many classes")
	}
	var sp *split
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case split:
				sp = &r
			case bgive:
				err = fmt.Errorf("%s", r.why)
			case bviol:
				why = r.why
			default:
				err = fmt.Errorf("the analysis stopped: %v", r)
			}
		}()
		f(v)
	}()
	if sp == nil {
		return
	}
	for _, c := range []bit{0, 1} {
		h := *v
		h.b = substBits(v.b, sp.b, c)
		if h.b == v.b {
			return "", fmt.Errorf("a bit outside the class decides a branch")
		}
		if why, err = explore(&h, classes, f); why != "" || err != nil {
			return
		}
	}
	return
}

func bitStr(b bit) string {
	switch {
	case b == 0:
		return "0"
	case b == 1:
		return "1"
	case b == bTop:
		return "?"
	}
	return fmt.Sprintf("v%d", b-2)
}

func bitsStr(b []bit) string {
	s := ""
	for i, x := range b {
		if i > 0 && i%8 == 0 {
			s += " "
		}
		if x >= 2 {
			s += "x"
		} else {
			s += bitStr(x)
		}
	}
	return s
}

func (v *bv) String() string {
	s := ""
	if v.neg {
		s = "-"
	}
	top := v.w - 1
	for top > 0 && v.b[top] == 0 {
		top--
	}
	var l []bit
	for i := top; i >= 0; i-- {
		l = append(l, v.b[i])
	}
	for _, x := range l {
		if x >= 2 {
			s += "x"
		} else {
			s += bitStr(x)
		}
	}
	return s
}

// magClass is the class of magnitudes whose highest bit is k (-1: zero).
func magClass(k, w int, s bool) *bv {
	v := &bv{w: w, s: s}
	for i := 0; i < k; i++ {
		v.b[i] = bit(i + 2)
	}
	if k >= 0 {
		v.b[k] = 1
	}
	return v
}

// negClass: negative numbers in two's complement whose highest clear bit is k.
func negClass(k, w int) *bv {
	v := &bv{w: w, s: true}
	for i := 0; i < w; i++ {
		switch {
		case i < k:
			v.b[i] = bit(i + 2)
		case i == k:
			v.b[i] = 0
		default:
			v.b[i] = 1
		}
	}
	return v
}
