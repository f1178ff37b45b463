package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rtFunc finds a function of the runtime package.
func (w *World) rtFunc(name string) *ssa.Function {
	for _, p := range w.Pkgs {
		if p.PkgPath == modPath+"/ztype" {
			if f, ok := p.Types.Scope().Lookup(name).(*types.Func); ok {
				return w.Prog.FuncValue(f)
			}
		}
	}
	return nil
}

func errOf(r av) (av, bool) {
	switch r := r.(type) {
	case aerr:
		return nil, r.err
	case atuple:
		e, ok := r[len(r)-1].(aerr)
		if !ok {
			bGive("result")
		}
		return r[0], e.err
	}
	bGive("result %T", r)
	return nil, false
}

// sameInt decides whether a is the value b, for every input of the class.
func sameInt(a av, b *bv) bool {
	v, ok := a.(*bv)
	if !ok {
		return false
	}
	if v.isConst() && b.isConst() {
		return v.convert(64, v.s).i64() == b.convert(64, b.s).i64()
	}
	if v.neg != b.neg {
		v, b = v.plain(), b.plain()
	}
	for i := 0; i < v.w && i < b.w; i++ {
		if v.b[i] != b.b[i] || v.b[i] == bTop {
			return false
		}
	}
	return v.w == b.w
}

type vtype struct {
	name   string
	n      int
	signed bool
}

var varTypes = []vtype{
	{"Varint16", 2, true}, {"Varint32", 4, true}, {"Varint64", 8, true}, {"Varint", 9, true},
	{"Varuint16", 2, false}, {"Varuint32", 4, false}, {"Varuint64", 8, false}, {"Varuint", 9, false}, {"Varsize", 5, false},
}

// payload is the number of magnitude bits of an encoding of j of n bytes.
func (t vtype) payload(j int) int {
	p := 7 * j
	if j == t.n {
		p++
	}
	if t.signed {
		p--
	}
	return p
}

// bytesFor is the least number of bytes holding magnitudes of k+1 bits, or 0.
func (t vtype) bytesFor(k int) int {
	if t.name == "Varsize" && k >= 31 {
		return 0
	}
	for j := 1; j <= t.n; j++ {
		if k < t.payload(j) {
			return j
		}
	}
	return 0
}

// format is the zserio encoding of a magnitude in j bytes.
func (t vtype) format(m [64]bit, neg bool, j int) []bit {
	var out []bit
	at := t.payload(j) - 1
	for i := 0; i < j; i++ {
		n := 8
		if i == 0 && t.signed {
			s := bit(0)
			if neg {
				s = 1
			}
			out = append(out, s)
			n--
		}
		if i < j-1 {
			out = append(out, 1)
			n--
		} else if j < t.n {
			out = append(out, 0)
			n--
		}
		for ; n > 0; n-- {
			out = append(out, m[at])
			at--
		}
	}
	return out
}

func sameBits(a, b []bit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] || a[i] == bTop {
			return false
		}
	}
	return true
}

// topBit is the highest bit of a magnitude that may be set.
func topBit(v *bv) int {
	k := v.w - 1
	for k >= 0 && v.b[k] == 0 {
		k--
	}
	return k
}

func checkVar(c *Ctx, t vtype) {
	w := c.World
	wf, rf := w.rtFunc("Write"+t.name), w.rtFunc("Read"+t.name)
	sf := w.rtFunc(map[bool]string{true: "SignedBitSize", false: "UnsignedBitSize"}[t.signed])
	if wf == nil || rf == nil || sf == nil {
		c.undecided(t.name, fmt.Errorf("functions not found"))
		return
	}
	width, signed, _ := intType(wf.Params[1].Type())
	classes := 0
	report := func(rule, key string, pos string, why string, err error) {
		if err != nil {
			c.undecided(t.name+" "+rule+" "+key, err)
			return
		}
		c.Check(why == "", rule, t.name+" "+key, pos, "%s", why)
	}
	vpos := w.relPos(wf.Pos())
	maxK := width
	if t.signed {
		maxK = width - 1
	}
	for k := -1; k < maxK; k++ {
		for _, neg := range []bool{false, true} {
			if neg && (!t.signed || k < 0) {
				continue
			}
			cls := magClass(k, width, signed)
			cls.neg = neg
			key := fmt.Sprintf("%s", cls)
			if len(key) > 12 {
				key = fmt.Sprintf("magnitudes of %d bits, negative=%v", k+1, neg)
			}
			why, err := explore(cls, &classes, func(v *bv) { varWrite(w, t, wf, rf, sf, v, neg) })
			report("writes-minimal-and-reads-back", key, vpos, why, err)
		}
	}
	if t.signed {
		cls := bconst(-1<<(uint(width)-1), width, true)
		why, err := explore(cls, &classes, func(v *bv) {
			f := &bi{w: w}
			_, e := errOf(f.call(wf, []av{astream{true}, v}, nil))
			j := t.bytesFor(width - 1)
			if t.name == "Varint" {
				if e {
					bViol("%s of the smallest int64 is rejected", wf.Name())
				}
				if !sameBits(f.out, bconst(0x80, 8, false).msb(8)) {
					bViol("the smallest int64 is written as %s, not as 10000000", bitsStr(f.out))
				}
				r, e := errOf((&bi{w: w, in: f.out}).call(rf, []av{astream{false}}, nil))
				if e || !sameInt(r, v) {
					bViol("the smallest int64 is not read back")
				}
			} else if j == 0 && (!e || len(f.out) > 0) {
				bViol("the smallest value, which %s cannot hold, is not rejected", t.name)
			}
		})
		report("writes-minimal-and-reads-back", "smallest", vpos, why, err)
	}
	// any encoding
	for j := 1; j <= t.n; j++ {
		for _, neg := range []bool{false, true} {
			if neg && !t.signed {
				continue
			}
			p := t.payload(j)
			cls := &bv{w: 64}
			for i := 0; i < p && i < 64; i++ {
				cls.b[i] = bit(i + 2)
			}
			why, err := explore(cls, &classes, func(v *bv) { varRead(t, w, rf, v, neg, j) })
			report("reads-any-encoding", fmt.Sprintf("%d bytes, negative=%v", j, neg), w.relPos(rf.Pos()), why, err)
		}
	}
	c.Count("classes", classes)
}

func (v *bv) msb(n int) []bit {
	var r []bit
	for i := n - 1; i >= 0; i-- {
		r = append(r, v.b[i])
	}
	return r
}

func varWrite(w *World, t vtype, wf, rf, sf *ssa.Function, v *bv, neg bool) {
	f := &bi{w: w}
	_, e := errOf(f.call(wf, []av{astream{true}, v}, nil))
	k := topBit(v)
	j := t.bytesFor(k)
	if j == 0 {
		if !e {
			bViol("%s accepts %s, which is out of range, and writes %s", wf.Name(), v, bitsStr(f.out))
		}
		if len(f.out) > 0 {
			bViol("%s rejects %s after writing %s", wf.Name(), v, bitsStr(f.out))
		}
		return
	}
	if e {
		bViol("%s rejects %s, which is in range", wf.Name(), v)
	}
	want := t.format(v.b, neg, j)
	if !sameBits(f.out, want) {
		bViol("%s of %s writes %s, the format is %s", wf.Name(), v, bitsStr(f.out), bitsStr(want))
	}
	r := &bi{w: w, in: f.out}
	got, e := errOf(r.call(rf, []av{astream{false}}, nil))
	if e {
		bViol("%s rejects the encoding of %s", rf.Name(), v)
	}
	if r.inAt != len(f.out) {
		bViol("%s reads %d of the %d bits written for %s", rf.Name(), r.inAt, len(f.out), v)
	}
	if !sameInt(got, v) {
		bViol("%s reads %v where %s was written", rf.Name(), got, v)
	}
	s := &bi{w: w}
	size, e := errOf(s.call(sf, []av{v.convert(64, t.signed), bconst(int64(t.n), 64, true)}, nil))
	if e || !sameInt(size, bconst(int64(len(f.out)), 64, true)) {
		bViol("%s of %s for %d bytes is %v, but %d bits are written", sf.Name(), v, t.n, size, len(f.out))
	}
}

func varRead(t vtype, w *World, rf *ssa.Function, v *bv, neg bool, j int) {
	in := t.format(v.b, neg, j)
	r := &bi{w: w, in: in}
	got, e := errOf(r.call(rf, []av{astream{false}}, nil))
	if e {
		if t.name == "Varsize" && topBit(v) >= 31 {
			return
		}
		// the shortest encoding of a value must be accepted; others may be
		if topBit(v) >= 0 && v.b[topBit(v)] == 1 && t.bytesFor(topBit(v)) == j {
			bViol("%s rejects %s", rf.Name(), bitsStr(in))
		}
		return
	}
	if r.inAt != len(in) {
		bViol("%s reads %d bits of the encoding %s", rf.Name(), r.inAt, bitsStr(in))
	}
	if t.name == "Varsize" && topBit(v) >= 31 && v.b[topBit(v)] == 1 {
		bViol("%s accepts a size out of range", rf.Name())
	}
	g := got.(*bv)
	want := *v
	want.neg = neg
	want.s = t.signed
	if neg && v.isConst() && topBit(v) < 0 {
		want.neg = false
		if t.name == "Varint" && j == 1 {
			want = *bconst(-1<<63, 64, true)
		}
	}
	if !sameInt(g.convert(64, g.s), &want) {
		bViol("%s reads %s as %s", rf.Name(), bitsStr(in), g)
	}
}

// --- fixed widths

// intClasses partitions the integers of a type.
func intClasses(w int, signed bool) []*bv {
	var out []*bv
	n := w
	if signed {
		n--
	}
	for k := -1; k < n; k++ {
		out = append(out, magClass(k, w, signed))
		if signed {
			out = append(out, negClass(k, w))
		}
	}
	return out
}

// fits: every value of the class, or none, is an n bit number.
func fits(v *bv, n int, signed bool) bool {
	if !signed {
		return topBit(v) < n
	}
	k := v.w - 1
	sign := v.b[k]
	for k >= 0 && v.b[k] == sign {
		k--
	}
	return k < n-1
}

func checkFixed(c *Ctx, key string, n int, w int, signed bool, write, read func(f *bi, v av) av, pos string, rejects bool) {
	classes := 0
	var why string
	var err error
	for _, cls := range intClasses(w, signed) {
		why, err = explore(cls, &classes, func(v *bv) {
			f := &bi{w: c.World}
			_, e := errOf(write(f, v))
			if !fits(v, n, signed) {
				if !rejects {
					return
				}
				if !e {
					bViol("%s, which does not fit %d bits, is accepted", v, n)
				}
				if len(f.out) > 0 {
					bViol("%s is rejected after writing", v)
				}
				return
			}
			if e {
				bViol("%s, which fits %d bits, is rejected", v, n)
			}
			if !sameBits(f.out, v.msb(n)) {
				bViol("%s is written as %s", v, bitsStr(f.out))
			}
			r := &bi{w: c.World, in: f.out}
			got, e := errOf(read(r, nil))
			if e || r.inAt != len(f.out) || !sameInt(got, v) {
				bViol("%s, written as %s, is read as %v", v, bitsStr(f.out), got)
			}
		})
		if why != "" || err != nil {
			break
		}
	}
	c.Count("classes", classes)
	if err != nil {
		c.undecided(key, err)
		return
	}
	c.Check(why == "", "fixed-width", key, pos, "%s", why)
}

func init() {
	register(&Property{ID: "C08",
		Explain: "Abstract interpretation of the variable-length integer functions over go/ssa: integers are vectors of constant and input bits with an optional minus sign, inputs partitioned by sign and magnitude (and split further where a comparison asks). In every class the bits written are compared with the zserio format table, read back through the reader's abstract semantics, and counted against the size function; every encoding of every length is also read.",
		Run: func(c *Ctx) error {
			c.Rule("writes-minimal-and-reads-back", "a value in range is written in the shortest form of the format, read back as itself and sized so; any other is rejected with nothing written", 300)
			c.Rule("reads-any-encoding", "every byte sequence of the format is read as the value it stands for", 40)
			for _, t := range varTypes {
				checkVar(c, t)
			}
			return nil
		}})
	register(&Property{ID: "C09",
		Explain: "Abstract interpretation of the fixed-width functions over go/ssa, with integers as vectors of constant and input bits, for every width and every class of magnitudes: bits written, acceptance and the value read back.",
		Run: func(c *Ctx) error {
			c.Rule("fixed-width", "a value that fits is written as its bits and read back as itself; one that does not fit is rejected with nothing written", 130)
			w := c.World
			for _, typ := range []string{"Uint8", "Uint16", "Uint32", "Uint64", "Int8", "Int16", "Int32", "Int64"} {
				wf, rf := w.rtFunc("Write"+typ), w.rtFunc("Read"+typ)
				if wf == nil || rf == nil {
					c.undecided(typ, fmt.Errorf("functions not found"))
					continue
				}
				width, signed, _ := intType(wf.Params[1].Type())
				checkFixed(c, typ, width, width, signed,
					func(f *bi, v av) av { return f.call(wf, []av{astream{true}, v}, nil) },
					func(f *bi, _ av) av { return f.call(rf, []av{astream{false}}, nil) }, w.relPos(wf.Pos()), true)
			}
			for _, signed := range []bool{false, true} {
				nm := "UnsignedBits"
				if signed {
					nm = "SignedBits"
				}
				wf, rf := w.rtFunc("Write"+nm), w.rtFunc("Read"+nm)
				if wf == nil || rf == nil {
					c.undecided(nm, fmt.Errorf("functions not found"))
					continue
				}
				for n := 1; n <= 64; n++ {
					bits := bconst(int64(n), 8, false)
					checkFixed(c, fmt.Sprintf("%s(%d)", nm, n), n, 64, signed,
						func(f *bi, v av) av { return f.call(wf, []av{astream{true}, v, bits}, nil) },
						func(f *bi, _ av) av { return f.call(rf, []av{astream{false}, bits}, nil) }, w.relPos(wf.Pos()), true)
				}
			}
			for _, n := range w.traitTypes() {
				st, ok := n.Underlying().(*types.Struct)
				if !ok || st.NumFields() != 1 || !strings.Contains(n.Obj().Name(), "BitField") {
					continue
				}
				m := map[string]*ssa.Function{}
				for i := 0; i < n.NumMethods(); i++ {
					m[n.Method(i).Name()] = w.Prog.FuncValue(n.Method(i))
				}
				signed := strings.HasPrefix(n.Obj().Name(), "Signed")
				for b := 1; b <= 64; b++ {
					recv := av(astruct{map[int]av{0: bconst(int64(b), 8, false)}})
					if _, isPtr := m["Write"].Signature.Recv().Type().(*types.Pointer); isPtr {
						recv = aptr{c: &acell{recv}}
					}
					key := fmt.Sprintf("%s{%d}", n.Obj().Name(), b)
					checkFixed(c, key, b, 64, signed,
						func(f *bi, v av) av { return f.call(m["Write"], []av{recv, astream{true}, v}, nil) },
						func(f *bi, _ av) av {
							return f.call(m["Read"], []av{recv, astream{false}, bconst(0, 64, true)}, nil)
						}, w.relPos(n.Obj().Pos()), true)
					var why string
					var err error
					classes := 0
					for _, cls := range intClasses(64, signed) {
						if !fits(cls, b, signed) {
							continue
						}
						why, err = explore(cls, &classes, func(v *bv) {
							f := &bi{w: w}
							r := f.call(m["FromUint64"], []av{recv, f.call(m["AsUint64"], []av{recv, v}, nil)}, nil)
							if !sameInt(r, v) {
								bViol("%s becomes %v when converted to 64 bits and back", v, r)
							}
						})
						if why != "" || err != nil {
							break
						}
					}
					if err != nil {
						c.undecided(key, err)
						continue
					}
					c.Check(why == "", "fixed-width", key+" conversion", w.relPos(n.Obj().Pos()), "%s", why)
				}
			}
			return nil
		}})
}
