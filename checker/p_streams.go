package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bitioPath = "github.com/icza/bitio"

// sio models the bit streams of the library under zstream: a count of bits
// and the bits that go through.
type sio struct {
	f        *bi
	consumed int // bits read
	fail     bool
	raw      []string // calls that take a slice, and Close
	dst      map[*acell]av
	events   []sevent
}

type sevent struct {
	what string
	who  *acell
}

func newSio(w *World) *sio {
	s := &sio{dst: map[*acell]av{}}
	s.f = &bi{w: w}
	s.f.calls = s.call
	return s
}

// counter is a CountReader or CountWriter that has let count bits through.
func (s *sio) counter(count *bv) aptr {
	return aptr{c: &acell{astruct{map[int]av{0: aopaque{"stream"}, 1: count}}}}
}

func (s *sio) advance(recv av, n int64) {
	p, ok := recv.(aptr)
	if !ok {
		bGive("receiver of a stream operation")
	}
	q := aptr{p.c, append(append([]int{}, p.path...), 1)}
	q.store(s.f.bin2add(q.load(), n))
}

func (f *bi) bin2add(v av, n int64) av {
	b, ok := v.(*bv)
	if !ok {
		bGive("count")
	}
	if b.isConst() {
		return bconst(b.i64()+n, 64, true)
	}
	if b.cong != nil {
		return &bv{w: 64, s: true, cong: &linear{b.cong[0], b.cong[1] + n, b.cong[2]}}
	}
	return btop(64, true)
}

func (s *sio) num(v av) int {
	b, ok := v.(*bv)
	if !ok {
		bGive("width")
	}
	if !b.isConst() {
		for j := b.w - 1; j >= 0; j-- {
			decide(b.b[j])
		}
	}
	n := b.i64()
	if b.w == 8 {
		n &= 255
	}
	return int(n)
}

func (s *sio) call(f *bi, callee *ssa.Function, args []av) (av, bool) {
	pk := fnPkg(callee)
	if pk == nil {
		return nil, false
	}
	name := callee.Name()
	if pk.Path() == "bytes" {
		switch name {
		case "Bytes", "String":
			p, ok := args[0].(aptr)
			if !ok {
				bGive("buffer")
			}
			s.events = append(s.events, sevent{"bytes", p.c})
			return aopaque{"bytes"}, true
		}
		return aopaque{"bytes." + name}, true
	}
	if pk.Path() != bitioPath {
		return nil, false
	}
	switch name {
	case "NewCountWriter", "NewCountReader", "NewWriter", "NewReader":
		r := s.counter(bconst(0, 64, true))
		s.dst[r.c] = args[0]
		return r, true
	}
	recv, rest := args[0], args[1:]
	er := aerr{s.fail}
	done := func(n int) {
		if !s.fail {
			s.advance(recv, int64(n))
		}
	}
	switch name {
	case "WriteBits", "WriteBitsUnsafe":
		n := s.num(rest[1])
		if n == 0 { // nothing to write that could fail
			er = aerr{false}
		}
		v, ok := rest[0].(*bv)
		if !ok {
			bGive("value written")
		}
		f.put(v, n, name == "WriteBits", 0)
		done(n)
		return er, true
	case "WriteByte":
		v, ok := rest[0].(*bv)
		if !ok {
			bGive("value written")
		}
		f.put(v, 8, true, 0)
		done(8)
		return er, true
	case "WriteBool":
		b, ok := rest[0].(abool)
		if !ok {
			bGive("value written")
		}
		f.out = append(f.out, b.v)
		done(1)
		return er, true
	case "ReadBits", "ReadByte", "ReadBool":
		n := 1
		if name == "ReadBits" {
			n = s.num(rest[0])
			if n == 0 {
				er = aerr{false}
			}
		} else if name == "ReadByte" {
			n = 8
		}
		s.consumed += n
		w := 64
		if name == "ReadByte" {
			w = 8
		}
		v := &bv{w: w}
		if f.in != nil && !s.fail {
			v = f.get(n, w)
		} else if !s.fail {
			for i := 0; i < n && i < w; i++ {
				v.b[i] = bTop
			}
		}
		done(n)
		if name == "ReadBool" {
			return atuple{abool{v.b[0]}, er}, true
		}
		return atuple{v, er}, true
	case "Close", "Align", "Flush":
		p, _ := recv.(aptr)
		s.events = append(s.events, sevent{"close", p.c})
		if name == "Align" {
			return atuple{btop(8, false), er}, true
		}
		return er, true
	case "Read", "Write":
		o, ok := rest[0].(aopaque)
		if !ok {
			bGive("slice")
		}
		s.raw = append(s.raw, name+" "+o.what)
		return atuple{aopaque{"count"}, er}, true
	}
	bGive("bitio %s", name)
	return nil, false
}

// zmethod finds a method of the bit reader or writer.
func (w *World) zmethod(typ, name string) *ssa.Function {
	p := w.Pkgs[modPath+"/zstream"]
	if p == nil {
		return nil
	}
	o, _ := p.Types.Scope().Lookup(typ).(*types.TypeName)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	for i := 0; n != nil && i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return w.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// wrapper is a BitReader or BitWriter around counter p: the one field that
// holds a bitio stream.
func (w *World) wrapper(typ string, p aptr) av {
	z := w.Pkgs[modPath+"/zstream"]
	st, _ := z.Types.Scope().Lookup(typ).Type().Underlying().(*types.Struct)
	if st == nil {
		bGive("%s is not a struct", typ)
	}
	r := astruct{map[int]av{}}
	found := false
	b := &bi{w: w}
	for i := 0; i < st.NumFields(); i++ {
		if n := namedOf(st.Field(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == bitioPath {
			r.f[i] = p
			found = true
		} else {
			r.f[i] = b.zero(st.Field(i).Type())
		}
	}
	if !found {
		bGive("%s does not hold a bitio stream", typ)
	}
	return aptr{c: &acell{r}}
}

func bguard(f func()) (why string, err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case bgive:
			err = fmt.Errorf("%s", r.why)
		case split:
			err = fmt.Errorf("a branch depends on the value")
		case bviol:
			why = r.why
		default:
			err = fmt.Errorf("the analysis stopped: %v", r)
		}
	}()
	f()
	return
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func init() {
	register(&Property{ID: "C11", Explain: "Abstract interpretation of the alignment functions over stream positions known modulo a multiple of the boundary (every boundary, every residue, so every position), of the stream methods over bit vectors, and of Marshal with the encoder and the byte buffer as opaque collaborators.", Run: runC11})
}

func runC11(c *Ctx) error {
	w := c.World
	c.Rule("align", "aligning pads or skips exactly the distance to the next multiple, zero bits when writing, and reports the position", 100)
	c.Rule("align-size", "the size of alignment padding is the distance to the next multiple", 60)
	c.Rule("stream-bits", "a stream operation puts or takes the bits it is asked for, and reports its failure", 8)
	c.Rule("flush", "bytes are handed out after the last partial byte was flushed, and failures are reported", 1)
	max := int64(64)
	if c.Tier == "thorough" {
		max = 255
	}
	decide := func(rule, key string, fn *ssa.Function, f func()) {
		why, err := bguard(f)
		if err != nil {
			c.undecided(rule+" "+key, err)
			return
		}
		c.Check(why == "", rule, key, w.relPos(fn.Pos()), "%s", why)
	}
	positions := func(n int64, f func(pos *bv, r int64)) {
		m := n * 256 / gcd(n, 256)
		f(bconst(0, 64, true), 0)
		for r := int64(0); r < m; r++ {
			min := int64(0)
			if r == 0 {
				min = 1
			}
			f(&bv{w: 64, s: true, cong: &linear{m, r, min}}, r)
		}
	}
	for _, typ := range []string{"BitReader", "BitWriter"} {
		fn := w.zmethod(typ, "Align")
		if fn == nil {
			c.Bad("align", typ, "zstream", "no method Align")
			continue
		}
		for n := int64(1); n <= max; n++ {
			n := n
			decide("align", fmt.Sprintf("%s to %d", typ, n), fn, func() {
				positions(n, func(pos *bv, r int64) {
					want := int((n - r%n) % n)
					for _, fail := range []bool{false, true} {
						if fail && r >= n {
							continue
						}
						s := newSio(w)
						s.fail = fail
						p := s.counter(pos)
						res := s.f.call(fn, []av{w.wrapper(typ, p), bconst(n, 8, false)}, nil)
						c.Count("positions_classes", 1)
						got := len(s.f.out)
						if typ == "BitReader" {
							got = s.consumed
						}
						if got != want && !fail {
							bViol("from a position %d past a multiple of %d, %d bits go by instead of %d", r%n, n, got, want)
						}
						for _, b := range s.f.out {
							if b != 0 {
								bViol("padding is not zero")
							}
						}
						v, e := errOf(res)
						if e != (fail && want > 0) {
							bViol("a failure of the stream is reported as %v", e)
						}
						if e {
							continue
						}
						at := aptr{p.c, []int{1}}.load()
						x, ok := v.(*bv)
						y := at.(*bv)
						if !ok {
							bGive("position %T", v)
						}
						same := x.cong != nil && y.cong != nil && *x.cong == *y.cong || x.isConst() && y.isConst() && x.i64() == y.i64()
						if !same {
							bViol("the position reported is not that of the stream")
						}
						if y.cong != nil && y.cong[1]%n != 0 || y.cong == nil && y.i64()%n != 0 {
							bViol("the stream is not aligned afterwards")
						}
					}
				})
			})
		}
	}
	if fn := w.rtFunc("CountAlignBits"); fn != nil {
		for n := int64(1); n <= max; n++ {
			n := n
			decide("align-size", fmt.Sprintf("CountAlignBits to %d", n), fn, func() {
				positions(n, func(pos *bv, r int64) {
					f := &bi{w: w}
					c.Count("positions_classes", 1)
					v, ok := f.call(fn, []av{pos, bconst(n, 8, false)}, nil).(*bv)
					if !ok || !v.isConst() {
						bGive("size")
					}
					if v.i64() != (n-r%n)%n {
						bViol("at a position %d past a multiple of %d, %d bits are counted", r%n, n, v.i64())
					}
				})
			})
		}
	} else {
		c.Bad("align-size", "CountAlignBits", "ztype", "no function CountAlignBits")
	}
	c.streamBits(decide)
	c.flush(decide)
	return nil
}

func (c *Ctx) streamBits(decide func(rule, key string, fn *ssa.Function, f func())) {
	w := c.World
	each := func(typ, name string, f func(fn *ssa.Function, fail bool)) {
		fn := w.zmethod(typ, name)
		if fn == nil {
			c.Bad("stream-bits", typ+"."+name, "zstream", "no method %s.%s", typ, name)
			return
		}
		decide("stream-bits", typ+"."+name, fn, func() { f(fn, false); f(fn, true) })
	}
	input := func(n, width int, s bool) *bv {
		v := &bv{w: width, s: s}
		for i := 0; i < n; i++ {
			v.b[i] = bit(i + 2)
		}
		return v
	}
	posn := func() *bv { return &bv{w: 64, s: true, cong: &linear{1 << 20, 5, 0}} }
	// moved decides whether the count advanced by n bits
	moved := func(p aptr, n int, fail bool) {
		q, ok := aptr{p.c, []int{1}}.load().(*bv)
		if fail {
			n = 0
		}
		if !ok || q.cong == nil || q.cong[1] != int64(5+n) {
			bViol("the position does not advance by the %d bits that went through", n)
		}
	}
	bitsAre := func(out []bit, v *bv, n int) {
		if len(out) != n {
			bViol("%d bits are written instead of %d", len(out), n)
		}
		for i := range out {
			if out[i] != v.b[n-1-i] {
				bViol("the bits written are %s instead of %s", bitsStr(out), v)
			}
		}
	}
	fails := func(r av, fail bool) {
		if _, e := errOf(r); e != fail {
			bViol("a failure of the stream is reported as %v, success as %v", e, fail)
		}
	}
	write := func(name string, n int, masked bool, mk func() []av, v *bv) {
		each("BitWriter", name, func(fn *ssa.Function, fail bool) {
			s := newSio(w)
			s.fail = fail
			p := s.counter(posn())
			r := s.f.call(fn, append([]av{w.wrapper("BitWriter", p)}, mk()...), nil)
			fails(r, fail)
			bitsAre(s.f.out, v, n)
			moved(p, n, fail)
			c.Count("stream_operations", 1)
		})
	}
	write("WriteByte", 8, false, func() []av { return []av{input(8, 8, false)} }, input(8, 8, false))
	write("WriteBool", 1, false, func() []av { return []av{abool{2}} }, input(1, 1, false))
	for _, name := range []string{"WriteBits", "WriteBitsUnsafe"} {
		name := name
		each("BitWriter", name, func(fn *ssa.Function, fail bool) {
			for n := 0; n <= 64; n++ {
				s := newSio(w)
				s.fail = fail
				p := s.counter(posn())
				v := input(64, 64, false)
				if name == "WriteBitsUnsafe" {
					v = input(n, 64, false)
				}
				r := s.f.call(fn, []av{w.wrapper("BitWriter", p), v, bconst(int64(n), 8, false)}, nil)
				if n > 0 {
					fails(r, fail)
				}
				bitsAre(s.f.out, v, n)
				moved(p, n, fail)
				c.Count("stream_operations", 1)
			}
		})
	}
	read := func(name string, ns []int, mk func(n int) []av) {
		each("BitReader", name, func(fn *ssa.Function, fail bool) {
			for _, n := range ns {
				s := newSio(w)
				s.fail = fail
				s.f.in = []bit{}
				v := input(n, 64, false)
				for i := n - 1; i >= 0; i-- {
					s.f.in = append(s.f.in, v.b[i])
				}
				p := s.counter(posn())
				r := s.f.call(fn, append([]av{w.wrapper("BitReader", p)}, mk(n)...), nil)
				if n > 0 {
					fails(r, fail)
				}
				moved(p, n, fail)
				if s.consumed != n {
					bViol("%d bits are read instead of %d", s.consumed, n)
				}
				if !fail {
					got, _ := errOf(r)
					ok := false
					switch g := got.(type) {
					case *bv:
						ok = true
						for i := 0; i < g.w; i++ {
							ok = ok && g.b[i] == v.b[i]
						}
					case abool:
						ok = g.v == v.b[0]
					}
					if !ok {
						bViol("%v is returned where %s was read", got, v)
					}
				}
				c.Count("stream_operations", 1)
			}
		})
	}
	var all []int
	for n := 0; n <= 64; n++ {
		all = append(all, n)
	}
	read("ReadBits", all, func(n int) []av { return []av{bconst(int64(n), 8, false)} })
	read("ReadByte", []int{8}, func(int) []av { return nil })
	read("ReadBool", []int{1}, func(int) []av { return nil })
	for _, k := range [][2]string{{"BitReader", "Read"}, {"BitWriter", "Write"}} {
		k := k
		each(k[0], k[1], func(fn *ssa.Function, fail bool) {
			s := newSio(w)
			s.fail = fail
			r := s.f.call(fn, []av{w.wrapper(k[0], s.counter(posn())), aopaque{"the slice"}}, nil)
			fails(r, fail)
			if got, _ := errOf(r); got != (aopaque{"count"}) || strings.Join(s.raw, ";") != k[1]+" the slice" {
				bViol("bytes are not handed on as they are: %s", strings.Join(s.raw, ";"))
			}
		})
	}
	each("BitWriter", "Close", func(fn *ssa.Function, fail bool) {
		s := newSio(w)
		s.fail = fail
		p := s.counter(posn())
		r := s.f.call(fn, []av{w.wrapper("BitWriter", p)}, nil)
		fails(r, fail)
		if len(s.events) == 0 || s.events[0].who != p.c {
			bViol("the last partial byte is not flushed")
		}
	})
	each("BitWriter", "BitPosition", func(fn *ssa.Function, fail bool) {
		s := newSio(w)
		v, ok := s.f.call(fn, []av{w.wrapper("BitWriter", s.counter(posn()))}, nil).(*bv)
		if !ok || v.cong == nil || *v.cong != *posn().cong {
			bViol("the position reported is not the number of bits written")
		}
	})
}

// flush: functions of the root package that encode to bytes.
func (c *Ctx) flush(decide func(rule, key string, fn *ssa.Function, f func())) {
	w := c.World
	for _, fn := range w.FnsIn("") {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || !callsNewWriter(fn, map[*ssa.Function]bool{}) {
			continue
		}
		fn := fn
		res := fn.Signature.Results()
		if res.Len() != 2 || !isErr(res.At(1).Type()) {
			continue
		}
		decide("flush", short(fn), fn, func() {
			for _, failAt := range []string{"", "encode", "close"} {
				s := newSio(w)
				s.fail = failAt == "close"
				s.f.invokes = func(f *bi, recv av, name string, args []av) (av, bool) {
					if name != "MarshalZserio" {
						return nil, false
					}
					var who *acell
					if p, ok := args[0].(aptr); ok {
						if st, ok := p.load().(astruct); ok {
							for _, v := range st.f {
								if q, ok := v.(aptr); ok && q.c != nil {
									who = q.c
								}
							}
						}
					}
					s.events = append(s.events, sevent{"encode", who})
					return aerr{failAt == "encode"}, true
				}
				var args []av
				for range fn.Params {
					args = append(args, aopaque{"value"})
				}
				r := s.f.call(fn, args, nil)
				_, e := errOf(r)
				enc, cl, by := -1, -1, -1
				for i, ev := range s.events {
					switch ev.what {
					case "encode":
						enc = i
					case "close":
						if enc >= 0 && ev.who == s.events[enc].who {
							cl = i
						}
					case "bytes":
						by = i
					}
				}
				c.Count("flush_scenarios", 1)
				switch failAt {
				case "":
					if e {
						bViol("an error is reported where none occurred")
					}
					if enc < 0 {
						bViol("the value is not encoded")
					}
					if cl < enc || cl < 0 {
						bViol("the last partial byte is not flushed")
					}
					if by < cl {
						bViol("the bytes are taken before the last partial byte is flushed")
					}
					if d, ok := s.dst[s.events[enc].who].(aptr); ok && d.c != s.events[by].who {
						bViol("the bytes are not those written")
					}
				default:
					if !e {
						bViol("a failure to %s is not reported", failAt)
					}
				}
			}
		})
	}
}

func callsNewWriter(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil {
					if f.Name() == "NewWriter" && fnPkg(f) != nil && fnPkg(f).Path() == modPath+"/zstream" {
						return true
					}
					if fnPkg(f) != nil && fnPkg(f).Path() == modPath && callsNewWriter(f, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}
