package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"path/filepath"
	"strings"
)

// The meaning of schemas read by zs.go: names, constants and types.

type zschema struct {
	root string // Go import path of the generated packages' root
	pkgs map[string]*zpkg
	busy map[any]bool
}

// rtype is a type with everything resolved.
type rtype struct {
	name  string // builtin name, or "" for declarations
	bits  int64
	width *zexpr
	wsc   *zscope // where the width was written
	decl  *zdecl
	targs []*rtype
}

func (r *rtype) key() string {
	if r.decl == nil {
		s := r.name
		if r.bits > 0 {
			s += fmt.Sprint(":", r.bits)
		}
		if r.width != nil {
			s += "<>"
		}
		return s
	}
	s := r.decl.pkg.name + "." + r.decl.name
	if len(r.targs) > 0 {
		var a []string
		for _, t := range r.targs {
			a = append(a, t.key())
		}
		s += "<" + strings.Join(a, ",") + ">"
	}
	return s
}

var zbuiltin = map[string]bool{
	"int8": true, "int16": true, "int32": true, "int64": true, "uint8": true, "uint16": true, "uint32": true, "uint64": true,
	"varint": true, "varint16": true, "varint32": true, "varint64": true, "varuint": true, "varuint16": true, "varuint32": true, "varuint64": true, "varsize": true,
	"bit": true, "int": true, "bool": true, "string": true, "float16": true, "float32": true, "float64": true, "extern": true, "bytes": true,
}

// builtinWire maps builtin types to wire element kinds.
func builtinWire(n string) (kind string, w int64) {
	var d int64
	if k, _ := fmt.Sscanf(n, "uint%d", &d); k == 1 {
		return "U", d
	}
	if k, _ := fmt.Sscanf(n, "int%d", &d); k == 1 {
		return "S", d
	}
	switch n {
	case "bit":
		return "U", 0
	case "int":
		return "S", 0
	}
	return strings.ToUpper(n[:1]) + n[1:], 0
}

type zscope struct {
	z    *zschema
	pkg  *zpkg
	decl *zdecl            // compound around, or nil
	tenv map[string]*rtype // template parameters
	enum *zdecl            // enum whose items can be named alone (choice cases)
}

func (z *zschema) find(pk *zpkg, name string) *zdecl {
	if i := strings.LastIndex(name, "."); i >= 0 {
		if p := z.pkgs[name[:i]]; p != nil {
			return p.byName[name[i+1:]]
		}
		return nil
	}
	if d := pk.byName[name]; d != nil {
		return d
	}
	for _, im := range pk.imports {
		i := strings.LastIndex(im, ".")
		p := z.pkgs[im[:i]]
		if p == nil || im[i+1:] != "*" && im[i+1:] != name {
			continue
		}
		if d := p.byName[name]; d != nil {
			return d
		}
	}
	return nil
}

func (z *zschema) enter(k any) {
	if z.busy[k] {
		giveUp("the schema defines something by itself")
	}
	z.busy[k] = true
}

// resolve finds what a type reference stands for, through subtypes.
func (sc *zscope) resolve(t *ztyp) *rtype {
	if zbuiltin[t.name] {
		return &rtype{name: t.name, bits: t.bits, width: t.width, wsc: sc}
	}
	if r := sc.tenv[t.name]; r != nil {
		return r
	}
	d := sc.z.find(sc.pkg, t.name)
	if d == nil {
		giveUp("type %s is not found", t.name)
	}
	switch d.kind {
	case "subtype", "instantiate":
		sc.z.enter(t)
		defer delete(sc.z.busy, t)
		return (&zscope{z: sc.z, pkg: d.pkg}).resolve(d.typ)
	case "struct", "choice", "union", "enum", "bitmask":
		r := &rtype{decl: d}
		if len(t.targs) != len(d.tparams) {
			giveUp("%s has other template arguments", t.name)
		}
		for _, a := range t.targs {
			r.targs = append(r.targs, sc.resolve(a))
		}
		return r
	}
	giveUp("type %s is a %s", t.name, d.kind)
	return nil
}

func (r *rtype) scope(z *zschema) *zscope {
	sc := &zscope{z: z, pkg: r.decl.pkg, decl: r.decl, tenv: map[string]*rtype{}}
	for i, n := range r.decl.tparams {
		sc.tenv[n] = r.targs[i]
	}
	return sc
}

// cv is a constant.
type cv struct {
	k byte // i b s f
	i int64
	b bool
	s string
}

// items are the values of an enum or bitmask, in order.
func (z *zschema) items(d *zdecl) []int64 {
	z.enter(d)
	defer delete(z.busy, d)
	sc := &zscope{z: z, pkg: d.pkg}
	if d.kind == "enum" {
		sc.enum = d
		delete(z.busy, d)
		defer func() { z.busy[d] = true }()
	}
	return z.itemsTo(d, sc, len(d.items))
}

func (z *zschema) itemsTo(d *zdecl, sc *zscope, n int) []int64 {
	var out []int64
	for i := 0; i < n; i++ {
		it := d.items[i]
		var v int64
		switch {
		case it.val != nil:
			z.enter(it)
			c := sc.constant(it.val)
			delete(z.busy, it)
			if c.k != 'i' {
				giveUp("%s is no integer", it.name)
			}
			v = c.i
		case d.kind == "enum" && i > 0:
			v = out[i-1] + 1
		case d.kind == "bitmask" && i > 0:
			v = 1 << bits.Len64(uint64(out[i-1]))
		case d.kind == "bitmask":
			v = 1
		}
		out = append(out, v)
	}
	return out
}

func (z *zschema) item(d *zdecl, name string) (int64, bool) {
	for i, it := range d.items {
		if it.name == name {
			return z.itemsTo(d, &zscope{z: z, pkg: d.pkg, enum: d}, i+1)[i], true
		}
	}
	return 0, false
}

// constant evaluates a constant expression; it gives up on others.
func (sc *zscope) constant(e *zexpr) cv {
	bl := func(b bool) cv { return cv{k: 'b', b: b} }
	in := func(i int64) cv { return cv{k: 'i', i: i} }
	switch e.op {
	case "int":
		return in(e.i)
	case "bool":
		return bl(e.s == "true")
	case "str":
		return cv{k: 's', s: e.s}
	case "float":
		return cv{k: 'f', s: e.s}
	case "id":
		if sc.enum != nil {
			if v, ok := sc.z.item(sc.enum, e.s); ok {
				return in(v)
			}
		}
		d := sc.z.find(sc.pkg, e.s)
		if d == nil || d.kind != "const" {
			giveUp("%s is no constant", e.s)
		}
		sc.z.enter(d)
		defer delete(sc.z.busy, d)
		return (&zscope{z: sc.z, pkg: d.pkg}).constant(d.val)
	case ".":
		if n := dotted(e.a[0]); n != "" {
			if sc.decl == nil || !sc.member(strings.SplitN(n, ".", 2)[0]) {
				if d := sc.enumDecl(n); d != nil {
					if v, ok := sc.z.item(d, e.s); ok {
						return in(v)
					}
				}
				if d := sc.z.find(sc.pkg, n+"."+e.s); d != nil && d.kind == "const" {
					sc.z.enter(d)
					defer delete(sc.z.busy, d)
					return (&zscope{z: sc.z, pkg: d.pkg}).constant(d.val)
				}
			}
		}
		giveUp("not a constant")
	case "valueof", "u+":
		return sc.constant(e.a[0])
	case "numbits":
		c := sc.constant(e.a[0])
		return in(znumbits(c.i))
	case "u-", "~", "!":
		c := sc.constant(e.a[0])
		switch {
		case e.op == "u-" && c.k == 'i':
			return in(-c.i)
		case e.op == "~" && c.k == 'i':
			return in(^c.i)
		case e.op == "!" && c.k == 'b':
			return bl(!c.b)
		}
	case "?:":
		c := sc.constant(e.a[0])
		if c.k == 'b' {
			if c.b {
				return sc.constant(e.a[1])
			}
			return sc.constant(e.a[2])
		}
	case "isset":
		a, b := sc.constant(e.a[0]), sc.constant(e.a[1])
		return bl(a.i&b.i != 0)
	default:
		if len(e.a) == 2 {
			a, b := sc.constant(e.a[0]), sc.constant(e.a[1])
			if a.k == 'i' && b.k == 'i' {
				p, q := a.i, b.i
				switch e.op {
				case "+":
					return in(p + q)
				case "-":
					return in(p - q)
				case "*":
					return in(p * q)
				case "/":
					if q != 0 {
						return in(p / q)
					}
				case "%":
					if q != 0 {
						return in(p % q)
					}
				case "<<":
					return in(p << uint(q))
				case ">>":
					return in(p >> uint(q))
				case "&":
					return in(p & q)
				case "|":
					return in(p | q)
				case "^":
					return in(p ^ q)
				case "<":
					return bl(p < q)
				case "<=":
					return bl(p <= q)
				case ">":
					return bl(p > q)
				case ">=":
					return bl(p >= q)
				case "==":
					return bl(p == q)
				case "!=":
					return bl(p != q)
				}
			}
			if a.k == 'b' && b.k == 'b' {
				switch e.op {
				case "&&":
					return bl(a.b && b.b)
				case "||":
					return bl(a.b || b.b)
				case "==":
					return bl(a.b == b.b)
				case "!=":
					return bl(a.b != b.b)
				}
			}
			if a.k == 's' && b.k == 's' && e.op == "+" {
				return cv{k: 's', s: a.s + b.s}
			}
		}
	}
	giveUp("%s is not evaluated", e.op)
	return cv{}
}

// znumbits is the width needed for a number of different values.
func znumbits(n int64) int64 {
	if n <= 0 {
		return 0
	}
	if n == 1 {
		return 1
	}
	return int64(bits.Len64(uint64(n - 1)))
}

func dotted(e *zexpr) string {
	switch e.op {
	case "id":
		return e.s
	case ".":
		if n := dotted(e.a[0]); n != "" {
			return n + "." + e.s
		}
	}
	return ""
}

// enumDecl finds an enum or bitmask by name, through subtypes.
func (sc *zscope) enumDecl(n string) *zdecl {
	d := sc.z.find(sc.pkg, n)
	for i := 0; d != nil && d.kind == "subtype" && i < 20; i++ {
		d = sc.z.find(d.pkg, d.typ.name)
	}
	if r := sc.tenv[n]; r != nil {
		d = r.decl
	}
	if d != nil && (d.kind == "enum" || d.kind == "bitmask") {
		return d
	}
	return nil
}

func (sc *zscope) member(n string) bool {
	d := sc.decl
	for _, p := range d.params {
		if p.name == n {
			return true
		}
	}
	for _, f := range d.allFields() {
		if f.name == n {
			return true
		}
	}
	for _, f := range d.funcs {
		if f.name == n {
			return true
		}
	}
	return false
}

func (d *zdecl) allFields() []*zfield {
	out := append([]*zfield{}, d.fields...)
	for _, c := range d.cases {
		if c.f != nil {
			out = append(out, c.f)
		}
	}
	return out
}

// normName makes schema and Go names comparable.
func normName(s string) string {
	return strings.ToLower(strings.ReplaceAll(s, "_", ""))
}

// goPkg is the import path of the code generated for a schema package.
func (z *zschema) goPkg(p *zpkg) string {
	return z.root + "/" + strings.ReplaceAll(p.name, ".", "/")
}

// loadSchemas reads the schemas of the corpus, with the package each of them
// was generated for.
func (w *World) loadSchemas() (map[string]*zschema, map[string]*zpkg, []string) {
	ents, err := w.corpus()
	if err != nil {
		return nil, nil, []string{err.Error()}
	}
	zs := map[string]*zschema{} // by Go package path
	ps := map[string]*zpkg{}
	var notes []string
	cache := map[string]*zpkg{}
	for _, e := range ents {
		z := &zschema{root: e.root, pkgs: map[string]*zpkg{}, busy: map[any]bool{}}
		ok := true
		for _, f := range e.files {
			if !filepath.IsAbs(f) {
				f = filepath.Join(w.Repo, f)
			}
			p := cache[f]
			if p == nil {
				if p, err = parseZS(f); err != nil {
					notes = append(notes, err.Error())
					ok = false
					break
				}
				cache[f] = p
			}
			if z.pkgs[p.name] == nil {
				z.pkgs[p.name] = p
			}
		}
		if !ok || z.pkgs[e.pkg] == nil {
			continue
		}
		p := z.pkgs[e.pkg]
		g := z.root + "/" + strings.ReplaceAll(e.pkg, ".", "/")
		zs[g], ps[g] = z, p
	}
	return zs, ps, notes
}

// goField finds the Go field of a schema member.
func goField(n types.Type, name string) *types.Var {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if normName(st.Field(i).Name()) == normName(name) {
			return st.Field(i)
		}
	}
	return nil
}
