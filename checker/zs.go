package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// An independent reader of zserio schemas, the oracle for what generated code
// must do: it shares no code with the generator under analysis.

type zexpr struct {
	op   string // int, bool, str, float, id, index, (), [], ., isset, lengthof, valueof, numbits, u+ u- ! ~, binary operators, ?:
	s    string
	i    int64
	a    []*zexpr
	line int
}

type ztyp struct {
	name  string // uint8, bit, int, ..., or a qualified user type
	bits  int64  // fixed bit fields
	width *zexpr // dynamic bit fields
	targs []*ztyp
	args  []*zexpr
	line  int
}

type zfield struct {
	name               string
	typ                *ztyp
	align              *zexpr
	optional, packed   bool
	array              bool
	length             *zexpr
	init, cond, constr *zexpr
	line               int
}

type zcase struct {
	conds []*zexpr // none: default
	f     *zfield
}

type zitem struct {
	name string
	val  *zexpr
}

type zfunc struct {
	name string
	ret  *ztyp
	body *zexpr
}

type zdecl struct {
	kind     string // struct choice union enum bitmask const subtype instantiate other
	name     string
	pkg      *zpkg
	tparams  []string
	params   []*zfield
	fields   []*zfield
	cases    []*zcase
	selector *zexpr
	items    []*zitem
	funcs    []*zfunc
	typ      *ztyp
	val      *zexpr
	line     int
}

type zpkg struct {
	name    string
	file    string
	imports []string // package names; "a.b.*" or "a.b.Name"
	decls   []*zdecl
	byName  map[string]*zdecl
}

type ztok struct {
	k    string // id int float str op eof
	s    string
	i    int64
	line int
}

type zparser struct {
	toks []ztok
	p    int
	file string
	// noGT: '>' closes a template or width and is no operator
	noGT int
}

type zerr string

func zlex(src, file string) []ztok {
	var out []ztok
	line := 1
	i := 0
	isID := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r' || c == '\f':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				panic(zerr(file + ": unterminated comment"))
			}
			line += strings.Count(src[i:i+2+j+2], "\n")
			i += 2 + j + 2
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(zerr(fmt.Sprintf("%s:%d: string: %v", file, line, err)))
			}
			out = append(out, ztok{"str", s, 0, line})
			i = j + 1
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (isID(src[j]) || src[j] == '.' || (src[j] == '+' || src[j] == '-') && j > i && (src[j-1] == 'e' || src[j-1] == 'E') && !strings.HasPrefix(src[i:], "0x") && !strings.HasPrefix(src[i:], "0X")) {
				j++
			}
			w := src[i:j]
			i = j
			t := ztok{"int", w, 0, line}
			lw := strings.ToLower(w)
			var u uint64
			var err error
			switch {
			case strings.HasPrefix(lw, "0x"):
				u, err = strconv.ParseUint(lw[2:], 16, 64)
			case strings.HasSuffix(lw, "b") && strings.Trim(lw[:len(lw)-1], "01") == "":
				u, err = strconv.ParseUint(lw[:len(lw)-1], 2, 64)
			case len(lw) > 1 && lw[0] == '0' && strings.Trim(lw, "01234567") == "":
				u, err = strconv.ParseUint(lw, 8, 64)
			case strings.Trim(lw, "0123456789") == "":
				u, err = strconv.ParseUint(lw, 10, 64)
			default:
				t.k = "float"
				_, err = strconv.ParseFloat(strings.TrimSuffix(lw, "f"), 64)
			}
			if err != nil {
				panic(zerr(fmt.Sprintf("%s:%d: number %q", file, line, w)))
			}
			t.i = int64(u)
			out = append(out, t)
		case isID(c):
			j := i
			for j < len(src) && isID(src[j]) {
				j++
			}
			out = append(out, ztok{"id", src[i:j], 0, line})
			i = j
		default:
			op := string(c)
			for _, o := range []string{"<<", "<=", ">=", "==", "!=", "&&", "||"} {
				if strings.HasPrefix(src[i:], o) {
					op = o
				}
			}
			if strings.HasPrefix(src[i:], "@index") {
				op = "@index"
			}
			out = append(out, ztok{"op", op, 0, line})
			i += len(op)
		}
	}
	return append(out, ztok{"eof", "", 0, line})
}

func (p *zparser) cur() ztok { return p.toks[p.p] }
func (p *zparser) peek(n int) ztok {
	if p.p+n < len(p.toks) {
		return p.toks[p.p+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *zparser) is(s string) bool {
	t := p.cur()
	return t.s == s && (t.k == "op" || t.k == "id")
}
func (p *zparser) eat(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *zparser) fail(what string) {
	panic(zerr(fmt.Sprintf("%s:%d: %s, found %q", p.file, p.cur().line, what, p.cur().s)))
}
func (p *zparser) need(s string) {
	if !p.eat(s) {
		p.fail("expected " + s)
	}
}
func (p *zparser) id() string {
	t := p.cur()
	if t.k != "id" {
		p.fail("expected a name")
	}
	p.p++
	return t.s
}

var zkeyword = map[string]bool{"align": true, "optional": true, "packed": true, "implicit": true, "extend": true, "if": true, "function": true, "case": true, "default": true}

func parseZS(file string) (pk *zpkg, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(zerr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	p := &zparser{toks: zlex(string(b), file), file: file}
	pk = &zpkg{file: file, byName: map[string]*zdecl{}}
	if p.eat("zserio_compatibility_version") {
		p.need("(")
		p.p++
		p.need(")")
		p.need(";")
	}
	if p.eat("package") {
		pk.name = p.qname()
		p.need(";")
	}
	for p.eat("import") {
		s := p.id()
		for p.eat(".") {
			if p.eat("*") {
				s += ".*"
				break
			}
			s += "." + p.id()
		}
		p.need(";")
		pk.imports = append(pk.imports, s)
	}
	for p.cur().k != "eof" {
		d := p.decl()
		d.pkg = pk
		pk.decls = append(pk.decls, d)
		pk.byName[d.name] = d
	}
	return pk, nil
}

func (p *zparser) qname() string {
	s := p.id()
	for p.is(".") && p.peek(1).k == "id" {
		p.p++
		s += "." + p.id()
	}
	return s
}

func (p *zparser) tparams() []string {
	var out []string
	if p.eat("<") {
		for {
			out = append(out, p.id())
			if !p.eat(",") {
				break
			}
		}
		p.need(">")
	}
	return out
}

func (p *zparser) params() []*zfield {
	var out []*zfield
	if p.eat("(") {
		for {
			f := &zfield{line: p.cur().line}
			f.typ = p.typeRef()
			f.name = p.id()
			out = append(out, f)
			if !p.eat(",") {
				break
			}
		}
		p.need(")")
	}
	return out
}

// typeRef parses a type without arguments.
func (p *zparser) typeRef() *ztyp {
	t := &ztyp{line: p.cur().line, name: p.qname()}
	if (t.name == "bit" || t.name == "int") && p.eat(":") {
		t.bits = p.cur().i
		p.p++
		return t
	}
	if t.name != "bit" && t.name != "int" && p.is("<") {
		p.p++
		for {
			t.targs = append(t.targs, p.typeRef())
			if !p.eat(",") {
				break
			}
		}
		p.need(">")
	}
	return t
}

// typeInst parses a type with its arguments.
func (p *zparser) typeInst() *ztyp {
	t := p.typeRef()
	if (t.name == "bit" || t.name == "int") && t.bits == 0 && p.eat("<") {
		p.noGT++
		t.width = p.expr(0)
		p.noGT--
		p.need(">")
		return t
	}
	if p.eat("(") {
		sv := p.noGT
		p.noGT = 0
		for {
			if p.eat("explicit") {
				t.args = append(t.args, &zexpr{op: "explicit", s: p.id()})
			} else {
				t.args = append(t.args, p.expr(0))
			}
			if !p.eat(",") {
				break
			}
		}
		p.need(")")
		p.noGT = sv
	}
	return t
}

func (p *zparser) skipTo(end string) {
	for !p.is(end) && p.cur().k != "eof" {
		p.p++
	}
}

func (p *zparser) decl() *zdecl {
	d := &zdecl{line: p.cur().line}
	kw := p.id()
	switch kw {
	case "const":
		d.kind = "const"
		d.typ = p.typeInst()
		d.name = p.id()
		p.need("=")
		d.val = p.expr(0)
		p.need(";")
		return d
	case "subtype":
		d.kind = "subtype"
		d.typ = p.typeRef()
		d.name = p.id()
		p.need(";")
		return d
	case "instantiate":
		d.kind = "instantiate"
		d.typ = p.typeRef()
		d.name = p.id()
		p.need(";")
		return d
	case "enum", "bitmask":
		d.kind = kw
		d.typ = p.typeInst()
		d.name = p.id()
		p.need("{")
		for !p.is("}") {
			if p.peek(1).k == "id" {
				p.p++ // deprecated, removed
			}
			it := &zitem{name: p.id()}
			if p.eat("=") {
				it.val = p.expr(0)
			}
			d.items = append(d.items, it)
			if !p.eat(",") {
				break
			}
		}
		p.need("}")
		p.need(";")
		return d
	case "struct", "union", "choice":
		d.kind = kw
		d.name = p.id()
		d.tparams = p.tparams()
		d.params = p.params()
		if kw == "choice" {
			p.need("on")
			d.selector = p.expr(0)
		}
		p.need("{")
		for !p.is("}") {
			if p.is("function") {
				p.p++
				f := &zfunc{ret: p.typeRef(), name: p.id()}
				p.need("(")
				p.need(")")
				p.need("{")
				p.need("return")
				f.body = p.expr(0)
				p.need(";")
				p.need("}")
				d.funcs = append(d.funcs, f)
				continue
			}
			if kw == "choice" {
				c := &zcase{}
				if p.eat("default") {
					p.need(":")
				} else {
					for p.eat("case") {
						c.conds = append(c.conds, p.expr(0))
						p.need(":")
					}
					if len(c.conds) == 0 {
						p.fail("expected a case")
					}
				}
				if !p.is(";") {
					c.f = p.field()
				} else {
					p.need(";")
				}
				d.cases = append(d.cases, c)
				continue
			}
			d.fields = append(d.fields, p.field())
		}
		p.need("}")
		p.need(";")
		return d
	case "sql_table", "sql_database", "service", "pubsub", "rule_group":
		d.kind = "other"
		d.name = p.id()
		depth := 0
		for {
			switch {
			case p.is("{"):
				depth++
			case p.is("}"):
				depth--
				if depth == 0 {
					p.p++
					p.need(";")
					return d
				}
			case p.cur().k == "eof":
				p.fail("unexpected end")
			}
			p.p++
		}
	}
	p.fail("unknown declaration " + kw)
	return nil
}

func (p *zparser) field() *zfield {
	f := &zfield{line: p.cur().line}
	if p.is("align") && p.peek(1).s == "(" {
		p.p += 2
		f.align = p.expr(0)
		p.need(")")
		p.need(":")
	}
	if p.eat("extend") {
	}
	f.optional = p.eat("optional")
	f.packed = p.eat("packed")
	if p.is("implicit") {
		p.fail("implicit arrays are not read")
	}
	f.typ = p.typeInst()
	f.name = p.id()
	if p.eat("[") {
		f.array = true
		if !p.is("]") {
			f.length = p.expr(0)
		}
		p.need("]")
	}
	if p.eat("=") {
		f.init = p.expr(0)
	}
	if p.eat("if") {
		f.cond = p.expr(0)
	}
	if p.eat(":") {
		f.constr = p.expr(0)
	}
	p.need(";")
	return f
}

var zprec = map[string]int{
	"?": 1, "||": 2, "&&": 3, "|": 4, "^": 5, "&": 6, "==": 7, "!=": 7,
	"<": 8, "<=": 8, ">": 8, ">=": 8, "<<": 9, ">>": 9, "+": 10, "-": 10, "*": 11, "/": 11, "%": 11,
}

func (p *zparser) binop() (string, int) {
	t := p.cur()
	if t.k != "op" {
		return "", 0
	}
	s := t.s
	if s == ">" && p.noGT > 0 {
		return "", 0
	}
	if s == ">" && p.peek(1).k == "op" && p.peek(1).s == ">" {
		return ">>", 2
	}
	if _, ok := zprec[s]; ok {
		return s, 1
	}
	return "", 0
}

func (p *zparser) expr(min int) *zexpr {
	l := p.unary()
	for {
		op, n := p.binop()
		if n == 0 || zprec[op] < min || min > 0 && zprec[op] == min {
			return l
		}
		line := p.cur().line
		p.p += n
		if op == "?" {
			b := p.expr(0)
			p.need(":")
			c := p.expr(0)
			l = &zexpr{op: "?:", a: []*zexpr{l, b, c}, line: line}
			continue
		}
		r := p.expr(zprec[op])
		l = &zexpr{op: op, a: []*zexpr{l, r}, line: line}
	}
}

func (p *zparser) unary() *zexpr {
	line := p.cur().line
	for _, o := range []string{"+", "-", "!", "~"} {
		if p.eat(o) {
			e := p.unary()
			n := o
			if o == "+" || o == "-" {
				n = "u" + o
			}
			return &zexpr{op: n, a: []*zexpr{e}, line: line}
		}
	}
	return p.postfix()
}

func (p *zparser) inner(f func()) {
	sv := p.noGT
	p.noGT = 0
	f()
	p.noGT = sv
}

func (p *zparser) postfix() *zexpr {
	t := p.cur()
	var e *zexpr
	switch {
	case t.k == "int":
		p.p++
		e = &zexpr{op: "int", i: t.i, line: t.line}
	case t.k == "float":
		p.p++
		e = &zexpr{op: "float", s: t.s, line: t.line}
	case t.k == "str":
		p.p++
		e = &zexpr{op: "str", s: t.s, line: t.line}
	case p.is("true") || p.is("false"):
		e = &zexpr{op: "bool", s: t.s, line: t.line}
		p.p++
	case p.eat("@index"):
		e = &zexpr{op: "index", line: t.line}
	case p.is("("):
		p.p++
		p.inner(func() { e = p.expr(0) })
		p.need(")")
	case p.is("isset") || p.is("lengthof") || p.is("valueof") || p.is("numbits"):
		p.p++
		e = &zexpr{op: t.s, line: t.line}
		p.need("(")
		p.inner(func() {
			e.a = append(e.a, p.expr(0))
			if t.s == "isset" {
				p.need(",")
				e.a = append(e.a, p.expr(0))
			}
		})
		p.need(")")
	case t.k == "id":
		p.p++
		e = &zexpr{op: "id", s: t.s, line: t.line}
	default:
		p.fail("expected an expression")
	}
	for {
		switch {
		case p.is("(") && p.peek(1).s == ")":
			p.p += 2
			e = &zexpr{op: "call", a: []*zexpr{e}, line: t.line}
		case p.is("["):
			p.p++
			var ix *zexpr
			p.inner(func() { ix = p.expr(0) })
			p.need("]")
			e = &zexpr{op: "[]", a: []*zexpr{e, ix}, line: t.line}
		case p.is(".") && p.peek(1).k == "id":
			p.p++
			e = &zexpr{op: ".", s: p.id(), a: []*zexpr{e}, line: t.line}
		default:
			return e
		}
	}
}
