package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
)

func init() {
	register(&Property{ID: "C16", Gen: true, Explain: "Type checking of what the generator writes: for the corpus, per file and per package, with and without SQL support; and for an enumeration of schema constructs, of which those the generator accepts have to type-check. The emitted types' method sets are compared with the interfaces of the runtime library, and the emitted text is searched for placeholders.", Run: runC16})
}

// construct is a small schema of one kind.
type construct struct {
	name, body string
	lib        string // another package, that the body imports
}

// constructs enumerates schema constructs: every type in every place, and every
// operator with every pair of operand types.
func constructs() []construct {
	var out []construct
	add := func(name, format string, a ...any) {
		out = append(out, construct{name: name, body: "package k;\n" + fmt.Sprintf(format, a...) + "\n"})
	}
	ints := []string{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "bit:3", "int:5", "bit:33", "varuint", "varint", "varsize", "varuint16", "varint64"}
	few := []string{"uint8", "uint16", "uint64", "int8", "int32", "int64", "varsize", "bit:3"}
	other := []string{"float16", "float32", "float64", "bool", "string", "extern", "bytes"}
	all := append(append([]string{}, ints...), other...)
	decls := "enum uint8 E { A = 1, B = 2 };\nbitmask uint8 M { X = 1, Y = 2 };\nstruct S { uint8 v; };\nchoice C(uint8 t) on t { case 1: uint8 a; default: uint16 b; };\nunion U { uint8 a; string b; };\nsubtype uint16 W;\nstruct P(uint8 n) { uint8 v[n]; };\n"
	user := []string{"E", "M", "S", "U", "W", "C(1)", "P(3)"}

	// every type in every place
	for _, t := range append(append([]string{}, all...), user...) {
		add("field "+t, "%sstruct T { %s a; };", decls, t)
		add("optional "+t, "%sstruct T { optional %s a; };", decls, t)
		add("conditional "+t, "%sstruct T { bool h; %s a if h; };", decls, t)
		add("array "+t, "%sstruct T { %s a[3]; };", decls, t)
		add("auto array "+t, "%sstruct T { %s a[]; };", decls, t)
		add("packed array "+t, "%sstruct T { packed %s a[]; };", decls, t)
		add("implicit array "+t, "%sstruct T { implicit %s a[]; };", decls, t)
		add("optional array "+t, "%sstruct T { optional %s a[]; };", decls, t)
		add("optional packed array "+t, "%sstruct T { optional packed %s a[]; };", decls, t)
		add("union field "+t, "%sunion T { %s a; uint8 b; };", decls, t)
		add("choice field "+t, "%schoice T(uint8 s) on s { case 1: %s a; case 2: uint8 b; default: ; };", decls, t)
		add("union array "+t, "%sunion T { %s a[]; uint8 b; };", decls, t)
		add("choice array "+t, "%schoice T(uint8 s) on s { case 1: %s a[2]; case 2: packed %s b[]; };", decls, t, t)
		add("aligned "+t, "%sstruct T { bit:3 p; align(8): %s a; };", decls, t)
		add("template argument "+t, "%sstruct G<X> { X a; X b[]; };\nstruct T { G<%s> g; };", decls, t)
		add("instantiation "+t, "%sstruct G<X> { X a; X b[]; };\ninstantiate G<%s> GI;\nstruct T { GI g; };", decls, t)
		add("subtype "+t, "%ssubtype %s Z;\nstruct T { Z a; Z b[]; };", decls, t)
	}
	for _, t := range append(append([]string{}, all...), "E", "M", "W", "S", "U") {
		add("parameter "+t, "%sstruct Q(%s p) { uint8 v; };\nstruct T { %s a; Q(a) q; Q(a) r[2]; };", decls, t, t)
		add("function "+t, "%sstruct T { %s a; function %s f() { return a; } };", decls, t, t)
	}
	lit := func(t string) string {
		switch t {
		case "bool":
			return "true"
		case "string":
			return "\"x\""
		case "float16", "float32", "float64":
			return "1.5"
		case "E":
			return "E.A"
		case "M":
			return "M.X"
		}
		return "3"
	}
	for _, t := range append(append([]string{}, all...), "E", "M", "W") {
		if t == "extern" || t == "bytes" {
			continue
		}
		add("initializer "+t, "%sstruct T { %s a = %s; };", decls, t, lit(t))
		add("const "+t, "%sconst %s K = %s;\nstruct T { uint8 a; };", decls, t, lit(t))
		add("const in constraint "+t, "%sconst %s K = %s;\nstruct T { %s a : a == K; };", decls, t, lit(t), t)
		add("constraint "+t, "%sstruct T { %s a : a != %s; };", decls, t, lit(t))
		add("condition "+t, "%sstruct T { %s a; uint8 b if a == %s; };", decls, t, lit(t))
		add("ternary "+t, "%sstruct T { bool c; %s a; %s b; function %s f() { return c ? a : b; } };", decls, t, t, t)
	}
	for _, t := range ints {
		add("enum "+t, "enum %s E2 { A = 1, B, C = 5 };\nstruct T { E2 e; E2 es[]; packed E2 ps[]; optional E2 o; };", t)
		add("bitmask "+t, "bitmask %s M2 { A, B };\nstruct T { M2 m; M2 ms[]; packed M2 ps[]; optional M2 o; };", t)
		add("choice on "+t, "choice D(%s s) on s { case 1: uint8 a; case 2: case 3: string b; default: uint16 c; };\nstruct T { %s s; D(s) d; };", t, t)
		add("array length "+t, "struct T { %s n; uint8 a[n]; string b[n]; packed uint8 c[n]; };", t)
		add("bit length "+t, "struct T { %s n; bit<n> a; int<n> b; bit<n> c[]; };", t)
		add("index "+t, "struct T { %s n; uint8 a[]; function uint8 f() { return a[n]; } };", t)
		add("literal with "+t, "struct T { %s n; uint8 c if n + 1 > 2 && n * 2 < 9 && 7 - n == 0; function bool f() { return (n & 1) == 1; } };", t)
		add("unary "+t, "struct T { %s n; function bool f() { return -n == 1 && ~n != 2 && +n == 1; } };", t)
		add("shift by literal "+t, "struct T { %s n; function bool f() { return (n << 1) == 2 || (n >> 1) == 1; } };", t)
		add("valueof enum of "+t, "enum %s E2 { A = 1, B };\nstruct T { E2 e; function bool f() { return valueof(e) == 1; } };", t)
		add("numbits "+t, "struct T { %s n; bit<numbits(n)> b; };", t)
	}
	for _, sel := range []string{"E", "M", "bool", "W"} {
		c := map[string]string{"E": "case A: uint8 a; case B: string b;", "M": "case X: uint8 a; case Y: string b;", "bool": "case true: uint8 a; case false: string b;", "W": "case 1: uint8 a; case 2: string b;"}[sel]
		add("choice on "+sel, "%schoice D(%s s) on s { %s };\nstruct T { %s s; D(s) d; };", decls, sel, c, sel)
	}

	// operators with every pair of operand types
	for _, x := range few {
		for _, y := range few {
			for _, op := range []string{"+", "-", "*", "/", "%", "&", "|", "^"} {
				add("("+x+") "+op+" ("+y+")", "struct T { %s a; %s b; function bool f() { return (a %s b) == 1; } };", x, y, op)
			}
			for _, op := range []string{"==", "<", ">="} {
				add("("+x+") "+op+" ("+y+")", "struct T { %s a; %s b; uint8 c if a %s b; };", x, y, op)
			}
			for _, op := range []string{"<<", ">>"} {
				add("("+x+") "+op+" ("+y+")", "struct T { %s a; %s b; function bool f() { return (a %s b) == 1; } };", x, y, op)
			}
			add("argument "+x+" for "+y, "struct Q(%s p) { uint8 v[p]; };\nstruct T { %s a; Q(a) q; };", y, x)
			add("result "+x+" as "+y, "struct T { %s a; function %s f() { return a; } };", x, y)
			add("ternary "+x+" "+y, "struct T { bool c; %s a; %s b; uint8 d if (c ? a : b) == 1; };", x, y)
		}
	}
	for _, f := range []string{"float16", "float32", "float64"} {
		for _, g := range []string{"float16", "float32", "float64", "uint8"} {
			for _, op := range []string{"+", "-", "*", "/", "==", "<"} {
				if op == "==" || op == "<" {
					add(f+" "+op+" "+g, "struct T { %s a; %s b; uint8 c if a %s b; };", f, g, op)
				} else {
					add(f+" "+op+" "+g, "struct T { %s a; %s b; uint8 c if (a %s b) > 1.0; };", f, g, op)
				}
			}
		}
	}

	// operands of other origins
	origin := map[string]string{"field": "a", "other": "h", "subtype": "w", "another subtype": "v", "subtype of another": "s", "function": "f()", "function of subtype": "g()", "constant": "K",
		"element": "z[0]", "literal": "7", "negated": "-s", "complement": "~a", "sum": "(a + h)", "shifted": "(h << 1)", "length": "lengthof(z)", "bits": "numbits(a)", "parenthesized": "(w)", "nested": "n.v", "value": "valueof(e)", "masked": "(a & h)"}
	for _, x := range sortedKeys(origin) {
		for _, y := range sortedKeys(origin) {
			for _, op := range []string{"==", "<", "+", "&"} {
				e := fmt.Sprintf("(%s %s %s)", origin[x], op, origin[y])
				if op == "+" || op == "&" {
					e += " == 1"
				}
				add(fmt.Sprintf("(%s) %s (%s)", x, op, y), "subtype uint16 W;\nsubtype uint16 V;\nsubtype int8 S;\nconst uint16 K = 3;\nenum uint32 E { A, B };\nstruct N { int16 v; };\n"+
					"struct T { uint8 a; uint16 h; W w; V v; S s; N n; E e; uint8 z[]; uint8 b if %s; function uint8 f() { return a; } function W g() { return w; } };", e)
			}
		}
	}

	// declarations of other packages, in every place
	lib := "package lib;\nenum uint8 E { A = 1, B = 2 };\nbitmask uint8 M { X = 1, Y = 2 };\nstruct S { uint8 v; function uint8 f() { return v; } };\nchoice C(uint8 t) on t { case 1: uint8 a; default: uint16 b; };\n" +
		"union U { uint8 a; string b; };\nsubtype uint16 W;\nsubtype S SS;\nsubtype string N;\nstruct P(uint16 p) { uint8 v; };\nstruct G<X> { X x; X y[]; };\nconst uint8 K = 3;\n"
	addLib := func(name, format string, a ...any) {
		add(name, "import lib.*;\n"+format, a...)
		out[len(out)-1].lib = lib
	}
	for _, t := range []string{"E", "M", "S", "C(1)", "U", "W", "SS", "N", "P(3)", "G<uint8>", "G<S>", "lib.E", "lib.S"} {
		addLib("imported field "+t, "struct T { %s a; };", t)
		addLib("imported optional "+t, "struct T { optional %s a; };", t)
		addLib("imported array "+t, "struct T { %s a[]; };", t)
		addLib("imported packed array "+t, "struct T { packed %s a[2]; };", t)
		addLib("imported union field "+t, "union T { %s a; uint8 b; };", t)
		addLib("imported choice field "+t, "choice T(uint8 s) on s { case 1: %s a[]; default: uint8 b; };", t)
		addLib("imported subtype "+t, "subtype %s Z;\nstruct T { Z a; Z b[]; };", t)
		addLib("imported template argument "+t, "struct H<X> { X a; };\nstruct T { H<%s> a; G<%s> b; };", t, t)
	}
	for _, t := range []string{"E", "M", "S", "U", "W", "SS", "N"} {
		addLib("imported parameter "+t, "struct Q(%s p) { uint8 v; };", t)
		addLib("imported argument "+t, "struct Q(%s p) { uint8 v; };\nstruct T { %s a; Q(a) q; Q(a) r[]; };", t, t)
		addLib("imported function "+t, "struct T { %s a; function %s f() { return a; } };", t, t)
	}
	addOne := func(name, imports, format string, a ...any) {
		body := ""
		for _, n := range strings.Fields(imports) {
			body += "import lib." + n + ";\n"
		}
		add(name, body+format, a...)
		out[len(out)-1].lib = lib
	}
	for _, t := range []string{"E", "M", "S", "C(1)", "U", "W", "SS", "N", "P(3)", "G<uint8>"} {
		n, _, _ := strings.Cut(t, "(")
		n, _, _ = strings.Cut(n, "<")
		addOne("single import "+t, n, "struct T { %s a; %s b[]; packed %s c[]; optional %s d; };", t, t, t, t)
		if !strings.Contains(t, "(") {
			addOne("single import, subtype "+t, n, "subtype %s Z;\nstruct V { Z z; };", t)
		}
	}
	addOne("single import of a constant", "K", "struct T { uint8 a = K; uint8 b[K]; };")
	addOne("single imports", "E S W", "struct T { E e = E.A; S s; W w; uint8 c if e == E.B; uint8 d[s.v]; };\nconst E L = E.B;")
	addOne("single import and all", "E *", "struct T { E e; S s; M m; };")
	addLib("imported selector", "choice D(E e) on e { case A: uint8 a; case B: string b; };")
	addLib("imported constant", "struct T { uint8 a = K; uint8 b[K]; uint8 c if a == K; };\nconst uint16 L = K + 1;")
	addLib("imported enum value", "struct T { E e = E.A; uint8 c if e == E.B; };\nconst E L = E.B;")
	addLib("imported mask value", "struct T { M m; uint8 c if (m & M.X) == M.X; uint8 d if isset(m, M.Y); };")
	addLib("imported member", "struct T { S s; uint8 a[s.v]; uint8 b if s.f() == 1; };")
	addLib("imported mix", "struct T { W w; uint8 a if w == 3; uint8 b if w < a; };")
	addLib("imported and unused", "struct T { uint8 a; };")

	// values known to the generator with others
	for _, op := range []string{"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"} {
		for _, x := range []string{"7", "K", "(K + 1)", "E.B", "lengthof(z)", "numbits(a)"} {
			add("known "+x+" "+op+" field", "const uint8 K = 3;\nenum uint8 E { A = 1, B = 2 };\nstruct T { uint8 a; uint8 z[]; uint8 b if (%s %s a) == 1; function bool f() { return (%s %s z[a]) > 3; } };", x, op, x, op)
			add("field "+op+" known "+x, "const uint8 K = 3;\nenum uint8 E { A = 1, B = 2 };\nstruct T { uint8 a; uint8 z[]; uint8 b if (a %s %s) == 1; function bool f() { return (z[a] %s %s) > 3; } };", op, x, op, x)
		}
	}
	for _, op := range []string{"+", "-", "*", "/"} {
		add("float literal "+op, "const float32 K = 1.5;\nstruct T { float32 a; float64 b; uint8 c if (1.5 %s a) > 2.0; uint8 d if (b %s K) < 3.5; uint8 e if (2 %s b) >= 1.5; };", op, op, op)
	}
	for _, t := range []string{"Box<uint8>", "Box<S>", "Box<string>", "Pair<uint8, S>", "Box<Box<uint8>>"} {
		g := "struct S { uint8 v; };\nstruct Box<X> { X x; X y[]; optional X z; };\nstruct Pair<X, Y> { X x; Y y; };\n"
		add("template in choice "+t, "%schoice T(uint8 k) on k { case 1: %s a; case 2: uint8 b; default: ; };", g, t)
		add("template in default "+t, "%schoice T(uint8 k) on k { case 1: uint8 a; default: %s b; };", g, t)
		add("template in union "+t, "%sunion T { %s a; uint8 b; };", g, t)
		add("template arrays "+t, "%sstruct T { %s a[3]; packed %s b[]; optional %s c[]; };", g, t, t, t)
		add("template parameter "+t, "%sstruct P(%s p) { uint8 v; };\nstruct T { %s a; P(a) p; };", g, t, t)
		add("template function "+t, "%sstruct T { %s a; function %s f() { return a; } };", g, t, t)
		add("template subtype "+t, "%ssubtype %s Z;\nstruct T { Z a; Z b[]; };", g, t)
		add("template instantiation "+t, "%sinstantiate %s Z;\nstruct T { Z a; Z b[]; };", g, t)
		add("template choice default "+t, "%schoice C<X>(uint8 k) on k { case 1: X a; default: Box<X> b; };\nstruct T { uint8 n; C<%s>(n) c; };", g, t)
		add("template members "+t, "%sstruct G<X>(uint8 n) { X a; align(8): X b; X c[n]; X d if n > 1; optional X e; packed X f[]; Box<X> g; uint8 h = 3; function uint8 k() { return n; } };\nstruct T { uint8 n; G<%s>(n) g; G<%s>(n) h[]; };", g, t, t)
	}

	// items given by the items of other types
	imp := func(e string) string { return strings.ReplaceAll(e, "W.", "Z.") }
	refs := "enum uint8 E { A = 1, B = 2 };\nbitmask uint8 M { X = 1, Y = 2 };\nconst uint8 K = 3;\nsubtype E W;\nsubtype M V;\n"
	for _, e := range []string{"E.A", "E.B", "W.B", "valueof(E.B)", "K", "K + 1", "E.B + 1", "1 + E.B", "E.B * K", "E.B << 1", "1 << E.B", "(E.B)", "-E.A + 5", "valueof(M.Y)", "valueof(M.Y) + 1", "(E.A == E.B ? 4 : 5)", "numbits(K)", "(E.A | E.B)"} {
		add("enum item "+e, "%senum uint16 E2 { P = %s, Q };\nstruct T { E2 e; E2 f = E2.Q; };", refs, e)
		add("mask value "+e, "%sbitmask uint16 M2 { P = %s, Q };\nstruct T { M2 e; M2 f = M2.Q; };", refs, e)
		add("constant "+e, "%sconst uint16 C = %s;\nstruct T { uint16 a = %s; uint8 b[%s]; uint8 c if a == %s; uint8 d if a + (%s) == b[0]; bit<%s> f; function uint16 g() { return %s; } };", refs, e, e, e, e, e, e, e)
		addLib("imported enum item "+e, "subtype E Z;\nenum uint16 E2 { P = %s, Q };\nconst uint16 C = %s;\nstruct T { uint8 a[%s]; uint8 b if a[0] == %s; };", imp(e), imp(e), imp(e), imp(e))
	}
	for _, e := range []string{"M.X", "M.Y", "V.Y", "M.X | M.Y", "M.X & M.Y", "M.X ^ M.Y", "(M.Y)", "(M.X | M.Y) & M.Y"} {
		add("enum item "+e, "%senum uint16 E2 { P = %s, Q };\nstruct T { E2 e; };", refs, e)
		add("mask value "+e, "%sbitmask uint16 M2 { P = %s, Q };\nstruct T { M2 e; M2 f = M2.P; uint8 g if isset(e, M2.P); };", refs, e)
		add("mask constant "+e, "%sconst M C = %s;\nstruct T { M a; uint8 b if a == (%s); uint8 c if isset(a, %s); M d = %s; function M g() { return %s; } function uint8 h() { return valueof(%s); } };", refs, e, e, e, e, e, e)
	}
	for _, e := range []string{"M.X", "V.Y", "lib.M.X", "M.X | M.Y"} {
		addLib("imported mask "+e, "subtype M V;\nbitmask uint16 M2 { P = %s, Q };\nconst M C = %s;\nstruct T { M a; uint8 b if a == (%s); uint8 c if isset(a, %s); M d = %s; };", e, e, e, e, e)
	}
	add("items of later types", "enum uint8 E2 { P = E.B, Q = K };\nbitmask uint8 M2 { R = M.Y, S = K };\nenum uint8 E { A = F, B = G };\nbitmask uint8 M { X = F, Y = G };\nconst uint8 F = 1;\nconst uint8 G = F + 1;\nconst uint8 K = G + 6;")
	add("chained items", "enum uint8 E1 { A = E2.A, B = E2.B };\nenum uint8 E2 { A = E3.A, B = E3.B };\nenum uint8 E3 { A = 4, B };")
	add("cyclic items", "enum uint8 E1 { A = E2.A, B = 3 };\nenum uint8 E2 { A = E1.A, B = 4 };")
	add("choice member", "choice C(uint8 t) on t { case 1: uint8 a; default: uint16 b; };\nstruct T { uint8 t; C(t) c; uint8 d if c.a > 3; uint8 e[c.a]; uint16 f[c.b]; };")
	add("choice in choice", "struct I { uint8 v; };\nchoice C(uint8 t) on t { case 1: I i; default: uint16 b; };\nchoice D(uint8 t) on t { case 1: C(t) c; default: ; };\nstruct T { uint8 t; D(t) d; uint8 e if d.c.i.v > 3; };")

	// the rest of the language
	add("logic", "struct T { bool a; bool b; uint8 c if (a && b) || !a; uint8 d : a == b; };")
	add("string compare", "struct T { string a; string b; uint8 c if a == b; uint8 d if a == \"x\"; };")
	add("string concat", "const string K = \"a\" + \"b\";\nstruct T { string a = \"x\" + \"y\"; };")
	add("lengthof", "struct T { uint8 a[]; uint8 b if lengthof(a) > 2; uint16 c[lengthof(a)]; };")
	add("lengthof of literal", "struct T { uint8 a[]; function uint32 f() { return lengthof(a); } };")
	add("nested access", "struct A { uint8 n; };\nstruct B { A a; };\nstruct T { B b; uint8 x[b.a.n]; uint8 y if b.a.n == 2; };")
	add("function call", "struct T { uint8 a; uint8 b[f()]; function uint8 f() { return a + 1; } };")
	add("function of a member", "struct A { uint8 n; function uint8 f() { return n; } };\nstruct T { A a; uint8 x[a.f()]; };")
	add("enum compare", "%sstruct T { E a; E b; uint8 c if a == E.A; uint8 d if a == b; uint8 e if a != E.B && b == E.A; };", decls)
	add("enum in choice", "%schoice D(E e) on e { case A: uint8 a; case B: string b; default: ; };\nstruct T { E e; D(e) d; };", decls)
	add("bitmask test", "%sstruct T { M m; uint8 a if (m & M.X) == M.X; uint8 b if m == M.Y; uint8 c if (m | M.X) != M.Y; };", decls)
	add("isset", "%sstruct T { M m; uint8 a if isset(m, M.X); };", decls)
	add("index of array of structs", "%sstruct T { S s[]; function uint8 f() { return s[0].v; } };", decls)
	add("@index", "struct P(uint32 i) { uint8 v; };\nstruct T { P(@index) a[3]; };")
	add("indexed offsets", "struct T { uint32 offs[2]; offs[@index]: uint8 a[2]; };")
	add("offset", "struct T { uint32 off; off: uint8 a; };")
	add("offset in struct", "struct O { uint32 off; };\nstruct T { O o; o.off: uint8 a; };")
	add("align", "struct T { bit:3 a; align(32): uint8 b; align(8): string c[]; };")
	add("empty struct", "struct T {};\nstruct V { T t; T ts[]; optional T o; };")
	add("empty choice", "choice C(uint8 n) on n { case 1: ; default: ; };\nstruct T { uint8 n; C(n) c; };")
	add("recursive", "struct T { uint8 v; optional T next; };")
	add("recursive array", "struct T { uint8 v; T next[]; };")
	add("recursive union", "union T { uint8 v; T next[]; };")
	add("parameters", "struct P(uint8 a, string b, bool c) { uint8 v if c; };\nstruct T { uint8 x; string y; bool z; P(x, y, z) p; P(x, y, z) q[]; };")
	add("parameter struct", "struct H { uint8 n; };\nstruct P(H h) { uint8 v[h.n]; };\nstruct T { H h; P(h) p; packed P(h) q[]; };")
	add("nested parameters", "struct A(uint8 n) { uint8 v[n]; };\nstruct B(uint8 n) { A(n) a; A(n + 1) b[]; };\nstruct T { uint8 k; B(k) b; };")
	add("template with parameters", "struct A<X>(uint8 n) { X v[n]; };\nstruct T { uint8 k; A<uint16>(k) a; A<string>(k) b; };")
	add("nested templates", "struct A<X> { X v; };\nstruct B<Y> { A<Y> a; };\nstruct T { B<uint8> b; B<A<string>> c; };")
	add("template choice", "choice A<X>(bool b) on b { case true: X v; case false: uint8 n; };\nstruct T { bool b; A<uint16>(b) a; };")
	add("template two", "struct A<X, Y> { X x; Y y; };\nstruct T { A<uint8, string> a; A<string, uint8> b; };")
	add("keywords", "struct T { uint8 type; uint8 func; uint8 range; uint8 map; uint8 var; uint8 go; uint8 select; uint8 interface; uint8 package1; uint8 defer; uint8 chan; uint8 fallthrough; uint8 goto; uint8 switch; };")
	add("keyword parameters", "struct P(uint8 type, uint8 func, uint8 range) { uint8 v[type]; uint8 w[func + range]; };\nstruct T { uint8 n; P(n, n, n) p; };")
	add("local names", "struct P(uint8 r, uint8 w, uint8 err, uint8 v) { uint8 a[r]; uint8 b[w]; uint8 c[err]; uint8 d[v]; };\nstruct T { uint8 r; uint8 w; uint8 err; uint8 v; uint8 bitSize; uint8 i; uint8 contextNode; uint8 context; P(r, w, err, v) p; };")
	add("package names", "struct T { uint8 ztype; uint8 zserio; uint8 zstream; uint8 fmt; uint8 errors; uint8 math; uint8 bits; string string1; uint8 len; uint8 int1; uint8 nil1; };")
	add("snake case", "struct my_struct { uint8 my_field; };\nenum uint8 my_enum { ITEM_ONE, itemTwo, item_three };\nstruct T { my_struct s; my_enum e; };")
	add("enum item names", "enum uint8 E { NONE, TYPE, ERROR, MAP, FUNC, NAME, FROM_STRING };\nstruct T { E e = E.NONE; };")
	add("enum item STRING", "enum uint8 E { STRING };")
	add("enum item VALUES", "enum uint8 E { VALUES };")
	add("comment with package names", "/** Tells errors. Uses fmt. And io. math. bits. zserio. ztype. driver. bitio. */\nstruct T { /** errors. */ uint8 a; // ztype.\n };")
	add("string with package names", "const string K = \"errors.fmt.driver.ztype.\";\nstruct T { string a = \"ztype.fmt.\"; };")
	add("names of packages", "struct T { S fmt; S errors; S driver; uint8 a if fmt.v == 1; uint8 b if errors.v == driver.v; };\nstruct S { uint8 v; };")
	add("comment with imports", "/** import ( \"x\" ) */\nstruct T { uint8 a; };\n/** package x; */\nenum uint8 E { A };")
	add("type names", "struct Error { uint8 a; };\nstruct String { uint8 a; };\nenum uint8 Type { INT };\nstruct Reader { Error e; String s; Type t; };\nunion Any { Reader r; Writer w; };\nstruct Writer { uint8 a[]; };\nbitmask uint8 Bool { TRUE };\nstruct Context { Bool b; };")
	add("names of locals", "struct T { uint8 index; uint8 element; uint8 value; uint8 delta; uint8 present; uint8 tempValue; uint8 traits; uint8 context; uint8 childrenNodes; uint8 retVal; uint8 a[]; uint8 b if index == element; packed uint8 c[]; optional uint8 d; uint8 elem; uint8 endBitPosition; uint8 bitPosition; };")
	add("locals as parameters", "struct P(uint8 index, uint8 element, uint8 value, uint8 delta) { uint8 a[index]; uint8 b if element == value; packed uint8 c[delta]; };\nstruct T { uint8 index; uint8 element; P(index, element, index, element) p; P(index, element, @index, element) q[]; };")
	add("functions and members", "struct T { uint8 a; uint8 b if big(); uint8 c[twice()]; function uint8 getA() { return a; } function uint8 twice() { return getA() + getA(); } function bool big() { return twice() > 100; } };")
	add("choice with functions", "choice T(uint8 s) on s { case 1: uint8 a; default: string b; function uint8 f() { return s + 1; } };\nunion U { uint8 a; function uint8 f() { return 3; } };")
	add("many fields", "struct T { bit:1 a; bit:2 b; int:3 c; bit:63 d; bit:64 e; int:64 f; int:1 g; varint32 h; varuint32 i; varint16 j; };")
	add("dynamic widths", "struct T { uint8 n; bit<n> a[]; int<n> b[]; packed int<n> c[]; optional int<n> d; };\nsubtype bit:7 Z;\nstruct V { Z z; Z y[]; packed Z x[]; };")
	add("initializers", "enum uint8 E { A, B };\nbitmask uint8 M { X, Y };\nsubtype uint16 W;\nsubtype E F;\nstruct T { E e = E.B; F f = E.A; M m = M.X; W w = 5; bool b = true; float64 d = 1.5; string s = \"x\"; bit:3 c = 2; varint v = -3; };")
	add("optional initializers", "struct T { optional uint8 a; uint8 b = 3; };")
	add("offsets", "struct T { uint32 o1; uint64 o2; uint32 os[]; o1: uint8 a; o2: string b; os[@index]: uint8 c[]; };")
	add("constraints", "struct T { uint8 a : a > 3; uint8 b[] : lengthof(b) < 9; string c : c != \"x\"; optional uint8 d; bool e : e; uint8 f : f == a || f == 7; };\nunion U { uint8 a : a > 1; };\nchoice C(uint8 s) on s { case 1: uint8 a : a > s; };")
	add("deep nesting", "struct A { uint8 n; };\nstruct B { A a[]; };\nstruct C { B b[]; };\nstruct D { packed C c[]; optional C o; };\nunion E { D d[]; A a; };\nstruct F(D d) { uint8 v if lengthof(d.c) == 1; };")
	add("length of expression", "struct T { uint8 a; uint8 b; uint8 c[a * 2 + b]; uint8 d[(a + 1) / 2]; uint8 e[lengthof(c)]; };")
	add("64-bit constants", "const uint64 K = 9223372036854775807;\nconst int64 L = -9223372036854775807;\nstruct T { uint64 a : a < K; int64 b = L; };")
	add("escapes", "const string A = \"a\\\"b\\n\\\\\";\nstruct T { string s = \"\\t\"; };")
	add("subtypes of subtypes", "subtype uint8 A;\nsubtype A B;\nsubtype B C;\nsubtype S D;\nsubtype D E;\nstruct S { C c; B b[]; packed A a[]; };\nstruct T { E e; E es[]; packed D ds[]; optional C o; C d = 3; uint8 x if d == 3; };")
	add("instantiations", "struct G<X> { X x; X y[]; };\ninstantiate G<uint8> GA;\ninstantiate G<GA> GB;\nsubtype GA GS;\nstruct T { GA a; GB b; GS c; GA d[]; packed GB e[]; G<uint8> f; G<G<string>> g; };")
	add("template expressions", "struct G<X>(X n) { X x; uint8 y if x == n; uint8 z[n]; function X f() { return x; } };\nstruct T { uint8 a; uint16 b; G<uint8>(a) c; G<uint16>(b) d; };")
	add("template constants", "enum uint8 E { A, B };\nstruct G<X> { X x; uint8 y if x == X.A; };\nstruct T { G<E> g; };")
	add("enum negative", "enum int8 E { A = -5, B, C = 3 };\nstruct T { E e; E f = E.A; };")
	add("comments", "/** Doc of T. */\nstruct T {\n /** Doc of a. */\n uint8 a; // trailing\n /* plain */ uint8 b;\n};\n/** Doc of E\n * second line */\nenum uint8 E { /** item */ A };")
	add("comment with braces", "/** {{ .x }} %%d %%s */\nstruct T { /** {{end}} */ uint8 a; };")
	add("large numbers", "const uint64 K = 18446744073709551615;\nconst int64 L = -9223372036854775808;\nstruct T { uint64 a : a < K; int64 b = L; };")
	add("hex, octal, binary", "const uint32 A = 0xFFFFFFFF;\nconst uint32 B = 0777;\nconst uint32 C = 0101b;\nstruct T { uint32 a = 0x10; uint32 b = 010; uint32 c = 11b; };")
	add("strings", "const string A = \"a\\\"b\\n\\\\\";\nconst string B = \"\\u0041 \\x42 \\103\";\nstruct T { string s = \"\\t\"; };")
	add("consts of consts", "const uint8 A = 3;\nconst uint8 B = A + 1;\nconst uint32 C = A * B;\nstruct T { uint8 x[B]; uint8 y = A; uint32 z = C; };")
	add("bool consts", "const bool A = true;\nconst bool B = !A || 3 > 2;\nstruct T { bool a = A; uint8 b if B; };")
	add("float consts", "const float32 A = 1.5;\nconst float64 B = 2.0 * 3.0;\nconst float64 D = 1e3;\nstruct T { float32 a = A; float64 b = B; float64 d = D; };")
	add("dynamic bits", "struct T { uint8 n; bit<n> a; int<n + 1> b; bit<3> c; packed bit<n> d[]; optional bit<n> e; };")
	pre := "subtype uint16 W;\nsubtype bool B;\nstruct N { uint8 v; };\nstruct S { uint8 v; W w; uint8 vs[]; N n; function W f() { return w; } function uint32 g() { return v; } };\nstruct Q(S s) { uint8 a; };\nstruct Q8(uint8 s) { uint8 a; };\n" +
		"choice CC(uint8 s) on s { case 1: uint8 x; case 2: S y; };\nunion UU { uint8 x; S y; };\nsubtype S SS;\nbitmask uint8 M { X, Y };\nenum uint8 E { A, C };\nstruct G<X> { X x; X y[]; };\ninstantiate G<uint8> GI;\n"
	for _, e := range []string{"ws[0] + 1 == 3", "bs[1]", "bb", "bs[0] && !bb", "ss[0].v == 2", "sss[0].w > 2", "es[0] == E.A", "ss[1].f() > 3", "ss[0].vs[1] == 3", "lengthof(ss[0].vs) == 3", "valueof(es[0]) == 3",
		"isset(ms[0], M.X)", "ss[ws[0]].v == 3", "us[0] == \"x\"", "xs[0] > 1.5", "ss[0].n.v > 3", "cc.x == 1", "cc.y.v == 1", "uu.x == 1", "uu.y.w == 1", "uus[1].y.v == 1", "ccs[1].y.n.v == 1", "gi.x == 1", "gw.y[0] == 1", "gs.x.v == 1",
		"gs.y[1].v == 1", "gss[0].y[1].n.v == 1", "ss[1].f() + 3 > ss[0].g()", "ss[0].g() + s.f() * s.v == 3", "s.g() == ss[0].v", "-s.f() > -3", "s.v > 300", "s.g() << 3 == 8"} {
		add("member of "+e, "%sstruct T { W ws[]; B bs[]; bool bs2[]; S s; S ss[]; SS sss[]; E es[]; M ms[]; string us[]; float32 xs[]; B bb; UU uu; UU uus[]; uint8 sel; CC(sel) cc; CC(sel) ccs[2]; GI gi; G<W> gw; G<S> gs; G<S> gss[]; uint8 r if %s; function bool fn() { return %s; } };", pre, e, e)
	}
	for _, f := range []string{"Q(ss[0]) q;", "bit<ws[0]> q;", "uint8 q[ss[0].v];", "Q(ss[@index]) q[];", "Q8(ss[@index].v) q[];", "Q8(ss[@index].n.v + 1) q[3];", "int<ss[0].n.v> q[];", "uint8 q[ss[0].f() + s.g()];", "CC(ss[0].v) q;", "CC(s.v + 1) q[];"} {
		add("member for "+f, "%sstruct T { W ws[]; S s; S ss[]; %s };", pre, f)
	}
	for _, e := range []string{"a > -3", "a > 300", "256 > a", "a == 255", "i == 200", "i == -200", "q > -3", "a - 300 < 0", "a + -3 < 0", "(a | 256) == 256", "(a & 0x1FF) == b", "w + 70000 > 3", "t * 1000 > 20", "(a + 1) > (300)", "a * 256 + b == 3", "256 * a + w == i", "v > 70000"} {
		add("numeral too large in "+e, "subtype uint16 W;\nstruct T { uint8 a; uint8 b; int8 i; uint64 q; W w; bit:3 t; varuint16 v; uint8 r if %s; function bool f() { return %s; } };", e, e)
	}
	add("numeral too large in lengths", "struct P(uint16 n) { uint8 x; };\nstruct T { uint8 a; uint8 b; uint8 c[a * 256 + b]; uint8 d[a + 300]; bit<a * 256 + b> e; P(a * 256 + b) f; function uint16 n() { return a * 256 + b; } };")
	add("length expression", "struct T { uint8 a; uint8 b; uint8 c[a * 2 + b]; uint8 d[a > b ? a : b]; };")
	add("complex condition", "struct T { uint8 a; bool b; uint8 c if a > 1 && (b || a == 3); uint16 d[] if !b; };")
	add("union in array", "%sstruct T { U u[]; packed U p[]; optional U o; };", decls)
	add("all optional", "%sstruct T { optional uint8 a; optional string b; optional S s; optional E e; optional M m; optional U u; optional bool c; optional float32 f; optional bit:5 g; optional varint h; };", decls)
	add("use of optional", "struct T { optional uint8 a; uint8 b if a == 3; };")
	add("packed struct", "packed struct T { uint8 a; string b; };\nstruct V { T t[]; packed T u[]; };")
	add("private struct fields", "struct T { uint8 a_; uint8 _b; uint8 c1; uint8 C2; };")
	return out
}

type generated struct {
	c     construct
	sql   bool
	files map[string]string
	err   string
}

// generate runs the built generator over one construct, into files.
func (w *World) generateConstruct(dir string, k construct, sql bool) generated {
	g := generated{c: k, sql: sql, files: map[string]string{}}
	src := filepath.Join(dir, "k.zs")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		g.err = err.Error()
		return g
	}
	if err := os.WriteFile(src, []byte(k.body), 0o644); err != nil {
		g.err = err.Error()
		return g
	}
	srcs := []string{src}
	if k.lib != "" {
		srcs = append(srcs, filepath.Join(dir, "lib.zs"))
		if err := os.WriteFile(srcs[1], []byte(k.lib), 0o644); err != nil {
			g.err = err.Error()
			return g
		}
	}
	out := filepath.Join(dir, "out")
	args := []string{"generate", "--out", out, "--rootpackage", "gen/k"}
	if sql {
		args = append(args, "--sql")
	}
	var ob bytes.Buffer
	msg, err := run(dir, append(os.Environ(), "GOFLAGS="), &ob, filepath.Join(w.Scratch, "go-zserio"), append(args, srcs...)...)
	if err != nil {
		g.err = fmt.Sprintf("%v: %s", err, strings.TrimSpace(msg))
	}
	g.files = goFiles(out)
	return g
}

// goFiles are the Go files of a directory.
func goFiles(out string) map[string]string {
	files := map[string]string{}
	_ = filepath.Walk(out, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			if b, err := os.ReadFile(p); err == nil {
				r, _ := filepath.Rel(out, p)
				files[r] = string(b)
			}
		}
		return nil
	})
	return files
}

// known resolves imports among the packages loaded already.
type known map[string]*types.Package

func (k known) Import(path string) (*types.Package, error) {
	if p := k[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("%s is not there", path)
}

func (w *World) loadedTypes() known {
	k := known{"unsafe": types.Unsafe}
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		if p.Types != nil {
			k[p.PkgPath] = p.Types
		}
		for _, q := range p.Imports {
			visit(q)
		}
	}
	for _, p := range w.Pkgs {
		visit(p)
	}
	for _, p := range w.Gen {
		visit(p)
	}
	return k
}

// unit type-checks the packages of a set of files, each directory being one.
type unit struct {
	root  string
	base  known
	dirs  map[string][]string
	files map[string]string
	done  map[string]*types.Package
	errs  []error
}

func (u *unit) Import(path string) (*types.Package, error) {
	if d, ok := strings.CutPrefix(path, u.root+"/"); ok && u.dirs[d] != nil {
		return u.check(d), nil
	}
	return u.base.Import(path)
}

func (u *unit) check(dir string) *types.Package {
	if p, ok := u.done[dir]; ok {
		return p
	}
	u.done[dir] = nil
	fset := token.NewFileSet()
	var parsed []*ast.File
	for _, n := range u.dirs[dir] {
		f, err := parser.ParseFile(fset, n, u.files[n], parser.ParseComments)
		if err != nil {
			u.errs = append(u.errs, err)
			continue
		}
		parsed = append(parsed, f)
	}
	conf := types.Config{Importer: u, Error: func(err error) { u.errs = append(u.errs, err) }}
	p, _ := conf.Check(u.root+"/"+dir, fset, parsed, nil)
	u.done[dir] = p
	return p
}

// typeCheck type-checks the packages whose files are given.
func typeCheck(root string, files map[string]string, imp known) []error {
	u := &unit{root: root, base: imp, files: files, dirs: map[string][]string{}, done: map[string]*types.Package{}}
	for _, n := range sortedKeys(files) {
		d := filepath.ToSlash(filepath.Dir(n))
		u.dirs[d] = append(u.dirs[d], n)
	}
	for _, d := range sortedKeys(u.dirs) {
		u.check(d)
	}
	return u.errs
}

var placeholders = []string{"<no value>", "%!", "TODO", "FIXME", "XXX", "not implemented", "unimplemented", "PLACEHOLDER", "<nil>"}

func placeholderIn(text string) string {
	for _, l := range strings.Split(text, "\n") {
		for _, p := range placeholders {
			if strings.Contains(strings.ToLower(l), strings.ToLower(p)) {
				return strings.TrimSpace(l)
			}
		}
	}
	return ""
}

func shortSet(e corpusEntry) string {
	b := filepath.Base(e.files[0])
	if len(e.files) > 1 {
		b = filepath.Base(filepath.Dir(e.files[0])) + "/" + b
	}
	return b
}

// refusedConstructs are the constructs that go-zserio does not support, or that
// are no zserio.
//
//go:embed refused.txt
var refusedConstructs string

// errorLine: what a run that failed says about it.
func errorLine(msg string) string {
	for _, l := range strings.Split(msg, "\n") {
		if strings.HasPrefix(l, "Error: ") || strings.HasPrefix(l, "panic: ") {
			return l
		}
	}
	return msg[max(0, len(msg)-160):]
}

func runC16(c *Ctx) error {
	w := c.World
	c.Rule("type-checks", "the code generated for a construct the generator accepts type-checks", 3000)
	c.Rule("accepted", "the constructs the language is made of are accepted", 3000)
	c.Rule("no-placeholder", "the generated text has no placeholder", 3000)
	c.Rule("operations", "every generated type has the operations of the runtime", 800)
	ks := constructs()
	var results []generated
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, k := range ks {
		for _, sql := range []bool{false, true} {
			if sql && strings.HasPrefix(k.name, "(") {
				continue // SQL support concerns declarations only
			}
			wg.Add(1)
			go func(i int, k construct, sql bool) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				g := w.generateConstruct(filepath.Join(w.Scratch, "constructs", fmt.Sprintf("%d-%v", i, sql)), k, sql)
				mu.Lock()
				results = append(results, g)
				mu.Unlock()
			}(i, k, sql)
		}
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool {
		if results[i].c.name != results[j].c.name {
			return results[i].c.name < results[j].c.name
		}
		return !results[i].sql && results[j].sql
	})
	imp := w.loadedTypes()
	refused := 0
	unsupported := map[string]bool{}
	for _, l := range strings.Split(refusedConstructs, "\n") {
		unsupported[l] = true
	}
	judge := func(key, what, root string, files map[string]string) {
		errs := typeCheck(root, files, imp)
		msg := ""
		if len(errs) > 0 {
			msg = errs[0].Error()
		}
		c.Check(len(errs) == 0, "type-checks", key, "internal/generator", "%s does not compile: %s", what, msg)
		ph := ""
		for _, n := range sortedKeys(files) {
			if p := placeholderIn(files[n]); p != "" {
				ph = p
			}
		}
		c.Check(ph == "", "no-placeholder", key, "internal/generator", "%s has a placeholder: %s", what, ph)
	}
	for _, g := range results {
		key := g.c.name
		if g.sql {
			key += " (sql)"
		}
		if g.err != "" {
			refused++
			if os.Getenv("ZSV_DEBUG") != "" {
				fmt.Println("REFUSED", key, "|", errorLine(g.err))
			}
			if !unsupported[g.c.name] {
				c.Bad("accepted", key, "internal", "%q is refused: %s", strings.TrimPrefix(g.c.body, "package k;\n"), errorLine(g.err))
			}
			continue
		}
		c.OK("accepted", key)
		judge(key, fmt.Sprintf("the code generated for %q", strings.TrimPrefix(g.c.body, "package k;\n")), "gen/k", g.files)
	}
	c.Count("constructs", len(results))
	c.Count("constructs_refused", refused)

	// the corpus, one file per declaration
	entries, err := w.corpus()
	if err != nil {
		return err
	}
	sets := map[string]corpusEntry{}
	for _, e := range entries {
		sets[strings.Join(e.files, " ")] = e
	}
	bin := filepath.Join(w.Scratch, "go-zserio")
	for i, set := range sortedKeys(sets) {
		e := sets[set]
		for _, sql := range []bool{false, true} {
			key := "files of " + shortSet(e)
			out := filepath.Join(w.Scratch, "constructs", fmt.Sprintf("set%d-%v", i, sql))
			args := []string{"generate", "--out", out, "--rootpackage", e.root}
			if sql {
				args, key = append(args, "--sql"), key+" (sql)"
			}
			if msg, err := run(w.Repo, os.Environ(), nil, bin, append(args, e.files...)...); err != nil {
				if os.Getenv("ZSV_DEBUG") != "" {
					fmt.Println("REFUSED", key, "|", msg[max(0, len(msg)-160):])
				}
				refused++
				c.Bad("accepted", key, "internal", "%s are refused: %s", key, errorLine(msg))
				continue
			}
			judge(key, "the code generated for "+strings.TrimPrefix(key, "files of "), e.root, goFiles(out))
		}
	}

	// operations
	root := w.Pkgs[modPath]
	if root == nil {
		return fmt.Errorf("no runtime package")
	}
	ifaces := map[string]*types.Interface{}
	for _, n := range []string{"Marshaler", "Unmarshaler", "PackableMarshaler", "PackableUnmarshaler"} {
		o := root.Types.Scope().Lookup(n)
		if o == nil {
			return fmt.Errorf("no interface %s", n)
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			return fmt.Errorf("%s is no interface", n)
		}
		ifaces[n] = it
	}
	for _, z := range c.schemaPkgs() {
		for _, d := range z.p.decls {
			switch d.kind {
			case "struct", "union", "choice", "enum", "bitmask":
			default:
				continue
			}
			if len(d.tparams) > 0 {
				continue
			}
			o := z.goType(d.name)
			if o == nil {
				continue
			}
			for _, n := range sortedKeys(ifaces) {
				key := short2(z.path) + "." + d.name + " " + n
				m, _ := types.MissingMethod(types.NewPointer(o), ifaces[n], true)
				if m == nil {
					c.OK("operations", key)
					continue
				}
				c.Bad("operations", key, "internal/generator", "the %s %s has no usable operation %s", d.kind, d.name, m.Name())
			}
		}
	}
	return nil
}
