package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// C22, C13 and C26: the constants, tables and functions that are generated
// for enums, bitmasks, constants, functions and default values.

// schemaPkg is a generated package with the schema it was generated from.
type schemaPkg struct {
	path string
	z    *zschema
	p    *zpkg
	pk   *packages.Package
	ssa  *ssa.Package
}

func (c *Ctx) schemaPkgs() []*schemaPkg {
	zs, ps, notes := c.World.loadSchemas()
	for _, n := range notes {
		c.Notes = append(c.Notes, "not read: "+n)
	}
	var out []*schemaPkg
	for _, pk := range c.World.Gen {
		z, p := zs[pk.PkgPath], ps[pk.PkgPath]
		if z == nil || len(pk.Errors) > 0 || pk.Types == nil {
			c.Notes = append(c.Notes, "left out: "+pk.PkgPath)
			continue
		}
		out = append(out, &schemaPkg{pk.PkgPath, z, p, pk, c.World.GenSSA[pk.PkgPath]})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

// goType finds the Go type of a declaration.
func (s *schemaPkg) goType(name string) *types.Named {
	sc := s.pk.Types.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() && normName(n) == normName(name) {
			if nm, ok := tn.Type().(*types.Named); ok {
				return nm
			}
		}
	}
	return nil
}

func sameConst(k cv, v constant.Value) bool {
	switch k.k {
	case 'i':
		i, ok := constant.Int64Val(constant.ToInt(v))
		return ok && v.Kind() != constant.String && v.Kind() != constant.Bool && i == k.i
	case 'b':
		return v.Kind() == constant.Bool && constant.BoolVal(v) == k.b
	case 's':
		return v.Kind() == constant.String && constant.StringVal(v) == k.s
	}
	return false
}

func (k cv) String() string {
	switch k.k {
	case 'i':
		return fmt.Sprint(k.i)
	case 'b':
		return fmt.Sprint(k.b)
	case 's':
		return strconv.Quote(k.s)
	}
	return "?" + k.s
}

// itemConsts checks the constants generated for the items of an enum or
// bitmask; it returns them in order.
func (c *Ctx) itemConsts(rule string, s *schemaPkg, d *zdecl, n *types.Named) []*types.Const {
	var vals []int64
	name := short2(s.path) + "." + d.name
	if !try(func() { vals = s.z.items(d) }) {
		c.undecided(name, fmt.Errorf("the values of its items"))
		return nil
	}
	byNorm := map[string]*types.Const{}
	total := 0
	sc := s.pk.Types.Scope()
	for _, nm := range sc.Names() {
		if k, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), n) && !s.declared(nm) {
			byNorm[normName(nm)] = k
			total++
		}
	}
	loc := fmt.Sprintf("%s:%d", s.p.file, d.line)
	var out []*types.Const
	for i, it := range d.items {
		k := byNorm[normName(d.name+it.name)]
		key := name + "." + it.name
		if k == nil {
			c.Bad(rule, key, loc, "no constant of type %s is generated for item %s", n.Obj().Name(), it.name)
			out = append(out, nil)
			continue
		}
		out = append(out, k)
		c.Check(sameConst(cv{k: 'i', i: vals[i]}, k.Val()), rule, key, loc, "the schema gives %s the value %d, the generated constant %s is %s", it.name, vals[i], k.Name(), k.Val())
	}
	if total > len(d.items) {
		c.Bad(rule, name, loc, "%d constants are generated for %d items", total, len(d.items))
	}
	return out
}

// declared: a Go constant that stands for a constant of the schema.
func (s *schemaPkg) declared(goName string) bool {
	for _, d := range s.p.decls {
		if d.kind == "const" && normName(d.name) == normName(goName) {
			return true
		}
	}
	return false
}

func init() {
	register(&Property{ID: "C22", Gen: true, Explain: "constants and lookup tables of every generated enum and bitmask, compared with an independent evaluation of the schema; the conversion functions are matched as table lookups", Run: runC22})
	register(&Property{ID: "C13", Gen: true, Explain: "constants, item values and functions generated for expressions with every operator and every pair of operators, compared with an independent parser and evaluator of the schema; the evaluator's operator table", Run: runC13})
	register(&Property{ID: "C26", Gen: true, Explain: "constants and default values of every generated package, compared with an independent reading of the schema", Run: runC26})
}

// --- enums

// tableStores lists what the package initialisation puts into the composite
// value of a global, and the functions that change it later.
type table struct {
	g    *ssa.Global
	keys []ssa.Value // maps
	vals []ssa.Value
	bad  string
}

func constOf(v ssa.Value) constant.Value {
	for {
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// readTable reads the contents a global map or slice is initialised with.
func (c *Ctx) readTable(pk *ssa.Package, g *ssa.Global) *table {
	t := &table{g: g}
	in := pk.Func("init")
	if in == nil {
		t.bad = "no initialisation"
		return t
	}
	var src ssa.Value
	n := 0
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				src = st.Val
				n++
			}
		}
	}
	if n != 1 {
		t.bad = fmt.Sprintf("set %d times by the initialisation", n)
		return t
	}
	switch m := src.(type) {
	case *ssa.MakeMap:
		for _, r := range *m.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				if u.Map == ssa.Value(m) {
					t.keys = append(t.keys, u.Key)
					t.vals = append(t.vals, u.Value)
				}
			case *ssa.Store, *ssa.DebugRef:
			default:
				t.bad = "used otherwise in the initialisation"
			}
		}
	case *ssa.Slice:
		al, ok := m.X.(*ssa.Alloc)
		if !ok || m.Low != nil || m.High != nil {
			t.bad = "no literal"
			return t
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			t.bad = "no literal"
			return t
		}
		t.vals = make([]ssa.Value, at.Len())
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ix := constOf(ia.Index)
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && ix != nil {
					if k, ok := constant.Int64Val(ix); ok && k < int64(len(t.vals)) {
						t.vals[k] = st.Val
					}
				}
			}
		}
	default:
		t.bad = "no literal"
	}
	return t
}

// writes finds functions, other than the initialisation, that may change a
// global or what it holds.
func (c *Ctx) globalUses(g *ssa.Global) (reads []*ssa.UnOp, bad string) {
	w := c.World
	if w.globalRefs == nil {
		w.globalRefs = map[*ssa.Global][]ssa.Instruction{}
		for _, fn := range w.GenFns {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							w.globalRefs[g] = append(w.globalRefs[g], i)
						}
					}
				}
			}
		}
	}
	for _, i := range w.globalRefs[g] {
		switch u := i.(type) {
		case *ssa.UnOp:
			reads = append(reads, u)
		case *ssa.DebugRef:
		default:
			bad = fmt.Sprintf("%s: changed after the initialisation", w.relPos(i.Pos()))
		}
	}
	return
}

// onlyRead: the container in v is only looked at; nothing is stored through
// it and it does not leave the function.
func onlyRead(w *World, v ssa.Value) string {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Index:
		case *ssa.IndexAddr:
			for _, r2 := range *u.Referrers() {
				if _, ok := r2.(*ssa.UnOp); !ok {
					return w.relPos(r2.Pos())
				}
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "copy" && len(u.Call.Args) == 2 && u.Call.Args[1] == v && u.Call.Args[0] != v ||
					b.Name() == "append" && len(u.Call.Args) == 2 && u.Call.Args[1] == v && u.Call.Args[0] != v {
					continue
				}
			}
			return w.relPos(u.Pos())
		default:
			return w.relPos(r.Pos())
		}
	}
	return ""
}

func runC22(c *Ctx) error {
	c.Rule("item-value", "the constant generated for every item has the value the schema gives the item", 40)
	c.Rule("tables", "the tables of names and values hold each item once, under its own name and value", 20)
	c.Rule("tables-constant", "nothing writes to the tables after initialisation or hands them out", 20)
	c.Rule("name-of-value", "String gives a declared value the name its table holds, and others a name that is none of them", 10)
	c.Rule("value-of-name", "the conversion from names returns the table's value, and an error for names that are not in it", 10)
	for _, s := range c.schemaPkgs() {
		for _, d := range s.p.decls {
			if d.kind != "enum" && d.kind != "bitmask" {
				continue
			}
			name := short2(s.path) + "." + d.name
			n := s.goType(d.name)
			if n == nil {
				c.Bad("item-value", name, fmt.Sprintf("%s:%d", s.p.file, d.line), "no type is generated for %s", d.name)
				continue
			}
			ks := c.itemConsts("item-value", s, d, n)
			if d.kind == "enum" && ks != nil && s.ssa != nil {
				c.enumTables(s, d, n, ks, name)
			}
		}
	}
	return nil
}

func (c *Ctx) enumTables(s *schemaPkg, d *zdecl, n *types.Named, ks []*types.Const, name string) {
	w := c.World
	isT := func(t types.Type) bool { return types.Identical(t, n) }
	isS := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	vals := map[int64]string{}
	for i, k := range ks {
		if k == nil {
			return
		}
		v, _ := constant.Int64Val(constant.ToInt(k.Val()))
		vals[v] = d.items[i].name
	}
	tabs := map[*ssa.Global]string{}
	var gs []*ssa.Global
	for _, m := range s.ssa.Members {
		if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(normName(strings.TrimLeft(g.Name(), "_")), normName(n.Obj().Name())) {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		t := deref(g.Type()).Underlying()
		key := name + "." + g.Name()
		loc := w.relPos(g.Pos())
		kind := ""
		switch u := t.(type) {
		case *types.Map:
			if isT(u.Key()) && isS(u.Elem()) {
				kind = "name"
			} else if isS(u.Key()) && isT(u.Elem()) {
				kind = "value"
			}
		case *types.Slice:
			if isT(u.Elem()) {
				kind = "values"
			} else if isS(u.Elem()) && strings.HasPrefix(g.Name(), "_"+n.Obj().Name()+"N") {
				kind = "names"
			}
		}
		if kind == "" {
			continue
		}
		tb := c.readTable(s.ssa, g)
		if tb.bad != "" {
			c.undecided(key, fmt.Errorf("%s", tb.bad))
			continue
		}
		tabs[g] = kind
		bad := ""
		if len(tb.vals) != len(d.items) {
			bad = fmt.Sprintf("%d entries for %d items", len(tb.vals), len(d.items))
		}
		seen := map[string]bool{}
		for i := range tb.vals {
			if bad != "" {
				break
			}
			str := func(v ssa.Value) string {
				if k := constOf(v); k != nil && k.Kind() == constant.String {
					return constant.StringVal(k)
				}
				return "?"
			}
			of := func(v ssa.Value) string {
				if k := constOf(v); k != nil {
					if i, ok := constant.Int64Val(constant.ToInt(k)); ok {
						if nm, ok := vals[i]; ok {
							return nm
						}
					}
				}
				return "??"
			}
			var a, b string
			switch kind {
			case "name":
				a, b = of(tb.keys[i]), str(tb.vals[i])
			case "value":
				a, b = of(tb.vals[i]), str(tb.keys[i])
			case "values":
				a, b = of(tb.vals[i]), d.items[i].name
			case "names":
				a, b = str(tb.vals[i]), d.items[i].name
			}
			// the generator writes names with a capital first letter
			if !sameName(a, b) || seen[a] {
				bad = fmt.Sprintf("entry %d pairs %s with %s", i, a, b)
			}
			seen[a] = true
		}
		c.Check(bad == "", "tables", key, loc, "%s: %s", g.Name(), bad)
		reads, why := c.globalUses(g)
		for _, r := range reads {
			if why == "" {
				if p := onlyRead(w, r); p != "" {
					why = p + ": handed out or written to"
				}
			}
		}
		c.Check(why == "", "tables-constant", key, loc, "%s: %s", g.Name(), why)
	}
	// the conversions
	sel := w.Prog.MethodSets.MethodSet(n).Lookup(n.Obj().Pkg(), "String")
	if sel != nil {
		fn := w.Prog.MethodValue(sel)
		why, err := lookupFn(fn, fn.Params[0], "name", tabs)
		if err != nil {
			c.undecided(name+".String", err)
		} else {
			c.Check(why == "", "name-of-value", name+".String", w.relPos(fn.Pos()), "%s", why)
		}
	}
	for _, m := range s.ssa.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || len(fn.Params) != 1 || !isS(fn.Params[0].Type()) || fn.Signature.Results().Len() != 2 || !isT(fn.Signature.Results().At(0).Type()) || len(fn.Blocks) == 0 {
			continue
		}
		why, err := lookupFn(fn, fn.Params[0], "value", tabs)
		key := name + "." + fn.Name()
		if err != nil {
			c.undecided(key, err)
		} else {
			c.Check(why == "", "value-of-name", key, w.relPos(fn.Pos()), "%s", why)
		}
	}
}

func sameName(a, b string) bool {
	return a == b || len(a) == len(b) && a != "" && strings.EqualFold(a[:1], b[:1]) && a[1:] == b[1:]
}

// lookupFn decides whether a function returns what the table holds for its
// argument, and something else if it holds nothing.
func lookupFn(fn *ssa.Function, arg ssa.Value, kind string, tabs map[*ssa.Global]string) (string, error) {
	var lk *ssa.Lookup
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if l, ok := i.(*ssa.Lookup); ok {
				if lk != nil {
					return "", fmt.Errorf("several lookups")
				}
				lk = l
			}
		}
	}
	if lk == nil || !lk.CommaOk {
		return "", fmt.Errorf("no lookup")
	}
	u, ok := lk.X.(*ssa.UnOp)
	if !ok {
		return "", fmt.Errorf("no table")
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return "", fmt.Errorf("no table")
	}
	if tabs[g] != kind {
		return fmt.Sprintf("looks its argument up in %s, which is not the table of its type", g.Name()), nil
	}
	if lk.Index != arg {
		return "the lookup is not for the argument", nil
	}
	// every return: under found, the entry; otherwise an error or no entry
	var val, found ssa.Value
	for _, r := range *lk.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			if e.Index == 0 {
				val = e
			} else {
				found = e
			}
		}
	}
	rets := 0
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		rets++
		st := edgeState(b, found)
		hit := ret.Results[0] == val
		isNil := len(ret.Results) < 2 || isNilConst(ret.Results[1])
		switch st {
		case 1:
			if !hit || !isNil {
				return "does not return the entry that was found", nil
			}
		case 0:
			if hit && isNil {
				return "returns an entry although none was found", nil
			}
			if len(ret.Results) == 2 && isNil {
				return "an unknown name is no error", nil
			}
		default:
			return "", fmt.Errorf("a return that does not depend on the lookup")
		}
	}
	return "", nil
}

// edgeState is 1 if b is only reached with cond true, 0 if false, -1 else.
func edgeState(b *ssa.BasicBlock, cond ssa.Value) int {
	for len(b.Preds) == 1 {
		p := b.Preds[0]
		if f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			k, neg := f.Cond, false
			for {
				if u, ok := k.(*ssa.UnOp); ok && u.Op.String() == "!" {
					k, neg = u.X, !neg
					continue
				}
				break
			}
			if k == cond {
				if (p.Succs[0] == b) != neg {
					return 1
				}
				return 0
			}
		}
		b = p
	}
	return -1
}

// --- expressions

// constDecls checks the constants of a package.
func (c *Ctx) constDecls(rule string, s *schemaPkg) {
	sc := s.pk.Types.Scope()
	by := map[string]*types.Const{}
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && s.declared(n) {
			by[normName(n)] = k
		}
	}
	for _, d := range s.p.decls {
		if d.kind != "const" {
			continue
		}
		name := short2(s.path) + "." + d.name
		loc := fmt.Sprintf("%s:%d", s.p.file, d.line)
		k := by[normName(d.name)]
		if k == nil {
			c.Bad(rule, name, loc, "no constant is generated for %s", d.name)
			continue
		}
		var want cv
		if !try(func() { want = (&zscope{z: s.z, pkg: d.pkg}).constant(d.val) }) || want.k == 'f' {
			c.undecided(name, fmt.Errorf("value not known"))
			continue
		}
		c.Check(sameConst(want, k.Val()), rule, name, loc, "the schema gives %s the value %s, the generated constant is %s", d.name, want, k.Val())
	}
}

func runC13(c *Ctx) error {
	c.Rule("emitted-constant", "the constant emitted for an expression has the value of the expression", 100)
	c.Rule("evaluated-item", "the value computed for the expression of an enum or bitmask item is the value of the expression", 60)
	c.Rule("emitted-function", "the function emitted for an expression computes the expression", 100)
	c.Rule("operand-width", "no operand of an emitted expression is cut to fewer bits before it is used", 100)
	params := map[string][]string{}
	byPath := map[string]*genType{}
	for _, g := range c.World.genTypes() {
		byPath[namedStr(g.n)] = g
	}
	for _, s := range c.schemaPkgs() {
		c.constDecls("emitted-constant", s)
		for _, d := range s.p.decls {
			if d.kind == "enum" || d.kind == "bitmask" {
				if n := s.goType(d.name); n != nil {
					c.itemConsts("evaluated-item", s, d, n)
				}
			}
			if len(d.funcs) == 0 || len(d.tparams) > 0 {
				continue
			}
			n := s.goType(d.name)
			if n == nil || byPath[namedStr(n)] == nil {
				continue
			}
			g := byPath[namedStr(n)]
			for _, f := range d.funcs {
				c.function(s, d, g, f, params)
			}
		}
	}
	return nil
}

func (c *Ctx) function(s *schemaPkg, d *zdecl, g *genType, f *zfunc, params map[string][]string) {
	name := g.name + "." + f.name
	loc := fmt.Sprintf("%s:%d", s.p.file, d.line)
	var m string
	for k := range g.fns {
		if normName(k) == normName(f.name) {
			m = k
		}
	}
	if m == "" {
		c.Bad("emitted-function", name, loc, "no method is generated for function %s", f.name)
		return
	}
	loc = c.World.relPos(g.fns[m].Pos())
	cut := narrowed(g.fns[m])
	c.Check(cut == "", "operand-width", name, loc, "%s: %s", name, cut)
	var why string
	err := guarded(func() error {
		ses := newSession(c.World, g, params)
		wc := &wire{s: ses, x: ses.x, w: c.World, z: s.z}
		o, err := ses.sum(m, "v")
		if err != nil {
			return err
		}
		if o.t != "ret" || len(o.rets) != 1 {
			giveUp("several outcomes")
		}
		for _, n := range flat(o) {
			if n.t != "ret" {
				giveUp("effects")
			}
		}
		r := &rtype{decl: d}
		want := wc.eval(r.scope(s.z), ses.v(), g.n, f.body).e
		if want == nil {
			giveUp("no value")
		}
		memo := map[*E]*E{}
		got := wc.strip(o.rets[0], memo)
		want = wc.strip(want, memo)
		rt := g.fns[m].Signature.Results().At(0).Type()
		if cl := kindOf(rt).cls; cl != got.k.cls || cl != want.k.cls || cl != 'i' && cl != 'b' {
			giveUp("result of another kind")
		}
		if got.k.cls == 'i' {
			got, want = ses.x.wide(got), wc.int(want)
		}
		k := &cmp{l: ses.l, x: ses.x, e: ses.e, budget: 4000, same: true}
		if !k.eqUnder(got, want, newEnv(ses.x), 8) {
			why = fmt.Sprintf("computes %s, the schema says %s", got, want)
		}
		return nil
	})
	if err != nil {
		c.undecided(name, err)
		return
	}
	c.Check(why == "", "emitted-function", name, loc, "%s: %s", name, why)
}

func runC26(c *Ctx) error {
	c.Rule("constant", "a constant of the schema is generated with its declared value", 100)
	c.Rule("default", "LoadDefaultValues gives every member with a default exactly that value, descends into nested compounds and leaves every other member alone", 20)
	params := map[string][]string{}
	byPath := map[string]*genType{}
	for _, g := range c.World.genTypes() {
		byPath[namedStr(g.n)] = g
	}
	for _, s := range c.schemaPkgs() {
		c.constDecls("constant", s)
		for _, d := range s.p.decls {
			if d.kind != "struct" || len(d.tparams) > 0 {
				continue
			}
			n := s.goType(d.name)
			if n == nil || byPath[namedStr(n)] == nil {
				continue
			}
			c.defaults(s, d, byPath[namedStr(n)], params)
		}
	}
	return nil
}

// setDefaults lists the locations that the default values of a compound are
// stored to.
func (wc *wire) setDefaults(r *rtype, at *E, gt types.Type, out map[*E]*E, depth int) {
	if depth > 6 || r.decl == nil || r.decl.kind != "struct" {
		return
	}
	x := wc.x
	sc := r.scope(wc.z)
	for _, f := range r.decl.fields {
		if f.optional || f.array {
			continue
		}
		v := goField(gt, f.name)
		if v == nil {
			giveUp("no Go field for %s", f.name)
		}
		p := x.fa(at, v.Name())
		t := sc.resolve(f.typ)
		if f.init != nil {
			var k cv
			k = sc.constant(f.init)
			switch k.k {
			case 'i':
				out[p] = x.int(k.i)
			case 'b':
				out[p] = x.boolc(k.b)
			case 's':
				out[p] = x.constant(constant.MakeString(k.s), types.Typ[types.String])
			default:
				giveUp("default of another kind")
			}
			continue
		}
		if t.decl != nil {
			wc.setDefaults(t, p, v.Type(), out, depth+1)
		}
	}
}

func (c *Ctx) defaults(s *schemaPkg, d *zdecl, g *genType, params map[string][]string) {
	name := g.name
	fn := g.fns["LoadDefaultValues"]
	if fn == nil {
		c.Bad("default", name, fmt.Sprintf("%s:%d", s.p.file, d.line), "no LoadDefaultValues is generated")
		return
	}
	var bad []string
	err := guarded(func() error {
		ses := newSession(c.World, g, params)
		wc := &wire{s: ses, x: ses.x, w: c.World, z: s.z}
		want := map[*E]*E{}
		wc.setDefaults(&rtype{decl: d}, ses.v(), g.n, want, 0)
		o, err := ses.sum("LoadDefaultValues", "v")
		if err != nil {
			return err
		}
		if o.t != "ret" {
			giveUp("several outcomes")
		}
		memo := map[*E]*E{}
		for p, v := range want {
			got := ses.e.look(o.m, p, v.k, nil)
			a, b := wc.strip(got, memo), wc.strip(v, memo)
			if b.k.cls == 'i' {
				a, b = ses.x.wide(a), ses.x.wide(b)
			}
			if a != b {
				bad = append(bad, fmt.Sprintf("%s is set to %s, its default is %s", p, a, b))
			}
		}
		for p, v := range o.m.v {
			if rootOf(p) == ses.v() && want[p] == nil && v != ses.x.ld(p, v.k) {
				bad = append(bad, fmt.Sprintf("%s is set to %s, which the schema does not say", p, v))
			}
		}
		return nil
	})
	if err != nil {
		c.undecided(name, err)
		return
	}
	sort.Strings(bad)
	c.Check(len(bad) == 0, "default", name, c.World.relPos(fn.Pos()), "%s", strings.Join(bad, "; "))
}

// checkCorpus demands that the code every property about generated code is
// decided on is there and can be decided on: a package that is not generated
// any more, or does not compile, would otherwise drop out of sight.
func (c *Ctx) checkCorpus() {
	const rule = "corpus"
	c.Rule(rule, "the schemas of the corpus are generated, and the generated code type-checks", 20)
	for k, msg := range c.World.GenFails {
		c.Bad(rule, k, "internal/generator", "no code is generated for %s any more: %s", k, strings.Join(strings.Fields(msg), " "))
	}
	for _, pk := range c.World.Gen {
		if len(pk.Errors) > 0 {
			c.Bad(rule, short2(pk.PkgPath), "internal/generator", "the code generated for %s does not compile: %v", short2(pk.PkgPath), pk.Errors[0])
			continue
		}
		c.OK(rule, short2(pk.PkgPath))
	}
}

// numWidth is the number of bits that the values of a number type keep, and
// whether it is a floating-point type.
func numWidth(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, false
	case types.Int16, types.Uint16:
		return 16, false
	case types.Int32, types.Uint32:
		return 32, false
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float32:
		return 32, true
	case types.Float64:
		return 64, true
	}
	return 0, false
}

// narrowed reports a conversion in a function that cuts a number to fewer bits
// before an operation or a wider type makes use of it.
func narrowed(fn *ssa.Function) string {
	why := ""
	var uses func(v ssa.Value, seen map[ssa.Value]bool, from, to types.Type)
	uses = func(v ssa.Value, seen map[ssa.Value]bool, from, to types.Type) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.BinOp:
				if (r.Op == token.SHL || r.Op == token.SHR) && r.Y == v && r.X != v {
					continue
				}
				why = fmt.Sprintf("%s is cut to %s before %s", from, to, r.Op)
			case *ssa.UnOp:
				if r.Op != token.MUL {
					why = fmt.Sprintf("%s is cut to %s before %s", from, to, r.Op)
				}
			case *ssa.Convert:
				a, fa := numWidth(to)
				if b, fb := numWidth(r.Type()); fa == fb && b > a {
					why = fmt.Sprintf("%s is cut to %s and then made %s", from, to, r.Type())
				}
			case *ssa.ChangeType:
				uses(r, seen, from, to)
			case *ssa.Phi:
				uses(r, seen, from, to)
			case *ssa.Store:
				if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, l := range *a.Referrers() {
						if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
							uses(u, seen, from, to)
						}
					}
				}
			case *ssa.Return:
				f := r.Parent()
				if f.Parent() == nil {
					continue
				}
				each := func(c ssa.Value) {
					for _, r := range *c.Referrers() {
						if call, ok := r.(*ssa.Call); ok && call.Call.Value == c {
							uses(call, seen, from, to)
						}
					}
				}
				if f.Referrers() != nil {
					each(f)
				}
				for _, b := range f.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
							each(mc)
						}
						if call, ok := in.(*ssa.Call); ok && call.Call.Value == f {
							uses(call, seen, from, to)
						}
					}
				}
			}
		}
	}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := in.(*ssa.Convert); ok {
					a, fa := numWidth(cv.X.Type())
					b, fb := numWidth(cv.Type())
					if a > 0 && b > 0 && (a > b && fa == fb || fa && !fb) {
						if _, isConst := cv.X.(*ssa.Const); !isConst {
							uses(cv, map[ssa.Value]bool{}, cv.X.Type(), cv.Type())
						}
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			walk(g)
		}
	}
	walk(fn)
	return why
}
