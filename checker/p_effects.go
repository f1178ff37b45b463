package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C20", Gen: true, Explain: "Interprocedural mod-ref analysis of the runtime library and the generated corpus: every write is attributed to the parameters, package-level variables and allocations its address may be reached from. Outside initialisation no write may be attributed to a package-level variable, and no function may hand out a reference to memory of one.", Run: runC20})
	register(&Property{ID: "C21", Gen: true, Explain: "The same mod-ref analysis: what encoding, sizing and context initialisation may write through their receiver must be fields that hold the parameters of parameterised members.", Run: runC21})
}

func (c *Ctx) effects() *modref {
	w := c.World
	if w.mod == nil {
		w.mod = newModref(w, append(w.FnsIn("", "zstream", "ztype"), w.GenFns...))
		w.mod.solve()
	}
	return w.mod
}

func isInit(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil && isInit(f.Parent())
}

func runC20(c *Ctx) error {
	w := c.World
	m := c.effects()
	c.Rule("no-global-write", "no function writes to memory reached from a package-level variable after initialisation", 500)
	c.Rule("no-global-handed-out", "no function hands out a reference to memory of a package-level variable that its caller could write", 500)
	for _, f := range m.fns {
		if isInit(f) || len(f.Blocks) == 0 {
			continue
		}
		own := 0
		for _, x := range m.writesTo(f, func(r root) bool { return r.kind == rGlobal }) {
			if x.s.in.Parent() != f && m.in[x.s.in.Parent()] {
				continue // reported where it is written
			}
			own++
			c.Bad("no-global-write", short(f)+" -> "+x.r.at.Name(), w.relPos(x.s.in.Pos()), "%s to memory of %s, which all goroutines share", x.s.how, x.r)
		}
		if own == 0 {
			c.OK("no-global-write", short(f))
		}
		bad := false
		for i, rs := range m.sums[f].rets {
			t := f.Signature.Results().At(i).Type()
			if isErrorType(t) {
				continue
			}
			for r := range rs {
				if r.kind == rGlobal && handsOut(t) && !errorVar(r) {
					bad = true
					c.Bad("no-global-handed-out", short(f)+" -> "+r.at.Name(), w.relPos(f.Pos()), "returns a reference to memory of %s", r)
				}
			}
		}
		if !bad && f.Object() != nil && f.Object().Exported() {
			c.OK("no-global-handed-out", short(f))
		}
	}
	return nil
}

func errorVar(r root) bool {
	p, ok := r.at.Type().(*types.Pointer)
	return ok && isErrorType(p.Elem())
}

// handsOut: the type lets its holder write.
func handsOut(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if handsOut(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

var encoders = map[string]bool{"MarshalZserio": true, "MarshalZserioPacked": true, "ZserioBitSize": true, "ZserioBitSizePacked": true, "ZserioInitPackingContext": true, "ZserioCreatePackingContext": true}

func runC21(c *Ctx) error {
	w := c.World
	m := c.effects()
	c.Rule("receiver-unchanged", "encoding and sizing write nothing reached from the value but parameters of its members", 300)
	c.Rule("elements-unchanged", "the array runtime writes nothing reached from the elements but what their own operations write", 30)
	params := map[*types.Var]bool{}
	sps := c.schemaPkgs()
	tmpl := map[string][]*zfield{}
	for _, s := range sps {
		for _, p := range s.z.pkgs {
			for _, d := range p.decls {
				if len(d.tparams) > 0 {
					tmpl[normName(d.name)] = d.params
				}
			}
		}
		for _, d := range s.p.decls {
			if len(d.tparams) == 0 {
				paramFields(s.goType(d.name), d.params, params)
			}
		}
	}
	for _, s := range sps {
		for _, d := range s.p.decls {
			if d.kind == "instantiate" && d.typ != nil {
				n := d.typ.name
				paramFields(s.goType(d.name), tmpl[normName(n[strings.LastIndex(n, ".")+1:])], params)
			}
		}
		sc := s.pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || s.p.byName[n] != nil {
				continue
			}
			// the name of an instantiation begins with that of the template
			for t, ps := range tmpl {
				if strings.HasPrefix(normName(n), t) {
					paramFields(nm, ps, params)
				}
			}
		}
	}
	c.Count("parameter_fields", len(params))
	allowed := func(s site) bool {
		st, ok := s.in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		p, ok := fa.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		sv, ok := p.Elem().Underlying().(*types.Struct)
		return ok && params[sv.Field(fa.Field)]
	}
	for _, f := range m.fns {
		if len(f.Blocks) == 0 || f.Signature.Recv() == nil {
			continue
		}
		gen := strings.HasPrefix(fnPkg(f).Path(), "gen/")
		rule := "receiver-unchanged"
		check := map[int]bool{0: true}
		if gen {
			if !encoders[f.Name()] {
				continue
			}
		} else {
			// operations on elements, in the array runtime: whatever is
			// handed to them as elements
			rule = "elements-unchanged"
			check = map[int]bool{}
			n := f.Name()
			if !encoders[n] && n != "Write" && n != "BitSizeOf" && n != "InitContext" && n != "Init" && n != "AsUint64" && n != "ToUint64" && n != "FromUint64" {
				continue
			}
			for i := 1; i < len(f.Params); i++ {
				t := f.Params[i].Type()
				if isStreamOrContext(t) {
					continue
				}
				check[i] = true
			}
			if len(check) == 0 {
				continue
			}
		}
		bad := 0
		for _, x := range m.writesTo(f, func(r root) bool { return r.kind == rParam && check[r.n] }) {
			if allowed(x.s) {
				continue
			}
			if p := x.s.in.Parent(); p != f && m.in[p] && strings.HasPrefix(fnPkg(p).Path(), "gen/") && encoders[p.Name()] {
				continue // reported there
			}
			bad++
			c.Bad(rule, short(f)+" -> "+w.relPos(x.s.in.Pos()), w.relPos(x.s.in.Pos()), "%s changes (%s) what %s of %s leads to", short(f), x.s.how, x.r, short(f))
		}
		if bad == 0 {
			c.OK(rule, short(f))
		}
	}
	return nil
}

func isStreamOrContext(t types.Type) bool {
	s := types.TypeString(t, shortQual)
	return strings.HasSuffix(s, "Writer") || strings.HasSuffix(s, "Reader") || strings.HasSuffix(s, "PackingContextNode") || strings.Contains(s, "Context")
}

func paramFields(n *types.Named, ps []*zfield, out map[*types.Var]bool) {
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, p := range ps {
		for i := 0; i < st.NumFields(); i++ {
			if normName(st.Field(i).Name()) == normName(p.name) {
				out[st.Field(i)] = true
			}
		}
	}
}
