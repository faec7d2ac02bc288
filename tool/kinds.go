package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Type classification analysis (C24): the table of built-in types as package initialization leaves it, and the type
// predicates on every kind of type node and on names referring to them directly, through aliases or not at all.

// builtinKinds is the documented classification of the built-in type names.
var builtinKinds = map[string]string{
	"Real48": "real", "Real": "real", "Single": "real", "Double": "real", "Extended": "real", "Currency": "real", "Comp": "real",
	"Integer": "ordinal", "Cardinal": "ordinal", "ShortInt": "ordinal", "SmallInt": "ordinal", "LongInt": "ordinal", "Int64": "ordinal",
	"Byte": "ordinal", "Word": "ordinal", "LongWord": "ordinal", "Char": "ordinal", "AnsiChar": "ordinal", "WideChar": "ordinal", "Boolean": "ordinal",
	"String": "string", "AnsiString": "string", "WideString": "string",
	"Pointer": "pointer", "PChar": "pointer", "PAnsiChar": "pointer", "PWideChar": "pointer",
	"Variant": "variant", "OleVariant": "variant",
}

var kindConst = map[string]string{"real": "EtkReal", "ordinal": "EtkOrdIdent", "string": "EtkStringType", "pointer": "EtkPointerType", "variant": "EtkVariantType"}

// predicate gives the answer of a type predicate for a class of types.
var predicates = map[string]func(class string) bool{
	"IsRealType":    func(c string) bool { return c == "real" },
	"IsOrdinalType": func(c string) bool { return c == "ordinal" || c == "ordinal type" },
	"IsOrdIdent":    func(c string) bool { return c == "ordinal" },
	"IsSimpleType":  func(c string) bool { return c == "real" || c == "ordinal" || c == "ordinal type" },
	"IsStringType":  func(c string) bool { return c == "string" },
	"IsPointerType": func(c string) bool { return c == "pointer" },
	"IsVariantType": func(c string) bool { return c == "variant" },
}

// nodeClass gives the class of the type nodes that are not names.
var nodeClass = map[string]string{
	"EnumeratedType": "ordinal type", "SubrangeType": "ordinal type", "FixedStringType": "string", "CustomPointerType": "pointer",
}

type Kinds struct{ *Classes }

func (x *Kinds) sortedPreds() []string {
	return []string{"IsOrdIdent", "IsOrdinalType", "IsPointerType", "IsRealType", "IsSimpleType", "IsStringType", "IsVariantType"}
}

// ask calls a predicate of v and compares; a type without the method is not of that class.
func (x *Kinds) ask(st *State, v VIface, class, what string) {
	for _, p := range x.sortedPreds() {
		want := predicates[p](class)
		obj, _, _ := types.LookupFieldOrMethod(v.T, true, x.pkgOf(v.T), p)
		mf, ok := obj.(*types.Func)
		if !ok {
			if want {
				x.bad(st, what+" "+p, "%s has no method %s", what, p)
			}
			continue
		}
		fn := x.e.methodOf(v.T, mf)
		if fn == nil {
			x.undecided("kinds: method %s of %s not found", p, v.T)
			continue
		}
		x.callFn(st.clone(), fn, []Val{v.V}, func(s *State, r Val) {
			b, ok := r.(VBool)
			if !ok {
				x.undecided("kinds: %s of %s not followed (%T)", p, what, r)
				return
			}
			if b.B != want {
				x.bad(s, what+" "+p, "%s of %s is %v", p, what, b.B)
			}
		})
	}
}

func (x *Kinds) intConst(n string) (int64, bool) {
	p := x.w.Types[modPath+"/ast"]
	if p == nil {
		return 0, false
	}
	c, ok := p.Scope().Lookup(n).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

// typeOf follows a declaration to the type it declares.
func (x *Kinds) typeOf(st *State, decl Val) (VIface, bool) {
	node := x.fieldOf(st, decl, "Node")
	i, ok := node.(VIface)
	if !ok {
		return VIface{}, false
	}
	v, ok := x.fieldOf(st, i.V, "Type").(VIface)
	return v, ok
}

func (x *Kinds) builtins() {
	var get *ssa.Function
	scope := types.Type(nil)
	if p := x.w.pkg("ast"); p != nil {
		if g, ok := p.Members["EmbeddedTypeDeclMap"].(*ssa.Global); ok {
			scope = g.Type().(*types.Pointer).Elem()
			if pt, ok := under(scope).(*types.Pointer); ok {
				if nt, ok := pt.Elem().(*types.Named); ok {
					scope = nt
					get = x.w.method("ast", nt.Obj().Name(), "Get")
				}
			}
		}
	}
	by := x.w.fn("ast", "EmbeddedTypeDecl")
	names := append([]string{}, sortedKeys(builtinKinds)...)
	for _, n := range names {
		kind := builtinKinds[n]
		for _, sp := range []string{n, strings.ToUpper(n), strings.ToLower(n)} {
			if get != nil {
				st := x.begin("built-in")
				recv := VPtr{O: st.alloc(zero(scope))}
				x.callFn(st, get, []Val{recv, VStr{sp}}, func(s *State, v Val) {
					if isNilVal(unwrap(v)) {
						x.bad(s, n+" missing", "the built-in type %s (written %s) is not known", n, sp)
						return
					}
					x.judge(s, v, n, kind)
				})
			} else {
				x.undecided("kinds: the scope of built-in types is not found")
			}
			if by == nil {
				x.undecided("kinds: EmbeddedTypeDecl not found")
				continue
			}
			for k, c := range kindConst {
				num, ok := x.intConst(c)
				if !ok {
					x.undecided("kinds: constant %s not found", c)
					continue
				}
				x.callFn(x.begin("built-in"), by, []Val{VInt{num}, VStr{sp}}, func(s *State, v Val) {
					switch {
					case k == kind && isNilVal(unwrap(v)):
						x.bad(s, n+" missing "+k, "the built-in type %s (written %s) is not known as a %s type", n, sp, k)
					case k != kind && !isNilVal(unwrap(v)):
						x.bad(s, n+" also "+k, "the built-in %s type %s is also known as a %s type", kind, n, k)
					case k == kind:
						x.judge(s, v, n, kind)
					}
				})
			}
		}
	}
	// no other name is built in: the table has exactly the documented names
	if get != nil {
		for _, n := range []string{"TObject", "Text", "File", "", "Integer2", "Strings", "PInteger"} {
			st := x.begin("built-in")
			recv := VPtr{O: st.alloc(zero(scope))}
			x.callFn(st, get, []Val{recv, VStr{n}}, func(s *State, v Val) {
				if !isNilVal(unwrap(v)) {
					x.bad(s, n+" extra", "%q is known as a built-in type", n)
				}
			})
		}
	}
	x.tables()
	x.constructors()
}

// constructors checks that the functions making a name of a built-in kind refer to the built-in type exactly when the
// name is of that kind.
func (x *Kinds) constructors() {
	for _, c := range [][2]string{{"NewRealType", "real"}, {"NewOrdIdent", "ordinal"}, {"NewStringType", "string"}, {"NewPointerType", "pointer"}, {"NewEmbeddedPointerType", "pointer"}, {"NewVariantType", "variant"}} {
		fn := x.w.fn("ast", c[0])
		if fn == nil {
			continue
		}
		for _, n := range append(sortedKeys(builtinKinds), "TObject") {
			st := x.begin("built-in")
			id := x.mkIdent(st, n)
			x.callFn(st, fn, []Val{id}, func(s *State, v Val) {
				if x.fieldOf(s, v, "Ident") != Val(id) {
					x.bad(s, c[0]+" ident", "%s does not keep the name %s", c[0], n)
				}
				ref := x.fieldOf(s, v, "Ref")
				if builtinKinds[n] == c[1] {
					if isNilVal(unwrap(ref)) {
						x.bad(s, c[0]+" "+n, "%s of %s does not refer to the built-in type", c[0], n)
						return
					}
					x.judge(s, ref, n, c[1])
				} else if !isNilVal(unwrap(ref)) {
					x.bad(s, c[0]+" "+n, "%s of %s refers to a built-in type", c[0], n)
				}
			})
		}
	}
}

// tables checks the keys of the built-in tables after initialization.
func (x *Kinds) tables() {
	p := x.w.pkg("ast")
	if p == nil {
		return
	}
	upper := map[string]bool{}
	for n := range builtinKinds {
		upper[strings.ToLower(n)] = true
	}
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := under(g.Type().(*types.Pointer).Elem()).(*types.Map)
		if !ok || types.TypeString(mt.Elem(), nil) != "*"+modPath+"/ast/astcore.Decl" || !isStringT(mt.Key()) {
			continue
		}
		o, ok := x.e.globals[g]
		if !ok {
			continue
		}
		st := x.begin("built-in")
		v, _ := x.e.content(st, o).(VMap)
		mc, ok := x.e.content(st, v.O).(*VMapC)
		if !ok {
			continue
		}
		for _, ent := range mc.E {
			if k, ok := ent.K.(VStr); ok && !upper[strings.ToLower(k.S)] {
				x.add("built-in", k.S+" extra", x.w.posStr(g.Pos()), "%q is known as a built-in type", k.S)
			}
		}
	}
}

func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// judge checks the declaration of a built-in type: its own name and its classification.
func (x *Kinds) judge(st *State, decl Val, name, kind string) {
	id := x.fieldOf(st, decl, "Ident")
	if n, ok := x.fieldOf(st, id, "Name").(VStr); !ok || !strings.EqualFold(n.S, name) {
		x.bad(st, name+" name", "the declaration of the built-in type %s has the name of another type", name)
	}
	t, ok := x.typeOf(st, decl)
	if !ok {
		x.bad(st, name+" type", "the declaration of the built-in type %s has no type", name)
		return
	}
	x.ask(st, t, kind, "the built-in type "+name)
}

// target is a type a name can refer to.
type target struct {
	name  string
	class string
	make  func(st *State) VIface
}

func (x *Kinds) targets() []target {
	var ts []target
	te := x.ty("TypeEmbedded")
	if te != nil {
		for _, k := range []string{"real", "ordinal", "string", "pointer", "variant"} {
			k := k
			num, ok := x.intConst(kindConst[k])
			if !ok {
				continue
			}
			ts = append(ts, target{"a built-in " + k + " type", k, func(st *State) VIface {
				return VIface{T: types.NewPointer(te), V: x.mk(st, te, map[string]Val{"Kind": VInt{num}, "Ident": x.mkIdent(st, "T")})}
			}})
		}
	}
	iface := x.ty("Type")
	ti, _ := under(iface).(*types.Interface)
	p := x.w.Types[modPath+"/ast"]
	if ti == nil || p == nil {
		return ts
	}
	for _, n := range p.Scope().Names() {
		tn, ok := p.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || n == "TypeId" || n == "TypeEmbedded" {
			continue
		}
		t := tn.Type()
		if !types.Implements(t, ti) {
			t = types.NewPointer(tn.Type())
			if !types.Implements(t, ti) {
				continue
			}
		}
		tt := tn.Type()
		ptr := t != tt
		class := nodeClass[n]
		if class == "" {
			class = "none"
		}
		fields := typeFields(tt, ti)
		kinds := []string{""}
		if len(fields) > 0 {
			kinds = sortedKeys(kindConst) // the parts of the node are names of built-in types
		}
		for _, k := range kinds {
			k := k
			name := n
			if k != "" {
				name = n + " of a " + k + " type"
			}
			ts = append(ts, target{name, class, func(st *State) VIface {
				if ptr {
					if _, ok := under(tt).(*types.Struct); ok {
						set := map[string]Val{}
						for _, f := range fields {
							part := x.nameOf(st, k)
							if types.IsInterface(f.Type()) {
								set[f.Name()] = part
							} else {
								set[f.Name()] = part.V
							}
						}
						return VIface{T: types.NewPointer(tt), V: x.mk(st, tt, set)}
					}
					return VIface{T: types.NewPointer(tt), V: VPtr{O: st.alloc(zero(tt))}}
				}
				return VIface{T: tt, V: zero(tt)}
			}})
		}
	}
	return ts
}

// typeFields gives the fields of a type node that can hold a type name.
func typeFields(t types.Type, ti *types.Interface) []*types.Var {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil
	}
	var r []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case types.IsInterface(f.Type()) && types.Implements(f.Type(), ti):
			r = append(r, f)
		case strings.HasSuffix(types.TypeString(f.Type(), nil), "/ast.TypeId"):
			r = append(r, f)
		}
	}
	return r
}

// nameOf makes a type name referring to a built-in type of the kind.
func (x *Kinds) nameOf(st *State, kind string) VIface {
	te := x.ty("TypeEmbedded")
	num, _ := x.intConst(kindConst[kind])
	b := VIface{T: types.NewPointer(te), V: x.mk(st, te, map[string]Val{"Kind": VInt{num}, "Ident": x.mkIdent(st, "T")})}
	td := x.mk(st, x.ty("TypeDecl"), map[string]Val{"Ident": x.mkIdent(st, "T"), "Type": b})
	d := x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "T"), "Node": VIface{T: types.NewPointer(x.ty("TypeDecl")), V: td}})
	return VIface{T: types.NewPointer(x.ty("TypeId")), V: x.mk(st, x.ty("TypeId"), map[string]Val{"Ident": x.mkIdent(st, "T"), "Ref": d})}
}

func (x *Kinds) names() {
	idT := types.NewPointer(x.ty("TypeId"))
	declOf := func(st *State, t VIface) VPtr {
		td := x.mk(st, x.ty("TypeDecl"), map[string]Val{"Ident": x.mkIdent(st, "T"), "Type": t})
		return x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "T"), "Node": VIface{T: types.NewPointer(x.ty("TypeDecl")), V: td}})
	}
	id := func(st *State, ref Val) VIface {
		return VIface{T: idT, V: x.mk(st, x.ty("TypeId"), map[string]Val{"Ident": x.mkIdent(st, "T"), "Ref": ref})}
	}
	n := 0
	for _, t := range x.targets() {
		n++
		st := x.begin("type")
		x.ask(st, t.make(st), t.class, t.name)
		for depth := 0; depth <= 3; depth++ {
			st := x.begin("type")
			v := id(st, declOf(st, t.make(st)))
			for i := 0; i < depth; i++ {
				v = id(st, declOf(st, v))
			}
			how := "a name of "
			if depth > 0 {
				how = "an alias of a name of "
			}
			x.ask(st, v, t.class, how+t.name)
		}
	}
	// names that refer to nothing or to no type
	for depth := 0; depth <= 2; depth++ {
		for _, kind := range []string{"undeclared", "no node", "constant", "variable", "unit", "no type"} {
			st := x.begin("type")
			var ref Val = VNil{}
			node := func(t string) Val {
				if x.ty(t) == nil {
					return VNil{}
				}
				return x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "T"), "Node": VIface{T: types.NewPointer(x.ty(t)), V: x.mk(st, x.ty(t), map[string]Val{"Ident": x.mkIdent(st, "T")})}})
			}
			switch kind {
			case "no node":
				ref = x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "T")})
			case "constant":
				ref = node("ConstantDecl")
			case "variable":
				ref = x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "T"), "Node": VIface{T: types.NewPointer(x.ty("VarDecl")), V: x.mk(st, x.ty("VarDecl"), nil)}})
			case "unit":
				ref = node("UsesClauseItem")
			case "no type":
				td := x.mk(st, x.ty("TypeDecl"), map[string]Val{"Ident": x.mkIdent(st, "T")})
				ref = x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "T"), "Node": VIface{T: types.NewPointer(x.ty("TypeDecl")), V: td}})
			}
			v := id(st, ref)
			for i := 0; i < depth; i++ {
				v = id(st, declOf(st, v))
			}
			x.ask(st, v, "none", "a name that refers to "+kind)
		}
	}
	// names that refer to each other
	for k := 1; k <= 3; k++ {
		st := x.begin("type")
		first := x.mk(st, x.ty("TypeDecl"), map[string]Val{"Ident": x.mkIdent(st, "T")})
		d := x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "T"), "Node": VIface{T: types.NewPointer(x.ty("TypeDecl")), V: first}})
		v := id(st, d)
		for i := 1; i < k; i++ {
			v = id(st, declOf(st, v))
		}
		x.store(st, first, "Type", v)
		x.ask(st, v, "none", "a name in a cycle of names")
	}
	x.rep.Coverage["type_nodes_classified"] = n
}

func checkC24(w *World, tier string) *Report {
	rep := newReport("C24", "the tables of built-in types left by package initialization are compared with the documented classification, and every type predicate is interpreted on every kind of type node and on names referring to it directly, through up to 3 aliases, in cycles, to nothing and to non-types")
	x := &Kinds{&Classes{Scopes: newScopes(w, rep)}}
	x.concrete = true
	miss := ""
	for _, t := range []string{"TypeDecl", "TypeId", "Type", "VarDecl", "ConstantDecl", "TypeEmbedded"} {
		if x.ty(t) == nil {
			miss = t
		}
	}
	if !x.ok() || miss != "" {
		x.undecided("kinds: type %s not found", miss)
	} else {
		x.builtins()
		x.names()
	}
	x.done()
	addRules(rep, w, tier, "OrdinalType", "TypeForIdentifier", "StringOfString")
	return rep
}

func init() { checks["C24"] = checkC24 }

var _ = fmt.Sprint
