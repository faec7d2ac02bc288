package main

import (
	"go/types"
	"strings"
)

// Declaration analysis (part of C25, C16 and C18): what every declaring node answers as its declarations, what a
// section answers as its declaring nodes, and what the finders of lists answer.

// declNames gives, per declaring node type, where its own names are.
var declNames = map[string]string{
	"VarDecl": "IdentList", "ThreadVarDecl": "IdentList", "ConstantDecl": "Ident", "LabelDeclSection": "LabelId",
	"ExceptionBlockHandlerDecl": "Ident", "EnumeratedTypeElement": "Ident", "FieldDecl": "IdentList",
	"ExportedHeading": "FunctionHeading.Ident", "FunctionDecl": "FunctionHeading.Ident", "FormalParm": "Parameter.IdentList",
	"Program": "Ident", "Unit": "Ident", "TypeDecl": "Ident", "UsesClauseItem": "Ident", "ClassField": "IdentList", "ClassProperty": "Ident",
	"ClassMethod": "Heading=FunctionHeading.Ident Heading=ConstructorHeading.Ident Heading=DestructorHeading.Ident",
}

type Decls struct{ *Scopes }

func (x *Decls) t(n string) types.Type { return x.w.lookupType("ast", n) }

// build makes a node of type t with n names at the path.
func (x *Decls) build(st *State, t types.Type, path string, n int) (VPtr, []Val) {
	head, rest := path, ""
	if i := strings.Index(path, "."); i >= 0 {
		head, rest = path[:i], path[i+1:]
	}
	dyn := ""
	if i := strings.Index(head, "="); i >= 0 {
		head, dyn = head[:i], head[i+1:]
	}
	if rest == "" {
		if head == "IdentList" {
			var ids []Val
			for i := 0; i < n; i++ {
				ids = append(ids, x.mkIdent(st, []string{"Na", "Nb", "Nb", "na"}[i]))
			}
			return x.mk(st, t, map[string]Val{head: x.e.newSlice(st, ids)}), ids
		}
		id := x.mkIdent(st, "Na")
		return x.mk(st, t, map[string]Val{head: id}), []Val{id}
	}
	i := fieldIdx(t, head)
	if i < 0 {
		x.undecided("declarations: type %s has no field %s", typeName(t), head)
		return VPtr{}, nil
	}
	ft := under(t).(*types.Struct).Field(i).Type()
	if dyn != "" {
		dt := x.t(dyn)
		if dt == nil {
			x.undecided("declarations: no type %s", dyn)
			return VPtr{}, nil
		}
		p, ids := x.build(st, dt, rest, n)
		return x.mk(st, t, map[string]Val{head: VIface{T: types.NewPointer(dt), V: p}}), ids
	}
	pt, ok := under(ft).(*types.Pointer)
	if !ok {
		x.undecided("declarations: field %s of %s is not followed", head, typeName(t))
		return VPtr{}, nil
	}
	p, ids := x.build(st, pt.Elem(), rest, n)
	return x.mk(st, t, map[string]Val{head: p}), ids
}

// nodes checks ToDeclarations of every declaring node.
func (x *Decls) declaring() {
	p := x.w.Types[modPath+"/ast"]
	dn, _ := under(x.w.lookupType("ast/astcore", "DeclNode")).(*types.Interface)
	if p == nil || dn == nil {
		x.undecided("declarations: the interface of declaring nodes is not found")
		return
	}
	n := 0
	for _, name := range p.Scope().Names() {
		tn, ok := p.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if !types.Implements(pt, dn) {
			if _, known := declNames[name]; known {
				x.add("declarations", name+" none", x.w.posStr(tn.Pos()), "%s declares nothing", name)
			}
			continue
		}
		paths, known := declNames[name]
		if !known {
			x.undecided("declarations: no names known for %s", name)
			continue
		}
		n++
		for _, path := range strings.Fields(paths) {
			for k := 1; k <= 4; k++ {
				if k != 1 && !strings.HasSuffix(path, "IdentList") {
					continue
				}
				st := x.begin("declarations")
				node, ids := x.build(st, tn.Type(), path, k)
				if node.O == 0 {
					continue
				}
				x.method(st, VIface{T: pt, V: node}, "ToDeclarations", nil, func(s *State, v Val) {
					ds, ok := x.e.elems(s, v)
					if !ok {
						x.undecided("declarations: result for %s not followed", name)
						return
					}
					if len(ds) != len(ids) {
						x.bad(s, name+" count", "%s with %d names declares %d", name, len(ids), len(ds))
						return
					}
					for i, d := range ds {
						if !sameVal(x.fieldOf(s, d, "Ident"), ids[i]) {
							x.bad(s, name+" name", "%s does not declare its %dth name", name, i+1)
						}
						if !sameVal(x.fieldOf(s, d, "Node"), node) {
							x.bad(s, name+" node", "the declaration of %s does not refer to it", name)
						}
					}
				})
			}
		}
	}
	x.rep.Coverage["declaring_nodes"] = n
	// sections
	for _, name := range p.Scope().Names() {
		tn, ok := p.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, p, "GetDeclNodes")
		if _, ok := obj.(*types.Func); !ok {
			continue
		}
		sl, isList := under(tn.Type()).(*types.Slice)
		for k := 0; k <= 3; k++ {
			st := x.begin("declarations")
			var recv VIface
			var want []Val
			if isList {
				for i := 0; i < k; i++ {
					want = append(want, x.node(st, sl.Elem()))
				}
				recv = VIface{T: tn.Type(), V: x.e.newSlice(st, want)}
			} else {
				if k > 0 {
					break
				}
				o := x.mk(st, tn.Type(), nil)
				want = []Val{o}
				recv = VIface{T: types.NewPointer(tn.Type()), V: o}
			}
			x.method(st, recv, "GetDeclNodes", nil, func(s *State, v Val) {
				ds, ok := x.e.elems(s, v)
				if !ok {
					x.undecided("declarations: result for %s not followed", name)
					return
				}
				same := len(ds) == len(want)
				for i := 0; same && i < len(ds); i++ {
					same = sameVal(ds[i], want[i])
				}
				if !same {
					x.bad(s, name+" nodes", "%s with %d declarations does not give each of them as its declaring nodes", name, len(want))
				}
			})
		}
	}
}

// finders checks that the finders of lists give the first entry with the name, whatever its case.
func (x *Decls) finders() {
	lists := []struct{ pkg, typ, method string }{
		{"ast/astcore", "Decls", "Find"}, {"ast/astcore", "IdentList", "Find"}, {"ast", "UsesClause", "Find"}, {"ast", "Units", "ByName"},
	}
	n := 0
	for _, l := range lists {
		t := x.w.lookupType(l.pkg, l.typ)
		if t == nil {
			continue
		}
		sl, ok := under(t).(*types.Slice)
		if !ok {
			continue
		}
		if obj, _, _ := types.LookupFieldOrMethod(t, true, x.pkgOf(t), l.method); obj == nil {
			continue
		}
		n++
		for _, names := range [][]string{{}, {"Foo"}, {"Bar", "Foo"}, {"Foo", "Bar"}, {"FOO", "foo"}, {"Fo", "FooBar", "foO"}} {
			for _, q := range []string{"Foo", "foo", "FOO", "Bar", "Fo", "Baz", "FooB", ""} {
				st := x.begin("find")
				var es []Val
				for _, nm := range names {
					es = append(es, x.entry(st, sl.Elem(), nm))
				}
				want := -1
				for i, nm := range names {
					if strings.EqualFold(nm, q) {
						want = i
						break
					}
				}
				x.method(st, VIface{T: t, V: x.e.newSlice(st, es)}, l.method, []Val{VStr{q}}, func(s *State, v Val) {
					switch {
					case want < 0 && !isNilVal(unwrap(v)):
						x.bad(s, l.typ+" extra", "%s.%s(%q) finds an entry among %v", l.typ, l.method, q, names)
					case want >= 0 && isNilVal(unwrap(v)):
						x.bad(s, l.typ+" missing", "%s.%s(%q) finds nothing among %v", l.typ, l.method, q, names)
					case want >= 0 && !sameVal(v, es[want]):
						x.bad(s, l.typ+" other", "%s.%s(%q) finds another entry of %v", l.typ, l.method, q, names)
					}
				})
			}
		}
	}
	x.rep.Coverage["finders"] = n
}

// entry makes a list entry with the name.
func (x *Decls) entry(st *State, t types.Type, name string) Val {
	id := x.mkIdent(st, name)
	el := under(t).(*types.Pointer).Elem()
	if types.Identical(el, x.identT) {
		return id
	}
	return x.mk(st, el, map[string]Val{"Ident": id})
}

// addDecls adds the declaration analysis to a check.
func addDecls(rep *Report, w *World, what ...string) {
	x := &Decls{newScopes(w, rep)}
	x.concrete = true
	if !x.ok() {
		x.undecided("declarations: the types of scopes are not found")
		x.done()
		return
	}
	for _, p := range what {
		switch p {
		case "nodes":
			x.declaring()
		case "find":
			x.finders()
		case "maps":
			x.concrete = false
			x.maps()
		}
	}
	x.done()
}
