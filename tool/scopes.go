package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scope analysis (C18, part of C10 and C25): the declaration maps and contexts are interpreted with opaque outer scopes.
// An opaque scope answers a lookup of a name with its own declaration or with nothing (both are explored); what the
// real code returns is compared with the first answer in the order of the property.

// Scopes is the model shared by the scenarios.
type Scopes struct {
	*Sh
	dm      *types.Interface
	dmT     types.Type
	declT   types.Type
	identT  types.Type
	decls   map[string]int // (scope,name) -> object of the declaration in an opaque scope
	nodes   map[int][]Val  // opaque declaration nodes: their declarations
	logObj  int
	rule    string
	where   string
	noFork  map[int]bool // opaque scopes whose Set never fails
	names   []string
	stopped bool
}

func newScopes(w *World, rep *Report) *Scopes {
	sc := &Scopes{Sh: newSh(w, rep), decls: map[string]int{}, nodes: map[int][]Val{}}
	sc.dmT = w.lookupType("ast/astcore", "DeclMap")
	sc.declT = w.lookupType("ast/astcore", "Decl")
	sc.identT = w.lookupType("ast/astcore", "Ident")
	if sc.dmT != nil {
		sc.dm, _ = under(sc.dmT).(*types.Interface)
	}
	sc.e.onOpqInvoke = sc.onInvoke
	return sc
}

func (sc *Scopes) ok() bool { return sc.dm != nil && sc.declT != nil && sc.identT != nil }

func fieldIdx(t types.Type, name string) int {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// mk builds a struct object with the given fields.
func (sc *Scopes) mk(st *State, t types.Type, fields map[string]Val) VPtr {
	v := zero(t).(*VStruct)
	for f, x := range fields {
		i := fieldIdx(t, f)
		if i < 0 {
			sc.undecided("type %s has no field %s", typeName(t), f)
			continue
		}
		v.F[i] = x
	}
	return VPtr{O: st.alloc(v)}
}

func (sc *Scopes) fieldOf(st *State, p Val, name string) Val {
	pp, ok := unwrap(p).(VPtr)
	if !ok {
		return VBad{"no object"}
	}
	v, ok := sc.e.load(st, pp)
	if !ok {
		return VBad{"no object"}
	}
	s, ok := v.(*VStruct)
	if !ok {
		return VBad{"no struct"}
	}
	if i := fieldIdx(s.T, name); i >= 0 {
		return s.F[i]
	}
	return VBad{"no field"}
}

func (sc *Scopes) mkIdent(st *State, name string) VPtr {
	loc := VPtr{O: st.alloc(VOpq{K: "loc", ID: st.fresh()})}
	if t := sc.w.lookupType("ast/astcore", "Location"); t != nil {
		loc = VPtr{O: st.alloc(zero(t))}
	}
	return sc.mk(st, sc.identT, map[string]Val{"Name": VStr{name}, "Location": loc})
}

func (sc *Scopes) mkDecl(st *State, name string) VPtr {
	return sc.mk(st, sc.declT, map[string]Val{"Ident": sc.mkIdent(st, name), "Node": VOpq{K: "node", ID: st.fresh(), T: sc.dmT}})
}

// declNode makes a declaration node declaring the names; decls are their declarations.
func (sc *Scopes) declNode(st *State, names ...string) (Val, []Val) {
	id := st.fresh()
	var ds []Val
	for _, n := range names {
		ds = append(ds, sc.mkDecl(st, n))
	}
	sc.nodes[id] = ds
	return VOpq{K: "dnode", ID: id, T: sc.w.lookupType("ast/astcore", "DeclNode")}, ds
}

// scope makes an opaque scope.
func (sc *Scopes) scope(st *State) VOpq { return VOpq{K: "scope", ID: st.fresh(), T: sc.dmT} }

// prepare registers the declarations the opaque scope may hold under the names of the scenario.
func (sc *Scopes) prepare(st *State, scope VOpq, names ...string) {
	for _, n := range names {
		sc.decls[itoa(scope.ID)+"/"+strings.ToLower(n)] = sc.mkDecl(st, n).O
	}
}

func (sc *Scopes) has(st *State, scope VOpq, name string) string {
	return st.facts[factKey{"scope", scope.ID, "has " + strings.ToLower(name)}]
}

func (sc *Scopes) log(st *State, s string) {
	old, _ := sc.e.content(st, sc.logObj).(VStr)
	sc.e.setContent(st, sc.logObj, VStr{old.S + s + ";"})
}

func (sc *Scopes) logged(st *State) string {
	s, _ := sc.e.content(st, sc.logObj).(VStr)
	return s.S
}

func (sc *Scopes) onInvoke(e *Eng, st *State, recv VOpq, m *types.Func, args []Val, site ssa.Instruction) ([]Res, bool) {
	switch recv.K {
	case "dnode":
		if m.Name() == "ToDeclarations" {
			return one(st, e.newSlice(st, sc.nodes[recv.ID])), true
		}
	case "node":
		if m.Name() == "ToDeclarations" || m.Name() == "Children" {
			return one(st, VNil{}), true
		}
	case "scope":
		switch m.Name() {
		case "Get":
			n, ok := args[0].(VStr)
			if !ok {
				return nil, false
			}
			low := strings.ToLower(n.S)
			k := factKey{"scope", recv.ID, "has " + low}
			o, known := sc.decls[itoa(recv.ID)+"/"+low]
			if !known {
				return one(st, VNil{}), true
			}
			switch st.facts[k] {
			case "T":
				return one(st, VPtr{O: o}), true
			case "F":
				return one(st, VNil{}), true
			}
			no := st.clone()
			st.facts[k] = "T"
			no.facts[k] = "F"
			return []Res{{st: st, v: VPtr{O: o}}, {st: no, v: VNil{}}}, true
		case "Set":
			sc.log(st, "set "+itoa(recv.ID))
			if sc.noFork[recv.ID] {
				return one(st, VNil{}), true
			}
			bad := st.clone()
			sc.log(bad, "failed")
			return []Res{{st: st, v: VNil{}}, {st: bad, v: VErr{Origin: "set", Pos: "?"}}}, true
		case "Overwrite":
			sc.log(st, "overwrite "+itoa(recv.ID))
			return one(st, VTuple{}), true
		}
	}
	return nil, false
}

// begin starts a scenario.
func (sc *Scopes) begin(rule string) *State {
	st := sc.e.newState()
	sc.rule = rule
	sc.logObj = st.alloc(VStr{""})
	return st
}

func (sc *Scopes) bad(st *State, key, format string, a ...interface{}) {
	sc.add(sc.rule, key, sc.where, format, a...)
}

// callFn interprets fn and continues with every outcome.
func (sc *Scopes) callFn(st *State, fn *ssa.Function, args []Val, k func(st *State, v Val)) {
	if fn == nil {
		sc.undecided("%s: function not found", sc.rule)
		return
	}
	sc.where = sc.w.posStr(fn.Pos())
	res, ok := sc.run(st, fn, sc.rule, args...)
	if !ok {
		return
	}
	for _, r := range res {
		if r.panic != "" {
			w, m := sc.panics()
			sc.add(sc.rule, "panics in "+shortFn(fn), w, "%s: %s", shortFn(fn), m)
			continue
		}
		sc.where = sc.w.posStr(fn.Pos())
		k(r.st, r.v)
	}
}

// method calls a method of the dynamic type of recv.
func (sc *Scopes) method(st *State, recv Val, name string, args []Val, k func(st *State, v Val)) {
	i, ok := recv.(VIface)
	if !ok {
		if o, isO := recv.(VOpq); isO && o.K == "scope" {
			var m *types.Func
			for j := 0; j < sc.dm.NumMethods(); j++ {
				if sc.dm.Method(j).Name() == name {
					m = sc.dm.Method(j)
				}
			}
			rs, done := sc.onInvoke(sc.e, st, o, m, args, nil)
			if done {
				for _, r := range rs {
					k(r.st, r.v)
				}
				return
			}
		}
		sc.undecided("%s: receiver of %s not followed (%T)", sc.rule, name, recv)
		return
	}
	obj, _, _ := types.LookupFieldOrMethod(i.T, true, sc.pkgOf(i.T), name)
	mf, ok := obj.(*types.Func)
	if !ok {
		sc.undecided("%s: %s has no method %s", sc.rule, typeName(i.T), name)
		return
	}
	fn := sc.e.methodOf(i.T, mf)
	sc.callFn(st, fn, append([]Val{i.V}, args...), k)
}

func (sc *Scopes) pkgOf(t types.Type) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// asIface wraps a value of static type t into an interface value.
func asIface(t types.Type, v Val) Val {
	if types.IsInterface(t) {
		return v
	}
	return VIface{T: t, V: v}
}

// layer is one scope of the reference model, innermost first.
type layer struct {
	own    map[string]Val
	opaque *VOpq
}

func own() layer { return layer{own: map[string]Val{}} }

func (l layer) with(name string, d Val) layer {
	n := own()
	for k, v := range l.own {
		n.own[k] = v
	}
	n.own[strings.ToLower(name)] = d
	return n
}

// expect looks a name up in the reference model.
func (sc *Scopes) expect(st *State, ls []layer, name string) (v Val, why string) {
	low := strings.ToLower(name)
	for i, l := range ls {
		if l.opaque != nil {
			if _, known := sc.decls[itoa(l.opaque.ID)+"/"+low]; !known {
				continue
			}
			switch sc.has(st, *l.opaque, name) {
			case "T":
				return VPtr{O: sc.decls[itoa(l.opaque.ID)+"/"+low]}, ""
			case "F":
				continue
			}
			return nil, "scope " + itoa(i) + " (0 is the innermost) is not searched"
		}
		if d, ok := l.own[low]; ok {
			return d, ""
		}
	}
	return VNil{}, ""
}

// lookups checks Get of recv against the model for every name and spelling.
func (sc *Scopes) lookups(st *State, recv Val, ls []layer, when string, names ...string) {
	for _, n := range names {
		for _, sp := range []string{n, strings.ToUpper(n), strings.ToLower(n)} {
			sc.method(st.clone(), recv, "Get", []Val{VStr{sp}}, func(s *State, v Val) {
				want, why := sc.expect(s, ls, n)
				switch {
				case why != "":
					sc.bad(s, when+" order", "looking a name up %s: %s", when, why)
				case isNilVal(unwrap(v)) && isNilVal(want):
				case isNilVal(unwrap(v)):
					sc.bad(s, when+" not found", "looking a name up %s does not find its declaration", when)
				case isNilVal(want):
					sc.bad(s, when+" found", "looking a name up %s finds a declaration where there is none", when)
				case !sameVal(v, want):
					sc.bad(s, when+" wrong", "looking a name up %s finds a declaration other than the innermost, most recent one", when)
				}
			})
		}
	}
}

func isErr(v Val) (bool, bool) {
	switch v.(type) {
	case VErr:
		return true, true
	case VNil:
		return false, true
	}
	if i, ok := v.(VIface); ok {
		_, e := i.V.(VErr)
		return e, e
	}
	return false, false
}

// set registers the names and continues with the states in which that succeeded (or failed, when fail is wanted).
func (sc *Scopes) set(st *State, recv Val, when string, wantFail bool, names []string, k func(st *State, ds []Val)) {
	node, ds := sc.declNode(st, names...)
	sc.method(st, recv, "Set", []Val{node}, func(s *State, v Val) {
		e, known := isErr(v)
		if !known {
			sc.undecided("%s: result of Set not followed (%T)", sc.rule, v)
			return
		}
		if strings.Contains(sc.logged(s), "failed") {
			if !e {
				sc.bad(s, when+" error lost", "registering %s: the failure of the registration is not returned", when)
			}
			return
		}
		if e != wantFail {
			if wantFail {
				sc.bad(s, when+" duplicate accepted", "registering %s: a name declared twice in one scope is accepted", when)
			} else {
				sc.bad(s, when+" rejected", "registering %s fails although the scope does not have the name", when)
			}
			return
		}
		k(s, ds)
	})
}

func (sc *Scopes) noLog(st *State, when string) {
	if l := sc.logged(st); l != "" {
		sc.bad(st, when+" touches outer", "%s changes an enclosing scope", when)
	}
}

// basic checks a scope whose registrations go to its own innermost layer; ls[0] is that layer.
func (sc *Scopes) basic(st *State, recv Val, ls []layer, kind string) {
	sc.lookups(st, recv, ls, kind, "Alpha", "Beta")
	sc.set(st.clone(), recv, "in "+kind, false, []string{"aLpha", "bEta"}, func(s *State, ds []Val) {
		l2 := append([]layer{ls[0].with("Alpha", ds[0]).with("Beta", ds[1])}, ls[1:]...)
		sc.noLog(s, "registering in "+kind)
		sc.lookups(s, recv, l2, kind+" after a registration", "Alpha", "Beta", "Gamma")
		sc.set(s.clone(), recv, "again in "+kind, true, []string{"ALPHA"}, func(s *State, _ []Val) {
			sc.lookups(s, recv, l2, kind+" after a rejected registration", "Alpha")
		})
		sc.set(s.clone(), recv, "twice at once in "+kind, true, []string{"Gamma", "gAMMA"}, func(s *State, _ []Val) {})
		sc.set(s.clone(), recv, "another in "+kind, false, []string{"Gamma"}, func(s *State, d3 []Val) {
			l3 := append([]layer{l2[0].with("Gamma", d3[0])}, ls[1:]...)
			sc.noLog(s, "registering in "+kind)
			sc.lookups(s, recv, l3, kind+" after two registrations", "Alpha", "Gamma")
		})
		d := sc.mkDecl(s, "alpha")
		sc.method(s.clone(), recv, "Overwrite", []Val{VStr{"aLPHA"}, d}, func(s *State, _ Val) {
			l4 := append([]layer{l2[0].with("Alpha", d)}, ls[1:]...)
			sc.noLog(s, "replacing in "+kind)
			sc.lookups(s, recv, l4, kind+" after a replacement", "Alpha", "Beta")
		})
	})
}

var scopeNames = []string{"Alpha", "Beta", "Gamma"}

// maps checks the declaration maps.
func (sc *Scopes) maps() {
	w := sc.w
	st := sc.begin("declmap")
	sc.callFn(st, w.fn("ast/astcore", "NewDeclMap"), nil, func(s *State, m Val) {
		sc.basic(s, m, []layer{own()}, "a plain scope")
	})
	st = sc.begin("chained")
	if fn := w.fn("ast/astcore", "NewChainedDeclMap"); fn != nil {
		p := sc.scope(st)
		sc.prepare(st, p, scopeNames...)
		t := fn.Signature.Results().At(0).Type()
		sc.callFn(st, fn, []Val{p}, func(s *State, m Val) {
			sc.basic(s, asIface(t, m), []layer{own(), {opaque: &p}}, "an inner scope")
		})
	}
	fn := w.fn("ast/astcore", "NewCompositeDeclMap")
	for n := 1; n <= 4 && fn != nil; n++ {
		st = sc.begin("composite")
		var ps []VOpq
		var vs []Val
		var ls []layer
		for i := 0; i < n; i++ {
			p := sc.scope(st)
			sc.prepare(st, p, "Alpha")
			ps = append(ps, p)
			vs = append(vs, p)
			pp := p
			ls = append(ls, layer{opaque: &pp})
		}
		t := fn.Signature.Results().At(0).Type()
		sc.callFn(st, fn, []Val{sc.e.newSlice(st, vs)}, func(s *State, m Val) {
			recv := asIface(t, m)
			sc.lookups(s, recv, ls, "a list of "+itoa(n)+" scopes", "Alpha")
			sc.set(s.clone(), recv, "in a list of scopes", false, []string{"Alpha"}, func(s *State, _ []Val) {
				if sc.logged(s) != "set "+itoa(ps[0].ID)+";" {
					sc.bad(s, "set target", "registering in a list of scopes does not go to the first one alone")
				}
			})
			sc.method(s.clone(), recv, "Overwrite", []Val{VStr{"Alpha"}, sc.mkDecl(s, "Alpha")}, func(s *State, _ Val) {
				if sc.logged(s) != "overwrite "+itoa(ps[0].ID)+";" {
					sc.bad(s, "overwrite target", "replacing in a list of scopes does not go to the first one alone")
				}
			})
		})
	}
	if t := w.lookupType("ast/astcore", "DeclMaps"); t != nil {
		for n := 0; n <= 4; n++ {
			st = sc.begin("reverse")
			var vs []Val
			for i := 0; i < n; i++ {
				vs = append(vs, sc.scope(st))
			}
			sc.method(st, VIface{T: t, V: sc.e.newSlice(st, vs)}, "Reverse", nil, func(s *State, v Val) {
				el, ok := sc.e.elems(s, v)
				if !ok && !isNilVal(v) {
					sc.undecided("Reverse: result not followed")
					return
				}
				good := len(el) == n
				for i := range el {
					good = good && i < n && sameVal(el[i], vs[n-1-i])
				}
				if !good {
					sc.bad(s, "not reversed", "the list of scopes of the used units is not the reverse of the uses clause")
				}
			})
		}
	}
}

// builtin checks the outermost scope: the built-in types.
func (sc *Scopes) builtin() {
	g := sc.w.pkg("ast").Var("EmbeddedTypeDeclMap")
	if g == nil {
		sc.undecided("no built-in scope")
		return
	}
	st := sc.begin("builtin")
	o := sc.e.globals[g]
	m := asIface(g.Type().(*types.Pointer).Elem(), sc.e.content(st, o))
	for _, n := range []string{"integer", "INTEGER", "Integer"} {
		sc.method(st.clone(), m, "Get", []Val{VStr{n}}, func(s *State, v Val) {
			id := sc.fieldOf(s, sc.fieldOf(s, v, "Ident"), "Name")
			if nm, ok := id.(VStr); !ok || !strings.EqualFold(nm.S, "integer") {
				sc.bad(s, "not found", "the built-in type Integer is not found under that name")
			}
		})
	}
	sc.method(st.clone(), m, "Get", []Val{VStr{"alpha"}}, func(s *State, v Val) {
		if !isNilVal(unwrap(v)) {
			sc.bad(s, "found", "a name that is no built-in type is found among them")
		}
	})
	n, _ := sc.declNode(st, "Alpha")
	before := sc.snapshot(st)
	sc.method(st.clone(), m, "Set", []Val{n}, func(s *State, v Val) {
		if sc.snapshot(s) != before {
			sc.bad(s, "changed", "registering changes the built-in types")
		}
	})
	sc.method(st.clone(), m, "Overwrite", []Val{VStr{"Integer"}, sc.mkDecl(st, "Integer")}, func(s *State, v Val) {
		if sc.snapshot(s) != before {
			sc.bad(s, "changed", "registering changes the built-in types")
		}
	})
}

// snapshot is the number of static objects shadowed (changed) in the state.
func (sc *Scopes) snapshot(st *State) string {
	var ids []int
	for o := range st.heap {
		if o <= sc.e.staticMax {
			ids = append(ids, o)
		}
	}
	sort.Ints(ids)
	s := ""
	for _, i := range ids {
		s += itoa(i) + ","
	}
	return s
}

type ctxKind struct {
	name string
	mk   func(st *State, outer VOpq, k func(st *State, ctx Val))
}

func (sc *Scopes) ctxKinds() []ctxKind {
	w := sc.w
	var out []ctxKind
	anyT := types.NewInterfaceType(nil, nil)
	_ = anyT
	chain := func(st *State, outer VOpq, k func(st *State, m Val)) {
		fn := w.fn("ast/astcore", "NewChainedDeclMap")
		if fn == nil {
			return
		}
		sc.callFn(st, fn, []Val{outer}, func(s *State, m Val) { k(s, asIface(fn.Signature.Results().At(0).Type(), m)) })
	}
	if fn := w.fn("parser/pcontext", "NewProgramContext"); fn != nil {
		out = append(out, ctxKind{"a program context", func(st *State, outer VOpq, k func(*State, Val)) {
			chain(st, outer, func(s *State, m Val) {
				args := sc.e.newSlice(s, []Val{asIface(types.Typ[types.String], VStr{"p.dpr"}), m})
				sc.callFn(s, fn, []Val{args}, func(s *State, c Val) { k(s, asIface(fn.Signature.Results().At(0).Type(), c)) })
			})
		}})
		if un := w.fn("parser/pcontext", "NewUnitContext"); un != nil {
			out = append(out, ctxKind{"a unit context", func(st *State, outer VOpq, k func(*State, Val)) {
				sc.callFn(st, fn, []Val{sc.e.newSlice(st, nil)}, func(s *State, prog Val) {
					chain(s, outer, func(s *State, m Val) {
						args := sc.e.newSlice(s, []Val{asIface(types.Typ[types.String], VStr{"u.pas"}), m})
						sc.callFn(s, un, []Val{prog, args}, func(s *State, c Val) { k(s, asIface(un.Signature.Results().At(0).Type(), c)) })
					})
				})
			}})
		}
		if sn := w.fn("parser/pcontext", "NewStackableContext"); sn != nil {
			out = append(out, ctxKind{"a nested context", func(st *State, outer VOpq, k func(*State, Val)) {
				chain(st, outer, func(s *State, m Val) {
					args := sc.e.newSlice(s, []Val{m})
					sc.callFn(s, fn, []Val{args}, func(s *State, c Val) {
						sc.callFn(s, sn, []Val{asIface(fn.Signature.Results().At(0).Type(), c), sc.e.newSlice(s, nil)}, k)
					})
				})
			}})
		}
	}
	return out
}

// contexts checks lookups, registration and nested scopes in every kind of context.
func (sc *Scopes) contexts() {
	for _, ck := range sc.ctxKinds() {
		st := sc.begin(ck.name)
		p := sc.scope(st)
		sc.prepare(st, p, scopeNames...)
		sc.noFork = map[int]bool{p.ID: true}
		ck.mk(st, p, func(s *State, ctx Val) {
			out := layer{opaque: &p}
			sc.basic(s, ctx, []layer{own(), out}, ck.name)
			// a scope opened and closed
			sc.set(s, ctx, "outside", false, []string{"Alpha"}, func(s *State, d0 []Val) {
				l0 := []layer{own().with("Alpha", d0[0]), out}
				sc.method(s, ctx, "StackDeclMap", nil, func(s *State, pop Val) {
					l1 := append([]layer{own()}, l0...)
					sc.basic(s, ctx, l1, "a scope opened in "+ck.name)
					sc.set(s.clone(), ctx, "inside", false, []string{"alpha", "Beta"}, func(s *State, d1 []Val) {
						l1 := append([]layer{own().with("Alpha", d1[0]).with("Beta", d1[1])}, l0...)
						// nested once more
						sc.method(s.clone(), ctx, "StackDeclMap", nil, func(s *State, pop2 Val) {
							sc.set(s, ctx, "deeper", false, []string{"Beta"}, func(s *State, d2 []Val) {
								l2 := append([]layer{own().with("Beta", d2[0])}, l1...)
								sc.lookups(s, ctx, l2, "two scopes deep in "+ck.name, "Alpha", "Beta", "Gamma")
								sc.call0(s, pop2, func(s *State) {
									sc.lookups(s, ctx, l1, "after closing the inner of two scopes of "+ck.name, "Alpha", "Beta", "Gamma")
									sc.call0(s, pop, func(s *State) {
										sc.lookups(s, ctx, l0, "after closing both scopes of "+ck.name, "Alpha", "Beta", "Gamma")
									})
								})
							})
						})
						sc.call0(s, pop, func(s *State) {
							sc.lookups(s, ctx, l0, "after closing a scope of "+ck.name, "Alpha", "Beta", "Gamma")
							sc.noLog(s, "a closed scope of "+ck.name)
							sc.set(s, ctx, "after closing", false, []string{"Gamma"}, func(s *State, d3 []Val) {
								l3 := []layer{l0[0].with("Gamma", d3[0]), out}
								sc.lookups(s, ctx, l3, "registered after closing a scope of "+ck.name, "Alpha", "Beta", "Gamma")
							})
						})
					})
					// a copy does not see the scope of the original
					sc.method(s.clone(), ctx, "Clone", nil, func(s *State, cp Val) {
						sc.method(s, cp, "StackDeclMap", nil, func(s *State, _ Val) {
							sc.set(s, cp, "in a copy", false, []string{"Gamma"}, func(s *State, d []Val) {
								sc.lookups(s, ctx, l1, "the original after a scope opened in a copy of "+ck.name, "Alpha", "Gamma")
								lc := append([]layer{own().with("Gamma", d[0])}, l1...)
								sc.lookups(s, cp, lc, "a copy of "+ck.name, "Alpha", "Gamma")
							})
						})
					})
				})
			})
		})
	}
	sc.noFork = nil
}

// call0 calls a function value without arguments.
func (sc *Scopes) call0(st *State, f Val, k func(st *State)) {
	sc.calls++
	sc.e.events = map[string]*Event{}
	sc.e.steps = 0
	res := sc.e.callVal(st, f, nil, nil)
	for _, ev := range sc.e.events {
		if ev.Kind != "panic" {
			sc.undecided("%s: %s at %s", sc.rule, ev.Msg, ev.Where)
			return
		}
	}
	for _, r := range res {
		if r.panic != "" {
			w, m := sc.panics()
			sc.add(sc.rule, "panics", w, "%s", m)
			continue
		}
		k(r.st)
	}
}

// defaults checks that contexts made without a scope end in the built-in types.
func (sc *Scopes) defaults() {
	for _, n := range []string{"NewProgramContext", "NewUnitContext"} {
		st := sc.begin(n)
		pn := sc.w.fn("parser/pcontext", "NewProgramContext")
		sc.callFn(st, pn, []Val{sc.e.newSlice(st, nil)}, func(s *State, c Val) {
			fin := func(s *State, ctx Val) {
				sc.method(s.clone(), ctx, "Get", []Val{VStr{"integer"}}, func(s *State, v Val) {
					id := sc.fieldOf(s, sc.fieldOf(s, v, "Ident"), "Name")
					if nm, ok := id.(VStr); !ok || !strings.EqualFold(nm.S, "integer") {
						sc.bad(s, "builtin not found", "a new context does not find the built-in types")
					}
				})
				sc.set(s, ctx, "over a built-in type", false, []string{"Integer"}, func(s *State, ds []Val) {
					sc.lookups(s, ctx, []layer{own().with("Integer", ds[0])}, "a name that is also a built-in type", "Integer")
				})
			}
			if n == "NewProgramContext" {
				fin(s, asIface(pn.Signature.Results().At(0).Type(), c))
				return
			}
			un := sc.w.fn("parser/pcontext", n)
			if un == nil {
				return
			}
			sc.callFn(s, un, []Val{c, sc.e.newSlice(s, nil)}, func(s *State, u Val) { fin(s, asIface(un.Signature.Results().At(0).Type(), u)) })
		})
	}
}

// mkUnit makes a unit with an opaque scope of exported names.
func (sc *Scopes) mkUnit(st *State, name string) (VPtr, VOpq) {
	m := sc.scope(st)
	sc.prepare(st, m, "Alpha")
	return sc.mk(st, sc.w.lookupType("ast", "Unit"), map[string]Val{"Ident": sc.mkIdent(st, name), "DeclMap": m}), m
}

func (sc *Scopes) mkUses(st *State, names ...string) (Val, []VPtr) {
	var items []Val
	var ps []VPtr
	for _, n := range names {
		p := sc.mk(st, sc.w.lookupType("ast", "UsesClauseItem"), map[string]Val{"Ident": sc.mkIdent(st, n)})
		items = append(items, p)
		ps = append(ps, p)
	}
	return sc.e.newSlice(st, items), ps
}

// imports checks the scope a unit's interface is parsed in.
func (sc *Scopes) imports() {
	un := sc.w.fn("parser/pcontext", "NewUnitContext")
	pn := sc.w.fn("parser/pcontext", "NewProgramContext")
	ch := sc.w.fn("ast/astcore", "NewChainedDeclMap")
	if un == nil || pn == nil || ch == nil || sc.w.lookupType("ast", "Units") == nil {
		sc.undecided("contexts not found")
		return
	}
	for _, uses := range [][]string{{}, {"UNITa"}, {"unitB", "Unita"}, {"UnitA", "UNITB"}, {"Missing"}, {"Missing", "unitC", "UnitA"}, {"unita", "Missing", "unitb", "unitc"}, {"unitc", "unitb", "unita", "Missing"}} {
		st := sc.begin("imports")
		outer := sc.scope(st)
		sc.prepare(st, outer, "Alpha")
		names := []string{"UnitA", "UnitB", "UnitC"}
		var us []Val
		units := map[string]VPtr{}
		scopes := map[string]VOpq{}
		for _, n := range names {
			u, m := sc.mkUnit(st, n)
			us = append(us, u)
			units[strings.ToLower(n)] = u
			scopes[strings.ToLower(n)] = m
		}
		clause, items := sc.mkUses(st, uses...)
		list := asIface(sc.w.lookupType("ast", "Units"), sc.e.newSlice(st, us))
		sc.callFn(st, pn, []Val{sc.e.newSlice(st, []Val{list})}, func(s *State, prog Val) {
			sc.callFn(s, ch, []Val{outer}, func(s *State, m Val) {
				args := sc.e.newSlice(s, []Val{asIface(ch.Signature.Results().At(0).Type(), m)})
				sc.callFn(s, un, []Val{prog, args}, func(s *State, c Val) {
					ctx := asIface(un.Signature.Results().At(0).Type(), c)
					sc.method(s, ctx, "ImportUnitDecls", []Val{clause}, func(s *State, _ Val) {
						ls := []layer{own()}
						for i := len(uses) - 1; i >= 0; i-- {
							low := strings.ToLower(uses[i])
							if m, ok := scopes[low]; ok {
								mm := m
								ls = append(ls, layer{opaque: &mm})
							}
						}
						ls = append(ls, layer{opaque: &outer})
						for i, it := range items {
							got := sc.fieldOf(s, it, "Unit")
							want, ok := units[strings.ToLower(uses[i])]
							if ok && !sameVal(got, want) {
								sc.bad(s, "used unit", "a used unit that is loaded is not the unit of its uses item")
							}
							if !ok && !isNilVal(got) {
								sc.bad(s, "used unit", "a used unit that is not loaded gets a unit")
							}
						}
						when := "in a unit using " + itoa(len(uses)) + " units"
						sc.lookups(s, ctx, ls, when, "Alpha")
						sc.set(s, ctx, when, false, []string{"Alpha"}, func(s *State, ds []Val) {
							sc.noLog(s, "registering "+when)
							l2 := append([]layer{ls[0].with("Alpha", ds[0])}, ls[1:]...)
							sc.lookups(s, ctx, l2, "declared "+when, "Alpha")
						})
					})
				})
			})
		})
	}
}

func checkC18(w *World, tier string) *Report {
	rep := newReport("C18", "the declaration maps and contexts are interpreted with opaque enclosing scopes (both answers of every lookup are explored): every lookup must give the first answer from the innermost scope outward, in any spelling, and every registration must go to the innermost scope alone")
	sc := newScopes(w, rep)
	if !sc.ok() {
		sc.undecided("DeclMap, Decl or Ident not found")
		sc.done()
		return rep
	}
	sc.maps()
	sc.builtin()
	sc.contexts()
	sc.defaults()
	sc.imports()
	sc.done()
	addDecls(rep, w, "find")
	unitAnalysis(w, rep, tier, true)
	addRules(rep, w, tier, "TypeSection", "TypeSectionOpt")
	return rep
}

func init() { checks["C18"] = checkC18 }
