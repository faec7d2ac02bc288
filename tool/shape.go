package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shape analyses: functions of the tree, scope and unit packages are interpreted on abstract objects built here (opaque
// parts, names that stand for a class of spellings), and every outcome is compared with what the property says.

// Sh is one shape analysis.
type Sh struct {
	w     *World
	e     *Eng
	rep   *Report
	und   map[string]bool
	calls int
	// concrete: no value of the scenarios is unknown, so a repeated state is an endless loop
	concrete bool
	endless  map[*ssa.Function]int
	most     int // steps of the longest call
	outs     int
}

func newSh(w *World, rep *Report) *Sh {
	sh := &Sh{w: w, rep: rep, und: map[string]bool{}}
	e := NewEng(w)
	e.uni = newUniverse()
	sh.e = e
	e.runInit()
	e.events = map[string]*Event{}
	e.funcs = map[string]bool{}
	e.budget = 3_000_000
	e.keepAll = true
	e.neverNil = func(e *Eng, st *State, o VOpq) bool { return o.K == "node" }
	return sh
}

func (sh *Sh) undecided(format string, a ...interface{}) { sh.und[fmt.Sprintf(format, a...)] = true }

// add reports a finding once per key.
func (sh *Sh) add(rule, key, where, format string, a ...interface{}) {
	for _, f := range sh.rep.Findings {
		if f.Key == rule+"/"+key {
			return
		}
	}
	sh.rep.add(rule, key, where, format, a...)
}

// done writes the coverage common to all shape analyses.
func (sh *Sh) done() {
	sum := func(k string, n int) {
		o, _ := sh.rep.Coverage[k].(int)
		sh.rep.Coverage[k] = o + n
	}
	sum("calls_interpreted", sh.calls)
	sh.rep.Coverage["steps_of_longest_call"] = sh.most
	sum("outcomes_compared", sh.outs)
	sum("shape_abstract_states", sh.e.nStates)
	var fs []string
	if o, ok := sh.rep.Coverage["functions_interpreted"].([]string); ok {
		for _, f := range o {
			sh.e.funcs[f] = true
		}
	}
	for f := range sh.e.funcs {
		if !strings.HasSuffix(f, "init") {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	sh.rep.Coverage["functions_interpreted"] = fs
	und := []string{}
	for u := range sh.und {
		und = append(und, u)
	}
	sort.Strings(und)
	old, _ := sh.rep.Coverage["undecided"].([]string)
	sh.rep.Coverage["undecided"] = append(old, und...)
	for _, u := range und {
		fmt.Println("UNDECIDED:", u)
	}
}

// run calls fn; panicking paths are returned too. ok=false when the analysis could not follow some path.
func (sh *Sh) run(st *State, fn *ssa.Function, what string, args ...Val) (res []Res, ok bool) {
	if sh.endless[fn] > 1 {
		return nil, false
	}
	sh.calls++
	sh.e.events = map[string]*Event{}
	sh.e.steps = 0
	if sh.concrete {
		sh.e.budget = 25_000
	} else {
		sh.e.budget = 3_000_000
	}
	if len(st.frames) == 0 {
		st.frames = nil
	}
	res = sh.e.call(st, fn, args, nil, nil)
	ok = true
	if sh.e.steps > sh.most {
		sh.most = sh.e.steps
	}
	for _, ev := range sh.e.events {
		switch ev.Kind {
		case "unsupported", "budget", "loop", "recursion":
			ok = false
			if sh.concrete && ev.Kind == "budget" && sh.e.deadline.IsZero() {
				if sh.endless == nil {
					sh.endless = map[*ssa.Function]int{}
				}
				sh.endless[fn]++
				// a scenario of a handful of objects, followed for many times the steps of the longest regular call
				sh.add(what, "endless", ev.Where, "%s: does not return: still running after %d steps on a shape of a few objects", what, sh.e.budget)
				continue
			}
			if sh.concrete && ev.Kind == "loop" {
				// the very same state comes back: the call never returns
				sh.add(what, "endless", ev.Where, "%s: %s", what, ev.Msg)
				continue
			}
			sh.undecided("%s: %s at %s", what, ev.Msg, ev.Where)
		}
	}
	sh.outs += len(res)
	return res, ok
}

// panics gives the text of the panic events of the last run.
func (sh *Sh) panics() (where, msg string) {
	var keys []string
	for k, ev := range sh.e.events {
		if ev.Kind == "panic" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return "-", "panic"
	}
	ev := sh.e.events[keys[0]]
	return ev.Where, ev.Msg
}

// node makes a fresh non-nil node value of static type t, and the value a Node interface holding it has.
func (sh *Sh) node(st *State, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Pointer:
		return VPtr{O: st.alloc(VOpq{K: "obj", ID: st.fresh(), T: u.Elem()})}
	case *types.Interface:
		return VOpq{K: "node", ID: st.fresh(), T: t}
	case *types.Slice:
		return sh.list(st, t, 2)
	}
	return VOpq{K: "obj", ID: st.fresh(), T: t}
}

func (sh *Sh) list(st *State, t types.Type, n int) Val {
	el := under(t).(*types.Slice).Elem()
	var es []Val
	for i := 0; i < n; i++ {
		es = append(es, sh.node(st, el))
	}
	return sh.e.newSlice(st, es)
}

// unwrap removes interface wrapping.
func unwrap(v Val) Val {
	for {
		i, ok := v.(VIface)
		if !ok {
			return v
		}
		v = i.V
	}
}

func sameVal(a, b Val) bool {
	a, b = unwrap(a), unwrap(b)
	switch x := a.(type) {
	case VOpq:
		y, ok := b.(VOpq)
		return ok && x.K == y.K && x.ID == y.ID && x.Path == y.Path
	case VPtr:
		return a == b
	case VSlice:
		return a == b
	case VNil:
		return isNilVal(b)
	}
	return false
}

// ---------- C17 ----------

type fieldUse struct {
	tree, optional, ref bool
}

// specFields says which fields of the node types hold sub-trees of accepted texts, and which of these can be empty.
func specFields(sp *Spec) map[string]map[string]*fieldUse {
	out := map[string]map[string]*fieldUse{}
	nullable := func(r string) bool {
		q := sp.Rules[r]
		if q == nil {
			return false
		}
		for _, a := range q.alts {
			if len(a.items) == 0 && a.act == nil {
				return true
			}
		}
		return false
	}
	all := map[string]int{}
	given := map[string]map[string]int{}
	var term func(t *Term, must map[string]bool) (tree, opt, ref bool)
	term = func(t *Term, must map[string]bool) (tree, opt, ref bool) {
		switch t.Op {
		case "var":
			return true, !must[t.Name], false
		case "ident", "cast", "absident":
			for _, a := range t.Args {
				if a.Op == "var" && !must[a.Name] {
					opt = true
				}
				if a.Op == "node" {
					term(a, must)
				}
			}
			return true, opt, false
		case "decl", "member", "cmember", "embedded", "opt", "inherit":
			return false, true, true
		case "nil":
			return true, true, false
		case "if":
			in := map[string]bool{}
			for k := range must {
				in[k] = true
			}
			if t.Args[0].Op == "var" {
				in[t.Args[0].Name] = true
			}
			for _, a := range t.Args[1:] {
				tr, _, rf := term(a, in)
				tree, ref = tree || tr, ref || rf
			}
			return tree, true, ref
		case "node":
			all[t.Name]++
			m := out[t.Name]
			if m == nil {
				m = map[string]*fieldUse{}
				out[t.Name] = m
				given[t.Name] = map[string]int{}
			}
			for i, f := range t.Fld {
				tr, op, rf := term(t.Args[i], must)
				u := m[f]
				if u == nil {
					u = &fieldUse{}
					m[f] = u
				}
				u.tree, u.optional, u.ref = u.tree || tr, u.optional || op, u.ref || rf
				given[t.Name][f]++
			}
			return true, false, false
		}
		return false, true, false
	}
	var alts func(as []*specAlt, outer map[string]bool) map[string]bool
	alts = func(as []*specAlt, outer map[string]bool) map[string]bool {
		var common map[string]bool
		for _, a := range as {
			must := map[string]bool{}
			for k := range outer {
				must[k] = true
			}
			for _, it := range a.items {
				if it.group != nil {
					in := map[string]bool{}
					for k := range must {
						in[k] = true
					}
					g := alts(it.group, in)
					if it.rep == 0 || it.rep == '+' {
						for k := range g {
							must[k] = true
						}
						if it.bind != "" {
							must[it.bind] = true
						}
					}
					continue
				}
				if it.bind != "" && (it.rep == 0 || it.rep == '+') && (it.whole || !nullable(it.rule)) {
					must[it.bind] = true
				}
			}
			if a.act != nil {
				term(a.act, must)
			}
			if common == nil {
				common = must
			} else {
				for k := range common {
					if !must[k] {
						delete(common, k)
					}
				}
			}
		}
		return common
	}
	for _, r := range sp.Order {
		alts(r.alts, map[string]bool{})
	}
	for t, m := range out {
		for f, u := range m {
			if given[t][f] < all[t] {
				u.optional = true
			}
		}
	}
	return out
}

// references between nodes that are not part of the tree.
var treeRefs = map[string]bool{"UsesClauseItem.Unit": true, "ForwardDeclaredClassType.Actual": true, "ClassProperty.Parent": true}

func (sh *Sh) nodeIface() *types.Interface {
	t := sh.w.lookupType("ast/astcore", "Node")
	if t == nil {
		return nil
	}
	i, _ := under(t).(*types.Interface)
	return i
}

// nodeTypes lists the node types (as receivers) of the tree packages.
func (sh *Sh) nodeTypes(iface *types.Interface) []types.Type {
	var out []types.Type
	for _, p := range []string{"ast/astcore", "ast"} {
		sp := sh.w.pkg(p)
		if sp == nil {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || n == "Decl" {
				continue
			}
			if _, isStruct := under(tn.Type()).(*types.Struct); isStruct {
				if pt := types.NewPointer(tn.Type()); types.Implements(pt, iface) {
					out = append(out, pt)
				}
			} else if types.Implements(tn.Type(), iface) {
				out = append(out, tn.Type())
			}
		}
	}
	return out
}

type ownField struct {
	i        int
	name     string
	t        types.Type
	spread   bool // a plain list whose elements are the children
	list     bool
	optional bool
}

func (sh *Sh) ownFields(t types.Type, iface *types.Interface, uses map[string]*fieldUse, inSpec bool) []ownField {
	st := under(t).(*types.Struct)
	tn := typeName(t)
	var out []ownField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ft := f.Type()
		isNode := types.Implements(ft, iface)
		spread := false
		_, isSlice := under(ft).(*types.Slice)
		if !isNode && isSlice {
			spread = types.Implements(under(ft).(*types.Slice).Elem(), iface)
		}
		if !isNode && !spread || typeName(ft) == "Decl" || treeRefs[tn+"."+f.Name()] {
			continue
		}
		u := uses[f.Name()]
		if f.Anonymous() && types.IsInterface(ft) && (u == nil || !u.tree) {
			continue // only there to declare an implementation
		}
		if u != nil && u.ref && !u.tree {
			continue
		}
		out = append(out, ownField{i: i, name: f.Name(), t: ft, spread: spread, list: isSlice, optional: inSpec && (u == nil || u.optional)})
	}
	return out
}

func checkC17(w *World, tier string) *Report {
	rep := newReport("C17", "Children of every node type is interpreted on an abstract node with every combination of empty and non-empty sub-nodes (opaque otherwise) and on lists of several lengths: the result must be exactly the sub-nodes in field order; the walk function is interpreted on abstract trees with an error at every callback")
	sh := newSh(w, rep)
	iface := sh.nodeIface()
	if iface == nil {
		sh.undecided("no Node interface")
		sh.done()
		return rep
	}
	sp, err := parseSpec(grammarText)
	if err != nil {
		sh.undecided("specification: %v", err)
		sh.done()
		return rep
	}
	uses := specFields(sp)
	m, _, _ := types.LookupFieldOrMethod(sh.w.lookupType("ast/astcore", "Node"), false, nil, "Children")
	mf, _ := m.(*types.Func)
	if mf == nil {
		sh.undecided("Node has no Children method")
		sh.done()
		return rep
	}
	nTypes, nFields := 0, 0
	for _, t := range sh.nodeTypes(iface) {
		fn := sh.e.methodOf(t, mf)
		if fn == nil {
			continue
		}
		nTypes++
		if _, ok := under(t).(*types.Slice); ok {
			sh.listChildren(t, fn)
			continue
		}
		pt, ok := t.(*types.Pointer)
		if !ok {
			sh.undecided("%s: node of an unusual kind", typeName(t))
			continue
		}
		tn := typeName(t)
		u, inSpec := uses[tn]
		own := sh.ownFields(pt.Elem(), iface, u, inSpec)
		nFields += len(own)
		sh.structChildren(pt, fn, own, inSpec)
	}
	sh.walk(iface)
	rep.Coverage["node_types"] = nTypes
	rep.Coverage["sub_node_fields"] = nFields
	sh.done()
	return rep
}

func (sh *Sh) listChildren(t types.Type, fn *ssa.Function) {
	tn := typeName(t)
	where := sh.w.posStr(fn.Pos())
	for _, n := range []int{-1, 0, 1, 2, 3, 5} {
		st := sh.e.newState()
		var l Val = VNil{}
		var want []Val
		if n >= 0 {
			l = sh.list(st, t, n)
			want, _ = sh.e.elems(st, l)
		}
		res, ok := sh.run(st, fn, tn+".Children", l)
		if !ok {
			continue
		}
		sh.judgeChildren(tn, where, fmt.Sprintf("a list of %d", max0(n)), res, want, nil)
	}
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func (sh *Sh) structChildren(pt *types.Pointer, fn *ssa.Function, own []ownField, inSpec bool) {
	tn := typeName(pt)
	where := sh.w.posStr(fn.Pos())
	st0 := under(pt.Elem()).(*types.Struct)
	k := 0 // number of fields that may be empty
	var free []int
	for j, f := range own {
		if f.optional || f.list || !inSpec {
			free = append(free, j)
			k++
		}
	}
	if k > 10 {
		sh.undecided("%s: too many optional sub-nodes", tn)
		return
	}
	for mask := 0; mask < 1<<uint(k); mask++ {
		empty := map[int]bool{}
		var names []string
		for b, j := range free {
			if mask>>uint(b)&1 == 1 {
				empty[j] = true
				names = append(names, own[j].name)
			}
		}
		st := sh.e.newState()
		obj := zero(pt.Elem()).(*VStruct)
		for i := 0; i < st0.NumFields(); i++ {
			ft := st0.Field(i).Type()
			if b, ok := under(ft).(*types.Basic); ok && b != nil {
				obj.F[i] = VOpq{K: "scalar", ID: st.fresh(), T: ft}
			}
		}
		var want []Val
		loose := map[string]bool{}
		for j, f := range own {
			if empty[j] {
				if f.list || !inSpec {
					loose[f.name] = true
				}
				continue
			}
			v := sh.node(st, f.t)
			obj.F[f.i] = v
			if f.spread {
				es, _ := sh.e.elems(st, v)
				want = append(want, es...)
			} else {
				want = append(want, v)
			}
		}
		recv := VPtr{O: st.alloc(obj)}
		res, ok := sh.run(st, fn, tn+".Children", recv)
		if !ok {
			continue
		}
		what := "all parts present"
		if len(names) > 0 {
			what = "no " + strings.Join(names, ", ")
		}
		sh.judgeChildren(tn, where, what, res, want, loose)
	}
}

// judgeChildren compares the result of Children with the sub-nodes wanted. loose: empty lists (and empty parts of node
// types the parser never builds) may appear as empty entries.
func (sh *Sh) judgeChildren(tn, where, what string, res []Res, want []Val, loose map[string]bool) {
	for _, r := range res {
		if r.panic != "" {
			w, m := sh.panics()
			sh.add("children", tn+" panics", w, "Children of %s (%s): %s", tn, what, m)
			continue
		}
		got, ok := sh.e.elems(r.st, r.v)
		if !ok && !isNilVal(r.v) {
			sh.undecided("%s.Children: result not followed (%T)", tn, r.v)
			continue
		}
		i := 0
		for _, g := range got {
			u := unwrap(g)
			if i < len(want) && sameVal(g, want[i]) {
				i++
				continue
			}
			if isNilVal(u) {
				if len(loose) > 0 {
					continue
				}
				sh.add("children", tn+" nil entry", where, "Children of %s (%s) has a nil entry", tn, what)
				i = -1
				break
			}
			switch u.(type) {
			case VOpq, VPtr, VSlice:
			default:
				sh.undecided("%s.Children: entry not followed (%T)", tn, u)
				return
			}
			sh.add("children", tn+" wrong", where, "Children of %s (%s): entry %d is not the sub-node of that place (missing, repeated or out of order)", tn, what, i)
			i = -1
			break
		}
		if i >= 0 && i < len(want) {
			sh.add("children", tn+" missing", where, "Children of %s (%s) leaves out %d of %d sub-nodes", tn, what, len(want)-i, len(want))
		}
	}
}

// walk interprets WalkDown on an abstract tree.
func (sh *Sh) walk(iface *types.Interface) {
	fn := sh.w.fn("ast/astcore", "WalkDown")
	nodes := sh.w.lookupType("ast/astcore", "Nodes")
	ident := sh.w.lookupType("ast/astcore", "Ident")
	if fn == nil || nodes == nil || ident == nil {
		sh.undecided("WalkDown, Nodes or Ident not found")
		return
	}
	where := sh.w.posStr(fn.Pos())
	st := sh.e.newState()
	leaf := func() Val {
		return VIface{T: types.NewPointer(ident), V: VPtr{O: st.alloc(zero(ident))}}
	}
	var order []Val
	inner := func(mk func() []Val) Val {
		at := len(order)
		order = append(order, nil)
		v := VIface{T: nodes, V: sh.e.newSlice(st, mk())}
		order[at] = v
		return v
	}
	add := func() Val { v := leaf(); order = append(order, v); return v }
	root := inner(func() []Val {
		return []Val{
			add(), VNil{},
			inner(func() []Val { return []Val{inner(func() []Val { return []Val{add(), add()} }), VNil{}, add()} }),
			inner(func() []Val { return nil }),
			add(),
		}
	})
	for fail := -1; fail < len(order); fail++ {
		s := st.clone()
		box := s.alloc(VInt{0})
		cb := VPrim{Name: "callback", B: []Val{VInt{int64(fail)}, VPtr{O: box}}, F: func(e *Eng, s *State, args []Val, site ssa.Instruction) []Res {
			n, ok := e.content(s, box).(VInt)
			if !ok {
				return one(s, VNil{})
			}
			e.setContent(s, box, VInt{n.N + 1})
			k := int(n.N)
			switch {
			case fail >= 0 && k > fail:
				sh.add("walk", "continues after error", where, "the walk goes on after the callback failed")
			case k >= len(order):
				sh.add("walk", "extra visit", where, "the walk visits more than the nodes of the tree")
			case isNilVal(unwrap(args[0])):
				sh.add("walk", "nil visit", where, "the walk calls back with a nil node")
			case !sameVal(args[0], order[k]):
				sh.add("walk", "order", where, "the walk does not visit parents before children in order")
			}
			if k == fail {
				return one(s, VErr{Origin: "callback", Pos: "callback"})
			}
			return one(s, VNil{})
		}}
		res, ok := sh.run(s, fn, "WalkDown", root, cb)
		if !ok {
			continue
		}
		for _, r := range res {
			if r.panic != "" {
				w, m := sh.panics()
				sh.add("walk", "panics", w, "WalkDown: %s", m)
				continue
			}
			_, isErr := r.v.(VErr)
			if fail >= 0 && !isErr {
				sh.add("walk", "error lost", where, "the walk does not return the error of the callback")
			}
			if fail < 0 && isErr {
				sh.add("walk", "spurious error", where, "the walk fails although no callback did")
			}
			n, _ := sh.e.content(r.st, box).(VInt)
			wantN := len(order)
			if fail >= 0 {
				wantN = fail + 1
			}
			if int(n.N) < wantN {
				sh.add("walk", "missing visit", where, "the walk visits %d of %d nodes", n.N, wantN)
			}
		}
	}
}

func init() { checks["C17"] = checkC17 }
