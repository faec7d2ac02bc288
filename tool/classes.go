package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Class member analysis (C23): member and property lookup of classes is interpreted on class shapes: members of every
// kind in sections of every visibility, and chains of ancestors linked in every way the parser can link them.

type Classes struct {
	*Scopes
	find, prop, comp, inh *ssa.Function
}

func (x *Classes) ty(n string) types.Type { return x.w.lookupType("ast", n) }

// member is one member of a class in a shape.
type member struct {
	kind string // field, field2, function, constructor, destructor, property
	name string
}

var memberKinds = []string{"field", "field2", "function", "constructor", "destructor", "property"}

// built is a member as built: the identifier and node its declaration must have.
type built struct {
	ident VPtr
	node  VPtr
}

func (x *Classes) mkMember(st *State, m member) (string, VPtr, built) {
	id := x.mkIdent(st, m.name)
	switch m.kind {
	case "field", "field2":
		ids := []Val{id}
		if m.kind == "field2" {
			ids = []Val{x.mkIdent(st, "Before"), id, x.mkIdent(st, "After")}
		}
		n := x.mk(st, x.ty("ClassField"), map[string]Val{"IdentList": x.e.newSlice(st, ids), "Type": VOpq{K: "node", ID: st.fresh(), T: x.ty("Type")}})
		return "ClassFieldList", n, built{id, n}
	case "property":
		n := x.mk(st, x.ty("ClassProperty"), map[string]Val{"Ident": id})
		return "ClassPropertyList", n, built{id, n}
	}
	ht := map[string]string{"function": "FunctionHeading", "constructor": "ConstructorHeading", "destructor": "DestructorHeading"}[m.kind]
	h := x.mk(st, x.ty(ht), map[string]Val{"Ident": id})
	n := x.mk(st, x.ty("ClassMethod"), map[string]Val{"Heading": VIface{T: types.NewPointer(x.ty(ht)), V: h}})
	return "ClassMethodList", n, built{id, n}
}

// section is a section of a class shape.
type section struct {
	vis     string
	members []member
}

// mkClass builds a class; bs are its members in order.
func (x *Classes) mkClass(st *State, heritage Val, secs []section) (VPtr, []built) {
	var bs []built
	var ss []Val
	for _, s := range secs {
		lists := map[string][]Val{}
		for _, m := range s.members {
			l, v, b := x.mkMember(st, m)
			lists[l] = append(lists[l], v)
			bs = append(bs, b)
		}
		f := map[string]Val{"Visibility": VStr{s.vis}}
		for l, vs := range lists {
			f[l] = x.e.newSlice(st, vs)
		}
		ss = append(ss, x.mk(st, x.ty("ClassMemberSection"), f))
	}
	f := map[string]Val{}
	if len(ss) > 0 {
		f["Members"] = x.e.newSlice(st, ss)
	}
	if heritage != nil {
		f["Heritage"] = heritage
	}
	return x.mk(st, x.ty("CustomClassType"), f), bs
}

// visibility gives the text of a visibility constant of the package.
func (x *Classes) visibility(name string) string {
	p := x.w.Types[modPath+"/ast"]
	if p != nil {
		if c, ok := p.Scope().Lookup("Cv" + name).(*types.Const); ok {
			return strings.Trim(c.Val().ExactString(), `"`)
		}
	}
	x.undecided("classes: visibility %s not found", name)
	return name
}

// typeDecl wraps a type into the declaration of a type name.
func (x *Classes) typeDecl(st *State, t string, v Val) VPtr {
	td := x.mk(st, x.ty("TypeDecl"), map[string]Val{"Ident": x.mkIdent(st, "TBase"), "Type": VIface{T: types.NewPointer(x.ty(t)), V: v}})
	return x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "TBase"), "Node": VIface{T: types.NewPointer(x.ty("TypeDecl")), V: td}})
}

func (x *Classes) typeId(st *State, ref Val) VPtr {
	return x.mk(st, x.ty("TypeId"), map[string]Val{"Ident": x.mkIdent(st, "TBase"), "Ref": ref})
}

// links are the ways a heritage can refer to a class; those in noLink refer to none.
var links = []string{"class", "forward", "alias", "alias of forward", "second alias"}
var noLinks = []string{"unfinished forward", "undeclared", "not a type", "not a class", "alias cycle"}

// heritage builds a heritage list that refers to the class parent by the given link.
func (x *Classes) heritage(st *State, link string, parent VPtr) Val {
	decl := Val(VNil{})
	class := func() VPtr { return x.typeDecl(st, "CustomClassType", parent) }
	fwd := func(actual Val) VPtr {
		return x.typeDecl(st, "ForwardDeclaredClassType", x.mk(st, x.ty("ForwardDeclaredClassType"), map[string]Val{"Actual": actual}))
	}
	switch link {
	case "class":
		decl = class()
	case "forward":
		decl = fwd(parent)
	case "alias":
		decl = x.typeDecl(st, "TypeId", x.typeId(st, class()))
	case "alias of forward":
		decl = x.typeDecl(st, "TypeId", x.typeId(st, fwd(parent)))
	case "second alias":
		decl = x.typeDecl(st, "TypeId", x.typeId(st, x.typeDecl(st, "TypeId", x.typeId(st, class()))))
	case "unfinished forward":
		decl = fwd(VNil{})
	case "undeclared":
	case "not a type":
		decl = x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "TBase"), "Node": VIface{T: types.NewPointer(x.ty("ConstantDecl")), V: x.mk(st, x.ty("ConstantDecl"), nil)}})
	case "not a class":
		decl = x.typeDecl(st, "RecType", x.mk(st, x.ty("RecType"), nil))
	case "alias cycle":
		td := x.mk(st, x.ty("TypeDecl"), map[string]Val{"Ident": x.mkIdent(st, "TBase")})
		d := x.mk(st, x.declT, map[string]Val{"Ident": x.mkIdent(st, "TBase"), "Node": VIface{T: types.NewPointer(x.ty("TypeDecl")), V: td}})
		id := x.typeId(st, d)
		x.store(st, td, "Type", VIface{T: types.NewPointer(x.ty("TypeId")), V: id})
		decl = d
	}
	return x.e.newSlice(st, []Val{x.typeId(st, decl)})
}

func (x *Classes) store(st *State, p VPtr, name string, v Val) {
	cur, _ := x.e.load(st, p)
	s, ok := cur.(*VStruct)
	if !ok {
		return
	}
	if i := fieldIdx(s.T, name); i >= 0 {
		n := &VStruct{T: s.T, F: append([]Val{}, s.F...)}
		n.F[i] = v
		x.e.setContent(st, p.O, n)
	}
}

// lookup calls FindMemberDecl and compares with want (nil: nothing is found).
func (x *Classes) lookup(st *State, class VPtr, name string, private bool, want *built, what string) {
	for _, sp := range []string{name, strings.ToUpper(name), strings.ToLower(name)} {
		x.callFn(st.clone(), x.find, []Val{class, VStr{sp}, VBool{private}}, func(s *State, v Val) {
			switch {
			case want == nil && !isNilVal(unwrap(v)):
				x.bad(s, what+" found", "looking up %s finds a declaration", what)
			case want != nil && isNilVal(unwrap(v)):
				x.bad(s, what+" not found", "looking up %s finds nothing", what)
			case want != nil:
				if !sameVal(unwrap(x.fieldOf(s, v, "Ident")), want.ident) || !sameVal(unwrap(x.fieldOf(s, v, "Node")), want.node) {
					x.bad(s, what+" wrong", "looking up %s finds another declaration", what)
				}
			}
		})
	}
}

func (x *Classes) property(st *State, class VPtr, name string, up bool, want *built, what string) {
	for _, sp := range []string{name, strings.ToUpper(name), strings.ToLower(name)} {
		x.callFn(st.clone(), x.prop, []Val{class, VStr{sp}, VBool{up}}, func(s *State, v Val) {
			switch {
			case want == nil && !isNilVal(unwrap(v)):
				x.bad(s, what+" found", "looking up %s finds a property", what)
			case want != nil && isNilVal(unwrap(v)):
				x.bad(s, what+" not found", "looking up %s finds nothing", what)
			case want != nil && !sameVal(unwrap(v), want.node):
				x.bad(s, what+" wrong", "looking up %s finds another property", what)
			}
		})
	}
}

var visibilities = []string{"Default", "Private", "Protected", "Public", "Published"}

// own checks lookups in a class without ancestors.
func (x *Classes) own() {
	decoys := []member{{"field", "Fa"}, {"function", "Ma"}, {"property", "Pa"}, {"field2", "Fb"}, {"constructor", "Mb"}}
	for _, vis := range visibilities {
		for _, k := range memberKinds {
			for _, pos := range []int{0, 1, 2} {
				st := x.begin("class")
				target := member{k, "Target"}
				secs := []section{{x.visibility("Public"), decoys}, {x.visibility("Private"), decoys[1:3]}, {x.visibility("Protected"), nil}}
				secs[pos] = section{x.visibility(vis), append([]member{target}, secs[pos].members...)}
				c, bs := x.mkClass(st, nil, secs)
				var b *built
				for i := range bs {
					if id := x.fieldOf(st, bs[i].ident, "Name"); id == (VStr{"Target"}) {
						b = &bs[i]
					}
				}
				what := fmt.Sprintf("a %s %s of the class", strings.ToLower(vis), strings.TrimSuffix(k, "2"))
				x.lookup(st, c, "Target", true, b, what)
				if vis == "Private" {
					x.lookup(st, c, "Target", false, nil, what+" from outside")
				} else {
					x.lookup(st, c, "Target", false, b, what+" from outside")
				}
				x.lookup(st, c, "Missing", true, nil, "a name the class does not have")
				if k == "property" {
					x.property(st, c, "Target", false, b, what)
					x.property(st, c, "Target", true, b, what)
				} else {
					x.property(st, c, "Target", true, nil, "a property that is another kind of member")
				}
			}
		}
	}
	// a private member does not hide a visible one of the class, seen from outside
	st := x.begin("class")
	c, bs := x.mkClass(st, nil, []section{{x.visibility("Private"), []member{{"field", "Target"}}}, {x.visibility("Public"), []member{{"property", "Target"}}}})
	x.lookup(st, c, "Target", false, &bs[1], "a public member declared after a private one of the same name, from outside")
	// an empty class
	st = x.begin("class")
	c, _ = x.mkClass(st, nil, nil)
	x.lookup(st, c, "Target", true, nil, "a name in an empty class")
	x.property(st, c, "Target", true, nil, "a property in an empty class")
}

// chain checks lookups through ancestors.
func (x *Classes) chain() {
	opts := []string{"none", "Private", "Protected", "Public", "Default"}
	for _, link := range links {
		for _, link2 := range []string{"class", "alias"} {
			for _, k := range []string{"field", "function", "property"} {
				for _, o0 := range []string{"none", "Private", "Public"} {
					for _, o1 := range opts {
						for _, o2 := range opts {
							if link != "class" && (k == "function" || o0 == "Private") || link2 != "class" && o1 == "Public" {
								continue
							}
							x.chainOf([]string{link, link2}, k, []string{o0, o1, o2})
						}
					}
				}
			}
		}
	}
	// no ancestor
	for _, link := range noLinks {
		st := x.begin("class")
		p, _ := x.mkClass(st, nil, []section{{x.visibility("Public"), []member{{"property", "Target"}}}})
		c, _ := x.mkClass(st, x.heritage(st, link, p), []section{{x.visibility("Public"), []member{{"field", "Other"}}}})
		x.lookup(st, c, "Target", true, nil, "a name of a class whose ancestor is "+link)
		x.property(st, c, "Target", true, nil, "a property of a class whose ancestor is "+link)
		x.lookup(st, c, "Target", false, nil, "a name of a class whose ancestor is "+link)
	}
	// cycles of ancestors
	for n := 1; n <= 3; n++ {
		for _, link := range []string{"class", "alias", "forward"} {
			st := x.begin("class")
			first, _ := x.mkClass(st, nil, []section{{x.visibility("Public"), []member{{"field", "Other"}}}})
			last := first
			var bs []built
			for i := 1; i < n; i++ {
				last, bs = x.mkClass(st, x.heritage(st, link, last), []section{{x.visibility("Public"), []member{{"property", fmt.Sprintf("Target%d", i)}}}})
			}
			x.store(st, first, "Heritage", x.heritage(st, link, last))
			x.lookup(st, last, "Missing", true, nil, "a name no class of a cycle of ancestors has")
			x.property(st, last, "Missing", true, nil, "a property no class of a cycle of ancestors has")
			if n > 1 {
				x.lookup(st, first, fmt.Sprintf("Target%d", n-1), false, &bs[0], "a name in a cycle of ancestors")
			}
			// a class below the cycle
			below, _ := x.mkClass(st, x.heritage(st, link, last), []section{{x.visibility("Public"), []member{{"field", "Another"}}}})
			x.lookup(st, below, "Missing", true, nil, "a name of a class below a cycle of ancestors")
			x.property(st, below, "Missing", true, nil, "a property of a class below a cycle of ancestors")
		}
	}
	// long chains: the member of the farthest ancestor, and none
	for _, n := range []int{4, 7, 20} {
		for _, link := range []string{"class", "alias"} {
			for _, k := range []string{"field", "property"} {
				st := x.begin("class")
				far, bs := x.mkClass(st, nil, []section{{x.visibility("Public"), []member{{k, "Target"}}}})
				c := far
				for i := 0; i < n; i++ {
					c, _ = x.mkClass(st, x.heritage(st, link, c), []section{{x.visibility("Public"), []member{{"field", "Other"}}}})
				}
				x.lookup(st, c, "Target", false, &bs[0], fmt.Sprintf("a member that an ancestor %d generations up has", n))
				x.lookup(st, c, "Missing", true, nil, fmt.Sprintf("a name that no class of %d generations has", n))
			}
		}
	}
}

func (x *Classes) chainOf(ls []string, kind string, opts []string) {
	st := x.begin("class")
	var class VPtr
	var her Val
	res := make([]*built, len(opts))
	for i := len(opts) - 1; i >= 0; i-- {
		var secs []section
		secs = append(secs, section{x.visibility("Public"), []member{{"field", "Other"}, {"property", "Another"}}})
		if opts[i] != "none" {
			secs = append(secs, section{x.visibility(opts[i]), []member{{kind, "Target"}}})
		}
		c, bs := x.mkClass(st, her, secs)
		if opts[i] != "none" {
			res[i] = &bs[len(bs)-1]
		}
		class = c
		if i > 0 {
			her = x.heritage(st, ls[i-1], c)
		}
	}
	for _, private := range []bool{true, false} {
		var want *built
		what := "a member no class has"
		for i, o := range opts {
			if o == "none" || o == "Private" && (i > 0 || !private) {
				continue
			}
			want = res[i]
			what = "a member that the class has"
			if i > 0 {
				what = "a member that an ancestor has"
			}
			break
		}
		if want == nil && (opts[1] == "Private" || opts[2] == "Private") {
			what = "a private member of an ancestor"
		}
		if want != nil && res[0] == nil {
			what += ", linked by " + ls[0]
		}
		x.lookup(st, class, "Target", private, want, what)
	}
	if kind != "property" {
		return
	}
	var near *built
	for _, r := range res {
		if r != nil {
			near = r
			break
		}
	}
	x.property(st, class, "Target", true, near, "a property of the class or its ancestors")
	x.property(st, class, "Target", false, res[0], "a property without ancestors")
}

// computed checks the specifiers a property has in effect and when it inherits.
func (x *Classes) computed() {
	pt := x.ty("ClassProperty")
	fields := []string{"Interface", "Index", "Read", "Write", "Stored", "Default", "Implements"}
	for _, f := range fields {
		if fieldIdx(pt, f) < 0 {
			x.undecided("classes: ClassProperty has no field %s", f)
			return
		}
	}
	fieldT := func(f string) types.Type { return under(pt).(*types.Struct).Field(fieldIdx(pt, f)).Type() }
	// set[i] lists which fields property i (0 nearest) sets
	run := func(sets []map[string]bool) {
		st := x.begin("property")
		var p VPtr
		vals := make([]map[string]Val, len(sets))
		ps := make([]VPtr, len(sets))
		for i := len(sets) - 1; i >= 0; i-- {
			vals[i] = map[string]Val{"Ident": x.mkIdent(st, "Target")}
			for f, on := range sets[i] {
				if on {
					vals[i][f] = x.mk(st, under(fieldT(f)).(*types.Pointer).Elem(), nil)
				}
			}
			if i < len(sets)-1 {
				vals[i]["Parent"] = p
			}
			p = x.mk(st, pt, vals[i])
			ps[i] = p
		}
		before := make([]string, len(ps))
		for i, q := range ps {
			c, _ := x.e.load(st, q)
			before[i] = fmt.Sprintf("%v", c.(*VStruct).F)
		}
		x.callFn(st.clone(), x.comp, []Val{p}, func(s *State, v Val) {
			for i, q := range ps {
				c, _ := x.e.load(s, q)
				if fmt.Sprintf("%v", c.(*VStruct).F) != before[i] {
					x.bad(s, "computed changes", "computing the specifiers of a property changes a property")
				}
				if sameVal(unwrap(v), q) {
					x.bad(s, "computed shared", "the computed property is a property of the class itself")
				}
			}
			for _, f := range fields {
				want := Val(VNil{})
				for i := range sets {
					if sets[i][f] {
						want = vals[i][f]
						break
					}
				}
				got := x.fieldOf(s, v, f)
				if isNilVal(want) != isNilVal(unwrap(got)) || !isNilVal(want) && !sameVal(unwrap(got), want) {
					x.bad(s, "computed "+f, "the %s specifier in effect is not the one of the nearest property that has it", f)
				}
			}
		})
	}
	for _, f := range fields {
		for n := 1; n <= 4; n++ {
			for m := 0; m < 1<<uint(n); m++ {
				for _, others := range []bool{false, true} {
					sets := make([]map[string]bool, n)
					for i := range sets {
						sets[i] = map[string]bool{f: m&(1<<uint(i)) != 0}
						for _, g := range fields {
							if g != f {
								sets[i][g] = others
							}
						}
					}
					run(sets)
				}
			}
		}
	}
	// inheritance
	four := fields[:4]
	for own := 0; own < 16; own++ {
		for par := 0; par < 16; par++ {
			for _, grand := range []int{-1, 0, 1, 6, 15} {
				st := x.begin("property")
				mk := func(mask int, parent Val) VPtr {
					v := map[string]Val{"Ident": x.mkIdent(st, "Target")}
					for i, f := range four {
						if mask&(1<<uint(i)) != 0 {
							v[f] = x.mk(st, under(fieldT(f)).(*types.Pointer).Elem(), nil)
						}
					}
					if parent != nil {
						v["Parent"] = parent
					}
					return x.mk(st, pt, v)
				}
				var gp Val
				all := par
				if grand >= 0 {
					gp = mk(grand, nil)
					all |= grand
				}
				p := mk(par, gp)
				c := mk(own, nil)
				x.callFn(st, x.inh, []Val{c, p}, func(s *State, v Val) {
					b, ok := v.(VBool)
					if !ok {
						x.undecided("classes: result of InheritsFrom not followed")
						return
					}
					if own&1 == 0 && all&1 != 0 && !b.B {
						x.bad(s, "inherits", "a property re-declared without a type does not inherit from a property with a type")
					}
					if all&^own == 0 && b.B {
						x.bad(s, "inherits nothing", "a property inherits from a property that has nothing to inherit")
					}
				})
			}
		}
	}
	st := x.begin("property")
	x.callFn(st, x.inh, []Val{x.mk(st, pt, nil), VNil{}}, func(s *State, v Val) {
		if b, ok := v.(VBool); !ok || b.B {
			x.bad(s, "inherits from nothing", "a property inherits although no ancestor has a property of that name")
		}
	})
}

func checkC23(w *World, tier string) *Report {
	rep := newReport("C23", "member and property lookup are interpreted on class shapes (members of every kind in sections of every visibility, chains of up to 2 ancestors linked directly, through forward declarations and aliases, cycles): the result must be the class's own member, then the nearest ancestor's, private ones only of the class itself; computed properties take each specifier from the nearest property that has it; the property rule of the parser must ask for the right member and record the inherited property")
	x := &Classes{Scopes: newScopes(w, rep)}
	x.concrete = true
	x.find = w.method("ast", "CustomClassType", "FindMemberDecl")
	x.prop = w.method("ast", "CustomClassType", "FindProperty")
	x.comp = w.method("ast", "ClassProperty", "ComputedProperty")
	x.inh = w.method("ast", "ClassProperty", "InheritsFrom")
	miss := ""
	for _, t := range []string{"CustomClassType", "ForwardDeclaredClassType", "ClassMemberSection", "ClassField", "ClassMethod", "ClassProperty", "FunctionHeading", "ConstructorHeading", "DestructorHeading", "TypeDecl", "TypeId", "RecType", "ConstantDecl", "Type"} {
		if x.ty(t) == nil {
			miss = t
		}
	}
	switch {
	case !x.ok() || miss != "":
		x.undecided("classes: type %s not found", miss)
	case x.find == nil || x.prop == nil || x.comp == nil || x.inh == nil:
		x.undecided("classes: FindMemberDecl, FindProperty, ComputedProperty or InheritsFrom not found")
	default:
		x.own()
		x.chain()
		x.computed()
		x.recordedFirst()
	}
	x.done()
	addRules(rep, w, tier, "ClassProperty")
	return rep
}

func init() { checks["C23"] = checkC23 }

// recordedFirst checks, in the functions that parse the properties of a section, that the section and its fields and
// methods are recorded in the class before (property specifiers name them): no store to them is reachable after the call
// that parses the properties, unless a new section is made in between.
func (x *Classes) recordedFirst() {
	call := x.w.method("parser", "Parser", "ParseClassPropertyList")
	if call == nil {
		x.undecided("classes: ParseClassPropertyList not found")
		return
	}
	watched := func(in ssa.Instruction) string {
		s, ok := in.(*ssa.Store)
		if !ok {
			return ""
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		p, ok := under(fa.X.Type()).(*types.Pointer)
		if !ok {
			return ""
		}
		st, ok := under(p.Elem()).(*types.Struct)
		if !ok {
			return ""
		}
		switch typeName(p.Elem()) + "." + st.Field(fa.Field).Name() {
		case "ClassMemberSection.Visibility", "ClassMemberSection.ClassFieldList", "ClassMemberSection.ClassMethodList", "CustomClassType.Members":
			return st.Field(fa.Field).Name()
		}
		return ""
	}
	newSection := func(in ssa.Instruction) bool {
		a, ok := in.(*ssa.Alloc)
		if !ok {
			return false
		}
		p, ok := under(a.Type()).(*types.Pointer)
		return ok && typeName(p.Elem()) == "ClassMemberSection"
	}
	n := 0
	for _, f := range x.w.repoFuncs() {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != call {
					continue
				}
				n++
				seen := map[*ssa.BasicBlock]bool{}
				var walk func(b *ssa.BasicBlock, from int)
				walk = func(b *ssa.BasicBlock, from int) {
					for _, in := range b.Instrs[from:] {
						if newSection(in) {
							return
						}
						if w := watched(in); w != "" {
							x.add("order", "recorded late "+w, x.w.posStr(instrPos(in)), "%s: %s of a class section is recorded after its properties are parsed, so that they cannot refer to it", shortFn(f), w)
						}
					}
					for _, s := range b.Succs {
						if !seen[s] {
							seen[s] = true
							walk(s, 0)
						}
					}
				}
				walk(b, i+1)
			}
		}
	}
	x.rep.Coverage["property_list_calls"] = n
}
