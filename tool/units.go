package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unit order analysis (C19, and the scopes units and programs are parsed in for C18): LoadUnits is interpreted with the
// parse rules of a unit replaced by their contract (they read the unit's name, its used units, its declarations, and may
// fail), for every graph of uses clauses between few units.

const unitLetters = "abcd"

// uscn is one configuration of units.
type uscn struct {
	n       int
	intf    [][]int // interface uses of unit i, in the order listed
	impl    [][]int // implementation uses
	missing int     // this unit also uses a unit that is not loaded (-1: none)
	decl    int     // mask: unit i declares X in its interface
	prog    []int   // order of the units in the program's uses clause
	extra   bool    // the program also uses a unit without a file
	names   []string
	fail    bool // explore failures of the parse rules
}

func unitName(i int) string { return []string{"UnitA", "uNITB", "Unitc", "UNITd"}[i] }

func (c *uscn) nameOf(i int) string {
	if c.names != nil {
		return c.names[i]
	}
	return unitName(i)
}

// cyclic tells whether the interface uses clauses form a cycle.
func (c *uscn) cyclic() bool {
	state := make([]int, c.n)
	var visit func(i int) bool
	visit = func(i int) bool {
		state[i] = 1
		for _, j := range c.intf[i] {
			if state[j] == 1 || state[j] == 0 && visit(j) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := 0; i < c.n; i++ {
		if state[i] == 0 && visit(i) {
			return true
		}
	}
	return false
}

func (c *uscn) String() string {
	s := itoa(c.n) + " units"
	for i := 0; i < c.n; i++ {
		for _, j := range c.intf[i] {
			s += ", " + unitLetters[i:i+1] + " uses " + unitLetters[j:j+1]
		}
		for _, j := range c.impl[i] {
			s += ", " + unitLetters[i:i+1] + "'s implementation uses " + unitLetters[j:j+1]
		}
	}
	return s
}

// Units is the analysis of one tree.
type Units struct {
	*Scopes
	c      *uscn
	upT    types.Type // UnitParser
	uctxT  types.Type // *UnitContext
	x      []Val      // declaration nodes of X per unit
	xd     []Val      // and their declarations
	y      []Val      // implementation-only names Y0, Y1 ...
	yd     []Val
	fns    map[string]*ssa.Function
	errPos string
}

func (u *Units) field(st *State, p Val, name string) Val { return u.fieldOf(st, p, name) }

// setField stores into a field of a struct object.
func (u *Units) setField(st *State, p Val, name string, v Val) bool {
	pp, ok := unwrap(p).(VPtr)
	if !ok {
		return false
	}
	cur, ok := u.e.load(st, pp)
	if !ok {
		return false
	}
	s, ok := cur.(*VStruct)
	if !ok {
		return false
	}
	i := fieldIdx(s.T, name)
	if i < 0 {
		return false
	}
	n := &VStruct{T: s.T, F: append([]Val{}, s.F...)}
	n.F[i] = v
	u.e.setContent(st, pp.O, n)
	return true
}

// ctxOf gives the context of a unit parser as an interface value.
func (u *Units) ctxOf(st *State, p Val) (Val, bool) {
	v := u.field(st, p, "context")
	if _, ok := v.(VPtr); !ok {
		u.undecided("units: the context of a unit parser is not found")
		return nil, false
	}
	return VIface{T: u.uctxT, V: v}, true
}

// which tells the unit a parser belongs to by the path of its context.
func (u *Units) which(st *State, p Val) int {
	c := u.field(st, p, "context")
	path, ok := u.field(st, c, "Path").(VStr)
	if ok {
		for i := range unitLetters {
			if path.S == "dir/"+unitLetters[i:i+1]+".pas" {
				return i
			}
		}
	}
	u.undecided("units: path %v of a unit parser is not one of the paths used", path)
	return -1
}

// inner calls a method of recv inside a rule.
func (u *Units) inner(st *State, recv Val, name string, args []Val, k func(st *State, v Val) []Res) []Res {
	i, ok := recv.(VIface)
	if !ok {
		if o, isO := recv.(VOpq); isO && o.K == "scope" {
			for j := 0; j < u.dm.NumMethods(); j++ {
				if u.dm.Method(j).Name() == name {
					rs, done := u.onInvoke(u.e, st, o, u.dm.Method(j), args, nil)
					if done {
						return u.cont(rs, k)
					}
				}
			}
		}
		u.undecided("units: receiver of %s not followed (%T)", name, recv)
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(i.T, true, u.pkgOf(i.T), name)
	mf, ok := obj.(*types.Func)
	if !ok {
		u.undecided("units: %s has no method %s", typeName(i.T), name)
		return nil
	}
	fn := u.e.methodOf(i.T, mf)
	return u.cont(u.e.call(st, fn, append([]Val{i.V}, args...), nil, nil), k)
}

func (u *Units) cont(rs []Res, k func(st *State, v Val) []Res) []Res {
	var out []Res
	for _, r := range rs {
		if r.panic != "" {
			out = append(out, r)
			continue
		}
		out = append(out, k(r.st, r.v)...)
	}
	return out
}

// each runs the steps one after the other on every outcome of the ones before.
func (u *Units) each(st *State, steps []func(st *State, k func(*State) []Res) []Res, end func(*State) []Res) []Res {
	if len(steps) == 0 {
		return end(st)
	}
	return steps[0](st, func(s *State) []Res { return u.each(s, steps[1:], end) })
}

type ustep = func(st *State, k func(*State) []Res) []Res

// lookup checks one lookup; acc lists the acceptable declarations, first is the one named in the message. A nil entry
// stands for no declaration.
func (u *Units) lookup(recv Val, name, when string, acc func(st *State) []Val) ustep {
	return func(st *State, k func(*State) []Res) []Res {
		return u.inner(st, recv, "Get", []Val{VStr{name}}, func(s *State, v Val) []Res {
			want := acc(s)
			ok := false
			for _, w := range want {
				if isNilVal(w) && isNilVal(unwrap(v)) || !isNilVal(w) && sameVal(v, w) {
					ok = true
				}
			}
			if !ok {
				switch {
				case isNilVal(unwrap(v)):
					u.bad(s, when+" not found", "%s is not found (%s)", when, u.c)
				case len(want) == 1 && isNilVal(want[0]):
					u.bad(s, when+" visible", "%s is visible (%s)", when, u.c)
				default:
					u.bad(s, when+" wrong", "%s resolves to another declaration (%s)", when, u.c)
				}
			}
			return k(s)
		})
	}
}

// declaredBy checks that name resolves to a declaration of the given node.
func (u *Units) declaredBy(recv Val, name, when string, node Val) ustep {
	return func(st *State, k func(*State) []Res) []Res {
		return u.inner(st, recv, "Get", []Val{VStr{name}}, func(s *State, v Val) []Res {
			if isNilVal(unwrap(v)) {
				u.bad(s, when+" not found", "%s is not found (%s)", when, u.c)
			} else if n := u.field(s, v, "Node"); !sameVal(unwrap(n), unwrap(node)) {
				u.bad(s, when+" wrong", "%s resolves to another declaration (%s)", when, u.c)
			}
			return k(s)
		})
	}
}

// register declares a node in the context; failing is a finding.
func (u *Units) register(recv Val, node Val, when string) ustep {
	return func(st *State, k func(*State) []Res) []Res {
		return u.inner(st, recv, "Set", []Val{node}, func(s *State, v Val) []Res {
			if e, known := isErr(v); !known {
				u.undecided("units: result of Set not followed (%T)", v)
				return nil
			} else if e {
				u.bad(s, when+" rejected", "%s is rejected (%s)", when, u.c)
				return nil
			}
			return k(s)
		})
	}
}

// winners gives the X of the last listed unit that declares it, or nil.
func (u *Units) winner(list []int) Val {
	for i := len(list) - 1; i >= 0; i-- {
		if u.c.decl&(1<<uint(list[i])) != 0 {
			return u.xd[list[i]]
		}
	}
	return VNil{}
}

func (u *Units) declares(i int) bool { return u.c.decl&(1<<uint(i)) != 0 }

// failing adds the outcome in which the rule fails.
func (u *Units) failing(st *State, what string, mk func(err Val) Val) []Res {
	if !u.c.fail {
		return nil
	}
	n := st.clone()
	u.log(n, "fail "+what)
	return []Res{{st: n, v: mk(VErr{Origin: "rule", Pos: what})}}
}

func (u *Units) usesOf(st *State, list []int, missing bool) (Val, []Val) {
	var items []Val
	for _, j := range list {
		items = append(items, u.mk(st, u.w.lookupType("ast", "UsesClauseItem"), map[string]Val{"Ident": u.mkIdent(st, strings.ToUpper(u.c.nameOf(j)))}))
	}
	if missing {
		items = append([]Val{u.mk(st, u.w.lookupType("ast", "UsesClauseItem"), map[string]Val{"Ident": u.mkIdent(st, "SysUtils")})}, items...)
	}
	if len(items) == 0 {
		return VNil{}, nil
	}
	return u.e.newSlice(st, items), items
}

func (u *Units) item(p Val) Val {
	return VIface{T: types.NewPointer(u.w.lookupType("ast", "UsesClauseItem")), V: p}
}

func (u *Units) install() bool {
	u.fns = map[string]*ssa.Function{}
	for _, n := range []string{"LoadFile", "ParseUnitIdent", "ParseInterfaceSectionUses", "ParseInterfaceSectionDecls", "ParseImplUses", "ParseImplBody", "ParseUnitEnd"} {
		f := u.w.method("parser", "UnitParser", n)
		if f == nil {
			u.undecided("units: rule %s not found", n)
			return false
		}
		u.fns[n] = f
	}
	u.toposort()
	prim := func(name string, p func(st *State, self Val, i int) []Res) {
		u.e.prims[u.fns[name].String()] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
			i := u.which(st, args[0])
			if i < 0 {
				return nil
			}
			u.where = u.w.posStr(fn.Pos())
			return p(st, args[0], i)
		}
	}
	errOnly := func(err Val) Val { return err }
	pair := func(err Val) Val { return VTuple{VNil{}, err} }

	prim("LoadFile", func(st *State, self Val, i int) []Res {
		out := u.failing(st, "load", errOnly)
		u.log(st, "load "+itoa(i))
		return append(out, Res{st: st, v: VNil{}})
	})
	prim("ParseUnitIdent", func(st *State, self Val, i int) []Res {
		out := u.failing(st, "ident", pair)
		unit := u.mk(st, u.w.lookupType("ast", "Unit"), map[string]Val{"Ident": u.mkIdent(st, u.c.nameOf(i)), "Path": VStr{"dir/" + unitLetters[i:i+1] + ".pas"}})
		if !u.setField(st, self, "Unit", unit) {
			u.undecided("units: UnitParser has no field Unit")
			return nil
		}
		u.log(st, "ident "+itoa(i))
		return append(out, Res{st: st, v: VTuple{unit, VNil{}}})
	})
	prim("ParseInterfaceSectionUses", func(st *State, self Val, i int) []Res {
		out := u.failing(st, "uses", pair)
		ctx, ok := u.ctxOf(st, self)
		if !ok {
			return nil
		}
		l, items := u.usesOf(st, u.c.intf[i], u.c.missing == i)
		sec := u.mk(st, u.w.lookupType("ast", "InterfaceSection"), map[string]Val{"UsesClause": l})
		var steps []ustep
		for _, it := range items {
			steps = append(steps, u.register(ctx, u.item(it), "the name of a used unit"))
		}
		return append(out, u.each(st, steps, func(s *State) []Res {
			return []Res{{st: s, v: VTuple{sec, VNil{}}}}
		})...)
	})
	prim("ParseInterfaceSectionDecls", func(st *State, self Val, i int) []Res {
		out := u.failing(st, "interface", errOnly)
		ctx, ok := u.ctxOf(st, self)
		if !ok {
			return nil
		}
		l := u.logged(st)
		for _, j := range u.c.intf[i] {
			if !strings.Contains(l, "intf "+itoa(j)+";") {
				u.bad(st, "order", "the interface of a unit is processed before the interface of a unit it uses (%s)", u.c)
			}
		}
		u.log(st, "intf "+itoa(i))
		steps := []ustep{u.lookup(ctx, "x", "in the interface of a unit, a name of the used units", func(*State) []Val { return []Val{u.winner(u.c.intf[i])} })}
		for j := range u.y {
			steps = append(steps, u.lookup(ctx, "Y"+itoa(j), "in the interface of a unit, an implementation-only name", func(*State) []Val { return []Val{VNil{}} }))
		}
		unit := u.field(st, self, "Unit")
		steps = append(steps, u.declaredBy(ctx, strings.ToLower(u.c.nameOf(i)), "in the interface of a unit, the unit's own name", unit))
		sec := u.field(st, unit, "InterfaceSection")
		uses, _ := u.e.elems(st, u.field(st, sec, "UsesClause"))
		for _, it := range uses {
			id := u.field(st, it, "Ident")
			nm, _ := u.field(st, id, "Name").(VStr)
			want := Val(VNil{})
			for j := 0; j < u.c.n; j++ {
				if strings.EqualFold(nm.S, u.c.nameOf(j)) {
					want = u.unitOf(st, j)
				}
			}
			got := u.field(st, it, "Unit")
			if isNilVal(want) != isNilVal(got) || !isNilVal(want) && !sameVal(got, want) {
				u.bad(st, "used unit", "when the interface of a unit is processed, a uses item does not refer to the loaded unit of that name (%s)", u.c)
			}
		}
		if u.declares(i) {
			steps = append(steps, u.register(ctx, u.x[i], "a declaration of a name that only used units have"),
				u.lookup(ctx, "X", "in the interface of a unit, its own declaration", func(*State) []Val { return []Val{u.xd[i]} }))
			list := u.e.newSlice(st, []Val{VOpq{K: "ifdecl", ID: i, T: u.w.lookupType("ast", "InterfaceDecl")}})
			if !u.setField(st, sec, "InterfaceDecls", list) {
				u.undecided("units: InterfaceSection has no field InterfaceDecls")
				return nil
			}
		}
		return append(out, u.each(st, steps, func(s *State) []Res { return []Res{{st: s, v: VNil{}}} })...)
	})
	prim("ParseImplUses", func(st *State, self Val, i int) []Res {
		out := u.failing(st, "implementation uses", errOnly)
		ctx, ok := u.ctxOf(st, self)
		if !ok {
			return nil
		}
		l := u.logged(st)
		for j := 0; j < u.c.n; j++ {
			if !strings.Contains(l, "intf "+itoa(j)+";") {
				u.bad(st, "implementation order", "an implementation is processed before the interface of every unit has been (%s)", u.c)
			}
		}
		lst, items := u.usesOf(st, u.c.impl[i], false)
		sec := u.mk(st, u.w.lookupType("ast", "ImplementationSection"), map[string]Val{"UsesClause": lst})
		if !u.setField(st, u.field(st, self, "Unit"), "ImplementationSection", sec) {
			u.undecided("units: Unit has no field ImplementationSection")
			return nil
		}
		steps := []ustep{func(st *State, k func(*State) []Res) []Res {
			return u.inner(st, ctx, "StackDeclMap", nil, func(s *State, _ Val) []Res { return k(s) })
		}}
		for _, it := range items {
			steps = append(steps, u.register(ctx, u.item(it), "the name of a used unit"))
		}
		return append(out, u.each(st, steps, func(s *State) []Res { return []Res{{st: s, v: VNil{}}} })...)
	})
	prim("ParseImplBody", func(st *State, self Val, i int) []Res {
		out := u.failing(st, "implementation", errOnly)
		ctx, ok := u.ctxOf(st, self)
		if !ok {
			return nil
		}
		u.log(st, "impl "+itoa(i))
		unit := u.field(st, self, "Unit")
		want := []Val{u.winner(u.c.intf[i])}
		if w := u.winner(u.c.impl[i]); !isNilVal(w) {
			if isNilVal(want[0]) {
				want = nil
			}
			want = append(want, w)
		}
		if u.declares(i) {
			want = []Val{u.xd[i]}
		}
		what := "a name of the used units"
		if u.declares(i) {
			what = "its own interface declaration"
		}
		steps := []ustep{u.lookup(ctx, "x", "in the implementation of a unit, "+what, func(*State) []Val { return want })}
		for j := range u.y {
			j := j
			if j != i {
				steps = append(steps, u.lookup(ctx, "y"+itoa(j), "in the implementation of a unit, an implementation-only name of another unit", func(*State) []Val { return []Val{VNil{}} }))
			}
		}
		steps = append(steps, u.register(ctx, u.y[i], "an implementation declaration"),
			u.lookup(ctx, "Y"+itoa(i), "in the implementation of a unit, its own implementation declaration", func(*State) []Val { return []Val{u.yd[i]} }),
			u.declaredBy(ctx, u.c.nameOf(i), "in the implementation of a unit, the unit's own name", unit))
		return append(out, u.each(st, steps, func(s *State) []Res {
			own := u.field(s, unit, "DeclMap")
			st2 := []ustep{u.lookup(own, "y"+itoa(i), "in the implementation of a unit, its own implementation declaration qualified with the unit's name", func(*State) []Val { return []Val{u.yd[i]} })}
			if u.declares(i) {
				st2 = append(st2, u.lookup(own, "x", "in the implementation of a unit, its own interface declaration qualified with the unit's name", func(*State) []Val { return []Val{u.xd[i]} }))
			}
			sec := u.field(s, unit, "ImplementationSection")
			uses, _ := u.e.elems(s, u.field(s, sec, "UsesClause"))
			for k, it := range uses {
				if got := u.field(s, it, "Unit"); !sameVal(got, u.unitOf(s, u.c.impl[i][k])) {
					u.bad(s, "used unit", "when the implementation of a unit is processed, a uses item does not refer to the loaded unit of that name (%s)", u.c)
				}
			}
			for j := 0; j < u.c.n; j++ {
				if j == i {
					continue
				}
				om := u.field(s, u.unitOf(s, j), "DeclMap")
				if isNilVal(om) {
					u.bad(s, "declarations", "while an implementation is processed another unit has no declarations (%s)", u.c)
					continue
				}
				j := j
				st2 = append(st2, u.lookup(om, "y"+itoa(j), "while another unit's implementation is processed, an implementation-only name qualified with its unit's name", func(*State) []Val { return []Val{VNil{}} }))
			}
			return u.each(s, st2, func(s *State) []Res { return []Res{{st: s, v: VNil{}}} })
		})...)
	})
	prim("ParseUnitEnd", func(st *State, self Val, i int) []Res {
		out := u.failing(st, "end", errOnly)
		u.log(st, "end "+itoa(i))
		return append(out, Res{st: st, v: VNil{}})
	})
	old := u.e.onOpqInvoke
	u.e.onOpqInvoke = func(e *Eng, st *State, recv VOpq, m *types.Func, args []Val, site ssa.Instruction) ([]Res, bool) {
		if recv.K == "ifdecl" && m.Name() == "GetDeclNodes" {
			return one(st, e.newSlice(st, []Val{u.x[recv.ID]})), true
		}
		return old(e, st, recv, m, args, site)
	}
	return true
}

// unitOf finds the loaded unit i in the program context.
func (u *Units) unitOf(st *State, i int) Val {
	ctx, ok := st.facts[factKey{"units", 0, "ctx"}]
	if !ok {
		return VBad{"no context"}
	}
	o := 0
	for _, ch := range ctx {
		o = o*10 + int(ch-'0')
	}
	us, _ := u.e.elems(st, u.field(st, VPtr{O: o}, "Units"))
	for _, x := range us {
		if p, ok := u.field(st, x, "Path").(VStr); ok && p.S == "dir/"+unitLetters[i:i+1]+".pas" {
			return x
		}
	}
	return VBad{"unit not loaded"}
}

// toposort models the graph library: nodes and edges are kept as text in the graph object.
func (u *Units) toposort() {
	const g = "github.com/philopon/go-toposort"
	text := func(st *State, v Val) (int, string, bool) {
		p, ok := v.(VPtr)
		if !ok {
			return 0, "", false
		}
		s, ok := u.e.content(st, p.O).(VStr)
		return p.O, s.S, ok
	}
	und := func() []Res { u.undecided("units: use of the graph library not followed"); return nil }
	u.e.prims[g+".NewGraph"] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		return one(st, VPtr{O: st.alloc(VStr{""})})
	}
	addNode := func(st *State, gr Val, v Val) (bool, bool) {
		o, s, ok := text(st, gr)
		n, ok2 := v.(VStr)
		if !ok || !ok2 {
			return false, false
		}
		dup := strings.Contains(s, "N "+n.S+";")
		u.e.setContent(st, o, VStr{s + "N " + n.S + ";"})
		return !dup, true
	}
	u.e.prims["(*"+g+".Graph).AddNode"] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		r, ok := addNode(st, args[0], args[1])
		if !ok {
			return und()
		}
		return one(st, VBool{r})
	}
	u.e.prims["(*"+g+".Graph).AddNodes"] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		el, ok := e.elems(st, args[1])
		if !ok {
			return und()
		}
		for _, x := range el {
			r, ok := addNode(st, args[0], x)
			if !ok {
				return und()
			}
			if !r {
				return one(st, VBool{false})
			}
		}
		return one(st, VBool{true})
	}
	u.e.prims["(*"+g+".Graph).AddEdge"] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		o, s, ok := text(st, args[0])
		a, ok1 := args[1].(VStr)
		b, ok2 := args[2].(VStr)
		if !ok || !ok1 || !ok2 {
			return und()
		}
		if !strings.Contains(s, "N "+a.S+";") {
			return one(st, VBool{false})
		}
		e.setContent(st, o, VStr{s + "E " + a.S + ">" + b.S + ";"})
		return one(st, VBool{true})
	}
	u.e.prims["(*"+g+".Graph).RemoveEdge"] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		return und()
	}
	u.e.prims["(*"+g+".Graph).Toposort"] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		_, s, ok := text(st, args[0])
		if !ok {
			return und()
		}
		var nodes []string
		var edges [][2]string
		seen := map[string]bool{}
		for _, l := range strings.Split(s, ";") {
			switch {
			case strings.HasPrefix(l, "N "):
				nodes = append(nodes, l[2:])
			case strings.HasPrefix(l, "E "):
				if seen[l] {
					e.panicEvent(st, site, "the graph library panics on a repeated edge")
					return []Res{{st: st, panic: "toposort"}}
				}
				seen[l] = true
				f := strings.Split(l[2:], ">")
				edges = append(edges, [2]string{f[0], f[1]})
			}
		}
		orders := linearizations(nodes, edges)
		if len(orders) == 0 {
			// the library gives the nodes it could place
			var el []Val
			placed := map[string]bool{}
			for again := true; again; {
				again = false
				for _, n := range nodes {
					free := !placed[n]
					for _, ed := range edges {
						if ed[1] == n && !placed[ed[0]] {
							free = false
						}
					}
					if free {
						placed[n] = true
						el = append(el, VStr{n})
						again = true
					}
				}
			}
			return one(st, VTuple{e.newSlice(st, el), VBool{false}})
		}
		var out []Res
		for i, o := range orders {
			n := st
			if i < len(orders)-1 {
				n = st.clone()
			}
			var el []Val
			for _, x := range o {
				el = append(el, VStr{x})
			}
			out = append(out, Res{st: n, v: VTuple{e.newSlice(n, el), VBool{true}}})
		}
		return out
	}
}

// linearizations lists the orders of the nodes in which every edge goes forward, at most a handful: the first and the
// last in lexicographic choice order and those between, up to 6.
func linearizations(nodes []string, edges [][2]string) [][]string {
	in := map[string]bool{}
	for _, n := range nodes {
		in[n] = true
	}
	var out [][]string
	var rec func(done []string, used map[string]bool)
	rec = func(done []string, used map[string]bool) {
		if len(done) == len(in) {
			out = append(out, append([]string{}, done...))
			return
		}
		for _, n := range nodes {
			if used[n] {
				continue
			}
			free := true
			for _, ed := range edges {
				if ed[1] == n && !used[ed[0]] {
					free = false
				}
			}
			if free {
				used[n] = true
				rec(append(done, n), used)
				delete(used, n)
			}
		}
	}
	rec(nil, map[string]bool{})
	if len(out) > 6 {
		out = append(append([][]string{}, out[:3]...), out[len(out)-3:]...)
	}
	return out
}

// scenario interprets LoadUnits on one configuration.
func (u *Units) scenario(c *uscn) {
	u.c = c
	st := u.begin("units")
	load := u.w.method("parser", "ProgramParser", "LoadUnits")
	npp := u.w.fn("parser", "NewProgramParser")
	pn := u.w.fn("parser/pcontext", "NewProgramContext")
	ch := u.w.fn("ast/astcore", "NewChainedDeclMap")
	if load == nil || npp == nil || pn == nil || ch == nil {
		u.undecided("units: LoadUnits or a constructor not found")
		return
	}
	u.x, u.xd, u.y, u.yd = nil, nil, nil, nil
	for i := 0; i < c.n; i++ {
		n, d := u.declNode(st, "X")
		u.x, u.xd = append(u.x, n), append(u.xd, d[0])
		n, d = u.declNode(st, "Y"+itoa(i))
		u.y, u.yd = append(u.y, n), append(u.yd, d[0])
	}
	outer := u.scope(st)
	u.prepare(st, outer, "X")
	var items []Val
	for k, i := range c.prog {
		if c.extra && k == len(c.prog)/2 {
			items = append(items, u.mk(st, u.w.lookupType("ast", "UsesClauseItem"), map[string]Val{"Ident": u.mkIdent(st, "Windows")}))
		}
		nm := strings.ToLower(unitName(i))
		path := VPtr{O: st.alloc(VStr{"'dir\\" + unitLetters[i:i+1] + ".pas'"})}
		items = append(items, u.mk(st, u.w.lookupType("ast", "UsesClauseItem"), map[string]Val{"Ident": u.mkIdent(st, nm), "Path": path}))
	}
	uses := u.e.newSlice(st, items)
	prog := u.mk(st, u.w.lookupType("ast", "Program"), map[string]Val{"Ident": u.mkIdent(st, "Main")})
	u.callFn(st, ch, []Val{outer}, func(s *State, m Val) {
		args := u.e.newSlice(s, []Val{asIface(ch.Signature.Results().At(0).Type(), m), VIface{T: types.Typ[types.String], V: VStr{"main.dpr"}}})
		u.callFn(s, pn, []Val{args}, func(s *State, ctx Val) {
			o, ok := ctx.(VPtr)
			if !ok {
				u.undecided("units: program context not followed")
				return
			}
			s.facts[factKey{"units", 0, "ctx"}] = itoa(o.O)
			ci := asIface(pn.Signature.Results().At(0).Type(), ctx)
			u.callFn(s, npp, []Val{ctx}, func(s *State, pp Val) {
				if !u.setField(s, pp, "Program", prog) {
					u.undecided("units: ProgramParser has no field Program")
					return
				}
				s2 := []*State{}
				var steps []ustep
				for _, it := range items {
					steps = append(steps, u.register(ci, u.item(it), "the name of a used unit"))
				}
				u.each(s, steps, func(s *State) []Res { s2 = append(s2, s); return nil })
				for _, s := range s2 {
					u.callFn(s, load, []Val{pp, uses}, func(s *State, v Val) { u.after(s, ci, prog, items, outer, v) })
				}
			})
		})
	})
}

// after judges an outcome of LoadUnits.
func (u *Units) after(s *State, ctx, prog Val, items []Val, outer VOpq, v Val) {
	c := u.c
	e, known := isErr(v)
	if !known {
		u.undecided("units: result of LoadUnits not followed (%T)", v)
		return
	}
	l := u.logged(s)
	if i := strings.Index(l, "fail "); i >= 0 {
		if !e {
			u.bad(s, "error lost", "a failure to read or parse a unit is not returned (%s)", l[i:])
		}
		return
	}
	if c.names != nil {
		seen := map[string]bool{}
		dup := false
		for _, i := range c.prog {
			n := strings.ToLower(c.nameOf(i))
			dup = dup || seen[n]
			seen[n] = true
		}
		if dup && !e {
			u.bad(s, "duplicate accepted", "two used files with the same unit name are accepted")
		}
		return
	}
	if c.cyclic() {
		if !e {
			u.bad(s, "cycle accepted", "units whose interfaces use each other are accepted (%s)", c)
		}
		return
	}
	if e {
		u.bad(s, "rejected", "units that can be ordered are rejected (%s)", c)
		return
	}
	for i := 0; i < c.n; i++ {
		for _, step := range []string{"load", "ident", "intf", "impl", "end"} {
			if n := strings.Count(l, step+" "+itoa(i)+";"); n != 1 {
				u.bad(s, step+" count", "the %s step of a unit is done %d times (%s)", step, n, c)
			}
		}
	}
	us, _ := u.e.elems(s, u.field(s, ctx, "Units"))
	if len(us) != c.n {
		u.bad(s, "units", "%d units are recorded for a program of %d units", len(us), c.n)
		return
	}
	steps := []ustep{}
	for k, i := range c.prog {
		unit := u.unitOf(s, i)
		if _, ok := unit.(VPtr); !ok {
			u.bad(s, "units", "a used unit is not recorded in the program (%s)", c)
			return
		}
		_ = k
		for _, it := range items {
			nm, _ := u.field(s, u.field(s, it, "Ident"), "Name").(VStr)
			if strings.EqualFold(nm.S, c.nameOf(i)) {
				if !sameVal(u.field(s, it, "Unit"), unit) {
					u.bad(s, "program uses", "a uses item of the program does not refer to the loaded unit of that name (%s)", c)
				}
				steps = append(steps, u.declaredBy(ctx, c.nameOf(i), "in the program, the name of a used unit", it))
			}
		}
		om := u.field(s, unit, "DeclMap")
		if isNilVal(om) {
			u.bad(s, "declarations", "after loading a unit has no declarations (%s)", c)
			return
		}
		want := Val(VNil{})
		what := "a name it does not declare"
		if u.declares(i) {
			want = u.xd[i]
			what = "its interface declaration"
		}
		i := i
		steps = append(steps, u.lookup(om, "x", "after loading, qualified with the unit's name, "+what, func(*State) []Val { return []Val{want} }),
			u.lookup(om, "y"+itoa(i), "after loading, qualified with the unit's name, an implementation-only name", func(*State) []Val { return []Val{VNil{}} }),
			u.lookup(ctx, "Y"+itoa(i), "in the program, an implementation-only name", func(*State) []Val { return []Val{VNil{}} }))
	}
	what := "a name of the used units"
	steps = append(steps, u.lookup(ctx, "x", "in the program, "+what, func(s *State) []Val {
		if w := u.winner(c.prog); !isNilVal(w) {
			return []Val{w}
		}
		switch u.has(s, outer, "X") {
		case "T":
			return []Val{VPtr{O: u.decls[itoa(outer.ID)+"/x"]}}
		}
		return []Val{VNil{}}
	}), u.declaredBy(ctx, "MAIN", "in the program, the program's own name", prog))
	local := u.field(s, prog, "DeclMap")
	if isNilVal(local) {
		u.bad(s, "program declarations", "after loading units the program has no declarations")
		return
	}
	z, zd := u.declNode(s, "X")
	steps = append(steps, u.register(ctx, z, "in the program, a declaration of a name that only used units have"),
		u.lookup(ctx, "x", "in the program, its own declaration", func(*State) []Val { return []Val{zd[0]} }),
		u.lookup(local, "x", "in the program, its own declaration qualified with the program's name", func(*State) []Val { return []Val{zd[0]} }))
	for _, i := range c.prog {
		i := i
		om := u.field(s, u.unitOf(s, i), "DeclMap")
		want := Val(VNil{})
		if u.declares(i) {
			want = u.xd[i]
		}
		steps = append(steps, u.lookup(om, "x", "after the program declares a name, the unit's declaration of that name", func(*State) []Val { return []Val{want} }))
	}
	u.each(s, steps, func(*State) []Res { return nil })
}

// subsets lists the subsets of the other units of i.
func othersOf(i, n, mask int) []int {
	var r []int
	for j := 0; j < n; j++ {
		if j != i && mask&(1<<uint(j)) != 0 {
			r = append(r, j)
		}
	}
	return r
}

func reversed(l []int) []int {
	var r []int
	for i := len(l) - 1; i >= 0; i-- {
		r = append(r, l[i])
	}
	return r
}

func upto(n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}

// graphs enumerates the configurations.
func unitConfigs(tier string) []*uscn {
	var cs []*uscn
	cs = append(cs, &uscn{missing: -1})
	max := 3
	for n := 1; n <= max; n++ {
		bits := n * (n - 1)
		for g := 0; g < 1<<uint(bits); g++ {
			intf := make([][]int, n)
			b := 0
			for i := 0; i < n; i++ {
				mask := 0
				for j := 0; j < n; j++ {
					if j == i {
						continue
					}
					if g&(1<<uint(b)) != 0 {
						mask |= 1 << uint(j)
					}
					b++
				}
				intf[i] = othersOf(i, n, mask)
				if g%2 == 1 {
					intf[i] = reversed(intf[i])
				}
			}
			full := 1<<uint(n) - 1
			decls := []int{full}
			if n < 3 || tier == "thorough" {
				decls = upto(full + 1)
			} else {
				decls = append(decls, g%full)
			}
			for _, d := range decls {
				for v := 0; v < 3; v++ {
					impl := make([][]int, n)
					for i := range impl {
						used := 0
						for _, j := range intf[i] {
							used |= 1 << uint(j)
						}
						switch v {
						case 1:
							impl[i] = othersOf(i, n, full&^used)
						case 2:
							impl[i] = reversed(othersOf(i, n, full&^used))
						}
					}
					if v == 2 && n < 3 {
						continue
					}
					prog := upto(n)
					if (g+v)%2 == 1 {
						prog = reversed(prog)
					}
					miss := -1
					if (g+d)%3 == 0 {
						miss = (g + v) % n
					}
					cs = append(cs, &uscn{n: n, intf: intf, impl: impl, missing: miss, decl: d, prog: prog, extra: (g+d)%2 == 0, fail: v == 1})
				}
			}
		}
	}
	none := func(n int) [][]int { return make([][]int, n) }
	// a unit that uses itself
	cs = append(cs, &uscn{n: 1, intf: [][]int{{0}}, impl: none(1), missing: -1, decl: 1, prog: []int{0}})
	cs = append(cs, &uscn{n: 2, intf: [][]int{{}, {1, 0}}, impl: none(2), missing: -1, decl: 3, prog: []int{0, 1}})
	// four units: a diamond, a chain, a cycle behind a chain
	cs = append(cs, &uscn{n: 4, intf: [][]int{{1, 2}, {3}, {3}, {}}, impl: [][]int{{}, {}, {}, {0, 1, 2}}, missing: 2, decl: 6, prog: []int{0, 1, 2, 3}, fail: true})
	cs = append(cs, &uscn{n: 4, intf: [][]int{{2, 1}, {3}, {3}, {}}, impl: none(4), missing: -1, decl: 15, prog: []int{3, 0, 2, 1}})
	cs = append(cs, &uscn{n: 4, intf: [][]int{{1}, {2}, {3}, {}}, impl: [][]int{{2, 3}, {0}, {0}, {0, 2}}, missing: -1, decl: 10, prog: []int{0, 1, 2, 3}})
	cs = append(cs, &uscn{n: 4, intf: [][]int{{1}, {2}, {3}, {1}}, impl: none(4), missing: -1, decl: 15, prog: []int{0, 1, 2, 3}})
	// two files with the same unit name
	cs = append(cs, &uscn{n: 2, intf: none(2), impl: none(2), missing: -1, decl: 3, prog: []int{0, 1}, names: []string{"UnitA", "unita"}})
	cs = append(cs, &uscn{n: 3, intf: none(3), impl: none(3), missing: -1, decl: 7, prog: []int{0, 1, 2}, names: []string{"UnitA", "UnitB", "UNITa"}})
	cs = append(cs, &uscn{n: 2, intf: none(2), impl: none(2), missing: -1, decl: 3, prog: []int{0, 1}, names: []string{"UnitA", "Other"}})
	return cs
}

func unitAnalysis(w *World, rep *Report, tier string, small bool, only ...string) {
	full := rep
	if len(only) > 0 {
		rep = newReport(full.Prop, "")
		defer func() {
			for _, f := range rep.Findings {
				for _, o := range only {
					if strings.Contains(f.Key, o) {
						full.Findings = append(full.Findings, f)
						break
					}
				}
			}
			full.Coverage["unit_configurations"] = rep.Coverage["unit_configurations"]
		}()
	}
	u := &Units{Scopes: newScopes(w, rep)}
	u.upT = w.lookupType("parser", "UnitParser")
	uc := w.lookupType("parser/pcontext", "UnitContext")
	if !u.ok() || u.upT == nil || uc == nil || w.lookupType("ast", "Unit") == nil || w.lookupType("ast", "UsesClauseItem") == nil {
		u.undecided("units: types not found")
		u.done()
		return
	}
	u.uctxT = types.NewPointer(uc)
	if !u.install() {
		u.done()
		return
	}
	cs := unitConfigs(tier)
	if small {
		var few []*uscn
		for _, c := range cs {
			if c.n != 3 || c.fail && c.decl == 7 && len(c.intf[0]) == 1 {
				few = append(few, c)
			}
		}
		cs = few
	}
	n := 0
	for _, c := range cs {
		if len(u.und) > 0 {
			break
		}
		u.scenario(c)
		n++
	}
	u.done()
	rep.Coverage["unit_configurations"] = n
}

func checkC19(w *World, tier string) *Report {
	rep := newReport("C19", "LoadUnits is interpreted with the parse rules of units replaced by their contracts, for every graph of uses clauses between up to 3 units (4 for chosen shapes), every valid order the graph library may give and every failing step: interfaces follow the interfaces they use, implementations follow all interfaces, each unit is processed once, cycles and failures are errors, and implementation-only names stay inside their unit")
	unitAnalysis(w, rep, tier, false)
	return rep
}

func init() { checks["C19"] = checkC19 }

var _ = sort.Strings
