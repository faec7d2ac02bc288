package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type matcher struct {
	pc  *PC
	st  *State
	why string
	dep int
}

func (m *matcher) fail(path, format string, a ...interface{}) bool {
	if m.why == "" {
		m.why = path + ": " + fmt.Sprintf(format, a...)
	}
	return false
}

func stripAssert(p string) string {
	for {
		i := strings.LastIndex(p, "!")
		if i < 0 || strings.ContainsAny(p[i:], ".[(") && !strings.HasPrefix(p[i:], "!*") && !strings.HasPrefix(p[i:], "!ast") {
			return p
		}
		// an assertion suffix has the form !pkg.Name or !*pkg.Name with nothing after it
		s := strings.TrimPrefix(p[i+1:], "*")
		if strings.Count(s, ".") > 1 || strings.ContainsAny(s, "[({") {
			return p
		}
		p = p[:i]
	}
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, shortQual)
}

func (m *matcher) show(v Val) string {
	switch x := v.(type) {
	case nil, VNil:
		return "nothing"
	case VOpq:
		return "<" + strings.TrimPrefix(x.K, "nt:") + x.Path + ">"
	case VTokStr:
		return "text of " + m.pc.sp.uni.setText(m.st.cls[x.S])
	case VStr:
		return fmt.Sprintf("%q", x.S)
	case VBool:
		return fmt.Sprint(x.B)
	case VIface:
		return typeName(x.T)
	case VPtr:
		if c, ok := m.pc.e.load(m.st, x); ok {
			if s, ok := c.(*VStruct); ok {
				return typeName(s.T)
			}
		}
	case VSlice:
		return fmt.Sprintf("list of %d", x.Hi-x.Lo)
	}
	return fmt.Sprintf("%T", v)
}

func (m *matcher) showSV(v SV) string {
	switch x := v.(type) {
	case SVNil:
		return "nothing"
	case SVTok:
		return "token " + m.pc.sp.uni.setText(m.st.cls[x.S])
	case VOpq:
		return "<" + strings.TrimPrefix(x.K, "nt:") + ">"
	case *SVList:
		return fmt.Sprintf("list of %d", len(x.E))
	case *SVTerm:
		switch x.Op {
		case "node", "cast":
			return x.Name
		case "str":
			return fmt.Sprintf("%q", x.Name)
		}
		if len(x.Args) > 0 {
			return x.Op + " of " + m.showSV(x.Args[0])
		}
		return x.Op
	}
	return "?"
}

func (m *matcher) match(a Val, s SV, path string) bool {
	m.dep++
	defer func() { m.dep-- }()
	if m.dep > 60 {
		return m.fail(path, "too deep")
	}
	e, st := m.pc.e, m.st
	switch x := s.(type) {
	case SVNil, nil:
		if isZero(e, st, a) {
			return true
		}
		// an optional list may be an empty object
		if p, ok := a.(VPtr); ok {
			_ = p
		}
		return m.fail(path, "holds %s although the source has none", m.show(a))
	case SVBad:
		return m.fail(path, "list items lost or out of order")
	case VOpq:
		if i, ok := a.(VIface); ok {
			a = i.V
		}
		o, ok := a.(VOpq)
		if !ok || o.K != x.K || o.ID != x.ID || stripAssert(o.Path) != x.Path {
			return m.fail(path, "holds %s instead of %s", m.show(a), m.showSV(s))
		}
		return true
	case SVTok:
		return m.fail(path, "specification error: bare token")
	case *SVList:
		if i, ok := a.(VIface); ok {
			a = i.V
		}
		el, ok := e.elems(st, a)
		if !ok {
			return m.fail(path, "holds %s instead of a list", m.show(a))
		}
		if len(el) != len(x.E) {
			return m.fail(path, "has %d items instead of %d", len(el), len(x.E))
		}
		for i := range el {
			if !m.match(el[i], x.E[i], path+"[]") {
				return false
			}
		}
		return true
	case *SVTerm:
		return m.term(a, x, path)
	}
	return m.fail(path, "specification error %T", s)
}

func (m *matcher) tok(x *SVTerm, i int) (int, bool) {
	if len(x.Args) <= i {
		return 0, false
	}
	t, ok := x.Args[i].(SVTok)
	return t.S, ok
}

func (m *matcher) structOf(a Val) (*VStruct, bool) {
	switch y := a.(type) {
	case VIface:
		return m.structOf(y.V)
	case *VStruct:
		return y, true
	case VPtr:
		c, ok := m.pc.e.load(m.st, y)
		if !ok {
			return nil, false
		}
		s, ok := c.(*VStruct)
		return s, ok
	}
	return nil, false
}

func (m *matcher) term(a Val, x *SVTerm, path string) bool {
	e, st, u := m.pc.e, m.st, m.pc.sp.uni
	switch x.Op {
	case "any":
		return true
	case "true", "false":
		if b, ok := a.(VBool); ok && b.B == (x.Op == "true") {
			return true
		}
		if o, ok := a.(VOpq); ok {
			if f := st.facts[factKey{o.K, o.ID, o.Path + "?"}]; f == "T" && x.Op == "true" || f == "F" && x.Op == "false" {
				return true
			}
		}
		return m.fail(path, "is %s instead of %s", m.show(a), x.Op)
	case "str":
		if b, ok := a.(VStr); ok && b.S == x.Name {
			return true
		}
		if t, ok := a.(VTokStr); ok {
			yes, _ := u.strSets(t.Form, x.Name)
			if t.Form == 'r' && strings.ToUpper(x.Name) == strings.ToLower(x.Name) || t.Form != 'r' {
				if st.cls[t.S].subset(yes) {
					return true
				}
			}
		}
		return m.fail(path, "is %s instead of %q", m.show(a), x.Name)
	case "const":
		p := m.pc.w.Types[modPath+"/ast"]
		if p == nil {
			return m.fail(path, "package ast is missing")
		}
		c, ok := p.Scope().Lookup(x.Name).(*types.Const)
		if !ok {
			return m.fail(path, "constant %s is missing", x.Name)
		}
		n, _ := constant.Int64Val(c.Val())
		if v, ok := a.(VInt); ok && v.N == n {
			return true
		}
		return m.fail(path, "is %s instead of %s", m.show(a), x.Name)
	case "num", "cmember":
		s, ok := m.tok(x, 0)
		if o, ok2 := a.(VOpq); ok && ok2 && o.K == x.Op && o.ID == s && o.Path == "" {
			return true
		}
		return m.fail(path, "is %s instead of %s", m.show(a), m.showSV(x))
	case "inherit":
		// the property a property inherits from: the one found in the class and its ancestors, when it is inherited from
		s, ok := m.tok(x, 0)
		if !ok {
			return m.fail(path, "specification error: inherit of a non-token")
		}
		found, asked := st.tag("prop=")
		inh, judged := st.tag("inh=")
		if isNilVal(a) {
			if asked && found == "T" && judged && inh[0] == 'T' {
				return m.fail(path, "is nothing although the property inherits from a property of an ancestor")
			}
		} else if o, ok := a.(VOpq); !ok || o.K != "cprop" || o.ID != s || o.Path != "" {
			return m.fail(path, "is %s instead of the nearest ancestor's property of that name", m.show(a))
		} else if judged && inh[0] == 'F' {
			return m.fail(path, "is set although the property does not inherit from a property of an ancestor")
		}
		if judged && len(inh) == 5 {
			for i := 1; i < 5 && i < len(x.Args); i++ {
				_, no := x.Args[i].(SVNil)
				if no != (inh[i] == '0') {
					return m.fail(path, "is decided before all specifiers of the property are recorded")
				}
			}
		}
		return true
	case "absident":
		s, ok := m.tok(x, 0)
		b, ok2 := m.structOf(a)
		if i, ok := a.(VIface); !ok || typeName(i.T) != "VarDeclAbsoluteIdent" {
			ok2 = false
		}
		if !ok || !ok2 {
			return m.fail(path, "is %s instead of an identifier", m.show(a))
		}
		return m.ident(b, s, path)
	case "raw", "val", "upper", "lower":
		s, ok := m.tok(x, 0)
		if !ok {
			return m.fail(path, "specification error: %s of a non-token", x.Op)
		}
		cls := st.cls[s]
		switch t := a.(type) {
		case VTokStr:
			if t.S != s {
				return m.fail(path, "holds the text of another token")
			}
			words := cls.and(u.byKind["word"].or(u.byKind["ident"]).or(u.byKind["str"]).or(u.byKind["real"]).or(u.byKind["int"]))
			switch x.Op {
			case "raw":
				if t.Form == 'r' || words.empty() {
					return true
				}
				return m.fail(path, "changes the letter case of the source text")
			case "upper":
				if t.Form == 'u' || words.empty() {
					return true
				}
				return m.fail(path, "keeps the letter case of the source text")
			case "lower":
				if t.Form == 'l' || words.empty() {
					return true
				}
				return m.fail(path, "is not in lower case")
			case "val":
				if cls.subset(u.byKind["word"]) {
					if t.Form == 'u' {
						return true
					}
					return m.fail(path, "keeps the letter case of a reserved word")
				}
				if cls.and(u.byKind["word"]).empty() && (t.Form == 'r' || words.empty()) {
					return true
				}
				return m.fail(path, "has the wrong letter case")
			}
		case VStr:
			if x.Op == "raw" && strings.ToUpper(t.S) != strings.ToLower(t.S) {
				break
			}
			if x.Op == "val" && !cls.subset(u.byKind["word"].or(u.byKind["sym"])) {
				break
			}
			yes, _ := u.strSets('u', t.S)
			if cls.subset(yes) && !cls.empty() {
				return true
			}
		}
		return m.fail(path, "is %s instead of the text of %s", m.show(a), u.setText(cls))
	case "decl":
		s, ok := m.tok(x, 0)
		if !ok {
			return m.fail(path, "specification error: decl of a non-token")
		}
		switch y := a.(type) {
		case VOpq:
			if y.K == "decl" && y.ID == s && y.Path == "" {
				return true
			}
			if y.K == "decl" && y.Path == "" {
				return m.fail(path, "refers to the declaration of another name")
			}
		case VNil:
			if st.cls[s].and(m.pc.declSet()).empty() {
				return true
			}
			return m.fail(path, "does not refer to the declaration of its name")
		}
		return m.fail(path, "is %s instead of the declaration of its name", m.show(a))
	case "opt":
		if isZero(e, st, a) {
			return true
		}
		return m.match(a, x.Args[0], path)
	case "embedded":
		s, ok := m.tok(x, 0)
		if !ok {
			return m.fail(path, "specification error: embedded of a non-token")
		}
		if b, ok := m.structOf(a); ok && typeName(b.T) == "Decl" {
			for _, f := range b.F {
				if id, ok := m.structOf(f); ok && typeName(id.T) == "Ident" {
					for _, g := range id.F {
						if n, ok := g.(VStr); ok {
							yes, _ := u.strSets('u', strings.ToUpper(n.S))
							if st.cls[s].subset(yes) {
								return true
							}
						}
					}
				}
			}
		}
		return m.fail(path, "is %s instead of the built-in declaration of %s", m.show(a), u.setText(st.cls[s]))
	case "member":
		s, ok := m.tok(x, 0)
		if !ok {
			return m.fail(path, "specification error: member of a non-token")
		}
		if y, ok := a.(VOpq); ok && y.K == "member" && y.ID == s && y.Path == "" {
			return true
		}
		return m.fail(path, "is %s instead of the declaration of its name in the unit", m.show(a))
	case "path":
		if _, ok := a.(VPath); !ok {
			return m.fail(path, "is %s instead of the path of the file", m.show(a))
		}
		return true
	case "ident":
		s, ok := m.tok(x, 0)
		if !ok {
			return m.fail(path, "specification error: ident of a non-token")
		}
		b, ok := m.structOf(a)
		if !ok || typeName(b.T) != "Ident" {
			return m.fail(path, "is %s instead of an identifier", m.show(a))
		}
		return m.ident(b, s, path)
	case "ptr":
		p, ok := a.(VPtr)
		if !ok {
			return m.fail(path, "is %s instead of a reference", m.show(a))
		}
		c, ok := e.load(st, p)
		if !ok {
			return m.fail(path, "unknown content")
		}
		return m.match(c, x.Args[0], path)
	case "cast":
		if i, ok := a.(VIface); ok {
			if typeName(i.T) != x.Name {
				return m.fail(path, "is %s instead of %s", typeName(i.T), x.Name)
			}
			a = i.V
		}
		return m.match(a, x.Args[0], path)
	case "node":
		if i, ok := a.(VIface); ok {
			if typeName(i.T) != x.Name {
				return m.fail(path, "is %s instead of %s", typeName(i.T), x.Name)
			}
			a = i.V
		}
		b, ok := m.structOf(a)
		if !ok {
			return m.fail(path, "is %s instead of %s", m.show(a), x.Name)
		}
		if typeName(b.T) != x.Name {
			return m.fail(path, "is %s instead of %s", typeName(b.T), x.Name)
		}
		ts, _ := under(b.T).(*types.Struct)
		used := map[string]bool{}
		for k, f := range x.Fld {
			used[f] = true
			i := -1
			for j := 0; j < ts.NumFields(); j++ {
				if ts.Field(j).Name() == f {
					i = j
				}
			}
			if i < 0 {
				// a field that no longer exists carries nothing
				if _, isNil := x.Args[k].(SVNil); isNil {
					continue
				}
				if t, ok := x.Args[k].(*SVTerm); ok && (t.Op == "any" || t.Op == "false") {
					continue
				}
				return m.fail(path+"."+f, "no such field in %s", x.Name)
			}
			if !m.match(b.F[i], x.Args[k], path+"."+f) {
				return false
			}
		}
		if !x.Open {
			for j := 0; j < ts.NumFields(); j++ {
				if !used[ts.Field(j).Name()] && !isZero(e, st, b.F[j]) {
					return m.fail(path+"."+ts.Field(j).Name(), "holds %s although the source has none", m.show(b.F[j]))
				}
			}
		}
		return true
	}
	return m.fail(path, "specification error: op %s", x.Op)
}

func (m *matcher) ident(b *VStruct, s int, path string) bool {
	ts := under(b.T).(*types.Struct)
	for i := 0; i < ts.NumFields(); i++ {
		switch ts.Field(i).Name() {
		case "Name":
			t, ok := b.F[i].(VTokStr)
			if !ok || t.S != s {
				return m.fail(path+".Name", "is %s instead of the text of %s", m.show(b.F[i]), m.pc.sp.uni.setText(m.st.cls[s]))
			}
			if t.Form != 'r' {
				return m.fail(path+".Name", "changes the letter case of the source text")
			}
		case "Location":
			l, ok := m.structOf(b.F[i])
			if !ok {
				return m.fail(path+".Location", "is missing")
			}
			ls := under(l.T).(*types.Struct)
			for j := 0; j < ls.NumFields(); j++ {
				var w byte
				switch ls.Field(j).Name() {
				case "Start":
					w = 'S'
				case "End":
					w = 'E'
				default:
					continue
				}
				p, ok := m.structOf(l.F[j])
				if !ok {
					return m.fail(path+".Location."+ls.Field(j).Name(), "is missing")
				}
				pst := under(p.T).(*types.Struct)
				for k, f := range p.F {
					want := map[string]byte{"Line": 'L', "Col": 'C', "Index": 'I'}[pst.Field(k).Name()]
					if n, ok := f.(VTokNum); !ok || n.S != s || n.W != w || want != 0 && n.F != want {
						return m.fail(path+".Location."+ls.Field(j).Name(), "is not the position of the name")
					}
				}
			}
		}
	}
	return true
}

// decls compares the registrations made with the ones the specification expects.
func (m *matcher) decls(cfg *Cfg) string {
	act := m.st.decls
	used := make([]bool, len(act))
	for _, d := range cfg.decls {
		found, why := false, ""
		for i, a := range act {
			if used[i] {
				continue
			}
			mm := &matcher{pc: m.pc, st: m.st}
			if !mm.match(a.Obj, d.What, "registered node") {
				why = mm.why
				continue
			}
			if d.Name != nil && (a.Name == nil || !mm.match(a.Name, d.Name, "registered name")) {
				why = mm.why
				continue
			}
			if d.Name == nil && a.Name != nil {
				continue
			}
			if a.Depth != d.Depth {
				why = fmt.Sprintf("registered in scope level %d instead of %d", a.Depth, d.Depth)
				continue
			}
			used[i] = true
			found = true
			break
		}
		if !found {
			if why == "" {
				why = "no registration"
			}
			return fmt.Sprintf("the declaration of %s is not registered (%s)", m.showSV(d.What), why)
		}
	}
	for i, a := range act {
		if !used[i] {
			return fmt.Sprintf("registers %s, which is not declared here", m.show(a.Obj))
		}
	}
	return ""
}

// ---------- folding of lists at joins ----------

func (pc *PC) liveObjs(st *State, live []ssa.Value, extra []Val) map[int]bool {
	seen := map[int]bool{}
	var queue []int
	var val func(v Val)
	obj := func(o int) {
		if o > pc.e.staticMax && !seen[o] {
			seen[o] = true
			queue = append(queue, o)
		}
	}
	val = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			obj(x.O)
		case VSlice:
			obj(x.O)
		case VMap:
			obj(x.O)
		case VFn:
			for _, b := range x.B {
				val(b)
			}
		case VPrim:
			for _, b := range x.B {
				val(b)
			}
		case VOpq:
			if x.K == "ctx" {
				obj(x.ID)
			}
		case VIface:
			val(x.V)
		case VTuple:
			for _, b := range x {
				val(b)
			}
		case *VStruct:
			for _, b := range x.F {
				val(b)
			}
		case *VArr:
			for _, b := range x.E {
				val(b)
			}
		case *VMapC:
			for _, b := range x.E {
				val(b.V)
			}
		case VIter:
			obj(x.O)
		}
	}
	for fi, f := range st.frames {
		var lv []ssa.Value
		if fi == len(st.frames)-1 && f.site == nil {
			lv = live
		} else if f.site != nil {
			lv = pc.e.liveAfter(f.site)
		}
		for _, v := range lv {
			if x, ok := f.env[v]; ok {
				val(x)
			}
		}
		for _, d := range f.defers {
			val(d.fn)
			for _, a := range d.args {
				val(a)
			}
		}
	}
	for _, x := range extra {
		val(x)
	}
	for _, r := range pc.e.roots {
		val(r)
	}
	for _, d := range st.decls {
		val(d.Obj)
		val(d.Name)
	}
	for len(queue) > 0 {
		o := queue[0]
		queue = queue[1:]
		val(st.heap[o])
	}
	return seen
}

const foldKeep = 1
const foldMax = 3

// collapse folds list prefixes that the code and the specification agree on, and cancels matched registrations.
func (pc *PC) collapse(e *Eng, st *State, live []ssa.Value, extra ...Val) {
	co, ok := pc.cursorObj(st)
	if !ok {
		return
	}
	cur, ok := st.heap[co].(VCursor)
	if !ok {
		return
	}
	g := cur.G
	alive := g.alive()
	// registrations
	if alive && len(st.decls) > 0 {
		for len(st.decls) > 0 {
			a := st.decls[0]
			all := true
			for _, cf := range g.cfgs {
				if len(cf.decls) == 0 {
					all = false
					break
				}
				d := cf.decls[0]
				m := &matcher{pc: pc, st: st}
				if a.Depth != d.Depth || (a.Name == nil) != (d.Name == nil) || !m.match(a.Obj, d.What, "") || d.Name != nil && !m.match(a.Name, d.Name, "") {
					all = false
					break
				}
			}
			if !all {
				break
			}
			st.decls = append([]DeclEv{}, st.decls[1:]...)
			ng := &Ghost{}
			for _, cf := range g.cfgs {
				n := cf.clone()
				n.decls = n.decls[1:]
				ng.cfgs = append(ng.cfgs, n)
			}
			g = ng
		}
	}
	if !alive {
		st.decls = nil
	}
	if len(st.decls) > 6 {
		// keep the state finite: registrations nobody asked for
		st.decls = append([]DeclEv{}, st.decls[len(st.decls)-6:]...)
	}
	objs := pc.liveObjs(st, live, extra)
	type arr struct {
		o int
		a *VArr
	}
	var arrs []arr
	for o := range objs {
		if a, ok := st.heap[o].(*VArr); ok && len(a.E) >= 2 {
			arrs = append(arrs, arr{o, a})
		}
	}
	sort.Slice(arrs, func(i, j int) bool { return arrs[i].o < arrs[j].o })
	if alive && len(arrs) > 0 {
		// distinct specification lists
		lists := map[*SVList]bool{}
		var order []*SVList
		var visit func(v SV)
		visit = func(v SV) {
			switch x := v.(type) {
			case *SVList:
				if !lists[x] {
					lists[x] = true
					order = append(order, x)
				}
				for _, y := range x.E {
					visit(y)
				}
			case *SVTerm:
				for _, y := range x.Args {
					visit(y)
				}
			}
		}
		for _, cf := range g.cfgs {
			for _, f := range cf.stack {
				for _, k := range sortedEnv(f.env) {
					visit(f.env[k])
				}
			}
			for _, d := range cf.decls {
				visit(d.What)
			}
		}
		type fold struct {
			k  int
			id int
		}
		repl := map[*SVList]SV{}
		arrFold := map[int]fold{}
		for _, l := range order {
			if len(l.E) < 1 {
				continue
			}
			for _, ar := range arrs {
				k := 0
				for k < len(l.E) && k < len(ar.a.E)-foldKeep {
					m := &matcher{pc: pc, st: st}
					if !m.match(ar.a.E[k], l.E[k], "") {
						break
					}
					k++
				}
				if k == 0 || k == 1 && isMany(ar.a.E[0]) {
					continue
				}
				if f, ok := arrFold[ar.o]; ok {
					if f.k == k {
						repl[l] = foldSV(l, k, f.id, ar.a.E)
					}
					continue
				}
				if _, done := repl[l]; done {
					// a second array mirrors the same list: fold it alike
					for _, o2 := range arrs {
						if f, ok := arrFold[o2.o]; ok && f.k <= k && repl[l] != nil {
							if fl, ok := repl[l].(*SVList); ok {
								if mo, ok := fl.E[0].(VOpq); ok && mo.ID == f.id && f.k == k {
									arrFold[ar.o] = f
								}
							}
						}
					}
					continue
				}
				f := fold{k, st.fresh()}
				arrFold[ar.o] = f
				repl[l] = foldSV(l, k, f.id, ar.a.E)
			}
		}
		if len(arrFold) > 0 {
			for _, ar := range arrs {
				f, ok := arrFold[ar.o]
				if !ok {
					continue
				}
				pc.rewindow(st, ar.o, f.k, f.id, ar.a)
			}
			var rw func(v SV) SV
			rw = func(v SV) SV {
				switch x := v.(type) {
				case *SVList:
					if r, ok := repl[x]; ok {
						return r
					}
					ch := false
					E := make([]SV, len(x.E))
					for i, y := range x.E {
						E[i] = rw(y)
						if E[i] != y {
							ch = true
						}
					}
					if ch {
						return &SVList{E: E}
					}
					return x
				case *SVTerm:
					ch := false
					A := make([]SV, len(x.Args))
					for i, y := range x.Args {
						A[i] = rw(y)
						if !sameSV(A[i], y) {
							ch = true
						}
					}
					if ch {
						n := *x
						n.Args = A
						return &n
					}
					return x
				}
				return v
			}
			ng := &Ghost{}
			for _, cf := range g.cfgs {
				n := cf.clone()
				n.decls = foldDecls(n.decls, order, repl)
				for i := range n.stack {
					f := n.stack[i]
					env := make(map[string]SV, len(f.env))
					for k, v := range f.env {
						env[k] = rw(v)
					}
					f.env = env
					n.stack[i] = f
				}
				for i := range n.decls {
					n.decls[i].What = rw(n.decls[i].What)
				}
				ng.cfgs = append(ng.cfgs, n)
			}
			g = ng
		}
	}
	// bound what did not fold
	for _, ar := range arrs {
		a := st.heap[ar.o].(*VArr)
		if (len(a.E) > foldMax || !alive && len(a.E) > foldKeep) && !a.Fix && hasSym(a.E) {
			pc.rewindow(st, ar.o, len(a.E)-foldKeep, st.fresh(), a)
		}
	}
	if alive {
		ng := &Ghost{}
		ch := false
		for _, cf := range g.cfgs {
			n := cf.clone()
			for i := range n.stack {
				f := n.stack[i]
				for k, v := range f.env {
					if l, ok := v.(*SVList); ok && len(l.E) > foldMax {
						env := make(map[string]SV, len(f.env))
						for k2, v2 := range f.env {
							env[k2] = v2
						}
						env[k] = SVBad{}
						f.env = env
						n.stack[i] = f
						ch = true
						break
					}
				}
			}
			if len(n.decls) > 6 {
				n.decls = n.decls[len(n.decls)-6:]
				ch = true
			}
			ng.cfgs = append(ng.cfgs, n)
		}
		if ch {
			g = ng
		}
	}
	if g != cur.G {
		st.heap[co] = VCursor{Pos: cur.Pos, G: g, N: cur.N}
	}
}

func hasSym(E []Val) bool {
	for _, v := range E {
		switch v.(type) {
		case VInt, VStr, VBool:
			return false
		}
	}
	return true
}

func sameSV(a, b SV) bool {
	defer func() { recover() }()
	return a == b
}

func sortedEnv(env map[string]SV) []string {
	ks := make([]string, 0, len(env))
	for k := range env {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func foldSV(l *SVList, k, id int, _ []Val) SV {
	return &SVList{E: append([]SV{VOpq{K: "many", ID: id}}, l.E[k:]...)}
}

// rewindow replaces the first k entries of array o by one summary and shifts the windows onto it.
func (pc *PC) rewindow(st *State, o, k, id int, a *VArr) {
	// remember which kinds of tokens were folded
	kinds := map[int]bool{}
	for _, v := range a.E[:k] {
		switch x := v.(type) {
		case VTokStr:
			kinds[pc.e.csetID(st.cls[x.S])] = true
		case VOpq:
			for _, n := range strings.Fields(st.facts[factKey{x.K, x.ID, "#kinds"}]) {
				i, _ := strconv.Atoi(n)
				kinds[i] = true
			}
		}
	}
	if len(kinds) > 0 {
		var ks []int
		for i := range kinds {
			ks = append(ks, i)
		}
		sort.Ints(ks)
		s := ""
		for _, i := range ks {
			s += itoa(i) + " "
		}
		st.facts[factKey{"many", id, "#kinds"}] = s
	}
	st.heap[o] = &VArr{E: append([]Val{VOpq{K: "many", ID: id}}, a.E[k:]...)}
	d := k - 1
	if d == 0 {
		return
	}
	old := len(a.E)
	fix := func(s VSlice) VSlice {
		if s.O != o {
			return s
		}
		if s.Lo == 0 && s.Hi == old {
			return VSlice{O: o, Lo: 0, Hi: old - d}
		}
		lo, hi := s.Lo-d, s.Hi-d
		if lo < 0 {
			lo = 0
		}
		if hi < lo {
			hi = lo
		}
		return VSlice{O: o, Lo: lo, Hi: hi}
	}
	var val func(v Val) Val
	val = func(v Val) Val {
		switch x := v.(type) {
		case VSlice:
			return fix(x)
		case VPtr:
			if x.O == o && x.P != "" {
				idx := splitPath(x.P)
				if idx[0] >= k {
					return VPtr{O: o, P: "." + itoa(idx[0]-d) + strings.TrimPrefix(x.P, "."+itoa(idx[0]))}
				}
			}
			return x
		case VIface:
			n := val(x.V)
			return VIface{T: x.T, V: n}
		case VTuple:
			r := make(VTuple, len(x))
			for i := range x {
				r[i] = val(x[i])
			}
			return r
		case *VStruct:
			f := make([]Val, len(x.F))
			for i := range x.F {
				f[i] = val(x.F[i])
			}
			return &VStruct{T: x.T, F: f}
		case *VArr:
			f := make([]Val, len(x.E))
			for i := range x.E {
				f[i] = val(x.E[i])
			}
			return &VArr{E: f, Fix: x.Fix}
		case VFn:
			if len(x.B) == 0 {
				return x
			}
			b := make([]Val, len(x.B))
			for i := range x.B {
				b[i] = val(x.B[i])
			}
			return VFn{F: x.F, B: b}
		}
		return v
	}
	for id, c := range st.heap {
		switch c.(type) {
		case VSlice, VPtr, VIface, *VStruct, *VArr, VFn:
			st.heap[id] = val(c)
		}
	}
	for i, f := range st.frames {
		nf := *f
		nf.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			nf.env[k] = val(v)
		}
		nf.shared = false
		st.frames[i] = &nf
	}
	for i := range st.decls {
		st.decls[i].Obj = val(st.decls[i].Obj)
	}
}

// foldDecls replaces the pending registrations of the folded elements of a list by one for the summary.
func foldDecls(ds []SDecl, order []*SVList, repl map[*SVList]SV) []SDecl {
	if len(ds) == 0 {
		return ds
	}
	txt := func(v SV) string {
		var b strings.Builder
		svKey(&b, v)
		return b.String()
	}
	for _, l := range order {
		fl, ok := repl[l].(*SVList)
		if !ok {
			continue
		}
		k := len(l.E) - len(fl.E) + 1
		for i := 0; i+k <= len(ds); i++ {
			same := true
			for j := 0; j < k && same; j++ {
				same = ds[i+j].Name == nil && ds[i+j].Depth == ds[i].Depth && txt(ds[i+j].What) == txt(l.E[j])
			}
			if same {
				nd := append([]SDecl{}, ds[:i]...)
				nd = append(nd, SDecl{What: fl.E[0], Depth: ds[i].Depth})
				ds = append(nd, ds[i+k:]...)
			}
		}
	}
	return ds
}
