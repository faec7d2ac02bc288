package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PC verifies the parser functions against the specification grammar.
type PC struct {
	w    *World
	e    *Eng
	sp   *Spec
	rule *Rule
	mode string

	tParser, tTok, tTokenizer, tPos, tCursor types.Type
	fTokenizer, fCurr, fContext, fPost       int
	fCursor                                  int
	parserObj                                int
	ctxObj                                   int
	entrySlot                                int
	decl, node                               types.Type
	lcalls                                   map[*Rule]map[*Rule]bool // calls made before consuming anything
	out                                      map[string]*PFinding
	stats                                    map[string]int
	ruleOf                                   map[*ssa.Function][]*Rule
	undecided                                map[string]string
	verified                                 []string
	unbound                                  map[string]bool
	moved                                    []string
	budget                                   int
	deadline                                 time.Time
	debug                                    bool
	flow                                     *xFlow
}

// PFinding is one discrepancy found while verifying a rule.
type PFinding struct {
	Kind  string // accept reject tree panic loop recursion drop scope stale case errpos declare munch
	Rule  *Rule
	Where string
	Msg   string
	Key   string
	Trace []string
}

func (pc *PC) add(kind, key, where, msg string, st *State) {
	k := kind + "/" + pc.rule.Name + "/" + key
	if _, ok := pc.out[k]; ok {
		return
	}
	f := &PFinding{Kind: kind, Rule: pc.rule, Where: where, Msg: msg, Key: k}
	if st != nil {
		f.Trace = st.traceText(60)
	}
	pc.out[k] = f
}

func fieldByType(s *types.Struct, t types.Type) int {
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			return i
		}
	}
	return -1
}

func newPC(w *World, spec string) (*PC, error) { return newPCUnbound(w, spec, nil) }

// newPCUnbound leaves the functions in unbound without a rule of their own: they are followed inside their callers.
func newPCUnbound(w *World, spec string, unbound map[string]bool) (*PC, error) {
	sp, err := parseSpec(spec)
	if err != nil {
		return nil, err
	}
	u, err := tokenUniverse(w, sp.Idents)
	if err != nil {
		return nil, err
	}
	if err := sp.compile(u); err != nil {
		return nil, err
	}
	pc := &PC{w: w, sp: sp, out: map[string]*PFinding{}, stats: map[string]int{}, lcalls: map[*Rule]map[*Rule]bool{}, undecided: map[string]string{}, unbound: unbound, flow: newXFlow()}
	pc.tParser = w.lookupType("parser", "Parser")
	pc.tTok = w.lookupType("token", "Token")
	pc.tTokenizer = w.lookupType("token", "Tokenizer")
	pc.tPos = w.lookupType("runes", "Position")
	pc.tCursor = w.lookupType("runes", "Cursor")
	ctx := w.lookupType("parser", "Context")
	for _, t := range []types.Type{pc.tParser, pc.tTok, pc.tTokenizer, pc.tPos, pc.tCursor, ctx} {
		if t == nil {
			return nil, fmt.Errorf("a core parser type is missing")
		}
	}
	ps := under(pc.tParser).(*types.Struct)
	pc.fTokenizer = fieldByType(ps, types.NewPointer(pc.tTokenizer))
	pc.fCurr = fieldByType(ps, types.NewPointer(pc.tTok))
	pc.fContext = -1
	pc.fPost = -1
	for i := 0; i < ps.NumFields(); i++ {
		t := ps.Field(i).Type()
		if types.Identical(types.Unalias(t), types.Unalias(ctx)) {
			pc.fContext = i
		}
		if sl, ok := under(t).(*types.Slice); ok {
			if sg, ok := under(sl.Elem()).(*types.Signature); ok && sg.Params().Len() == 0 {
				pc.fPost = i
			}
		}
	}
	pc.fCursor = fieldByType(under(pc.tTokenizer).(*types.Struct), types.NewPointer(pc.tCursor))
	if pc.fTokenizer < 0 || pc.fCurr < 0 || pc.fContext < 0 || pc.fCursor < 0 {
		return nil, fmt.Errorf("a core parser field is missing")
	}
	e := NewEng(w)
	e.uni = u
	pc.e = e
	e.runInit()
	for k, ev := range e.events {
		if ev.Kind == "initpanic" {
			return nil, fmt.Errorf("initialisation panics: %s", k)
		}
	}
	e.events = map[string]*Event{}
	pc.install()
	return pc, nil
}

func (pc *PC) install() {
	e := pc.e
	pc.ruleOf = map[*ssa.Function][]*Rule{}
	pc.sp.hasFn = map[*Rule]bool{}
	for _, r := range pc.sp.Order {
		if f := pc.fnOf(r); f != nil {
			pc.sp.hasFn[r] = true
			pc.ruleOf[f] = append(pc.ruleOf[f], r)
		}
	}
	prim := func(pkg, typ, name string, p primFn) {
		var f *ssa.Function
		if typ != "" {
			f = pc.w.method(pkg, typ, name)
		} else {
			f = pc.w.fn(pkg, name)
		}
		if f != nil {
			e.prims[f.String()] = p
		}
	}
	prim("token", "Tokenizer", "GetNext", pc.primGetNext)
	prim("runes", "Cursor", "Clone", func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		p, ok := args[0].(VPtr)
		if !ok {
			return e.nilPanic(st, site, "cursor")
		}
		return one(st, VPtr{O: st.alloc(e.content(st, p.O))})
	})
	prim("token", "Token", "String", func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		if isNilVal(args[0]) {
			return e.nilPanic(st, site, "String of missing token")
		}
		if p, ok := args[0].(VPtr); ok {
			if s, ok := e.content(st, p.O).(*VStruct); ok {
				for _, f := range s.F {
					if t, ok := f.(VTokType); ok {
						return one(st, VText{Tok: t.S})
					}
				}
			}
		}
		return one(st, VText{})
	})
	for _, typ := range []string{"CustomClassType", "ForwardDeclaredClassType"} {
		// membership in the class being parsed is decided elsewhere (C23); only the name asked for matters here
		prim("ast", typ, "FindMemberDecl", func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
			t, ok := args[1].(VTokStr)
			if !ok {
				return one(st, VOpq{K: "declx", ID: st.fresh(), T: fn.Signature.Results().At(0).Type()})
			}
			yes, no := e.split(st, t.S, e.uni.byKind["ident"])
			var out []Res
			if yes != nil {
				n := yes.clone()
				n.addSem("undeclared")
				out = append(out, Res{st: n, v: VNil{}})
				kind := "cmember"
				if b, ok := args[len(args)-1].(VBool); !ok || !b.B {
					kind = "declx" // private members of the class itself are not found
				}
				out = append(out, Res{st: yes, v: VOpq{K: kind, ID: t.S, T: fn.Signature.Results().At(0).Type()}})
			}
			if no != nil {
				out = append(out, Res{st: no, v: VNil{}})
			}
			return out
		})
		prim("ast", typ, "FindProperty", func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
			n := st.clone()
			p := VOpq{K: "declx", ID: n.fresh(), T: fn.Signature.Results().At(0).Type()}
			if b, ok := args[len(args)-1].(VBool); ok && b.B {
				if t, ok := args[1].(VTokStr); ok {
					p = VOpq{K: "cprop", ID: t.S, T: p.T}
				}
			}
			st.addTag("prop=F")
			n.addTag("prop=T")
			return []Res{{st: st, v: VNil{}}, {st: n, v: p}}
		})
	}
	for _, typ := range []string{"UnitContext", "ProgramContext"} {
		t := pc.w.lookupType("parser/pcontext", typ)
		if t == nil {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			m, ok := ms.At(i).Obj().(*types.Func)
			if !ok {
				continue
			}
			f := pc.w.Prog.MethodValue(ms.At(i))
			if f == nil {
				continue
			}
			old := e.prims[f.String()]
			_ = old
			e.prims[f.String()] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
				if c, ok := args[0].(VOpq); ok && c.K == "ctx" {
					if r, ok := pc.onInvoke(e, st, c, m, args[1:], site); ok {
						return r
					}
				}
				switch res := fn.Signature.Results(); res.Len() {
				case 0:
					return one(st, VTuple{})
				case 1:
					return one(st, e.unkOf(st, res.At(0).Type(), "ctx"))
				default:
					return one(st, VUnk{"ctx"})
				}
			}
		}
	}
	dmap := func(k string) primFn {
		return func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
			return one(st, VOpq{K: k, ID: st.fresh(), T: fn.Signature.Results().At(0).Type()})
		}
	}
	for _, n := range []string{"NewDeclMap", "NewChainedDeclMap", "NewCompositeDeclMap"} {
		prim("ast/astcore", "", n, dmap("dmap"))
	}
	// which units and maps end up in a scope is decided by C18 and C19
	prim("ast", "UsesClause", "Units", dmap("units"))
	prim("ast", "Units", "Compact", dmap("units"))
	prim("ast", "Units", "DeclMaps", dmap("units"))
	prim("ast/astcore", "DeclMaps", "Reverse", dmap("units"))
	// what a declaration node declares is decided by C25
	for _, f := range pc.w.repoFuncs() {
		if p := fnPkg(f); p != nil && f.Signature.Recv() != nil && strings.HasPrefix(p.Pkg.Path(), modPath+"/ast") &&
			(f.Name() == "GetDeclNodes" || f.Name() == "ToDeclarations") && e.prims[f.String()] == nil {
			e.opqPrims[f.String()] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
				return one(st, VOpq{K: "decls", ID: st.fresh(), T: fn.Signature.Results().At(0).Type()})
			}
		}
	}
	prim("parser", "ProgramParser", "LoadUnits", func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		n := st.clone()
		n.addSem("load")
		n.note("loading the used units fails at %s", pc.w.posStr(instrPos(site)))
		return []Res{{st: st, v: VNil{}}, {st: n, v: VErr{Origin: "load", Pos: shortFn(fn)}}}
	})
	e.onOpqStore = func(e *Eng, st *State, p VOpq, v Val, x ssa.Instruction) bool { return p.K == "ctx" }
	prim("ast", "ClassProperty", "InheritsFrom", func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		if isNilVal(args[1]) {
			return one(st, VBool{false})
		}
		has := ""
		if p, ok := args[0].(VPtr); ok {
			if v, ok := e.load(st, p); ok {
				if s, ok := v.(*VStruct); ok {
					for _, f := range []string{"Interface", "Index", "Read", "Write"} {
						if i := fieldIdx(s.T, f); i >= 0 && isNilVal(s.F[i]) {
							has += "0"
						} else {
							has += "1"
						}
					}
				}
			}
		}
		n := st.clone()
		st.addTag("inh=T" + has)
		n.addTag("inh=F" + has)
		return []Res{{st: st, v: VBool{true}}, {st: n, v: VBool{false}}}
	})
	e.cutFn = func(st *State, fn *ssa.Function, args []Val) *Rule {
		for _, r := range pc.ruleOf[fn] {
			if pc.argsMatch(r, fn, args) {
				if p, ok := pc.pre(r); ok {
					if s, ok := pc.currSlot(st); !ok || !st.cls[s].subset(p) {
						continue // outside the verified precondition: follow the body instead
					}
				}
				return r
			}
		}
		return nil
	}
	e.onNT = pc.onNT
	e.onOpqInvoke = pc.onInvoke
	e.progOf = func(st *State) int {
		if c, ok := pc.cursor(st); ok {
			return c.N
		}
		return st.prog
	}
	e.neverNil = func(e *Eng, st *State, o VOpq) bool {
		return strings.HasPrefix(o.K, "nt:") && o.Path == "" || o.K == "many" || (o.K == "cmember" || o.K == "cprop") && o.Path == "" || o.K == "ctx" && o.Path == ""
	}
	e.forkOpqNil = func(e *Eng, st *State, o VOpq) (*State, *State, bool) {
		if o.K == "decl" && o.Path == "" {
			has := pc.declSet()
			y, n := e.split(st, o.ID, has)
			return n, y, true
		}
		return nil, nil, false
	}
	e.nilPolicy = func(e *Eng, st *State, o VOpq) bool {
		if o.K == "decl" && o.Path == "" {
			return !st.cls[o.ID].subset(pc.declSet())
		}
		return false
	}
	e.onOpqAssert = pc.onAssert
	e.onLen = func(e *Eng, st *State, v Val, site ssa.Instruction) []Res {
		if o, ok := v.(VOpq); ok && o.Path == "" && strings.HasPrefix(o.K, "nt:") {
			if r := pc.sp.Rules[o.K[3:]]; r != nil && (r.Attr["strict"] != "" || r.Attr["nonempty"] != "") {
				return one(st, VLen{N: 1}) // non-empty: what was read is at least one element
			}
		}
		if o, ok := v.(VOpq); ok && (o.K == "units" || o.K == "decls") {
			return one(st, VLen{N: 1}) // one representative element
		}
		return nil
	}
	e.collapseHook = pc.collapse
	e.onErr = pc.onErr
}

// declSet: tokens whose text resolves to a declaration.
func (pc *PC) declSet() CSet {
	u := pc.sp.uni
	return u.byKind["ident"].minus(u.decl["none"]).or(u.word["STRING"])
}

func (pc *PC) fnOf(r *Rule) *ssa.Function {
	if r.Func == "" || pc.unbound[r.Func] {
		return nil
	}
	recv := r.Recv
	if recv == "" {
		recv = "Parser"
	}
	f := pc.w.method("parser", recv, r.Func)
	if f == nil || f.Blocks == nil || len(f.Params) != 1+len(r.Args) {
		return nil
	}
	return f
}

// pre is the set of current tokens a rule's function is only called with.
func (pc *PC) pre(r *Rule) (CSet, bool) {
	switch r.Attr["pre"] {
	case "first":
		return r.first, true
	case "":
		return CSet{}, false
	}
	return pc.sp.uni.byKind[r.Attr["pre"]], true
}

func (pc *PC) argsMatch(r *Rule, fn *ssa.Function, args []Val) bool {
	n := len(fn.Params) - 1
	if n != len(r.Args) {
		return false
	}
	for i, want := range r.Args {
		switch a := args[i+1].(type) {
		case VBool:
			if want != "*" && want != fmt.Sprint(a.B) {
				return false
			}
		case VInt:
			if want != "*" && want != "'"+string(rune(a.N))+"'" {
				return false
			}
		default:
			if want != "*" {
				return false
			}
		}
	}
	return true
}

// ---------- parser state access ----------

func (pc *PC) parserField(st *State, f int) (Val, bool) {
	s, ok := st.heap[pc.parserObj].(*VStruct)
	if !ok {
		return nil, false
	}
	return s.F[f], true
}

func (pc *PC) setParserField(st *State, f int, v Val) {
	s := st.heap[pc.parserObj].(*VStruct)
	nf := append([]Val{}, s.F...)
	nf[f] = v
	st.heap[pc.parserObj] = &VStruct{T: s.T, F: nf}
}

// cursorObj returns the object of the parser's current cursor.
func (pc *PC) cursorObj(st *State) (int, bool) {
	tk, ok := pc.parserField(st, pc.fTokenizer)
	if !ok {
		return 0, false
	}
	tp, ok := tk.(VPtr)
	if !ok {
		return 0, false
	}
	return pc.cursorOf(st, tp)
}

func (pc *PC) cursorOf(st *State, tp VPtr) (int, bool) {
	ts, ok := st.heap[tp.O].(*VStruct)
	if !ok {
		return 0, false
	}
	cp, ok := ts.F[pc.fCursor].(VPtr)
	if !ok {
		return 0, false
	}
	return cp.O, true
}

func (pc *PC) cursor(st *State) (VCursor, bool) {
	o, ok := pc.cursorObj(st)
	if !ok {
		return VCursor{}, false
	}
	c, ok := st.heap[o].(VCursor)
	return c, ok
}

// currSlot is the input slot of the parser's current token.
func (pc *PC) currSlot(st *State) (int, bool) {
	v, ok := pc.parserField(st, pc.fCurr)
	if !ok {
		return 0, false
	}
	p, ok := v.(VPtr)
	if !ok {
		return 0, false
	}
	s, ok := st.heap[p.O].(*VStruct)
	if !ok {
		return 0, false
	}
	for _, f := range s.F {
		if t, ok := f.(VTokType); ok {
			return t.S, true
		}
	}
	return 0, false
}

func (pc *PC) newToken(st *State, slot int) Val {
	ts := under(pc.tTok).(*types.Struct)
	mkPos := func(w byte) Val {
		ps := under(pc.tPos).(*types.Struct)
		f := make([]Val, ps.NumFields())
		for i := range f {
			switch ps.Field(i).Name() {
			case "Line":
				f[i] = VTokNum{slot, w, 'L'}
			case "Col":
				f[i] = VTokNum{slot, w, 'C'}
			case "Index":
				f[i] = VTokNum{slot, w, 'I'}
			default:
				f[i] = zero(ps.Field(i).Type())
			}
		}
		return VPtr{O: st.alloc(&VStruct{T: pc.tPos, F: f})}
	}
	f := make([]Val, ts.NumFields())
	for i := range f {
		fl := ts.Field(i)
		switch {
		case types.Identical(fl.Type(), types.NewPointer(pc.tPos)) && fl.Name() == "Start":
			f[i] = mkPos('S')
		case types.Identical(fl.Type(), types.NewPointer(pc.tPos)) && fl.Name() == "End":
			f[i] = mkPos('E')
		case fl.Name() == "Type":
			f[i] = VTokType{slot}
		default:
			if _, ok := under(fl.Type()).(*types.Pointer); ok {
				f[i] = VTokBuf{slot}
			} else {
				f[i] = zero(fl.Type())
			}
		}
	}
	return VPtr{O: st.alloc(&VStruct{T: pc.tTok, F: f})}
}

func (pc *PC) primGetNext(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
	tp, ok := args[0].(VPtr)
	if !ok {
		return e.nilPanic(st, site, "GetNext of missing tokenizer")
	}
	co, ok := pc.cursorOf(st, tp)
	if !ok {
		e.unsupported(st, site, "unknown tokenizer")
		return nil
	}
	cur, ok := st.heap[co].(VCursor)
	if !ok {
		e.unsupported(st, site, "unknown cursor")
		return nil
	}
	advance := func(s *State, g *Ghost, eof, prog bool, msg string) Res {
		ns, have := 0, false
		if cur.Pos >= 0 {
			ns, have = s.next[cur.Pos]
		} else {
			ns, have = pc.entrySlot, true
		}
		if !have {
			ns = s.fresh()
			s.cls[ns] = e.uni.all
			if eof {
				s.cls[ns] = e.uni.eofSet
			}
			s.next[cur.Pos] = ns
		}
		n := cur.N
		if prog {
			n++
		}
		s.heap[co] = VCursor{Pos: ns, G: g, N: n}
		if msg != "" {
			s.note("%s", msg)
		}
		return Res{st: s, v: pc.newToken(s, ns)}
	}
	if cur.Pos < 0 {
		return []Res{advance(st, cur.G, false, false, "")}
	}
	c := st.cls[cur.Pos]
	var out []Res
	where := pc.w.posStr(instrPos(site))
	if fr := st.frames; len(fr) > 1 {
		// name the caller of NextToken helpers
		for i := len(fr) - 1; i >= 0; i-- {
			if fr[i].site != nil {
				if p := pc.w.posStr(instrPos(fr[i].site)); !strings.Contains(p, "base.go") {
					where = p
					break
				}
			}
		}
	}
	if eof := c.and(e.uni.eofSet); !eof.empty() {
		s := st.clone()
		s.cls[cur.Pos] = eof
		g := cur.G
		if g.alive() {
			g = &Ghost{dead: "bad", at: "<eof>"}
		}
		out = append(out, advance(s, g, true, false, "reads past end of file at "+where))
	}
	if rest := c.minus(e.uni.eofSet); !rest.empty() {
		for _, gs := range pc.sp.stepToken(cur.G, cur.Pos, rest) {
			s := st.clone()
			s.cls[cur.Pos] = gs.set
			m := "reads " + e.uni.setText(gs.set) + " at " + where
			if !gs.g.alive() && cur.G.alive() {
				m += "   <-- not allowed here by the grammar"
			}
			out = append(out, advance(s, gs.g, false, true, m))
		}
	}
	return out
}

// ---------- context ----------

func (pc *PC) depth(st *State, id int) int {
	if v, ok := st.heap[id].(VInt); ok {
		return int(v.N)
	}
	return -1
}

func (pc *PC) onInvoke(e *Eng, st *State, recv VOpq, m *types.Func, args []Val, site ssa.Instruction) ([]Res, bool) {
	if (recv.K == "decl" || recv.K == "unk" || recv.K == "declx") && m.Name() == "Get" && len(args) == 1 {
		if t, ok := args[0].(VTokStr); ok {
			return one(st, VOpq{K: "member", ID: t.S, T: m.Type().(*types.Signature).Results().At(0).Type()}), true
		}
	}
	if m.Name() == "GetDeclNodes" || m.Name() == "ToDeclarations" {
		return one(st, VOpq{K: "decls", ID: st.fresh(), T: m.Type().(*types.Signature).Results().At(0).Type()}), true
	}
	if recv.K == "dmap" {
		switch m.Name() {
		case "Set":
			n := st.clone()
			n.flags |= fFailedSet
			return []Res{{st: st, v: VNil{}}, {st: n, v: VErr{Origin: "set", Pos: shortFn(site.Parent())}}}, true
		case "Overwrite":
			return one(st, VTuple{}), true
		}
	}
	if recv.K != "ctx" {
		return nil, false
	}
	switch m.Name() {
	case "GetPath":
		return one(st, VPath{}), true
	case "Get":
		if t, ok := args[0].(VTokStr); ok {
			d := st.cls[t.S]
			has := pc.declSet()
			if d.and(has).empty() {
				return one(st, VNil{}), true
			}
			return one(st, VOpq{K: "decl", ID: t.S, T: m.Type().(*types.Signature).Results().At(0).Type()}), true
		}
		return one(st, VOpq{K: "declx", ID: st.fresh(), T: m.Type().(*types.Signature).Results().At(0).Type()}), true
	case "Set":
		n := st.clone()
		st.decls = append(append([]DeclEv{}, st.decls...), DeclEv{Obj: args[0], Depth: pc.depth(st, recv.ID)})
		n.flags |= fFailedSet
		n.note("registration fails at %s", pc.w.posStr(instrPos(site)))
		return []Res{{st: st, v: VNil{}}, {st: n, v: VErr{Origin: "set", Pos: shortFn(site.Parent())}}}, true
	case "Overwrite":
		st.decls = append(append([]DeclEv{}, st.decls...), DeclEv{Obj: args[1], Name: args[0], Depth: pc.depth(st, recv.ID)})
		return one(st, VTuple{}), true
	case "StackDeclMap":
		old := st.heap[recv.ID]
		d := pc.depth(st, recv.ID)
		st.heap[recv.ID] = VInt{int64(d + 1)}
		id := recv.ID
		return one(st, VPrim{Name: "unstack", B: []Val{recv, old}, F: func(e *Eng, st *State, args []Val, site ssa.Instruction) []Res {
			st.heap[id] = old
			return one(st, VTuple{})
		}}), true
	case "Clone":
		o := st.alloc(st.heap[recv.ID])
		return one(st, VOpq{K: "ctx", ID: o, T: recv.T}), true
	}
	return nil, false
}

// onAssert decides type tests of a declaration's node from the declaration kind of the name.
func (pc *PC) onAssert(e *Eng, st *State, o VOpq, x *ssa.TypeAssert, mk func(*State, Val, bool) Res) []Res {
	if o.K != "decl" || o.Path != ".Node" {
		return nil
	}
	u := pc.sp.uni
	var set CSet
	name := types.TypeString(x.AssertedType, shortQual)
	switch name {
	case "*ast.TypeDecl":
		set = u.decl["type"].or(u.word["STRING"])
	case "*ast.UsesClauseItem":
		set = u.decl["uses"]
	case "*ast.LabelDeclSection":
		set = u.decl["label"]
	case "*ast.VarDecl":
		set = u.decl["var"]
	case "ast.Namespace":
		set = u.decl["ns"]
	case "*ast.Unit", "*ast.Program":
		// one of the namespace kinds
		yes, no := e.split(st, o.ID, u.decl["ns"])
		var out []Res
		res := VOpq{K: o.K, ID: o.ID, Path: o.Path + "!" + name, T: x.AssertedType}
		if yes != nil {
			n := yes.clone()
			out = append(out, mk(yes, res, true), mk(n, nil, false))
		}
		if no != nil {
			out = append(out, mk(no, nil, false))
		}
		return out
	default:
		set = u.decl["other"]
		yes, no := e.split(st, o.ID, set)
		var out []Res
		res := VOpq{K: o.K, ID: o.ID, Path: o.Path + "!" + name, T: x.AssertedType}
		if yes != nil {
			n := yes.clone()
			out = append(out, mk(yes, res, true), mk(n, nil, false))
		}
		if no != nil {
			out = append(out, mk(no, nil, false))
		}
		return out
	}
	yes, no := e.split(st, o.ID, set)
	var out []Res
	res := VOpq{K: o.K, ID: o.ID, Path: o.Path, T: x.AssertedType}
	if !types.IsInterface(x.AssertedType) {
		res.Path += "!" + name
	}
	if yes != nil {
		out = append(out, mk(yes, res, true))
	}
	if no != nil {
		out = append(out, mk(no, nil, false))
	}
	return out
}

// onErr checks the location facts of a newly created error.
func (pc *PC) onErr(e *Eng, st *State, er VErr, site ssa.Instruction) {
	if site == nil || pc.rule == nil {
		return
	}
	l := er.Loc
	where := pc.w.posStr(instrPos(site))
	fn := shortFn(site.Parent())
	if er.Origin != "new" {
		return
	}
	switch {
	case !l.Path || !l.Line || !l.Col:
		st.note("error without position created at %s", where)
		return
	case l.Mixed:
		pc.add("errpos", fn+" mixed", where, "the line and the column of an error come from different tokens", st)
	case l.Swap:
		pc.add("errpos", fn+" swapped", where, "the column of an error is printed before its line", st)
	case l.Tok != 0 && l.Tok != l.S:
		pc.add("errpos", fn+" token", where, "the position of an error is not that of the token it names", st)
	default:
		cur, ok := pc.cursor(st)
		if ok && cur.G.alive() && len(st.sem) == 0 && pc.rule.Attr["require"] == "" && l.S != cur.Pos {
			pc.add("errpos", fn+" not current", where, "the position of an error is not that of the token that cannot be accepted", st)
		}
	}
}

// ---------- nonterminals ----------

func (pc *PC) onNT(e *Eng, st *State, r *Rule, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
	pc.enterExtras(st, r)
	rs := pc.applyNT(e, st, r, fn, args, site)
	for _, x := range rs {
		if x.panic == "" && x.st != nil {
			pc.afterExtras(x.st, r)
		}
	}
	return rs
}

func (pc *PC) applyNT(e *Eng, st *State, r *Rule, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
	pc.stats["cuts"]++
	co, ok := pc.cursorObj(st)
	if !ok {
		e.unsupported(st, site, "call of %s with unknown parser state", r.Name)
		return nil
	}
	cur := st.heap[co].(VCursor)
	slot, ok := pc.currSlot(st)
	where := pc.w.posStr(instrPos(site))
	fresh := r.Attr["entry"] == "fresh"
	if !fresh && (!ok || slot != cur.Pos) {
		pc.add("stale", r.Name, where, fmt.Sprintf("%s is entered while the current token is not the one the tokenizer stands at", r.Name), st)
	}
	if cur.N == 0 {
		if pc.lcalls[pc.rule] == nil {
			pc.lcalls[pc.rule] = map[*Rule]bool{}
		}
		pc.lcalls[pc.rule][r] = true
	}
	res := fn.Signature.Results()
	pack := func(v Val, err Val) Val {
		if res.Len() == 1 {
			return v
		}
		t := make(VTuple, res.Len())
		for i := range t {
			t[i] = zero(res.At(i).Type())
		}
		t[0] = v
		t[len(t)-1] = err
		return t
	}
	rt := res.At(0).Type()
	var out []Res
	c := st.cls[slot]
	first := r.first
	move := func(s *State, g *Ghost) {
		ns := s.fresh()
		s.cls[ns] = e.uni.all
		if g.alive() {
			s.cls[ns] = pc.nullOn(r) // a strict rule only succeeds before what can follow it
		}
		s.heap[co] = VCursor{Pos: ns, G: g, N: cur.N + 1}
		pc.setParserField(s, pc.fCurr, pc.newToken(s, ns))
	}
	// failure on a token that cannot start it
	y0 := c.minus(first)
	if r.null {
		y0 = y0.minus(pc.nullOn(r))
	}
	if y := y0; !y.empty() && !fresh && cur.G.alive() {
		bad := pc.sp.acceptable(cur.G, y)
		for _, d := range pc.sp.complete(cur.G, y, false) {
			f := y.and(pc.rule.follow)
			if d.look != nil {
				f = f.and(*d.look)
			}
			bad = bad.or(f)
		}
		if !bad.empty() {
			s := st.clone()
			s.cls[slot] = bad
			s.note("%s fails at %s on %s", r.Name, where, e.uni.setText(bad))
			out = append(out, Res{st: s, v: pack(zero(rt), VErr{Origin: "nt:" + r.Name, Pos: shortFn(fn)})})
		}
	}
	// failure
	{
		s := st.clone()
		g := cur.G
		if g.alive() {
			g = &Ghost{dead: "nterr", at: r.Name}
		}
		s.note("%s fails at %s", r.Name, where)
		move(s, g)
		out = append(out, Res{st: s, v: pack(zero(rt), VErr{Origin: "nt:" + r.Name, Pos: shortFn(fn)})})
	}
	if r.null {
		if y := c.minus(first).and(pc.nullOn(r)); !y.empty() {
			s := st.clone()
			s.cls[slot] = y
			v := zero(rt)
			if r.Attr["empty"] == "node" {
				v = VOpq{K: "nt:" + r.Name, ID: s.fresh(), T: rt}
				g := pc.sp.stepNT(cur.G, r, v, y)
				s.heap[co] = VCursor{Pos: cur.Pos, G: g, N: cur.N}
			}
			s.note("no %s (%s) at %s", r.Name, e.uni.setText(y), where)
			out = append(out, Res{st: s, v: pack(v, VNil{})})
		}
	}
	if y := c.and(first); !y.empty() {
		s := st.clone()
		s.cls[slot] = y
		v := VOpq{K: "nt:" + r.Name, ID: s.fresh(), T: rt}
		g := pc.sp.stepNT(cur.G, r, v, y)
		m := fmt.Sprintf("%s (%s) at %s", r.Name, e.uni.setText(y), where)
		if cur.G.alive() && !g.alive() {
			m += "   <-- not allowed here by the grammar"
		}
		s.note("%s", m)
		move(s, g)
		pc.leaveLater(s, r)
		out = append(out, Res{st: s, v: pack(v, VNil{})})
	}
	return out
}

// ---------- verification of one rule ----------

func (pc *PC) verify(r *Rule) {
	fn := pc.fnOf(r)
	if fn == nil {
		return
	}
	e := pc.e
	pc.rule = r
	e.events = map[string]*Event{}
	e.steps, e.budget = 0, 30_000_000
	if pc.budget > 0 {
		e.budget = pc.budget
	}
	nund := len(pc.undecided)
	if pc.lcalls[r] == nil {
		pc.lcalls[r] = map[*Rule]bool{}
	}
	st := e.newState()
	slot := st.fresh()
	st.cls[slot] = e.uni.all
	if p, ok := pc.pre(r); ok {
		st.cls[slot] = p
	}
	pc.entrySlot = slot
	ps := under(pc.tParser).(*types.Struct)
	pf := make([]Val, ps.NumFields())
	for i := range pf {
		pf[i] = zero(ps.Field(i).Type())
		if v, ok := pc.flow.in[r.Name][i]; ok {
			pf[i] = v
		} else if _, basic := under(ps.Field(i).Type()).(*types.Basic); !basic && pc.otherField(i) {
			pf[i] = VOpq{K: "self", ID: st.fresh(), Path: "." + ps.Field(i).Name(), T: ps.Field(i).Type()}
		}
	}
	cur := VCursor{Pos: slot, G: pc.sp.start(r)}
	if r.Attr["entry"] == "fresh" {
		cur.Pos = -1
	}
	cobj := st.alloc(cur)
	ts := under(pc.tTokenizer).(*types.Struct)
	tf := make([]Val, ts.NumFields())
	for i := range tf {
		tf[i] = zero(ts.Field(i).Type())
	}
	tf[pc.fCursor] = VPtr{O: cobj}
	pf[pc.fTokenizer] = VPtr{O: st.alloc(&VStruct{T: pc.tTokenizer, F: tf})}
	if r.Attr["entry"] != "fresh" {
		pf[pc.fCurr] = pc.newToken(st, slot)
	}
	pc.ctxObj = st.alloc(VInt{0})
	ctxV := VOpq{K: "ctx", ID: pc.ctxObj, T: ps.Field(pc.fContext).Type()}
	pf[pc.fContext] = ctxV
	pc.parserObj = st.alloc(&VStruct{T: pc.tParser, F: pf})
	e.roots = []Val{VPtr{O: pc.parserObj}, ctxV}
	args := []Val{pc.receiver(st, fn)}
	for i := range r.Args {
		switch r.Args[i] {
		case "true":
			args = append(args, VBool{true})
		case "false":
			args = append(args, VBool{false})
		case "*":
			args = append(args, e.unkOf(st, fn.Params[i+1].Type(), "arg"))
		default:
			args = append(args, VInt{int64([]rune(r.Args[i])[1])})
		}
	}
	e.prep(fn)
	e.funcs[shortFn(fn)] = true
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	for i, q := range fn.Params {
		nf.env[q] = args[i]
	}
	st.frames = []*Frame{nf}
	outs := e.run(st, fn)
	if via := r.Attr["via"]; via != "" {
		outs = pc.chain(r, fn, args[0], strings.Split(via, ","), outs)
	}
	pc.stats["outcomes"] += len(outs)
	nok := 0
	for _, o := range outs {
		if o.panic != "" {
			continue
		}
		pc.leaveExtras(o.st, r)
		if pc.judge(r, fn, o) {
			nok++
		}
	}
	// engine events
	keys := make([]string, 0, len(e.events))
	for k := range e.events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ev := e.events[k]
		switch ev.Kind {
		case "panic", "loop", "case", "opqstore", "globalwrite":
			k2 := ev.Kind + "/" + r.Name + "/" + ev.Msg
			if _, ok := pc.out[k2]; !ok {
				pc.out[k2] = &PFinding{Kind: ev.Kind, Rule: r, Where: ev.Where, Msg: ev.Msg, Key: k2, Trace: ev.Trace}
			}
		default:
			pc.undecided[r.Name+": "+ev.Kind+": "+ev.Msg] = ev.Where
		}
	}
	if nok == 0 && len(pc.undecided) == nund {
		pc.add("reject", "never succeeds", pc.w.posStr(fn.Pos()), "no input is accepted", nil)
	}
	pc.verified = append(pc.verified, r.Name)
}

func (pc *PC) receiver(st *State, fn *ssa.Function) Val {
	rt := fn.Params[0].Type()
	if types.Identical(rt, types.NewPointer(pc.tParser)) {
		return VPtr{O: pc.parserObj}
	}
	// a struct embedding *Parser
	s := under(rt.Underlying().(*types.Pointer).Elem()).(*types.Struct)
	f := make([]Val, s.NumFields())
	for i := range f {
		t := s.Field(i).Type()
		switch {
		case types.Identical(t, types.NewPointer(pc.tParser)):
			f[i] = VPtr{O: pc.parserObj}
		case strings.HasSuffix(types.TypeString(t, shortQual), "Context"):
			f[i] = VOpq{K: "ctx", ID: pc.ctxObj, T: t}
		case strings.HasPrefix(types.TypeString(t, shortQual), "*ast."):
			f[i] = VNil{}
		default:
			if _, ok := under(t).(*types.Basic); ok {
				f[i] = zero(t)
			} else {
				f[i] = VOpq{K: "self", ID: st.fresh(), Path: "." + s.Field(i).Name(), T: t}
			}
		}
	}
	o := st.alloc(&VStruct{T: rt.Underlying().(*types.Pointer).Elem(), F: f})
	pc.e.roots = append(pc.e.roots, VPtr{O: o})
	return VPtr{O: o}
}

// judge compares one outcome of the function with the specification; true when it is an accepting outcome.
func (pc *PC) judge(r *Rule, fn *ssa.Function, o Res) bool {
	st := o.st
	var v, err Val = o.v, VNil{}
	if t, ok := o.v.(VTuple); ok {
		if len(t) == 0 {
			v = VNil{}
		} else {
			v, err = t[0], t[len(t)-1]
		}
	}
	cur, cok := pc.cursor(st)
	where := pc.w.posStr(fn.Pos())
	if !cok {
		pc.undecided[r.Name+": lost cursor"] = where
		return false
	}
	slot, sok := pc.currSlot(st)
	var la CSet
	if sok {
		la = st.cls[slot]
	}
	ctx, _ := pc.parserField(st, pc.fContext)
	if cv, ok := ctx.(VOpq); !ok || cv.ID != pc.ctxObj {
		if ok && cv.K == "ctx" {
			pc.add("scope", "context replaced", where, "after the call the parser uses a different context object than before", st)
		}
	}
	if d := pc.depth(st, pc.ctxObj); d != 0 && (r.Attr["open"] == "" || d != 1) {
		pc.add("scope", fmt.Sprintf("depth %d", d), where, fmt.Sprintf("on return the scope depth differs by %d from the depth at entry", d), st)
	}
	switch x := err.(type) {
	case VNil:
	case VErr:
		pc.judgeErr(r, fn, st, x, cur, la, where)
		return false
	case VIface:
		if ve, ok := x.V.(VErr); ok {
			pc.judgeErr(r, fn, st, ve, cur, la, where)
			return false
		}
		pc.judgeErr(r, fn, st, VErr{Origin: "other", Pos: "?"}, cur, la, where)
		return false
	default:
		pc.undecided[fmt.Sprintf("%s: error result %T", r.Name, err)] = where
		return false
	}
	// success
	if st.flags&fFailedSet != 0 {
		pc.add("drop", "registration", where, "a failed registration (duplicate name) is not reported as an error", st)
		return false
	}
	if !cur.G.alive() {
		if cur.G.dead == "nterr" {
			pc.add("drop", cur.G.at, where, fmt.Sprintf("the error of %s is dropped and the construct accepted", cur.G.at), st)
		} else {
			pc.add("accept", cur.G.at, where, fmt.Sprintf("accepts %s where the grammar does not allow it", cur.G.at), st)
		}
		return false
	}
	if sok && slot != cur.Pos {
		pc.add("stale", "return", where, "on return the current token is not the one the tokenizer stands at", st)
	}
	done := pc.sp.complete(cur.G, la, true)
	if len(done) == 0 {
		exp := pc.sp.acceptable(cur.G, pc.sp.uni.all)
		pc.add("accept", "incomplete", where, fmt.Sprintf("succeeds although the construct is incomplete (missing %s)", pc.sp.uni.setText(exp)), st)
		return false
	}
	if r.Attr["strict"] != "" {
		if x := la.minus(pc.nullOn(r)); !x.empty() {
			pc.add("accept", "before "+pc.sp.uni.setText(x), where, fmt.Sprintf("succeeds before %s, which cannot follow it", pc.sp.uni.setText(x)), st)
			return false
		}
	}
	// maximal munch
	cont := pc.sp.acceptable(cur.G, la)
	if nm := r.Attr["lazy"]; nm == "" && !cont.empty() && r.null && len(st.heap) > 0 && cur.N == 0 && isZero(pc.e, st, v) {
		// nothing read although something could be: handled by FIRST of the rule
		pc.add("reject", "skips "+pc.sp.uni.setText(cont), where, fmt.Sprintf("does not read %s although it belongs to the construct", pc.sp.uni.setText(cont)), st)
		return false
	} else if nm == "" && !cont.empty() {
		if dbgOn {
			for _, c := range cur.G.cfgs {
				dbg("CFG %s", cfgKey(c))
			}
		}
		pc.add("reject", "stops before "+pc.sp.uni.setText(cont), where, fmt.Sprintf("stops before %s although it belongs to the construct", pc.sp.uni.setText(cont)), st)
		return false
	}
	if q := r.Attr["require"]; q != "" && pc.required(st, q) <= 0 {
		pc.add("accept", "without "+q, where, fmt.Sprintf("accepts a part for which %s does not hold", q), st)
		return false
	}
	pc.judgeLater(st, r, where)
	// run delayed resolutions before looking at the tree
	finals := []*State{st}
	if pc.fPost >= 0 && r.Attr["post"] != "keep" {
		finals = pc.runPost(st)
	}
	for _, fs := range finals {
		var why []string
		okc := false
		for _, cfg := range done {
			m := &matcher{pc: pc, st: fs}
			if m.match(v, cfgValue(cfg), "result") {
				if w := m.decls(cfg); w == "" {
					okc = true
					break
				} else {
					why = append(why, "#declare "+w)
				}
			} else {
				why = append(why, m.why)
			}
		}
		if !okc {
			msg := strings.Join(uniq(why), " / ")
			if isNilVal(v) && !r.null {
				pc.add("nilresult", "nil", where, "returns no error and no node", fs)
			}
			if strings.HasPrefix(msg, "#declare ") {
				pc.add("declare", strings.TrimPrefix(msg, "#declare "), where, strings.TrimPrefix(msg, "#declare "), fs)
			} else {
				pc.add("tree", msg, where, "the result differs from what the source spells: "+msg, fs)
			}
		}
	}
	return true
}

func uniq(s []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func (pc *PC) runPost(st *State) []*State {
	v, ok := pc.parserField(st, pc.fPost)
	if !ok {
		return []*State{st}
	}
	el, ok := pc.e.elems(st, v)
	if !ok {
		return []*State{st}
	}
	states := []*State{st}
	for _, f := range el {
		var next []*State
		for _, s := range states {
			if _, isFn := f.(VFn); !isFn {
				next = append(next, s)
				continue
			}
			// a synthetic frame to call from
			s.frames = []*Frame{{fn: pc.fnOf(pc.rule), env: map[ssa.Value]Val{}}}
			fn := pc.fnOf(pc.rule)
			for _, r := range pc.e.callVal(s, f, nil, fn.Blocks[0].Instrs[0]) {
				if r.panic == "" {
					next = append(next, r.st)
				}
			}
		}
		states = next
	}
	return states
}

func (pc *PC) judgeErr(r *Rule, fn *ssa.Function, st *State, er VErr, cur VCursor, la CSet, where string) {
	if er.Origin == "new" || strings.HasPrefix(er.Pos, "placeless ") {
		l := er.Loc
		if !l.Path || !l.Line || !l.Col {
			pc.add("errpos", er.Pos, where, fmt.Sprintf("an error about the source created in %s does not carry path, line and column", er.Pos), st)
		}
	}
	if !cur.G.alive() {
		return
	}
	if st.flags&fFailedSet != 0 {
		return
	}
	if len(st.sem) > 0 && r.Attr["sem"] != "" || r.Attr["sem"] != "" && strings.HasPrefix(er.Origin, "ext:") {
		return
	}
	if r.Attr["sem"] == "" {
		if q := r.Attr["require"]; q != "" && pc.required(st, q) < 0 {
			return
		}
	}
	// not an error of a part, input so far is fine: the next token must be unacceptable
	acc := pc.sp.acceptable(cur.G, la)
	if !acc.empty() {
		pc.add("reject", pc.sp.uni.setText(acc), where, fmt.Sprintf("rejects %s where the grammar allows it", pc.sp.uni.setText(acc)), st)
		return
	}
	for _, cfg := range pc.sp.complete(cur.G, la, false) {
		f := la.and(r.follow)
		if cfg.look != nil {
			f = f.and(*cfg.look)
		}
		if !f.empty() {
			pc.add("reject", "complete before "+pc.sp.uni.setText(f), where, fmt.Sprintf("rejects a complete construct followed by %s", pc.sp.uni.setText(f)), st)
			return
		}
	}
}

// required: 1 when the state established that the predicate method q of a part holds, -1 when it does not hold
// (or the part is not even of a kind having it), 0 when it was not asked.
func (pc *PC) required(st *State, q string) int {
	r := 0
	for k, v := range st.facts {
		if !strings.HasPrefix(k.K, "nt:") {
			continue
		}
		switch {
		case strings.HasSuffix(k.Path, "."+q+"()?") && v == "T":
			r = 1
		case strings.HasSuffix(k.Path, "."+q+"()?") && v == "F", strings.Contains(k.Path, "?is ") && v == "F":
			return -1
		}
	}
	return r
}

func isZero(e *Eng, st *State, v Val) bool {
	switch x := v.(type) {
	case nil, VNil:
		return true
	case VBool:
		return !x.B
	case VStr:
		return x.S == ""
	case VInt:
		return x.N == 0
	case VSlice:
		return x.Hi == x.Lo
	case *VStruct:
		for _, f := range x.F {
			if !isZero(e, st, f) {
				return false
			}
		}
		return true
	case VIface:
		return false
	case VOpq:
		return e.factNil(st, x) == 1
	}
	return false
}

var dbgOn = os.Getenv("SA_DEBUG") != ""

func dbg(format string, a ...interface{}) {
	if dbgOn {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// nullOn is the set of current tokens on which a nullable rule may succeed without reading anything.
func (pc *PC) nullOn(r *Rule) CSet {
	if r.Attr["strict"] != "" {
		return r.follow
	}
	return pc.e.uni.all
}

// chain continues with further methods of the receiver after each successful outcome; the final result is the
// node the receiver holds.
func (pc *PC) chain(r *Rule, fn *ssa.Function, recv Val, via []string, outs []Res) []Res {
	e := pc.e
	var done []Res
	for i := 0; ; i++ {
		var ok []Res
		for _, o := range outs {
			if o.panic != "" {
				continue
			}
			err := o.v
			if t, is := o.v.(VTuple); is && len(t) > 0 {
				err = t[len(t)-1]
			}
			if _, isNil := err.(VNil); isNil {
				ok = append(ok, o)
			} else {
				done = append(done, Res{st: o.st, v: VTuple{VNil{}, err}})
			}
		}
		if i == len(via) {
			for _, o := range ok {
				var v Val = VNil{}
				if s, is := o.st.heap[recv.(VPtr).O].(*VStruct); is {
					ts := under(s.T).(*types.Struct)
					for j := range s.F {
						if ts.Field(j).Name() == r.Attr["result"] {
							v = s.F[j]
						}
					}
				}
				done = append(done, Res{st: o.st, v: VTuple{v, VNil{}}})
			}
			return done
		}
		next := pc.w.method("parser", r.Recv, via[i])
		if next == nil || len(next.Params) != 1 {
			pc.undecided[r.Name+": no method "+via[i]] = pc.w.posStr(fn.Pos())
			return nil
		}
		e.prep(next)
		e.funcs[shortFn(next)] = true
		outs = nil
		for _, o := range ok {
			o.st.frames = []*Frame{{fn: next, env: map[ssa.Value]Val{next.Params[0]: recv}}}
			outs = append(outs, e.run(o.st, next)...)
		}
	}
}
