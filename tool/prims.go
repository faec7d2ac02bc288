package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) fmtText(st *State, args []Val) VText {
	var t VText
	for _, a := range args {
		if el, ok := e.elems(st, a); ok {
			for _, x := range el {
				t = mergeText(t, e.formatted(st, x))
			}
			continue
		}
		t = mergeText(t, e.formatted(st, a))
	}
	return t
}

// formatted gives the location facts a formatted value contributes (following Location/Position pointers).
func (e *Eng) formatted(st *State, v Val) VText {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	if p, ok := v.(VPtr); ok {
		if c, ok := e.load(st, p); ok {
			if s, ok := c.(*VStruct); ok && len(s.F) <= 4 {
				var t VText
				for _, f := range s.F {
					switch f.(type) {
					case VTokNum, VPath:
						t = mergeText(t, textOf(f))
					case VTokType:
						t.Tok = f.(VTokType).S
					}
				}
				return t
			}
		}
	}
	return textOf(v)
}

func (e *Eng) newErr(st *State, origin string, loc VText, site ssa.Instruction) Val {
	st.flags |= fErrNew
	pos := "?"
	if site != nil {
		pos = shortFn(site.Parent())
	}
	er := VErr{Origin: origin, Loc: loc, Pos: pos}
	if e.onErr != nil {
		e.onErr(e, st, er, site)
	}
	return er
}

func caseMap(v Val, up bool) (Val, bool) {
	switch x := v.(type) {
	case VStr:
		if up {
			return VStr{strings.ToUpper(x.S)}, true
		}
		return VStr{strings.ToLower(x.S)}, true
	case VTokStr:
		if up {
			return VTokStr{x.S, 'u'}, true
		}
		return VTokStr{x.S, 'l'}, true
	case VOpq:
		p := x.Path
		for _, s := range []string{"~u", "~l"} {
			p = strings.TrimSuffix(p, s)
		}
		if up {
			x.Path = p + "~u"
		} else {
			x.Path = p + "~l"
		}
		return x, true
	}
	return VText{}, true
}

// foldText computes a text function of constant arguments.
func foldText(name string, args []Val) (Val, bool) {
	var ss []string
	for _, a := range args {
		s, ok := a.(VStr)
		if !ok {
			break
		}
		ss = append(ss, s.S)
	}
	n := len(ss)
	switch {
	case name == "strings.TrimSpace" && n == 1:
		return VStr{strings.TrimSpace(ss[0])}, true
	case name == "strings.Trim" && n == 2:
		return VStr{strings.Trim(ss[0], ss[1])}, true
	case name == "strings.TrimSuffix" && n == 2:
		return VStr{strings.TrimSuffix(ss[0], ss[1])}, true
	case name == "strings.TrimPrefix" && n == 2:
		return VStr{strings.TrimPrefix(ss[0], ss[1])}, true
	case name == "strings.TrimLeft" && n == 2:
		return VStr{strings.TrimLeft(ss[0], ss[1])}, true
	case name == "strings.TrimRight" && n == 2:
		return VStr{strings.TrimRight(ss[0], ss[1])}, true
	case name == "strings.ReplaceAll" && n == 3:
		return VStr{strings.ReplaceAll(ss[0], ss[1], ss[2])}, true
	case name == "strings.Replace" && n == 3:
		if k, ok := args[3].(VInt); ok {
			return VStr{strings.Replace(ss[0], ss[1], ss[2], int(k.N))}, true
		}
	}
	return nil, false
}

// external models functions outside the repository.
func (e *Eng) external(st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
	name := fn.String()
	switch name {
	case "strings.ToUpper":
		v, _ := caseMap(args[0], true)
		return one(st, v)
	case "strings.ToLower":
		v, _ := caseMap(args[0], false)
		return one(st, v)
	case "strings.EqualFold":
		a, _ := caseMap(args[0], true)
		b, _ := caseMap(args[1], true)
		return e.equal(st, a, b, site)
	case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
		if t, ok := args[0].(VTokStr); ok {
			yes, no := e.split(st, t.S, e.uni.byKind["int"])
			var out []Res
			rt := fn.Signature.Results().At(0).Type()
			er := VErr{Origin: "ext:" + name, Pos: shortFn(site.Parent())}
			if yes != nil {
				n := yes.clone()
				n.addSem("range")
				out = append(out, Res{st: yes, v: VTuple{VOpq{K: "num", ID: t.S, T: rt}, VNil{}}}, Res{st: n, v: VTuple{VInt{0}, er}})
			}
			if no != nil {
				out = append(out, Res{st: no, v: VTuple{VInt{0}, er}})
			}
			return out
		}
	case "strings.Join":
		if el, ok := e.elems(st, args[0]); ok {
			var v Val = VStr{""}
			for i, x := range el {
				if i > 0 {
					v = textJoin(v, args[1])
				}
				v = textJoin(v, x)
			}
			return one(st, v)
		}
		return one(st, VText{})
	case "strings.TrimSpace", "strings.Trim", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimRight", "strings.Repeat", "strings.Replace", "strings.ReplaceAll", "strings.Title":
		if v, ok := foldText(name, args); ok {
			return one(st, v)
		}
		return one(st, VText{})
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.ContainsRune":
		a, ok1 := args[0].(VStr)
		b, ok2 := args[1].(VStr)
		if ok1 && ok2 {
			switch name {
			case "strings.Contains":
				return one(st, VBool{strings.Contains(a.S, b.S)})
			case "strings.HasPrefix":
				return one(st, VBool{strings.HasPrefix(a.S, b.S)})
			case "strings.HasSuffix":
				return one(st, VBool{strings.HasSuffix(a.S, b.S)})
			}
		}
		if r, ok := args[1].(VRune); ok && ok1 {
			yes, no := e.split(st, r.S, e.uni.runeSetBy(func(c rune) bool { return strings.ContainsRune(a.S, c) }))
			return boolRes(yes, no)
		}
		return forkUnknown(st)
	case "sort.Strings":
		if s, ok := args[0].(VSlice); ok {
			el, ok := e.elems(st, s)
			if ok {
				var ss []string
				for _, x := range el {
					if y, ok := x.(VStr); ok {
						ss = append(ss, y.S)
					}
				}
				if len(ss) == len(el) {
					sort.Strings(ss)
					a := e.content(st, s.O).(*VArr)
					E := append([]Val{}, a.E...)
					for i, x := range ss {
						E[s.Lo+i] = VStr{x}
					}
					e.setContent(st, s.O, &VArr{E: E})
				}
			}
		}
		return one(st, VTuple{})
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		t := e.fmtText(st, args)
		return one(st, t)
	case "fmt.Errorf", "github.com/pkg/errors.Errorf", "github.com/pkg/errors.New", "errors.New":
		if e.initMode {
			return one(st, VErr{Origin: "init", Pos: "init"})
		}
		// an error value passed on keeps its own facts
		t := e.fmtText(st, args)
		return one(st, e.newErr(st, "new", t, site))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		if isNilVal(args[0]) {
			return one(st, VNil{})
		}
		if er, ok := args[0].(VErr); ok && len(args) > 1 && !e.initMode {
			// the text added may say where
			if l := er.Loc; !(l.Path && l.Line && l.Col) {
				if t := e.fmtText(st, args[1:]); t.Path && t.Line && t.Col {
					er.Loc = t
					return one(st, er)
				}
			}
		}
		return one(st, args[0])
	case "github.com/pkg/errors.Cause", "errors.Unwrap":
		return one(st, args[0])
	case "errors.Is":
		return e.equal(st, args[0], args[1], site)
	case "unicode.IsLetter", "unicode.IsSpace", "unicode.IsDigit", "unicode.IsNumber", "unicode.IsUpper", "unicode.IsLower":
		switch r := args[0].(type) {
		case VRune:
			yes, no := e.split(st, r.S, e.uni.uniSet(name))
			return boolRes(yes, no)
		case VInt:
			return one(st, VBool{uniPred(name, rune(r.N))})
		}
		return forkUnknown(st)
	case "unicode.ToUpper", "unicode.ToLower":
		return one(st, args[0])
	case "os.Exit":
		return nil
	}
	if e.onExternal != nil {
		if r := e.onExternal(e, st, fn, args, site); r != nil {
			return r
		}
	}
	// default: unknown results; an error result forks
	res := fn.Signature.Results()
	e.externs[name] = true
	mk := func(s *State, t types.Type, i int) Val {
		return VOpq{K: "ext:" + name, ID: s.fresh(), T: t}
	}
	if e.initMode {
		if res.Len() == 1 {
			return one(st, VOpq{K: "ext:" + name, ID: 1, T: res.At(0).Type()})
		}
		return one(st, VTuple{})
	}
	isErr := func(t types.Type) bool { return types.TypeString(t, nil) == "error" }
	switch res.Len() {
	case 0:
		return one(st, VTuple{})
	case 1:
		if isErr(res.At(0).Type()) {
			n := st.clone()
			return []Res{{st: st, v: VNil{}}, {st: n, v: VErr{Origin: "ext:" + name, Pos: "?"}}}
		}
		if b, ok := under(res.At(0).Type()).(*types.Basic); ok {
			if b.Info()&types.IsBoolean != 0 {
				return forkUnknown(st)
			}
			if b.Info()&types.IsString != 0 {
				return one(st, VText{})
			}
			return one(st, VUnk{name})
		}
		return one(st, mk(st, res.At(0).Type(), 0))
	}
	ok := make(VTuple, res.Len())
	var n *State
	bad := make(VTuple, res.Len())
	last := res.At(res.Len() - 1).Type()
	if isErr(last) {
		n = st.clone()
	}
	for i := range ok {
		t := res.At(i).Type()
		if isErr(t) {
			ok[i] = VNil{}
			bad[i] = VErr{Origin: "ext:" + name, Pos: "?"}
			continue
		}
		if _, b := under(t).(*types.Basic); b {
			ok[i] = VUnk{name}
			bad[i] = VUnk{name}
		} else {
			ok[i] = mk(st, t, i)
			bad[i] = VNil{}
		}
	}
	out := []Res{{st: st, v: ok}}
	if n != nil {
		out = append(out, Res{st: n, v: bad})
	}
	return out
}

func registerCommonPrims(e *Eng) {}

// runInit interprets the package initialisers of the repository in dependency order.
func (e *Eng) runInit(only ...string) {
	e.initMode = true
	st := e.newState()
	st.nid = 0
	for _, p := range e.w.SSA {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				e.staticMax++
				e.globals[g] = e.staticMax
				e.static[e.staticMax] = zero(g.Type().(*types.Pointer).Elem())
			}
		}
	}
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		sp, ok := e.w.SSA[p.Path()]
		if !ok {
			return
		}
		if f := sp.Func("init"); f != nil {
			e.call(st, f, nil, nil, nil)
		}
	}
	var paths []string
	for k := range e.w.SSA {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(e.w.SSA[k].Pkg)
	}
	e.initMode = false
}
