package main

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Fields of the parser besides the token stream, the context and the pending section functions: what they hold when a
// rule is entered, and after it, is inferred over all rules (a fixpoint over {never, one constant, anything}).
type xFlow struct {
	in, out map[string]map[int]Val
	callers map[string]map[string]bool
	todo    map[string]bool // rules to look at again
}

func newXFlow() *xFlow {
	return &xFlow{in: map[string]map[int]Val{}, out: map[string]map[int]Val{}, callers: map[string]map[string]bool{}, todo: map[string]bool{}}
}

func (x *xFlow) join(m map[string]map[int]Val, rule string, f int, v Val) bool {
	switch v.(type) {
	case VBool, VInt, VStr:
	default:
		v = VUnk{"field"}
	}
	if m[rule] == nil {
		m[rule] = map[int]Val{}
	}
	old, ok := m[rule][f]
	switch {
	case !ok:
		m[rule][f] = v
	case old == v:
		return false
	default:
		if _, u := old.(VUnk); u {
			return false
		}
		m[rule][f] = VUnk{"field"}
	}
	return true
}

// extraFields are the indexes of the parser's other fields of basic type.
func (pc *PC) extraFields() []int {
	var r []int
	s := under(pc.tParser).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if i == pc.fTokenizer || i == pc.fCurr || i == pc.fContext || i == pc.fPost {
			continue
		}
		if _, ok := under(s.Field(i).Type()).(*types.Basic); ok {
			r = append(r, i)
		}
	}
	return r
}

func (pc *PC) otherField(i int) bool {
	return i != pc.fTokenizer && i != pc.fCurr && i != pc.fContext && i != pc.fPost
}

// enterExtras notes the values with which a rule is entered, leaveExtras those with which it ends.
func (pc *PC) enterExtras(st *State, r *Rule) {
	for _, f := range pc.extraFields() {
		if v, ok := pc.parserField(st, f); ok {
			if pc.flow.callers[r.Name] == nil {
				pc.flow.callers[r.Name] = map[string]bool{}
			}
			pc.flow.callers[r.Name][pc.rule.Name] = true
			if pc.flow.join(pc.flow.in, r.Name, f, v) {
				pc.flow.todo[r.Name] = true
			}
		}
	}
}

func (pc *PC) leaveExtras(st *State, r *Rule) {
	for _, f := range pc.extraFields() {
		if v, ok := pc.parserField(st, f); ok {
			if pc.flow.join(pc.flow.out, r.Name, f, v) {
				for c := range pc.flow.callers[r.Name] {
					pc.flow.todo[c] = true
				}
			}
		}
	}
}

func (pc *PC) afterExtras(st *State, r *Rule) {
	for _, f := range pc.extraFields() {
		if v, ok := pc.flow.out[r.Name][f]; ok {
			pc.setParserField(st, f, v)
		}
	}
}

// extraFlow infers what the parser's other fields hold at the rule boundaries (nothing to do when there are none).
func extraFlow(w *World) (*xFlow, error) {
	if w.flow != nil {
		return w.flow, nil
	}
	flow := newXFlow()
	deadline := time.Now().Add(150 * time.Second)
	pc, err := newPC(w, grammarText)
	if err != nil {
		return nil, err
	}
	if len(pc.extraFields()) > 0 {
		pc.flow = flow
		pc.budget = 2_000_000
		pc.deadline, pc.e.deadline = deadline, deadline
		for _, r := range pc.sp.Order {
			flow.todo[r.Name] = true
		}
		for len(flow.todo) > 0 && time.Now().Before(deadline) {
			for _, r := range pc.sp.Order {
				if flow.todo[r.Name] {
					delete(flow.todo, r.Name)
					if pc.fnOf(r) != nil && time.Now().Before(deadline) {
						pc.verify(r)
					}
				}
			}
		}
	}
	w.flow = flow
	return flow, nil
}

// placeless reports whether the errors of every implementation of an interface method of package ast say nothing about
// a place: they are made by formatting values none of which is, or holds, a location.
func (w *World) placeless(m *types.Func) bool {
	if m.Pkg() == nil || !strings.HasSuffix(m.Pkg().Path(), "/ast") {
		return false
	}
	if r, ok := w.noPlace[m]; ok {
		return r
	}
	n, bad := 0, false
	for _, f := range w.repoFuncs() {
		if f.Name() != m.Name() || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil {
					bad = true
					continue
				}
				switch g.Pkg.Pkg.Path() + "." + g.Name() {
				case "github.com/pkg/errors.Errorf", "github.com/pkg/errors.New", "fmt.Errorf", "errors.New":
					n++
				default:
					bad = true
				}
			}
		}
	}
	if w.noPlace == nil {
		w.noPlace = map[*types.Func]bool{}
	}
	w.noPlace[m] = n > 0 && !bad
	return n > 0 && !bad
}

// A type declaration may leave functions to be run at the end of its section (names that are declared later in it).
// leaveLater registers one on behalf of a summarised declaration; judgeLater demands that it has run when the section
// ends and that nothing of the section stays registered.
func (pc *PC) leaveLater(st *State, r *Rule) {
	if r.Name != "TypeDecl" || pc.fPost < 0 {
		return
	}
	v, ok := pc.parserField(st, pc.fPost)
	if !ok {
		return
	}
	el, ok := pc.e.elems(st, v)
	if !ok {
		return
	}
	run := VPrim{Name: "later", F: func(e *Eng, s *State, args []Val, site ssa.Instruction) []Res {
		s.flags &^= fLater
		return one(s, VTuple{})
	}}
	st.flags |= fLater
	if len(el) == 0 {
		pc.setParserField(st, pc.fPost, pc.e.newSlice(st, []Val{run}))
	}
}

func (pc *PC) judgeLater(st *State, r *Rule, where string) {
	if r.Name != "TypeSection" && r.Name != "TypeSectionOpt" || pc.fPost < 0 {
		return
	}
	if st.flags&fLater != 0 {
		pc.add("resolve", "not run", where, "the names left open in a type section are not resolved at its end", st)
	}
	v, ok := pc.parserField(st, pc.fPost)
	if !ok {
		return
	}
	if el, ok := pc.e.elems(st, v); ok && len(el) > 0 {
		pc.add("resolve", "left registered", where, "what a type section leaves to its end stays registered after it and is run again, in another scope, at the end of a later section", st)
	}
}

// borrow adds the findings of another property's analysis that also violate this one.
func borrow(rep *Report, w *World, tier, word string, from ...string) {
	for _, p := range from {
		o := checks[p](w, tier)
		for _, f := range o.Findings {
			if strings.Contains(f.Key, word) {
				f.Prop = rep.Prop
				rep.Findings = append(rep.Findings, f)
			}
		}
		rep.Coverage["shapes_of_"+p] = o.Coverage["calls_interpreted"]
	}
}
