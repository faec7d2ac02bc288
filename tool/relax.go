package main

import (
	"sort"
	"time"
)

// A rule's function may take over part of the work of its callers (or leave part of its work to them) without a change
// of what the parser accepts or builds. When a rule and its callers disagree with the grammar, the rule's function is
// followed inside its callers instead of being summarised, and the callers are compared with the grammar in which the
// rule is written out. If that removes findings and adds none, only the boundary had moved.

// callersOf gives the bound rules that refer to r, directly or through rules without a function.
func (pc *PC) callersOf(r *Rule) []*Rule {
	refs := func(q, to *Rule) bool {
		for _, es := range q.nfa.edges {
			for _, e := range es {
				if e.kind == 'n' && e.rule == to {
					return true
				}
			}
		}
		return false
	}
	seen := map[*Rule]bool{}
	var res []*Rule
	var up func(to *Rule)
	up = func(to *Rule) {
		for _, q := range pc.sp.Order {
			if q.nfa == nil || seen[q] || !refs(q, to) {
				continue
			}
			seen[q] = true
			if pc.fnOf(q) != nil && q != r {
				res = append(res, q)
			} else if q != r {
				up(q)
			}
		}
	}
	up(r)
	return res
}

func (pc *PC) recursive(r *Rule) bool {
	seen := map[*Rule]bool{}
	var down func(q *Rule) bool
	down = func(q *Rule) bool {
		if q.nfa == nil {
			return false
		}
		for _, es := range q.nfa.edges {
			for _, e := range es {
				if e.kind != 'n' || e.rule == nil || seen[e.rule] {
					continue
				}
				if e.rule == r {
					return true
				}
				// other bound rules cut the recursion
				if pc.fnOf(e.rule) != nil {
					continue
				}
				seen[e.rule] = true
				if down(e.rule) {
					return true
				}
			}
		}
		return false
	}
	return down(r)
}

func boundaryKind(k string) bool {
	switch k {
	case "accept", "reject", "tree", "drop", "declare", "nilresult", "place":
		return true
	}
	return false
}

// relax tries to explain findings by moved boundaries.
func (pc *PC) relax(w *World, deadline time.Time) *PC {
	unbound := map[string]bool{}
	tried := map[string]bool{}
	for n := 0; n < 12 && time.Now().Before(deadline); n++ {
		// candidates: rules all of whose findings are of the boundary kind
		per := map[string][]*PFinding{}
		for _, f := range pc.out {
			per[f.Rule.Name] = append(per[f.Rule.Name], f)
		}
		var cand *Rule
		for _, r := range pc.sp.Order {
			fs := per[r.Name]
			if len(fs) == 0 || tried[r.Func] || pc.fnOf(r) == nil || len(pc.callersOf(r)) == 0 || pc.recursive(r) || r.Attr["require"] != "" {
				continue
			}
			ok := false
			for _, f := range fs {
				if f.Kind == "accept" || f.Kind == "reject" || f.Kind == "tree" {
					ok = true
				}
			}
			for _, f := range fs {
				if !boundaryKind(f.Kind) {
					ok = false
				}
			}
			if ok {
				cand = r
				break
			}
		}
		if cand == nil {
			return pc
		}
		tried[cand.Func] = true
		unbound[cand.Func] = true
		p2, err := newPCUnbound(w, grammarText, unbound)
		if err != nil {
			delete(unbound, cand.Func)
			continue
		}
		p2.budget, p2.deadline = pc.budget, deadline
		p2.flow = pc.flow
		p2.e.deadline = deadline
		again := map[string]bool{}
		for _, q := range pc.callersOf(cand) {
			again[q.Name] = true
		}
		for q := range per {
			again[q] = true
		}
		for _, q := range p2.sp.Order {
			if again[q.Name] && p2.fnOf(q) != nil {
				p2.verify(q)
			}
		}
		better := len(p2.undecided) == 0
		for k := range p2.out {
			if pc.out[k] == nil {
				better = false
			}
		}
		fewer := false
		for k, f := range pc.out {
			if p2.out[k] == nil && f.Rule.Func != cand.Func {
				fewer = true
			}
		}
		_ = fewer
		if !better {
			delete(unbound, cand.Func)
			continue
		}
		// take the new findings of the rules compared again
		for k, f := range pc.out {
			if f.Rule.Func == cand.Func || again[f.Rule.Name] && p2.out[k] == nil {
				delete(pc.out, k)
			}
		}
		pc.unbound = unbound
		pc.moved = append(pc.moved, cand.Name)
		sort.Strings(pc.moved)
		for k, v := range p2.stats {
			pc.stats[k] += v
		}
	}
	return pc
}
