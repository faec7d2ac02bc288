package main

import (
	_ "embed"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

//go:embed grammar.spec
var grammarText string

// debugGrammar prints every finding of the grammar verification (used while developing).
func debugGrammar(w *World, only string) int {
	pc, err := newPC(w, grammarText)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if flow, err := extraFlow(w); err == nil {
		pc.flow = flow
	}
	for _, r := range pc.sp.Order {
		if only != "" && only != "all" && r.Name != only {
			continue
		}
		if pc.fnOf(r) == nil {
			if r.Func != "" {
				fmt.Println("-- no function for", r.Name)
			}
			continue
		}
		t0 := time.Now()
		o0 := pc.stats["outcomes"]
		pc.verify(r)
		fmt.Printf("== %-26s steps=%d outcomes=%d %.2fs\n", r.Name, pc.e.steps, pc.stats["outcomes"]-o0, time.Since(t0).Seconds())
	}
	pc.relax(w, time.Now().Add(90*time.Second))
	if len(pc.moved) > 0 {
		fmt.Println("-- followed inside their callers:", pc.moved)
	}
	keys := []string{}
	for k := range pc.out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := pc.out[k]
		fmt.Printf("%s\n     at %s: %s\n", k, f.Where, f.Msg)
		if os.Getenv("SA_TRACE") != "" {
			for _, l := range f.Trace {
				fmt.Println("        ", l)
			}
		}
	}
	for k, v := range pc.undecided {
		fmt.Println("undecided", k, v)
	}
	return 0
}

// kindsOf: which kinds of discrepancy are violations of which property.
var kindsOf = map[string][]string{
	"C07": {"loop"},
	"C08": {"panic"},
	"C09": {"drop", "nilresult"},
	"C10": {"scope", "declare"},
	"C11": {"stale", "scope"},
	"C16": {"case"},
	"C22": {"errpos"},
	"C25": {"declare"},
}

var grammarProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true}

func concerns(prop string, f *PFinding) bool {
	if grammarProps[prop] {
		if f.Rule.Group != prop {
			return false
		}
		switch f.Kind {
		case "accept", "reject", "tree", "drop", "nilresult", "opqstore":
			return true
		}
		return false
	}
	for _, k := range kindsOf[prop] {
		if k != f.Kind {
			continue
		}
		switch {
		case prop == "C10" && k == "declare":
			return strings.Contains(f.Msg, "scope level")
		case prop == "C11" && k == "scope":
			return strings.Contains(f.Msg, "context object")
		}
		return true
	}
	return false
}

var explain = map[string]string{
	"grammar": "every parse function bound to a grammar rule is interpreted over the finite domain of token classes, with calls of other rules replaced by their summaries, and every outcome is compared with the grammar and the tree the grammar gives; a discrepancy names the rule, the function and the path",
	"C07":     "loops and recursion of every bound parse function: each way round a loop and each re-entry of a rule must read a token other than end of file",
	"C08":     "every instruction that can panic (nil dereference, index, type assertion, explicit panic) in the parse functions, over all token sequences and all kinds of declaration a name can have",
	"C09":     "every outcome of every bound parse function: an error of a part, of a registration or of an expectation must be the outcome's error, and a nil error comes with a node",
	"C10":     "scope depth and context object at every exit, successful or not, of every bound parse function, and the scope level of every registration",
	"C11":     "at every entry and successful exit of a bound parse function the current token is the one the tokenizer stands at, also after a rollback, and the context object is unchanged",
	"C16":     "every comparison of source text with a word in the interpreted functions must be on case-folded text",
	"C22":     "every error created while a rule is interpreted carries path, line and column, of the token it is about",
	"C25":     "registrations made on every successful path of the declaring rules against those the grammar demands",
}

// runGrammar verifies all rules within the budget of the tier.
func runGrammar(w *World, tier string) (*PC, error) {
	if w.grammar == nil {
		pc, err := runGrammarOnce(w, tier)
		if err != nil {
			return nil, err
		}
		w.grammar = pc
	}
	return w.grammar, nil
}

func runGrammarOnce(w *World, tier string) (*PC, error) {
	flow, err := extraFlow(w)
	if err != nil {
		return nil, err
	}
	pc, err := newPC(w, grammarText)
	if err != nil {
		return nil, err
	}
	pc.flow = flow
	pc.budget = 12_000_000
	limit := 400 * time.Second
	if tier == "thorough" {
		pc.budget = 20_000_000
		limit = 780 * time.Second
	}
	pc.deadline = time.Now().Add(limit)
	pc.e.deadline = pc.deadline
	for _, r := range pc.sp.Order {
		if pc.fnOf(r) == nil {
			continue
		}
		if time.Now().After(pc.deadline) {
			pc.undecided[r.Name+": time"] = "not analysed: out of time"
			continue
		}
		pc.verify(r)
	}
	pc.relax(w, time.Now().Add(90*time.Second))
	pc.recursion()
	return pc, nil
}

// recursion reports rules that can re-enter themselves without reading a token.
func (pc *PC) recursion() {
	state := map[*Rule]int{}
	var path []*Rule
	var visit func(r *Rule)
	visit = func(r *Rule) {
		state[r] = 1
		path = append(path, r)
		var next []*Rule
		for q := range pc.lcalls[r] {
			next = append(next, q)
		}
		sort.Slice(next, func(i, j int) bool { return next[i].Name < next[j].Name })
		for _, q := range next {
			switch state[q] {
			case 0:
				visit(q)
			case 1:
				var names []string
				on := false
				for _, p := range path {
					if p == q {
						on = true
					}
					if on {
						names = append(names, p.Name)
					}
				}
				pc.rule = q
				where := "-"
				if f := pc.fnOf(q); f != nil {
					where = pc.w.posStr(f.Pos())
				}
				pc.add("loop", "recursion "+strings.Join(names, ">"), where, "can re-enter itself without reading a token: "+strings.Join(append(names, q.Name), " -> "), nil)
			}
		}
		path = path[:len(path)-1]
		state[r] = 2
	}
	for _, r := range pc.sp.Order {
		if state[r] == 0 {
			visit(r)
		}
	}
}

func grammarCheck(prop string) checkFn {
	return func(w *World, tier string) *Report {
		x := explain[prop]
		if x == "" {
			x = explain["grammar"]
		}
		rep := newReport(prop, x)
		addGrammar(rep, w, tier)
		switch prop {
		case "C07", "C08", "C11", "C16":
			addLex(rep, w)
		}
		switch prop {
		case "C07":
			borrow(rep, w, tier, "endless", "C23", "C24")
		case "C08":
			borrow(rep, w, tier, "panics", "C23", "C24", "C18")
			unitAnalysis(w, rep, tier, true, "panics")
			entryAnalysis(w, rep, "panics")
		case "C09":
			unitAnalysis(w, rep, tier, true, "error lost", "duplicate accepted", "cycle accepted")
			entryAnalysis(w, rep, "error lost", "no result")
		case "C06":
			entryAnalysis(w, rep, "program", "units", "rejected", "start")
		case "C03", "C05":
			addWords(rep, w)
		case "C16":
			addDecls(rep, w, "find")
		case "C25":
			addDecls(rep, w, "nodes", "maps")
		}
		return rep
	}
}

func addGrammar(rep *Report, w *World, tier string) {
	pc, err := runGrammar(w, tier)
	if err != nil {
		fmt.Println("UNDECIDED:", err)
		rep.Coverage["undecided"] = []string{err.Error()}
		return
	}
	keys := []string{}
	for k := range pc.out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := pc.out[k]
		if !concerns(rep.Prop, f) {
			continue
		}
		rep.Findings = append(rep.Findings, Finding{Prop: rep.Prop, Rule: f.Rule.Name, Key: f.Key, Where: f.Where, Msg: f.Msg, Trace: f.Trace})
	}
	rules := []string{}
	for _, n := range pc.verified {
		if grammarProps[rep.Prop] && pc.sp.Rules[n].Group != rep.Prop {
			continue
		}
		rules = append(rules, n)
	}
	rep.Coverage["rules_verified"] = len(rules)
	rep.Coverage["rules"] = rules
	rep.Coverage["functions_interpreted"] = len(pc.e.funcs)
	rep.Coverage["outcomes_compared"] = pc.stats["outcomes"]
	rep.Coverage["rule_summaries_applied"] = pc.stats["cuts"]
	rep.Coverage["abstract_states"] = pc.e.nStates
	und := []string{}
	for k, v := range pc.undecided {
		und = append(und, k+" ("+v+")")
	}
	sort.Strings(und)
	rep.Coverage["undecided"] = und
	for _, u := range und {
		fmt.Println("UNDECIDED:", u)
	}
	rep.Assumptions = append(rep.Assumptions,
		"the tokenizer delivers the tokens C12-C15 describe; a token is one of the classes enumerated from the code's word tables",
		"declarations found by name lookup are of one of the kinds type, label, used unit, namespace, variable or other")
}

func init() {
	for p := range grammarProps {
		checks[p] = grammarCheck(p)
	}
	for p := range kindsOf {
		checks[p] = grammarCheck(p)
	}
}

// addRules adds the findings of single grammar rules.
func addRules(rep *Report, w *World, tier string, names ...string) {
	pc, err := newPC(w, grammarText)
	if err != nil {
		fmt.Println("UNDECIDED:", err)
		return
	}
	if flow, err := extraFlow(w); err == nil {
		pc.flow = flow
	}
	pc.budget = 6_000_000
	pc.deadline = time.Now().Add(300 * time.Second)
	pc.e.deadline = pc.deadline
	for _, r := range pc.sp.Order {
		for _, n := range names {
			if r.Name == n && pc.fnOf(r) != nil {
				pc.verify(r)
			}
		}
	}
	pc.relax(w, time.Now().Add(90*time.Second))
	keys := []string{}
	for k := range pc.out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := pc.out[k]
		switch f.Kind {
		case "accept", "reject", "tree", "drop", "nilresult", "resolve":
			rep.Findings = append(rep.Findings, Finding{Prop: rep.Prop, Rule: f.Rule.Name, Key: f.Key, Where: f.Where, Msg: f.Msg, Trace: f.Trace})
		}
	}
	rep.Coverage["rule_outcomes_compared"] = pc.stats["outcomes"]
	old, _ := rep.Coverage["undecided"].([]string)
	for k, v := range pc.undecided {
		old = append(old, k+" ("+v+")")
		fmt.Println("UNDECIDED:", k, v)
	}
	rep.Coverage["undecided"] = old
}
