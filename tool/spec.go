package main

import (
	"fmt"
	"strings"
	"unicode"
)

// The specification grammar: rules over token classes and nonterminals with tree-building actions.

type Rule struct {
	Name   string
	Func   string   // parser method implementing the rule ("" = none)
	Args   []string // constant arguments identifying the rule ("true", "false", or "*")
	Recv   string   // receiver type name
	Group  string   // property group
	Sem    string   // names of accepted semantic rejections
	Attr   map[string]string
	alts   []*specAlt
	nfa    *nfa
	first  CSet
	null   bool
	left   map[*Rule]bool
	follow CSet
	line   int
}

type specAlt struct {
	items []*specItem
	act   *Term
	decl  []*DeclAct
}

type DeclAct struct {
	What *Term
	Name *Term // Overwrite
	Up   int   // registered this many scopes outside of the scope current at the end of the rule
}

type specItem struct {
	bind  string
	add   bool
	set   *setExpr
	rule  string
	group []*specAlt
	rep   byte // 0 ? * +
	mark  string
	whole bool // nonterminal only read as a whole, never token by token
	peek  bool // set restricts the next token without reading it
}

type setExpr struct {
	text  string
	minus []string
	plus  []string
}

// Term is an action expression.
type Term struct {
	Op   string // var node lit ident ref raw val upper decl cast ptr list nil true false str
	Name string
	Fld  []string
	Args []*Term
	Open bool
}

type edge struct {
	to    int
	kind  byte // 'e' eps, 't' token, 'n' nonterminal, '(' open scope, ')' close scope, 'a' action
	set   CSet
	rule  *Rule
	bind  string
	add   bool
	act   *specAlt // with kind 'a': evaluate and bind
	whole bool
}

type nfa struct {
	edges  [][]edge
	start  int
	accept int
	live   []map[string]bool // variables still needed in a state
}

func termVars(t *Term, out map[string]bool) {
	if t == nil {
		return
	}
	if t.Op == "var" {
		out[t.Name] = true
	}
	for _, a := range t.Args {
		termVars(a, out)
	}
}

// liveness computes which variables matter from each state on.
func (n *nfa) liveness() {
	n.live = make([]map[string]bool, len(n.edges))
	for i := range n.live {
		n.live[i] = map[string]bool{}
	}
	n.live[n.accept]["$"] = true
	n.live[n.accept]["_pass"] = true
	for changed := true; changed; {
		changed = false
		for s := range n.edges {
			for _, e := range n.edges[s] {
				use := map[string]bool{}
				if e.act != nil {
					termVars(e.act.act, use)
					for _, d := range e.act.decl {
						termVars(d.What, use)
						termVars(d.Name, use)
					}
				}
				def := e.bind
				if def == "" && e.kind == 'n' {
					def = "_pass"
				}
				for v := range n.live[e.to] {
					if v != def || e.add {
						use[v] = true
					}
				}
				for v := range use {
					if !n.live[s][v] {
						n.live[s][v] = true
						changed = true
					}
				}
			}
		}
	}
}

// Spec is the whole grammar.
type Spec struct {
	Rules  map[string]*Rule
	Order  []*Rule
	uni    *Universe
	Idents []string
	hasFn  map[*Rule]bool
}

func (sp *Spec) cuttable(r *Rule) bool { return sp.hasFn[r] }

type specLexer struct {
	toks []string
	line []int
	i    int
}

func specLex(s string) (*specLexer, error) {
	l := &specLexer{}
	line := 1
	rs := []rune(s)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case r == '\n':
			line++
			i++
		case unicode.IsSpace(r):
			i++
		case r == '#' && (i == 0 || rs[i-1] == '\n' || unicode.IsSpace(rs[i-1])):
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case r == '\'' || r == '"':
			j := i + 1
			for j < len(rs) && rs[j] != r {
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("line %d: unterminated literal", line)
			}
			l.toks = append(l.toks, string(rs[i:j+1]))
			l.line = append(l.line, line)
			i = j + 1
		case unicode.IsLetter(r) || r == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			l.toks = append(l.toks, string(rs[i:j]))
			l.line = append(l.line, line)
			i = j
		default:
			two := ""
			if i+1 < len(rs) {
				two = string(rs[i : i+2])
			}
			switch two {
			case "=>", "+=", "..", "$(", "$)":
				l.toks = append(l.toks, two)
				l.line = append(l.line, line)
				i += 2
			default:
				l.toks = append(l.toks, string(r))
				l.line = append(l.line, line)
				i++
			}
		}
	}
	return l, nil
}

func (l *specLexer) peek() string {
	if l.i < len(l.toks) {
		return l.toks[l.i]
	}
	return ""
}
func (l *specLexer) peekN(n int) string {
	if l.i+n < len(l.toks) {
		return l.toks[l.i+n]
	}
	return ""
}
func (l *specLexer) next() string { t := l.peek(); l.i++; return t }
func (l *specLexer) errf(f string, a ...interface{}) error {
	ln := 0
	if l.i < len(l.line) {
		ln = l.line[l.i]
	}
	return fmt.Errorf("spec line %d near %q: %s", ln, l.peek(), fmt.Sprintf(f, a...))
}

func isName(s string) bool { return s != "" && (unicode.IsLetter(rune(s[0])) || s[0] == '_') }

// parseSpec reads rules of the form
//
//	rule Name [func=F(args)] [group=Cnn] [key=value...] = alternatives ;
func parseSpec(text string) (*Spec, error) {
	l, err := specLex(text)
	if err != nil {
		return nil, err
	}
	sp := &Spec{Rules: map[string]*Rule{}}
	group := ""
	for l.peek() != "" {
		switch l.next() {
		case "define":
			ln := l.line[l.i]
			name := l.next()
			st := l.i
			for l.i < len(l.toks) && l.line[l.i] == ln {
				l.i++
			}
			val := append([]string{}, l.toks[st:l.i]...)
			var nt []string
			var nl []int
			for i, t := range l.toks {
				if i >= l.i && t == name {
					for _, v := range val {
						nt = append(nt, v)
						nl = append(nl, l.line[i])
					}
					continue
				}
				nt = append(nt, t)
				nl = append(nl, l.line[i])
			}
			l.toks, l.line = nt, nl
			continue
		case "group":
			group = l.next()
			continue
		case "rule":
		default:
			l.i--
			return nil, l.errf("expected rule")
		}
		r := &Rule{Name: l.next(), Group: group, Attr: map[string]string{}, line: l.line[l.i-1]}
		for l.peek() != "=" {
			k := l.next()
			if !isName(k) || l.next() != "=" {
				l.i--
				return nil, l.errf("bad attribute of rule %s", r.Name)
			}
			v := l.next()
			if k == "func" {
				r.Func = v
				if l.peek() == "." {
					l.next()
					r.Recv, r.Func = v, l.next()
				}
				if l.peek() == "(" {
					l.next()
					for l.peek() != ")" {
						r.Args = append(r.Args, l.next())
						if l.peek() == "," {
							l.next()
						}
					}
					l.next()
				}
				continue
			}
			if len(v) > 1 && (v[0] == '\'' || v[0] == '"') {
				v = v[1 : len(v)-1]
			}
			r.Attr[k] = v
		}
		l.next()
		alts, err := l.alts()
		if err != nil {
			return nil, err
		}
		r.alts = alts
		if l.next() != ";" {
			l.i--
			return nil, l.errf("expected ; after rule %s", r.Name)
		}
		if sp.Rules[r.Name] != nil {
			return nil, fmt.Errorf("rule %s twice", r.Name)
		}
		sp.Rules[r.Name] = r
		sp.Order = append(sp.Order, r)
	}
	// identifiers used as literals
	seen := map[string]bool{}
	res := map[string]bool{}
	for _, s := range specReserved {
		res[s] = true
	}
	var lit func(s string)
	lit = func(s string) {
		if len(s) > 2 && (s[0] == '\'') {
			t := s[1 : len(s)-1]
			if isName(t) && !res[t] && !seen[t] {
				seen[t] = true
				sp.Idents = append(sp.Idents, t)
			}
		}
	}
	for _, t := range l.toks {
		lit(t)
	}
	return sp, nil
}

func (l *specLexer) alts() ([]*specAlt, error) {
	var out []*specAlt
	for {
		a, err := l.alt()
		if err != nil {
			return nil, err
		}
		out = append(out, a)
		if l.peek() != "|" {
			return out, nil
		}
		l.next()
	}
}

func (l *specLexer) alt() (*specAlt, error) {
	a := &specAlt{}
	for {
		switch t := l.peek(); {
		case t == "|" || t == ")" || t == ";" || t == "":
			return a, nil
		case t == "=>":
			l.next()
			tm, err := l.term()
			if err != nil {
				return nil, err
			}
			a.act = tm
			for l.peek() == "!" {
				l.next()
				if l.next() != "declare" {
					return nil, l.errf("expected declare")
				}
				d := &DeclAct{}
				if l.next() != "(" {
					return nil, l.errf("expected (")
				}
				d.What, err = l.term()
				if err != nil {
					return nil, err
				}
				for l.peek() == "," {
					l.next()
					if l.peek() == "completed" {
						l.next()
						continue
					}
					if l.peek() == "up" {
						l.next()
						d.Up++
						continue
					}
					d.Name, err = l.term()
					if err != nil {
						return nil, err
					}
				}
				if l.next() != ")" {
					l.i--
					return nil, l.errf("expected )")
				}
				a.decl = append(a.decl, d)
			}
			return a, nil
		default:
			it, err := l.item()
			if err != nil {
				return nil, err
			}
			a.items = append(a.items, it)
		}
	}
}

func (l *specLexer) item() (*specItem, error) {
	it := &specItem{}
	if l.peek() == "$(" || l.peek() == "$)" {
		it.mark = l.next()[1:]
		return it, nil
	}
	if isName(l.peek()) && (l.peekN(1) == "=" || l.peekN(1) == "+=") {
		it.bind = l.next()
		it.add = l.next() == "+="
	}
	if l.peek() == "&" {
		l.next()
		it.peek = true
	}
	if l.peek() == "!" {
		l.next()
		it.whole = true
	}
	t := l.peek()
	switch {
	case t == "(":
		l.next()
		g, err := l.alts()
		if err != nil {
			return nil, err
		}
		if l.next() != ")" {
			l.i--
			return nil, l.errf("expected )")
		}
		it.group = g
	case t == "[":
		l.next()
		se := &setExpr{}
		neg := false
		for l.peek() != "]" {
			x := l.next()
			if x == "-" {
				neg = true
				continue
			}
			if x == "," {
				continue
			}
			if l.peek() == ":" {
				l.next()
				x += ":" + l.next()
			}
			if neg {
				se.minus = append(se.minus, x)
			} else {
				se.plus = append(se.plus, x)
			}
		}
		l.next()
		it.set = se
	case strings.HasPrefix(t, "'"):
		l.next()
		it.set = &setExpr{plus: []string{t}}
	case isName(t):
		l.next()
		if strings.ToUpper(t) == t && len(t) > 1 { // token class
			if l.peek() == ":" {
				l.next()
				t += ":" + l.next()
			}
			it.set = &setExpr{plus: []string{t}}
		} else {
			it.rule = t
		}
	default:
		return nil, l.errf("unexpected item")
	}
	switch l.peek() {
	case "?", "*", "+":
		it.rep = l.next()[0]
	}
	return it, nil
}

func (l *specLexer) term() (*Term, error) {
	t := l.next()
	switch {
	case strings.HasPrefix(t, "\""):
		return &Term{Op: "str", Name: strings.Trim(t, "\"")}, nil
	case t == "_":
		return &Term{Op: "any"}, nil
	case t == "self":
		return &Term{Op: "var", Name: "$"}, nil
	case t == "true" || t == "false" || t == "nil":
		return &Term{Op: t}, nil
	case !isName(t):
		l.i--
		return nil, l.errf("bad term")
	}
	switch l.peek() {
	case "{":
		l.next()
		tm := &Term{Op: "node", Name: t}
		for l.peek() != "}" {
			if l.peek() == ".." {
				l.next()
				tm.Open = true
				continue
			}
			f := l.next()
			if l.next() != ":" {
				l.i--
				return nil, l.errf("expected : in node %s", t)
			}
			a, err := l.term()
			if err != nil {
				return nil, err
			}
			tm.Fld = append(tm.Fld, f)
			tm.Args = append(tm.Args, a)
			if l.peek() == "," {
				l.next()
			}
		}
		l.next()
		return tm, nil
	case "(":
		l.next()
		tm := &Term{Op: t}
		for l.peek() != ")" {
			a, err := l.term()
			if err != nil {
				return nil, err
			}
			tm.Args = append(tm.Args, a)
			if l.peek() == "," {
				l.next()
			}
		}
		l.next()
		return tm, nil
	}
	return &Term{Op: "var", Name: t}, nil
}

// ---------- compilation ----------

func (sp *Spec) resolveSet(se *setExpr) (CSet, error) {
	u := sp.uni
	one := func(x string) (CSet, error) {
		if strings.HasPrefix(x, "'") {
			t := strings.Trim(x, "'")
			s := u.word[t].or(u.ident[t])
			if s.empty() {
				return s, fmt.Errorf("unknown token %s", x)
			}
			return s, nil
		}
		kind := ""
		if i := strings.Index(x, ":"); i > 0 {
			x, kind = x[:i], x[i+1:]
		}
		var s CSet
		switch x {
		case "IDENT":
			s = u.byKind["ident"]
			if kind != "" {
				if u.decl[kind].empty() {
					return s, fmt.Errorf("unknown declaration kind %s", kind)
				}
				s = u.decl[kind]
			}
		case "INT":
			s = u.byKind["int"]
		case "REAL":
			s = u.byKind["real"]
		case "STR":
			s = u.byKind["str"]
		case "WORD":
			s = u.byKind["word"]
		case "SYM":
			s = u.byKind["sym"]
		case "ANY":
			s = u.all.minus(u.eofSet)
		default:
			return s, fmt.Errorf("unknown token class %s", x)
		}
		return s, nil
	}
	var s CSet
	for _, x := range se.plus {
		y, err := one(x)
		if err != nil {
			return s, err
		}
		s = s.or(y)
	}
	for _, x := range se.minus {
		y, err := one(x)
		if err != nil {
			return s, err
		}
		s = s.minus(y)
	}
	return s, nil
}

func (sp *Spec) compile(u *Universe) error {
	sp.uni = u
	for _, r := range sp.Order {
		n := &nfa{}
		newState := func() int { n.edges = append(n.edges, nil); return len(n.edges) - 1 }
		add := func(from int, e edge) { n.edges[from] = append(n.edges[from], e) }
		var alts func(as []*specAlt, from, to int, bind string, addl bool) error
		var item func(it *specItem, from, to int) error
		alts = func(as []*specAlt, from, to int, bind string, addl bool) error {
			for _, a := range as {
				cur := newState()
				add(from, edge{to: cur, kind: 'e'})
				for _, it := range a.items {
					nx := newState()
					if err := item(it, cur, nx); err != nil {
						return err
					}
					cur = nx
				}
				if a.act != nil {
					add(cur, edge{to: to, kind: 'a', act: a, bind: bind, add: addl})
				} else {
					add(cur, edge{to: to, kind: 'e'})
				}
			}
			return nil
		}
		item = func(it *specItem, from, to int) error {
			if it.mark != "" {
				add(from, edge{to: to, kind: it.mark[0]})
				return nil
			}
			a, b := from, to
			switch it.rep {
			case '?':
				add(from, edge{to: to, kind: 'e'})
			case '*', '+':
				a, b = newState(), newState()
				add(from, edge{to: a, kind: 'e'})
				add(b, edge{to: a, kind: 'e'})
				if it.rep == '*' {
					add(a, edge{to: to, kind: 'e'})
				}
				add(b, edge{to: to, kind: 'e'})
			}
			switch {
			case it.group != nil:
				return alts(it.group, a, b, it.bind, it.add)
			case it.rule != "":
				q := sp.Rules[it.rule]
				if q == nil {
					return fmt.Errorf("rule %s: unknown rule %s", r.Name, it.rule)
				}
				add(a, edge{to: b, kind: 'n', rule: q, bind: it.bind, add: it.add, whole: it.whole})
			default:
				s, err := sp.resolveSet(it.set)
				if err != nil {
					return fmt.Errorf("rule %s: %v", r.Name, err)
				}
				if it.peek {
					add(a, edge{to: b, kind: 'p', set: s})
					return nil
				}
				add(a, edge{to: b, kind: 't', set: s, bind: it.bind, add: it.add})
			}
			return nil
		}
		n.start = newState()
		n.accept = newState()
		if err := alts(r.alts, n.start, n.accept, "$", false); err != nil {
			return err
		}
		n.liveness()
		r.nfa = n
	}
	// nullable, FIRST, left corners
	for changed := true; changed; {
		changed = false
		for _, r := range sp.Order {
			if r.left == nil {
				r.left = map[*Rule]bool{}
			}
			seen := map[stMask]bool{}
			var walk func(s int, mask CSet)
			walk = func(s int, mask CSet) {
				if seen[stMask{s, mask}] {
					return
				}
				seen[stMask{s, mask}] = true
				if s == r.nfa.accept && !r.null {
					r.null = true
					changed = true
				}
				for _, e := range r.nfa.edges[s] {
					switch e.kind {
					case 't':
						if n := r.first.or(e.set.and(mask)); n != r.first {
							r.first = n
							changed = true
						}
					case 'n':
						if n := r.first.or(e.rule.first.and(mask)); n != r.first {
							r.first = n
							changed = true
						}
						if !r.left[e.rule] {
							r.left[e.rule] = true
							changed = true
						}
						for q := range e.rule.left {
							if !r.left[q] {
								r.left[q] = true
								changed = true
							}
						}
						if e.rule.null && !e.whole {
							walk(e.to, mask)
						}
					case 'p':
						walk(e.to, mask.and(e.set))
					default:
						walk(e.to, mask)
					}
				}
			}
			walk(r.nfa.start, sp.uni.all)
		}
	}
	for _, r := range sp.Order {
		if r.left[r] {
			return fmt.Errorf("rule %s is left recursive", r.Name)
		}
	}
	// FOLLOW: FIRST of every state, then propagate
	for changed := true; changed; {
		changed = false
		for _, r := range sp.Order {
			for s := range r.nfa.edges {
				for _, e := range r.nfa.edges[s] {
					if e.kind != 'n' {
						continue
					}
					f, null := sp.stateFirst(r, e.to)
					if null {
						f = f.or(r.follow)
					}
					if n := e.rule.follow.or(f); n != e.rule.follow {
						e.rule.follow = n
						changed = true
					}
				}
			}
			if len(r.Attr["root"]) > 0 {
				if n := r.follow.or(sp.uni.all); n != r.follow {
					r.follow = n
					changed = true
				}
			}
		}
	}
	for _, r := range sp.Order {
		if u := r.Attr["unfollow"]; u != "" {
			s, err := sp.resolveSet(&setExpr{plus: strings.Fields(u)})
			if err != nil {
				return err
			}
			r.follow = r.follow.minus(s)
		}
	}
	return nil
}

type stMask struct {
	s    int
	mask CSet
}

// stateFirst: tokens that can come next in state s of r, and whether r can be complete there.
func (sp *Spec) stateFirst(r *Rule, s int) (CSet, bool) {
	var f CSet
	null := false
	seen := map[stMask]bool{}
	var walk func(s int, mask CSet)
	walk = func(s int, mask CSet) {
		if seen[stMask{s, mask}] {
			return
		}
		seen[stMask{s, mask}] = true
		if s == r.nfa.accept {
			null = true
		}
		for _, e := range r.nfa.edges[s] {
			switch e.kind {
			case 't':
				f = f.or(e.set.and(mask))
			case 'n':
				f = f.or(e.rule.first.and(mask))
				if e.rule.null && !e.whole {
					walk(e.to, mask)
				}
			case 'p':
				walk(e.to, mask.and(e.set))
			default:
				walk(e.to, mask)
			}
		}
	}
	walk(s, sp.uni.all)
	return f, null
}
