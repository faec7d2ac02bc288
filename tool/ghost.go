package main

import (
	"fmt"
	"sort"
	"strings"
)

// SV is a specification value.
type SV interface{}

type (
	SVNil  struct{}
	SVTok  struct{ S int }
	SVList struct{ E []SV }
	// SVTerm is an evaluated action term.
	SVTerm struct {
		Op, Name string
		Fld      []string
		Args     []SV
		Open     bool
	}
	SVBad struct{}
)

type CFrame struct {
	rule  *Rule
	state int
	env   map[string]SV
	edge  *edge // edge of the parent waiting for this frame's result
}

type SDecl struct {
	What  SV
	Name  SV
	Depth int
}

// Cfg is one way the specification can have read the input so far.
type Cfg struct {
	stack []CFrame
	decls []SDecl
	depth int
	look  *CSet // restriction on the next token
}

// Ghost is the set of all ways.
type Ghost struct {
	cfgs []*Cfg
	dead string // non-empty: the input read so far is outside the specification (or a part failed)
	at   string
}

func (c *Cfg) clone() *Cfg {
	n := &Cfg{stack: append([]CFrame{}, c.stack...), decls: append([]SDecl{}, c.decls...), depth: c.depth, look: c.look}
	return n
}

func (c *Cfg) setTop(f CFrame) { c.stack[len(c.stack)-1] = f }

func bindEnv(env map[string]SV, name string, add bool, v SV) map[string]SV {
	if name == "" {
		return env
	}
	n := make(map[string]SV, len(env)+1)
	for k, x := range env {
		n[k] = x
	}
	if add {
		if l, ok := n[name].(*SVList); ok {
			n[name] = &SVList{E: append(append([]SV{}, l.E...), v)}
		} else if _, bad := n[name].(SVBad); bad {
		} else {
			n[name] = &SVList{E: []SV{v}}
		}
	} else {
		n[name] = v
	}
	return n
}

func evalTerm(t *Term, env map[string]SV) SV {
	switch t.Op {
	case "var":
		if v, ok := env[t.Name]; ok {
			return v
		}
		return SVNil{}
	case "nil":
		return SVNil{}
	case "alt": // first bound argument
		for _, a := range t.Args {
			v := evalTerm(a, env)
			if _, isNil := v.(SVNil); !isNil {
				return v
			}
		}
		return SVNil{}
	case "has":
		for _, a := range t.Args {
			if _, isNil := evalTerm(a, env).(SVNil); !isNil {
				return &SVTerm{Op: "true"}
			}
		}
		return &SVTerm{Op: "false"}
	case "if": // if(x, a): a when x is bound, else nil
		if _, isNil := evalTerm(t.Args[0], env).(SVNil); isNil {
			if len(t.Args) > 2 {
				return evalTerm(t.Args[2], env)
			}
			return SVNil{}
		}
		return evalTerm(t.Args[1], env)
	case "list":
		l := &SVList{}
		for _, a := range t.Args {
			v := evalTerm(a, env)
			if _, isNil := v.(SVNil); isNil {
				continue
			}
			l.E = append(l.E, v)
		}
		return l
	case "cat":
		l := &SVList{}
		for _, a := range t.Args {
			switch v := evalTerm(a, env).(type) {
			case SVNil:
			case *SVList:
				l.E = append(l.E, v.E...)
			default:
				l.E = append(l.E, v)
			}
		}
		return l
	}
	if t.Op == "const" {
		return &SVTerm{Op: "const", Name: t.Args[0].Name}
	}
	if t.Op == "cast" {
		return &SVTerm{Op: "cast", Name: t.Args[0].Name, Args: []SV{evalTerm(t.Args[1], env)}}
	}
	r := &SVTerm{Op: t.Op, Name: t.Name, Fld: t.Fld, Open: t.Open}
	for _, a := range t.Args {
		r.Args = append(r.Args, evalTerm(a, env))
	}
	// token functions of a missing token are missing
	switch t.Op {
	case "ident", "ref", "raw", "val", "upper", "decl", "member", "embedded", "name", "cmember", "num", "absident", "lower":
		if len(r.Args) > 0 {
			if _, isNil := r.Args[0].(SVNil); isNil {
				return SVNil{}
			}
		}
	}
	return r
}

// succ enumerates the kernel moves of a configuration. want selects which nonterminals are worth expanding.
type move struct {
	set  CSet
	rule *Rule
	cfg  *Cfg
}

type mover struct {
	sp    *Spec
	tok   CSet  // expand for tokens in this set
	nt    *Rule // or for this nonterminal
	lim   *CSet // the next token is one of these
	moves []move
	done  []*Cfg // complete configurations (single frame at accept, "$" bound)
	seen  map[string]bool
	n     int
}

func (m *mover) key(c *Cfg) string {
	var b strings.Builder
	for _, f := range c.stack {
		fmt.Fprintf(&b, "%s:%d/", f.rule.Name, f.state)
	}
	fmt.Fprintf(&b, "#%d#%d", len(c.decls), c.depth)
	if c.look != nil {
		fmt.Fprintf(&b, "#%v", *c.look)
	}
	return b.String()
}

func (m *mover) walk(c *Cfg) {
	m.n++
	if m.n > 4000 {
		return
	}
	f := c.stack[len(c.stack)-1]
	k := m.key(c)
	if m.seen[k] {
		return
	}
	m.seen[k] = true
	if f.state == f.rule.nfa.accept {
		if len(c.stack) == 1 {
			m.done = append(m.done, c)
		} else {
			// pop
			v, ok := f.env["$"]
			if !ok {
				v = SVNil{}
				if pv, ok := f.env["_pass"]; ok {
					v = pv
				}
			}
			n := c.clone()
			n.stack = n.stack[:len(n.stack)-1]
			p := n.stack[len(n.stack)-1]
			p.env = bindPass(p, f.edge, v)
			p.state = f.edge.to
			n.setTop(p)
			m.walk(n)
		}
		// accept states have no outgoing edges
		return
	}
	for i := range f.rule.nfa.edges[f.state] {
		e := &f.rule.nfa.edges[f.state][i]
		switch e.kind {
		case 'e':
			n := c.clone()
			f2 := f
			f2.state = e.to
			n.setTop(f2)
			m.walk(n)
		case '(', ')':
			n := c.clone()
			f2 := f
			f2.state = e.to
			n.setTop(f2)
			if e.kind == '(' {
				n.depth++
			} else {
				n.depth--
			}
			m.walk(n)
		case 'a':
			n := c.clone()
			f2 := f
			f2.state = e.to
			v := evalTerm(e.act.act, f.env)
			env2 := f.env
			for _, d := range e.act.decl {
				ev := bindEnv(env2, "$", false, v)
				w := evalTerm(d.What, ev)
				var nm SV
				if d.Name != nil {
					nm = evalTerm(d.Name, ev)
				}
				if l, ok := w.(*SVList); ok && d.Name == nil && false {
					for _, x := range l.E {
						n.decls = append(n.decls, SDecl{What: x, Depth: n.depth - d.Up})
					}
				} else if _, isNil := w.(SVNil); !isNil {
					n.decls = append(n.decls, SDecl{What: w, Name: nm, Depth: n.depth - d.Up})
				}
			}
			f2.env = bindEnv(f.env, e.bind, e.add, v)
			n.setTop(f2)
			m.walk(n)
		case 't':
			n := c.clone()
			f2 := f
			f2.state = e.to
			n.setTop(f2)
			set := e.set
			if c.look != nil {
				set = set.and(*c.look)
				n.look = nil
			}
			m.moves = append(m.moves, move{set: set, cfg: n, rule: nil})
			// binding is applied by the caller through bindMove
			m.moves[len(m.moves)-1].cfg.stack[len(n.stack)-1].edge2(e)
		case 'p':
			n := c.clone()
			f2 := f
			f2.state = e.to
			n.setTop(f2)
			l := e.set
			if c.look != nil {
				l = l.and(*c.look)
			}
			n.look = &l
			if m.lim != nil && l.and(*m.lim).empty() {
				continue
			}
			m.walk(n)
		case 'n':
			if m.nt == e.rule {
				n := c.clone()
				n.look = nil
				f2 := f
				f2.state = e.to
				n.setTop(f2)
				n.stack[len(n.stack)-1].edge2(e)
				m.moves = append(m.moves, move{rule: e.rule, cfg: n})
				continue
			}
			if e.whole && m.sp.cuttable(e.rule) {
				continue
			}
			want := e.rule.null
			if m.nt != nil {
				want = want || e.rule.left[m.nt]
			} else {
				want = want || !e.rule.first.and(m.tok).empty()
			}
			if want && len(c.stack) < 40 {
				n := c.clone()
				n.stack = append(n.stack, CFrame{rule: e.rule, state: e.rule.nfa.start, env: nil, edge: e})
				m.walk(n)
			}
		}
	}
}

// edge2 remembers in the environment which edge was taken by the last kernel move.
func (f *CFrame) edge2(e *edge) {
	n := make(map[string]SV, len(f.env)+1)
	for k, x := range f.env {
		n[k] = x
	}
	n["\x00edge"] = e
	f.env = n
}

// finishMove binds the value of the symbol just read.
func finishMove(c *Cfg, v SV) *Cfg {
	n := c.clone()
	f := n.stack[len(n.stack)-1]
	e := f.env["\x00edge"].(*edge)
	env := make(map[string]SV, len(f.env))
	for k, x := range f.env {
		if k != "\x00edge" {
			env[k] = x
		}
	}
	f.env = env
	f.env = bindPass(f, e, v)
	n.setTop(f)
	for i := range n.stack {
		f := &n.stack[i]
		live := f.rule.nfa.live[f.state]
		if i < len(n.stack)-1 {
			live = f.rule.nfa.live[n.stack[i+1].edge.to]
		}
		dead := false
		for k := range f.env {
			if !live[k] {
				dead = true
			}
		}
		if dead {
			m := make(map[string]SV, len(f.env))
			for k, x := range f.env {
				if live[k] {
					m[k] = x
				}
			}
			f.env = m
		}
	}
	return n
}

// dedupe removes configurations that are equal.
func dedupe(cs []*Cfg) []*Cfg {
	if len(cs) < 2 {
		return cs
	}
	seen := map[string]bool{}
	var out []*Cfg
	for _, c := range cs {
		k := cfgKey(c)
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}

func cfgKey(c *Cfg) string {
	var b strings.Builder
	for _, f := range c.stack {
		fmt.Fprintf(&b, "%s:%d{", f.rule.Name, f.state)
		if f.edge != nil {
			fmt.Fprintf(&b, ">%d:%s", f.edge.to, f.edge.bind)
		}
		for _, k := range sortedEnv(f.env) {
			b.WriteString(k + "=")
			svKey(&b, f.env[k])
			b.WriteByte(',')
		}
		b.WriteString("}/")
	}
	fmt.Fprintf(&b, "d%d", c.depth)
	for _, d := range c.decls {
		b.WriteByte('!')
		svKey(&b, d.What)
		svKey(&b, d.Name)
		fmt.Fprintf(&b, "%d", d.Depth)
	}
	if c.look != nil {
		fmt.Fprintf(&b, "#%v", *c.look)
	}
	return b.String()
}

func svKey(b *strings.Builder, v SV) {
	switch x := v.(type) {
	case nil:
		b.WriteByte('_')
	case *SVList:
		b.WriteByte('[')
		for _, y := range x.E {
			svKey(b, y)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case *SVTerm:
		b.WriteString(x.Op + x.Name + "(")
		for i, y := range x.Args {
			if i < len(x.Fld) {
				b.WriteString(x.Fld[i] + ":")
			}
			svKey(b, y)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case VOpq:
		fmt.Fprintf(b, "o%s#%d%s", x.K, x.ID, x.Path)
	default:
		fmt.Fprintf(b, "%T%v", v, v)
	}
}

// bindPass binds v; an unnamed nonterminal becomes the result of a rule without action.
func bindPass(f CFrame, e *edge, v SV) map[string]SV {
	if e.bind == "" {
		if e.kind == 'n' {
			return bindEnv(f.env, "_pass", false, v)
		}
		return f.env
	}
	return bindEnv(f.env, e.bind, e.add, v)
}

func (g *Ghost) alive() bool { return g != nil && g.dead == "" }

func newMover(sp *Spec) *mover { return &mover{sp: sp, seen: map[string]bool{}} }

// start returns the initial ghost for a rule.
func (sp *Spec) start(r *Rule) *Ghost {
	return &Ghost{cfgs: []*Cfg{{stack: []CFrame{{rule: r, state: r.nfa.start}}}}}
}

// acceptable returns the tokens some configuration can read next, within c.
func (sp *Spec) acceptable(g *Ghost, c CSet) CSet {
	var s CSet
	if !g.alive() {
		return s
	}
	for _, cf := range g.cfgs {
		m := newMover(sp)
		m.tok = c
		m.walk(cf)
		for _, mv := range m.moves {
			s = s.or(mv.set)
		}
	}
	return s.and(c)
}

// complete returns the configurations in which the rule is finished.
// With all set the next token has to satisfy every pending restriction, otherwise it only may.
func (sp *Spec) complete(g *Ghost, la CSet, all bool) []*Cfg {
	var out []*Cfg
	if !g.alive() {
		return nil
	}
	for _, cf := range g.cfgs {
		m := newMover(sp)
		m.walk(cf)
		for _, d := range m.done {
			if d.look != nil && (all && !la.subset(*d.look) || la.and(*d.look).empty()) {
				continue
			}
			out = append(out, d)
		}
	}
	return out
}

func cfgValue(c *Cfg) SV {
	f := c.stack[0]
	if v, ok := f.env["$"]; ok {
		return v
	}
	if v, ok := f.env["_pass"]; ok {
		return v
	}
	return SVNil{}
}

type ghostStep struct {
	set CSet
	g   *Ghost
}

// stepToken splits class set c by what the specification does with it.
func (sp *Spec) stepToken(g *Ghost, slot int, c CSet) []ghostStep {
	if !g.alive() {
		return []ghostStep{{c, g}}
	}
	var moves []move
	for _, cf := range g.cfgs {
		m := newMover(sp)
		m.tok = c
		m.walk(cf)
		for _, mv := range m.moves {
			if !mv.set.and(c).empty() {
				moves = append(moves, mv)
			}
		}
	}
	// partition by signature
	type part struct {
		set CSet
		ids string
	}
	parts := []part{{c, ""}}
	for i, mv := range moves {
		var np []part
		for _, p := range parts {
			in, out := p.set.and(mv.set), p.set.minus(mv.set)
			if !in.empty() {
				np = append(np, part{in, p.ids + fmt.Sprintf("%d,", i)})
			}
			if !out.empty() {
				np = append(np, part{out, p.ids})
			}
		}
		parts = np
	}
	by := map[string]CSet{}
	var order []string
	for _, p := range parts {
		if _, ok := by[p.ids]; !ok {
			order = append(order, p.ids)
		}
		by[p.ids] = by[p.ids].or(p.set)
	}
	var out []ghostStep
	for _, ids := range order {
		if ids == "" {
			out = append(out, ghostStep{by[ids], &Ghost{dead: "bad", at: sp.uni.setText(by[ids])}})
			continue
		}
		ng := &Ghost{}
		for _, x := range strings.Split(strings.TrimSuffix(ids, ","), ",") {
			var i int
			fmt.Sscanf(x, "%d", &i)
			ng.cfgs = append(ng.cfgs, finishMove(moves[i].cfg, SVTok{slot}))
		}
		ng.cfgs = dedupe(ng.cfgs)
		out = append(out, ghostStep{by[ids], ng})
	}
	return out
}

// stepNT advances over a nonterminal with result v.
func (sp *Spec) stepNT(g *Ghost, r *Rule, v SV, la CSet) *Ghost {
	if !g.alive() {
		return g
	}
	ng := &Ghost{}
	for _, cf := range g.cfgs {
		m := newMover(sp)
		m.nt = r
		m.lim = &la
		m.walk(cf)
		for _, mv := range m.moves {
			if mv.rule == r {
				ng.cfgs = append(ng.cfgs, finishMove(mv.cfg, v))
			}
		}
	}
	ng.cfgs = dedupe(ng.cfgs)
	if len(ng.cfgs) == 0 {
		return &Ghost{dead: "bad", at: "<" + r.Name + ">"}
	}
	return ng
}

// ---------- canonical form ----------

func (c *canon) ghost(g *Ghost) {
	if g == nil {
		c.s("G0")
		return
	}
	if g.dead != "" {
		c.s("G!" + g.dead)
		return
	}
	c.s("G[")
	for _, cf := range g.cfgs {
		for _, f := range cf.stack {
			c.s(f.rule.Name)
			c.s(":")
			c.i(f.state)
			c.s("{")
			ks := make([]string, 0, len(f.env))
			for k := range f.env {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				c.s(k)
				c.s("=")
				c.sv(f.env[k])
				c.s(",")
			}
			c.s("}/")
		}
		c.s("d")
		c.i(cf.depth)
		for _, d := range cf.decls {
			c.s("!")
			c.sv(d.What)
			c.sv(d.Name)
			c.i(d.Depth)
		}
		c.s(";")
	}
	c.s("]")
}

func (c *canon) sv(v SV) {
	switch x := v.(type) {
	case nil:
		c.s("_")
	case SVNil:
		c.s("n")
	case SVTok:
		c.s("k")
		c.slot(x.S)
	case *SVList:
		c.s("[")
		for _, y := range x.E {
			c.sv(y)
			c.s(",")
		}
		c.s("]")
	case *SVTerm:
		c.s(x.Op)
		c.s(x.Name)
		c.s("(")
		for _, y := range x.Args {
			c.sv(y)
			c.s(",")
		}
		c.s(")")
	case SVBad:
		c.s("!")
	case VOpq:
		c.val(x)
	default:
		panic(fmt.Sprintf("canon sv %T", v))
	}
}
