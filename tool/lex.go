package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The lexer domain. The source text is a chain of input slots, each holding one character class. Positions are slots;
// lines and columns are the true line/column of a slot plus an offset. Every slot carries a label: the state of the
// lexical specification after the characters before it. The label is a function of the text alone.

type (
	VLexText  struct{}
	VLexLen   struct{}
	VLexCell  struct{ S int }
	VIdx      struct{ S int }
	VLexRunes struct{ A, B int }
	VLine     struct{ S, D int }
	VCol      struct{ S, D int }
	VOff      struct{} // a line or column known to be wrong
)

func (VLexText) canon(c *canon) { c.s("TXT") }
func (VLexLen) canon(c *canon)  { c.s("TLEN") }
func (VOff) canon(c *canon)     { c.s("OFF") }
func (v VLexCell) canon(c *canon) {
	c.s("cell")
	c.slot(v.S)
}
func (v VIdx) canon(c *canon) {
	c.s("ix")
	c.slot(v.S)
	c.curs = append(c.curs, v.S)
}
func (v VLexRunes) canon(c *canon) {
	c.s("tr")
	c.slot(v.A)
	c.slot(v.B)
}
func (v VLine) canon(c *canon) {
	c.s("ln")
	c.slot(v.S)
	c.i(v.D)
}
func (v VCol) canon(c *canon) {
	c.s("co")
	c.slot(v.S)
	c.i(v.D)
}

// Label is the state of the lexical specification at a slot: what the characters before the slot (since the entry of
// the tokenizer call) are grouped into.
type Label struct {
	Q      string // state of the item the previous character belongs to; "entry" at the entry
	Start  int    // first slot of that item
	PStart int    // first slot of the item before it (0: none)
	PKind  string
	N      int // items before it that the tokenizer has to return (0, 1, 2 = more)
	First  bool
	AfterL bool // the previous character is a line feed
	W      int  // slot standing for the text of the item (0: not looked at)
	Ord    int  // characters since the entry; not part of the state
}

func (l *Label) canon(c *canon) {
	c.s("<" + l.Q + "," + l.PKind + ",")
	c.i(l.N)
	if l.First {
		c.s("f")
	}
	if l.AfterL {
		c.s("n")
	}
	for _, s := range []int{l.Start, l.PStart, l.W} {
		if s != 0 {
			c.slot(s)
		} else {
			c.s("-")
		}
	}
	c.s(">")
}

// Lex is the tokenizer check.
type Lex struct {
	ints   map[string]map[int64]bool // values of integer fields seen between calls
	w      *World
	e      *Eng
	skip   map[string]bool
	flags  string
	fs     map[string]*PFinding
	und    map[string]bool
	entryQ []*State
	runes  CSet
	lf     CSet
	eof    CSet
	letter CSet
	digit  CSet
	space  CSet
	single CSet
	pairs  map[rune]CSet
	types  map[string]int64
	tokT   types.Type
	posT   types.Type
	root   int // heap cell holding the tokenizer under analysis
	tok    VPtr
	clones int
	texts  int
	outs   int
	calls  int
	states int
}

var lexKinds = map[string]string{"br": "Comment", "lc": "Comment", "pc": "Comment", "pcs": "Comment", "str": "CharacterString", "strb": "CharacterString",
	"int": "NumeralInt", "real": "NumeralReal", "word": "Word", "space": "Space"}

func kindOf(q string) string {
	if strings.HasPrefix(q, "done:") {
		return q[5:]
	}
	return lexKinds[q]
}

func lexUniverse(w *World) (*Universe, error) {
	u, err := tokenUniverse(w, nil)
	if err != nil {
		return nil, err
	}
	n := newUniverse()
	n.types = u.types
	n.add(Atom{Kind: "eof", R: -1})
	for r := rune(0); r < 128; r++ {
		n.add(Atom{Kind: "rune", R: r})
	}
	for _, c := range runeClasses {
		n.add(Atom{Kind: "rune", R: -1, Cl: c.name})
	}
	for _, a := range u.A {
		if a.Kind == "word" {
			n.add(a)
		}
		if a.Kind == "ident" && (a.Decl == "other") {
			n.add(a)
		}
	}
	return n, nil
}

func newLex(w *World) (*Lex, error) {
	u, err := lexUniverse(w)
	if err != nil {
		return nil, err
	}
	x := &Lex{w: w, fs: map[string]*PFinding{}, und: map[string]bool{}, types: u.types}
	e := NewEng(w)
	e.uni = u
	x.e = e
	x.tokT = w.lookupType("token", "Token")
	x.posT = w.lookupType("runes", "Position")
	if x.tokT == nil || x.posT == nil {
		return nil, fmt.Errorf("token.Token or runes.Position not found")
	}
	for _, k := range []string{"Space", "Comment", "Illegal"} {
		if _, ok := u.types[k]; !ok {
			return nil, fmt.Errorf("token type constant %s not found", k)
		}
	}
	x.eof = u.eofSet
	x.runes = u.byKind["rune"].or(x.eof)
	x.lf = u.runeSet('\n')
	set := func(f func(r rune) bool) CSet { return u.runeSetBy(f).minus(x.eof) }
	x.letter = set(func(r rune) bool { return r == '_' || unicode.IsLetter(r) })
	x.digit = set(func(r rune) bool { return r >= '0' && r <= '9' })
	x.space = set(unicode.IsSpace)
	x.single = set(func(r rune) bool { return strings.ContainsRune("#$&'()*+,-./:;<=>@[]^{}", r) })
	x.pairs = map[rune]CSet{}
	for _, s := range specSymbols {
		rs := []rune(s)
		if len(rs) == 2 {
			x.pairs[rs[0]] = x.pairs[rs[0]].or(u.runeSet(rs[1]))
		}
	}
	e.symBinop = x.binop
	e.progOf = x.progress
	e.collapseHook = x.collapse
	e.runInit()
	e.funcs = map[string]bool{}
	e.budget = 8_000_000
	x.e.onLexLen = func(st *State, v VLexRunes) Val {
		if d, ok := x.dist(st, v.A, v.B); ok {
			return VInt{int64(d)}
		}
		return VUnk{"big"}
	}
	return x, nil
}

// ---------- specification automaton ----------

// part splits st by the class of slot s; either result may be nil.
func (x *Lex) part(st *State, s int, set CSet) (yes, no *State) { return x.e.split(st, s, set) }

// step creates the slot after s and labels it; the text is split as far as the specification needs it.
func (x *Lex) step(st *State, s int) []*State {
	if _, ok := st.next[s]; ok {
		if st.lab[st.next[s]] != nil {
			return []*State{st}
		}
	} else {
		t := st.fresh()
		st.next[s] = t
		st.cls[t] = x.runes
	}
	t := st.next[s]
	var out []*State
	set := func(st *State, l Label) {
		o := st.lab[s]
		l.Ord = o.Ord + 1
		if st.cls[s].subset(x.eof) {
			l.Ord = o.Ord
		}
		l.AfterL = st.cls[s].subset(x.lf)
		if o.First && l.AfterL {
			st.addSem("the text begins with a line feed")
		}
		st.lab[t] = &l
		out = append(out, st)
	}
	eof, st2 := x.part(st, s, x.eof)
	if eof != nil {
		eof.cls[t] = x.eof
		l := *eof.lab[s]
		l.Q = "beyond"
		set(eof, l)
	}
	if st2 == nil {
		return out
	}
	l1, l2 := x.part(st2, s, x.lf)
	for _, st := range []*State{l1, l2} {
		if st == nil {
			continue
		}
		x.advance(st, s, t, set)
	}
	return out
}

// advance labels slot t after the (non-eof) character at s.
func (x *Lex) advance(st *State, s, t int, set func(*State, Label)) {
	l := *st.lab[s]
	u := x.e.uni
	// does the current item take the character?
	take := func(st *State, q string) {
		n := l
		n.Q = q
		n.First = false
		n.W = 0
		set(st, n)
	}
	start := func(st *State) {
		n := Label{Start: s, N: l.N}
		if l.Q != "entry" {
			n.PStart, n.PKind = l.Start, kindOf(l.Q)
			n.W = 0
			if l.W != 0 {
				n.W = l.W
			}
			if !x.skip[n.PKind] {
				n.N++
				if n.N == 2 {
					set(st, Label{Q: "over", N: 2})
					return
				}
			} else {
				n.PStart = 0
				n.PKind = "skipped"
			}
		}
		x.begin(st, s, t, n, set)
	}
	sp := func(st *State, set CSet, yes, no func(*State)) {
		if st == nil {
			return
		}
		y, n := x.part(st, s, set)
		if y != nil {
			yes(y)
		}
		if n != nil {
			no(n)
		}
	}
	switch l.Q {
	case "br":
		sp(st, u.runeSet('}'), func(st *State) { take(st, "done:Comment") }, func(st *State) { take(st, "br") })
	case "lc":
		sp(st, x.lf, start, func(st *State) { take(st, "lc") })
	case "pc1":
		take(st, "pc")
	case "pc":
		sp(st, u.runeSet('*'), func(st *State) { take(st, "pcs") }, func(st *State) { take(st, "pc") })
	case "pcs":
		sp(st, u.runeSet(')'), func(st *State) { take(st, "done:Comment") }, func(st *State) {
			sp(st, u.runeSet('*'), func(st *State) { take(st, "pcs") }, func(st *State) { take(st, "pc") })
		})
	case "str":
		sp(st, u.runeSet('\''), func(st *State) { take(st, "done:CharacterString") }, func(st *State) {
			sp(st, u.runeSet('\\'), func(st *State) { take(st, "strb") }, func(st *State) { take(st, "str") })
		})
	case "strb":
		sp(st, u.runeSet('\\'), func(st *State) { take(st, "strb") }, func(st *State) { take(st, "str") })
	case "int":
		sp(st, x.digit, func(st *State) { take(st, "int") }, func(st *State) {
			sp(st, u.runeSet('.'), func(st *State) {
				y, n := x.part(st, t, u.runeSet('.'))
				if y != nil {
					start(y)
				}
				if n != nil {
					take(n, "real")
				}
			}, start)
		})
	case "real":
		sp(st, x.digit, func(st *State) { take(st, "real") }, start)
	case "word":
		sp(st, x.letter.or(x.digit), func(st *State) { take(st, "word") }, start)
	case "space":
		sp(st, x.space, func(st *State) { take(st, "space") }, start)
	case "over":
		set(st, Label{Q: "over", N: 2})
	case "pair":
		take(st, "done:SpecialSymbol")
	default: // entry, done:..., beyond
		start(st)
	}
}

// begin labels t when an item begins at s.
func (x *Lex) begin(st *State, s, t int, l Label, set func(*State, Label)) {
	u := x.e.uni
	put := func(st *State, q string) {
		if st == nil {
			return
		}
		n := l
		n.Q = q
		set(st, n)
	}
	rest := st
	on := func(c CSet, f func(st *State)) {
		if rest == nil {
			return
		}
		y, n := x.part(rest, s, c)
		rest = n
		if y != nil {
			f(y)
		}
	}
	second := func(c CSet, yes string, no func(*State)) func(*State) {
		return func(st *State) {
			y, n := x.part(st, t, c)
			put(y, yes)
			if n != nil {
				no(n)
			}
		}
	}
	sym := func(st *State) { put(st, "done:SpecialSymbol") }
	on(u.runeSet('{'), func(st *State) { put(st, "br") })
	on(u.runeSet('/'), second(u.runeSet('/'), "lc", sym))
	on(u.runeSet('('), second(u.runeSet('*'), "pc1", second(x.pairs['('], "pair", sym)))
	on(u.runeSet('\''), func(st *State) { put(st, "str") })
	on(x.digit, func(st *State) { put(st, "int") })
	on(u.runeSet('-'), second(x.digit, "int", sym))
	var ks []int
	for r := range x.pairs {
		ks = append(ks, int(r))
	}
	sort.Ints(ks)
	for _, r := range ks {
		on(u.runeSet(rune(r)), second(x.pairs[rune(r)], "pair", sym))
	}
	on(x.single, sym)
	on(x.letter, func(st *State) { put(st, "word") })
	on(x.space, func(st *State) { put(st, "space") })
	put(rest, "done:Illegal")
}

// ---------- values ----------

func (x *Lex) hop(st *State, s, n int) []Res {
	cur := []Res{{st: st, v: VIdx{s}}}
	for ; n > 0; n-- {
		var out []Res
		for _, r := range cur {
			c := r.v.(VIdx).S
			for _, s2 := range x.step(r.st, c) {
				out = append(out, Res{st: s2, v: VIdx{s2.next[c]}})
			}
		}
		cur = out
	}
	return cur
}

func (x *Lex) dist(st *State, a, b int) (int, bool) {
	for k := 0; k < 8; k++ {
		if a == b {
			return k, true
		}
		n, ok := st.next[a]
		if !ok {
			break
		}
		a = n
	}
	return 0, false
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func cmpInt(op token.Token, a, b int) (bool, bool) {
	switch op {
	case token.LSS:
		return a < b, true
	case token.LEQ:
		return a <= b, true
	case token.GTR:
		return a > b, true
	case token.GEQ:
		return a >= b, true
	case token.EQL:
		return a == b, true
	case token.NEQ:
		return a != b, true
	}
	return false, false
}

func (x *Lex) binop(e *Eng, st *State, op token.Token, a, b Val, site ssa.Instruction) []Res {
	if n, ok := a.(VInt); ok {
		switch op {
		case token.ADD, token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
			a, b, op = b, n, flipOp(op)
		}
	}
	unk := func() []Res {
		st.flags |= fUnk
		return one(st, VUnk{"lex"})
	}
	// a quantity without bound (a length, a line, a column, a counter) can be on either side of a large number
	large := func() []Res {
		n, ok := b.(VInt)
		if _, cmp := cmpInt(op, 0, 0); !ok || !cmp || n.N < 16 {
			return nil
		}
		return []Res{{st: st, v: VBool{true}}, {st: st.clone(), v: VBool{false}}}
	}
	switch v := a.(type) {
	case VUnk:
		if v.Tag == "big" {
			if _, ok := b.(VInt); ok && (op == token.ADD || op == token.SUB) {
				return one(st, v)
			}
			return large()
		}
	case VIdx:
		switch w := b.(type) {
		case VInt:
			n := int(w.N)
			if op == token.SUB {
				n = -n
			}
			if op == token.ADD || op == token.SUB {
				if n >= 0 && n <= 4 {
					return x.hop(st, v.S, n)
				}
				s := v.S
				for ; n < 0; n++ {
					found := false
					for k, t := range st.next {
						if t == s {
							s, found = k, true
							break
						}
					}
					if !found {
						return unk()
					}
				}
				return one(st, VIdx{s})
			}
			// an index is never negative
			if w.N < 0 {
				if r, ok := cmpInt(op, 0, -1); ok && op != token.EQL {
					return one(st, VBool{r})
				}
				return one(st, VBool{op == token.NEQ})
			}
		case VLexLen:
			yes, no := e.split(st, v.S, x.eof) // yes: at or after the end
			beyond := func(s *State) bool { return s.lab[v.S] != nil && s.lab[v.S].Q == "beyond" }
			var out []Res
			if no != nil {
				r, ok := cmpInt(op, -1, 0)
				if !ok {
					return unk()
				}
				out = append(out, Res{st: no, v: VBool{r}})
			}
			if yes != nil {
				d := 0
				if beyond(yes) {
					d = 1
				}
				r, ok := cmpInt(op, d, 0)
				if !ok {
					return unk()
				}
				out = append(out, Res{st: yes, v: VBool{r}})
			}
			return out
		case VIdx:
			d, ok := x.dist(st, v.S, w.S)
			if !ok {
				d, ok = x.dist(st, w.S, v.S)
				d = -d
			}
			if ok {
				if op == token.SUB {
					return one(st, VInt{int64(-d)})
				}
				if r, ok := cmpInt(op, 0, d); ok {
					return one(st, VBool{r})
				}
			}
		}
		if _, ok := b.(VIdx); ok && op == token.SUB {
			return one(st, VUnk{"big"})
		}
		if r := large(); r != nil {
			return r
		}
		if op == token.ADD || op == token.SUB {
			return unk()
		}
	case VLexLen:
		switch w := b.(type) {
		case VIdx:
			return x.binop(e, st, flipOp(op), w, a, site)
		case VLexLen:
			if r, ok := cmpInt(op, 0, 0); ok {
				return one(st, VBool{r})
			}
			if op == token.SUB {
				return one(st, VInt{0})
			}
		}
		if w, ok := b.(VInt); ok && w.N == 0 && st.lexFirst != 0 {
			return x.binop(e, st, flipOp(op), VIdx{st.lexFirst}, a, site)
		}
		if op == token.ADD || op == token.SUB {
			return unk()
		}
	case VLine:
		if w, ok := b.(VInt); ok {
			switch op {
			case token.ADD:
				return one(st, VLine{v.S, v.D + int(w.N)})
			case token.SUB:
				return one(st, VLine{v.S, v.D - int(w.N)})
			}
			if r := large(); r != nil {
				return r
			}
		}
		if w, ok := b.(VLine); ok && w.S == v.S {
			if r, ok := cmpInt(op, v.D, w.D); ok {
				return one(st, VBool{r})
			}
		}
	case VCol:
		if w, ok := b.(VInt); ok {
			switch op {
			case token.ADD:
				return one(st, VCol{v.S, v.D + int(w.N)})
			case token.SUB:
				return one(st, VCol{v.S, v.D - int(w.N)})
			}
			if r := large(); r != nil {
				return r
			}
		}
		if w, ok := b.(VCol); ok && w.S == v.S {
			if r, ok := cmpInt(op, v.D, w.D); ok {
				return one(st, VBool{r})
			}
		}
	case VOff:
		if op == token.ADD || op == token.SUB {
			return one(st, v)
		}
	case VRune:
		switch w := b.(type) {
		case VInt:
			if _, ok := cmpInt(op, 0, 0); ok {
				set := e.uni.runeSetBy(func(r rune) bool { y, _ := cmpInt(op, int(r), int(w.N)); return y })
				yes, no := e.split(st, v.S, set)
				return boolRes(yes, no)
			}
		case VRune:
			if v.S == w.S {
				if r, ok := cmpInt(op, 0, 0); ok {
					return one(st, VBool{r})
				}
			}
		}
	}
	return nil
}

// lexString is the text of an item, when the bounds are those of an item just read; other texts are unknown.
func lexString(e *Eng, st *State, v VLexRunes) Val {
	l := st.lab[v.B]
	if l != nil && (l.N == 1 && l.PStart == v.A && l.PKind == "Word" || l.N == 2) {
		// more than an item: already wrong, any word will do
		s := st.fresh()
		st.cls[s] = e.uni.byKind["word"].or(e.uni.byKind["ident"])
		return VTokStr{s, 'r'}
	}
	if l == nil || l.Start != v.A || kindOf(l.Q) != "Word" {
		st.flags |= fUnk
		return VText{}
	}
	if l.W == 0 {
		n := *l
		n.W = st.fresh()
		st.cls[n.W] = e.uni.byKind["word"].or(e.uni.byKind["ident"])
		st.lab[v.B] = &n
		l = &n
	}
	return VTokStr{l.W, 'r'}
}

// ---------- cursor access ----------

// find returns the position object of the tokenizer object at p.
func (x *Lex) position(st *State, tk Val) (VPtr, bool) {
	p, ok := tk.(VPtr)
	if !ok {
		return VPtr{}, false
	}
	seen := map[VPtr]bool{}
	var find func(p VPtr, d int) (VPtr, bool)
	find = func(p VPtr, d int) (VPtr, bool) {
		if d > 4 || seen[p] {
			return VPtr{}, false
		}
		seen[p] = true
		v, ok := x.e.load(st, p)
		if !ok {
			return VPtr{}, false
		}
		b, ok := v.(*VStruct)
		if !ok {
			return VPtr{}, false
		}
		if types.Identical(b.T, x.posT) {
			return p, true
		}
		for i, f := range b.F {
			switch f := f.(type) {
			case VPtr:
				if r, ok := find(f, d+1); ok {
					return r, true
				}
			case *VStruct:
				if r, ok := find(VPtr{p.O, p.P + "." + itoa(i)}, d+1); ok {
					return r, true
				}
			}
		}
		return VPtr{}, false
	}
	return find(p, 0)
}

type posVals struct{ idx, line, col Val }

func (x *Lex) posOf(st *State, p Val) (posVals, bool) {
	var b *VStruct
	switch v := p.(type) {
	case VPtr:
		c, ok := x.e.load(st, v)
		if !ok {
			return posVals{}, false
		}
		b, _ = c.(*VStruct)
	case *VStruct:
		b = v
	}
	if b == nil || !types.Identical(b.T, x.posT) {
		return posVals{}, false
	}
	s := under(b.T).(*types.Struct)
	var r posVals
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Index":
			r.idx = b.F[i]
		case "Line":
			r.line = b.F[i]
		case "Col":
			r.col = b.F[i]
		}
	}
	return r, r.idx != nil && r.line != nil && r.col != nil
}

// normPos re-expresses line and column relative to the object's own index.
func (x *Lex) normPos(st *State, b *VStruct) *VStruct {
	s := under(b.T).(*types.Struct)
	ii, li, ci := -1, -1, -1
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Index":
			ii = i
		case "Line":
			li = i
		case "Col":
			ci = i
		}
	}
	if ii < 0 || li < 0 || ci < 0 {
		return b
	}
	ix, ok := b.F[ii].(VIdx)
	if !ok {
		return b
	}
	P := ix.S
	lab := st.lab[P]
	line, col := b.F[li], b.F[ci]
	if v, ok := line.(VInt); ok && lab != nil && lab.First {
		line = VLine{P, int(v.N) - 1}
	}
	if v, ok := col.(VInt); ok && lab != nil && (lab.First || lab.AfterL) {
		col = VCol{P, int(v.N) - 1}
	}
	// a fixed number that has been counted up away from the beginning is not the line or column of an arbitrary place
	if v, ok := line.(VInt); ok && v.N > 3 {
		line = VOff{}
	}
	if v, ok := col.(VInt); ok && v.N > 3 {
		col = VOff{}
	}
	if v, ok := line.(VLine); ok && v.S != P {
		if k, ok := x.dist(st, v.S, P); ok {
			s, d := v.S, v.D
			for ; k > 0; k-- {
				switch {
				case st.cls[s].subset(x.lf):
					d--
				case !st.cls[s].and(x.lf).empty():
					k = -1
				}
				s = st.next[s]
			}
			if k == 0 {
				line = VLine{P, d}
			}
		}
	}
	if v, ok := col.(VCol); ok && v.S != P {
		if k, ok := x.dist(st, v.S, P); ok {
			s, d := v.S, v.D
			for ; k > 0; k-- {
				if st.cls[s].subset(x.lf) {
					// across a line feed only a known column means something
					if l := st.lab[s]; l == nil || !(l.First || l.AfterL) {
						col, k = VOff{}, -1
						break
					}
					// col(s) is 1, and so is the column of the next character
				} else if !st.cls[s].and(x.lf).empty() {
					k = -1
					break
				} else if !st.cls[s].subset(x.eof) {
					d--
				}
				s = st.next[s]
			}
			if k == 0 {
				col = VCol{P, d}
			}
		}
	}
	if v, ok := line.(VLine); ok && (v.D > 3 || v.D < -3) {
		line = VOff{}
	}
	if v, ok := col.(VCol); ok && (v.D > 3 || v.D < -3) {
		col = VOff{}
	}
	if line == b.F[li] && col == b.F[ci] {
		return b
	}
	n := &VStruct{T: b.T, F: append([]Val{}, b.F...)}
	n.F[li], n.F[ci] = line, col
	return n
}

func (x *Lex) collapse(e *Eng, st *State, live []ssa.Value, extra ...Val) {
	if st.lab == nil {
		return
	}
	for o, v := range st.heap {
		if b, ok := v.(*VStruct); ok && types.Identical(b.T, x.posT) {
			st.heap[o] = x.normPos(st, b)
		}
	}
	x.trim(st)
}

// trim forgets the order of characters already read.
func (x *Lex) trim(st *State) {
	s, ok := x.cursor(st)
	if !ok {
		return
	}
	keep := map[int]int{}
	for !inMap(keep, s) {
		n, ok := st.next[s]
		if !ok {
			break
		}
		keep[s] = n
		s = n
	}
	st.next = keep
}

func inMap(m map[int]int, k int) bool { _, ok := m[k]; return ok }

func (x *Lex) cursor(st *State) (int, bool) {
	tk, ok := st.heap[x.root].(VPtr)
	if !ok {
		return 0, false
	}
	p, ok := x.position(st, tk)
	if !ok {
		return 0, false
	}
	v, ok := x.posOf(st, p)
	if !ok {
		return 0, false
	}
	i, ok := v.idx.(VIdx)
	return i.S, ok
}

func (x *Lex) progress(st *State) int {
	if st.lab == nil {
		return 0
	}
	s, ok := x.cursor(st)
	if !ok {
		return 0
	}
	if l := st.lab[s]; l != nil {
		return l.Ord
	}
	return 0
}

// ---------- driving ----------

func (x *Lex) finding(props, key, where, msg string, st *State) {
	if st != nil && st.flags&fUnk != 0 {
		x.und[where+": "+msg] = true
		return
	}
	if st != nil && len(st.sem) > 0 {
		if i := strings.Index(key, "|"); i >= 0 {
			key = key[:i]
		}
		key += " (" + strings.Join(st.sem, ", ") + ")"
		msg += " (" + strings.Join(st.sem, ", ") + ")"
	}
	k := props + "|" + key
	if x.fs[k] == nil {
		f := &PFinding{Kind: props, Key: key, Where: where, Msg: msg}
		x.fs[k] = f
	}
}

func (x *Lex) run() {
	w := x.w
	newTk := w.fn("token", "NewTokenizer")
	getNext := w.method("token", "Tokenizer", "GetNext")
	if newTk == nil || getNext == nil {
		x.und["NewTokenizer or GetNext not found"] = true
		return
	}
	flag := func(n string) int64 {
		if c, ok := w.Types[modPath+"/token"].Scope().Lookup(n).(*types.Const); ok {
			v, _ := constant.Int64Val(c.Val())
			return v
		}
		return 0
	}
	ls, lc := flag("LoadSpace"), flag("LoadComment")
	var entry *Label
	nested := false
	x.e.prims[getNext.String()] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		if len(st.frames) == 0 || !nested {
			nested = true
			return e.enter(st, fn, args, nil, site)
		}
		return x.again(st, args, site, entry)
	}
	for m := 0; m < 4; m++ {
		fl := int64(0)
		x.skip = map[string]bool{"Space": true, "Comment": true}
		x.flags = "no flags"
		if m&1 != 0 {
			fl |= ls
			x.skip["Space"] = false
			x.flags = "LoadSpace"
		}
		if m&2 != 0 {
			fl |= lc
			x.skip["Comment"] = false
			x.flags = strings.TrimPrefix(x.flags+"+LoadComment", "no flags+")
		}
		st := x.e.newState()
		st.lab = map[int]*Label{}
		txt := x.e.newObj(st, VLexText{})
		x.root = x.e.newObj(st, VNil{})
		x.e.roots = []Val{VPtr{O: x.root}}
		st.lexFirst = st.fresh()
		st.cls[st.lexFirst] = x.runes
		st.lab[st.lexFirst] = &Label{Q: "entry", First: true}
		seen := map[string][][]CSet{}
		x.entryQ = nil
		for _, r := range x.e.call(st, newTk, []Val{VPtr{O: txt}, VInt{fl}}, nil, nil) {
			if r.panic != "" {
				x.finding("C12", "NewTokenizer panics", "token.NewTokenizer", "NewTokenizer panics", r.st)
				continue
			}
			r.st.heap[x.root] = r.v
			if !x.first(r.st, r.v) {
				continue
			}
			x.entryQ = append(x.entryQ, r.st)
		}
		for len(x.entryQ) > 0 && x.e.steps <= x.e.budget {
			st := x.entryQ[len(x.entryQ)-1]
			x.entryQ = x.entryQ[:len(x.entryQ)-1]
			tk := st.heap[x.root]
			x.collapse(x.e, st, nil)
			k, cls, _ := x.e.key(st, nil, tk)
			dup := false
			for _, o := range seen[k] {
				sub := true
				for i := range cls {
					if !cls[i].subset(o[i]) {
						sub = false
					}
				}
				dup = dup || sub
			}
			if dup {
				continue
			}
			seen[k] = append(seen[k], cls)
			x.states++
			c, _ := x.cursor(st)
			nested = false
			x.calls++
			_ = c
			for _, r := range x.e.call(st, getNext, []Val{tk}, nil, nil) {
				x.judge(r, getNext)
			}
		}
	}
	for _, ev := range x.e.events {
		p := ""
		switch ev.Kind {
		case "panic":
			p = "C12 C08"
		case "loop", "recursion":
			p = "C12 C07"
		case "case":
			p = "C13 C16"
		case "budget", "unsupported":
			x.und[ev.Where+": "+ev.Msg] = true
			continue
		default:
			continue
		}
		if ev.Flags&fUnk != 0 {
			x.und[ev.Where+": "+ev.Msg] = true
			continue
		}
		x.finding(p, ev.Kind+" "+ev.Where, ev.Where, ev.Msg, nil)
	}
	if x.e.steps > x.e.budget {
		x.und["step budget exceeded"] = true
	}
}

// first gives the fresh tokenizer its symbolic start position.
func (x *Lex) first(st *State, tk Val) bool {
	p, ok := x.position(st, tk)
	if !ok {
		x.und["no position found in a new tokenizer"] = true
		return false
	}
	v, ok := x.posOf(st, p)
	if !ok {
		x.und["unexpected position fields"] = true
		return false
	}
	good := true
	want := func(a Val, n int64, what string) {
		if a != (VInt{n}) {
			x.finding("C15", "initial "+what, "token.NewTokenizer", fmt.Sprintf("a new tokenizer starts at %s %v instead of %d", what, a, n), st)
			good = false
		}
	}
	want(v.idx, 0, "index")
	want(v.line, 1, "line")
	want(v.col, 1, "column")
	if !good {
		return false
	}
	s := st.lexFirst
	st.lexFirst = 0
	c, _ := x.e.load(st, p)
	b := c.(*VStruct)
	n := &VStruct{T: b.T, F: append([]Val{}, b.F...)}
	str := under(b.T).(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == "Index" {
			n.F[i] = VIdx{s}
		}
	}
	x.e.store(st, p, n, nil)
	return true
}

// settled brings the state to where the specification has decided what ends at slot s: the label of the following slot.
func (x *Lex) settled(st *State, s int) []*State { return x.step(st, s) }

// skippedOnly: everything before slot s (since the entry) is skipped, and an item begins (or the text ends) at s.
func (x *Lex) skippedOnly(st *State, s int) (bool, string) {
	l := st.lab[s]
	if st.cls[s].subset(x.eof) {
		if l.Q == "entry" {
			return true, ""
		}
		if k := kindOf(l.Q); x.skip[k] && l.N == 0 {
			return true, ""
		} else if l.N > 0 {
			return false, "characters of another token are passed over"
		}
		return false, "a " + kindOf(l.Q) + " is passed over"
	}
	t := st.lab[st.next[s]]
	if t.Start != s {
		return false, "in the middle of a " + kindOf(t.Q)
	}
	if t.N > 0 {
		return false, "characters of another token are passed over"
	}
	return true, ""
}

// again handles a nested GetNext: what was read so far must be skippable, and the rest is a new call.
func (x *Lex) again(st *State, args []Val, site ssa.Instruction, _ *Label) []Res {
	where := x.w.posStr(instrPos(site))
	if len(args) == 0 || args[0] != st.heap[x.root] {
		x.und[where+": nested GetNext on another tokenizer"] = true
		return nil
	}
	p, ok := x.position(st, args[0])
	if !ok {
		x.und[where+": position lost"] = true
		return nil
	}
	v, _ := x.posOf(st, p)
	ix, ok := v.idx.(VIdx)
	if !ok {
		x.und[where+": position lost"] = true
		return nil
	}
	for _, s := range x.settled(st, ix.S) {
		if s.lab[ix.S].Q == "entry" {
			x.finding("C12 C07", "nested without progress", where, "the tokenizer starts over without having read anything", s)
			continue
		}
		if ok, why := x.skippedOnly(s, ix.S); !ok {
			x.finding("C12 C13", "skip:"+why, where, "the tokenizer goes on to the next token although "+why, s)
			continue
		}
		if !x.truePos(s, p, ix.S, "the position after a skipped blank or comment", where) {
			continue
		}
		x.reenter(s)
	}
	return nil
}

// reenter queues the state as the entry of a new call.
func (x *Lex) reenter(st *State) {
	n := st.clone()
	n.frames = nil
	c, ok := x.cursor(n)
	if !ok {
		return
	}
	x.counters(n)
	x.collapse(x.e, n, nil)
	o := n.lab[c]
	// labels after the cursor belong to the old call
	n.lab = map[int]*Label{c: {Q: "entry", First: o.First, AfterL: o.AfterL}}
	n.sem = nil
	n.flags = 0
	n.trace = nil
	x.entryQ = append(x.entryQ, n)
}

// truePos: the position object p describes slot s.
func (x *Lex) truePos(st *State, p Val, s int, what, where string) bool {
	var b *VStruct
	switch v := p.(type) {
	case VPtr:
		c, _ := x.e.load(st, v)
		b, _ = c.(*VStruct)
	case *VStruct:
		b = v
	}
	if b == nil {
		x.und[where+": "+what+" unknown"] = true
		return false
	}
	b = x.normPos(st, b)
	v, _ := x.posOf(st, b)
	ok := true
	switch l := v.line.(type) {
	case VLine:
		if l.S != s {
			x.und[where+": line of "+what+" unknown"] = true
			ok = false
		} else if l.D != 0 {
			x.finding("C15", fmt.Sprintf("line off by %+d|%s", l.D, what), where, fmt.Sprintf("the line of %s is off by %+d", what, l.D), st)
			ok = false
		}
	case VUnk:
		x.und[where+": line of "+what+" unknown"] = true
		ok = false
	default:
		x.finding("C15", "line "+what, where, fmt.Sprintf("the line of %s does not follow the text", what), st)
		ok = false
	}
	switch l := v.col.(type) {
	case VCol:
		if l.S != s {
			if st.lab[l.S] == nil {
				x.und[where+": column of "+what+" unknown"] = true
			} else {
				x.finding("C15", "col "+what, where, fmt.Sprintf("the column of %s does not follow the text", what), st)
			}
			ok = false
		} else if l.D != 0 {
			x.finding("C15", fmt.Sprintf("column off by %+d|%s", l.D, what), where, fmt.Sprintf("the column of %s is off by %+d", what, l.D), st)
			ok = false
		}
	case VUnk:
		x.und[where+": column of "+what+" unknown"] = true
		ok = false
	default:
		x.finding("C15", "col "+what, where, fmt.Sprintf("the column of %s does not follow the text", what), st)
		ok = false
	}
	return ok
}

func (x *Lex) judge(r Res, fn *ssa.Function) {
	x.outs++
	where := "token.(*Tokenizer).GetNext"
	if r.panic != "" {
		return
	}
	st := r.st
	tk := st.heap[x.root]
	p, ok := x.position(st, tk)
	if !ok {
		x.und["position lost"] = true
		return
	}
	cv, _ := x.posOf(st, p)
	cur, ok := cv.idx.(VIdx)
	if !ok {
		x.und["position lost"] = true
		return
	}
	if isNilVal(r.v) {
		x.finding("C12", "no token", where, "GetNext returns no token at all for some text", st)
		return
	}
	tp, ok := r.v.(VPtr)
	var tb *VStruct
	if ok {
		c, _ := x.e.load(st, tp)
		tb, _ = c.(*VStruct)
	}
	if tb == nil || !types.Identical(tb.T, x.tokT) {
		x.und["unexpected result of GetNext"] = true
		return
	}
	s := under(tb.T).(*types.Struct)
	var typ, start, end Val
	textOK := false
	for i := 0; i < s.NumFields(); i++ {
		switch f := s.Field(i); f.Name() {
		case "Type":
			typ = tb.F[i]
		case "Start":
			start = tb.F[i]
		case "End":
			end = tb.F[i]
		default:
			if q, ok := tb.F[i].(VPtr); ok {
				if c, _ := x.e.load(st, q); c == (VLexText{}) {
					textOK = true
				}
			}
			if tb.F[i] == (VLexText{}) {
				textOK = true
			}
		}
	}
	if !textOK {
		x.finding("C14", "text", where, "a token is built without the source text", st)
		return
	}
	a, ok1 := x.posOf(st, start)
	b, ok2 := x.posOf(st, end)
	if isNilVal(start) || isNilVal(end) {
		x.finding("C14", "nil position", where, "a token is built without start or end position", st)
		return
	}
	if !ok1 || !ok2 {
		x.und["unexpected positions of a token"] = true
		return
	}
	// private copies
	sp, isP1 := start.(VPtr)
	ep, isP2 := end.(VPtr)
	if isP1 && sp == p || isP2 && ep == p {
		x.finding("C14 C11", "shared position", where, "a token's position is the scanner's own position, which later reading changes", st)
		return
	}
	if isP1 && isP2 && sp == ep {
		x.finding("C14", "start is end", where, "a token's start and end are one object", st)
		return
	}
	ai, okA := a.idx.(VIdx)
	bi, okB := b.idx.(VIdx)
	if !okA || !okB {
		x.finding("C14", "index", where, "a token's start or end index is not a position of the text", st)
		return
	}
	tn := ""
	if n, ok := typ.(VInt); ok {
		for k, v := range x.types {
			if v == n.N {
				tn = k
			}
		}
	}
	if tn == "" {
		x.und["token type unknown"] = true
		return
	}
	if bi.S != cur.S {
		x.finding("C14", "end of "+tn, where, "the end of a "+tn+" token is not where the scanner stands after it", st)
		return
	}
	x.tok = tp
	for _, st := range x.settled(st, cur.S) {
		x.judgeItem(st, tn, ai.S, bi.S, where, start, end, p)
	}
}

func (x *Lex) judgeItem(st *State, tn string, A, B int, where string, start, end Val, p VPtr) {
	u := x.e.uni
	fail := func(props, why string) {
		x.finding(props, tn+": "+why, where, fmt.Sprintf("with %s, a %s token is returned although %s", x.flags, tn, why), st)
	}
	lb := st.lab[B]
	if tn == "EOF" {
		if A != B {
			fail("C12 C14", "its start and end differ")
			return
		}
		if !st.cls[B].subset(x.eof) {
			fail("C12 C13", "characters remain ("+u.setText(st.cls[B])+")")
			return
		}
		if ok, why := x.skippedOnly(st, B); !ok {
			fail("C12 C13", why)
			return
		}
	} else {
		la := st.lab[A]
		if la == nil {
			x.und["start label lost"] = true
			return
		}
		var kind string
		var n, ps, w int
		if st.cls[B].subset(x.eof) {
			kind, n, ps, w = kindOf(lb.Q), lb.N, lb.Start, lb.W
			if lb.Q == "entry" {
				kind = "EOF"
			}
		} else {
			t := st.lab[st.next[B]]
			if t.Start != B {
				if A == B {
					fail("C12 C13", "nothing is read for it")
				} else {
					fail("C13", "the specification's token goes on ("+t.Q+") with "+u.setText(st.cls[B]))
				}
				return
			}
			kind, n, ps, w = t.PKind, t.N-1, t.PStart, t.W
			if t.PKind == "" {
				fail("C12", "nothing is read for it")
				return
			}
			if t.PKind == "skipped" {
				kind = "blank or comment"
			}
		}
		if n != 0 {
			fail("C13", "the characters read are more than one token")
			return
		}
		if ps != A {
			fail("C14 C12 C13", "it does not start where the characters of that token start (they form a "+kind+")")
			return
		}
		if kind == "Word" {
			cls := u.byKind["word"].or(u.byKind["ident"])
			if w != 0 {
				cls = st.cls[w]
			}
			switch tn {
			case "ReservedWord":
				if bad := cls.minus(u.byKind["word"]); !bad.empty() {
					fail("C13", "the word can be "+u.setText(bad)+", which is not reserved")
					return
				}
			case "Identifier":
				if bad := cls.and(u.byKind["word"]); !bad.empty() {
					fail("C13", "the word can be the reserved word "+u.setText(bad))
					return
				}
			default:
				fail("C13", "the text is a word")
				return
			}
		} else if kind != tn {
			fail("C13", "the text is a "+kind)
			return
		}
	}
	ok := x.truePos(st, start, A, "the start of a "+tn+" token", where)
	ok = x.truePos(st, end, B, "the end of a "+tn+" token", where) && ok
	ok = x.truePos(st, p, B, "the scanner after a "+tn+" token", where) && ok
	if ok {
		x.copies(st, start)
		x.copies(st, p)
		x.copies(st, x.tok)
		x.copies(st, st.heap[x.root])
		x.text(st, tn, A, B)
		x.reenter(st)
	}
}

// copies: Clone of an object gives an equal object sharing nothing that reading changes.
func (x *Lex) copies(st *State, p Val) {
	var todo []VPtr
	seen := map[VPtr]bool{}
	var visit func(v Val, d int)
	visit = func(v Val, d int) {
		if q, ok := v.(VPtr); ok && !seen[q] && d < 5 {
			seen[q] = true
			c, ok := x.e.load(st, q)
			if b, isB := c.(*VStruct); ok && isB {
				todo = append(todo, q)
				for _, f := range b.F {
					visit(f, d+1)
				}
			}
		}
	}
	visit(p, 0)
	for _, q := range todo {
		c, _ := x.e.load(st, q)
		b := c.(*VStruct)
		n, ok := types.Unalias(b.T).(*types.Named)
		if !ok {
			continue
		}
		sel := x.w.Prog.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), "Clone")
		if sel == nil || len(sel.Index()) > 1 {
			continue
		}
		f := x.w.Prog.MethodValue(sel)
		if f == nil || f.Signature.Params().Len() != 0 {
			continue
		}
		name := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		for _, r := range x.e.call(st.clone(), f, []Val{q}, nil, nil) {
			x.clones++
			if r.panic != "" {
				x.finding("C11 C14", "clone panics "+name, shortFn(f), "Clone panics", r.st)
				continue
			}
			if d, unk := x.same(r.st, q, r.v, 0); d != "" {
				if unk {
					x.und[shortFn(f)+": "+d] = true
				} else {
					x.finding("C11 C14", "clone "+name+" "+d, shortFn(f), "a copy of a "+name+" "+d, r.st)
				}
			}
		}
	}
}

// same compares an object with its copy.
func (x *Lex) same(st *State, a, b Val, d int) (string, bool) {
	switch v := a.(type) {
	case VPtr:
		c, _ := x.e.load(st, v)
		if c == (VLexText{}) {
			if q, ok := b.(VPtr); ok {
				if e, _ := x.e.load(st, q); e == (VLexText{}) {
					return "", false
				}
			}
			return "has another text", false
		}
		q, ok := b.(VPtr)
		if !ok {
			if isNilVal(b) {
				return "lacks a part", false
			}
			return "has a part that is not understood", true
		}
		if q == v {
			return "shares an object that reading changes", false
		}
		e, _ := x.e.load(st, q)
		if d > 6 {
			return "too deep", true
		}
		return x.same(st, c, e, d+1)
	case *VStruct:
		w, ok := b.(*VStruct)
		if !ok {
			return "has a part that is not understood", true
		}
		s := under(v.T).(*types.Struct)
		for i := range v.F {
			if r, u := x.same(st, v.F[i], w.F[i], d+1); r != "" {
				if u || strings.Contains(r, " (field ") {
					return r, u
				}
				return r + " (field " + s.Field(i).Name() + ")", u
			}
		}
		return "", false
	}
	if a != b {
		return "differs from the original", false
	}
	return "", false
}

// text: Raw, RawString and Value of the token at x.tok give exactly its characters.
func (x *Lex) text(st *State, tn string, A, B int) {
	call := func(name string) []Res {
		f := x.w.method("token", "Token", name)
		if f == nil || f.Signature.Params().Len() != 0 {
			return nil
		}
		return x.e.call(st.clone(), f, []Val{x.tok}, nil, nil)
	}
	for _, r := range call("Raw") {
		x.texts++
		if v, ok := r.v.(VLexRunes); r.panic != "" || ok && (v.A != A || v.B != B) {
			x.finding("C14", "Raw of "+tn, "token.(*Token).Raw", "Raw is not the text from the start to the end of the token", r.st)
		} else if !ok {
			x.und["token.(*Token).Raw: result not understood"] = true
		}
	}
	if tn != "Identifier" && tn != "ReservedWord" {
		return
	}
	for _, n := range []string{"RawString", "Value"} {
		want := byte('r')
		if n == "Value" && tn == "ReservedWord" {
			want = 'u'
		}
		for _, r := range call(n) {
			x.texts++
			v, ok := r.v.(VTokStr)
			if r.panic != "" || ok && v.Form != want {
				x.finding("C14 C16", n+" of "+tn, "token.(*Token)."+n, n+" of a "+tn+" is not its text", r.st)
			} else if !ok {
				x.und["token.(*Token)."+n+": result not understood"] = true
			}
		}
	}
}

func debugLex(w *World) int {
	x, err := newLex(w)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	x.run()
	for _, f := range x.fs {
		fmt.Println("FINDING", f.Kind, "|", f.Key, "|", f.Where, "|", f.Msg)
	}
	for u := range x.und {
		fmt.Println("UNDECIDED", u)
	}
	fmt.Println("entries", x.states, "calls", x.calls, "outs", x.outs, "steps", x.e.steps, "nstates", x.e.nStates)
	return 0
}

var lexProps = map[string]string{
	"C12": "every path through Tokenizer.GetNext and what it calls, from a new tokenizer and from every state a call can leave behind, over all character classes: it returns a token, reads at least one character unless the text has ended, passes over nothing but blanks and comments, and its loops read a character on every round",
	"C13": "for every path through GetNext the characters read and the kind returned are those of the lexical grammar's automaton, run over the same characters with the same lookahead; reserved words against the documented list in any letter case",
	"C14": "start and end of every token returned, against the characters read; they are objects of their own; Raw, RawString and Value give those characters; copies of tokens, positions, cursors and tokenizers are equal and share nothing that reading changes",
	"C15": "line, column and index of the start and end of every token and of the scanner after every call, against the true position of the character, inductively from the start of the text",
}

// addLex adds the findings of the tokenizer analysis that concern the report's property.
func addLex(rep *Report, w *World) {
	x, err := newLex(w)
	und := []string{}
	if err != nil {
		und = append(und, "tokenizer: "+err.Error())
	} else {
		x.run()
		for u := range x.und {
			und = append(und, "tokenizer: "+u)
		}
		for _, f := range x.fs {
			if strings.Contains(f.Kind, rep.Prop) {
				rep.Findings = append(rep.Findings, Finding{Prop: rep.Prop, Rule: "tokenizer", Key: "tokenizer/" + f.Key, Where: f.Where, Msg: f.Msg})
			}
		}
		rep.Coverage["tokenizer_states"] = x.states
		rep.Coverage["tokenizer_outcomes_compared"] = x.outs
		rep.Coverage["tokenizer_abstract_states"] = x.e.nStates
		rep.Coverage["copies_compared"] = x.clones
		rep.Coverage["token_texts_compared"] = x.texts
		var fs []string
		for f := range x.e.funcs {
			if !strings.Contains(f, "init") {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		rep.Coverage["tokenizer_functions"] = fs
	}
	sort.Strings(und)
	old, _ := rep.Coverage["undecided"].([]string)
	rep.Coverage["undecided"] = append(old, und...)
	for _, u := range und {
		fmt.Println("UNDECIDED:", u)
	}
	rep.Assumptions = append(rep.Assumptions, "unicode.IsLetter and unicode.IsSpace are judged per class of non-ASCII characters by a representative")
}

func init() {
	for p, t := range lexProps {
		p, t := p, t
		checks[p] = func(w *World, tier string) *Report {
			rep := newReport(p, t)
			addLex(rep, w)
			return rep
		}
	}
}

// counters forgets the value of integer fields of the tokenizer and its cursor that take many values from call to call.
func (x *Lex) counters(st *State) {
	seen := map[int]bool{}
	var visit func(v Val, d int)
	visit = func(v Val, d int) {
		p, ok := v.(VPtr)
		if !ok || d > 3 || p.P != "" || seen[p.O] {
			return
		}
		seen[p.O] = true
		b, ok := st.heap[p.O].(*VStruct)
		if !ok || types.Identical(b.T, x.posT) {
			return
		}
		var nf []Val
		for i, f := range b.F {
			switch f := f.(type) {
			case VInt:
				k := types.TypeString(b.T, nil) + "." + itoa(i)
				if x.ints == nil {
					x.ints = map[string]map[int64]bool{}
				}
				if x.ints[k] == nil {
					x.ints[k] = map[int64]bool{}
				}
				x.ints[k][f.N] = true
				if len(x.ints[k]) > 3 {
					if nf == nil {
						nf = append([]Val{}, b.F...)
					}
					nf[i] = VUnk{"big"}
				}
			case VPtr:
				visit(f, d+1)
			}
		}
		if nf != nil {
			st.heap[p.O] = &VStruct{T: b.T, F: nf}
		}
	}
	visit(st.heap[x.root], 0)
}
