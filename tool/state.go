package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const csWords = 26

// CSet is a set of input-symbol atoms.
type CSet [csWords]uint64

func (a CSet) and(b CSet) (r CSet) {
	for i := range a {
		r[i] = a[i] & b[i]
	}
	return
}
func (a CSet) or(b CSet) (r CSet) {
	for i := range a {
		r[i] = a[i] | b[i]
	}
	return
}
func (a CSet) minus(b CSet) (r CSet) {
	for i := range a {
		r[i] = a[i] &^ b[i]
	}
	return
}
func (a CSet) empty() bool        { return a == CSet{} }
func (a CSet) has(i int) bool     { return a[i/64]>>(uint(i)%64)&1 == 1 }
func (a CSet) with(i int) CSet    { a[i/64] |= 1 << (uint(i) % 64); return a }
func (a CSet) subset(b CSet) bool { return a.minus(b).empty() }
func (a CSet) each(f func(i int)) {
	for w, x := range a {
		for x != 0 {
			b := 0
			for x>>uint(b)&1 == 0 {
				b++
			}
			f(w*64 + b)
			x &^= 1 << uint(b)
		}
	}
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	site   ssa.Instruction // call instruction being executed in this frame (when not top)
	shared bool            // env map may be shared: copy before writing
	prev   *headRef        // last loop head visited (termination graph)
	prog   int             // progress counter at that head
	at     int             // progress counter when the frame was entered
}

type deferred struct {
	fn   Val
	args []Val
	site ssa.Instruction
}

type headRef struct{ id int }

type factKey struct {
	K    string
	ID   int
	Path string
}

type DeclEv struct {
	Obj   Val
	Depth int
	Name  Val // overwrite name or nil
}

// State is one abstract configuration.
type State struct {
	frames   []*Frame
	heap     map[int]Val
	cls      map[int]CSet
	next     map[int]int
	facts    map[factKey]string
	sem      []string
	tags     []string // facts about calls made, kept to the end of the rule
	decls    []DeclEv
	flags    uint32
	prog     int // tokens (non-EOF) consumed so far; not part of the key
	nid      int // next fresh id
	trace    *traceNode
	errAt    string
	lexFirst int            // lexer domain: slot of the first character, while the tokenizer is being created
	lab      map[int]*Label // lexer domain: specification labels of the input slots
}

type traceNode struct {
	up  *traceNode
	msg string
}

const (
	fFailedSet  = 1 << iota // a registration failed on this path
	fRolledBack             // the input position was moved backwards on this path
	fConsumed               // at least one token consumed since entry
	fPostRun                // post-section functions executed
	fErrNew                 // an error value was created on this path
	fStale                  // construct entered with stale current token
	fLater                  // a name of the section waits for its end to be resolved
	fUnk                    // (lexer domain) an unknown value decided a branch
)

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	copy(n.frames, s.frames)
	if len(n.frames) > 0 {
		s.frames[len(s.frames)-1].shared = true
		f := *n.frames[len(n.frames)-1]
		f.shared = true
		n.frames[len(n.frames)-1] = &f
	}
	n.heap = make(map[int]Val, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cls = make(map[int]CSet, len(s.cls)+2)
	for k, v := range s.cls {
		n.cls[k] = v
	}
	n.next = make(map[int]int, len(s.next)+1)
	for k, v := range s.next {
		n.next[k] = v
	}
	if s.lab != nil {
		n.lab = make(map[int]*Label, len(s.lab)+2)
		for k, v := range s.lab {
			n.lab[k] = v
		}
	}
	n.facts = make(map[factKey]string, len(s.facts)+1)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) setReg(v ssa.Value, x Val) {
	f := s.top()
	if f.shared {
		nf := *f
		nf.env = make(map[ssa.Value]Val, len(f.env)+4)
		for k, y := range f.env {
			nf.env[k] = y
		}
		nf.shared = false
		s.frames[len(s.frames)-1] = &nf
		f = &nf
	}
	f.env[v] = x
}

func (s *State) fresh() int { s.nid++; return s.nid }

func (s *State) alloc(v Val) int {
	id := s.fresh()
	s.heap[id] = v
	return id
}

func (s *State) addSem(x string) {
	for _, y := range s.sem {
		if y == x {
			return
		}
	}
	n := append(append([]string{}, s.sem...), x)
	sort.Strings(n)
	s.sem = n
}

func (s *State) addTag(x string) {
	s.tags = append(append([]string{}, s.tags...), x)
}

func (s *State) tag(prefix string) (string, bool) {
	for _, t := range s.tags {
		if strings.HasPrefix(t, prefix) {
			return t[len(prefix):], true
		}
	}
	return "", false
}

func (s *State) note(format string, a ...interface{}) {
	s.trace = &traceNode{up: s.trace, msg: fmt.Sprintf(format, a...)}
}

func (s *State) traceText(max int) []string {
	var r []string
	for t := s.trace; t != nil && len(r) < max; t = t.up {
		r = append(r, t.msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---------- canonical keys ----------

type canon struct {
	e     *Eng
	st    *State
	b     []byte
	objs  map[int]int
	slots map[int]int
	slotL []int
	syms  map[string]int
	symL  []factKey
	queue []int
	curs  []int // positions of the cursors met
}

func (c *canon) s(x string) { c.b = append(c.b, x...) }
func (c *canon) i(n int)    { c.b = strconv.AppendInt(c.b, int64(n), 10) }

func (c *canon) obj(o int) {
	if o <= c.e.staticMax {
		c.s("s")
		c.i(o)
		return
	}
	n, ok := c.objs[o]
	if !ok {
		n = len(c.objs)
		c.objs[o] = n
		c.queue = append(c.queue, o)
	}
	c.s("o")
	c.i(n)
}

func (c *canon) slot(s int) {
	n, ok := c.slots[s]
	if !ok {
		n = len(c.slots)
		c.slots[s] = n
		c.slotL = append(c.slotL, s)
	}
	c.s("t")
	c.i(n)
}

func (c *canon) sym(k string, id int) {
	if k == "decl" || k == "member" || k == "cmember" || k == "cprop" || k == "num" {
		c.s("D" + k[:2])
		c.slot(id)
		kk := k + "#" + itoa(id)
		if _, ok := c.syms[kk]; !ok {
			c.syms[kk] = len(c.syms)
			c.symL = append(c.symL, factKey{K: k, ID: id})
		}
		return
	}
	kk := k + "#" + itoa(id)
	n, ok := c.syms[kk]
	if !ok {
		n = len(c.syms)
		c.syms[kk] = n
		c.symL = append(c.symL, factKey{K: k, ID: id})
	}
	c.s("q")
	c.s(k)
	c.s("#")
	if id < 1000 { // stable ids: not renamed
		c.s("=")
		c.i(id)
	} else {
		c.i(n)
	}
}

func (c *canon) val(v Val) {
	switch x := v.(type) {
	case nil:
		c.s("_")
	case VInt:
		c.b = strconv.AppendInt(append(c.b, '#'), x.N, 10)
	case VStr:
		c.b = strconv.AppendQuote(c.b, x.S)
	case VBool:
		if x.B {
			c.s("T")
		} else {
			c.s("F")
		}
	case VNil:
		c.s("N")
	case VUnk:
		c.s("?")
	case VPtr:
		c.s("&")
		c.obj(x.O)
		c.s(x.P)
	case VSlice:
		c.s("S")
		c.obj(x.O)
		c.s("[")
		c.i(x.Lo)
		c.s(":")
		c.i(x.Hi)
		c.s("]")
	case VMap:
		c.s("M")
		c.obj(x.O)
	case VFn:
		c.s("f:")
		c.s(x.F.String())
		c.s("(")
		for _, b := range x.B {
			c.val(b)
			c.s(",")
		}
		c.s(")")
	case VBuiltin:
		c.s("b:" + x.Name)
	case VIface:
		c.s("I<")
		c.s(c.e.typeKey(x.T))
		c.s(">")
		c.val(x.V)
	case VTuple:
		c.s("(")
		for _, y := range x {
			c.val(y)
			c.s(",")
		}
		c.s(")")
	case *VStruct:
		c.s("{")
		for _, y := range x.F {
			c.val(y)
			c.s(",")
		}
		c.s("}")
	case *VArr:
		c.s("[")
		for _, y := range x.E {
			c.val(y)
			c.s(",")
		}
		c.s("]")
	case *VMapC:
		c.s("m{")
		for _, y := range x.E {
			c.val(y.K)
			c.s(":")
			c.val(y.V)
			c.s(",")
		}
		c.s("}")
	case VTokType:
		c.s("TT")
		c.slot(x.S)
	case VTokBuf:
		c.s("TB")
		c.slot(x.S)
	case VTokNum:
		c.s("TN")
		c.b = append(c.b, x.W, x.F)
		c.slot(x.S)
	case VTokRunes:
		c.s("TR")
		c.slot(x.S)
	case VTokStr:
		c.s("TS")
		c.b = append(c.b, x.Form)
		c.slot(x.S)
	case VRune:
		c.s("RU")
		c.slot(x.S)
	case VPath:
		c.s("PATH")
	case VText:
		c.s("TX")
		if x.Path {
			c.s("p")
		}
		if x.Line {
			c.s("l")
		}
		if x.Col {
			c.s("c")
		}
		if x.Mixed {
			c.s("m")
		}
		if x.Swap {
			c.s("s")
		}
		if x.Tok != 0 {
			c.s("t")
			c.slot(x.Tok)
		}
		if x.Line || x.Col {
			c.slot(x.S)
		}
	case VErr:
		c.s("E<" + x.Origin + "@" + x.Pos + ">")
		c.val(x.Loc)
	case VOpq:
		if x.A {
			c.s("*")
		}
		if x.K == "ctx" {
			c.s("ctx")
			c.obj(x.ID)
			c.s(x.Path)
			return
		}
		c.sym(x.K, x.ID)
		if x.K == "decl" || x.K == "member" {
			c.slot(x.ID)
		}
		c.s(x.Path)
	case VLen:
		c.s("L")
		c.i(x.N)
		c.s("+")
		c.i(x.Off)
	case VBad:
		c.s("BAD")
	case VCursor:
		c.s("C@")
		c.slot(x.Pos)
		c.curs = append(c.curs, x.Pos)
		c.ghost(x.G)
	case VIter:
		c.s("It")
		c.obj(x.O)
		c.s("@")
		c.i(x.Pos)
	case *VStrIter:
		c.s("Si")
	case extVal:
		x.canon(c)
	default:
		panic(fmt.Sprintf("canon: %T", v))
	}
}

type extVal interface{ canon(c *canon) }

type VStrIter struct{}

func (e *Eng) typeKey(t types.Type) string {
	if s, ok := e.tkeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	e.tkeys[t] = s
	return s
}

// key returns a canonical text of the state seen from its frames plus extra roots,
// and the class sets of the input slots it mentions.
func (e *Eng) key(st *State, live []ssa.Value, extra ...Val) (string, []CSet, []int) {
	c := &canon{e: e, st: st, objs: map[int]int{}, slots: map[int]int{}, syms: map[string]int{}}
	c.b = make([]byte, 0, 1024)
	for fi, f := range st.frames {
		c.s("\nF:")
		c.s(f.fn.String())
		var lv []ssa.Value
		if fi == len(st.frames)-1 && f.site == nil {
			lv = live
		} else if f.site != nil {
			lv = e.liveAfter(f.site)
			c.s("@")
			c.i(e.instrID(f.site))
		}
		for _, v := range lv {
			x, ok := f.env[v]
			if !ok {
				continue
			}
			c.s(";")
			c.s(v.Name())
			c.s("=")
			c.val(x)
		}
		for _, d := range f.defers {
			c.s(";defer ")
			c.val(d.fn)
			for _, a := range d.args {
				c.s(",")
				c.val(a)
			}
		}
	}
	c.s("\nX:")
	for _, x := range extra {
		c.val(x)
		c.s(";")
	}
	for _, r := range e.roots {
		c.s("\nR:")
		c.val(r)
	}
	if st.lexFirst != 0 {
		c.s("\n1:")
		c.slot(st.lexFirst)
	}
	c.s("\nD:")
	for _, d := range st.decls {
		c.val(d.Obj)
		c.s("@")
		c.i(d.Depth)
		c.val(d.Name)
		c.s(";")
	}
	c.s("\nS:" + strings.Join(st.sem, ",") + "|" + strings.Join(st.tags, ",") + "|" + strconv.Itoa(int(st.flags)))
	if e.keepAll {
		// the caller of the interpreted function may hold any object: all of them count
		ids := make([]int, 0, len(st.heap))
		for o := range st.heap {
			ids = append(ids, o)
		}
		sort.Ints(ids)
		for _, o := range ids {
			c.obj(o)
		}
		var fs []string
		for k, v := range st.facts {
			fs = append(fs, k.K+"#"+itoa(k.ID)+k.Path+"="+v)
		}
		sort.Strings(fs)
		c.s("\nall:" + strings.Join(fs, ";"))
	}
	for len(c.queue) > 0 {
		o := c.queue[0]
		c.queue = c.queue[1:]
		c.s("\n")
		c.obj(o)
		c.s(":")
		c.val(st.heap[o])
	}
	// next chain of visited slots
	chain := map[int]bool{}
	for _, s := range c.curs {
		for !chain[s] {
			n, ok := st.next[s]
			if !ok {
				break
			}
			chain[s] = true
			c.s("\n")
			c.slot(s)
			c.s(">")
			c.slot(n)
			s = n
		}
	}
	if st.lab != nil {
		done := map[int]bool{}
		lab := func(s int) {
			if l := st.lab[s]; l != nil && !done[s] {
				done[s] = true
				c.s("\nL")
				c.slot(s)
				l.canon(c)
			}
		}
		for _, s := range c.curs {
			for k := 0; k < 8; k++ {
				lab(s)
				n, ok := st.next[s]
				if !ok {
					break
				}
				s = n
			}
		}
	}
	// facts on visited symbols
	if len(st.facts) > 0 {
		var fs []string
		for k, v := range st.facts {
			if n, ok := c.syms[k.K+"#"+itoa(k.ID)]; ok {
				fs = append(fs, fmt.Sprintf("%d%s=%s", n, k.Path, v))
			}
		}
		sort.Strings(fs)
		c.s("\nfacts:" + strings.Join(fs, ";"))
	}
	cls := make([]CSet, len(c.slotL))
	for i, s := range c.slotL {
		cls[i] = st.cls[s]
	}
	// prune garbage
	if len(st.heap) > 3*len(c.objs)+32 && !e.keepAll {
		h := make(map[int]Val, len(c.objs))
		for o := range c.objs {
			h[o] = st.heap[o]
		}
		st.heap = h
		cl := make(map[int]CSet, len(c.slotL))
		nx := map[int]int{}
		for _, s := range c.slotL {
			cl[s] = st.cls[s]
			if n, ok := st.next[s]; ok && chain[s] {
				nx[s] = n
			}
		}
		st.cls, st.next = cl, nx
		if st.lab != nil {
			lb := map[int]*Label{}
			for _, s := range c.slotL {
				if l := st.lab[s]; l != nil {
					lb[s] = l
				}
			}
			st.lab = lb
		}
		for k := range st.facts {
			if _, ok := c.syms[k.K+"#"+itoa(k.ID)]; !ok && k.ID >= 1000 {
				delete(st.facts, k)
			}
		}
	}
	return string(c.b), cls, c.slotL
}
