package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Res is one outcome of evaluating an instruction or call.
type Res struct {
	st    *State
	v     Val
	panic string // non-empty: this path panics
}

type primFn func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res

// Event is a fact found by the engine, later mapped to properties.
type Event struct {
	Kind  string // panic, loop, recursion, case, budget, unsupported, opqstore, globalwrite ...
	Where string
	Msg   string
	Trace []string
	Flags uint32
}

// Eng is the abstract interpreter.
type Eng struct {
	csetNo      map[CSet]int
	csets       []CSet
	w           *World
	uni         *Universe
	static      map[int]Val
	staticMax   int
	globals     map[*ssa.Global]int
	prims       map[string]primFn
	cutFn       func(st *State, fn *ssa.Function, args []Val) *Rule
	onLexLen    func(st *State, v VLexRunes) Val
	onNT        func(e *Eng, st *State, nt *Rule, fn *ssa.Function, args []Val, site ssa.Instruction) []Res
	onOpqInvoke func(e *Eng, st *State, recv VOpq, m *types.Func, args []Val, site ssa.Instruction) ([]Res, bool)
	onStore     func(e *Eng, st *State, p VPtr, v Val, site ssa.Instruction)
	onMapUpdate func(e *Eng, st *State, m VMap, k, v Val, site ssa.Instruction) bool
	onMapLookup func(e *Eng, st *State, m VMap, k Val, site *ssa.Lookup, mk func(*State, Val, bool) Res) []Res
	onOpqStore  func(e *Eng, st *State, p VOpq, v Val, site ssa.Instruction) bool
	onOpqLoad   func(e *Eng, st *State, p VOpq, site *ssa.UnOp) (Val, bool)
	onOpqAssert func(e *Eng, st *State, o VOpq, x *ssa.TypeAssert, mk func(*State, Val, bool) Res) []Res
	onOpqCall   func(e *Eng, st *State, f VOpq, args []Val, site ssa.Instruction) []Res
	onAppendOpq func(e *Eng, st *State, args []Val, site ssa.Instruction) []Res
	onLen       func(e *Eng, st *State, v Val, site ssa.Instruction) []Res
	onUnkIndex  func(e *Eng, st *State, y VSlice, i Val, site *ssa.IndexAddr) []Res
	onErr       func(e *Eng, st *State, er VErr, site ssa.Instruction)
	onExternal  func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res
	symBinop    func(e *Eng, st *State, op token.Token, a, b Val, site ssa.Instruction) []Res
	nilPolicy   func(e *Eng, st *State, o VOpq) bool
	neverNil    func(e *Eng, st *State, o VOpq) bool
	forkOpqNil  func(e *Eng, st *State, o VOpq) (isNil, notNil *State, ok bool)
	externs     map[string]bool
	progOf      func(st *State) int
	roots       []Val
	keepAll     bool
	tkeys       map[types.Type]string
	liveB       map[*ssa.BasicBlock][]ssa.Value
	liveI       map[ssa.Instruction][]ssa.Value
	instrNo     map[ssa.Instruction]int
	liveDone    map[*ssa.Function]bool
	rpo         map[*ssa.Function]map[*ssa.BasicBlock]int
	heads       map[*ssa.Function]map[*ssa.BasicBlock]bool
	initMode    bool

	events       map[string]*Event
	steps        int
	budget       int
	depthMax     int
	nStates      int
	nEdges       int
	funcs        map[string]bool
	headSeq      int
	preCanon     func(st *State)
	retMerge     bool
	deadline     time.Time
	opqPrims     map[string]primFn // models used when the receiver is opaque
	collapseHook func(e *Eng, st *State, live []ssa.Value, extra ...Val)
}

func (e *Eng) csetID(c CSet) int {
	if i, ok := e.csetNo[c]; ok {
		return i
	}
	if e.csetNo == nil {
		e.csetNo = map[CSet]int{}
	}
	e.csetNo[c] = len(e.csets)
	e.csets = append(e.csets, c)
	return len(e.csets) - 1
}

func NewEng(w *World) *Eng {
	e := &Eng{w: w, static: map[int]Val{}, globals: map[*ssa.Global]int{}, prims: map[string]primFn{},
		tkeys: map[types.Type]string{}, liveB: map[*ssa.BasicBlock][]ssa.Value{}, liveI: map[ssa.Instruction][]ssa.Value{},
		instrNo: map[ssa.Instruction]int{}, liveDone: map[*ssa.Function]bool{}, rpo: map[*ssa.Function]map[*ssa.BasicBlock]int{},
		heads: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, events: map[string]*Event{}, budget: 40_000_000, depthMax: 60,
		funcs: map[string]bool{}, opqPrims: map[string]primFn{}, externs: map[string]bool{}}
	registerCommonPrims(e)
	return e
}

func (e *Eng) event(st *State, kind string, pos token.Pos, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	where := e.w.posStr(pos)
	k := kind + "|" + where + "|" + msg
	if _, ok := e.events[k]; ok {
		return
	}
	ev := &Event{Kind: kind, Where: where, Msg: msg}
	if st != nil {
		ev.Trace = st.traceText(40)
		ev.Flags = st.flags
	}
	e.events[k] = ev
}

func (e *Eng) newState() *State {
	st := &State{heap: map[int]Val{}, cls: map[int]CSet{}, next: map[int]int{}, facts: map[factKey]string{}}
	st.nid = e.staticMax
	if st.nid < 1000 {
		st.nid = 1000
	}
	return st
}

// ---------- liveness, order ----------

func (e *Eng) prep(fn *ssa.Function) {
	if e.liveDone[fn] {
		return
	}
	e.liveDone[fn] = true
	// RPO
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	onStack := map[*ssa.BasicBlock]bool{}
	heads := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onStack[b] = true
		for _, s := range b.Succs {
			if onStack[s] {
				heads[s] = true
			} else if !seen[s] {
				dfs(s)
			}
		}
		onStack[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	order := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		order[b] = len(post) - i
	}
	e.rpo[fn] = order
	e.heads[fn] = heads
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			e.instrNo[in] = n
			n++
		}
	}
	// liveness
	type set = map[ssa.Value]bool
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	in := map[*ssa.BasicBlock]set{}
	for _, b := range fn.Blocks {
		in[b] = set{}
	}
	out := func(b *ssa.BasicBlock) set {
		o := set{}
		for _, s := range b.Succs {
			for v := range in[s] {
				o[v] = true
			}
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					pi = i
				}
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				delete(o, ph)
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if pi >= 0 && isReg(ph.Edges[pi]) {
					o[ph.Edges[pi]] = true
				}
			}
		}
		return o
	}
	var rands []*ssa.Value
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := out(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					break
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(l, v)
				}
				rands = ins.Operands(rands[:0])
				for _, r := range rands {
					if *r != nil && isReg(*r) {
						l[*r] = true
					}
				}
			}
			if len(l) != len(in[b]) {
				in[b] = l
				changed = true
			} else {
				for v := range l {
					if !in[b][v] {
						in[b] = l
						changed = true
						break
					}
				}
			}
		}
	}
	toList := func(s set) []ssa.Value {
		r := make([]ssa.Value, 0, len(s))
		for v := range s {
			r = append(r, v)
		}
		sort.Slice(r, func(i, j int) bool {
			if r[i].Name() != r[j].Name() {
				return r[i].Name() < r[j].Name()
			}
			return r[i].Pos() < r[j].Pos()
		})
		return r
	}
	for _, b := range fn.Blocks {
		e.liveB[b] = toList(in[b])
		l := out(b)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			ins := b.Instrs[k]
			if _, ok := ins.(*ssa.Phi); ok {
				break
			}
			switch ins.(type) {
			case *ssa.Call, *ssa.RunDefers:
				// live after: exclude the result itself
				c := set{}
				for v := range l {
					c[v] = true
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(c, v)
				}
				e.liveI[ins] = toList(c)
			}
			if v, ok := ins.(ssa.Value); ok {
				delete(l, v)
			}
			rands = ins.Operands(rands[:0])
			for _, r := range rands {
				if *r != nil && isReg(*r) {
					l[*r] = true
				}
			}
		}
	}
}

func (e *Eng) liveAfter(i ssa.Instruction) []ssa.Value { return e.liveI[i] }
func (e *Eng) instrID(i ssa.Instruction) int           { return e.instrNo[i] }

// ---------- calls ----------

func (e *Eng) call(st *State, fn *ssa.Function, args []Val, binds []Val, site ssa.Instruction) []Res {
	if p, ok := e.prims[fn.String()]; ok {
		return p(e, st, fn, args, site)
	}
	if len(args) > 0 {
		if _, ok := args[0].(VOpq); ok {
			if p, ok := e.opqPrims[fn.String()]; ok {
				return p(e, st, fn, args, site)
			}
		}
	}
	if e.cutFn != nil {
		if nt := e.cutFn(st, fn, args); nt != nil {
			return e.onNT(e, st, nt, fn, args, site)
		}
	}
	p := fnPkg(fn)
	inRepo := false
	if p != nil {
		_, inRepo = e.w.SSA[p.Pkg.Path()]
		if p.Pkg.Path() == modPath+"/log" && !e.initMode {
			// logging has no effect on results
			return e.logCall(st, fn, args)
		}
	}
	if fn.Blocks == nil || (!inRepo && fn.Synthetic == "") {
		return e.external(st, fn, args, site)
	}
	return e.enter(st, fn, args, binds, site)
}

// enter interprets the body of fn.
func (e *Eng) enter(st *State, fn *ssa.Function, args []Val, binds []Val, site ssa.Instruction) []Res {
	if len(st.frames) > e.depthMax {
		pos := fn.Pos()
		if site != nil {
			pos = instrPos(site)
		}
		// re-entered again and again without reading anything: it never ends
		n := 0
		for _, fr := range st.frames {
			if fr.fn == fn && fr.at == e.curProg(st) {
				n++
			}
		}
		if n >= 3 {
			e.event(st, "loop", pos, "%s re-enters itself without consuming input", shortFn(fn))
			return nil
		}
		e.event(st, "recursion", pos, "unbounded recursion through %s", shortFn(fn))
		return nil
	}
	e.prep(fn)
	e.funcs[shortFn(fn)] = true
	if len(st.frames) > 0 {
		f := *st.top()
		f.site = site
		st.frames[len(st.frames)-1] = &f
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, at: e.curProg(st)}
	for i, q := range fn.Params {
		if i < len(args) {
			nf.env[q] = args[i]
		}
	}
	for i, q := range fn.FreeVars {
		nf.env[q] = binds[i]
	}
	st.frames = append(append([]*Frame{}, st.frames...), nf)
	outs := e.run(st, fn)
	// pop and merge
	for i := range outs {
		if outs[i].panic != "" {
			continue
		}
		s := outs[i].st
		s.frames = append([]*Frame{}, s.frames[:len(s.frames)-1]...)
	}
	outs = e.mergeOutcomes(outs)
	for i := range outs {
		if outs[i].panic != "" {
			continue
		}
		s := outs[i].st
		if len(s.frames) > 0 {
			f := *s.top()
			f.site = nil
			f.shared = true
			s.frames[len(s.frames)-1] = &f
		}
	}
	return outs
}

func (e *Eng) logCall(st *State, fn *ssa.Function, args []Val) []Res {
	sig := fn.Signature
	switch sig.Results().Len() {
	case 0:
		return []Res{{st: st, v: VTuple{}}}
	default:
		return []Res{{st: st, v: VFn{F: e.noopFn()}}}
	}
}

func (e *Eng) noopFn() *ssa.Function {
	f := e.w.fn("log", "Printf")
	if f == nil {
		panic("log.Printf not found")
	}
	return f
}

// mergeOutcomes joins outcomes that differ only in the class set of one input slot.
func (e *Eng) mergeOutcomes(outs []Res) []Res {
	if len(outs) < 2 {
		return outs
	}
	type item struct {
		r   Res
		cls []CSet
		sl  []int
	}
	groups := map[string][]*item{}
	var order []string
	var res []Res
	for _, o := range outs {
		if o.panic != "" {
			res = append(res, o)
			continue
		}
		if e.collapseHook != nil {
			e.collapseHook(e, o.st, nil, o.v)
		}
		k, cls, sl := e.keyX(o.st, nil, o.v)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], &item{o, cls, sl})
	}
	for _, k := range order {
		g := groups[k]
		for changed := true; changed && len(g) > 1; {
			changed = false
		outer:
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if u, at, ok := joinable(g[i].cls, g[j].cls); ok {
						if at >= 0 {
							g[i].cls = u
							g[i].r.st.cls[g[i].sl[at]] = u[at]
						} else {
							g[i].cls = u
							for x := range u {
								g[i].r.st.cls[g[i].sl[x]] = u[x]
							}
						}
						g = append(g[:j], g[j+1:]...)
						changed = true
						break outer
					}
				}
			}
		}
		for _, it := range g {
			res = append(res, it.r)
		}
	}
	return res
}

// joinable reports whether two class vectors can be joined exactly.
func joinable(a, b []CSet) ([]CSet, int, bool) {
	diff, at := 0, -1
	asub, bsub := true, true
	for i := range a {
		if a[i] != b[i] {
			diff++
			at = i
			if !a[i].subset(b[i]) {
				asub = false
			}
			if !b[i].subset(a[i]) {
				bsub = false
			}
		}
	}
	if diff == 0 || bsub {
		return append([]CSet{}, a...), -1, true
	}
	if asub {
		return append([]CSet{}, b...), -1, true
	}
	if diff == 1 {
		u := append([]CSet{}, a...)
		u[at] = a[at].or(b[at])
		return u, at, true
	}
	return nil, 0, false
}

// keyX is key plus the per-frame progress bits and exact-EOF bits.
func (e *Eng) keyX(st *State, live []ssa.Value, extra ...Val) (string, []CSet, []int) {
	k, cls, sl := e.key(st, live, extra...)
	var b strings.Builder
	b.WriteString(k)
	b.WriteString("\nP:")
	for _, f := range st.frames {
		if f.prev != nil {
			fmt.Fprintf(&b, "%d", f.prev.id)
			if e.curProg(st) > f.prog {
				b.WriteString("+")
			} else {
				b.WriteString("-")
			}
		}
		b.WriteString(",")
	}
	b.WriteString("\nE:")
	if e.uni != nil {
		for _, c := range cls {
			if c == e.uni.eofSet {
				b.WriteString("!")
			} else {
				b.WriteString(".")
			}
		}
	}
	return b.String(), cls, sl
}

type pend struct {
	st   *State
	pred *ssa.BasicBlock
}

type visit struct {
	cls  []CSet
	node *headRef
}

// run interprets the body of fn from its entry in st (frame already pushed).
func (e *Eng) run(st *State, fn *ssa.Function) []Res {
	var outs []Res
	order := e.rpo[fn]
	heads := e.heads[fn]
	pending := map[*ssa.BasicBlock][]pend{fn.Blocks[0]: {{st, nil}}}
	visited := map[*ssa.BasicBlock]map[string][]*visit{}
	visits := map[*ssa.BasicBlock]int{}
	nodes := map[string]*headRef{}
	nodeName := map[int]string{}
	edges := map[int]map[int]bool{} // non-progress edges only
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || order[x] < order[b] {
				b = x
			}
		}
		items := pending[b]
		delete(pending, b)
		// phis
		nphi := 0
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				break
			}
			nphi++
		}
		if nphi > 0 {
			for _, it := range items {
				pi := -1
				for i, p := range b.Preds {
					if p == it.pred {
						pi = i
					}
				}
				vals := make([]Val, nphi)
				for i := 0; i < nphi; i++ {
					vals[i] = e.get(it.st, b.Instrs[i].(*ssa.Phi).Edges[pi])
				}
				for i := 0; i < nphi; i++ {
					it.st.setReg(b.Instrs[i].(*ssa.Phi), vals[i])
				}
			}
		}
		var todo []*State
		if len(b.Preds) > 1 || heads[b] {
			type item struct {
				st  *State
				cls []CSet
				sl  []int
				all []*State
			}
			groups := map[string][]*item{}
			var keys []string
			visits[b] += len(items)
			for _, it := range items {
				if e.collapseHook != nil {
					e.collapseHook(e, it.st, e.liveB[b])
				}
				if visits[b] > 400 {
					e.widen(it.st, b)
				}
				k, cls, sl := e.keyX(it.st, e.liveB[b])
				if heads[b] {
					// edge bookkeeping
					k2 := stripProg(k)
					nd := nodes[itoa(b.Index)+k2]
					if nd == nil {
						e.headSeq++
						nd = &headRef{e.headSeq}
						nodes[itoa(b.Index)+k2] = nd
						nodeName[nd.id] = e.w.posStr(instrPos(b.Instrs[0]))
					}
					f := *it.st.top()
					if f.prev != nil && e.curProg(it.st) <= f.prog {
						if edges[f.prev.id] == nil {
							edges[f.prev.id] = map[int]bool{}
						}
						edges[f.prev.id][nd.id] = true
					}
					f.prev, f.prog = nd, e.curProg(it.st)
					f.shared = true
					it.st.frames[len(it.st.frames)-1] = &f
					it.st.top().shared = true
					k = k2 + "#head"
				}
				if groups[k] == nil {
					keys = append(keys, k)
				}
				groups[k] = append(groups[k], &item{it.st, cls, sl, nil})
			}
			for _, k := range keys {
				g := groups[k]
				for changed := true; changed && len(g) > 1; {
					changed = false
				outer:
					for i := 0; i < len(g); i++ {
						for j := i + 1; j < len(g); j++ {
							if u, _, ok := joinable(g[i].cls, g[j].cls); ok {
								g[i].cls = u
								for x := range u {
									g[i].st.cls[g[i].sl[x]] = u[x]
								}
								g = append(g[:j], g[j+1:]...)
								changed = true
								break outer
							}
						}
					}
				}
				if visited[b] == nil {
					visited[b] = map[string][]*visit{}
				}
			next:
				for _, it := range g {
					for _, v := range visited[b][k] {
						sub := true
						for i := range it.cls {
							if !it.cls[i].subset(v.cls[i]) {
								sub = false
								break
							}
						}
						if sub {
							e.nEdges++
							continue next
						}
					}
					visited[b][k] = append(visited[b][k], &visit{cls: it.cls})
					if dbgOn && len(visited[b]) > 60 {
						dbg("HEAD %s %s n=%d\n%s", shortFn(fn), e.w.posStr(instrPos(b.Instrs[0])), len(visited[b]), k)
					}
					e.nStates++
					todo = append(todo, it.st)
				}
			}
		} else {
			for _, it := range items {
				todo = append(todo, it.st)
			}
		}
		for _, s := range todo {
			e.block(s, b, nphi, pending, &outs)
			if e.nStates&1023 == 0 {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 10<<30 {
					e.steps = e.budget + 1
				}
			}
			if e.steps > e.budget || !e.deadline.IsZero() && time.Now().After(e.deadline) {
				e.steps = e.budget + 1
				e.event(s, "budget", fn.Pos(), "analysis budget exceeded in %s", shortFn(fn))
				return outs
			}
		}
	}
	if cyc := findCycle(edges); cyc >= 0 {
		e.event(st, "loop", fn.Pos(), "a loop in %s (at %s) can repeat without consuming input", shortFn(fn), nodeName[cyc])
	}
	return outs
}

// stripProg removes the progress bits of the key (they describe how the head was reached).
func stripProg(k string) string {
	i := strings.LastIndex(k, "\nP:")
	j := strings.LastIndex(k, "\nE:")
	if i < 0 || j < i {
		return k
	}
	// keep progress bits of the callers, drop the ones of the top frame
	p := k[i+3 : j]
	parts := strings.Split(strings.TrimSuffix(p, ","), ",")
	if len(parts) > 0 {
		parts = parts[:len(parts)-1]
	}
	return k[:i] + "\nP:" + strings.Join(parts, ",") + k[j:]
}

func findCycle(edges map[int]map[int]bool) int {
	color := map[int]int{}
	found := -1
	var dfs func(n int)
	dfs = func(n int) {
		color[n] = 1
		for m := range edges[n] {
			if color[m] == 1 {
				found = m
				return
			}
			if color[m] == 0 {
				dfs(m)
				if found >= 0 {
					return
				}
			}
		}
		color[n] = 2
	}
	for n := range edges {
		if color[n] == 0 {
			dfs(n)
			if found >= 0 {
				return found
			}
		}
	}
	return -1
}

// widen forgets concrete integers held in registers at a block visited very often.
func (e *Eng) widen(st *State, b *ssa.BasicBlock) {
	for _, v := range e.liveB[b] {
		if x, ok := st.top().env[v]; ok {
			if _, ok := x.(VInt); ok {
				if _, isPhi := v.(*ssa.Phi); isPhi {
					st.setReg(v, VUnk{"widened"})
				}
			}
		}
	}
}

type cont struct {
	st  *State
	idx int
}

func (e *Eng) block(st *State, b *ssa.BasicBlock, idx int, pending map[*ssa.BasicBlock][]pend, outs *[]Res) {
	stack := []cont{{st, idx}}
	for len(stack) > 0 {
		c := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		s := c.st
	instrs:
		for i := c.idx; i < len(b.Instrs); i++ {
			e.steps++
			if e.steps > e.budget {
				return
			}
			ins := b.Instrs[i]
			switch x := ins.(type) {
			case *ssa.Jump:
				pending[b.Succs[0]] = append(pending[b.Succs[0]], pend{s, b})
				break instrs
			case *ssa.If:
				cv := e.get(s, x.Cond)
				if bv, ok := cv.(VBool); ok {
					t := b.Succs[0]
					if !bv.B {
						t = b.Succs[1]
					}
					pending[t] = append(pending[t], pend{s, b})
				} else {
					y, n := e.forkTruth(s, cv)
					if y != nil {
						pending[b.Succs[0]] = append(pending[b.Succs[0]], pend{y, b})
					}
					if n != nil {
						pending[b.Succs[1]] = append(pending[b.Succs[1]], pend{n, b})
					}
				}
				break instrs
			case *ssa.Return:
				var v Val
				switch len(x.Results) {
				case 0:
					v = VTuple{}
				case 1:
					v = e.get(s, x.Results[0])
				default:
					t := make(VTuple, len(x.Results))
					for k, r := range x.Results {
						t[k] = e.get(s, r)
					}
					v = t
				}
				if isErrRet(v) && s.errAt == "" {
					s.errAt = e.w.posStr(instrPos(x))
				}
				*outs = append(*outs, Res{st: s, v: v})
				break instrs
			case *ssa.Panic:
				e.panicEvent(s, x, "explicit panic")
				*outs = append(*outs, Res{st: s, panic: "panic"})
				break instrs
			case *ssa.RunDefers:
				rs := e.runDefers(s, x)
				for k, r := range rs {
					if r.panic != "" {
						continue
					}
					if k == 0 {
						continue
					}
					stack = append(stack, cont{r.st, i + 1})
				}
				if len(rs) == 0 || rs[0].panic != "" {
					break instrs
				}
				s = rs[0].st
				continue
			}
			rs := e.instr(s, ins)
			val, isVal := ins.(ssa.Value)
			first := true
			var cont0 *State
			for _, r := range rs {
				if r.panic != "" {
					*outs = append(*outs, Res{st: r.st, panic: r.panic})
					continue
				}
				if isVal {
					r.st.setReg(val, r.v)
				}
				if first {
					cont0 = r.st
					first = false
				} else {
					stack = append(stack, cont{r.st, i + 1})
				}
			}
			if cont0 == nil {
				break instrs
			}
			s = cont0
		}
	}
}

func isErrRet(v Val) bool {
	switch x := v.(type) {
	case VErr:
		return true
	case VIface:
		_, ok := x.V.(VErr)
		return ok
	case VTuple:
		return len(x) > 0 && isErrRet(x[len(x)-1])
	}
	return false
}

func (e *Eng) panicEvent(st *State, ins ssa.Instruction, msg string) {
	if e.initMode {
		e.event(st, "initpanic", instrPos(ins), "%s", msg)
		return
	}
	e.event(st, "panic", instrPos(ins), "%s in %s", msg, shortFn(ins.Parent()))
}

func (e *Eng) runDefers(st *State, site ssa.Instruction) []Res {
	f := st.top()
	if len(f.defers) == 0 {
		return []Res{{st: st, v: VTuple{}}}
	}
	d := f.defers[len(f.defers)-1]
	nf := *f
	nf.defers = append([]deferred{}, f.defers[:len(f.defers)-1]...)
	nf.shared = true
	st.frames[len(st.frames)-1] = &nf
	var out []Res
	for _, r := range e.callVal(st, d.fn, d.args, site) {
		if r.panic != "" {
			out = append(out, r)
			continue
		}
		out = append(out, e.runDefers(r.st, site)...)
	}
	return out
}

// VPrim is a function value implemented by the analysis.
type VPrim struct {
	Name string
	B    []Val
	F    func(e *Eng, st *State, args []Val, site ssa.Instruction) []Res
}

func (p VPrim) canon(c *canon) {
	c.s("prim:" + p.Name + "(")
	for _, b := range p.B {
		c.val(b)
		c.s(",")
	}
	c.s(")")
}

// callVal calls a function value.
func (e *Eng) callVal(st *State, fv Val, args []Val, site ssa.Instruction) []Res {
	switch f := fv.(type) {
	case VFn:
		return e.call(st, f.F, args, f.B, site)
	case VBuiltin:
		return e.builtin(st, f.Name, args, site)
	case VNil:
		e.panicEvent(st, site, "call of nil function")
		return []Res{{st: st, panic: "nil func"}}
	case VOpq:
		return e.opaqueCall(st, f, args, site)
	case VInvoke:
		return e.invoke(st, f, args, site)
	case VPrim:
		return f.F(e, st, args, site)
	}
	e.event(st, "unsupported", instrPos(site), "call of unknown function value %T", fv)
	return []Res{{st: st, v: VUnk{"call"}}}
}

func (e *Eng) get(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return VPtr{O: e.globalObj(x)}
	case *ssa.Function:
		return VFn{F: x}
	case *ssa.Builtin:
		return VBuiltin{x.Name()}
	}
	f := st.top()
	if r, ok := f.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{constant.BoolVal(c.Value)}
	case constant.String:
		return VStr{constant.StringVal(c.Value)}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return VStr{string(rune(n))}
			}
			return VInt{n}
		}
	}
	return VUnk{"const"}
}

func (e *Eng) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	// external or late global: opaque content
	e.staticMax++
	id := e.staticMax
	e.globals[g] = id
	if _, in := e.w.SSA[g.Pkg.Pkg.Path()]; in {
		e.static[id] = zero(g.Type().(*types.Pointer).Elem())
	} else {
		e.static[id] = VOpq{K: "ext:" + g.String(), ID: 1, T: g.Type().(*types.Pointer).Elem()}
	}
	return id
}

// ---------- memory ----------

func (e *Eng) content(st *State, o int) Val {
	if o <= e.staticMax {
		if v, ok := st.heap[o]; ok {
			return v
		}
		return e.static[o]
	}
	return st.heap[o]
}

func (e *Eng) setContent(st *State, o int, v Val) {
	if o <= e.staticMax && e.initMode {
		e.static[o] = v
		return
	}
	st.heap[o] = v
}

func splitPath(p string) []int {
	var r []int
	n, in := 0, false
	for i := 0; i < len(p); i++ {
		if p[i] == '.' {
			if in {
				r = append(r, n)
			}
			n, in = 0, true
			continue
		}
		n = n*10 + int(p[i]-'0')
	}
	if in {
		r = append(r, n)
	}
	return r
}

func walk(v Val, path []int) (Val, bool) {
	for _, i := range path {
		switch x := v.(type) {
		case *VStruct:
			if i >= len(x.F) {
				return nil, false
			}
			v = x.F[i]
		case *VArr:
			if i >= len(x.E) {
				return nil, false
			}
			v = x.E[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func update(v Val, path []int, nv Val) (Val, bool) {
	if len(path) == 0 {
		return nv, true
	}
	switch x := v.(type) {
	case *VStruct:
		if path[0] >= len(x.F) {
			return nil, false
		}
		c, ok := update(x.F[path[0]], path[1:], nv)
		if !ok {
			return nil, false
		}
		f := append([]Val{}, x.F...)
		f[path[0]] = c
		return &VStruct{T: x.T, F: f}, true
	case *VArr:
		if path[0] >= len(x.E) {
			return nil, false
		}
		c, ok := update(x.E[path[0]], path[1:], nv)
		if !ok {
			return nil, false
		}
		f := append([]Val{}, x.E...)
		f[path[0]] = c
		return &VArr{E: f, Fix: x.Fix}, true
	}
	return nil, false
}

func (e *Eng) load(st *State, p VPtr) (Val, bool) {
	return walk(e.content(st, p.O), splitPath(p.P))
}

func (e *Eng) store(st *State, p VPtr, v Val, site ssa.Instruction) bool {
	c := e.content(st, p.O)
	n, ok := update(c, splitPath(p.P), v)
	if !ok {
		return false
	}
	if p.O <= e.staticMax && !e.initMode && site != nil {
		e.event(st, "globalwrite", instrPos(site), "%s writes package-level state", shortFn(site.Parent()))
	}
	if e.onStore != nil {
		e.onStore(e, st, p, v, site)
	}
	e.setContent(st, p.O, n)
	return true
}

func (e *Eng) elems(st *State, v Val) ([]Val, bool) {
	switch x := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		a, ok := e.content(st, x.O).(*VArr)
		if !ok || x.Hi > len(a.E) {
			return nil, false
		}
		return a.E[x.Lo:x.Hi], true
	}
	return nil, false
}

func (e *Eng) newSlice(st *State, el []Val) Val {
	o := e.newObj(st, &VArr{E: append([]Val{}, el...)})
	return VSlice{O: o, Lo: 0, Hi: len(el)}
}

func (e *Eng) newObj(st *State, v Val) int {
	if e.initMode {
		e.staticMax++
		e.static[e.staticMax] = v
		if st.nid < e.staticMax {
			st.nid = e.staticMax
		}
		return e.staticMax
	}
	return st.alloc(v)
}

// slotOf extracts the input slot a symbolic value talks about.
func slotOf(v Val) (int, bool) {
	switch x := v.(type) {
	case VTokType:
		return x.S, true
	case VTokStr:
		return x.S, true
	case VTokRunes:
		return x.S, true
	case VRune:
		return x.S, true
	}
	return 0, false
}

// split forks st on membership of slot s in set.
func (e *Eng) split(st *State, s int, set CSet) (yes, no *State) {
	c := st.cls[s]
	y, n := c.and(set), c.minus(set)
	switch {
	case n.empty():
		return st, nil
	case y.empty():
		return nil, st
	}
	no = st.clone()
	st.cls[s] = y
	no.cls[s] = n
	return st, no
}

func boolRes(yes, no *State) []Res {
	var r []Res
	if yes != nil {
		r = append(r, Res{st: yes, v: VBool{true}})
	}
	if no != nil {
		r = append(r, Res{st: no, v: VBool{false}})
	}
	return r
}

// forkUnknown forks on an undetermined boolean.
func forkUnknown(st *State) []Res {
	if st.lab != nil {
		st.flags |= fUnk
	}
	n := st.clone()
	return []Res{{st: st, v: VBool{true}}, {st: n, v: VBool{false}}}
}

func (e *Eng) curProg(st *State) int {
	if e.progOf != nil {
		return e.progOf(st)
	}
	return st.prog
}
