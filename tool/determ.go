package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

type detA struct {
	w      *World
	r      *Report
	pure   map[*ssa.Function]int          // 1 pure, 2 impure, 3 in progress
	ret    map[*ssa.Function]map[int]bool // functions whose result i is order-dependent
	ranges int
	calls  int
	sani   int
	fmts   int
	funcs  []*ssa.Function
	done   map[string]bool
}

func checkC20(w *World, tier string) *Report {
	r := newReport("C20", "Order-taint analysis. Rule: the result of every iteration over a map must be order-insensitive (a set, a count, a constant early exit, or at most one key can match), or sorted before it is used, returned from the exported API or put into an error; no call to clock, random, environment or scheduler sources and no goroutine or select; no memory address formatted into an error text. Functions returning a map-ordered list pass the obligation to every caller.")
	d := &detA{w: w, r: r, pure: map[*ssa.Function]int{}, ret: map[*ssa.Function]map[int]bool{}, done: map[string]bool{}}
	d.funcs = w.repoFuncs()
	for _, f := range d.funcs {
		d.sources(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if rg, ok := in.(*ssa.Range); ok {
					if _, isMap := under(rg.X.Type()).(*types.Map); isMap {
						d.ranges++
						d.mapRange(f, rg)
					}
				}
			}
		}
	}
	// propagate order-dependent results to callers
	for changed := true; changed; {
		changed = false
		for _, f := range d.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					for _, g := range d.callees(c.Common()) {
						for i := range d.ret[g] {
							key := f.String() + "/" + itoa(int(c.Pos())) + "/" + g.String() + itoa(i)
							if d.done[key] {
								continue
							}
							d.done[key] = true
							d.calls++
							var v ssa.Value = c
							if g.Signature.Results().Len() > 1 {
								v = nil
								for _, ref := range *c.Referrers() {
									if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
										v = ex
									}
								}
							}
							if v != nil && d.follow(f, v, "the list returned by "+shortFn(g)) {
								changed = true
							}
						}
					}
				}
			}
		}
	}
	// exported API must not return order-dependent lists, except the set type's own accessor in ext
	for g := range d.ret {
		if g.Object() != nil && g.Object().Exported() && !strings.HasSuffix(fnPkg(g).Pkg.Path(), "/ext") {
			r.add("map-order", shortFn(g)+"/result", w.posStr(g.Pos()), "%s returns a list in map iteration order", shortFn(g))
		}
	}
	r.atLeast("map_iterations", d.ranges, 3)
	r.Coverage["uses_of_map_ordered_lists"] = d.calls
	r.Coverage["sorted_before_use"] = d.sani
	r.Coverage["formatted_messages_checked"] = d.fmts
	r.Assumptions = []string{"fmt prints maps in sorted key order (documented)", "go-toposort is deterministic for a fixed node and edge order (its only map iterations fill by stored index or sum)"}
	return r
}

func (d *detA) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var out []*ssa.Function
		it := under(c.Value.Type()).(*types.Interface)
		for _, f := range d.funcs {
			if f.Signature.Recv() == nil || f.Name() != c.Method.Name() {
				continue
			}
			if types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

var nondetCalls = map[string]bool{"time.Now": true, "time.Since": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true,
	"os.Getpid": true, "os.Hostname": true, "runtime.NumGoroutine": true, "runtime.NumCPU": true, "os.Getwd": true, "os.TempDir": true,
	"runtime.Caller": true, "runtime.Stack": true, "runtime.GOMAXPROCS": true}

func (d *detA) sources(f *ssa.Function) {
	w := d.w
	if strings.HasSuffix(fnPkg(f).Pkg.Path(), "/log") {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				d.r.add("nondeterminism", shortFn(f)+"/go", w.posStr(x.Pos()), "%s starts a goroutine", shortFn(f))
			case *ssa.Select:
				d.r.add("nondeterminism", shortFn(f)+"/select", w.posStr(x.Pos()), "%s selects between channels", shortFn(f))
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || g.Object() == nil || g.Object().Pkg() == nil {
					continue
				}
				p := g.Object().Pkg().Path()
				if nondetCalls[p+"."+g.Name()] || p == "math/rand" || p == "math/rand/v2" || p == "crypto/rand" || p == "maps" && (g.Name() == "Keys" || g.Name() == "Values" || g.Name() == "All") {
					d.r.add("nondeterminism", shortFn(f)+"/"+p+"."+g.Name(), w.posStr(x.Pos()), "%s calls %s.%s, whose result differs between runs", shortFn(f), p, g.Name())
				}
				if g.RelString(nil) == "(*sync.Map).Range" || p == "reflect" && (g.Name() == "MapKeys" || g.Name() == "MapRange") {
					d.r.add("nondeterminism", shortFn(f)+"/"+g.Name(), w.posStr(x.Pos()), "%s iterates a map through %s", shortFn(f), g.RelString(nil))
				}
				d.format(f, x, g)
			}
		}
	}
}

// format checks that no address can be printed into a message that is not a panic argument.
func (d *detA) format(f *ssa.Function, c *ssa.Call, g *ssa.Function) {
	sig := g.Signature
	if !sig.Variadic() || sig.Params().Len() < 2 {
		return
	}
	if strings.Contains(g.RelString(nil), "og.Printf") || strings.HasSuffix(g.Name(), "Logf") {
		return
	}
	if strings.HasSuffix(f.Name(), "Logf") {
		return
	}
	last := sig.Params().At(sig.Params().Len() - 1).Type()
	sl, ok := last.(*types.Slice)
	if !ok {
		return
	}
	if _, ok := under(sl.Elem()).(*types.Interface); !ok {
		return
	}
	var format string
	found := false
	for _, a := range c.Call.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			format, found = constant.StringVal(k.Value), true
		}
	}
	if !found {
		return
	}
	if feedsOnlyPanic(c) {
		return
	}
	d.fmts++
	if strings.Contains(format, "%p") {
		d.r.add("address", shortFn(f)+"/%p", d.w.posStr(c.Pos()), "a message formats a memory address with %%p")
	}
	if !strings.Contains(format, "%v") && !strings.Contains(format, "%+v") && !strings.Contains(format, "%#v") && !strings.Contains(format, "%x") {
		return
	}
	arr := c.Call.Args[len(c.Call.Args)-1]
	s, ok := arr.(*ssa.Slice)
	if !ok {
		return
	}
	for _, ref := range *s.X.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				if mi, ok := st.Val.(*ssa.MakeInterface); ok && printsAddress(mi.X.Type(), 0) {
					d.r.add("address", shortFn(f)+"/"+types.TypeString(mi.X.Type(), nil), d.w.posStr(c.Pos()), "a message prints a value of type %s, which contains memory addresses", mi.X.Type())
				}
			}
		}
	}
}

func feedsOnlyPanic(c *ssa.Call) bool {
	if c.Referrers() == nil || len(*c.Referrers()) == 0 {
		return false
	}
	for _, r := range *c.Referrers() {
		switch x := r.(type) {
		case *ssa.Panic:
		case *ssa.MakeInterface:
			for _, q := range *x.Referrers() {
				if _, ok := q.(*ssa.Panic); !ok {
					return false
				}
			}
		case *ssa.ChangeInterface:
			for _, q := range *x.Referrers() {
				if _, ok := q.(*ssa.Panic); !ok {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return true
		}
	}
	return false
}

func printsAddress(t types.Type, depth int) bool {
	if hasStringer(t) {
		return false
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		if s, ok := under(u.Elem()).(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if printsAddress(s.Field(i).Type(), depth+1) {
					return true
				}
			}
			return false
		}
		return true
	case *types.Signature, *types.Chan:
		return true
	case *types.Slice:
		return printsAddress(u.Elem(), depth+1)
	case *types.Array:
		return printsAddress(u.Elem(), depth+1)
	case *types.Map:
		return printsAddress(u.Elem(), depth+1) || printsAddress(u.Key(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if printsAddress(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func (d *detA) isPure(f *ssa.Function) bool {
	switch d.pure[f] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	d.pure[f] = 3
	ok := true
	if f.Blocks == nil || !inWorld(d.w, f) {
		p := ""
		if f.Object() != nil && f.Object().Pkg() != nil {
			p = f.Object().Pkg().Path()
		}
		ok = p == "strings" || p == "unicode" || p == "fmt" && strings.HasPrefix(f.Name(), "Sprint") || p == "strconv" || p == "unicode/utf8"
	} else {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if d.effect(in) {
					ok = false
				}
			}
		}
	}
	if ok {
		d.pure[f] = 1
	} else {
		d.pure[f] = 2
	}
	return ok
}

func inWorld(w *World, f *ssa.Function) bool {
	p := fnPkg(f)
	if p == nil {
		return false
	}
	_, ok := w.SSA[p.Pkg.Path()]
	return ok
}

// localAddr: address derived from a non-escaping-by-store local alloc in the same function.
func localAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

func (d *detA) effect(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return localAlloc(x.Addr) == nil
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "append", "min", "max":
				return false
			}
			return true
		}
		cs := d.callees(x.Common())
		if len(cs) == 0 {
			return true
		}
		for _, g := range cs {
			if strings.HasSuffix(pkgOf(g), "/log") {
				continue
			}
			if !d.isPure(g) {
				return true
			}
		}
	}
	return false
}

func pkgOf(f *ssa.Function) string {
	if p := fnPkg(f); p != nil {
		return p.Pkg.Path()
	}
	return ""
}

func (d *detA) viol(f *ssa.Function, pos token.Pos, format string, a ...interface{}) {
	d.r.add("map-order", shortFn(f), d.w.posStr(pos), format, a...)
}

// mapRange judges one iteration over a map.
func (d *detA) mapRange(f *ssa.Function, rg *ssa.Range) {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	// loop body: blocks that can reach head without leaving through head's exhaustion edge
	inLoop := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if inLoop[b] {
			return
		}
		inLoop[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	body := head.Succs[0]
	// blocks reachable from the body without passing head: loop blocks + early-exit blocks
	region := map[*ssa.BasicBlock]bool{}
	var fwd func(b *ssa.BasicBlock)
	exitBlk := head.Succs[1]
	fwd = func(b *ssa.BasicBlock) {
		if region[b] || b == head || b == exitBlk && !body.Dominates(b) {
			return
		}
		region[b] = true
		for _, s := range b.Succs {
			fwd(s)
		}
	}
	fwd(body)
	var key, val ssa.Value
	for _, ref := range *next.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok {
			if ex.Index == 1 {
				key = ex
			}
			if ex.Index == 2 {
				val = ex
			}
		}
	}
	early := false
	for b := range inLoop {
		if b == head {
			continue
		}
		for _, s := range b.Succs {
			if !inLoop[s] {
				early = true
			}
		}
	}
	matched := d.uniqueMatch(f, head, inLoop, key)
	inMatch := func(b *ssa.BasicBlock) bool {
		for _, m := range matched {
			if m.Dominates(b) {
				return true
			}
		}
		return false
	}
	tainted := map[ssa.Value]string{}
	// effects inside the loop
	for b := range region {
		if !inLoop[b] && !body.Dominates(b) {
			continue
		}
		if inMatch(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if stripConv(x.Key) == key || isConst(x.Value) {
					continue
				}
				d.viol(f, x.Pos(), "%s fills a map from a map iteration under another key: which entry wins depends on iteration order", shortFn(f))
			case *ssa.Store:
				if al := localAlloc(x.Addr); al != nil && inLoop[al.Block()] {
					continue
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok && (x.Val == key || x.Val == val) {
					inside := true // the loop variable itself, not used after the loop
					for _, r := range *al.Referrers() {
						if _, isSt := r.(*ssa.Store); !isSt && !region[r.Block()] {
							inside = false
						}
					}
					if inside {
						continue
					}
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					tainted[ia.X] = "elements stored in iteration order"
					continue
				}
				if al := localAlloc(x.Addr); al != nil {
					if isConst(x.Val) {
						continue
					}
					if cl, ok := x.Val.(*ssa.Call); ok {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							tainted[al] = "elements appended in iteration order"
							continue
						}
					}
					if bo, ok := x.Val.(*ssa.BinOp); ok && isInt(bo.Type()) && (bo.Op == token.ADD || bo.Op == token.OR || bo.Op == token.MUL) {
						continue
					}
				}
				d.viol(f, x.Pos(), "%s assigns from a map iteration: the last value depends on iteration order", shortFn(f))
			case *ssa.Call:
				if !d.effect(x) {
					continue
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && len(x.Call.Args) > 1 && stripConv(x.Call.Args[1]) == key {
					continue
				}
				if d.setInsert(x, key) {
					continue
				}
				d.viol(f, x.Pos(), "%s calls a function with side effects once per map entry, in iteration order", shortFn(f))
			case *ssa.Return:
				ok := true
				for _, rv := range x.Results {
					if !isConst(rv) {
						ok = false
					}
				}
				if !ok && dependsOn(x.Results, next, map[ssa.Value]bool{}) {
					d.viol(f, x.Pos(), "%s returns a value picked by map iteration order", shortFn(f))
				}
			case *ssa.Panic:
				if dependsOn([]ssa.Value{x.X}, next, map[ssa.Value]bool{}) {
					d.viol(f, x.Pos(), "%s fails with a value picked by map iteration order", shortFn(f))
				}
			}
		}
	}
	// loop-carried values
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range ph.Edges {
			if !inLoop[head.Preds[i]] || e == ph {
				continue
			}
			switch d.accum(ph, e, inLoop, map[ssa.Value]bool{}) {
			case "ok":
			case "list":
				tainted[ph] = "elements appended in iteration order"
			default:
				if hasUsesOutside(ph, inLoop) {
					d.viol(f, ph.Pos(), "%s accumulates %s over a map in iteration order", shortFn(f), ph.Comment)
				}
			}
		}
	}
	if early {
		// values flowing out of early exits (break): phis outside the loop fed from inside
		for b := range inLoop {
			if b == head || inMatch(b) {
				continue
			}
			for _, s := range b.Succs {
				if inLoop[s] {
					continue
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, e := range ph.Edges {
						if s.Preds[i] == b && !isConst(e) && dependsOn([]ssa.Value{e}, next, map[ssa.Value]bool{}) {
							d.viol(f, ph.Pos(), "%s keeps the first matching map entry: which one depends on iteration order", shortFn(f))
						}
					}
				}
			}
		}
	}
	for v := range tainted {
		d.follow(f, v, "a list filled by map iteration")
	}
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			// load of a local that holds exactly the value
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if s := soleStore(al); s != nil {
					v = s
					continue
				}
			}
			return v
		default:
			return v
		}
	}
}

func soleStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return v
}

func isConst(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return isConst(x.X)
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func dependsOn(vs []ssa.Value, src ssa.Value, seen map[ssa.Value]bool) bool {
	for _, v := range vs {
		if v == nil || seen[v] {
			continue
		}
		seen[v] = true
		if v == src {
			return true
		}
		if in, ok := v.(ssa.Instruction); ok {
			var ops []ssa.Value
			for _, p := range in.Operands(nil) {
				if *p != nil {
					ops = append(ops, *p)
				}
			}
			if al, ok := v.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok {
						ops = append(ops, st.Val)
					}
				}
			}
			if dependsOn(ops, src, seen) {
				return true
			}
		}
	}
	return false
}

func hasUsesOutside(v ssa.Value, inLoop map[*ssa.BasicBlock]bool) bool {
	for _, r := range *v.Referrers() {
		if !inLoop[r.Block()] {
			return true
		}
	}
	return false
}

// accum classifies how a loop-carried value changes per entry.
func (d *detA) accum(ph *ssa.Phi, e ssa.Value, inLoop map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) string {
	if e == ph || seen[e] {
		return "ok"
	}
	seen[e] = true
	switch x := e.(type) {
	case *ssa.Const:
		return "ok"
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
			if isInt(x.Type()) && (x.X == ph || x.Y == ph && x.Op != token.SUB) {
				return "ok"
			}
		}
		return "bad"
	case *ssa.Phi:
		res := "ok"
		for _, y := range x.Edges {
			if !inLoop[x.Block()] {
				return "bad"
			}
			s := d.accum(ph, y, inLoop, seen)
			if s == "bad" {
				return s
			}
			if s == "list" {
				res = s
			}
		}
		return res
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return "list"
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
			return "ok"
		}
		return "bad"
	}
	if in, ok := e.(ssa.Instruction); ok && !inLoop[in.Block()] {
		return "ok"
	}
	return "bad"
}

// setInsert recognises a call that only puts the iteration key into a map.
func (d *detA) setInsert(c *ssa.Call, key ssa.Value) bool {
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil {
		return false
	}
	pi := -1
	for i, a := range c.Call.Args {
		if stripConv(a) == key {
			pi = i
		}
	}
	if pi < 0 {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if stripConv(x.Key) != ssa.Value(g.Params[pi]) {
					return false
				}
				n++
			default:
				if d.effect(in) {
					return false
				}
			}
		}
	}
	return n > 0
}

// uniqueMatch finds blocks inside the loop entered only when every component of the key equals a loop-invariant value.
func (d *detA) uniqueMatch(f *ssa.Function, head *ssa.BasicBlock, inLoop map[*ssa.BasicBlock]bool, key ssa.Value) []*ssa.BasicBlock {
	if key == nil {
		return nil
	}
	m := newKeyFacts(d, key)
	var res []*ssa.BasicBlock
	for _, b := range f.DomPreorder() {
		if len(m.at(b, 0)) == m.comps && (b.Idom() == nil || len(m.at(b.Idom(), 0)) < m.comps) {
			// must not return to the loop head
			if !reaches(b, head) {
				res = append(res, b)
			}
		}
	}
	return res
}

// keyFacts tells which components of a key are known to equal values that do not depend on it.
type keyFacts struct {
	d     *detA
	key   ssa.Value
	comps int
	memo  map[*ssa.BasicBlock]map[int]bool
}

func newKeyFacts(d *detA, key ssa.Value) *keyFacts {
	m := &keyFacts{d: d, key: key, comps: 1, memo: map[*ssa.BasicBlock]map[int]bool{}}
	if at, ok := under(key.Type()).(*types.Array); ok {
		m.comps = int(at.Len())
	} else if st, ok := under(key.Type()).(*types.Struct); ok {
		m.comps = st.NumFields()
	}
	return m
}

func (m *keyFacts) compOf(v ssa.Value) int {
	if stripConv(v) == m.key {
		return -2 // whole
	}
	switch x := v.(type) {
	case *ssa.Index:
		if stripConv(x.X) == m.key {
			if c, ok := x.Index.(*ssa.Const); ok {
				return int(c.Int64())
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			var al *ssa.Alloc
			idx := -1
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				al, _ = a.X.(*ssa.Alloc)
				if c, ok := a.Index.(*ssa.Const); ok {
					idx = int(c.Int64())
				}
			case *ssa.FieldAddr:
				al, _ = a.X.(*ssa.Alloc)
				idx = a.Field
			}
			if al != nil && idx >= 0 && soleStore(al) == m.key {
				return idx
			}
		}
	case *ssa.Field:
		if stripConv(x.X) == m.key {
			return x.Field
		}
	}
	return -1
}

func union(a, b map[int]bool) map[int]bool {
	r := map[int]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// at gives the components known wherever block b is entered.
func (m *keyFacts) at(b *ssa.BasicBlock, depth int) map[int]bool {
	if r, ok := m.memo[b]; ok {
		return r
	}
	m.memo[b] = map[int]bool{}
	r := map[int]bool{}
	if id := b.Idom(); id != nil {
		r = union(r, m.at(id, depth))
		if len(b.Preds) == 1 {
			r = union(r, m.edge(id, b, depth))
		}
	}
	m.memo[b] = r
	return r
}

// edge gives the components known by taking the branch from a to b.
func (m *keyFacts) edge(a, b *ssa.BasicBlock, depth int) map[int]bool {
	iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If)
	if !ok || a.Succs[0] == a.Succs[1] {
		return nil
	}
	return m.facts(iff.Cond, a.Succs[0] == b, depth)
}

// facts gives the components known when the condition has the given value.
func (m *keyFacts) facts(cond ssa.Value, holds bool, depth int) map[int]bool {
	if depth > 8 {
		return nil
	}
	r := map[int]bool{}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return m.facts(x.X, !holds, depth+1)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL && holds || x.Op == token.NEQ && !holds {
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k := m.compOf(pr[0]); k != -1 && !dependsOn([]ssa.Value{pr[1]}, m.key, map[ssa.Value]bool{}) && m.d.pureExpr(pr[1]) {
					if k == -2 {
						for i := 0; i < m.comps; i++ {
							r[i] = true
						}
					} else {
						r[k] = true
					}
				}
			}
		}
	case *ssa.Phi:
		var all []map[int]bool
		for i, v := range x.Edges {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && (c.Value.String() == "true") != holds {
				continue
			}
			p := x.Block().Preds[i]
			if x.Block().Dominates(p) {
				return nil
			}
			all = append(all, union(union(m.at(p, depth+1), m.edge(p, x.Block(), depth+1)), m.facts(v, holds, depth+1)))
		}
		return common(all)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !m.d.isPure(g) {
			return nil
		}
		for i, a := range x.Call.Args {
			if stripConv(a) != m.key || i >= len(g.Params) {
				continue
			}
			for j, o := range x.Call.Args {
				if j != i && dependsOn([]ssa.Value{o}, m.key, map[ssa.Value]bool{}) {
					return nil
				}
			}
			n := newKeyFacts(m.d, g.Params[i])
			var all []map[int]bool
			for _, b := range g.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value != nil && (c.Value.String() == "true") != holds {
					continue
				}
				all = append(all, union(n.at(b, depth+1), n.facts(ret.Results[0], holds, depth+1)))
			}
			return common(all)
		}
	}
	return r
}

func common(all []map[int]bool) map[int]bool {
	r := map[int]bool{}
	if len(all) == 0 {
		return r
	}
	for k := range all[0] {
		in := true
		for _, o := range all[1:] {
			in = in && o[k]
		}
		if in {
			r[k] = true
		}
	}
	return r
}

func (d *detA) pureExpr(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		return !d.effect(c)
	}
	return true
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(a)
}

// sorter: function that sorts the list given as parameter i in place.
func (d *detA) sorter(g *ssa.Function, i int, depth int) bool {
	if g.Object() != nil && g.Object().Pkg() != nil {
		p := g.Object().Pkg().Path()
		if p == "sort" && i == 0 || p == "slices" && strings.HasPrefix(g.Name(), "Sort") && i == 0 {
			return true
		}
	}
	if g.Blocks == nil || depth > 3 || i >= len(g.Params) {
		return false
	}
	prm := g.Params[i]
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if h := c.Call.StaticCallee(); h != nil {
					for k, a := range c.Call.Args {
						if stripConv(a) == ssa.Value(prm) && d.sorter(h, k, depth+1) && b == g.Blocks[0] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// follow tracks a map-ordered list; it reports uses that expose the order and returns true when the
// enclosing function's result became order-dependent.
func (d *detA) follow(f *ssa.Function, v ssa.Value, what string) bool {
	newRet := false
	seen := map[ssa.Value]bool{}
	var uses []ssa.Instruction
	var vals []ssa.Value
	var sorts []*ssa.Call
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		vals = append(vals, v)
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Convert:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.UnOp:
				walk(x)
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						walk(al)
						continue
					}
					uses = append(uses, ref)
				}
			case *ssa.IndexAddr:
				uses = append(uses, ref)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap":
					case "append":
						walk(x)
					default:
						uses = append(uses, ref)
					}
					continue
				}
				isSort := false
				if g := x.Call.StaticCallee(); g != nil {
					for k, a := range x.Call.Args {
						if a == v && d.sorter(g, k, 0) {
							isSort = true
						}
					}
				}
				if isSort {
					sorts = append(sorts, x)
				} else {
					uses = append(uses, ref)
				}
			case *ssa.DebugRef:
			default:
				uses = append(uses, ref)
			}
		}
	}
	walk(v)
	def, _ := v.(ssa.Instruction)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if instrDominates(s, u) {
				ok = true
			}
		}
		if ok {
			continue
		}
		switch x := u.(type) {
		case *ssa.Return:
			for i, rv := range x.Results {
				if seen[rv] {
					if d.ret[f] == nil {
						d.ret[f] = map[int]bool{}
					}
					if !d.ret[f][i] {
						d.ret[f][i] = true
						newRet = true
					}
				}
			}
		case *ssa.IndexAddr:
			// element stores while building are fine; element reads expose the order unless the reader is a set builder
			for _, r2 := range *x.Referrers() {
				if ld, ok := r2.(*ssa.UnOp); ok && !d.onlySetUse(ld) {
					d.viol(f, x.Pos(), "%s reads elements of %s without sorting it", shortFn(f), what)
				}
			}
		case *ssa.Call:
			// passing on: only acceptable into order-insensitive consumers
			okc := true
			cs := d.callees(x.Common())
			if len(cs) == 0 {
				okc = false
			}
			for _, g := range cs {
				for k, a := range x.Call.Args {
					if seen[a] && !d.insensitiveParam(g, k, 0) {
						okc = false
					}
				}
				if x.Call.IsInvoke() && seen[x.Call.Value] {
					okc = false
				}
			}
			if !okc {
				d.viol(f, x.Pos(), "%s passes %s on without sorting it", shortFn(f), what)
			}
		default:
			_ = def
			d.viol(f, u.Pos(), "%s keeps %s without sorting it", shortFn(f), what)
		}
	}
	if len(sorts) > 0 {
		d.sani++
	}
	return newRet
}

func (d *detA) onlySetUse(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if stripConv(x.Key) != v || !isConst(x.Value) {
				return false
			}
		case *ssa.Call:
			if !d.setInsert(x, v) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// insensitiveParam: the callee only uses the list as a set.
func (d *detA) insensitiveParam(g *ssa.Function, k int, depth int) bool {
	if g.Blocks == nil || k >= len(g.Params) || depth > 4 {
		return false
	}
	prm := g.Params[k]
	for _, ref := range *prm.Referrers() {
		switch x := ref.(type) {
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if ld, ok := r2.(*ssa.UnOp); ok {
					if !d.onlySetUse(ld) {
						return false
					}
				} else {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" {
					continue
				}
				return false
			}
			h := x.Call.StaticCallee()
			if h == nil {
				return false
			}
			for i, a := range x.Call.Args {
				if stripConv(a) == ssa.Value(prm) && !d.insensitiveParam(h, i, depth+1) && !d.sorter(h, i, 0) {
					return false
				}
			}
		case *ssa.ChangeType:
			for _, r2 := range *x.Referrers() {
				c, ok := r2.(*ssa.Call)
				if !ok {
					return false
				}
				h := c.Call.StaticCallee()
				if h == nil {
					return false
				}
				for i, a := range c.Call.Args {
					if a == ssa.Value(x) && !d.insensitiveParam(h, i, depth+1) {
						return false
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}
