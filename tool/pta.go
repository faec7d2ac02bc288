package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A phase-cloned, field-sensitive, flow-insensitive points-to analysis (Andersen style) over the repo's SSA.
// Phase 0 is package initialisation, phase 1 is everything reachable from the exported API afterwards.

type ptObj struct {
	id    int
	phase int
	desc  string
	typ   types.Type // type of content
	fn    *ssa.Function
	binds bool
	glob  *ssa.Global
	box   bool
	pos   token.Pos
}

type ptLoc struct {
	o *ptObj
	p string
}

type ptSet map[ptLoc]bool

type ptNode struct {
	phase int
	v     interface{} // ssa.Value, or retKey
	p     string
}

type retKey struct {
	fn *ssa.Function
	i  int
}

type ptWrite struct {
	fn   *ssa.Function
	pos  token.Pos
	loc  ptLoc
	what string
}

type PTA struct {
	w       *World
	reg     map[ptNode]ptSet
	mem     map[ptLoc]ptSet
	objs    map[interface{}]*ptObj
	nobj    int
	reach   [2]map[*ssa.Function]bool
	changed bool
	writes  map[string]ptWrite
	stores  int // store-like instructions analysed in phase 1
	calls   int
	callees map[*ssa.Function]map[*ssa.Function]bool // phase-1 call graph
	globalW map[string]bool
}

type objKey struct {
	phase int
	at    interface{}
	tag   string
}

func NewPTA(w *World) *PTA {
	return &PTA{w: w, reg: map[ptNode]ptSet{}, mem: map[ptLoc]ptSet{}, objs: map[interface{}]*ptObj{},
		reach:  [2]map[*ssa.Function]bool{{}, {}},
		writes: map[string]ptWrite{}, callees: map[*ssa.Function]map[*ssa.Function]bool{}}
}

func (a *PTA) obj(k objKey, t types.Type, desc string, pos token.Pos) *ptObj {
	if o, ok := a.objs[k]; ok {
		return o
	}
	a.nobj++
	o := &ptObj{id: a.nobj, phase: k.phase, desc: desc, typ: t, pos: pos}
	a.objs[k] = o
	return o
}

func ptrLike(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// leaves lists the paths of pointer-like components of a value of type t.
func leaves(t types.Type, p string, out *[]string) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leaves(u.Field(i).Type(), p+"."+itoa(i), out)
		}
	case *types.Array:
		leaves(u.Elem(), p+"[]", out)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			leaves(u.At(i).Type(), p+"#"+itoa(i), out)
		}
	default:
		if ptrLike(t) {
			*out = append(*out, p)
		}
	}
}

func (a *PTA) addReg(n ptNode, s ptSet) {
	if len(s) == 0 {
		return
	}
	d := a.reg[n]
	if d == nil {
		d = ptSet{}
		a.reg[n] = d
	}
	for l := range s {
		if !d[l] {
			d[l] = true
			a.changed = true
		}
	}
}

func (a *PTA) addMem(l ptLoc, s ptSet) {
	if len(s) == 0 {
		return
	}
	d := a.mem[l]
	if d == nil {
		d = ptSet{}
		a.mem[l] = d
	}
	for x := range s {
		if !d[x] {
			d[x] = true
			a.changed = true
		}
	}
}

// val returns the points-to set of component p of v.
func (a *PTA) val(ph int, v ssa.Value, p string) ptSet {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		o := a.obj(objKey{0, x, ""}, x.Type().(*types.Pointer).Elem(), "package variable "+x.Name(), x.Pos())
		o.glob = x
		return ptSet{{o, ""}: true}
	case *ssa.Function:
		o := a.obj(objKey{0, x, "fn"}, x.Type(), "function "+x.Name(), x.Pos())
		o.fn = x
		return ptSet{{o, ""}: true}
	}
	return a.reg[ptNode{ph, v, p}]
}

func (a *PTA) copyVal(ph int, dst ssa.Value, src ssa.Value) {
	var ls []string
	leaves(src.Type(), "", &ls)
	for _, p := range ls {
		a.addReg(ptNode{ph, dst, p}, a.val(ph, src, p))
	}
}

func (a *PTA) loadTo(n func(p string) ptNode, t types.Type, locs ptSet) {
	var ls []string
	leaves(t, "", &ls)
	for l := range locs {
		for _, p := range ls {
			a.addReg(n(p), a.mem[ptLoc{l.o, l.p + p}])
		}
	}
}

func (a *PTA) storeFrom(ph int, fn *ssa.Function, pos token.Pos, locs ptSet, src ssa.Value, srcPath string, t types.Type, what string) {
	var ls []string
	leaves(t, "", &ls)
	for l := range locs {
		a.write(ph, fn, pos, l, what)
		for _, p := range ls {
			a.addMem(ptLoc{l.o, l.p + p}, a.val(ph, src, srcPath+p))
		}
	}
}

func (a *PTA) write(ph int, fn *ssa.Function, pos token.Pos, l ptLoc, what string) {
	if ph != 1 || l.o.phase != 0 || l.o.fn != nil {
		return
	}
	k := fn.String() + "|" + a.w.posStr(pos) + "|" + l.o.desc
	if _, ok := a.writes[k]; !ok {
		a.writes[k] = ptWrite{fn, pos, l, what}
	}
}

func (a *PTA) enter(ph int, fn *ssa.Function) {
	if fn.Blocks == nil {
		return
	}
	if !a.reach[ph][fn] {
		a.reach[ph][fn] = true
		a.changed = true
	}
}

func (a *PTA) inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return false
	}
	_, ok := a.w.SSA[p.Pkg.Path()]
	return ok
}

// Solve runs to the fixpoint.
func (a *PTA) Solve(roots []*ssa.Function) {
	for _, p := range a.w.Pkgs {
		sp := a.w.SSA[p.PkgPath]
		if f := sp.Func("init"); f != nil {
			a.enter(0, f)
		}
	}
	for _, r := range roots {
		a.enter(1, r)
	}
	for a.changed = true; a.changed; {
		a.changed = false
		a.stores, a.calls = 0, 0
		for ph := 0; ph < 2; ph++ {
			var fs []*ssa.Function
			for f := range a.reach[ph] {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
			for _, f := range fs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						a.instr(ph, f, in)
					}
				}
			}
		}
	}
}

func (a *PTA) instr(ph int, fn *ssa.Function, in ssa.Instruction) {
	one := func(v ssa.Value, s ptSet) { a.addReg(ptNode{ph, v, ""}, s) }
	newObj := func(v ssa.Value, t types.Type, what string) *ptObj {
		return a.obj(objKey{ph, v, what}, t, what+" created in "+shortFn(fn), in.Pos())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		one(x, ptSet{{newObj(x, x.Type().(*types.Pointer).Elem(), "variable"), ""}: true})
	case *ssa.MakeMap:
		one(x, ptSet{{newObj(x, x.Type(), "map"), ""}: true})
	case *ssa.MakeSlice:
		one(x, ptSet{{newObj(x, x.Type(), "slice"), "[]"}: true})
	case *ssa.MakeClosure:
		o := newObj(x, x.Type(), "closure")
		o.fn = x.Fn.(*ssa.Function)
		one(x, ptSet{{o, ""}: true})
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			var ls []string
			leaves(b.Type(), "", &ls)
			for _, p := range ls {
				a.addReg(ptNode{ph, f.FreeVars[i], p}, a.val(ph, b, p))
			}
		}
	case *ssa.MakeInterface:
		o := newObj(x, x.X.Type(), "box")
		o.box = true
		var ls []string
		leaves(x.X.Type(), "", &ls)
		for _, p := range ls {
			a.addMem(ptLoc{o, p}, a.val(ph, x.X, p))
		}
		one(x, ptSet{{o, ""}: true})
	case *ssa.FieldAddr:
		for l := range a.val(ph, x.X, "") {
			one(x, ptSet{{l.o, l.p + "." + itoa(x.Field)}: true})
		}
	case *ssa.IndexAddr:
		if _, isPtr := under(x.X.Type()).(*types.Pointer); isPtr {
			for l := range a.val(ph, x.X, "") {
				one(x, ptSet{{l.o, l.p + "[]"}: true})
			}
		} else {
			one(x, a.val(ph, x.X, ""))
		}
	case *ssa.Field:
		var ls []string
		leaves(x.Type(), "", &ls)
		for _, p := range ls {
			a.addReg(ptNode{ph, x, p}, a.val(ph, x.X, "."+itoa(x.Field)+p))
		}
	case *ssa.Index:
		var ls []string
		leaves(x.Type(), "", &ls)
		for _, p := range ls {
			a.addReg(ptNode{ph, x, p}, a.val(ph, x.X, "[]"+p))
		}
	case *ssa.Slice:
		if _, isPtr := under(x.X.Type()).(*types.Pointer); isPtr {
			for l := range a.val(ph, x.X, "") {
				one(x, ptSet{{l.o, l.p + "[]"}: true})
			}
		} else {
			one(x, a.val(ph, x.X, ""))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.loadTo(func(p string) ptNode { return ptNode{ph, x, p} }, x.Type(), a.val(ph, x.X, ""))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(ph, x, e)
		}
	case *ssa.ChangeType:
		a.copyVal(ph, x, x.X)
	case *ssa.ChangeInterface:
		a.copyVal(ph, x, x.X)
	case *ssa.Convert:
		if ptrLike(x.Type()) && ptrLike(x.X.Type()) {
			a.copyVal(ph, x, x.X)
		} else if ptrLike(x.Type()) {
			one(x, ptSet{{newObj(x, x.Type(), "conversion"), "[]"}: true})
		}
	case *ssa.SliceToArrayPointer:
		one(x, a.val(ph, x.X, ""))
	case *ssa.Extract:
		var ls []string
		leaves(x.Type(), "", &ls)
		for _, p := range ls {
			a.addReg(ptNode{ph, x, p}, a.reg[ptNode{ph, x.Tuple, "#" + itoa(x.Index) + p}])
		}
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		for l := range a.val(ph, x.X, "") {
			if !l.o.box {
				a.addReg(ptNode{ph, x, pre}, ptSet{l: true})
				continue
			}
			if it, ok := under(x.AssertedType).(*types.Interface); ok {
				if types.Implements(l.o.typ, it) {
					a.addReg(ptNode{ph, x, pre}, ptSet{l: true})
				}
			} else if types.Identical(l.o.typ, x.AssertedType) {
				var ls []string
				leaves(x.AssertedType, "", &ls)
				for _, p := range ls {
					a.addReg(ptNode{ph, x, pre + p}, a.mem[ptLoc{l.o, p}])
				}
			}
		}
	case *ssa.Lookup:
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			pre := ""
			if x.CommaOk {
				pre = "#0"
			}
			var ls []string
			leaves(mt.Elem(), "", &ls)
			for l := range a.val(ph, x.X, "") {
				for _, p := range ls {
					a.addReg(ptNode{ph, x, pre + p}, a.mem[ptLoc{l.o, l.p + "{v}" + p}])
				}
			}
		}
	case *ssa.Range:
		one(x, a.val(ph, x.X, ""))
	case *ssa.Next:
		if !x.IsString {
			mt := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
			var lk, lv []string
			leaves(mt.Key(), "", &lk)
			leaves(mt.Elem(), "", &lv)
			for l := range a.val(ph, x.Iter, "") {
				for _, p := range lk {
					a.addReg(ptNode{ph, x, "#1" + p}, a.mem[ptLoc{l.o, l.p + "{k}" + p}])
				}
				for _, p := range lv {
					a.addReg(ptNode{ph, x, "#2" + p}, a.mem[ptLoc{l.o, l.p + "{v}" + p}])
				}
			}
		}
	case *ssa.Store:
		if ph == 1 {
			a.stores++
		}
		a.storeFrom(ph, fn, x.Pos(), a.val(ph, x.Addr, ""), x.Val, "", x.Val.Type(), "assigns to")
	case *ssa.MapUpdate:
		if ph == 1 {
			a.stores++
		}
		for l := range a.val(ph, x.Map, "") {
			a.write(ph, fn, x.Pos(), l, "updates")
			var lk, lv []string
			leaves(x.Key.Type(), "", &lk)
			leaves(x.Value.Type(), "", &lv)
			for _, p := range lk {
				a.addMem(ptLoc{l.o, l.p + "{k}" + p}, a.val(ph, x.Key, p))
			}
			for _, p := range lv {
				a.addMem(ptLoc{l.o, l.p + "{v}" + p}, a.val(ph, x.Value, p))
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			var ls []string
			leaves(r.Type(), "", &ls)
			for _, p := range ls {
				a.addReg(ptNode{ph, retKey{fn, i}, p}, a.val(ph, r, p))
			}
		}
	case *ssa.Call:
		a.call(ph, fn, x, x.Common(), x)
	case *ssa.Defer:
		a.call(ph, fn, x, x.Common(), nil)
	case *ssa.Go:
		a.call(ph, fn, x, x.Common(), nil)
	}
}

func (a *PTA) bindCall(ph int, caller, f *ssa.Function, args []func(p string) ptSet, res ssa.Value) {
	if ph == 1 {
		if a.callees[caller] == nil {
			a.callees[caller] = map[*ssa.Function]bool{}
		}
		a.callees[caller][f] = true
	}
	a.enter(ph, f)
	for i, q := range f.Params {
		if i >= len(args) {
			break
		}
		var ls []string
		leaves(q.Type(), "", &ls)
		for _, p := range ls {
			a.addReg(ptNode{ph, q, p}, args[i](p))
		}
	}
	if res == nil {
		return
	}
	n := f.Signature.Results().Len()
	for i := 0; i < n; i++ {
		var ls []string
		leaves(f.Signature.Results().At(i).Type(), "", &ls)
		pre := ""
		if n > 1 {
			pre = "#" + itoa(i)
		}
		for _, p := range ls {
			a.addReg(ptNode{ph, res, pre + p}, a.reg[ptNode{ph, retKey{f, i}, p}])
		}
	}
}

var pureExt = map[string]bool{"fmt": true, "strings": true, "errors": true, "github.com/pkg/errors": true, "unicode": true, "os": true,
	"io": true, "io/ioutil": true, "log": true, "strconv": true, "bytes": true, "path": true, "path/filepath": true,
	"github.com/philopon/go-toposort": true, "golang.org/x/text/transform": true, "golang.org/x/text/encoding": true,
	"golang.org/x/text/encoding/japanese": true, "unicode/utf8": true, "reflect": true, "math": true}

func (a *PTA) call(ph int, fn *ssa.Function, site ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	if ph == 1 {
		a.calls++
	}
	argf := func(v ssa.Value) func(p string) ptSet {
		return func(p string) ptSet { return a.val(ph, v, p) }
	}
	var args []func(p string) ptSet
	for _, x := range c.Args {
		args = append(args, argf(x))
	}
	if c.IsInvoke() {
		for l := range a.val(ph, c.Value, "") {
			if !l.o.box {
				continue
			}
			sel := a.w.Prog.MethodSets.MethodSet(l.o.typ).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			f := a.w.Prog.MethodValue(sel)
			if f == nil {
				continue
			}
			o := l.o
			recv := func(p string) ptSet { return a.mem[ptLoc{o, p}] }
			a.target(ph, fn, f, append([]func(p string) ptSet{recv}, args...), res, site, c, o.typ)
		}
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		a.builtin(ph, fn, site, v.Name(), c, res)
		return
	case *ssa.Function:
		a.target(ph, fn, v, args, res, site, c, nil)
		return
	}
	for l := range a.val(ph, c.Value, "") {
		if l.o.fn != nil {
			a.target(ph, fn, l.o.fn, args, res, site, c, nil)
		}
	}
}

func (a *PTA) target(ph int, caller, f *ssa.Function, args []func(p string) ptSet, res ssa.Value, site ssa.Instruction, c *ssa.CallCommon, _ types.Type) {
	if f.Blocks != nil && (a.inRepo(f) || f.Synthetic != "") {
		a.bindCall(ph, caller, f, args, res)
		return
	}
	if f.Blocks != nil && f.Name() == "init" {
		a.enter(ph, f)
		return
	}
	// external code
	pkg := ""
	if p := f.Object(); p != nil && p.Pkg() != nil {
		pkg = p.Pkg().Path()
	}
	if pureExt[pkg] {
		// callbacks run in the caller's phase
		for _, ar := range args {
			for l := range ar("") {
				if l.o.fn != nil && a.inRepo(l.o.fn) {
					a.enter(ph, l.o.fn)
				}
			}
		}
		return
	}
	if ph == 1 {
		for i, ar := range args {
			s := ar("")
			for l := range s {
				if l.o.fn != nil {
					if a.inRepo(l.o.fn) {
						a.enter(ph, l.o.fn)
					}
					continue
				}
				_ = i
				tgt := l
				if l.o.box {
					for m := range a.mem[ptLoc{l.o, ""}] {
						a.write(ph, caller, site.Pos(), m, "passes to "+pkg+"."+f.Name())
					}
					continue
				}
				a.write(ph, caller, site.Pos(), tgt, "passes to "+pkg+"."+f.Name())
			}
		}
	}
}

func (a *PTA) builtin(ph int, fn *ssa.Function, site ssa.Instruction, name string, c *ssa.CallCommon, res ssa.Value) {
	switch name {
	case "append":
		st, ok := under(c.Args[0].Type()).(*types.Slice)
		if !ok || res == nil {
			return
		}
		o := a.obj(objKey{ph, site, "append"}, c.Args[0].Type(), "slice grown in "+shortFn(fn), site.Pos())
		out := ptSet{{o, "[]"}: true}
		var ls []string
		leaves(st.Elem(), "", &ls)
		_, resliced := c.Args[0].(*ssa.Slice)
		for l := range a.val(ph, c.Args[0], "") {
			if l.o.phase == ph || ph == 0 {
				out[l] = true
			} else if resliced {
				a.write(ph, fn, site.Pos(), l, "appends into")
			}
			for _, p := range ls {
				a.addMem(ptLoc{o, "[]" + p}, a.mem[ptLoc{l.o, l.p + p}])
			}
		}
		if len(c.Args) > 1 {
			for l := range a.val(ph, c.Args[1], "") {
				for d := range out {
					for _, p := range ls {
						a.addMem(ptLoc{d.o, d.p + p}, a.mem[ptLoc{l.o, l.p + p}])
					}
				}
			}
		}
		a.addReg(ptNode{ph, res, ""}, out)
	case "copy":
		for l := range a.val(ph, c.Args[0], "") {
			a.write(ph, fn, site.Pos(), l, "copies into")
			if st, ok := under(c.Args[0].Type()).(*types.Slice); ok {
				var ls []string
				leaves(st.Elem(), "", &ls)
				for m := range a.val(ph, c.Args[1], "") {
					for _, p := range ls {
						a.addMem(ptLoc{l.o, l.p + p}, a.mem[ptLoc{m.o, m.p + p}])
					}
				}
			}
		}
	case "delete", "clear":
		for l := range a.val(ph, c.Args[0], "") {
			a.write(ph, fn, site.Pos(), l, name+"s from")
		}
	}
}

// apiRoots lists the exported functions and methods of the repo's packages except the logger.
func (w *World) apiRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.repoFuncs() {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		p := fnPkg(f).Pkg.Path()
		if strings.HasSuffix(p, "/log") {
			continue
		}
		r = append(r, f)
	}
	return r
}

func init() { checks["C21"] = checkC21 }

func checkC21(w *World, tier string) *Report {
	r := newReport("C21", "Phase-cloned, field-sensitive points-to analysis of every function reachable from the exported API of parser, ast, token, runes and ext. Rule: no store, map update, delete, copy, re-sliced append or call into unmodelled external code made after package initialisation may address a package-level variable or an object created during package initialisation (the logger variable may be set by callers only). Also no goroutine, channel or sync use in the library.")
	a := NewPTA(w)
	roots := w.apiRoots()
	a.Solve(roots)
	for _, wr := range a.writes {
		r.add("global-write", shortFn(wr.fn)+"/"+wr.loc.o.desc, w.posStr(wr.pos), "%s %s %s, which is shared by all parses", shortFn(wr.fn), wr.what, wr.loc.o.desc)
	}
	nconc := 0
	for f := range a.reach[1] {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					r.add("goroutine", shortFn(f), w.posStr(x.Pos()), "%s starts a goroutine: parses are no longer confined to their caller", shortFn(f))
				case *ssa.Send, *ssa.Select, *ssa.MakeChan:
					nconc++
				}
			}
		}
	}
	globals := 0
	for _, p := range w.Pkgs {
		for _, m := range w.SSA[p.PkgPath].Members {
			if _, ok := m.(*ssa.Global); ok {
				globals++
			}
		}
	}
	r.atLeast("package_variables", globals, 10)
	r.atLeast("api_roots", len(roots), 250)
	r.atLeast("functions_reachable_after_init", len(a.reach[1]), 300)
	r.atLeast("stores_analysed", a.stores, 700)
	r.Coverage["call_sites_analysed"] = a.calls
	r.Coverage["abstract_objects"] = a.nobj
	r.Assumptions = []string{"standard library and third-party packages fmt, strings, errors, io, os, log, unicode, x/text, go-toposort do not modify the arguments they are given", "a package-level slice literal has no spare capacity, so appending to it copies", "callers do not mutate exported package variables themselves"}
	return r
}
