package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v Val) []Res { return []Res{{st: st, v: v}} }

func (e *Eng) unsupported(st *State, ins ssa.Instruction, format string, a ...interface{}) {
	e.event(st, "unsupported", instrPos(ins), format, a...)
}

func (e *Eng) nilPanic(st *State, ins ssa.Instruction, what string) []Res {
	e.panicEvent(st, ins, "nil dereference ("+what+")")
	return []Res{{st: st, panic: "nil"}}
}

func isMany(v Val) bool { o, ok := v.(VOpq); return ok && o.K == "many" && o.Path == "" }

// instr evaluates one non-control instruction.
func (e *Eng) instr(st *State, ins ssa.Instruction) []Res {
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return one(st, VPtr{O: e.newObj(st, zero(t))})
	case *ssa.BinOp:
		return e.binop(st, x)
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.Call:
		return e.callInstr(st, x, &x.Call)
	case *ssa.Defer:
		fv, args, rs, ok := e.resolveCall(st, &x.Call, x)
		if !ok {
			return rs
		}
		f := *st.top()
		f.defers = append(append([]deferred{}, f.defers...), deferred{fn: fv, args: args, site: x})
		f.shared = true
		st.frames[len(st.frames)-1] = &f
		return one(st, nil)
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		e.unsupported(st, ins, "concurrency construct in %s", shortFn(ins.Parent()))
		return one(st, VUnk{"chan"})
	case *ssa.ChangeInterface:
		return one(st, e.get(st, x.X))
	case *ssa.ChangeType:
		return one(st, e.get(st, x.X))
	case *ssa.Convert:
		return e.convert(st, x)
	case *ssa.MultiConvert:
		return one(st, e.get(st, x.X))
	case *ssa.MakeInterface:
		v := e.get(st, x.X)
		return one(st, e.mkIface(st, x.X.Type(), v))
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i, y := range x.Bindings {
			b[i] = e.get(st, y)
		}
		return one(st, VFn{F: x.Fn.(*ssa.Function), B: b})
	case *ssa.MakeMap:
		return one(st, VMap{O: e.newObj(st, &VMapC{})})
	case *ssa.MakeSlice:
		n := 0
		switch l := e.get(st, x.Len).(type) {
		case VInt:
			n = int(l.N)
			if n < 0 {
				e.panicEvent(st, ins, "makeslice: len out of range")
				return []Res{{st: st, panic: "makeslice"}}
			}
		case VLen:
			n = l.N + l.Off
			if n < 0 {
				n = 0
			}
		default:
			// unknown length: a list with one summary element
			el := x.Type().Underlying().(*types.Slice).Elem()
			o := e.newObj(st, &VArr{E: []Val{VOpq{K: "many", ID: st.fresh(), T: el}}})
			return one(st, VSlice{O: o, Lo: 0, Hi: 1})
		}
		if n > 4096 {
			e.unsupported(st, ins, "large slice")
			return one(st, VUnk{"slice"})
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		E := make([]Val, n)
		for i := range E {
			E[i] = zero(el)
		}
		o := e.newObj(st, &VArr{E: E})
		return one(st, VSlice{O: o, Lo: 0, Hi: n})
	case *ssa.Extract:
		t := e.get(st, x.Tuple)
		if tt, ok := t.(VTuple); ok {
			return one(st, tt[x.Index])
		}
		return one(st, e.unkOf(st, x.Type(), "extract"))
	case *ssa.Field:
		v := e.get(st, x.X)
		switch y := v.(type) {
		case *VStruct:
			return one(st, y.F[x.Field])
		case VOpq:
			return one(st, e.opqField(y, x.X.Type(), x.Field, x.Type()))
		}
		return one(st, e.unkOf(st, x.Type(), "field"))
	case *ssa.FieldAddr:
		v := e.get(st, x.X)
		switch y := v.(type) {
		case VPtr:
			return one(st, VPtr{O: y.O, P: y.P + "." + itoa(x.Field)})
		case VNil:
			return e.nilPanic(st, ins, "field of nil "+types.TypeString(x.X.Type(), shortQual))
		case VOpq:
			if e.factNil(st, y) == 1 {
				return e.nilPanic(st, ins, "field of nil "+types.TypeString(x.X.Type(), shortQual))
			}
			if e.mayNil(st, y) {
				return e.nilPanic(st, ins, "field of possibly missing "+types.TypeString(x.X.Type(), shortQual))
			}
			f := e.opqField(y, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field, x.Type().Underlying().(*types.Pointer).Elem())
			f.A = true
			return one(st, f)
		case VUnk:
			return one(st, VUnk{"fieldaddr"})
		}
		e.unsupported(st, ins, "field address of %T", v)
		return one(st, VUnk{"fieldaddr"})
	case *ssa.Index:
		return e.index(st, x, x.X, x.Index)
	case *ssa.IndexAddr:
		return e.indexAddr(st, x)
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MapUpdate:
		m := e.get(st, x.Map)
		k, v := e.get(st, x.Key), e.get(st, x.Value)
		switch mm := m.(type) {
		case VNil:
			e.panicEvent(st, ins, "assignment to entry in nil map")
			return []Res{{st: st, panic: "nilmap"}}
		case VMap:
			mc, ok := e.content(st, mm.O).(*VMapC)
			if _, ck := constKey(k); ok && ck {
				if mm.O <= e.staticMax && !e.initMode {
					e.event(st, "globalwrite", instrPos(x), "%s writes package-level map", shortFn(x.Parent()))
				}
				e.setContent(st, mm.O, mc.set(k, v))
				return one(st, nil)
			}
			if e.onMapUpdate != nil && e.onMapUpdate(e, st, mm, k, v, x) {
				return one(st, nil)
			}
			e.unsupported(st, ins, "map update with symbolic key in %s", shortFn(ins.Parent()))
			return one(st, nil)
		case VOpq:
			e.event(st, "opqstore", instrPos(x), "%s writes map of an opaque value", shortFn(x.Parent()))
			return one(st, nil)
		}
		return one(st, nil)
	case *ssa.Range:
		v := e.get(st, x.X)
		switch y := v.(type) {
		case VMap:
			return one(st, VIter{O: y.O, Pos: 0})
		case VNil:
			return one(st, VIter{O: 0, Pos: 0})
		case VStr:
			rs := []rune(y.S)
			var el []Val
			for _, r := range rs {
				el = append(el, VInt{int64(r)})
			}
			o := e.newObj(st, &VArr{E: el})
			return one(st, VIter{O: o, Pos: 0})
		}
		e.unsupported(st, ins, "range over %T in %s", v, shortFn(ins.Parent()))
		return one(st, VUnk{"range"})
	case *ssa.Next:
		return e.nextIter(st, x)
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.SliceToArrayPointer:
		e.unsupported(st, ins, "slice to array")
		return one(st, VUnk{"s2a"})
	case *ssa.Store:
		a := e.get(st, x.Addr)
		v := e.get(st, x.Val)
		switch p := a.(type) {
		case VPtr:
			if !e.store(st, p, v, x) {
				e.unsupported(st, ins, "store into unknown content in %s", shortFn(ins.Parent()))
			}
			return one(st, nil)
		case VNil:
			return e.nilPanic(st, ins, "store")
		case VOpq:
			if e.onOpqStore != nil && e.onOpqStore(e, st, p, v, x) {
				return one(st, nil)
			}
			e.event(st, "opqstore", instrPos(x), "%s writes field %s of an already finished node", shortFn(x.Parent()), p.Path)
			return one(st, nil)
		}
		return one(st, nil)
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	}
	e.unsupported(st, ins, "instruction %T", ins)
	if v, ok := ins.(ssa.Value); ok {
		return one(st, e.unkOf(st, v.Type(), "instr"))
	}
	return one(st, nil)
}

func shortQual(p *types.Package) string { return p.Name() }

// unkOf builds an unknown value of type t.
func (e *Eng) unkOf(st *State, t types.Type, tag string) Val {
	if tu, ok := t.(*types.Tuple); ok {
		r := make(VTuple, tu.Len())
		for i := range r {
			r[i] = e.unkOf(st, tu.At(i).Type(), tag)
		}
		return r
	}
	switch under(t).(type) {
	case *types.Basic:
		return VUnk{tag}
	}
	return VOpq{K: "unk", ID: st.fresh(), T: t}
}

func (e *Eng) opqField(o VOpq, st types.Type, f int, t types.Type) VOpq {
	s := under(st).(*types.Struct)
	return VOpq{K: o.K, ID: o.ID, Path: o.Path + "." + s.Field(f).Name(), T: t}
}

func (e *Eng) mkIface(st *State, t types.Type, v Val) Val {
	switch y := v.(type) {
	case VErr:
		return y
	case VOpq:
		if _, ok := under(t).(*types.Basic); !ok {
			// the dynamic type is known from here on
			if _, isI := under(t).(*types.Interface); !isI {
				return VIface{T: t, V: v}
			}
		}
		return VIface{T: t, V: v}
	}
	return VIface{T: t, V: v}
}

// ---------- facts about opaque values ----------

// factNil: 1 nil, -1 not nil, 0 unknown.
func (e *Eng) factNil(st *State, o VOpq) int {
	switch st.facts[factKey{o.K, o.ID, o.Path + "?nil"}] {
	case "T":
		return 1
	case "F":
		return -1
	}
	return 0
}

func (e *Eng) setFact(st *State, o VOpq, what, v string) {
	st.facts[factKey{o.K, o.ID, o.Path + what}] = v
}

// mayNil: dereferencing o may hit nil according to the client's knowledge.
func (e *Eng) mayNil(st *State, o VOpq) bool {
	if e.nilPolicy == nil || o.A {
		return false
	}
	if e.factNil(st, o) == -1 {
		return false
	}
	return e.nilPolicy(e, st, o)
}

// forkNil forks on o == nil.
func (e *Eng) forkNil(st *State, o VOpq) (isNil, notNil *State) {
	switch e.factNil(st, o) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	if e.neverNil != nil && e.neverNil(e, st, o) {
		return nil, st
	}
	if e.forkOpqNil != nil {
		if a, b, ok := e.forkOpqNil(e, st, o); ok {
			return a, b
		}
	}
	n := st.clone()
	e.setFact(n, o, "?nil", "T")
	e.setFact(st, o, "?nil", "F")
	if o.K == "decl" && o.Path != "" || o.K == "member" || o.K == "declx" {
		n.addSem("undeclared")
	}
	return n, st
}

// forkTruth forks on an undetermined boolean value.
func (e *Eng) forkTruth(st *State, v Val) (yes, no *State) {
	switch x := v.(type) {
	case VBool:
		if x.B {
			return st, nil
		}
		return nil, st
	case VOpq:
		k := factKey{x.K, x.ID, x.Path + "?"}
		switch st.facts[k] {
		case "T":
			return st, nil
		case "F":
			return nil, st
		}
		n := st.clone()
		st.facts[k] = "T"
		n.facts[k] = "F"
		return st, n
	}
	n := st.clone()
	return st, n
}

// ---------- operators ----------

func (e *Eng) unop(st *State, x *ssa.UnOp) []Res {
	v := e.get(st, x.X)
	switch x.Op {
	case token.MUL:
		switch p := v.(type) {
		case VPtr:
			r, ok := e.load(st, p)
			if !ok {
				if c, isOpq := e.content(st, p.O).(VOpq); isOpq {
					return one(st, VOpq{K: c.K, ID: c.ID, Path: c.Path + p.P, T: x.Type()})
				}
				e.unsupported(st, x, "load from unknown content in %s", shortFn(x.Parent()))
				return one(st, e.unkOf(st, x.Type(), "load"))
			}
			return one(st, r)
		case VNil:
			return e.nilPanic(st, x, "load through nil "+types.TypeString(x.X.Type(), shortQual))
		case VOpq:
			if p.A {
				if e.onOpqLoad != nil {
					if r, ok := e.onOpqLoad(e, st, p, x); ok {
						return one(st, r)
					}
				}
				return one(st, VOpq{K: p.K, ID: p.ID, Path: p.Path, T: x.Type()})
			}
			if e.factNil(st, p) == 1 {
				return e.nilPanic(st, x, "load through nil "+types.TypeString(x.X.Type(), shortQual))
			}
			return one(st, VOpq{K: p.K, ID: p.ID, Path: p.Path + ".*", T: x.Type()})
		case VTokBuf:
			return one(st, v)
		case VLexCell:
			return one(st, VRune{p.S})
		}
		return one(st, e.unkOf(st, x.Type(), "load"))
	case token.NOT:
		if b, ok := v.(VBool); ok {
			return one(st, VBool{!b.B})
		}
		y, n := e.forkTruth(st, v)
		return boolRes(n, y)
	case token.SUB:
		if i, ok := v.(VInt); ok {
			return one(st, VInt{-i.N})
		}
		return one(st, VUnk{"neg"})
	case token.XOR:
		if i, ok := v.(VInt); ok {
			return one(st, VInt{^i.N})
		}
		return one(st, VUnk{"xor"})
	}
	e.unsupported(st, x, "unary %s", x.Op)
	return one(st, e.unkOf(st, x.Type(), "unop"))
}

func (e *Eng) binop(st *State, x *ssa.BinOp) []Res {
	a, b := e.get(st, x.X), e.get(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		rs := e.equal(st, a, b, x)
		if x.Op == token.NEQ {
			for i := range rs {
				if bv, ok := rs[i].v.(VBool); ok {
					rs[i].v = VBool{!bv.B}
				}
			}
		}
		return rs
	}
	ai, aok := a.(VInt)
	bi, bok := b.(VInt)
	if aok && bok {
		switch x.Op {
		case token.ADD:
			return one(st, VInt{ai.N + bi.N})
		case token.SUB:
			return one(st, VInt{ai.N - bi.N})
		case token.MUL:
			return one(st, VInt{ai.N * bi.N})
		case token.QUO:
			if bi.N == 0 {
				e.panicEvent(st, x, "division by zero")
				return []Res{{st: st, panic: "div"}}
			}
			return one(st, VInt{ai.N / bi.N})
		case token.REM:
			if bi.N == 0 {
				e.panicEvent(st, x, "division by zero")
				return []Res{{st: st, panic: "div"}}
			}
			return one(st, VInt{ai.N % bi.N})
		case token.AND:
			return one(st, VInt{ai.N & bi.N})
		case token.OR:
			return one(st, VInt{ai.N | bi.N})
		case token.XOR:
			return one(st, VInt{ai.N ^ bi.N})
		case token.SHL:
			return one(st, VInt{ai.N << uint(bi.N)})
		case token.SHR:
			return one(st, VInt{ai.N >> uint(bi.N)})
		case token.AND_NOT:
			return one(st, VInt{ai.N &^ bi.N})
		case token.LSS:
			return one(st, VBool{ai.N < bi.N})
		case token.LEQ:
			return one(st, VBool{ai.N <= bi.N})
		case token.GTR:
			return one(st, VBool{ai.N > bi.N})
		case token.GEQ:
			return one(st, VBool{ai.N >= bi.N})
		}
	}
	as, asok := a.(VStr)
	bs, bsok := b.(VStr)
	if asok && bsok {
		switch x.Op {
		case token.ADD:
			return one(st, VStr{as.S + bs.S})
		case token.LSS:
			return one(st, VBool{as.S < bs.S})
		case token.LEQ:
			return one(st, VBool{as.S <= bs.S})
		case token.GTR:
			return one(st, VBool{as.S > bs.S})
		case token.GEQ:
			return one(st, VBool{as.S >= bs.S})
		}
	}
	if t, ok := under(x.X.Type()).(*types.Basic); ok && t.Info()&types.IsString != 0 && x.Op == token.ADD {
		return one(st, textJoin(a, b))
	}
	if ab, ok := a.(VBool); ok {
		if bb, ok := b.(VBool); ok {
			switch x.Op {
			case token.AND:
				return one(st, VBool{ab.B && bb.B})
			case token.OR:
				return one(st, VBool{ab.B || bb.B})
			}
		}
	}
	// lengths of summarised lists
	if l, ok := a.(VLen); ok {
		if bok {
			switch x.Op {
			case token.ADD:
				return one(st, VLen{l.N, l.Off + int(bi.N)})
			case token.SUB:
				return one(st, VLen{l.N, l.Off - int(bi.N)})
			}
			return e.cmpLen(st, x.Op, l, bi.N, x.Y)
		}
	}
	if l, ok := b.(VLen); ok && aok {
		op := x.Op
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
		return e.cmpLen(st, op, l, ai.N, x.X)
	}
	if e.symBinop != nil {
		if r := e.symBinop(e, st, x.Op, a, b, x); r != nil {
			return r
		}
	}
	if t, ok := under(x.Type()).(*types.Basic); ok && t.Info()&types.IsBoolean != 0 {
		return forkUnknown(st)
	}
	return one(st, VUnk{"binop"})
}

// cmpLen compares a summarised length with n. Against a constant the real length (at least the number of
// entries) is meant; against a running index the entries are visited once each.
func (e *Eng) cmpLen(st *State, op token.Token, l VLen, n int64, other ssa.Value) []Res {
	entries := int64(l.N + l.Off)
	if _, isC := other.(*ssa.Const); isC {
		// real length is any number >= entries
		switch op {
		case token.GTR:
			if entries > n {
				return one(st, VBool{true})
			}
		case token.GEQ:
			if entries >= n {
				return one(st, VBool{true})
			}
		case token.LSS:
			if entries >= n {
				return one(st, VBool{false})
			}
		case token.LEQ:
			if entries > n {
				return one(st, VBool{false})
			}
		case token.EQL:
			if entries > n {
				return one(st, VBool{false})
			}
		case token.NEQ:
			if entries > n {
				return one(st, VBool{true})
			}
		}
		return forkUnknown(st)
	}
	switch op {
	case token.GTR:
		return one(st, VBool{entries > n})
	case token.GEQ:
		return one(st, VBool{entries >= n})
	case token.LSS:
		return one(st, VBool{entries < n})
	case token.LEQ:
		return one(st, VBool{entries <= n})
	case token.EQL:
		return one(st, VBool{entries == n})
	case token.NEQ:
		return one(st, VBool{entries != n})
	}
	return forkUnknown(st)
}

func (e *Eng) equal(st *State, a, b Val, site ssa.Instruction) []Res {
	// order: put nil / concrete second
	switch a.(type) {
	case VNil, VInt, VStr, VBool:
		a, b = b, a
	}
	if l, ok := a.(VLen); ok {
		if n, ok := b.(VInt); ok {
			var other ssa.Value
			if bo, ok := site.(*ssa.BinOp); ok {
				other = bo.Y
				if _, c := bo.X.(*ssa.Const); c {
					other = bo.X
				}
			}
			return e.cmpLen(st, token.EQL, l, n.N, other)
		}
	}
	switch y := b.(type) {
	case VNil:
		switch x := a.(type) {
		case VNil:
			return one(st, VBool{true})
		case VOpq:
			if x.A {
				return one(st, VBool{false})
			}
			yes, no := e.forkNil(st, x)
			return boolRes(yes, no)
		case VUnk:
			return forkUnknown(st)
		case VIface:
			return one(st, VBool{false})
		}
		return one(st, VBool{false})
	case VInt:
		switch x := a.(type) {
		case VInt:
			return one(st, VBool{x.N == y.N})
		case VTokType:
			yes, no := e.split(st, x.S, e.uni.typeSet(y.N))
			return boolRes(yes, no)
		case VRune:
			yes, no := e.split(st, x.S, e.uni.runeSet(rune(y.N)))
			return boolRes(yes, no)
		}
	case VStr:
		switch x := a.(type) {
		case VStr:
			return one(st, VBool{x.S == y.S})
		case VTokStr:
			return e.tokStrEq(st, x, y.S, site)
		case VTokRunes:
			return e.tokStrEq(st, VTokStr{x.S, 'r'}, y.S, site)
		case VPath:
			return forkUnknown(st)
		case VOpq:
			return e.opqEqConst(st, x, "s"+y.S)
		}
	case VBool:
		switch x := a.(type) {
		case VBool:
			return one(st, VBool{x.B == y.B})
		case VOpq:
			yes, no := e.forkTruth(st, x)
			if !y.B {
				yes, no = no, yes
			}
			return boolRes(yes, no)
		}
	}
	switch x := a.(type) {
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			return one(st, VBool{x == y})
		case VNil, VOpq:
			return one(st, VBool{false})
		}
	case VIface:
		switch y := b.(type) {
		case VIface:
			if !types.Identical(x.T, y.T) {
				return one(st, VBool{false})
			}
			return e.equal(st, x.V, y.V, site)
		case VErr:
			return one(st, VBool{false})
		case VOpq:
			return forkUnknown(st)
		}
	case VErr:
		if y, ok := b.(VErr); ok {
			return one(st, VBool{x == y})
		}
		if _, ok := b.(VIface); ok {
			return one(st, VBool{false})
		}
	case VTokType:
		if y, ok := b.(VTokType); ok && x.S == y.S {
			return one(st, VBool{true})
		}
	case VTokStr:
		if y, ok := b.(VTokStr); ok {
			if x == y {
				return one(st, VBool{true})
			}
			return e.tokTokEq(st, x, y, site)
		}
	case VTokNum:
		if y, ok := b.(VTokNum); ok && x == y {
			return one(st, VBool{true})
		}
	case VOpq:
		if y, ok := b.(VOpq); ok && x.K == y.K && x.ID == y.ID && x.Path == y.Path {
			return one(st, VBool{true})
		}
		if _, ok := b.(VPtr); ok {
			return one(st, VBool{false})
		}
	case VTokBuf:
		if _, ok := b.(VTokBuf); ok {
			return one(st, VBool{true})
		}
		return one(st, VBool{false})
	case VSlice, VMap, VFn:
		if isNilVal(b) {
			return one(st, VBool{false})
		}
	case *VStruct:
		if y, ok := b.(*VStruct); ok {
			return e.equalAll(st, x.F, y.F, site)
		}
	case *VArr:
		if y, ok := b.(*VArr); ok && len(x.E) == len(y.E) {
			return e.equalAll(st, x.E, y.E, site)
		}
	}
	if e.symBinop != nil {
		if r := e.symBinop(e, st, token.EQL, a, b, site); r != nil {
			return r
		}
	}
	return forkUnknown(st)
}

func (e *Eng) equalAll(st *State, a, b []Val, site ssa.Instruction) []Res {
	if len(a) == 0 {
		return one(st, VBool{true})
	}
	var out []Res
	for _, r := range e.equal(st, a[0], b[0], site) {
		if bv, ok := r.v.(VBool); ok && bv.B {
			out = append(out, e.equalAll(r.st, a[1:], b[1:], site)...)
		} else {
			out = append(out, r)
		}
	}
	return out
}

func (e *Eng) opqEqConst(st *State, o VOpq, k string) []Res {
	fk := factKey{o.K, o.ID, o.Path + "=" + k}
	if ks := strings.Fields(st.facts[factKey{o.K, o.ID, "#kinds"}]); o.K == "many" && o.Path == "" && len(ks) > 0 {
		// a summarised list of token texts: does one of them equal k?
		text := strings.TrimPrefix(k, "s")
		some := false
		yes, maybe := e.uni.strSets('u', text)
		for _, n := range ks {
			i, _ := strconv.Atoi(n)
			c := e.csets[i]
			if c.subset(yes) {
				return one(st, VBool{true})
			}
			if !c.and(yes.or(maybe)).empty() {
				some = true
			}
		}
		if !some {
			return one(st, VBool{false})
		}
	}
	switch st.facts[fk] {
	case "T":
		return one(st, VBool{true})
	case "F":
		return one(st, VBool{false})
	}
	n := st.clone()
	st.facts[fk] = "T"
	n.facts[fk] = "F"
	return boolRes(st, n)
}

// tokStrEq compares the text of a token with a constant.
func (e *Eng) tokStrEq(st *State, x VTokStr, s string, site ssa.Instruction) []Res {
	yes, maybe := e.uni.strSets(x.Form, s)
	if !maybe.and(st.cls[x.S]).empty() {
		e.event(st, "case", instrPos(site), "%s compares a word with %q without folding letter case", shortFn(site.Parent()), s)
	}
	var out []Res
	y, n := e.split(st, x.S, yes.or(maybe))
	if y != nil {
		m, d := e.split(y, x.S, maybe)
		if d != nil {
			out = append(out, Res{st: d, v: VBool{true}})
		}
		if m != nil {
			out = append(out, forkUnknown(m)...)
		}
	}
	if n != nil {
		out = append(out, Res{st: n, v: VBool{false}})
	}
	return out
}

// tokTokEq compares the texts of two tokens.
func (e *Eng) tokTokEq(st *State, x, y VTokStr, site ssa.Instruction) []Res {
	if x.Form == 'r' || y.Form == 'r' {
		e.event(st, "case", instrPos(site), "%s compares two words without folding letter case", shortFn(site.Parent()))
	}
	return forkUnknown(st)
}

func textJoin(a, b Val) Val {
	as, aok := a.(VStr)
	bs, bok := b.(VStr)
	if aok && bok {
		return VStr{as.S + bs.S}
	}
	if aok && as.S == "" {
		return b
	}
	if bok && bs.S == "" {
		return a
	}
	return mergeText(textOf(a), textOf(b))
}

// textOf extracts the location facts of a value that is being formatted.
func textOf(v Val) VText {
	switch x := v.(type) {
	case VText:
		return x
	case VPath:
		return VText{Path: true}
	case VTokNum:
		if x.W == 'S' && x.F == 'L' {
			return VText{Line: true, S: x.S}
		}
		if x.W == 'S' && x.F == 'C' {
			return VText{Col: true, S: x.S}
		}
	case VTokStr:
		return VText{Tok: x.S}
	case VTokRunes:
		return VText{Tok: x.S}
	case VIface:
		return textOf(x.V)
	case VErr:
		return x.Loc
	}
	return VText{}
}

func mergeText(a, b VText) VText {
	r := VText{Path: a.Path || b.Path, Line: a.Line || b.Line, Col: a.Col || b.Col, Mixed: a.Mixed || b.Mixed}
	r.Swap = a.Swap || b.Swap || a.Col && !a.Line && b.Line
	r.Tok = a.Tok
	if r.Tok == 0 {
		r.Tok = b.Tok
	}
	al, bl := a.Line || a.Col, b.Line || b.Col
	switch {
	case al && bl:
		r.S = a.S
		if a.S != b.S {
			r.Mixed = true
		}
	case al:
		r.S = a.S
	case bl:
		r.S = b.S
	}
	return r
}

func (e *Eng) convert(st *State, x *ssa.Convert) []Res {
	v := e.get(st, x.X)
	to := under(x.Type())
	from := under(x.X.Type())
	if o, ok := v.(VOpq); ok && o.K == "num" {
		o.T = x.Type()
		return one(st, o)
	}
	if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch y := v.(type) {
		case VTokRunes:
			return one(st, VTokStr{y.S, 'r'})
		case VLexRunes:
			return one(st, lexString(e, st, y))
		case VInt:
			return one(st, VStr{string(rune(y.N))})
		case VStr:
			return one(st, y)
		case VRune:
			return one(st, VText{})
		case VSlice:
			el, ok := e.elems(st, y)
			if ok {
				s := ""
				for _, c := range el {
					i, ok := c.(VInt)
					if !ok {
						return one(st, VText{})
					}
					s += string(rune(i.N))
				}
				return one(st, VStr{s})
			}
		case VNil:
			return one(st, VStr{""})
		case VOpq, VText, VPath, VTokStr:
			return one(st, v)
		}
		return one(st, VText{})
	}
	if _, ok := to.(*types.Slice); ok {
		if _, isS := from.(*types.Basic); isS {
			switch y := v.(type) {
			case VTokStr:
				if y.Form == 'r' {
					return one(st, VTokRunes{y.S})
				}
			case VStr:
				var el []Val
				if sl, ok := to.(*types.Slice); ok && under(sl.Elem()) == types.Typ[types.Byte] {
					for i := 0; i < len(y.S); i++ {
						el = append(el, VInt{int64(y.S[i])})
					}
				} else {
					for _, r := range y.S {
						el = append(el, VInt{int64(r)})
					}
				}
				if len(el) > 512 {
					return one(st, e.unkOf(st, x.Type(), "runes"))
				}
				return one(st, e.newSlice(st, el))
			}
			return one(st, e.unkOf(st, x.Type(), "runes"))
		}
	}
	switch y := v.(type) {
	case VInt, VUnk, VTokType, VTokNum, VRune, VLen:
		return one(st, y)
	}
	return one(st, v)
}

func (e *Eng) index(st *State, ins ssa.Instruction, xv, iv ssa.Value) []Res {
	v, i := e.get(st, xv), e.get(st, iv)
	switch y := v.(type) {
	case VStr:
		if k, ok := i.(VInt); ok {
			if k.N < 0 || k.N >= int64(len(y.S)) {
				e.panicEvent(st, ins, "index out of range")
				return []Res{{st: st, panic: "index"}}
			}
			return one(st, VInt{int64(y.S[k.N])})
		}
	case *VArr:
		if k, ok := i.(VInt); ok {
			if k.N < 0 || k.N >= int64(len(y.E)) {
				e.panicEvent(st, ins, "index out of range")
				return []Res{{st: st, panic: "index"}}
			}
			return one(st, y.E[k.N])
		}
	}
	return one(st, VUnk{"index"})
}

func (e *Eng) indexAddr(st *State, x *ssa.IndexAddr) []Res {
	v, iv := e.get(st, x.X), e.get(st, x.Index)
	et := x.Type().Underlying().(*types.Pointer).Elem()
	oob := func(why string) []Res {
		e.panicEvent(st, x, "index out of range ("+why+")")
		return []Res{{st: st, panic: "index"}}
	}
	switch y := v.(type) {
	case VNil:
		return oob("empty list")
	case VPtr: // pointer to array
		if k, ok := iv.(VInt); ok {
			c, ok := e.load(st, y)
			if a, isA := c.(*VArr); ok && isA && (k.N < 0 || k.N >= int64(len(a.E))) {
				return oob("array")
			}
			return one(st, VPtr{O: y.O, P: y.P + "." + itoa(int(k.N))})
		}
	case VSlice:
		n := y.Hi - y.Lo
		a, _ := e.content(st, y.O).(*VArr)
		if a == nil {
			break
		}
		many := false
		for _, el := range a.E[y.Lo:y.Hi] {
			if isMany(el) {
				many = true
			}
		}
		k := -1
		switch i := iv.(type) {
		case VInt:
			k = int(i.N)
			if many {
				if _, isC := x.Index.(*ssa.Const); isC {
					// a fixed position in a summarised list
					for j := 0; j <= k && j < n; j++ {
						if isMany(a.E[y.Lo+j]) {
							m := a.E[y.Lo+j].(VOpq)
							return one(st, VOpq{K: "many", ID: m.ID, Path: "@" + itoa(k), T: et, A: true})
						}
					}
				}
			}
		case VLen:
			k = i.N + i.Off
			if k >= 0 && k < n && isMany(a.E[y.Lo+k]) && i.Off < 0 {
				m := a.E[y.Lo+k].(VOpq)
				return one(st, VOpq{K: "many", ID: m.ID, Path: "@last", T: et, A: true})
			}
		default:
			// unknown index: some element
			if n == 0 {
				return oob("empty list")
			}
			if e.onUnkIndex != nil {
				if r := e.onUnkIndex(e, st, y, iv, x); r != nil {
					return r
				}
			}
			return one(st, VOpq{K: "unk", ID: st.fresh(), T: et, A: true})
		}
		if k < 0 || k >= n {
			return oob("list of " + itoa(n))
		}
		return one(st, VPtr{O: y.O, P: "." + itoa(y.Lo+k)})
	case VOpq:
		k, ok := constKey(iv)
		if !ok {
			k = "?"
		}
		return one(st, VOpq{K: y.K, ID: y.ID, Path: y.Path + "[" + k + "]", T: et, A: true})
	case VLexText:
		if n, ok := iv.(VInt); ok && n.N == 0 && st.lexFirst != 0 {
			iv = VIdx{st.lexFirst}
		}
		if i, ok := iv.(VIdx); ok {
			yes, no := e.split(st, i.S, e.uni.eofSet)
			var out []Res
			if yes != nil {
				e.panicEvent(yes, x, "index out of range (source text)")
				out = append(out, Res{st: yes, panic: "index"})
			}
			if no != nil {
				out = append(out, Res{st: no, v: VLexCell{i.S}})
			}
			return out
		}
		if st.lab != nil {
			st.flags |= fUnk
		}
	case VTokRunes:
		if k, ok := iv.(VInt); ok {
			return e.tokRuneAt(st, y, int(k.N), x)
		}
	}
	return one(st, VOpq{K: "unk", ID: st.fresh(), T: et, A: true})
}

// tokRuneAt splits the token's classes by the character at position k; the address of a constant is returned.
func (e *Eng) tokRuneAt(st *State, y VTokRunes, k int, ins ssa.Instruction) []Res {
	parts, unk := e.uni.runeAt(k, st.cls[y.S])
	var out []Res
	for _, p := range parts {
		s := st.clone()
		s.cls[y.S] = p.set
		if p.r < 0 {
			e.panicEvent(s, ins, "index out of range (token text)")
			out = append(out, Res{st: s, panic: "index"})
			continue
		}
		o := e.newObj(s, VInt{int64(p.r)})
		out = append(out, Res{st: s, v: VPtr{O: o}})
	}
	if !unk.empty() {
		s := st.clone()
		s.cls[y.S] = unk
		o := e.newObj(s, VUnk{"char"})
		out = append(out, Res{st: s, v: VPtr{O: o}})
	}
	return out
}

func (e *Eng) lookup(st *State, x *ssa.Lookup) []Res {
	m, k := e.get(st, x.X), e.get(st, x.Index)
	if _, isMap := under(x.X.Type()).(*types.Map); !isMap {
		return e.index(st, x, x.X, x.Index)
	}
	vt := under(x.X.Type()).(*types.Map).Elem()
	mk := func(s *State, v Val, ok bool) Res {
		if !ok {
			v = zero(vt)
		}
		if x.CommaOk {
			return Res{st: s, v: VTuple{v, VBool{ok}}}
		}
		return Res{st: s, v: v}
	}
	switch y := m.(type) {
	case VNil:
		return []Res{mk(st, nil, false)}
	case VMap:
		mc, ok := e.content(st, y.O).(*VMapC)
		if !ok {
			break
		}
		if ck, ok := constKey(k); ok {
			v, found := mc.get(ck)
			return []Res{mk(st, v, found)}
		}
		if e.onMapLookup != nil {
			if r := e.onMapLookup(e, st, y, k, x, mk); r != nil {
				return r
			}
		}
		switch kk := k.(type) {
		case VTokStr:
			// partition by key
			var out []Res
			rest := st
			for _, ent := range mc.E {
				s, ok := ent.K.(VStr)
				if !ok || rest == nil {
					continue
				}
				var next *State
				for _, r := range e.tokStrEq(rest, kk, s.S, x) {
					if r.v.(VBool).B {
						out = append(out, mk(r.st, ent.V, true))
					} else {
						next = r.st
					}
				}
				rest = next
			}
			if rest != nil {
				out = append(out, mk(rest, nil, false))
			}
			return out
		case VTokType:
			var out []Res
			rest := st
			for _, ent := range mc.E {
				n, ok := ent.K.(VInt)
				if !ok || rest == nil {
					continue
				}
				yes, no := e.split(rest, kk.S, e.uni.typeSet(n.N))
				if yes != nil {
					out = append(out, mk(yes, ent.V, true))
				}
				rest = no
			}
			if rest != nil {
				out = append(out, mk(rest, nil, false))
			}
			return out
		case VRune:
			var out []Res
			rest := st
			for _, ent := range mc.E {
				n, ok := ent.K.(VInt)
				if !ok || rest == nil {
					continue
				}
				yes, no := e.split(rest, kk.S, e.uni.runeSet(rune(n.N)))
				if yes != nil {
					out = append(out, mk(yes, ent.V, true))
				}
				rest = no
			}
			if rest != nil {
				out = append(out, mk(rest, nil, false))
			}
			return out
		}
		switch k.(type) {
		case *VArr, *VStruct:
			var out []Res
			rest := []*State{st}
			for _, ent := range mc.E {
				var next []*State
				for _, s := range rest {
					for _, r := range e.equal(s, k, ent.K, x) {
						if r.v.(VBool).B {
							out = append(out, mk(r.st, ent.V, true))
						} else {
							next = append(next, r.st)
						}
					}
				}
				rest = next
			}
			for _, s := range rest {
				out = append(out, mk(s, nil, false))
			}
			return out
		}
		if st.lab != nil {
			st.flags |= fUnk
		}
		// unknown key: found (any value) or not
		n := st.clone()
		return []Res{mk(st, e.unkOf(st, vt, "lookup"), true), mk(n, nil, false)}
	case VOpq:
		kt, _ := constKey(k)
		o := VOpq{K: y.K, ID: y.ID, Path: y.Path + "{" + kt + "}", T: vt}
		if !x.CommaOk {
			return one(st, o)
		}
		n := st.clone()
		return []Res{mk(st, o, true), mk(n, nil, false)}
	}
	n := st.clone()
	return []Res{mk(st, e.unkOf(st, vt, "lookup"), true), mk(n, nil, false)}
}

func (e *Eng) nextIter(st *State, x *ssa.Next) []Res {
	it, ok := e.get(st, x.Iter).(VIter)
	tt := x.Type().(*types.Tuple)
	if !ok {
		n := st.clone()
		return []Res{{st: st, v: VTuple{VBool{true}, e.unkOf(st, tt.At(1).Type(), "iter"), e.unkOf(st, tt.At(2).Type(), "iter")}},
			{st: n, v: VTuple{VBool{false}, VNil{}, VNil{}}}}
	}
	done := VTuple{VBool{false}, zeroOr(tt.At(1).Type()), zeroOr(tt.At(2).Type())}
	if it.O == 0 {
		return one(st, done)
	}
	switch c := e.content(st, it.O).(type) {
	case *VMapC:
		if it.Pos >= len(c.E) {
			return one(st, done)
		}
		ent := c.E[it.Pos]
		st.setReg(x.Iter, VIter{O: it.O, Pos: it.Pos + 1})
		return one(st, VTuple{VBool{true}, ent.K, ent.V})
	case *VArr:
		if it.Pos >= len(c.E) {
			return one(st, done)
		}
		st.setReg(x.Iter, VIter{O: it.O, Pos: it.Pos + 1})
		return one(st, VTuple{VBool{true}, VInt{int64(it.Pos)}, c.E[it.Pos]})
	}
	return one(st, done)
}

func zeroOr(t types.Type) Val {
	if t == nil || t == types.Typ[types.Invalid] {
		return VNil{}
	}
	return zero(t)
}

func (e *Eng) slice(st *State, x *ssa.Slice) []Res {
	v := e.get(st, x.X)
	var lo, hi Val = VInt{0}, nil
	if x.Low != nil {
		lo = e.get(st, x.Low)
	}
	if x.High != nil {
		hi = e.get(st, x.High)
	}
	switch y := v.(type) {
	case VLexText:
		l, lok := lo.(VIdx)
		h, hok := hi.(VIdx)
		if lok && hok {
			return one(st, VLexRunes{l.S, h.S})
		}
		st.flags |= fUnk
		return one(st, e.unkOf(st, x.Type(), "text"))
	case VTokBuf:
		l, lok := lo.(VTokNum)
		h, hok := hi.(VTokNum)
		if lok && hok && l.S == h.S && l.W == 'S' && h.W == 'E' && l.F == 'I' && h.F == 'I' {
			return one(st, VTokRunes{l.S})
		}
		return one(st, e.unkOf(st, x.Type(), "text"))
	case VStr:
		l, lok := lo.(VInt)
		h := int64(len(y.S))
		hok := true
		if hi != nil {
			var hv VInt
			hv, hok = hi.(VInt)
			h = hv.N
		}
		if lok && hok {
			if l.N < 0 || h > int64(len(y.S)) || l.N > h {
				e.panicEvent(st, x, "slice bounds out of range")
				return []Res{{st: st, panic: "slice"}}
			}
			return one(st, VStr{y.S[l.N:h]})
		}
		return one(st, VText{})
	case VPtr:
		c, _ := e.load(st, y)
		a, ok := c.(*VArr)
		if !ok {
			break
		}
		l, lok := lo.(VInt)
		h := int64(len(a.E))
		if hi != nil {
			if hv, ok := hi.(VInt); ok {
				h = hv.N
			} else {
				lok = false
			}
		}
		if lok && l.N <= h && h <= int64(len(a.E)) {
			if y.P == "" {
				return one(st, VSlice{O: y.O, Lo: int(l.N), Hi: int(h)})
			}
			return one(st, e.newSlice(st, a.E[l.N:h]))
		}
	case VSlice:
		n := y.Hi - y.Lo
		l, lok := idxOf(lo)
		h, hok := n, true
		if hi != nil {
			h, hok = idxOf(hi)
		}
		if lok && hok {
			if l < 0 || h > n || l > h {
				if a, ok := e.content(st, y.O).(*VArr); ok && y.Lo+h <= len(a.E) && l >= 0 && l <= h {
					return one(st, VSlice{O: y.O, Lo: y.Lo + l, Hi: y.Lo + h})
				}
				e.panicEvent(st, x, "slice bounds out of range")
				return []Res{{st: st, panic: "slice"}}
			}
			return one(st, VSlice{O: y.O, Lo: y.Lo + l, Hi: y.Lo + h})
		}
	case VNil:
		l, lok := idxOf(lo)
		h, hok := 0, true
		if hi != nil {
			h, hok = idxOf(hi)
		}
		if lok && hok && (l != 0 || h != 0) {
			e.panicEvent(st, x, "slice bounds out of range")
			return []Res{{st: st, panic: "slice"}}
		}
		return one(st, VNil{})
	case VTokStr, VText, VPath:
		return one(st, VText{})
	}
	return one(st, e.unkOf(st, x.Type(), "slice"))
}

func idxOf(v Val) (int, bool) {
	switch i := v.(type) {
	case VInt:
		return int(i.N), true
	case VLen:
		return i.N + i.Off, true
	}
	return 0, false
}

func (e *Eng) typeAssert(st *State, x *ssa.TypeAssert) []Res {
	v := e.get(st, x.X)
	mk := func(s *State, v Val, ok bool) Res {
		if x.CommaOk {
			if !ok {
				v = zero(x.AssertedType)
			}
			return Res{st: s, v: VTuple{v, VBool{ok}}}
		}
		if !ok {
			e.panicEvent(s, x, "failed type assertion to "+types.TypeString(x.AssertedType, shortQual))
			return Res{st: s, panic: "assert"}
		}
		return Res{st: s, v: v}
	}
	isI := types.IsInterface(x.AssertedType)
	switch y := v.(type) {
	case VNil:
		return []Res{mk(st, nil, false)}
	case VIface:
		if types.IsInterface(y.T) {
			return e.typeAssertOpq(st, x, y.V, mk)
		}
		if isI {
			ok := types.Implements(y.T, under(x.AssertedType).(*types.Interface))
			return []Res{mk(st, y, ok)}
		}
		ok := types.Identical(y.T, x.AssertedType)
		return []Res{mk(st, y.V, ok)}
	case VErr:
		if isI {
			return []Res{mk(st, y, types.Identical(under(x.AssertedType), under(types.Universe.Lookup("error").Type())))}
		}
		return []Res{mk(st, nil, false)}
	case VOpq:
		return e.typeAssertOpq(st, x, y, mk)
	}
	n := st.clone()
	return []Res{mk(st, e.unkOf(st, x.AssertedType, "assert"), true), mk(n, nil, false)}
}

func (e *Eng) typeAssertOpq(st *State, x *ssa.TypeAssert, v Val, mk func(*State, Val, bool) Res) []Res {
	o, ok := v.(VOpq)
	if !ok {
		n := st.clone()
		return []Res{mk(st, e.unkOf(st, x.AssertedType, "assert"), true), mk(n, nil, false)}
	}
	if e.onOpqAssert != nil {
		if r := e.onOpqAssert(e, st, o, x, mk); r != nil {
			return r
		}
	}
	if e.factNil(st, o) == 1 {
		return []Res{mk(st, nil, false)}
	}
	tk := types.TypeString(x.AssertedType, shortQual)
	isI := types.IsInterface(x.AssertedType)
	res := VOpq{K: o.K, ID: o.ID, Path: o.Path, T: x.AssertedType}
	if !isI {
		res.Path += "!" + tk
	}
	fk := factKey{o.K, o.ID, o.Path + "?is " + tk}
	switch st.facts[fk] {
	case "T":
		return []Res{mk(st, res, true)}
	case "F":
		return []Res{mk(st, nil, false)}
	}
	if !isI {
		// a value has one dynamic type
		for k, v := range st.facts {
			if k.K == o.K && k.ID == o.ID && v == "T" && strings.HasPrefix(k.Path, o.Path+"?is ") {
				return []Res{mk(st, nil, false)}
			}
		}
	}
	if o.T != nil && !types.IsInterface(o.T) {
		if isI {
			if types.Implements(o.T, under(x.AssertedType).(*types.Interface)) {
				return []Res{mk(st, o, true)}
			}
			return []Res{mk(st, nil, false)}
		}
		return []Res{mk(st, o, types.Identical(o.T, x.AssertedType))}
	}
	n := st.clone()
	st.facts[fk] = "T"
	n.facts[fk] = "F"
	return []Res{mk(st, res, true), mk(n, nil, false)}
}

// ---------- calls ----------

// resolveCall evaluates callee and arguments; ok=false means rs is the outcome (panic).
func (e *Eng) resolveCall(st *State, c *ssa.CallCommon, site ssa.Instruction) (fv Val, args []Val, rs []Res, ok bool) {
	for _, a := range c.Args {
		args = append(args, e.get(st, a))
	}
	if !c.IsInvoke() {
		return e.get(st, c.Value), args, nil, true
	}
	recv := e.get(st, c.Value)
	switch r := recv.(type) {
	case VNil:
		return nil, nil, e.nilPanic(st, site, "method "+c.Method.Name()+" of nil interface"), false
	case VIface:
		if o, isO := r.V.(VOpq); isO && types.IsInterface(r.T) {
			return VInvoke{o, c.Method}, args, nil, true
		}
		f := e.methodOf(r.T, c.Method)
		if f == nil {
			return VInvoke{VOpq{K: "unk", ID: st.fresh(), T: r.T}, c.Method}, args, nil, true
		}
		return VFn{F: f}, append([]Val{r.V}, args...), nil, true
	case VErr:
		return VInvoke{VOpq{K: "err", ID: st.fresh()}, c.Method}, args, nil, true
	case VOpq:
		if e.factNil(st, r) == 1 {
			return nil, nil, e.nilPanic(st, site, "method "+c.Method.Name()+" of nil interface"), false
		}
		if e.mayNil(st, r) {
			return nil, nil, e.nilPanic(st, site, "method "+c.Method.Name()+" of possibly missing value"), false
		}
		return VInvoke{r, c.Method}, args, nil, true
	}
	return VInvoke{VOpq{K: "unk", ID: st.fresh(), T: c.Value.Type()}, c.Method}, args, nil, true
}

// VInvoke is a method of an opaque interface value.
type VInvoke struct {
	Recv VOpq
	M    *types.Func
}

func (v VInvoke) canon(c *canon) {
	c.s("inv:" + v.M.Name() + ":")
	c.val(v.Recv)
}

func (e *Eng) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := e.w.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.w.Prog.MethodValue(sel)
}

func (e *Eng) callInstr(st *State, x *ssa.Call, c *ssa.CallCommon) []Res {
	fv, args, rs, ok := e.resolveCall(st, c, x)
	if !ok {
		return rs
	}
	if b, ok := fv.(VBuiltin); ok {
		return e.builtin(st, b.Name, args, x)
	}
	rs = e.callVal(st, fv, args, x)
	for i := range rs {
		if rs[i].panic == "" && rs[i].v == nil {
			rs[i].v = VTuple{}
		}
	}
	return rs
}

func (e *Eng) builtin(st *State, name string, args []Val, site ssa.Instruction) []Res {
	switch name {
	case "len", "cap":
		switch y := args[0].(type) {
		case VNil:
			return one(st, VInt{0})
		case VStr:
			return one(st, VInt{int64(len(y.S))})
		case VSlice:
			el, ok := e.elems(st, y)
			if ok {
				for _, v := range el {
					if isMany(v) {
						return one(st, VLen{N: len(el)})
					}
				}
			}
			return one(st, VInt{int64(y.Hi - y.Lo)})
		case VMap:
			if mc, ok := e.content(st, y.O).(*VMapC); ok {
				return one(st, VInt{int64(len(mc.E))})
			}
		case *VArr:
			return one(st, VInt{int64(len(y.E))})
		case VTokRunes:
			return e.tokLen(st, y.S)
		case VTokStr:
			return e.tokLen(st, y.S)
		case VLexText:
			return one(st, VLexLen{})
		case VLexRunes:
			if e.onLexLen != nil {
				return one(st, e.onLexLen(st, y))
			}
		}
		if e.onLen != nil {
			if r := e.onLen(e, st, args[0], site); r != nil {
				return r
			}
		}
		return one(st, VUnk{"len"})
	case "append":
		base, ok := e.elems(st, args[0])
		if !ok {
			if e.onAppendOpq != nil {
				if r := e.onAppendOpq(e, st, args, site); r != nil {
					return r
				}
			}
			o, isO := args[0].(VOpq)
			if isO {
				base = []Val{VOpq{K: "many", ID: st.fresh(), T: o.T}}
			} else {
				return one(st, VUnk{"append"})
			}
		}
		if len(args) == 1 {
			return one(st, args[0])
		}
		add, ok := e.elems(st, args[1])
		if !ok {
			switch y := args[1].(type) {
			case VStr:
				for i := 0; i < len(y.S); i++ {
					add = append(add, VInt{int64(y.S[i])})
				}
			default:
				add = []Val{VOpq{K: "many", ID: st.fresh()}}
			}
		}
		if len(add) == 0 {
			return one(st, args[0])
		}
		return one(st, e.newSlice(st, append(append([]Val{}, base...), add...)))
	case "copy":
		d, ok1 := args[0].(VSlice)
		src, ok2 := e.elems(st, args[1])
		if ok1 && ok2 {
			n := d.Hi - d.Lo
			if len(src) < n {
				n = len(src)
			}
			a := e.content(st, d.O).(*VArr)
			E := append([]Val{}, a.E...)
			copy(E[d.Lo:d.Lo+n], src[:n])
			e.setContent(st, d.O, &VArr{E: E})
			return one(st, VInt{int64(n)})
		}
		return one(st, VUnk{"copy"})
	case "delete":
		if m, ok := args[0].(VMap); ok {
			if mc, ok := e.content(st, m.O).(*VMapC); ok {
				if _, ck := constKey(args[1]); ck {
					if m.O <= e.staticMax && !e.initMode {
						e.event(st, "globalwrite", instrPos(site), "%s writes package-level map", shortFn(site.Parent()))
					}
					e.setContent(st, m.O, mc.del(args[1]))
					return one(st, VTuple{})
				}
			}
		}
		return one(st, VTuple{})
	case "print", "println", "close":
		return one(st, VTuple{})
	case "recover":
		return one(st, VNil{})
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			return e.nilPanic(st, site, "wrapper of nil receiver")
		}
		return one(st, args[0])
	case "min", "max":
		a, ok1 := args[0].(VInt)
		b, ok2 := args[1].(VInt)
		if ok1 && ok2 && len(args) == 2 {
			if (a.N < b.N) == (name == "min") {
				return one(st, a)
			}
			return one(st, b)
		}
		return one(st, VUnk{name})
	}
	e.unsupported(st, site, "builtin %s", name)
	return one(st, VUnk{"builtin"})
}

func (e *Eng) tokLen(st *State, s int) []Res {
	parts, unk := e.uni.lenSets(st.cls[s])
	var out []Res
	for n, set := range parts {
		c := st.clone()
		c.cls[s] = set
		out = append(out, Res{st: c, v: VInt{int64(n)}})
	}
	if !unk.empty() {
		c := st.clone()
		c.cls[s] = unk
		out = append(out, Res{st: c, v: VUnk{"toklen"}})
	}
	return out
}

func (e *Eng) opaqueCall(st *State, f VOpq, args []Val, site ssa.Instruction) []Res {
	if e.onOpqCall != nil {
		if r := e.onOpqCall(e, st, f, args, site); r != nil {
			return r
		}
	}
	var t types.Type = types.NewTuple()
	if v, ok := site.(ssa.Value); ok {
		t = v.Type()
	}
	return one(st, e.unkOf(st, t, "opqcall"))
}

// invoke calls a method of an opaque interface value.
func (e *Eng) invoke(st *State, v VInvoke, args []Val, site ssa.Instruction) []Res {
	if e.onOpqInvoke != nil {
		if r, ok := e.onOpqInvoke(e, st, v.Recv, v.M, args, site); ok {
			return r
		}
	}
	res := v.M.Type().(*types.Signature).Results()
	mk := func(i int) Val {
		p := v.Recv.Path + "." + v.M.Name() + "("
		for _, a := range args {
			k, ok := constKey(a)
			if !ok {
				k = "?"
			}
			p += k + ","
		}
		p += ")"
		if res.Len() > 1 {
			p += itoa(i)
		}
		return VOpq{K: v.Recv.K, ID: v.Recv.ID, Path: p, T: res.At(i).Type()}
	}
	switch res.Len() {
	case 0:
		return one(st, VTuple{})
	case 1:
		if types.TypeString(res.At(0).Type(), nil) == "error" && !e.initMode {
			n := st.clone()
			er := VErr{Origin: "ext:" + v.M.Name(), Pos: "?"}
			if e.w.placeless(v.M) {
				er.Pos = "placeless " + v.M.Name()
			}
			return []Res{{st: st, v: VNil{}}, {st: n, v: er}}
		}
		return one(st, mk(0))
	}
	t := make(VTuple, res.Len())
	for i := range t {
		t[i] = mk(i)
	}
	return one(st, t)
}
