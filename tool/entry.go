package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Entry analysis (parts of C06, C08, C09): the functions that read a file and start a parse are interpreted with every
// library call that can fail failing or not, and with the parse itself failing or not.

type Entry struct {
	*Scopes
	units Val
	prog  Val
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func (x *Entry) install() bool {
	set := x.w.method("parser", "Parser", "SetText")
	next := x.w.method("parser", "Parser", "NextToken")
	parse := x.w.method("parser", "ProgramParser", "ParseProgram")
	if set == nil || next == nil || parse == nil {
		x.undecided("entry: SetText, NextToken or ParseProgram not found")
		return false
	}
	x.e.prims[set.String()] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		x.log(st, "text")
		return one(st, VTuple{})
	}
	x.e.prims[next.String()] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		x.log(st, "next")
		return one(st, VPtr{O: st.alloc(VOpq{K: "tok", ID: st.fresh()})})
	}
	x.e.prims[parse.String()] = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		if !strings.HasSuffix(x.logged(st), "text;next;") {
			x.bad(st, "start", "the program is parsed before its text has been set and its first token read")
		}
		ctx := x.fieldOf(st, args[0], "context")
		if pp, ok := ctx.(VPtr); ok {
			if cur, ok := x.e.load(st, pp); ok {
				if s, ok := cur.(*VStruct); ok {
					if i := fieldIdx(s.T, "Units"); i >= 0 {
						n := &VStruct{T: s.T, F: append([]Val{}, s.F...)}
						n.F[i] = x.units
						x.e.setContent(st, pp.O, n)
					}
				}
			}
		}
		bad := st.clone()
		x.log(bad, "fail parse")
		x.log(st, "parsed")
		return []Res{{st: st, v: VTuple{x.prog, VNil{}}}, {st: bad, v: VTuple{VNil{}, VErr{Origin: "rule", Pos: "parse"}}}}
	}
	x.e.onExternal = func(e *Eng, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []Res {
		res := fn.Signature.Results()
		n := res.Len()
		if n == 0 || !isErrorType(res.At(n-1).Type()) || strings.HasSuffix(fn.String(), ").Close") {
			return nil
		}
		bad := st.clone()
		x.log(bad, "fail "+fn.Name())
		er := VErr{Origin: "ext:" + fn.String(), Pos: "?"}
		if n == 1 {
			return []Res{{st: st, v: VNil{}}, {st: bad, v: er}}
		}
		a, b := make(VTuple, n), make(VTuple, n)
		for i := 0; i < n-1; i++ {
			t := res.At(i).Type()
			switch under(t).(type) {
			case *types.Pointer:
				a[i], b[i] = VPtr{O: st.alloc(VOpq{K: "obj", ID: st.fresh(), T: t})}, VNil{}
			default:
				a[i], b[i] = VOpq{K: "ext:" + fn.Name(), ID: st.fresh(), T: t}, VOpq{K: "ext:" + fn.Name(), ID: bad.fresh(), T: t}
			}
		}
		a[n-1], b[n-1] = VNil{}, er
		return []Res{{st: st, v: a}, {st: bad, v: b}}
	}
	return true
}

func (x *Entry) scenario() {
	if f := x.w.fn("parser", "ParseProgram"); f != nil {
		st := x.begin("file")
		x.units = x.e.newSlice(st, []Val{x.mk(st, x.w.lookupType("ast", "Unit"), map[string]Val{"Ident": x.mkIdent(st, "UnitA")})})
		x.prog = x.mk(st, x.w.lookupType("ast", "Program"), map[string]Val{"Ident": x.mkIdent(st, "Main")})
		x.callFn(st, f, []Val{VStr{"dir/main.dpr"}}, func(s *State, v Val) {
			t, ok := v.(VTuple)
			if !ok || len(t) != 2 {
				x.undecided("entry: result of ParseProgram not followed")
				return
			}
			e, known := isErr(t[1])
			l := x.logged(s)
			switch {
			case !known:
				x.undecided("entry: error of ParseProgram not followed (%T)", t[1])
			case strings.Contains(l, "fail "):
				if !e {
					x.bad(s, "error lost", "ParseProgram: a failure to read or parse the file is not returned (%s)", l)
				}
			case e:
				x.bad(s, "rejected", "ParseProgram fails although reading and parsing succeeded")
			case isNilVal(unwrap(t[0])):
				x.bad(s, "no result", "ParseProgram returns neither an error nor a program")
			default:
				if p := x.fieldOf(s, t[0], "Program"); !sameVal(p, x.prog) {
					x.bad(s, "program", "ParseProgram returns another program than the one parsed")
				}
				got, ok1 := x.e.elems(s, x.fieldOf(s, t[0], "Units"))
				want, _ := x.e.elems(s, x.units)
				if !ok1 || len(got) != len(want) || !sameVal(got[0], want[0]) {
					x.bad(s, "units", "ParseProgram does not return the loaded units")
				}
			}
		})
	} else {
		x.undecided("entry: ParseProgram not found")
	}
	load := x.w.method("parser", "UnitParser", "LoadFile")
	nup := x.w.fn("parser", "NewUnitParser")
	nuc := x.w.fn("parser/pcontext", "NewUnitContext")
	pn := x.w.fn("parser/pcontext", "NewProgramContext")
	if load == nil || nup == nil || nuc == nil || pn == nil {
		x.undecided("entry: LoadFile or a constructor not found")
		return
	}
	st := x.begin("file")
	x.callFn(st, pn, []Val{VNil{}}, func(s *State, pc Val) {
		path := x.e.newSlice(s, []Val{VIface{T: types.Typ[types.String], V: VStr{"dir/a.pas"}}})
		x.callFn(s, nuc, []Val{pc, path}, func(s *State, uc Val) {
			x.callFn(s, nup, []Val{uc}, func(s *State, up Val) {
				x.callFn(s, load, []Val{up}, func(s *State, v Val) {
					e, known := isErr(v)
					l := x.logged(s)
					switch {
					case !known:
						x.undecided("entry: error of LoadFile not followed (%T)", v)
					case strings.Contains(l, "fail "):
						if !e {
							x.bad(s, "error lost", "LoadFile: a failure to read the file is not returned (%s)", l)
						}
					case e:
						x.bad(s, "rejected", "LoadFile fails although reading succeeded")
					case l != "text;next;":
						x.bad(s, "start", "after LoadFile the text is not set or its first token is not the current one")
					}
				})
			})
		})
	})
}

func entryAnalysis(w *World, rep *Report, only ...string) {
	sub := newReport(rep.Prop, "")
	x := &Entry{Scopes: newScopes(w, sub)}
	if !x.ok() || w.lookupType("ast", "Program") == nil || w.lookupType("ast", "Unit") == nil {
		x.undecided("entry: types not found")
	} else if x.install() {
		x.scenario()
	}
	x.done()
	for _, f := range sub.Findings {
		for _, o := range only {
			if strings.Contains(f.Key, o) {
				rep.Findings = append(rep.Findings, f)
				break
			}
		}
	}
	rep.Coverage["file_entry_outcomes"] = x.outs
}
