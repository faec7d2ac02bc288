package main

import (
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. All values are immutable.
type Val interface{}

type (
	VInt  struct{ N int64 }
	VStr  struct{ S string }
	VBool struct{ B bool }
	VNil  struct{}
	// VUnk is an unknown scalar, tagged for diagnostics.
	VUnk struct{ Tag string }
	// VPtr points into a heap object; P is a path of field/element indices (".1.2").
	VPtr struct {
		O int
		P string
	}
	// VSlice is a window of a backing array object.
	VSlice struct{ O, Lo, Hi int }
	VMap   struct{ O int }
	VFn    struct {
		F *ssa.Function
		B []Val
	}
	VBuiltin struct{ Name string }
	VIface   struct {
		T types.Type
		V Val
	}
	VTuple  []Val
	VStruct struct {
		T types.Type
		F []Val
	}
	VArr struct {
		E   []Val
		Fix bool // an array variable or literal: it does not grow
	}
	MapEnt struct {
		K, V Val
	}
	VMapC struct{ E []MapEnt } // concrete map content, sorted by key text

	// token-domain values: everything is a property of input slot S
	VTokType struct{ S int }
	VTokBuf  struct{ S int } // the source buffer seen through token S
	VTokNum  struct {        // position component of token S
		S    int
		W, F byte // W: 'S' start, 'E' end; F: 'I' index 'L' line 'C' col
	}
	VTokRunes struct{ S int }
	VTokStr   struct {
		S    int
		Form byte // 'r' raw, 'u' upper, 'l' lower
	}
	// VRune is the rune at input slot S (lexer domain).
	VRune struct{ S int }
	// VPath is the path of the file being parsed.
	VPath struct{}
	// VText is a formatted string; it remembers which location facts went into it.
	VText struct {
		Path, Line, Col bool
		S               int // slot of line/col (if any)
		Mixed           bool
		Swap            bool // the column was written before the line
		Tok             int  // slot of the first token named in the text
	}
	// VErr is a non-nil error value.
	VErr struct {
		Origin string // "new", "nt:X", "set", "ext:..."
		Loc    VText
		Pos    string // source position of creation
	}
	// VOpq is an opaque value identified by (K, ID, Path).
	VOpq struct {
		K    string
		ID   int
		Path string
		T    types.Type
		A    bool // the address of the thing, not the thing
	}
	// VLen is the length of a list with N entries, some of which are summaries, plus Off.
	VLen struct{ N, Off int }
	VBad struct{ Why string }

	// VCursor is the content of a cursor object: position plus specification state.
	VCursor struct {
		Pos int
		G   *Ghost
		N   int // tokens read so far (not part of the state key)
	}
	VIter struct {
		O   int // map or string object
		Pos int
	}
)

func isNilVal(v Val) bool { _, ok := v.(VNil); return ok }

// zero builds the zero value of t.
func zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{false}
		case u.Info()&types.IsString != 0:
			return VStr{""}
		case u.Info()&types.IsNumeric != 0:
			return VInt{0}
		}
		return VNil{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return &VStruct{T: t, F: f}
	case *types.Array:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = zero(u.Elem())
		}
		return &VArr{E: e, Fix: true}
	case *types.Tuple:
		r := make(VTuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	return VNil{}
}

// constKey gives a total text key for concrete values (map keys); ok=false when not concrete.
func constKey(v Val) (string, bool) {
	switch x := v.(type) {
	case VInt:
		return "i" + strconv.FormatInt(x.N, 10), true
	case VStr:
		return "s" + x.S, true
	case VBool:
		if x.B {
			return "bt", true
		}
		return "bf", true
	case VNil:
		return "nil", true
	case *VArr:
		s := "["
		for _, e := range x.E {
			k, ok := constKey(e)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s + "]", true
	case *VStruct:
		s := "{"
		for _, e := range x.F {
			k, ok := constKey(e)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s + "}", true
	case VIface:
		k, ok := constKey(x.V)
		return types.TypeString(x.T, nil) + ":" + k, ok
	case VPtr:
		return "p" + strconv.Itoa(x.O) + x.P, true
	}
	return "", false
}

func (m *VMapC) get(k string) (Val, bool) {
	i := sort.Search(len(m.E), func(i int) bool { kk, _ := constKey(m.E[i].K); return kk >= k })
	if i < len(m.E) {
		if kk, _ := constKey(m.E[i].K); kk == k {
			return m.E[i].V, true
		}
	}
	return nil, false
}

func (m *VMapC) set(key Val, v Val) *VMapC {
	k, _ := constKey(key)
	i := sort.Search(len(m.E), func(i int) bool { kk, _ := constKey(m.E[i].K); return kk >= k })
	n := &VMapC{E: make([]MapEnt, 0, len(m.E)+1)}
	n.E = append(n.E, m.E[:i]...)
	n.E = append(n.E, MapEnt{key, v})
	if i < len(m.E) {
		if kk, _ := constKey(m.E[i].K); kk == k {
			i++
		}
		n.E = append(n.E, m.E[i:]...)
	}
	return n
}

func (m *VMapC) del(key Val) *VMapC {
	k, _ := constKey(key)
	n := &VMapC{}
	for _, e := range m.E {
		if kk, _ := constKey(e.K); kk != k {
			n.E = append(n.E, e)
		}
	}
	return n
}
