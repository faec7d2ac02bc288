package main

import (
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

func (w *World) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return f + ":" + itoa(q.Line)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b [24]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func shortFn(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func instrPos(i ssa.Instruction) token.Pos {
	if p := i.Pos(); p.IsValid() {
		return p
	}
	// fall back to neighbouring instructions
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	idx := -1
	for k, x := range b.Instrs {
		if x == i {
			idx = k
		}
	}
	for k := idx; k >= 0; k-- {
		if p := b.Instrs[k].Pos(); p.IsValid() {
			return p
		}
	}
	for k := idx + 1; k < len(b.Instrs) && k >= 0; k++ {
		if p := b.Instrs[k].Pos(); p.IsValid() {
			return p
		}
	}
	if i.Parent() != nil {
		return i.Parent().Pos()
	}
	return token.NoPos
}
