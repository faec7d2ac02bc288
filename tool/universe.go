package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The reserved words and special symbols of the documented lexical grammar.
var specReserved = strings.Fields(`AND ARRAY AS ASM BEGIN CASE CLASS CONST CONSTRUCTOR DESTRUCTOR DISPINTERFACE DIV DO
DOWNTO ELSE END EXCEPT EXPORTS FILE FINALIZATION FINALLY FOR FUNCTION GOTO IF IMPLEMENTATION IN INHERITED
INITIALIZATION INLINE INTERFACE IS LABEL LIBRARY MOD NIL NOT OBJECT OF OR OUT PACKED PROCEDURE PROGRAM PROPERTY
RAISE RECORD REPEAT RESOURCESTRING SET SHL SHR STRING THEN THREADVAR TO TRY TYPE UNIT UNTIL USES VAR WHILE WITH XOR`)

var specSymbols = strings.Fields(`# $ & ( ) * + , - . / : ; < = > @ [ ] ^ (. .) .. := <= >= <>`)

var declKinds = []string{"none", "type", "uses", "ns", "label", "var", "other"}

// builtinReps: built-in type names used as representatives; they always resolve to something.
var builtinReps = map[string]bool{"REAL": true, "INTEGER": true, "CHAR": true, "ANSISTRING": true, "POINTER": true, "VARIANT": true}

// Atom is one indivisible class of input tokens (or characters, in the lexer domain).
type Atom struct {
	Kind string // eof sym word ident int real str illegal | rune
	Text string // upper case text for sym, word, ident ("" = any other identifier)
	Decl string // what the name resolves to (identifiers only)
	R    rune   // lexer domain: the character, or -1 for a class
	Cl   string // lexer domain: class name when R < 0
}

func (a Atom) String() string {
	switch a.Kind {
	case "sym":
		return "'" + a.Text + "'"
	case "word":
		return a.Text
	case "ident":
		t := a.Text
		if t == "" {
			t = "<identifier>"
		}
		if a.Decl != "none" && a.Decl != "" {
			t += ":" + a.Decl
		}
		return t
	case "rune":
		if a.R >= 0 {
			return fmt.Sprintf("%q", a.R)
		}
		return a.Cl
	}
	return "<" + a.Kind + ">"
}

// Universe is the set of atoms.
type Universe struct {
	A      []Atom
	all    CSet
	eofSet CSet
	byKind map[string]CSet
	word   map[string]CSet // reserved word or symbol text -> set
	ident  map[string]CSet // identifier text -> set over all declaration kinds
	decl   map[string]CSet
	types  map[string]int64 // token type constants
	strC   map[string][2]CSet
}

func (u *Universe) typeSet(n int64) CSet {
	var s CSet
	for k, v := range u.types {
		if v != n {
			continue
		}
		switch k {
		case "EOF":
			s = s.or(u.byKind["eof"])
		case "SpecialSymbol":
			s = s.or(u.byKind["sym"])
		case "Identifier":
			s = s.or(u.byKind["ident"])
		case "ReservedWord":
			s = s.or(u.byKind["word"])
		case "NumeralInt":
			s = s.or(u.byKind["int"])
		case "NumeralReal":
			s = s.or(u.byKind["real"])
		case "CharacterString":
			s = s.or(u.byKind["str"])
		case "Illegal", "Unknown", "Invalid":
			s = s.or(u.byKind["illegal"])
		}
	}
	return s
}

// strSets: atoms whose text in the given form certainly / possibly equals s.
func (u *Universe) strSets(form byte, s string) (yes, maybe CSet) {
	k := string(form) + s
	if r, ok := u.strC[k]; ok {
		return r[0], r[1]
	}
	up := strings.ToUpper(s)
	hasLetter := up != strings.ToLower(s)
	match := u.word[up].or(u.ident[up])
	switch {
	case s == "":
		yes = u.byKind["eof"]
	case form == 'u':
		if s == up {
			yes = match
		}
	case form == 'l':
		if s == strings.ToLower(s) {
			yes = match
		}
	default:
		if hasLetter {
			maybe = match
		} else {
			yes = match
		}
	}
	if !hasLetter && s != "" && yes.empty() {
		// the text of a number or string literal may be anything
		maybe = maybe.or(u.byKind["int"]).or(u.byKind["real"]).or(u.byKind["str"]).or(u.byKind["illegal"])
	}
	u.strC[k] = [2]CSet{yes, maybe}
	return
}

func (u *Universe) lenSets(c CSet) (map[int]CSet, CSet) {
	parts := map[int]CSet{}
	var unk CSet
	c.each(func(i int) {
		a := u.A[i]
		switch {
		case a.Kind == "eof":
			parts[0] = parts[0].with(i)
		case a.Kind == "sym" || a.Kind == "word" || a.Kind == "ident" && a.Text != "":
			n := len(a.Text)
			parts[n] = parts[n].with(i)
		default:
			unk = unk.with(i)
		}
	})
	return parts, unk
}

type runePart struct {
	r   rune
	set CSet
}

func (u *Universe) runeAt(k int, c CSet) ([]runePart, CSet) {
	parts := map[rune]CSet{}
	var unk CSet
	c.each(func(i int) {
		a := u.A[i]
		switch {
		case a.Kind == "sym":
			if k < len(a.Text) {
				parts[rune(a.Text[k])] = parts[rune(a.Text[k])].with(i)
			} else {
				parts[-1] = parts[-1].with(i)
			}
		case a.Kind == "eof":
			parts[-1] = parts[-1].with(i)
		default:
			unk = unk.with(i)
		}
	})
	var ks []rune
	for r := range parts {
		ks = append(ks, r)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var out []runePart
	for _, r := range ks {
		out = append(out, runePart{r, parts[r]})
	}
	return out, unk
}

func (u *Universe) add(a Atom) {
	i := len(u.A)
	if i >= csWords*64 {
		panic("universe too large")
	}
	u.A = append(u.A, a)
	u.all = u.all.with(i)
	u.byKind[a.Kind] = u.byKind[a.Kind].with(i)
	switch a.Kind {
	case "eof":
		u.eofSet = u.eofSet.with(i)
	case "sym", "word":
		u.word[a.Text] = u.word[a.Text].with(i)
	case "ident":
		u.ident[a.Text] = u.ident[a.Text].with(i)
		u.decl[a.Decl] = u.decl[a.Decl].with(i)
	}
}

func newUniverse() *Universe {
	return &Universe{byKind: map[string]CSet{}, word: map[string]CSet{}, ident: map[string]CSet{}, decl: map[string]CSet{},
		types: map[string]int64{}, strC: map[string][2]CSet{}}
}

// tokenUniverse builds the token-class universe from the specification's words plus every word the code mentions.
func tokenUniverse(w *World, specIdents []string) (*Universe, error) {
	u := newUniverse()
	tp := w.Types[modPath+"/token"]
	if tp == nil {
		return nil, fmt.Errorf("package token not found")
	}
	tt, _ := tp.Scope().Lookup("Type").(*types.TypeName)
	if tt == nil {
		return nil, fmt.Errorf("token.Type not found")
	}
	for _, n := range tp.Scope().Names() {
		if c, ok := tp.Scope().Lookup(n).(*types.Const); ok && types.Identical(c.Type(), tt.Type()) {
			v, _ := constant.Int64Val(c.Val())
			u.types[n] = v
		}
	}
	for _, n := range []string{"EOF", "SpecialSymbol", "Identifier", "ReservedWord", "NumeralInt", "NumeralReal", "CharacterString"} {
		if _, ok := u.types[n]; !ok {
			return nil, fmt.Errorf("token type constant %s not found", n)
		}
	}
	u.add(Atom{Kind: "eof"})
	for _, s := range specSymbols {
		u.add(Atom{Kind: "sym", Text: s})
	}
	for _, s := range specReserved {
		u.add(Atom{Kind: "word", Text: s})
	}
	for _, k := range []string{"int", "real", "str", "illegal"} {
		u.add(Atom{Kind: k})
	}
	words := map[string]bool{"": true}
	for _, s := range specIdents {
		words[s] = true
	}
	res := map[string]bool{}
	for _, s := range specReserved {
		res[s] = true
	}
	isIdent := func(s string) bool {
		if s == "" || len(s) > 20 {
			return false
		}
		for i, r := range s {
			if !(r == '_' || unicode.IsLetter(r) || i > 0 && unicode.IsDigit(r)) {
				return false
			}
		}
		return true
	}
	for _, f := range w.repoFuncs() {
		p := fnPkg(f).Pkg.Path()
		if p != modPath+"/parser" && p != modPath+"/token" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands []*ssa.Value
				for _, r := range in.Operands(rands) {
					if c, ok := (*r).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						s := strings.ToUpper(constant.StringVal(c.Value))
						if isIdent(s) && !res[s] {
							words[s] = true
						}
					}
				}
			}
		}
	}
	var ws []string
	for s := range words {
		ws = append(ws, s)
	}
	sort.Strings(ws)
	for _, s := range ws {
		for _, d := range declKinds {
			if len(u.A) >= csWords*64-8 {
				return nil, fmt.Errorf("too many words")
			}
			if d == "none" && builtinReps[s] {
				continue
			}
			u.add(Atom{Kind: "ident", Text: s, Decl: d})
		}
	}
	return u, nil
}

// setText names a class set for messages.
func (u *Universe) setText(s CSet) string {
	var r []string
	seen := map[string]bool{}
	full := map[string]bool{}
	for _, k := range []string{"ident", "word", "sym"} {
		if u.byKind[k].subset(s) && !u.byKind[k].empty() {
			full[k] = true
			r = append(r, "any "+k)
		}
	}
	s.each(func(i int) {
		a := u.A[i]
		if full[a.Kind] {
			return
		}
		t := a.String()
		if a.Kind == "ident" {
			// drop the kind when all kinds are present
			if u.ident[a.Text].subset(s) {
				b := a
				b.Decl = ""
				t = b.String()
			}
		}
		if !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	})
	if len(r) > 12 {
		r = append(r[:12], fmt.Sprintf("…(%d more)", len(r)-12))
	}
	return strings.Join(r, " ")
}

// ---------- lexer domain ----------

func uniPred(name string, r rune) bool {
	switch name {
	case "unicode.IsLetter":
		return unicode.IsLetter(r)
	case "unicode.IsSpace":
		return unicode.IsSpace(r)
	case "unicode.IsDigit":
		return unicode.IsDigit(r)
	case "unicode.IsNumber":
		return unicode.IsNumber(r)
	case "unicode.IsUpper":
		return unicode.IsUpper(r)
	case "unicode.IsLower":
		return unicode.IsLower(r)
	}
	return false
}

// representatives of the classes of non-ASCII characters
var runeClasses = []struct {
	name string
	r    rune
}{{"upper-letter", 'É'}, {"lower-letter", 'é'}, {"other-letter", '漢'}, {"wide-space", '\u3000'}, {"wide-digit", '４'}, {"number", '½'}, {"mark", '★'}}

func runeUniverse() *Universe {
	u := newUniverse()
	u.add(Atom{Kind: "eof", R: -1})
	for r := rune(0); r < 128; r++ {
		u.add(Atom{Kind: "rune", R: r})
	}
	for _, c := range runeClasses {
		u.add(Atom{Kind: "rune", R: -1, Cl: c.name})
	}
	return u
}

func (u *Universe) runeSet(r rune) CSet {
	var s CSet
	for i, a := range u.A {
		if a.Kind == "rune" && a.Cl == "" && a.R == r || a.Kind == "eof" && r == -1 {
			s = s.with(i)
		}
	}
	return s
}

// runeSetBy collects the characters satisfying f (a class is judged by its representative).
func (u *Universe) runeSetBy(f func(r rune) bool) CSet {
	var s CSet
	for i, a := range u.A {
		r := a.R
		if a.Kind == "eof" {
			r = -1
		} else if r < 0 {
			for _, c := range runeClasses {
				if c.name == a.Cl {
					r = c.r
				}
			}
		}
		if f(r) {
			s = s.with(i)
		}
	}
	return s
}

func (u *Universe) uniSet(name string) CSet {
	return u.runeSetBy(func(r rune) bool { return uniPred(name, r) })
}
