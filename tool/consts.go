package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// The words the tree records (directives, visibilities, parameter modes) are compared by users with the
// constants of package ast: a constant named after one word must not spell another or none.
var wordFamilies = map[string]map[string]string{
	"C03": {
		"Directive":            "CDECL REGISTER DYNAMIC VIRTUAL EXPORT EXTERNAL NEAR FAR FORWARD MESSAGE OVERRIDE OVERLOAD PASCAL REINTRODUCE SAFECALL STDCALL VARARGS LOCAL ABSTRACT",
		"FormalParmOption":     "VAR CONST OUT",
		"PortabilityDirective": "platform deprecated library",
	},
	"C05": {
		"ClassVisibility":          "PRIVATE PROTECTED PUBLIC PUBLISHED default",
		"ClassMethodDirective":     "ABSTRACT VIRTUAL OVERRIDE OVERLOAD REINTRODUCE",
		"InterfaceMethodDirective": "STDCALL",
	},
}

func addWords(rep *Report, w *World) {
	n := 0
	for _, p := range w.Types {
		if !strings.HasSuffix(p.Path(), "/ast") {
			continue
		}
		sc := p.Scope()
		for _, name := range sc.Names() {
			c, ok := sc.Lookup(name).(*types.Const)
			if !ok || c.Val().Kind() != constant.String {
				continue
			}
			nt, ok := c.Type().(*types.Named)
			if !ok || nt.Obj().Pkg() != p {
				continue
			}
			words, ok := wordFamilies[rep.Prop][nt.Obj().Name()]
			if !ok {
				continue
			}
			n++
			val := constant.StringVal(c.Val())
			if strings.HasSuffix(strings.ToUpper(name), strings.ToUpper(val)) {
				if strings.Contains(" "+words+" ", " "+val+" ") {
					continue
				}
			}
			// Named after another word of the family, or spelling no word of it?
			known := strings.Contains(" "+words+" ", " "+val+" ")
			other := ""
			for _, q := range strings.Fields(words) {
				if q != val && strings.HasSuffix(strings.ToUpper(name), strings.ToUpper(q)) && len(q) > len(other) {
					other = q
				}
			}
			if known && other == "" {
				continue
			}
			rep.add("words", name, w.posStr(c.Pos()), "the constant %s of type %s spells %q, which is not the word the parser records", name, nt.Obj().Name(), val)
		}
	}
	rep.Coverage["word_constants"] = n
}
