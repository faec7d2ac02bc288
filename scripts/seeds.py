#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from the definitions below (edits of /repo and a Go test as demonstration)."""
import os, json, subprocess, tempfile, shutil, sys
HELP = '''package parser

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/token"
)

var _ = strings.ToLower
var _ = token.EOF
var _ ast.Node
var _ astcore.Node

// zzProgram parses p.dpr of the given files in a scratch directory.
func zzProgram(t *testing.T, files map[string]string) (*Program, error) {
	dir, err := ioutil.TempDir("", "zzdemo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for n, s := range files {
		if err := ioutil.WriteFile(filepath.Join(dir, n), []byte(s), 0600); err != nil {
			t.Fatal(err)
		}
	}
	back, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(back)
	return ParseProgram("p.dpr")
}

func zzParser(src string) *Parser {
	rs := []rune(src)
	p := NewParser(NewProgramContext("demo.dpr"))
	p.SetText(&rs)
	p.NextToken()
	return p
}
'''
DEMO = '''#!/bin/bash
# %s
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > $t/o.json <<J
{"Replace":{"$PWD/parser/zz_demo_test.go":"$d/demo_test.go.txt"}}
J
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
timeout 120 go test -vet=off -overlay $t/o.json -run TestZZDemo -timeout 60s -count=1 ./parser
'''
def seed(id, prop, needs, breaks, edits, test, imports=True):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='/tmp/seedgen.')
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    for f, o, n in edits:
        p = w + '/repo/' + f
        s = open(p).read()
        assert o in s, (id, f, o)
        open(p, 'w').write(s.replace(o, n, 1))
    diff = subprocess.run(['git', '-C', w + '/repo', 'diff'], capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % breaks.split('.')[0])
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go.txt', 'w').write(HELP + test)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'))
    shutil.rmtree(w)
    print(id)

seed('c19-no-restore', 'C19', 'an implementation section with declarations of its own, in a unit another unit uses in its interface or the program uses',
 'What a unit declares in its implementation section stays visible through its unit scope after the unit is parsed.',
 [('parser/unit_parser.go', '	defer func() { m.Unit.DeclMap = originalUnitDeclMap }()\n', '	_ = originalUnitDeclMap\n')],
 '''
func TestZZDemo(t *testing.T) {
	prog, err := zzProgram(t, map[string]string{
		"p.dpr": "program p;\\nuses u1 in 'u1.pas';\\nvar X: Integer;\\nbegin\\n  X := 1;\\nend.\\n",
		"u1.pas": "unit u1;\\ninterface\\nconst Open = 1;\\nimplementation\\nconst Hidden = 2;\\nend.\\n",
	})
	if err != nil {
		t.Fatal(err)
	}
	dm := prog.Units[0].DeclMap
	if dm.Get("Open") == nil {
		t.Fatal("Open is not exported")
	}
	if dm.Get("Hidden") != nil {
		t.Fatal("the scope of the implementation section remains in the unit")
	}
}
''')

seed('c24-variant-pointer', 'C24', 'asking a variant type whether it is a pointer type', 'Variant and OleVariant (and names of them) are classified as pointer types as well.',
 [('ast/type_embedded.go', 'return m.Kind == EtkPointerType', 'return m.Kind >= EtkPointerType')],
 '''
func TestZZDemo(t *testing.T) {
	for _, n := range []string{"Variant", "OleVariant"} {
		id := ast.NewVariantType(&astcore.Ident{Name: n, Location: &astcore.Location{Path: "x"}})
		if id.IsPointerType() {
			t.Fatal(n + " is a pointer type")
		}
	}
}
''')

seed('c25-threadvar-list', 'C25', 'a thread variable declaration with several names', 'Only the first name of a list of thread variables is declared.',
 [('ast/var.go', 'func (m *ThreadVarDecl) ToDeclarations() astcore.Decls {\n	return astcore.NewDeclarations(m.IdentList, m)', 'func (m *ThreadVarDecl) ToDeclarations() astcore.Decls {\n	return astcore.NewDeclarations(m.IdentList[:1], m)')],
 '''
func TestZZDemo(t *testing.T) {
	p := zzParser("threadvar a, b, c: Integer; ")
	if _, err := p.ParseThreadVarSection(true); err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a", "b", "c"} {
		if p.context.Get(n) == nil {
			t.Fatal(n + " is not declared")
		}
	}
}
''')

seed('c13-bracket-digraph', 'C13', "the digraph '.)' in a source text", "'.)' is read as two symbols although it is one (it stands for ']').",
 [('token/special_symbols.go', "	{'.', ')'}: true,\n", '')],
 '''
func TestZZDemo(t *testing.T) {
	rs := []rune("a .) b")
	tk := token.NewTokenizer(&rs, 0)
	tk.GetNext()
	if s := tk.GetNext().RawString(); s != ".)" {
		t.Fatal("read " + s)
	}
}
''')

seed('c09-read-error', 'C09', 'a source file whose reading fails half way (undecodable bytes or a directory)', 'An error while reading the source is ignored when something was read before.',
 [('parser/program.go', '''	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
	if err != nil {
''', '''	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
	if err != nil && len(str) > 0 {
''')],
 '''
func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zzdemo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	_, err = ParseProgram(dir)
	if err == nil || !strings.Contains(err.Error(), "directory") {
		t.Fatalf("the read error is lost: %v", err)
	}
}
''')

seed('c23-property-case', 'C23', 'an inherited or own property found under another spelling', 'A property is found only under the spelling of its declaration.',
 [('ast/type_class.go', '''	for _, mm := range m.Members {
		if mm.ClassPropertyList != nil {
			for _, prop := range mm.ClassPropertyList {
				if strings.ToLower(prop.Ident.Name) == kw {''', '''	for _, mm := range m.Members {
		if mm.ClassPropertyList != nil {
			for _, prop := range mm.ClassPropertyList {
				if prop.Ident.Name == name || prop.Ident.Name == kw {''')],
 '''
func TestZZDemo(t *testing.T) {
	p := zzParser("type TA = class private FX: Integer; public property Value: Integer read FX; end; ")
	ts, err := p.ParseTypeSection(true)
	if err != nil {
		t.Fatal(err)
	}
	c := ts[0].Type.(*ast.CustomClassType)
	for _, n := range []string{"Value", "value", "VALUE"} {
		if c.FindProperty(n, true) == nil {
			t.Fatal(n + " not found")
		}
	}
}
''')

seed('c19-cycle', 'C19', 'two units using each other in their interface sections besides other units', 'A cyclic dependency is reported only when no unit at all could be ordered.',
 [('parser/unit_parsers.go', '	if !ok {\n		return nil, errors.Errorf("cyclic', '	if !ok && len(order) == 0 {\n		return nil, errors.Errorf("cyclic')],
 '''
func TestZZDemo(t *testing.T) {
	_, err := zzProgram(t, map[string]string{
		"p.dpr": "program p;\\nuses u0 in 'u0.pas', u1 in 'u1.pas', u2 in 'u2.pas';\\nvar X: Integer;\\nbegin\\n  X := 1;\\nend.\\n",
		"u0.pas": "unit u0;\\ninterface\\nimplementation\\nend.\\n",
		"u1.pas": "unit u1;\\ninterface\\nuses u2;\\nimplementation\\nend.\\n",
		"u2.pas": "unit u2;\\ninterface\\nuses u1;\\nimplementation\\nend.\\n",
	})
	if err == nil {
		t.Fatal("the cycle is accepted")
	}
}
''')

seed('c18-section-leak', 'C18', 'a name left open in one type section and a later type section, in an inner scope, that declares it', 'What a type section leaves to its end stays registered, so that a later inner section resolves names of an outer one to its own declarations.',
 [('parser/type.go', '	defer p.SetupPostSectionFuncs()()\n\n	p.NextToken()', '	p.NextToken()')],
 '''
func TestZZDemo(t *testing.T) {
	prog, err := zzProgram(t, map[string]string{
		"p.dpr": "program p;\\ntype PT = ^TT;\\nprocedure Q;\\ntype TT = Integer;\\nvar Y: Integer;\\nbegin\\n  Y := 1;\\nend;\\nvar X: Integer;\\nbegin\\n  X := 1;\\nend.\\n",
	})
	if err != nil {
		t.Fatal(err)
	}
	decl := prog.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0]
	pt := decl.Type.(*ast.CustomPointerType)
	if pt.TypeId != nil && pt.TypeId.Ref != nil {
		t.Fatal("TT of the program refers to the TT of a routine")
	}
}
''')

seed('c01-while-do', 'C01', 'a WHILE statement without DO', 'WHILE is accepted with any token in the place of DO, which is dropped.',
 [('parser/statement_loop.go', '''	if _, err := p.Current(token.ReservedWord.HasKeyword("DO")); err != nil {
		return nil, err
	}
	p.NextToken()
	statement, err := p.ParseStatement()
	if err != nil {
		return nil, err
	}
	return &ast.WhileStmt{''', '''	p.NextToken()
	statement, err := p.ParseStatement()
	if err != nil {
		return nil, err
	}
	return &ast.WhileStmt{''')],
 '''
func TestZZDemo(t *testing.T) {
	p := zzParser("while 1 then X := 1;")
	if _, err := p.ParseWhileStmt(); err == nil {
		t.Fatal("accepted")
	}
}
''')

seed('c05-stored-unknown', 'C05', 'a property with STORED and a name that is no member', 'The STORED specifier of a property is dropped when its name is not a member, instead of being rejected.',
 [('parser/type_class.go', '''		} else {
			p.Logf("Parser.ParseClassProperty #14")
			return nil, p.TokenErrorf("unknown member %s", t)
		}''', '''		} else {
			p.Logf("Parser.ParseClassProperty #14")
		}''')],
 '''
func TestZZDemo(t *testing.T) {
	p := zzParser("type TA = class private FX: Integer; public property Value: Integer read FX stored Nowhere; end; ")
	if _, err := p.ParseTypeSection(true); err == nil {
		t.Fatal("accepted")
	}
}
''')

seed('c02-nil-token', 'C02', 'NIL as an operand followed by anything', 'NIL is not consumed, so that the token after it is read as the operator.',
 [('parser/expression.go', '''		case "NIL":
			p.NextToken()
			return &ast.Nil{}, nil''', '''		case "NIL":
			return &ast.Nil{}, nil''')],
 '''
func TestZZDemo(t *testing.T) {
	p := zzParser("nil = 1")
	e, err := p.ParseExpression()
	if err != nil {
		t.Fatal(err)
	}
	if !p.CurrentToken().Is(token.EOF) || len(e.RelOpSimpleExpressions) != 1 {
		t.Fatal("the comparison with nil is not read")
	}
}
''')
