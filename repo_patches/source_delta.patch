From 849a9b8ebdd53c05985451a938f7450de1543975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 01/50] fix: name directives in sorted order in error messages

---
 token/directives.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token/directives.go b/token/directives.go
index 09d48b7..3f08eee 100644
--- a/token/directives.go
+++ b/token/directives.go
@@ -16,7 +16,7 @@ func NewDirectivePredicator(nameSet ext.StringSet) *DirectivePredicator {
 }
 
 func (m *DirectivePredicator) Name() string {
-	return fmt.Sprintf("Directive(%s)", strings.Join(m.nameSet.Slice(), ","))
+	return fmt.Sprintf("Directive(%s)", strings.Join(m.nameSet.Slice().Sort(), ","))
 }
 
 func (m *DirectivePredicator) Predicate(t *Token) bool {
-- 
2.43.0


From 12543387ea27ed19edb19abe20d4e74f582652ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 02/50] fix: order units deterministically before topological
 sort

---
 parser/unit_parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/unit_parsers.go b/parser/unit_parsers.go
index 733f88c..871992b 100644
--- a/parser/unit_parsers.go
+++ b/parser/unit_parsers.go
@@ -42,7 +42,7 @@ func (m UnitParsers) Map() map[string]*UnitParser {
 }
 
 func (m UnitParsers) Graph() *toposort.Graph {
-	unitNames := m.UnitNames().Slice()
+	unitNames := m.UnitNames().Slice().Sort()
 	graph := toposort.NewGraph(len(unitNames))
 	graph.AddNodes(unitNames...)
 
-- 
2.43.0


From e7044b4532972dcb82db8b353f8854ec8e98deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:16 +0000
Subject: [PATCH 03/50] fix: assembler statement ends at its END and at end of
 file

'asm end' skipped its END and an asm block without END never returned.
---
 parser/statement_asm.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..b4e3697 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -14,12 +14,13 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 
 	log.Printf("ParseAssemblerStatement start")
 
-	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
-			p.NextToken()
-			break
+	for !p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		if p.CurrentToken().Is(token.EOF) {
+			return nil, p.TokenErrorf("expects END of assembler statement but was EOF %s", p.CurrentToken())
 		}
+		p.NextToken()
 	}
+	p.NextToken()
 
 	log.Printf("ParseAssemblerStatement done")
 
-- 
2.43.0


From bce746349d3ce54fe13d54dc88d3230876347c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 04/50] fix: raise without object may be the last statement of
 a list

'raise' was accepted only before ';', not before END, ELSE, UNTIL, EXCEPT or FINALLY.
---
 parser/statement_raise.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/statement_raise.go b/parser/statement_raise.go
index 5d37abf..57ce1eb 100644
--- a/parser/statement_raise.go
+++ b/parser/statement_raise.go
@@ -5,6 +5,16 @@ import (
 	"github.com/akm/tparser/token"
 )
 
+// raiseStmtTerminator matches the tokens which can follow RAISE without an object.
+var raiseStmtTerminator = token.Some(
+	token.Symbol(';'),
+	token.ReservedWord.HasKeyword("END"),
+	token.ReservedWord.HasKeyword("ELSE"),
+	token.ReservedWord.HasKeyword("UNTIL"),
+	token.ReservedWord.HasKeyword("EXCEPT"),
+	token.ReservedWord.HasKeyword("FINALLY"),
+)
+
 func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("RAISE")); err != nil {
 		return nil, err
@@ -13,7 +23,7 @@ func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 
 	res := &ast.RaiseStmt{}
 
-	if p.CurrentToken().Is(token.Symbol(';')) {
+	if p.CurrentToken().Is(raiseStmtTerminator) {
 		return res, nil
 	}
 
-- 
2.43.0


From 5e0a879040064821836ed10102d8a1bfcc984190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 05/50] fix: the variable of an exception handler is declared
 in the handler only

Two handlers naming their variable alike were rejected as a duplicate
declaration, and the variable stayed visible after its handler.
---
 parser/statement_try.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..66bbf82 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -121,6 +121,9 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	t := p.NextToken()
 
+	// The handler variable is visible only in the handler.
+	defer p.context.StackDeclMap()()
+
 	hasIdent := true
 
 	// p.logger.Printf("p.context.DeclMap.Keys(): %+v\n", p.context.DeclMap.Keys())
-- 
2.43.0


From 89676f0f3091d0d6d16034237e9f9976f6605f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:44 +0000
Subject: [PATCH 06/50] fix: the variable of an exception handler must be an
 identifier

---
 parser/statement_try.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index 66bbf82..a720e5b 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -140,6 +140,9 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	decl := &ast.ExceptionBlockHandlerDecl{}
 	if hasIdent {
+		if _, err := p.Current(token.Identifier); err != nil {
+			return nil, err
+		}
 		decl.Ident = p.NewIdent(t)
 		if _, err := p.Next(token.Symbol(':')); err != nil {
 			return nil, err
-- 
2.43.0


From e1aae7989ef32bcb1e8674b66fa2113022866fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:46 +0000
Subject: [PATCH 07/50] fix: rolling back does not replace the context of the
 parser

After a rollback the parser worked on a copy of the context, so a scope
opened before it was never closed and the surrounding unit context
did not see later declarations.
---
 parser/base.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..4183c75 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -29,11 +29,9 @@ func (p *Parser) SetText(text *[]rune) {
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-		p.context = ctx
 	}
 }
 
-- 
2.43.0


From 2647e543a334e76d2546959f46327b59d2b61fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 08/50] fix: record, class, class reference and qualified types
 consume their last token

---
 parser/type.go       | 15 +++++----------
 parser/type_class.go |  3 +++
 parser/type_struc.go |  1 +
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..133fa2c 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -90,16 +90,10 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		}
 	}
 
-	{
-		t := p.CurrentToken()
-		if t.Is(token.Symbol(';')) {
-			return res, nil
-		}
-		if t := p.NextToken(); t.Is(token.PortabilityDirective) {
-			portabilityDirective := ast.PortabilityDirective(t.Value())
-			res.PortabilityDirective = &portabilityDirective
-			p.NextToken()
-		}
+	if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
+		portabilityDirective := ast.PortabilityDirective(t.Value())
+		res.PortabilityDirective = &portabilityDirective
+		p.NextToken()
 	}
 
 	return res, nil
@@ -169,6 +163,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
+	p.NextToken()
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..6ffa5ee 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -34,6 +34,7 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
 		}
+		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
@@ -50,12 +51,14 @@ func (p *Parser) ParseClassType() (ast.ClassType, error) {
 		res.Heritage = heritage
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		p.NextToken()
 		return res, nil
 	}
 	if !p.CurrentToken().Is(token.Symbol(';')) {
 		if _, err := p.ParseClassMemberSections(res); err != nil {
 			return nil, err
 		}
+		p.NextToken()
 	}
 	return res, nil
 }
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..b2c9df4 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -142,6 +142,7 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
 		return nil, err
 	}
+	p.NextToken()
 
 	return r, nil
 }
-- 
2.43.0


From fa3726cf11e08ef9125b3dda72edb3d9531673c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 09/50] fix: a variant part may be nested in the fields of a
 variant

---
 parser/type_struc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index b2c9df4..d489dcd 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -233,7 +233,8 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 	p.NextToken()
 
 	recVariants := ast.RecVariants{}
-	endPred := token.ReservedWord.HasKeyword("END")
+	// A variant section is closed by END of the record or by ')' of the enclosing variant
+	endPred := token.Some(token.ReservedWord.HasKeyword("END"), token.Symbol(')'))
 	if err := p.Until(endPred, token.Symbol(';'), func() error {
 		if p.CurrentToken().Is(endPred) {
 			return QuitUntil
@@ -274,6 +275,9 @@ func (p *Parser) ParseRecVariant() (*ast.RecVariant, error) {
 	if err != nil {
 		return nil, err
 	}
+	if _, err := p.Current(token.Symbol(')')); err != nil {
+		return nil, err
+	}
 	p.NextToken() // Go to next token because ParseFieldList doesn't call NextToken which quits by terminator
 	return &ast.RecVariant{
 		ConstExprs: constExprs,
-- 
2.43.0


From 395c1181e95e1edba74d4689883fdd978d7911b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:31 +0000
Subject: [PATCH 10/50] fix: a unit heading without semicolon is an error

---
 parser/unit_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..edd03db 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -106,7 +106,7 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 		res.PortabilityDirective = &s
 		t = p.NextToken()
 	}
-	if !t.Is(token.Symbol(';')) {
+	if err := p.Validate(t, token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From fc40104e192b79809f85e40cb0159c3ec376dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:33 +0000
Subject: [PATCH 11/50] fix: exports after the body of a block do not replace
 the ones before it

---
 parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..801aa24 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -37,7 +37,7 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
 		return nil, err
 	} else if exportStmts != nil {
-		res.ExportsStmts1 = exportStmts
+		res.ExportsStmts2 = exportStmts
 	}
 
 	return res, nil
-- 
2.43.0


From dea5596b5031313835ffc68f3ae8dff6e85d5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:19 +0000
Subject: [PATCH 12/50] fix: AS is an operator of terms

---
 parser/expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..3d6a552 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -140,6 +140,7 @@ var MulOpPredicator = token.Some(
 	token.ReservedWord.HasKeyword("AND"),
 	token.ReservedWord.HasKeyword("SHL"),
 	token.ReservedWord.HasKeyword("SHR"),
+	token.ReservedWord.HasKeyword("AS"),
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
-- 
2.43.0


From 3401936fca788758dc81276b7a1283f0eb1ad124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:21 +0000
Subject: [PATCH 13/50] fix: accept the empty set constructor

---
 parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index 3d6a552..4803c8d 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -316,6 +316,9 @@ func (p *Parser) ParseSetConstructor() (*ast.SetConstructor, error) {
 	}
 	p.NextToken()
 	res := &ast.SetConstructor{}
+	if p.CurrentToken().Is(token.Symbol(']')) {
+		return res, nil
+	}
 	if err := p.Until(token.Symbol(']'), token.Symbol(','), func() error {
 		element, err := p.ParseSetElement()
 		if err != nil {
-- 
2.43.0


From 85c63a733cc2691375bac3163d860d57342a1b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 14/50] fix: a number factor is a numeral

---
 parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 4803c8d..b257d21 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -259,7 +259,7 @@ func (p *Parser) ParseStringFactor(t *token.Token, skipTypeCheck bool) (*ast.Str
 }
 
 func (p *Parser) ParseNumberFactor(t *token.Token, skipTypeCheck bool) (*ast.NumberFactor, error) {
-	if skipTypeCheck || t.Is(token.CharacterString) {
+	if skipTypeCheck || t.Is(token.Some(token.NumeralInt, token.NumeralReal)) {
 		p.NextToken()
 		return &ast.NumberFactor{Value: t.Value()}, nil
 	} else {
-- 
2.43.0


From 82153c53221fa2263229226539e07473cd865979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:25 +0000
Subject: [PATCH 15/50] fix: errors about external index and class methods say
 where

---
 parser/function_heading.go | 3 +--
 parser/type_class.go       | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index df19a01..9623e01 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
@@ -104,7 +103,7 @@ func (p *Parser) ParseExternalOptions() (*ast.ExternalOptions, error) {
 			}
 			val, err := strconv.ParseInt(f2.Value, 10, 64)
 			if err != nil {
-				return nil, errors.Errorf("Invalid index constant for extenal index %s", f2.Value)
+				return nil, p.TokenErrorf("Invalid index constant for extenal index %s", t2)
 			}
 			v := int(val)
 			r.Index = &v
diff --git a/parser/type_class.go b/parser/type_class.go
index 6ffa5ee..9d65ea9 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"strings"
 
 	"github.com/akm/tparser/ast"
@@ -275,7 +274,7 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 		}
 		res.Heading = heading
 	default:
-		return nil, fmt.Errorf("unexpected token for method: %s", t0)
+		return nil, p.TokenErrorf("unexpected token for method: %s", t0)
 	}
 
 	directiveList, err := p.ClassMethodDirectiveList()
-- 
2.43.0


From 7b20b1a8e26fd8cde95fa46094f826f363fadb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:37 +0000
Subject: [PATCH 16/50] fix: accept a call statement with empty parentheses

---
 parser/statement.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/statement.go b/parser/statement.go
index 9358f9f..48560fe 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -183,11 +183,13 @@ func (p *Parser) ParseDesignatorStatement() (ast.DesignatorStatement, error) {
 		if t.Is(token.Symbol('(')) {
 			p.NextToken()
 			terminator := token.Symbol(')')
-			exprList, err := p.ParseExprList(terminator)
-			if err != nil {
-				return nil, err
+			if !p.CurrentToken().Is(terminator) {
+				exprList, err := p.ParseExprList(terminator)
+				if err != nil {
+					return nil, err
+				}
+				res.ExprList = exprList
 			}
-			res.ExprList = exprList
 			if _, err := p.Current(terminator); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 14f5e86eb85595750537ba6573dc2465cf793109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:05 +0000
Subject: [PATCH 17/50] fix: a type may have the name of a declaration of an
 outer scope

---
 parser/type.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 133fa2c..12b5678 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -69,17 +69,15 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		return nil, err
 	}
 	res.Type = typ
+	var fwd ast.ForwardDeclaration
 	if old := p.context.Get(res.Ident.Name); old != nil {
-		typeDecl, ok := old.Node.(*ast.TypeDecl)
-		if !ok {
-			return nil, errors.Errorf("expects type declaration but was %T", old.Node)
-		}
-		fwd, ok := typeDecl.Type.(ast.ForwardDeclaration)
-		if !ok {
-			return nil, errors.Errorf("expects forward declaration but was %T", typeDecl.Type)
+		if typeDecl, ok := old.Node.(*ast.TypeDecl); ok {
+			fwd, _ = typeDecl.Type.(ast.ForwardDeclaration)
 		}
+	}
+	if fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
-			return nil, err
+			return nil, errors.Wrapf(err, "invalid declaration of %s at %s", res.Ident.Name, p.PlaceString(ident))
 		}
 		for _, decl := range res.ToDeclarations() {
 			p.context.Overwrite(res.Ident.Name, decl)
-- 
2.43.0


From fa8db97e67fb106a7eb67145d7dd18906c1827b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:07 +0000
Subject: [PATCH 18/50] fix: other units see the completed declaration of a
 forward declared class

---
 parser/unit_parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index edd03db..cbb450f 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -162,7 +162,9 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 	for _, decl := range p.Unit.InterfaceSection.InterfaceDecls {
 		declNodes := decl.GetDeclNodes()
 		for _, declNode := range declNodes {
-			declMap.Set(declNode)
+			for _, d := range declNode.ToDeclarations() {
+				declMap.Overwrite(d.Ident.Name, d)
+			}
 		}
 	}
 	p.Unit.DeclMap = declMap
-- 
2.43.0


From fa6f597ea187cdcf1fd4298bc120fa9039e90437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:44 +0000
Subject: [PATCH 19/50] fix: a reserved word other than STRING is not a type

---
 parser/type_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..6475655 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -23,7 +23,7 @@ func (p *Parser) ParseStringOfStringType() (ast.StringType, error) {
 	t1 := p.CurrentToken()
 	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t1.Value())
 	if decl == nil {
-		return nil, nil
+		return nil, p.TokenErrorf("Unsupported token %s for StringType", t1)
 	}
 	t2 := p.NextToken()
 	if t2.Is(token.Symbol('[')) {
-- 
2.43.0


From 97a03a70ca8f384bfd9163594aee509f830da2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:45 +0000
Subject: [PATCH 20/50] fix: a type name must be an identifier or STRING

---
 parser/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index 12b5678..24ff050 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -166,7 +166,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-	ident := p.NewIdent(p.CurrentToken())
+	t, err := p.Current(token.Some(token.Identifier, token.ReservedWord.HasKeyword("STRING")))
+	if err != nil {
+		return nil, err
+	}
+	ident := p.NewIdent(t)
 	p.NextToken()
 	r := &ast.TypeId{Ident: ident}
 
-- 
2.43.0


From 4276b25f26a4b18ff90b6f1f56fd018f26e5460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:47 +0000
Subject: [PATCH 21/50] fix: NODEFAULT and IMPLEMENTS of a property are
 consumed

---
 parser/type_class.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index 9d65ea9..3226145 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -475,6 +475,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 		p.Logf("Parser.ParseClassProperty #18")
 		v := true
 		res.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
+		p.NextToken()
 	}
 
 	p.Logf("Parser.ParseClassProperty #19")
@@ -482,6 +483,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 	//   [IMPLEMENTS TypeId]
 	if strings.ToUpper(p.CurrentToken().Value()) == "IMPLEMENTS" {
 		p.Logf("Parser.ParseClassProperty #20")
+		p.NextToken()
 		typeId, err := p.ParseTypeId()
 		if err != nil {
 			p.Logf("Parser.ParseClassProperty #21")
-- 
2.43.0


From c31240df9885328da003dae72bba25f640e3a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 22/50] fix: the name of a constructor, destructor or property
 must be an identifier

---
 parser/type_class.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 3226145..95f817f 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -319,7 +319,10 @@ func (p *Parser) ParseConstructorHeading() (*ast.ConstructorHeading, error) {
 	}
 	res := &ast.ConstructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 
 	p.NextToken()
@@ -341,7 +344,10 @@ func (p *Parser) ParseDestructorHeading() (*ast.DestructorHeading, error) {
 	}
 	res := &ast.DestructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	p.NextToken()
 	return res, nil
@@ -378,7 +384,10 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 
 	p.Logf("Parser.ParseClassProperty #01")
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	defer p.TraceMethod("Parser.ParseClassProperty")()
 
-- 
2.43.0


From 375213c69b9ec66d7e445d83ad9b06043a513c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:51 +0000
Subject: [PATCH 23/50] fix: a class may start with a method or property
 without visibility

---
 parser/type_class.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 95f817f..b5044c5 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -106,25 +106,21 @@ func (p *Parser) ParseClassMemberSection(classType *ast.CustomClassType) (*ast.C
 	res := &ast.ClassMemberSection{}
 	classType.Members = append(classType.Members, res)
 
-	if t0, err := p.Current(token.Identifier); err != nil {
-		return nil, err
-	} else {
-		switch strings.ToUpper(t0.Value()) {
-		case "PRIVATE":
-			res.Visibility = ast.CvPrivate
-			p.NextToken()
-		case "PROTECTED":
-			res.Visibility = ast.CvProtected
-			p.NextToken()
-		case "PUBLIC":
-			res.Visibility = ast.CvPublic
-			p.NextToken()
-		case "PUBLISHED":
-			res.Visibility = ast.CvPublished
-			p.NextToken()
-		default:
-			res.Visibility = ast.CvDefault
-		}
+	switch strings.ToUpper(p.CurrentToken().Value()) {
+	case "PRIVATE":
+		res.Visibility = ast.CvPrivate
+		p.NextToken()
+	case "PROTECTED":
+		res.Visibility = ast.CvProtected
+		p.NextToken()
+	case "PUBLIC":
+		res.Visibility = ast.CvPublic
+		p.NextToken()
+	case "PUBLISHED":
+		res.Visibility = ast.CvPublished
+		p.NextToken()
+	default:
+		res.Visibility = ast.CvDefault
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
 		return res, nil
-- 
2.43.0


From 864dd48257269244517f5d75eaf46e8527f6de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:19 +0000
Subject: [PATCH 24/50] fix: class methods may be marked with CLASS

---
 parser/type_class.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index b5044c5..7941467 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -170,6 +170,7 @@ var (
 		propertyBreak,
 	)
 	fieldListBreak = token.Some(
+		token.ReservedWord.HasKeyword("CLASS"),
 		token.ReservedWord.HasKeyword("FUNCTION"),
 		token.ReservedWord.HasKeyword("PROCEDURE"),
 		token.ReservedWord.HasKeyword("CONSTRUCTOR"),
@@ -250,6 +251,11 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 
 	defer p.context.StackDeclMap()()
 
+	if t0.Is(token.ReservedWord.HasKeyword("CLASS")) {
+		res.ClassMethod = true
+		t0 = p.NextToken()
+	}
+
 	switch strings.ToUpper(t0.Value()) {
 	case "FUNCTION", "PROCEDURE":
 		heading, err := p.ParseFunctionHeading()
-- 
2.43.0


From 638f27817724844cf2ea3d45b46d11bad8e4e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:21 +0000
Subject: [PATCH 25/50] fix: accept an empty formal parameter list

---
 parser/function_heading.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index 9623e01..a482814 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -164,6 +164,10 @@ func (p *Parser) ParseFormalParameters(startRune, endRune rune) (ast.FormalParam
 	}
 	p.NextToken()
 	r := ast.FormalParameters{}
+	if p.CurrentToken().Is(token.Symbol(endRune)) {
+		p.NextToken()
+		return r, nil
+	}
 	if err := p.Until(token.Symbol(endRune), token.Symbol(';'), func() error {
 		formalParm, err := p.ParseFormalParm(endRune)
 		if err != nil {
-- 
2.43.0


From 295a7bc755a1f2160098116c742945ebfb6901a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:23 +0000
Subject: [PATCH 26/50] fix: a program file that cannot be opened is an error,
 not a panic

---
 parser/program.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..276f9b7 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,7 +20,7 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
-- 
2.43.0


From 9973e9cd90505e39e66c2dfe1cccaf7ac933e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:25 +0000
Subject: [PATCH 27/50] fix: type names referring to each other do not recurse
 forever

---
 ast/type_id.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ast/type_id.go b/ast/type_id.go
index c29bfa0..cd28c58 100644
--- a/ast/type_id.go
+++ b/ast/type_id.go
@@ -55,7 +55,25 @@ func (m *TypeId) Children() Nodes {
 	return r
 }
 
+// getRefNodeDecl returns the declaration of the type this name finally refers to.
+// It returns nil when the names refer to each other.
 func (m *TypeId) getRefNodeDecl() *TypeDecl {
+	visited := map[*TypeDecl]bool{}
+	for {
+		decl := m.getRefTypeDecl()
+		if decl == nil || visited[decl] {
+			return nil
+		}
+		next, ok := decl.Type.(*TypeId)
+		if !ok {
+			return decl
+		}
+		visited[decl] = true
+		m = next
+	}
+}
+
+func (m *TypeId) getRefTypeDecl() *TypeDecl {
 	if m.Ref == nil {
 		return nil
 	}
-- 
2.43.0


From 6ce04bab44a18ff22b80fdc8428b5cf3250d2ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:27 +0000
Subject: [PATCH 28/50] fix: classes inheriting from each other do not recurse
 forever

---
 ast/type_class.go | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4f72126..f63164f 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -84,7 +84,30 @@ func (m *CustomClassType) GetParentClass() *CustomClassType {
 	return nil
 }
 
+// ancestors returns ancestor classes nearest first.
+func (m *CustomClassType) ancestors() []*CustomClassType {
+	r := []*CustomClassType{}
+	visited := map[*CustomClassType]bool{m: true}
+	for c := m.GetParentClass(); c != nil && !visited[c]; c = c.GetParentClass() {
+		visited[c] = true
+		r = append(r, c)
+	}
+	return r
+}
+
 func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astcore.Decl {
+	if r := m.findOwnMemberDecl(name, includePrivate); r != nil {
+		return r
+	}
+	for _, c := range m.ancestors() {
+		if r := c.findOwnMemberDecl(name, false); r != nil {
+			return r
+		}
+	}
+	return nil
+}
+
+func (m *CustomClassType) findOwnMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
 
 	kw := strings.ToLower(name)
@@ -114,14 +137,24 @@ func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astc
 			}
 		}
 	}
+	return nil
+}
 
-	if parentClass := m.GetParentClass(); parentClass != nil {
-		return parentClass.FindMemberDecl(name, false)
+func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+	if r := m.findOwnProperty(name); r != nil {
+		return r
+	}
+	if acendant {
+		for _, c := range m.ancestors() {
+			if r := c.findOwnProperty(name); r != nil {
+				return r
+			}
+		}
 	}
 	return nil
 }
 
-func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+func (m *CustomClassType) findOwnProperty(name string) *ClassProperty {
 	kw := strings.ToLower(name)
 	for _, mm := range m.Members {
 		if mm.ClassPropertyList != nil {
@@ -132,11 +165,6 @@ func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassPropert
 			}
 		}
 	}
-	if acendant {
-		if parentClass := m.GetParentClass(); parentClass != nil {
-			return parentClass.FindProperty(name, true)
-		}
-	}
 	return nil
 }
 
-- 
2.43.0


From 14f47e36c807b3b565760291d23ca89da4225034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:53 +0000
Subject: [PATCH 29/50] fix: a unit qualified type name refers to the
 declaration in that unit

---
 parser/type.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 24ff050..1e06621 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -153,7 +153,8 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if !p.IsUnitIdentifier(p.CurrentToken()) {
 		return nil, nil
 	}
-	unitId := ast.NewUnitId(p.CurrentToken())
+	unitToken := p.CurrentToken()
+	unitId := ast.NewUnitId(unitToken)
 	if _, err := p.Next(token.Symbol('.')); err != nil {
 		return nil, err
 	}
@@ -162,7 +163,13 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 		return nil, err
 	}
 	p.NextToken()
-	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
+	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
+	if item, ok := p.context.Get(unitToken.Value()).Node.(*ast.UsesClauseItem); ok && item.Unit != nil {
+		if declMap := item.Unit.GetDeclMap(); declMap != nil {
+			r.Ref = declMap.Get(t.Value())
+		}
+	}
+	return r, nil
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-- 
2.43.0


From 96079889e5403e4af46c868464d6794ecea7a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:02 +0000
Subject: [PATCH 30/50] fix: a cloned cursor remembers that it stands on a line
 feed

---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..0cf8ea4 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From 82e76d429a778ba6c17a45be126a3ea3cf291678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:04 +0000
Subject: [PATCH 31/50] fix: an unterminated string ends at the end of the text
 instead of looping forever

---
 token/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/string.go b/token/string.go
index be38b40..9eba09a 100644
--- a/token/string.go
+++ b/token/string.go
@@ -11,6 +11,9 @@ func ProcessString(c *runes.Cursor) *Token {
 		var last rune
 		for {
 			r := c.Next()
+			if r == runes.CursorEOF {
+				break
+			}
 			if last != '\\' && r == '\'' {
 				break
 			}
-- 
2.43.0


From 3d8b08659f6abc288e6f291ed365e0cf08e93cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:06 +0000
Subject: [PATCH 32/50] fix: the asterisk opening a comment does not close it

---
 token/comment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/comment.go b/token/comment.go
index 70b3293..013a49b 100644
--- a/token/comment.go
+++ b/token/comment.go
@@ -30,6 +30,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 	case '(':
 		if c.Seek(1) == '*' {
 			start := c.Position.Clone()
+			c.Next() // the asterisk of the opening delimiter
 			for {
 				r := c.Next()
 				if r == '*' && c.Seek(1) == ')' {
-- 
2.43.0


From dcc5b96f6ae8a361f25e465c928d69eea4b4127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:08 +0000
Subject: [PATCH 33/50] fix: start and end position of the end-of-file token
 are separate copies

---
 token/eof.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/token/eof.go b/token/eof.go
index aab4a18..c605369 100644
--- a/token/eof.go
+++ b/token/eof.go
@@ -6,8 +6,7 @@ import (
 
 func ProcessEof(c *runes.Cursor) *Token {
 	if c.Current() == runes.CursorEOF {
-		pos := c.Position.Clone()
-		return NewToken(EOF, c.Text, pos, pos)
+		return NewToken(EOF, c.Text, c.Position.Clone(), c.Position.Clone())
 	}
 	return nil
 }
-- 
2.43.0


From 7937c77405840d1592e1300bcac5ca2c1c774498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:10 +0000
Subject: [PATCH 34/50] fix: a NUL character in the text is not the end of it

---
 runes/cursor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runes/cursor.go b/runes/cursor.go
index 0cf8ea4..579c24f 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -7,7 +7,8 @@ type Cursor struct {
 	wasLF    bool
 }
 
-const CursorEOF = rune(0)
+// CursorEOF is not a valid character, so that no character of a text is mistaken for its end
+const CursorEOF = rune(-1)
 
 func NewCursor(text *[]rune) *Cursor {
 	return &Cursor{
-- 
2.43.0


From 63d87b7cd68b8ac1e941683d19ec912b30dd29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:26 +0000
Subject: [PATCH 35/50] fix: a character that starts no token is an illegal
 token, not a missing one

---
 token/tokenizer.go | 8 ++++++++
 token/type.go      | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..cdd898a 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -42,6 +42,14 @@ var processors = []func(*runes.Cursor) *Token{
 	ProcessSingleSpecialSymbol,
 	ProcessWord,
 	ProcessSpace,
+	ProcessIllegal,
+}
+
+// ProcessIllegal takes one character that no other processor recognises
+func ProcessIllegal(c *runes.Cursor) *Token {
+	start := c.Position.Clone()
+	c.Next()
+	return NewToken(Illegal, c.Text, start, c.Position.Clone())
 }
 
 func (t *Tokenizer) GetNext() *Token {
diff --git a/token/type.go b/token/type.go
index b5da5ef..748e0c5 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Illegal // a character that starts no token
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Illegal:             "illegal character",
 }
 
 func (t Type) String() string {
-- 
2.43.0


From 9e3c14e1251600902b243bdcd1b480b96bdc116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:05 +0000
Subject: [PATCH 36/50] fix: a cloned stackable context keeps its parent

---
 parser/pcontext/stackable_context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/pcontext/stackable_context.go b/parser/pcontext/stackable_context.go
index cd37d22..558f70d 100644
--- a/parser/pcontext/stackable_context.go
+++ b/parser/pcontext/stackable_context.go
@@ -20,8 +20,10 @@ func NewStackableContext(parent Context, args ...interface{}) Context {
 }
 
 func (c *StackableContext) Clone() Context {
-	return &ProgramContext{
-		DeclMap: c.declMap,
+	return &StackableContext{
+		path:    c.path,
+		parent:  c.parent,
+		declMap: c.declMap,
 	}
 }
 
-- 
2.43.0


From e4cdc5dbbfa7eccfe8cd559b9876b48c57417589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:07 +0000
Subject: [PATCH 37/50] fix: a portability directive is recorded as the lower
 case constant whatever its letter case

---
 parser/type.go        | 4 +++-
 parser/unit_parser.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 1e06621..07642bb 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
 	"github.com/pkg/errors"
@@ -89,7 +91,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	}
 
 	if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
-		portabilityDirective := ast.PortabilityDirective(t.Value())
+		portabilityDirective := ast.PortabilityDirective(strings.ToLower(t.Value()))
 		res.PortabilityDirective = &portabilityDirective
 		p.NextToken()
 	}
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index cbb450f..74a7d65 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"io/ioutil"
 	"os"
+	"strings"
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/ast/astcore"
@@ -102,7 +103,7 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 
 	t := p.NextToken()
 	if t.Is(token.PortabilityDirective) {
-		s := ast.PortabilityDirective(t.Value())
+		s := ast.PortabilityDirective(strings.ToLower(t.Value()))
 		res.PortabilityDirective = &s
 		t = p.NextToken()
 	}
-- 
2.43.0


From bdaa8caa588b33fa8eb122e7c2bbc0248fea9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:24 +0000
Subject: [PATCH 38/50] fix: an exports item may have both a name and an index

---
 parser/block.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/parser/block.go b/parser/block.go
index 801aa24..da86888 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -132,21 +132,26 @@ func (p *Parser) ParseExportsStmt(required bool) (*ast.ExportsStmt, error) {
 			return err
 		}
 		item := &ast.ExportsItem{Ident: p.NewIdent(t)}
-		t2 := p.NextToken()
-		if t2.Is(token.Directives("NAME")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
-			}
-			item.Name = constExpr
-		} else if t2.Is(token.Directives("INDEX")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
+		p.NextToken()
+		for {
+			t2 := p.CurrentToken()
+			if item.Name == nil && t2.Is(token.Directives("NAME")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Name = constExpr
+			} else if item.Index == nil && t2.Is(token.Directives("INDEX")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Index = constExpr
+			} else {
+				break
 			}
-			item.Index = constExpr
 		}
 		items = append(items, item)
 		return nil
-- 
2.43.0


From a9bf367d544dbd97370aafd0f5c1ceb4cede2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:26 +0000
Subject: [PATCH 39/50] fix: failed registrations of used units and the program
 are returned

---
 parser/program.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/program.go b/parser/program.go
index 276f9b7..c550bc4 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -157,7 +157,9 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 			return errors.Errorf("UsesClauseItem not found for %s", u.Ident.Name)
 		}
 		usesItem.Unit = u
-		usesMap.Set(usesItem)
+		if err := usesMap.Set(usesItem); err != nil {
+			return err
+		}
 	}
 
 	localMap := astcore.NewDeclMap()
@@ -166,7 +168,5 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 	maps = append(maps, p.context.DeclMap)
 	p.context.DeclMap = astcore.NewCompositeDeclMap(maps...)
 	p.Program.DeclMap = localMap
-	localMap.Set(p.Program)
-
-	return nil
+	return localMap.Set(p.Program)
 }
-- 
2.43.0


From ee267d13b68f565ffb4187a84dc68d74b0a4b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:48 +0000
Subject: [PATCH 40/50] fix: two used files with the same unit name are an
 error, not a panic

---
 parser/unit_parsers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/unit_parsers.go b/parser/unit_parsers.go
index 871992b..979d0bb 100644
--- a/parser/unit_parsers.go
+++ b/parser/unit_parsers.go
@@ -56,6 +56,11 @@ func (m UnitParsers) Graph() *toposort.Graph {
 
 func (m UnitParsers) Sort() (UnitParsers, error) {
 	loaderMap := m.Map()
+	for _, loader := range m {
+		if other := loaderMap[strings.ToLower(loader.Unit.Name)]; other != loader {
+			return nil, errors.Errorf("duplicate unit %s: %s and %s", loader.Unit.Name, loader.Unit.Path, other.Unit.Path)
+		}
+	}
 
 	graph := m.Graph()
 	order, ok := graph.Toposort()
-- 
2.43.0


From 8bc9958bd6564c2381feddaaa392b570ef5604e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 41/50] fix: a class inherits from the actual class of a
 forward declared ancestor

---
 ast/type_class.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index f63164f..236e07c 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -75,8 +75,11 @@ func (m *CustomClassType) GetParentClass() *CustomClassType {
 		parent := m.Heritage[0]
 		if parent.Ref != nil {
 			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				if parentClass, ok := typeDecl.Type.(*CustomClassType); ok {
+				switch parentClass := typeDecl.Type.(type) {
+				case *CustomClassType:
 					return parentClass
+				case *ForwardDeclaredClassType:
+					return parentClass.Actual
 				}
 			}
 		}
-- 
2.43.0


From a8a90b6f7110efc3854fbb8fe737afac70e687b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:26 +0000
Subject: [PATCH 42/50] fix: the error about a duplicate declaration names the
 file

---
 parser/pcontext/program_context.go | 4 ++++
 parser/pcontext/unit_context.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/parser/pcontext/program_context.go b/parser/pcontext/program_context.go
index edad36d..a66d3fc 100644
--- a/parser/pcontext/program_context.go
+++ b/parser/pcontext/program_context.go
@@ -51,6 +51,10 @@ func (c *ProgramContext) Clone() Context {
 	}
 }
 
+func (c *ProgramContext) Set(decl astcore.DeclNode) error {
+	return errors.Wrap(c.DeclMap.Set(decl), c.Path)
+}
+
 func (c *ProgramContext) GetPath() string {
 	return c.Path
 }
diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index 3e36f64..bf5818b 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -65,6 +65,10 @@ func (c *UnitContext) AssignUnits(usesClause ast.UsesClause) {
 	}
 }
 
+func (c *UnitContext) Set(decl astcore.DeclNode) error {
+	return errors.Wrap(c.DeclMap.Set(decl), c.Path)
+}
+
 func (c *UnitContext) GetPath() string {
 	return c.Path
 }
-- 
2.43.0


From dcb57327bae195b2762e97ce2698e5cf13d1816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:43 +0000
Subject: [PATCH 43/50] fix: a block without a BEGIN or ASM body is an error

---
 parser/block.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/block.go b/parser/block.go
index da86888..f240c2a 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -32,6 +32,8 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 			return nil, err
 		}
 		res.Body = asmStmt
+	default:
+		return nil, p.TokenErrorf("expects BEGIN or ASM but was %s", p.CurrentToken())
 	}
 
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
-- 
2.43.0


From 829fb1f8ef56d29cfcda9585da93ea8d6fd16794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:55 +0000
Subject: [PATCH 44/50] fix: an external or forward routine does not take the
 following declarations and body as its own

---
 ast/function.go    | 6 +++++-
 parser/function.go | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ast/function.go b/ast/function.go
index 5af93c3..6dfba60 100644
--- a/ast/function.go
+++ b/ast/function.go
@@ -39,7 +39,11 @@ var _ ProcedureDeclSection = (*FunctionDecl)(nil)
 func (*FunctionDecl) canBeDeclSection()       {}
 func (*FunctionDecl) isProcedureDeclSection() {}
 func (m *FunctionDecl) Children() Nodes {
-	return Nodes{m.FunctionHeading, m.Block}
+	r := Nodes{m.FunctionHeading}
+	if m.Block != nil {
+		r = append(r, m.Block)
+	}
+	return r
 }
 func (m *FunctionDecl) ToDeclarations() astcore.Decls {
 	return astcore.Decls{astcore.NewDeclaration(m.Ident, m)}
diff --git a/parser/function.go b/parser/function.go
index c18c160..b5997ca 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -36,6 +36,11 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		res.ExternalOptions = opts
 	}
 	// TODO PortabilityDirective
+	for _, d := range res.Directives {
+		if d == ast.DrExternal || d == ast.DrForward {
+			return res, nil // the block is somewhere else
+		}
+	}
 	block, err := p.ParseBlock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 300533bce9da684cc315e931270a07496ecf69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 45/50] fix: RAISE without object may end an initialization
 part

---
 parser/statement_raise.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/statement_raise.go b/parser/statement_raise.go
index 57ce1eb..1833ad2 100644
--- a/parser/statement_raise.go
+++ b/parser/statement_raise.go
@@ -13,6 +13,7 @@ var raiseStmtTerminator = token.Some(
 	token.ReservedWord.HasKeyword("UNTIL"),
 	token.ReservedWord.HasKeyword("EXCEPT"),
 	token.ReservedWord.HasKeyword("FINALLY"),
+	token.ReservedWord.HasKeyword("FINALIZATION"),
 )
 
 func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
-- 
2.43.0


From 4a6de4a810c3ee5f09344d76d60b5864dd7ada0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:02 +0000
Subject: [PATCH 46/50] fix: ParameterType.Children has no nil entry for array
 of const

---
 ast/function_heading.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast/function_heading.go b/ast/function_heading.go
index 008edf2..b5591bc 100644
--- a/ast/function_heading.go
+++ b/ast/function_heading.go
@@ -173,7 +173,11 @@ type ParameterType struct {
 var _ Node = (*ParameterType)(nil)
 
 func (m *ParameterType) Children() Nodes {
-	return Nodes{m.Type}
+	r := Nodes{}
+	if m.Type != nil {
+		r = append(r, m.Type)
+	}
+	return r
 }
 
 func NewParameterType(arg interface{}) *ParameterType {
-- 
2.43.0


From 0590e3f487c479536ebba1c2e91e417b6d7d7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:04 +0000
Subject: [PATCH 47/50] fix: VarDeclAbsoluteConstExpr.Children includes every
 operand

---
 ast/var.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/var.go b/ast/var.go
index ff545e6..3920135 100644
--- a/ast/var.go
+++ b/ast/var.go
@@ -97,6 +97,9 @@ type VarDeclAbsoluteConstExpr ConstExpr
 var _ VarDeclAbsolute = (*VarDeclAbsoluteConstExpr)(nil)
 
 func (*VarDeclAbsoluteConstExpr) isVarDeclAbsolute() {}
+func (m *VarDeclAbsoluteConstExpr) Children() Nodes {
+	return (*ConstExpr)(m).Children()
+}
 
 // threadvar X: Integer;
 // Thread-variable declarations
-- 
2.43.0


From d40008f39bb31f3b2eff94735a24bf51f2489bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:06 +0000
Subject: [PATCH 48/50] fix: VariantSection.Children lists the tag name before
 its type, as written

---
 ast/type_struc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..f9dc2d3 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -157,10 +157,11 @@ type VariantSection struct {
 var _ Node = (*VariantSection)(nil)
 
 func (m *VariantSection) Children() Nodes {
-	r := Nodes{m.TypeId}
+	r := Nodes{}
 	if m.Ident != nil {
 		r = append(r, m.Ident)
 	}
+	r = append(r, m.TypeId)
 	if m.RecVariants != nil {
 		r = append(r, m.RecVariants)
 	}
-- 
2.43.0


From 8cb8db393463d02472f4d3af9dfd81eab89c2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:09 +0000
Subject: [PATCH 49/50] fix: a class inherits from the class its ancestor's
 name is an alias of

---
 ast/type_class.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 236e07c..87fb770 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -73,14 +73,12 @@ func (m *CustomClassType) Children() Nodes {
 func (m *CustomClassType) GetParentClass() *CustomClassType {
 	if m.Heritage != nil && len(m.Heritage) > 0 {
 		parent := m.Heritage[0]
-		if parent.Ref != nil {
-			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				switch parentClass := typeDecl.Type.(type) {
-				case *CustomClassType:
-					return parentClass
-				case *ForwardDeclaredClassType:
-					return parentClass.Actual
-				}
+		if typeDecl := parent.getRefNodeDecl(); typeDecl != nil {
+			switch parentClass := typeDecl.Type.(type) {
+			case *CustomClassType:
+				return parentClass
+			case *ForwardDeclaredClassType:
+				return parentClass.Actual
 			}
 		}
 	}
-- 
2.43.0


From 563022bbdbfcbf23b8991eec79c16007d7b4b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:55 +0000
Subject: [PATCH 50/50] fix: a set or file type is not classified like the type
 of its elements

---
 ast/type_struc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index f9dc2d3..e75bbd0 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -44,8 +44,8 @@ func (m *ArrayType) Children() Nodes {
 //   SET OF OrdinalType [PortabilityDirective]
 //   ```
 type SetType struct {
-	OrdinalType
-	Packed bool
+	OrdinalType OrdinalType
+	Packed      bool
 }
 
 var _ StrucType = (*SetType)(nil)
@@ -62,7 +62,7 @@ func (m *SetType) Children() Nodes {
 //   FILE OF TypeId [PortabilityDirective]
 //   ```
 type FileType struct {
-	*TypeId
+	TypeId *TypeId
 	Packed bool
 }
 
-- 
2.43.0

