From a2cfa4a1aa83eecc7797787a149843a72f01a266 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:13:39 +0000
Subject: [PATCH 01/63] fix: do not take a NUL character in the source text for
 the end of the text

---
 runes/cursor.go  | 4 ++++
 token/comment.go | 6 +++---
 token/eof.go     | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..a809859 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -36,6 +36,10 @@ func (c *Cursor) Seek(n int) rune {
 	return CursorEOF
 }
 
+func (c *Cursor) IsEOF() bool {
+	return c.Position.Index >= c.Len
+}
+
 func (c *Cursor) Next() rune {
 	if c.wasLF {
 		c.Position.nextLine()
diff --git a/token/comment.go b/token/comment.go
index 70b3293..1851f39 100644
--- a/token/comment.go
+++ b/token/comment.go
@@ -9,7 +9,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 	case '{':
 		start := c.Position.Clone()
 		for {
-			if r := c.Next(); r == '}' || r == runes.CursorEOF {
+			if r := c.Next(); r == '}' || c.IsEOF() {
 				break
 			}
 		}
@@ -19,7 +19,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 		if c.Seek(1) == '/' {
 			start := c.Position.Clone()
 			for {
-				if r := c.Next(); r == '\n' || r == runes.CursorEOF {
+				if r := c.Next(); r == '\n' || c.IsEOF() {
 					break
 				}
 			}
@@ -36,7 +36,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 					c.Next()
 					break
 				}
-				if r == runes.CursorEOF {
+				if c.IsEOF() {
 					break
 				}
 			}
diff --git a/token/eof.go b/token/eof.go
index aab4a18..95d02a9 100644
--- a/token/eof.go
+++ b/token/eof.go
@@ -5,7 +5,7 @@ import (
 )
 
 func ProcessEof(c *runes.Cursor) *Token {
-	if c.Current() == runes.CursorEOF {
+	if c.IsEOF() {
 		pos := c.Position.Clone()
 		return NewToken(EOF, c.Text, pos, pos)
 	}
-- 
2.43.0


From 3bc8935c5ef56a0ac3aa7385cdac6394eb4059df Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 02/63] fix: an unterminated character string no longer loops
 forever

---
 token/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/string.go b/token/string.go
index be38b40..2ed1264 100644
--- a/token/string.go
+++ b/token/string.go
@@ -11,6 +11,9 @@ func ProcessString(c *runes.Cursor) *Token {
 		var last rune
 		for {
 			r := c.Next()
+			if c.IsEOF() {
+				break
+			}
 			if last != '\\' && r == '\'' {
 				break
 			}
-- 
2.43.0


From 9e209ad0e37ece66bff45992216d68296a5ba2ab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 03/63] fix: read a doubled single quote as a quote inside a
 character string

---
 token/string.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/token/string.go b/token/string.go
index 2ed1264..e1104d2 100644
--- a/token/string.go
+++ b/token/string.go
@@ -15,7 +15,10 @@ func ProcessString(c *runes.Cursor) *Token {
 				break
 			}
 			if last != '\\' && r == '\'' {
-				break
+				if c.Seek(1) != '\'' {
+					break
+				}
+				r = c.Next() // '' stands for a single quote in the string
 			}
 			last = r
 		}
-- 
2.43.0


From 30afec91485f5ae62a8513b83744dd0d457c964e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 04/63] fix: the '*' which opens a comment does not close it as
 well

---
 token/comment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/comment.go b/token/comment.go
index 1851f39..e16b099 100644
--- a/token/comment.go
+++ b/token/comment.go
@@ -30,6 +30,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 	case '(':
 		if c.Seek(1) == '*' {
 			start := c.Position.Clone()
+			c.Next() // the opening '*' can't close the comment
 			for {
 				r := c.Next()
 				if r == '*' && c.Seek(1) == ')' {
-- 
2.43.0


From a7e0c4bd578f84228ccd912b315b375c47583a6a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:15:36 +0000
Subject: [PATCH 05/63] fix: a cloned cursor keeps a pending line break

---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index a809859..85cc140 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From aa47313738ace1d52f9f360cc62740193447c610 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 06/63] fix: a character which starts no token makes an illegal
 token instead of nil

---
 token/illegal.go   | 12 ++++++++++++
 token/tokenizer.go |  1 +
 token/type.go      |  2 ++
 3 files changed, 15 insertions(+)
 create mode 100644 token/illegal.go

diff --git a/token/illegal.go b/token/illegal.go
new file mode 100644
index 0000000..9a51d78
--- /dev/null
+++ b/token/illegal.go
@@ -0,0 +1,12 @@
+package token
+
+import (
+	"github.com/akm/tparser/runes"
+)
+
+// ProcessIllegal takes one character which can't start any other token.
+func ProcessIllegal(c *runes.Cursor) *Token {
+	start := c.Position.Clone()
+	c.Next()
+	return NewToken(Illegal, c.Text, start, c.Position.Clone())
+}
diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..e97de10 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -42,6 +42,7 @@ var processors = []func(*runes.Cursor) *Token{
 	ProcessSingleSpecialSymbol,
 	ProcessWord,
 	ProcessSpace,
+	ProcessIllegal,
 }
 
 func (t *Tokenizer) GetNext() *Token {
diff --git a/token/type.go b/token/type.go
index b5da5ef..9fde529 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Illegal
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Illegal:             "illegal character",
 }
 
 func (t Type) String() string {
-- 
2.43.0


From 91a39dfa8d5c7fde28f331eb12714398038a5d73 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:15:53 +0000
Subject: [PATCH 07/63] fix: a lookahead rollback keeps the parser's own
 context

---
 parser/base.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..4183c75 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -29,11 +29,9 @@ func (p *Parser) SetText(text *[]rune) {
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-		p.context = ctx
 	}
 }
 
-- 
2.43.0


From 8eb8ded4e917f7dfc399be981ccb4ef60135094b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:15:54 +0000
Subject: [PATCH 08/63] fix: exports statements after the block go to
 ExportsStmts2

---
 parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..801aa24 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -37,7 +37,7 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
 		return nil, err
 	} else if exportStmts != nil {
-		res.ExportsStmts1 = exportStmts
+		res.ExportsStmts2 = exportStmts
 	}
 
 	return res, nil
-- 
2.43.0


From af6e4c01a996fa6571e176946046a99326c7ecfc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:15:55 +0000
Subject: [PATCH 09/63] fix: asm statement stops at END or the end of the text

---
 parser/statement_asm.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..03a3ef4 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -14,12 +14,13 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 
 	log.Printf("ParseAssemblerStatement start")
 
-	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
-			p.NextToken()
-			break
+	for !p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		if p.CurrentToken().Is(token.EOF) {
+			return nil, p.TokenErrorf("expects END of ASM but was %s", p.CurrentToken())
 		}
+		p.NextToken()
 	}
+	p.NextToken()
 
 	log.Printf("ParseAssemblerStatement done")
 
-- 
2.43.0


From de3665a07875584ccd247b2bbeaf282aa08b4805 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 10/63] fix: ParseNumberFactor accepts numerals

---
 parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..c8390ea 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -258,7 +258,7 @@ func (p *Parser) ParseStringFactor(t *token.Token, skipTypeCheck bool) (*ast.Str
 }
 
 func (p *Parser) ParseNumberFactor(t *token.Token, skipTypeCheck bool) (*ast.NumberFactor, error) {
-	if skipTypeCheck || t.Is(token.CharacterString) {
+	if skipTypeCheck || t.Is(token.Some(token.NumeralInt, token.NumeralReal)) {
 		p.NextToken()
 		return &ast.NumberFactor{Value: t.Value()}, nil
 	} else {
-- 
2.43.0


From eb29ccb610ce686a6ff8fb6e99ab8bffdcb9c572 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:15:57 +0000
Subject: [PATCH 11/63] fix: a unit heading without ';' is an error

---
 parser/unit_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..c5662f9 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -104,9 +104,9 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 	if t.Is(token.PortabilityDirective) {
 		s := ast.PortabilityDirective(t.Value())
 		res.PortabilityDirective = &s
-		t = p.NextToken()
+		p.NextToken()
 	}
-	if !t.Is(token.Symbol(';')) {
+	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From cffdf565e7f5992a8fde8fcd8dd5c2be756c9cf1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:16:20 +0000
Subject: [PATCH 12/63] fix: '-' before a numeral which follows a term is a
 binary operator

---
 parser/expression.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index c8390ea..a873115 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/runes"
 	"github.com/akm/tparser/token"
 )
 
@@ -77,9 +78,7 @@ func (p *Parser) ParseSimpleExpression() (*ast.SimpleExpression, error) {
 	res.Term = tm
 
 	for {
-		if p.CurrentToken().Is(AddOpPredicator) {
-			op := p.CurrentToken().Value()
-			p.NextToken()
+		if op, ok := p.takeAddOp(); ok {
 			tm, err := p.ParseTerm()
 			if err != nil {
 				return nil, err
@@ -95,6 +94,24 @@ func (p *Parser) ParseSimpleExpression() (*ast.SimpleExpression, error) {
 	return res, nil
 }
 
+// takeAddOp consumes AddOp if it is there. The tokenizer reads "-1" of "a-1" as one numeral,
+// so that its sign is the operator and the rest of it is the next token.
+func (p *Parser) takeAddOp() (string, bool) {
+	t := p.CurrentToken()
+	if t.Is(AddOpPredicator) {
+		p.NextToken()
+		return t.Value(), true
+	}
+	if t.Is(token.Some(token.NumeralInt, token.NumeralReal)) && runes.IsUnaryOp(t.Raw()[0]) {
+		op := string(t.Raw()[:1])
+		p.curr = t.Clone()
+		p.curr.Start.Index++
+		p.curr.Start.Col++
+		return op, true
+	}
+	return "", false
+}
+
 var UnaryOpPredicator = token.Some(
 	token.Symbol('+'),
 	token.Symbol('-'),
-- 
2.43.0


From d04593b4844c3a7920a3c0274904f02d7914fda5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:16:53 +0000
Subject: [PATCH 13/63] fix: type parsers consume the whole type, ParseTypeDecl
 does not skip a token

---
 parser/type.go       | 7 ++-----
 parser/type_class.go | 6 ++++--
 parser/type_struc.go | 1 +
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..52d4266 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -91,11 +91,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	}
 
 	{
-		t := p.CurrentToken()
-		if t.Is(token.Symbol(';')) {
-			return res, nil
-		}
-		if t := p.NextToken(); t.Is(token.PortabilityDirective) {
+		if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
 			portabilityDirective := ast.PortabilityDirective(t.Value())
 			res.PortabilityDirective = &portabilityDirective
 			p.NextToken()
@@ -169,6 +165,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
+	p.NextToken()
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..5d6cce9 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -34,6 +34,7 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
 		}
+		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
@@ -49,14 +50,15 @@ func (p *Parser) ParseClassType() (ast.ClassType, error) {
 	} else {
 		res.Heritage = heritage
 	}
-	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+	if p.CurrentToken().Is(token.Symbol(';')) {
 		return res, nil
 	}
-	if !p.CurrentToken().Is(token.Symbol(';')) {
+	if !p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
 		if _, err := p.ParseClassMemberSections(res); err != nil {
 			return nil, err
 		}
 	}
+	p.NextToken()
 	return res, nil
 }
 
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..b2c9df4 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -142,6 +142,7 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
 		return nil, err
 	}
+	p.NextToken()
 
 	return r, nil
 }
-- 
2.43.0


From 950cf0c65851673f62e056286ea4562539a5c892 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:17:34 +0000
Subject: [PATCH 14/63] fix: type predicates of a cyclic type alias no longer
 recurse forever

---
 ast/type.go    | 18 ++++++++++++++++++
 ast/type_id.go |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/ast/type.go b/ast/type.go
index 0505bd0..eb7e3c0 100644
--- a/ast/type.go
+++ b/ast/type.go
@@ -49,6 +49,24 @@ func (m *TypeDecl) Children() Nodes {
 	return Nodes{m.Ident, m.Type}
 }
 
+// isCyclicAlias returns true if the type is never reached by following type identifiers.
+// (e.g. TYPE A = B; B = A;)
+func (m *TypeDecl) isCyclicAlias() bool {
+	visited := map[*TypeDecl]bool{}
+	for decl := m; decl != nil; {
+		if visited[decl] {
+			return true
+		}
+		visited[decl] = true
+		typeId, ok := decl.Type.(*TypeId)
+		if !ok || typeId.Ref == nil {
+			return false
+		}
+		decl, _ = typeId.Ref.Node.(*TypeDecl)
+	}
+	return false
+}
+
 func (m *TypeDecl) ToDeclarations() astcore.Decls {
 	return astcore.Decls{astcore.NewDeclaration(m.Ident, m)}
 }
diff --git a/ast/type_id.go b/ast/type_id.go
index c29bfa0..0a3d27d 100644
--- a/ast/type_id.go
+++ b/ast/type_id.go
@@ -66,6 +66,9 @@ func (m *TypeId) getRefNodeDecl() *TypeDecl {
 	if !ok {
 		return nil
 	}
+	if decl.isCyclicAlias() {
+		return nil
+	}
 	return decl
 }
 
-- 
2.43.0


From 1e781cf61a43e7b75cd786dfc59f072ac65ebc4f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:17:36 +0000
Subject: [PATCH 15/63] fix: member lookup of cyclic class inheritance no
 longer recurses forever

---
 ast/type_class.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4f72126..ed53511 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -84,9 +84,29 @@ func (m *CustomClassType) GetParentClass() *CustomClassType {
 	return nil
 }
 
+// classesUpward returns the class and its ancestors. It stops if the inheritance is cyclic.
+func (m *CustomClassType) classesUpward() []*CustomClassType {
+	r := []*CustomClassType{}
+	visited := map[*CustomClassType]bool{}
+	for c := m; c != nil && !visited[c]; c = c.GetParentClass() {
+		visited[c] = true
+		r = append(r, c)
+	}
+	return r
+}
+
 func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
 
+	for i, c := range m.classesUpward() {
+		if r := c.findOwnMemberDecl(name, includePrivate && i == 0); r != nil {
+			return r
+		}
+	}
+	return nil
+}
+
+func (m *CustomClassType) findOwnMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	kw := strings.ToLower(name)
 	for _, mb := range m.Members {
 		if !includePrivate && (mb.Visibility == CvPrivate) {
@@ -114,14 +134,22 @@ func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astc
 			}
 		}
 	}
+	return nil
+}
 
-	if parentClass := m.GetParentClass(); parentClass != nil {
-		return parentClass.FindMemberDecl(name, false)
+func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+	if !acendant {
+		return m.findOwnProperty(name)
+	}
+	for _, c := range m.classesUpward() {
+		if r := c.findOwnProperty(name); r != nil {
+			return r
+		}
 	}
 	return nil
 }
 
-func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassProperty {
+func (m *CustomClassType) findOwnProperty(name string) *ClassProperty {
 	kw := strings.ToLower(name)
 	for _, mm := range m.Members {
 		if mm.ClassPropertyList != nil {
@@ -132,11 +160,6 @@ func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassPropert
 			}
 		}
 	}
-	if acendant {
-		if parentClass := m.GetParentClass(); parentClass != nil {
-			return parentClass.FindProperty(name, true)
-		}
-	}
 	return nil
 }
 
-- 
2.43.0


From 0d3846e5ff9ba84c966960980e4d13e184090b0a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:17:38 +0000
Subject: [PATCH 16/63] fix: a class forward declared before its child is found
 as the parent class

---
 ast/type_class.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index ed53511..4c34cc3 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -75,8 +75,11 @@ func (m *CustomClassType) GetParentClass() *CustomClassType {
 		parent := m.Heritage[0]
 		if parent.Ref != nil {
 			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				if parentClass, ok := typeDecl.Type.(*CustomClassType); ok {
+				switch parentClass := typeDecl.Type.(type) {
+				case *CustomClassType:
 					return parentClass
+				case *ForwardDeclaredClassType:
+					return parentClass.Actual
 				}
 			}
 		}
-- 
2.43.0


From 910f1cee2236e4b1aadab65f625a9578767af1bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 17/63] fix: a type identifier qualified by a unit refers to
 the type in the unit

---
 parser/type.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index 52d4266..e2f6438 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -158,6 +158,12 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 		return nil, nil
 	}
 	unitId := ast.NewUnitId(p.CurrentToken())
+	var unit *ast.Unit
+	if decl := p.context.Get(p.CurrentToken().Value()); decl != nil {
+		if item, ok := decl.Node.(*ast.UsesClauseItem); ok {
+			unit = item.Unit
+		}
+	}
 	if _, err := p.Next(token.Symbol('.')); err != nil {
 		return nil, err
 	}
@@ -166,7 +172,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 		return nil, err
 	}
 	p.NextToken()
-	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
+	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
+	if unit != nil && unit.DeclMap != nil {
+		r.Ref = unit.DeclMap.Get(t.Value())
+	}
+	return r, nil
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-- 
2.43.0


From 0a848f1273fa5dfff012abbddf32c8acae2fb654 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:18:32 +0000
Subject: [PATCH 18/63] fix: accept empty statements and statement lists, and
 RAISE at the end of a statement list

---
 ast/statement.go          |  4 +++-
 parser/statement.go       | 20 +++++++++++++++++---
 parser/statement_raise.go |  2 +-
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/ast/statement.go b/ast/statement.go
index e4ba2ab..ea55f6e 100644
--- a/ast/statement.go
+++ b/ast/statement.go
@@ -50,7 +50,9 @@ func (m *Statement) Children() Nodes {
 	if m.LabelId != nil {
 		res = append(res, m.LabelId)
 	}
-	res = append(res, m.Body)
+	if m.Body != nil {
+		res = append(res, m.Body)
+	}
 	return res
 }
 
diff --git a/parser/statement.go b/parser/statement.go
index 9358f9f..dd7a826 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -33,6 +33,9 @@ func (p *Parser) ParseCompoundStmt(required bool) (*ast.CompoundStmt, error) {
 func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error) {
 	res := ast.StmtList{}
 	for {
+		if p.CurrentToken().Is(terminator) {
+			break
+		}
 		statement, err := p.ParseStatement()
 		if err != nil {
 			return nil, err
@@ -46,13 +49,21 @@ func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error
 		}
 		res = append(res, statement)
 		p.NextToken()
-		if p.CurrentToken().Is(terminator) {
-			break
-		}
 	}
 	return res, nil
 }
 
+// statementEnd matches the tokens which can follow a statement. A statement is empty if it starts with one of them.
+var statementEnd = token.Some(
+	token.Symbol(';'),
+	token.ReservedWord.HasKeyword("END"),
+	token.ReservedWord.HasKeyword("ELSE"),
+	token.ReservedWord.HasKeyword("UNTIL"),
+	token.ReservedWord.HasKeyword("EXCEPT"),
+	token.ReservedWord.HasKeyword("FINALLY"),
+	token.ReservedWord.HasKeyword("FINALIZATION"),
+)
+
 func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	res := &ast.Statement{}
 	labelId := p.CurrentToken()
@@ -68,6 +79,9 @@ func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	}
 
 	t := p.CurrentToken()
+	if t.Is(statementEnd) {
+		return res, nil
+	}
 	if t.Is(token.ReservedWord) {
 		switch t.Value() {
 		case "INHERITED":
diff --git a/parser/statement_raise.go b/parser/statement_raise.go
index 5d37abf..146bada 100644
--- a/parser/statement_raise.go
+++ b/parser/statement_raise.go
@@ -13,7 +13,7 @@ func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 
 	res := &ast.RaiseStmt{}
 
-	if p.CurrentToken().Is(token.Symbol(';')) {
+	if p.CurrentToken().Is(statementEnd) {
 		return res, nil
 	}
 
-- 
2.43.0


From 055a3d61c2276c32647f701dba0fc1d3d21fa18b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:18:33 +0000
Subject: [PATCH 19/63] fix: accept an empty argument list

---
 parser/expression.go | 18 +++++++++++++++---
 parser/statement.go  |  8 +-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index a873115..6c0b54f 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -25,6 +25,20 @@ func (p *Parser) ParseExprList(terminator token.Predicator) (ast.ExprList, error
 	return res, nil
 }
 
+// parseArguments parses '(' [ExprList] ')'
+func (p *Parser) parseArguments() (ast.ExprList, error) {
+	terminator := token.Symbol(')')
+	res := ast.ExprList{}
+	if !p.NextToken().Is(terminator) {
+		var err error
+		if res, err = p.ParseExprList(terminator); err != nil {
+			return nil, err
+		}
+	}
+	p.NextToken()
+	return res, nil
+}
+
 func (p *Parser) ParseExpression() (*ast.Expression, error) {
 	res := &ast.Expression{}
 	se, err := p.ParseSimpleExpression()
@@ -242,12 +256,10 @@ func (p *Parser) ParseFactor() (ast.Factor, error) {
 			Designator: d,
 		}
 		if p.CurrentToken().Is(token.Symbol('(')) {
-			p.NextToken()
-			exprList, err := p.ParseExprList(token.Symbol(')'))
+			exprList, err := p.parseArguments()
 			if err != nil {
 				return nil, err
 			}
-			p.NextToken()
 			res.ExprList = exprList
 		}
 		return res, nil
diff --git a/parser/statement.go b/parser/statement.go
index dd7a826..0b77c14 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -195,17 +195,11 @@ func (p *Parser) ParseDesignatorStatement() (ast.DesignatorStatement, error) {
 	} else {
 		res := &ast.CallStatement{Designator: designator}
 		if t.Is(token.Symbol('(')) {
-			p.NextToken()
-			terminator := token.Symbol(')')
-			exprList, err := p.ParseExprList(terminator)
+			exprList, err := p.parseArguments()
 			if err != nil {
 				return nil, err
 			}
 			res.ExprList = exprList
-			if _, err := p.Current(terminator); err != nil {
-				return nil, err
-			}
-			p.NextToken()
 		}
 		return res, nil
 	}
-- 
2.43.0


From b991afcd0d2d30a4fb8c07fbce230a3a5f0e39e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:18:35 +0000
Subject: [PATCH 20/63] fix: the last case selector needs no ';'

---
 parser/statement_conditional.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/statement_conditional.go b/parser/statement_conditional.go
index f9916ff..d19564f 100644
--- a/parser/statement_conditional.go
+++ b/parser/statement_conditional.go
@@ -78,20 +78,24 @@ func (p *Parser) ParseCaseStmt() (*ast.CaseStmt, error) {
 
 func (p *Parser) ParseCaseSelectors() (ast.CaseSelectors, error) {
 	r := ast.CaseSelectors{}
+	terminator := token.Some(
+		token.ReservedWord.HasKeyword("ELSE"),
+		token.ReservedWord.HasKeyword("END"),
+	)
 	for {
 		selector, err := p.ParseCaseSelector()
 		if err != nil {
 			return nil, err
 		}
 		r = append(r, selector)
+		if p.CurrentToken().Is(terminator) {
+			break
+		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
 		p.NextToken()
-		if p.CurrentToken().Is(token.Some(
-			token.ReservedWord.HasKeyword("ELSE"),
-			token.ReservedWord.HasKeyword("END"),
-		)) {
+		if p.CurrentToken().Is(terminator) {
 			break
 		}
 	}
-- 
2.43.0


From 78ad673a4182c3555a139c93c08cdd8bcddac318 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:18:36 +0000
Subject: [PATCH 21/63] fix: accept an empty set constructor

---
 parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index 6c0b54f..c495cc5 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -344,6 +344,9 @@ func (p *Parser) ParseSetConstructor() (*ast.SetConstructor, error) {
 	}
 	p.NextToken()
 	res := &ast.SetConstructor{}
+	if p.CurrentToken().Is(token.Symbol(']')) {
+		return res, nil
+	}
 	if err := p.Until(token.Symbol(']'), token.Symbol(','), func() error {
 		element, err := p.ParseSetElement()
 		if err != nil {
-- 
2.43.0


From a9fd39e9e70186e6f8d17f18615b124d2b2ff56c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:18:37 +0000
Subject: [PATCH 22/63] fix: accept empty formal parameters

---
 parser/function_heading.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index df19a01..05c2706 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -165,6 +165,10 @@ func (p *Parser) ParseFormalParameters(startRune, endRune rune) (ast.FormalParam
 	}
 	p.NextToken()
 	r := ast.FormalParameters{}
+	if p.CurrentToken().Is(token.Symbol(endRune)) {
+		p.NextToken()
+		return r, nil
+	}
 	if err := p.Until(token.Symbol(endRune), token.Symbol(';'), func() error {
 		formalParm, err := p.ParseFormalParm(endRune)
 		if err != nil {
-- 
2.43.0


From 4ce0eb9356a2a11ee7d679c421cd5460d1c1c9e9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:09 +0000
Subject: [PATCH 23/63] fix: AS is a multiplying operator

---
 parser/expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/expression.go b/parser/expression.go
index c495cc5..0799315 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -171,6 +171,7 @@ var MulOpPredicator = token.Some(
 	token.ReservedWord.HasKeyword("AND"),
 	token.ReservedWord.HasKeyword("SHL"),
 	token.ReservedWord.HasKeyword("SHR"),
+	token.ReservedWord.HasKeyword("AS"),
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
-- 
2.43.0


From 5522d7ceba20c03441a651e52d0129513b3dd0ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:11 +0000
Subject: [PATCH 24/63] fix: an exports item can have both NAME and INDEX

---
 parser/block.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/parser/block.go b/parser/block.go
index 801aa24..c354fd8 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -132,21 +132,25 @@ func (p *Parser) ParseExportsStmt(required bool) (*ast.ExportsStmt, error) {
 			return err
 		}
 		item := &ast.ExportsItem{Ident: p.NewIdent(t)}
-		t2 := p.NextToken()
-		if t2.Is(token.Directives("NAME")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
-			}
-			item.Name = constExpr
-		} else if t2.Is(token.Directives("INDEX")) {
-			p.NextToken()
-			constExpr, err := p.ParseConstExpr()
-			if err != nil {
-				return err
+		p.NextToken()
+		for {
+			if item.Name == nil && p.CurrentToken().Is(token.Directives("NAME")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Name = constExpr
+			} else if item.Index == nil && p.CurrentToken().Is(token.Directives("INDEX")) {
+				p.NextToken()
+				constExpr, err := p.ParseConstExpr()
+				if err != nil {
+					return err
+				}
+				item.Index = constExpr
+			} else {
+				break
 			}
-			item.Index = constExpr
 		}
 		items = append(items, item)
 		return nil
-- 
2.43.0


From d9bcb59c6e5d2ceb48b3b939f73d4dbe736b8b92 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 25/63] fix: portability directives are case insensitive

---
 parser/type.go        | 4 +++-
 parser/unit_parser.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index e2f6438..e81d182 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
 	"github.com/pkg/errors"
@@ -92,7 +94,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 
 	{
 		if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
-			portabilityDirective := ast.PortabilityDirective(t.Value())
+			portabilityDirective := ast.PortabilityDirective(strings.ToLower(t.Value()))
 			res.PortabilityDirective = &portabilityDirective
 			p.NextToken()
 		}
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index c5662f9..2708ad7 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"io/ioutil"
 	"os"
+	"strings"
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/ast/astcore"
@@ -102,7 +103,7 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 
 	t := p.NextToken()
 	if t.Is(token.PortabilityDirective) {
-		s := ast.PortabilityDirective(t.Value())
+		s := ast.PortabilityDirective(strings.ToLower(t.Value()))
 		res.PortabilityDirective = &s
 		p.NextToken()
 	}
-- 
2.43.0


From 51a39d1facd1d192839207a39a3d934a8a5f7ed3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:13 +0000
Subject: [PATCH 26/63] fix: a reserved word which starts no type is an error
 instead of a nil type

---
 parser/type_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..6475655 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -23,7 +23,7 @@ func (p *Parser) ParseStringOfStringType() (ast.StringType, error) {
 	t1 := p.CurrentToken()
 	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t1.Value())
 	if decl == nil {
-		return nil, nil
+		return nil, p.TokenErrorf("Unsupported token %s for StringType", t1)
 	}
 	t2 := p.NextToken()
 	if t2.Is(token.Symbol('[')) {
-- 
2.43.0


From dc28b14db1e63118c66c6c1fb4bdd2d0eac68ad2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:14 +0000
Subject: [PATCH 27/63] fix: a type identifier must be an identifier or STRING

---
 parser/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index e81d182..0ceed05 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -182,7 +182,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-	ident := p.NewIdent(p.CurrentToken())
+	t, err := p.Current(token.Some(token.Identifier, token.ReservedWord.HasKeyword("STRING")))
+	if err != nil {
+		return nil, err
+	}
+	ident := p.NewIdent(t)
 	p.NextToken()
 	r := &ast.TypeId{Ident: ident}
 
-- 
2.43.0


From 48ef6046e954f98a3dc14aec6515adcf4978501d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:16 +0000
Subject: [PATCH 28/63] fix: names of constructors, destructors and properties
 must be identifiers

---
 parser/type_class.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 5d6cce9..db8e699 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -319,7 +319,10 @@ func (p *Parser) ParseConstructorHeading() (*ast.ConstructorHeading, error) {
 	}
 	res := &ast.ConstructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 
 	p.NextToken()
@@ -341,7 +344,10 @@ func (p *Parser) ParseDestructorHeading() (*ast.DestructorHeading, error) {
 	}
 	res := &ast.DestructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	p.NextToken()
 	return res, nil
@@ -378,7 +384,10 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 
 	p.Logf("Parser.ParseClassProperty #01")
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	defer p.TraceMethod("Parser.ParseClassProperty")()
 
-- 
2.43.0


From c7cfb67e361efad52538963d9ff327ac82694179 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:17 +0000
Subject: [PATCH 29/63] fix: consume NODEFAULT and IMPLEMENTS of a property

---
 parser/type_class.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index db8e699..f3d5abc 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -484,6 +484,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 		p.Logf("Parser.ParseClassProperty #18")
 		v := true
 		res.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
+		p.NextToken()
 	}
 
 	p.Logf("Parser.ParseClassProperty #19")
@@ -491,6 +492,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 	//   [IMPLEMENTS TypeId]
 	if strings.ToUpper(p.CurrentToken().Value()) == "IMPLEMENTS" {
 		p.Logf("Parser.ParseClassProperty #20")
+		p.NextToken()
 		typeId, err := p.ParseTypeId()
 		if err != nil {
 			p.Logf("Parser.ParseClassProperty #21")
-- 
2.43.0


From c41395b6757b67cef64566cb12d63614fab1c0ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:40 +0000
Subject: [PATCH 30/63] fix: the default section of a class can start with a
 method or a property

---
 parser/type_class.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index f3d5abc..a333659 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -106,25 +106,21 @@ func (p *Parser) ParseClassMemberSection(classType *ast.CustomClassType) (*ast.C
 	res := &ast.ClassMemberSection{}
 	classType.Members = append(classType.Members, res)
 
-	if t0, err := p.Current(token.Identifier); err != nil {
-		return nil, err
-	} else {
-		switch strings.ToUpper(t0.Value()) {
-		case "PRIVATE":
-			res.Visibility = ast.CvPrivate
-			p.NextToken()
-		case "PROTECTED":
-			res.Visibility = ast.CvProtected
-			p.NextToken()
-		case "PUBLIC":
-			res.Visibility = ast.CvPublic
-			p.NextToken()
-		case "PUBLISHED":
-			res.Visibility = ast.CvPublished
-			p.NextToken()
-		default:
-			res.Visibility = ast.CvDefault
-		}
+	switch strings.ToUpper(p.CurrentToken().Value()) {
+	case "PRIVATE":
+		res.Visibility = ast.CvPrivate
+		p.NextToken()
+	case "PROTECTED":
+		res.Visibility = ast.CvProtected
+		p.NextToken()
+	case "PUBLIC":
+		res.Visibility = ast.CvPublic
+		p.NextToken()
+	case "PUBLISHED":
+		res.Visibility = ast.CvPublished
+		p.NextToken()
+	default:
+		res.Visibility = ast.CvDefault
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
 		return res, nil
-- 
2.43.0


From dce5db42040a1d2dff7902481c8adf06da65385a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:41 +0000
Subject: [PATCH 31/63] fix: accept class methods

---
 parser/type_class.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index a333659..8034b2c 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"strings"
 
 	"github.com/akm/tparser/ast"
@@ -170,6 +169,7 @@ var (
 		propertyBreak,
 	)
 	fieldListBreak = token.Some(
+		token.ReservedWord.HasKeyword("CLASS"),
 		token.ReservedWord.HasKeyword("FUNCTION"),
 		token.ReservedWord.HasKeyword("PROCEDURE"),
 		token.ReservedWord.HasKeyword("CONSTRUCTOR"),
@@ -243,6 +243,10 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 	defer p.TraceMethod("Parser.ParseClassMethod")()
 
 	res := &ast.ClassMethod{}
+	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("CLASS")) {
+		res.ClassMethod = true
+		p.NextToken()
+	}
 	t0, err := p.Current(token.ReservedWord)
 	if err != nil {
 		return nil, err
@@ -270,7 +274,7 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 		}
 		res.Heading = heading
 	default:
-		return nil, fmt.Errorf("unexpected token for method: %s", t0)
+		return nil, p.TokenErrorf("unexpected token for method: %s", t0)
 	}
 
 	directiveList, err := p.ClassMethodDirectiveList()
-- 
2.43.0


From 654b2f73df132d5a5d6e728b0ff2d6e852de9a5a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:19:42 +0000
Subject: [PATCH 32/63] fix: ParseProgram returns an error instead of panic if
 the file can't be opened

---
 parser/program.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..276f9b7 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,7 +20,7 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
-- 
2.43.0


From 9566bc27b3da069af1c0287e599da1649a028ef3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:20:10 +0000
Subject: [PATCH 33/63] fix: accept parameters of a program heading

---
 parser/program.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 276f9b7..a8b72f6 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -75,7 +75,15 @@ func (p *ProgramParser) ParseProgram() (*ast.Program, error) {
 	}
 	p.Program = res
 	// p.context.DeclMap.Set(res)
-	if _, err := p.Next(token.Symbol(';')); err != nil {
+	if p.NextToken().Is(token.Symbol('(')) {
+		// The parameters after the program name are ignored
+		p.NextToken()
+		if _, err := p.ParseIdentList(')'); err != nil {
+			return nil, err
+		}
+		p.NextToken()
+	}
+	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From f68473b92a5eb194a1a10274f06c58ef591381e3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:20:11 +0000
Subject: [PATCH 34/63] fix: the identifier of an exception handler is local to
 the handler, and its type can be undeclared

---
 parser/statement_try.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..7146ce6 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
-	"github.com/akm/tparser/log"
 	"github.com/akm/tparser/token"
 )
 
@@ -121,27 +120,16 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	t := p.NextToken()
 
-	hasIdent := true
+	// The identifier of the exception is available only in the handler
+	defer p.context.StackDeclMap()()
 
-	// p.logger.Printf("p.context.DeclMap.Keys(): %+v\n", p.context.DeclMap.Keys())
-
-	if decl := p.context.Get(t.RawString()); decl != nil {
-		log.Printf("decl: %+v\n", *decl)
-		log.Printf("decl.Node: %+v\n", decl.Node)
-		if _, ok := decl.Node.(*ast.TypeDecl); ok {
-			log.Printf("decl is Node\n")
-			hasIdent = false
-		} else {
-			log.Printf("decl is NOT Node\n")
-		}
-	}
 	decl := &ast.ExceptionBlockHandlerDecl{}
-	if hasIdent {
+	rollback := p.RollbackPoint()
+	if t.Is(token.Identifier) && p.NextToken().Is(token.Symbol(':')) {
 		decl.Ident = p.NewIdent(t)
-		if _, err := p.Next(token.Symbol(':')); err != nil {
-			return nil, err
-		}
 		p.NextToken()
+	} else {
+		rollback()
 	}
 	typ, err := p.ParseType()
 	if err != nil {
-- 
2.43.0


From e46e04590fd54cff31f7a6096361d8d1220fe67c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:20:28 +0000
Subject: [PATCH 35/63] fix: a forward or external routine has no block of its
 own

---
 ast/block.go       | 4 +++-
 parser/function.go | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ast/block.go b/ast/block.go
index ddb4ad7..b8a9b92 100644
--- a/ast/block.go
+++ b/ast/block.go
@@ -33,7 +33,9 @@ func (m *Block) Children() Nodes {
 	if m.ExportsStmts1 != nil {
 		res = append(res, m.ExportsStmts1)
 	}
-	res = append(res, m.Body)
+	if m.Body != nil {
+		res = append(res, m.Body)
+	}
 	if m.ExportsStmts2 != nil {
 		res = append(res, m.ExportsStmts2)
 	}
diff --git a/parser/function.go b/parser/function.go
index c18c160..0dd1eea 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -36,6 +36,12 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		res.ExternalOptions = opts
 	}
 	// TODO PortabilityDirective
+	for _, dir := range res.Directives {
+		if dir == ast.DrForward || dir == ast.DrExternal {
+			res.Block = &ast.Block{} // The block is somewhere else
+			return res, nil
+		}
+	}
 	block, err := p.ParseBlock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f865a334f4498596ac030cc4f3cc2a8e339e72b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:20:50 +0000
Subject: [PATCH 36/63] fix: a type can have the same name as a declaration of
 an outer scope

---
 parser/type.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 0ceed05..03517e0 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -4,8 +4,8 @@ import (
 	"strings"
 
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -71,15 +71,11 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		return nil, err
 	}
 	res.Type = typ
-	if old := p.context.Get(res.Ident.Name); old != nil {
-		typeDecl, ok := old.Node.(*ast.TypeDecl)
-		if !ok {
-			return nil, errors.Errorf("expects type declaration but was %T", old.Node)
-		}
-		fwd, ok := typeDecl.Type.(ast.ForwardDeclaration)
-		if !ok {
-			return nil, errors.Errorf("expects forward declaration but was %T", typeDecl.Type)
-		}
+	old := p.context.Get(res.Ident.Name)
+	if old != nil && old == ast.EmbeddedTypeDeclMap.Get(res.Ident.Name) {
+		return nil, p.TokenErrorf("embedded type %s can't be declared again", ident)
+	}
+	if fwd := uncompletedForwardDeclaration(old); fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
 			return nil, err
 		}
@@ -103,6 +99,21 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	return res, nil
 }
 
+// uncompletedForwardDeclaration returns nil if the declaration isn't waiting for its actual type.
+func uncompletedForwardDeclaration(decl *astcore.Decl) ast.ForwardDeclaration {
+	if decl == nil {
+		return nil
+	}
+	typeDecl, ok := decl.Node.(*ast.TypeDecl)
+	if !ok {
+		return nil
+	}
+	if class, ok := typeDecl.Type.(*ast.ForwardDeclaredClassType); ok && class.Actual == nil {
+		return class
+	}
+	return nil
+}
+
 func (p *Parser) ParseType() (ast.Type, error) {
 	t1 := p.CurrentToken()
 	switch t1.Type {
-- 
2.43.0


From 6bbe360a02db972d616a77e37b3a46c567217965 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:21:12 +0000
Subject: [PATCH 37/63] fix: a unit exports the actual class instead of its
 forward declaration

---
 parser/unit_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 2708ad7..3eab24c 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -163,6 +163,11 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 	for _, decl := range p.Unit.InterfaceSection.InterfaceDecls {
 		declNodes := decl.GetDeclNodes()
 		for _, declNode := range declNodes {
+			if typeDecl, ok := declNode.(*ast.TypeDecl); ok {
+				if fwd, ok := typeDecl.Type.(*ast.ForwardDeclaredClassType); ok && fwd.Actual != nil {
+					continue // The declaration of the actual class follows
+				}
+			}
 			declMap.Set(declNode)
 		}
 	}
-- 
2.43.0


From 8a333172f3b47da5d113fe3c33b0a2b7daea1f7b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:21:13 +0000
Subject: [PATCH 38/63] fix: a unit exports elements of its enumerated types

---
 parser/unit_parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 3eab24c..4c1f5e9 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -169,6 +169,15 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 				}
 			}
 			declMap.Set(declNode)
+			// Elements of enumerated types in the declaration are declared also
+			if err := astcore.WalkDown(declNode, func(n astcore.Node) error {
+				if element, ok := n.(*ast.EnumeratedTypeElement); ok {
+					declMap.Set(element)
+				}
+				return nil
+			}); err != nil {
+				return err
+			}
 		}
 	}
 	p.Unit.DeclMap = declMap
-- 
2.43.0


From 3e548a2cf4a51839d52af4cc83cd1f9bed1917c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:21:43 +0000
Subject: [PATCH 39/63] fix: an identifier qualified by a namespace without
 declarations is an error instead of panic

---
 parser/unit.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/unit.go b/parser/unit.go
index 0e27f44..55e77d2 100644
--- a/parser/unit.go
+++ b/parser/unit.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 )
 
@@ -78,7 +79,10 @@ func (p *Parser) ParseQualId() (*ast.QualId, error) {
 			return nil, p.TokenErrorf("%s is neither unit nor program but was %T", name1, namespaceDecl.Node)
 		}
 
-		decl := namespace.GetDeclMap().Get(name2.Value())
+		var decl *astcore.Decl
+		if declMap := namespace.GetDeclMap(); declMap != nil { // nil until its declarations are parsed
+			decl = declMap.Get(name2.Value())
+		}
 		if decl == nil {
 			return nil, p.TokenErrorf("undefined identifier %s in unit %s", name2, name1.Value())
 		}
-- 
2.43.0


From fc90c2dbcab3a58598d57142a8d32050336cd738 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:21:45 +0000
Subject: [PATCH 40/63] fix: a routine is available after its declaration

---
 parser/function.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index 0dd1eea..ab86862 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -2,10 +2,35 @@ package parser
 
 import (
 	"github.com/akm/tparser/ast"
+	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
 )
 
 func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
+	res, err := p.parseProcedureDeclSection()
+	if err != nil || res == nil {
+		return res, err
+	}
+	if err := p.declareRoutine(res.FunctionHeading, res); err != nil {
+		return nil, err
+	}
+	return res, nil
+}
+
+// declareRoutine makes the routine available after its declaration.
+// A routine can be declared again because of FORWARD or OVERLOAD.
+func (p *Parser) declareRoutine(heading *ast.FunctionHeading, node astcore.DeclNode) error {
+	err := p.context.Set(node)
+	if err != nil {
+		switch p.context.Get(heading.Ident.Name).Node.(type) {
+		case *ast.FunctionDecl, *ast.ExportedHeading:
+			return nil
+		}
+	}
+	return err
+}
+
+func (p *Parser) parseProcedureDeclSection() (*ast.FunctionDecl, error) {
 	var functionHeading *ast.FunctionHeading
 	switch p.CurrentToken().Value() {
 	case "PROCEDURE", "FUNCTION":
-- 
2.43.0


From 218a6e6319be204b51ced646e627732ba57ca915 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:22:01 +0000
Subject: [PATCH 41/63] fix: a routine of the interface section is available in
 its unit

---
 parser/function_heading.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index 05c2706..f0f13d1 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -10,6 +10,17 @@ import (
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
+	res, err := p.parseExportedHeading()
+	if err != nil {
+		return nil, err
+	}
+	if err := p.declareRoutine(res.FunctionHeading, res); err != nil {
+		return nil, err
+	}
+	return res, nil
+}
+
+func (p *Parser) parseExportedHeading() (*ast.ExportedHeading, error) {
 	defer p.context.StackDeclMap()()
 
 	var functionHeading *ast.FunctionHeading
-- 
2.43.0


From 65cb6865c7ed859c838b852ad8521e28ab75b93a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:25:20 +0000
Subject: [PATCH 42/63] fix: a record variant can have a variant section of its
 own

---
 parser/type_struc.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index b2c9df4..3c209e1 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -167,7 +167,7 @@ func (p *Parser) ParseFieldList(terminator token.Predicator) (*ast.FieldList, er
 	r.FieldDecls = fieldDecls
 
 	if p.CurrentToken().Is(casePred) {
-		variantSection, err := p.ParseVariantSection()
+		variantSection, err := p.ParseVariantSection(terminator)
 		if err != nil {
 			return nil, err
 		}
@@ -200,7 +200,7 @@ func (p *Parser) ParseFieldDecl(terminator token.Predicator) (*ast.FieldDecl, er
 	return r, nil
 }
 
-func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
+func (p *Parser) ParseVariantSection(terminator token.Predicator) (*ast.VariantSection, error) {
 	log.Printf("ParseVariantSection")
 	if _, err := p.Current(token.ReservedWord.HasKeyword("CASE")); err != nil {
 		return nil, p.TokenErrorf("Expected CASE, got %s", p.CurrentToken())
@@ -233,9 +233,8 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 	p.NextToken()
 
 	recVariants := ast.RecVariants{}
-	endPred := token.ReservedWord.HasKeyword("END")
-	if err := p.Until(endPred, token.Symbol(';'), func() error {
-		if p.CurrentToken().Is(endPred) {
+	if err := p.Until(terminator, token.Symbol(';'), func() error {
+		if p.CurrentToken().Is(terminator) {
 			return QuitUntil
 		}
 		recVariant, err := p.ParseRecVariant()
@@ -248,7 +247,7 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 		return nil, err
 	}
 	r.RecVariants = recVariants
-	// p.NextToken() // Don't go to next token because ParseRecType check whether current token is END
+	// p.NextToken() // Don't go to next token because the caller checks whether current token is the terminator
 
 	return r, nil
 }
-- 
2.43.0


From f368c9c9cfa507f2107f639800a587b9861d75ba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:25:21 +0000
Subject: [PATCH 43/63] fix: ParseExportedHeading on another token is an error
 instead of panic

---
 parser/function_heading.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index f0f13d1..1c9ca2b 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -31,6 +31,8 @@ func (p *Parser) parseExportedHeading() (*ast.ExportedHeading, error) {
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, p.TokenErrorf("expects FUNCTION or PROCEDURE, but got %s", p.CurrentToken())
 	}
 	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
-- 
2.43.0


From 3cd717fee3ae8f0158bbb963335f46c284203246 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 44/63] fix: a set or a file is not of the kind of its base
 type

---
 ast/type_struc.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..10f0f7b 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -53,6 +53,11 @@ var _ StrucType = (*SetType)(nil)
 func (*SetType) isType()          {}
 func (*SetType) isStrucType()     {}
 func (m *SetType) IsPacked() bool { return m.Packed }
+
+// SetType is not ordinal though its base type is.
+func (*SetType) IsSimpleType() bool  { return false }
+func (*SetType) IsOrdinalType() bool { return false }
+
 func (m *SetType) Children() Nodes {
 	return Nodes{m.OrdinalType}
 }
@@ -71,6 +76,16 @@ var _ StrucType = (*FileType)(nil)
 func (*FileType) isType()          {}
 func (*FileType) isStrucType()     {}
 func (m *FileType) IsPacked() bool { return m.Packed }
+
+// FileType doesn't belong to the kinds of types which its base type belongs to.
+func (*FileType) IsSimpleType() bool  { return false }
+func (*FileType) IsOrdinalType() bool { return false }
+func (*FileType) IsRealType() bool    { return false }
+func (*FileType) IsOrdIdent() bool    { return false }
+func (*FileType) IsStringType() bool  { return false }
+func (*FileType) IsPointerType() bool { return false }
+func (*FileType) IsVariantType() bool { return false }
+
 func (m *FileType) Children() Nodes {
 	return Nodes{m.TypeId}
 }
-- 
2.43.0


From ac9e1db9050106a58b3f4fe561b2fef1ad53a102 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:41:54 +0000
Subject: [PATCH 45/63] fix: the parent class can be given by an alias

---
 ast/type_class.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4c34cc3..bcf2d93 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -72,15 +72,17 @@ func (m *CustomClassType) Children() Nodes {
 
 func (m *CustomClassType) GetParentClass() *CustomClassType {
 	if m.Heritage != nil && len(m.Heritage) > 0 {
-		parent := m.Heritage[0]
-		if parent.Ref != nil {
-			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				switch parentClass := typeDecl.Type.(type) {
-				case *CustomClassType:
-					return parentClass
-				case *ForwardDeclaredClassType:
-					return parentClass.Actual
-				}
+		// The parent can be given by another name of the class. (e.g. TYPE B = A; C = CLASS(B))
+		for typeDecl := m.Heritage[0].getRefNodeDecl(); typeDecl != nil; {
+			switch parent := typeDecl.Type.(type) {
+			case *CustomClassType:
+				return parent
+			case *ForwardDeclaredClassType:
+				return parent.Actual
+			case *TypeId:
+				typeDecl = parent.getRefNodeDecl()
+			default:
+				return nil
 			}
 		}
 	}
-- 
2.43.0


From 9268e4e4266861c22964babb292dbdd36af4e3da Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 03:21:34 +0000
Subject: [PATCH 46/63] fix: two files with one unit name are an error instead
 of panic

---
 parser/program.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/program.go b/parser/program.go
index a8b72f6..5d40f66 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"io/ioutil"
 	"os"
+	"strings"
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/ast/astcore"
@@ -136,6 +137,11 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 		if err := loader.ProcessIdentAndIntfUses(); err != nil {
 			return err
 		}
+		for _, u := range p.context.Units {
+			if strings.EqualFold(u.Ident.Name, loader.Unit.Ident.Name) {
+				return errors.Errorf("unit %s is in both %q and %q", u.Ident.Name, u.Path, loader.Unit.Path)
+			}
+		}
 		p.context.AddUnit(loader.Unit)
 	}
 
-- 
2.43.0


From 13592e4767168f2284de16dee57effa87ec379ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 03:23:33 +0000
Subject: [PATCH 47/63] fix: a property declared with a type hides the
 inherited one

---
 ast/type_class.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index bcf2d93..029f874 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -551,15 +551,8 @@ func (m *ClassProperty) ComputedProperty() *ClassProperty {
 }
 
 func (m *ClassProperty) InheritsFrom(parent *ClassProperty) bool {
-	// TODO Consider complicated cases
-	if parent == nil {
-		return false
-	}
-	prop := parent.ComputedProperty()
-	return (prop.Interface != nil && (m.Interface == nil)) ||
-		(prop.Index != nil && (m.Index == nil)) ||
-		(prop.Read != nil && (m.Read == nil)) ||
-		(prop.Write != nil && (m.Write == nil))
+	// A declaration with a type hides the inherited property, one without a type overrides it.
+	return parent != nil && m.Interface == nil
 }
 
 // - PropertyInterface
-- 
2.43.0


From 2a646a8b84e963f426354302532bcf995a10ad26 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:02:00 +0000
Subject: [PATCH 48/63] fix: StringSet.Slice returns the strings in a fixed
 order

Error messages and the order in which units are parsed depended on the
iteration order of a map: one wrong input gave different errors.
---
 ext/string_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/string_set.go b/ext/string_set.go
index f52124c..9570bae 100644
--- a/ext/string_set.go
+++ b/ext/string_set.go
@@ -44,7 +44,7 @@ func (m StringSet) Slice() Strings {
 		r[i] = k
 		i++
 	}
-	return r
+	return r.Sort()
 }
 
 func (m StringSet) Equal(other StringSet) bool {
-- 
2.43.0


From f3123c92d0c7e0c3526692ce6fd5ed2b1c63fa48 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 49/63] fix: a clone of a StackableContext keeps its parent

The clone had neither the path nor the parent of the original: it did not
find the names which the original finds in its parent.
---
 parser/pcontext/stackable_context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/pcontext/stackable_context.go b/parser/pcontext/stackable_context.go
index cd37d22..558f70d 100644
--- a/parser/pcontext/stackable_context.go
+++ b/parser/pcontext/stackable_context.go
@@ -20,8 +20,10 @@ func NewStackableContext(parent Context, args ...interface{}) Context {
 }
 
 func (c *StackableContext) Clone() Context {
-	return &ProgramContext{
-		DeclMap: c.declMap,
+	return &StackableContext{
+		path:    c.path,
+		parent:  c.parent,
+		declMap: c.declMap,
 	}
 }
 
-- 
2.43.0


From ad81d153ac3c727afc9230e10d70ea0dd2aec630 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 07:06:30 +0000
Subject: [PATCH 50/63] fix: a doubled quotation mark in the path of a unit is
 one quotation mark

---
 ast/uses_clause.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/uses_clause.go b/ast/uses_clause.go
index 45eb8a0..39edcb9 100644
--- a/ast/uses_clause.go
+++ b/ast/uses_clause.go
@@ -95,7 +95,12 @@ func (m *UsesClauseItem) UnquotedPath() string {
 	if m.Path == nil {
 		return ""
 	}
-	return strings.TrimSuffix(strings.TrimPrefix(*m.Path, "'"), "'")
+	s := *m.Path
+	if len(s) < 2 || !strings.HasPrefix(s, "'") || !strings.HasSuffix(s, "'") {
+		return s
+	}
+	// A quotation mark in the path is doubled
+	return strings.ReplaceAll(s[1:len(s)-1], "''", "'")
 }
 
 func (m *UsesClauseItem) EffectivePath() string {
-- 
2.43.0


From 93d238430be571b8e0f9c7dca3e55dd11ac37dfd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 07:07:15 +0000
Subject: [PATCH 51/63] fix: the error for a duplicate declaration names the
 file

---
 parser/pcontext/program_context.go | 4 ++++
 parser/pcontext/unit_context.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/parser/pcontext/program_context.go b/parser/pcontext/program_context.go
index edad36d..9a123f7 100644
--- a/parser/pcontext/program_context.go
+++ b/parser/pcontext/program_context.go
@@ -59,6 +59,10 @@ func (c *ProgramContext) AddUnit(unit *ast.Unit) {
 	c.Units = append(c.Units, unit)
 }
 
+func (c *ProgramContext) Set(decl astcore.DeclNode) error {
+	return errors.Wrapf(c.DeclMap.Set(decl), "%s", c.Path)
+}
+
 func (c *ProgramContext) StackDeclMap() func() {
 	var backup astcore.DeclMap
 	c.DeclMap, backup = astcore.NewChainedDeclMap(c.DeclMap), c.DeclMap
diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index 3e36f64..c09c21c 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -69,6 +69,10 @@ func (c *UnitContext) GetPath() string {
 	return c.Path
 }
 
+func (c *UnitContext) Set(decl astcore.DeclNode) error {
+	return errors.Wrapf(c.DeclMap.Set(decl), "%s", c.Path)
+}
+
 func (c *UnitContext) StackDeclMap() func() {
 	var backup astcore.DeclMap
 	c.DeclMap, backup = astcore.NewChainedDeclMap(c.DeclMap), c.DeclMap
-- 
2.43.0


From 8d6f5277d681ce1e32a2aadf15097d5fd5f61498 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 52/63] fix: errors about external indices, completed classes
 and exchanged units name the place

---
 parser/function_heading.go | 3 +--
 parser/program.go          | 2 +-
 parser/type.go             | 3 ++-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index 1c9ca2b..2180a98 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -6,7 +6,6 @@ import (
 
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseExportedHeading() (*ast.ExportedHeading, error) {
@@ -117,7 +116,7 @@ func (p *Parser) ParseExternalOptions() (*ast.ExternalOptions, error) {
 			}
 			val, err := strconv.ParseInt(f2.Value, 10, 64)
 			if err != nil {
-				return nil, errors.Errorf("Invalid index constant for extenal index %s", f2.Value)
+				return nil, p.TokenErrorf("Invalid index constant for extenal index %s", t2)
 			}
 			v := int(val)
 			r.Index = &v
diff --git a/parser/program.go b/parser/program.go
index 5d40f66..c3fb9e1 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -168,7 +168,7 @@ func (p *ProgramParser) LoadUnits(uses ast.UsesClause) error {
 	for _, u := range units {
 		usesItem := uses.Find(u.Ident.Name)
 		if usesItem == nil {
-			return errors.Errorf("UsesClauseItem not found for %s", u.Ident.Name)
+			return errors.Errorf("UsesClauseItem not found for %s of %q", u.Ident.Name, u.Path)
 		}
 		usesItem.Unit = u
 		usesMap.Set(usesItem)
diff --git a/parser/type.go b/parser/type.go
index 03517e0..f4258a1 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -6,6 +6,7 @@ import (
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/ast/astcore"
 	"github.com/akm/tparser/token"
+	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -77,7 +78,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	}
 	if fwd := uncompletedForwardDeclaration(old); fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
-			return nil, err
+			return nil, errors.Wrap(err, p.PlaceString(ident))
 		}
 		for _, decl := range res.ToDeclarations() {
 			p.context.Overwrite(res.Ident.Name, decl)
-- 
2.43.0


From 682238dc4b97c61c944e5d1d4139d0f230348b5e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 07:09:46 +0000
Subject: [PATCH 53/63] fix: units used by an implementation come before the
 ones used by its interface

---
 parser/unit_parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 4c1f5e9..2936c36 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -203,8 +203,15 @@ func (m *UnitParser) ProcessImplAndInit() error {
 	defer func() { m.Unit.DeclMap = originalUnitDeclMap }()
 
 	// Insert implLocalDeclMap to m.context.DeclMap
-	maps := []astcore.DeclMap{implLocalDeclMap, originalContextDeclMap}
+	// The units used by the implementation come before the ones used by the interface.
+	usesMap := astcore.NewDeclMap()
+	usesMap.Set(m.Unit)
+	for _, item := range m.Unit.ImplementationSection.UsesClause {
+		usesMap.Set(item)
+	}
+	maps := []astcore.DeclMap{implLocalDeclMap, usesMap, originalUnitDeclMap}
 	maps = append(maps, unitsUsedByImpl.DeclMaps().Reverse()...)
+	maps = append(maps, originalContextDeclMap)
 	m.context.DeclMap = astcore.NewCompositeDeclMap(maps...)
 
 	if err := m.ParseImplBody(); err != nil {
-- 
2.43.0


From 7a3423bf5f953fb57800ab9de06adc1a851ba5f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:44:01 +0000
Subject: [PATCH 54/63] fix: a type can be qualified by the name of the unit or
 program itself

---
 parser/type.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index f4258a1..c6f1804 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -168,14 +168,19 @@ func (p *Parser) ParseTypeId() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
-	if !p.IsUnitIdentifier(p.CurrentToken()) {
+	if !p.IsUnitIdentifier(p.CurrentToken()) && !p.IsNamespaceIdentifier(p.CurrentToken()) {
 		return nil, nil
 	}
 	unitId := ast.NewUnitId(p.CurrentToken())
-	var unit *ast.Unit
+	var declMap astcore.DeclMap
 	if decl := p.context.Get(p.CurrentToken().Value()); decl != nil {
-		if item, ok := decl.Node.(*ast.UsesClauseItem); ok {
-			unit = item.Unit
+		switch v := decl.Node.(type) {
+		case *ast.UsesClauseItem:
+			if v.Unit != nil {
+				declMap = v.Unit.DeclMap
+			}
+		case ast.Namespace:
+			declMap = v.GetDeclMap()
 		}
 	}
 	if _, err := p.Next(token.Symbol('.')); err != nil {
@@ -187,8 +192,8 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	}
 	p.NextToken()
 	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
-	if unit != nil && unit.DeclMap != nil {
-		r.Ref = unit.DeclMap.Get(t.Value())
+	if declMap != nil {
+		r.Ref = declMap.Get(t.Value())
 	}
 	return r, nil
 }
-- 
2.43.0


From b5b1bc8a0142b5ad71e6b0bd3200159435ddfa42 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:44:03 +0000
Subject: [PATCH 55/63] fix: the name of a unit qualifies its declarations in
 its interface also

---
 parser/unit_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 2936c36..8d863ef 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -144,6 +144,11 @@ func (m *UnitParser) ProcessIntfBody() error {
 	// Import decls after resovling unit load order and parsing units which this unit uses.
 	m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
 
+	// The names declared so far are available with the name of the unit also.
+	localMap := astcore.NewDeclMap()
+	m.context.DeclMap = astcore.NewCompositeDeclMap(localMap, m.context.DeclMap)
+	m.Unit.DeclMap = localMap
+
 	if err := m.context.Set(m.Unit); err != nil {
 		return err
 	}
-- 
2.43.0


From 275a1f2549c268bacef21490bbf20803c00128e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:25:31 +0000
Subject: [PATCH 56/63] fix: a constant with the name of a built-in type can be
 the low bound of a subrange

---
 parser/type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index c6f1804..b284828 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -146,14 +146,14 @@ func (p *Parser) ParseType() (ast.Type, error) {
 func (p *Parser) ParseTypeForIdentifier() (ast.Type, error) {
 	if res, err := p.parseTypeIdWithUnit(); res != nil || err != nil {
 		return res, err
+	} else if res, err := p.parseSubrangeTypeForIdentifier(false); res != nil || err != nil {
+		return res, err
 	} else if res, err := p.ParseRealType(false); res != nil || err != nil {
 		return res, err
 	} else if res, err := p.ParseOrdIdent(false); res != nil || err != nil {
 		return res, err
 	} else if res, err := p.ParseStringType(false); res != nil || err != nil {
 		return res, err
-	} else if res, err := p.parseSubrangeTypeForIdentifier(false); res != nil || err != nil {
-		return res, err
 	} else {
 		return p.parseTypeIdWithoutUnit()
 	}
-- 
2.43.0


From afdb2049f4b1d47177f521a573d9c804448ed209 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:07:14 +0000
Subject: [PATCH 57/63] fix: a type qualified by its unit can be used for a
 cast

---
 parser/expression.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index 0799315..4e1a655 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -257,6 +257,13 @@ func (p *Parser) ParseFactor() (ast.Factor, error) {
 			Designator: d,
 		}
 		if p.CurrentToken().Is(token.Symbol('(')) {
+			if typeId := qualifiedTypeId(d); typeId != nil {
+				parentheses, err := p.ParseFactor()
+				if err != nil {
+					return nil, err
+				}
+				return &ast.TypeCast{TypeId: typeId, Expression: parentheses.(*ast.Parentheses).Expression}, nil
+			}
 			exprList, err := p.parseArguments()
 			if err != nil {
 				return nil, err
@@ -269,6 +276,18 @@ func (p *Parser) ParseFactor() (ast.Factor, error) {
 	return nil, p.TokenErrorf("unexpected token %s", t0)
 }
 
+// qualifiedTypeId returns nil unless the designator is just the name of a type of a unit.
+func qualifiedTypeId(d *ast.Designator) *ast.TypeId {
+	namespaceId, ident := d.QualId.NamespaceId, d.QualId.Ident
+	if namespaceId == nil || len(d.Items) > 0 {
+		return nil
+	}
+	if _, ok := ident.Ref.Node.(*ast.TypeDecl); !ok {
+		return nil
+	}
+	return ast.NewTypeId(namespaceId.Ident, ident.Ident, ident.Ref)
+}
+
 func (p *Parser) ParseManifestConstant(t *token.Token, skipTypeCheck bool) (*ast.ValueFactor, error) {
 	if skipTypeCheck || ast.IsManifestConstant(t.Value()) {
 		p.NextToken()
-- 
2.43.0


From 2b9d8003cbc7a45c455a93c87ac8d4f921176e22 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:07:25 +0000
Subject: [PATCH 58/63] fix: the low bound of a subrange can be any expression
 which begins with a name or a sign

---
 parser/type.go        |  8 +++++---
 parser/type_simple.go | 43 ++++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index b284828..308b18d 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -123,6 +123,8 @@ func (p *Parser) ParseType() (ast.Type, error) {
 			return p.ParseEnumeratedType()
 		} else if t1.Is(token.Symbol('^')) {
 			return p.ParseCustomPointerType()
+		} else if t1.Is(UnaryOpPredicator) {
+			return p.ParseConstSubrageType()
 		}
 	case token.Identifier:
 		return p.ParseTypeForIdentifier()
@@ -144,9 +146,9 @@ func (p *Parser) ParseType() (ast.Type, error) {
 }
 
 func (p *Parser) ParseTypeForIdentifier() (ast.Type, error) {
-	if res, err := p.parseTypeIdWithUnit(); res != nil || err != nil {
-		return res, err
-	} else if res, err := p.parseSubrangeTypeForIdentifier(false); res != nil || err != nil {
+	if p.startsSubrange() {
+		return p.ParseConstSubrageType()
+	} else if res, err := p.parseTypeIdWithUnit(); res != nil || err != nil {
 		return res, err
 	} else if res, err := p.ParseRealType(false); res != nil || err != nil {
 		return res, err
diff --git a/parser/type_simple.go b/parser/type_simple.go
index c235979..79d54d0 100644
--- a/parser/type_simple.go
+++ b/parser/type_simple.go
@@ -32,32 +32,33 @@ func (p *Parser) ParseOrdIdent(required bool) (ast.OrdIdent, error) {
 	}
 }
 
-func (p *Parser) parseSubrangeTypeForIdentifier(required bool) (*ast.SubrangeType, error) {
+// startsSubrange tells whether the low bound of a subrange starts with the current identifier.
+// Otherwise it is the name of a type.
+func (p *Parser) startsSubrange() bool {
 	rollback := p.RollbackPoint()
-	t1 := p.CurrentToken()
-	t2 := p.NextToken()
-
-	if t2.Is(token.Value("..")) {
-		p.NextToken()
-		expr, err := p.ParseConstExpr()
-		if err != nil {
-			return nil, err
-		}
-		qualId := ast.NewQualId(nil, p.NewIdentRef(t1))
-		return &ast.SubrangeType{
-			Low:  ast.NewConstExpr(qualId),
-			High: expr,
-		}, nil
-	} else {
-		defer rollback()
-		if required {
-			return nil, p.TokenErrorf("Unsupported token %s, %s for SubrangeType", t1, t2.RawString())
-		} else {
-			return nil, nil
+	defer rollback()
+	if p.IsUnitIdentifier(p.CurrentToken()) || p.IsNamespaceIdentifier(p.CurrentToken()) {
+		if !p.NextToken().Is(token.Symbol('.')) || !p.NextToken().Is(token.Identifier) {
+			return false
 		}
 	}
+	p.NextToken()
+	if p.CurrentToken().Is(subrangeLowPredicator) {
+		return true
+	}
+	_, ok := p.takeAddOp()
+	return ok
 }
 
+var subrangeLowPredicator = token.Some(
+	token.Symbol('.', '.'),
+	token.Symbol('.'),
+	token.Symbol('('),
+	token.Symbol('['),
+	token.Symbol('^'),
+	MulOpPredicator,
+)
+
 func (p *Parser) ParseConstSubrageType() (*ast.SubrangeType, error) {
 	lowExpr, err := p.ParseConstExpr()
 	if err != nil {
-- 
2.43.0


From 4f537eba382bfc1f58e68339f9bbe4b354843ce8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:35:50 +0000
Subject: [PATCH 59/63] fix: the class of a class reference can be qualified by
 its unit, or be declared later in the section

---
 parser/type_class.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 8034b2c..1b7545f 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -19,21 +19,13 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 	}
 
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("OF")) {
-		t, err := p.Next(token.Identifier)
-		if err != nil {
+		if _, err := p.Next(token.Identifier); err != nil {
 			return nil, err
 		}
-		var typeId *ast.TypeId
-		decl := p.context.Get(t.Value())
-		if decl != nil {
-			if _, ok := decl.Node.(*ast.TypeDecl); ok {
-				typeId = ast.NewTypeId(ast.NewIdent(t), decl)
-			}
-		}
-		if typeId == nil {
-			typeId = ast.NewTypeId(ast.NewIdent(t))
+		typeId, err := p.ParseTypeId()
+		if err != nil {
+			return nil, err
 		}
-		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
-- 
2.43.0


From eb5a88765c915c9868d5174eb05f4f34ba2b50aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:56:08 +0000
Subject: [PATCH 60/63] fix: a block without BEGIN ... END or ASM ... END is
 rejected

---
 parser/block.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/block.go b/parser/block.go
index c354fd8..c0c77b7 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -32,6 +32,8 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 			return nil, err
 		}
 		res.Body = asmStmt
+	default:
+		return nil, p.TokenErrorf("expects BEGIN or ASM but was %s", p.CurrentToken())
 	}
 
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
-- 
2.43.0


From 6ba697bd3da13918d4d8098ca44cdae7d4a4dcc4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:56:10 +0000
Subject: [PATCH 61/63] fix: a missing semicolon after the block of a routine
 is rejected

---
 parser/function.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index ab86862..944b656 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -71,6 +71,9 @@ func (p *Parser) parseProcedureDeclSection() (*ast.FunctionDecl, error) {
 	if err != nil {
 		return nil, err
 	}
+	if _, err := p.Current(token.Symbol(';')); err != nil {
+		return nil, err
+	}
 	res.Block = block
 	return res, nil
 }
-- 
2.43.0


From 94f2ce691ce9f76f4f832061f4fd56c0d67b1f62 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:57:14 +0000
Subject: [PATCH 62/63] fix: a missing semicolon after the last declaration of
 a TYPE or VAR section is rejected

---
 parser/type.go | 9 +++------
 parser/var.go  | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 308b18d..b94ff8f 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -29,12 +29,9 @@ func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
 		if err != nil {
 			return nil, err
 		}
-		{
-			t := p.CurrentToken()
-			if t.Is(token.ReservedWord) || t.Is(token.EOF) {
-				res = append(res, decl)
-				break
-			}
+		if p.CurrentToken().Is(token.EOF) { // The section is the whole text
+			res = append(res, decl)
+			break
 		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
diff --git a/parser/var.go b/parser/var.go
index be57489..c157b47 100644
--- a/parser/var.go
+++ b/parser/var.go
@@ -23,12 +23,9 @@ func (p *Parser) ParseVarSection(required bool) (ast.VarSection, error) {
 		if err != nil {
 			return nil, err
 		}
-		{
-			t := p.CurrentToken()
-			if t.Is(token.ReservedWord) || t.Is(token.EOF) {
-				res = append(res, decl)
-				break
-			}
+		if p.CurrentToken().Is(token.EOF) { // The section is the whole text
+			res = append(res, decl)
+			break
 		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
-- 
2.43.0


From bb599a39c49881016a728f9a7d4a3598561a639b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:56:47 +0000
Subject: [PATCH 63/63] fix: a missing semicolon between the members of a class
 is rejected

---
 parser/type_class.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 1b7545f..0c14fb6 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -152,9 +152,11 @@ var (
 		token.UpperCase("PUBLISHED"),
 	)
 
+	classEnd = token.ReservedWord.HasKeyword("END")
+
 	propertyBreak = token.Some(
 		visibilityBreak,
-		token.ReservedWord.HasKeyword("END"),
+		classEnd,
 	)
 	methodBreak = token.Some(
 		token.ReservedWord.HasKeyword("PROPERTY"),
@@ -174,7 +176,7 @@ func (p *Parser) ParseClassFieldList() (ast.ClassFieldList, error) {
 	defer p.TraceMethod("Parser.ParseClassFieldList")()
 
 	res := ast.ClassFieldList{}
-	if err := p.Until(fieldListBreak, token.Symbol(';'), func() error {
+	if err := p.Until(classEnd, token.Symbol(';'), func() error {
 		if fieldListBreak.Predicate(p.CurrentToken()) {
 			return QuitUntil
 		}
@@ -281,14 +283,17 @@ func (p *Parser) ParseClassMethod() (*ast.ClassMethod, error) {
 }
 
 func (p *Parser) ClassMethodDirectiveList() (ast.ClassMethodDirectiveList, error) {
-	if p.CurrentToken().Is(token.Symbol(';')) {
-		p.NextToken()
-	}
-
 	defer p.TraceMethod("Parser.ClassMethodDirectiveList")()
 
 	res := ast.ClassMethodDirectiveList{}
-	if err := p.Until(methodBreak, token.Symbol(';'), func() error {
+	if p.CurrentToken().Is(classEnd) {
+		return res, nil
+	}
+	if _, err := p.Current(token.Symbol(';')); err != nil {
+		return nil, err
+	}
+	p.NextToken()
+	if err := p.Until(classEnd, token.Symbol(';'), func() error {
 		w := strings.ToUpper(p.CurrentToken().Value())
 		if ast.ClassMethodDirectives.Include(w) {
 			res = append(res, ast.ClassMethodDirective(w))
@@ -349,7 +354,7 @@ func (p *Parser) ParseClassPropertyList(classType *ast.CustomClassType) (ast.Cla
 	defer p.TraceMethod("Parser.ParseClassPropertyList")()
 
 	res := ast.ClassPropertyList{}
-	if err := p.Until(propertyBreak, nil, func() error {
+	if err := p.Until(classEnd, token.Symbol(';'), func() error {
 		if propertyBreak.Predicate(p.CurrentToken()) {
 			return QuitUntil
 		}
@@ -358,9 +363,6 @@ func (p *Parser) ParseClassPropertyList(classType *ast.CustomClassType) (ast.Cla
 			return err
 		}
 		res = append(res, prop)
-		if p.CurrentToken().Is(token.Symbol(';')) {
-			p.NextToken()
-		}
 		return nil
 	}); err != nil {
 		return nil, err
-- 
2.43.0

