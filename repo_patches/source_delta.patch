From 581a664b4cbc4d29a4a0b92f366a8041b1dd07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 01/37] fix: treat a NUL byte as an ordinary byte, not as the
 end of the template

---
 lexer/lexer.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 942a59f..07674e3 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,7 +101,7 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.char == 0 {
+	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -450,7 +450,7 @@ func (l *Lexer) readString() string {
 
 	pos := l.pos
 
-	for l.char != 0 {
+	for !l.isEOF() {
 		prevChar := l.char
 
 		l.readChar()
@@ -504,7 +504,7 @@ func (l *Lexer) readHTML() string {
 	var out bytes.Buffer
 	l.tokenBegins()
 
-	for l.isHTML && l.char != 0 {
+	for l.isHTML && !l.isEOF() {
 		isDirective, escapedDir := l.isDirectiveToken()
 		areBraces, escapedBraces := l.areBracesToken()
 
@@ -531,7 +531,16 @@ func (l *Lexer) prevChar() byte {
 	return 0
 }
 
+func (l *Lexer) isEOF() bool {
+	return l.pos >= len(l.input)
+}
+
 func (l *Lexer) readChar() {
+	// the end of the input cannot be passed
+	if l.readPos > len(l.input) {
+		return
+	}
+
 	l.prevLine = l.line
 
 	if l.readPos >= len(l.input) {
@@ -574,7 +583,7 @@ func (l *Lexer) skipWhitespace() {
 }
 
 func (l *Lexer) skipComment() {
-	for l.char != 0 {
+	for !l.isEOF() {
 		if l.char != '-' || l.peekChar() != '-' {
 			l.readChar()
 			continue
-- 
2.43.0


From b159ba15d9a4a9750d80040b129ac7efd420d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 02/37] fix: consume illegal characters, so that lexing always
 advances

---
 lexer/lexer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 07674e3..7ede3cd 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"bytes"
 	"strings"
+	"unicode/utf8"
 
 	token "github.com/textwire/textwire/v2/token"
 )
@@ -142,9 +143,19 @@ func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 	return l.newToken(tok, literal)
 }
 
+// illegalToken consumes one whole character, so that the token has
+// its own range in the source and the lexer always advances.
 func (l *Lexer) illegalToken() token.Token {
+	pos := l.pos
+	_, size := utf8.DecodeRuneInString(l.input[pos:])
+
 	l.tokenBegins()
-	return l.newToken(token.ILLEGAL, string(l.char))
+
+	for i := 0; i < size; i++ {
+		l.readChar()
+	}
+
+	return l.newToken(token.ILLEGAL, l.input[pos:l.pos])
 }
 
 func (l *Lexer) directiveToken() token.Token {
-- 
2.43.0


From 1b40de72f4959c75e3cd868942a2ac206816288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 03/37] fix: emit '}}' outside of a block as text

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 7ede3cd..912078a 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -118,7 +118,7 @@ func (l *Lexer) NextToken() token.Token {
 		return tok
 	}
 
-	if l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
+	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
 		return l.bracesToken(token.RBRACES, "}}")
 	}
 
-- 
2.43.0


From c85a113ca0115f05cda21d5447ae36d3905d5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 04/37] fix: an escaped '{{' is text as a whole, also when a
 brace follows it

---
 lexer/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 912078a..3604466 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -527,6 +527,11 @@ func (l *Lexer) readHTML() string {
 			out.Truncate(out.Len() - 1)
 		}
 
+		if escapedBraces {
+			out.WriteByte(l.char)
+			l.readChar()
+		}
+
 		out.WriteByte(l.char)
 		l.readChar()
 	}
-- 
2.43.0


From a191c3741deab67712cfadf771b43349b27be05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 05/37] fix: a comment ends only at '--}}', keeps the mode it
 is in and must be closed

---
 lexer/lexer.go | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3604466..669ee14 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -102,20 +102,26 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
+	for strings.HasPrefix(l.input[l.pos:], "{{--") {
+		pos := l.pos
+		l.tokenBegins()
+
+		if !l.skipComment() {
+			return l.newToken(token.ILLEGAL, l.input[pos:])
+		}
+
+		if !l.isHTML {
+			l.skipWhitespace()
+		}
+	}
+
 	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
 
 	if l.char == '{' && l.peekChar() == '{' {
-		tok := l.bracesToken(token.LBRACES, "{{")
-
-		if l.char == '-' && l.peekChar() == '-' {
-			l.skipComment()
-			return l.NextToken()
-		}
-
-		return tok
+		return l.bracesToken(token.LBRACES, "{{")
 	}
 
 	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
@@ -598,23 +604,20 @@ func (l *Lexer) skipWhitespace() {
 	}
 }
 
-func (l *Lexer) skipComment() {
+// skipComment skips the rest of an opened comment including the
+// closing "--}}". It returns false when the comment is never closed.
+func (l *Lexer) skipComment() bool {
 	for !l.isEOF() {
-		if l.char != '-' || l.peekChar() != '-' {
-			l.readChar()
-			continue
-		}
-
-		l.readChar() // skip "-"
-		l.readChar() // skip "-"
+		if strings.HasPrefix(l.input[l.pos:], "--}}") {
+			for i := 0; i < len("--}}"); i++ {
+				l.readChar()
+			}
 
-		if l.char == '}' || l.peekChar() == '}' {
-			break
+			return true
 		}
-	}
 
-	l.isHTML = true
+		l.readChar()
+	}
 
-	l.readChar() // skip "}"
-	l.readChar() // skip "}"
+	return false
 }
-- 
2.43.0


From e0965f07d5417c6a7a1bcc0369f039c2294c4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 06/37] fix: reject an unterminated string literal

---
 lexer/lexer.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 669ee14..3766161 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -203,7 +203,7 @@ func (l *Lexer) embeddedCodeToken() token.Token {
 	case ')':
 		return l.rightParenthesesToken()
 	case '"', '\'':
-		return l.newToken(token.STR, l.readString())
+		return l.stringToken()
 	case '<':
 		if l.peekChar() == '=' {
 			l.tokenBegins()
@@ -302,6 +302,17 @@ func (l *Lexer) equalToken() token.Token {
 	return l.newToken(token.EQ, "==")
 }
 
+func (l *Lexer) stringToken() token.Token {
+	pos := l.pos
+	str, isClosed := l.readString()
+
+	if !isClosed {
+		return l.newToken(token.ILLEGAL, l.input[pos:])
+	}
+
+	return l.newToken(token.STR, str)
+}
+
 func (l *Lexer) numberToken() token.Token {
 	num, isInt := l.readNumber()
 
@@ -453,16 +464,15 @@ func (l *Lexer) isPotentiallyLong(tok token.TokenType) bool {
 		(tok == token.CONTINUE && l.char == 'I' && l.peekChar() == 'f')
 }
 
-func (l *Lexer) readString() string {
+func (l *Lexer) readString() (result string, isClosed bool) {
 	quote := l.char
-	result := ""
 
 	l.tokenBegins()
 	l.readChar() // skip the first quote
 
 	if l.char == quote {
 		l.readChar() // skip the last quote
-		return result
+		return "", true
 	}
 
 	pos := l.pos
@@ -473,6 +483,7 @@ func (l *Lexer) readString() string {
 		l.readChar()
 
 		if l.char == quote && prevChar != '\\' {
+			isClosed = true
 			break
 		}
 	}
@@ -482,7 +493,7 @@ func (l *Lexer) readString() string {
 	l.readChar() // skip the last quote
 
 	// remove slashes before quotes
-	return strings.ReplaceAll(result, "\\"+string(quote), string(quote))
+	return strings.ReplaceAll(result, "\\"+string(quote), string(quote)), isClosed
 }
 
 func (l *Lexer) readNumber() (string, bool) {
-- 
2.43.0


From 1e68d7ef0a8b198fd38e1140f231a90d137b8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 07/37] fix: parse the right operand at the precedence of its
 operator

---
 parser/parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 61eb7f7..f4330ee 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -239,6 +239,16 @@ func (p *Parser) peekPrecedence() int {
 	return result
 }
 
+func (p *Parser) curPrecedence() int {
+	result, ok := precedences[p.curToken.Type]
+
+	if !ok {
+		return LOWEST
+	}
+
+	return result
+}
+
 func (p *Parser) expectPeek(tok token.TokenType) bool {
 	if p.peekTokenIs(tok) {
 		p.nextToken()
@@ -762,6 +772,8 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		Left:     left,
 	}
 
+	precedence := p.curPrecedence()
+
 	p.nextToken() // skip operator
 
 	if p.curTokenIs(token.RBRACES) {
@@ -769,7 +781,7 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		return nil
 	}
 
-	exp.Right = p.parseExpression(SUM)
+	exp.Right = p.parseExpression(precedence)
 
 	return exp
 }
-- 
2.43.0


From f7018a09762823cc878cfc348133b4cca1abccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 08/37] fix: the value of an assignment is a complete
 expression

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f4330ee..a15178b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -405,7 +405,7 @@ func (p *Parser) parseAssignStmt() ast.Statement {
 		return nil
 	}
 
-	stmt.Value = p.parseExpression(SUM)
+	stmt.Value = p.parseExpression(LOWEST)
 
 	return stmt
 }
-- 
2.43.0


From d926d0b2afc430cf69cbbe7f01b914c95683957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 09/37] fix: report every illegal token

---
 parser/parser.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a15178b..9014dbc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -77,8 +77,8 @@ func New(lexer *lexer.Lexer, filepath string) *Parser {
 		reserves:   map[string]*ast.ReserveStmt{},
 	}
 
-	p.nextToken() // fill curToken
-	p.nextToken() // fill peekToken
+	p.peekToken = p.l.NextToken()
+	p.nextToken() // fill curToken and peekToken
 
 	// Prefix operators
 	p.prefixParseFns = make(map[token.TokenType]prefixParseFn)
@@ -126,12 +126,8 @@ func (p *Parser) ParseProgram() *ast.Program {
 	for !p.curTokenIs(token.EOF) {
 		stmt := p.parseStatement()
 
+		// the error is already recorded
 		if p.curTokenIs(token.ILLEGAL) {
-			p.newError(
-				p.curToken.ErrorLine(),
-				fail.ErrIllegalToken,
-				p.curToken.Literal,
-			)
 			return nil
 		}
 
@@ -255,6 +251,16 @@ func (p *Parser) expectPeek(tok token.TokenType) bool {
 		return true
 	}
 
+	if p.peekTokenIs(token.ILLEGAL) {
+		p.newError(
+			p.peekToken.ErrorLine(),
+			fail.ErrIllegalToken,
+			p.peekToken.Literal,
+		)
+
+		return false
+	}
+
 	p.newError(
 		p.peekToken.ErrorLine(),
 		fail.ErrWrongNextToken,
@@ -273,6 +279,14 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
 	p.peekToken = p.l.NextToken()
+
+	if p.curTokenIs(token.ILLEGAL) {
+		p.newError(
+			p.curToken.ErrorLine(),
+			fail.ErrIllegalToken,
+			p.curToken.Literal,
+		)
+	}
 }
 
 func (p *Parser) parseIdentifier() ast.Expression {
-- 
2.43.0


From ba155f5449632fcecd1db6e57a7cb9055b65fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 10/37] fix: a statement in braces must be followed by ';' or
 '}}'

---
 parser/parser.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9014dbc..15bae20 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -153,10 +153,8 @@ func (p *Parser) parseStatement() ast.Statement {
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
-	case token.LBRACES:
-		return p.parseEmbeddedCode()
-	case token.SEMI:
-		return p.parseEmbeddedCode()
+	case token.LBRACES, token.SEMI:
+		return p.parseBracesStmt()
 	case token.IF:
 		return p.parseIfStmt()
 	case token.FOR:
@@ -188,6 +186,22 @@ func (p *Parser) parseStatement() ast.Statement {
 	}
 }
 
+// parseBracesStmt parses one statement inside of "{{ }}". Statements
+// are separated by ";" and the last one must be followed by "}}".
+func (p *Parser) parseBracesStmt() ast.Statement {
+	stmt := p.parseEmbeddedCode()
+
+	if stmt == nil || p.peekTokenIs(token.SEMI) {
+		return stmt
+	}
+
+	if !p.expectPeek(token.RBRACES) { // move to "}}"
+		return nil
+	}
+
+	return stmt
+}
+
 func (p *Parser) parseEmbeddedCode() ast.Statement {
 	p.nextToken() // skip "{{" or ";" or "("
 
@@ -1018,13 +1032,7 @@ func (p *Parser) parseBlockStmt() *ast.BlockStmt {
 func (p *Parser) parseExpressionStmt() ast.Statement {
 	exp := p.parseExpression(LOWEST)
 
-	result := &ast.ExpressionStmt{Token: p.curToken, Expression: exp}
-
-	if p.peekTokenIs(token.RBRACES) {
-		p.nextToken() // skip "}}"
-	}
-
-	return result
+	return &ast.ExpressionStmt{Token: p.curToken, Expression: exp}
 }
 
 func (p *Parser) parseExpression(precedence int) ast.Expression {
-- 
2.43.0


From 70597eb530519a6c9186acc4ea07aa517f42e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 11/37] fix: an object literal must be closed, parsing it
 always ends

---
 parser/parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 15bae20..78ead58 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -393,15 +393,16 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 			obj.Pairs[key] = p.parseExpression(LOWEST)
 		}
 
-		if p.peekTokenIs(token.RBRACE) {
-			p.nextToken() // skip "}"
+		if !p.peekTokenIs(token.COMMA) {
+			if !p.expectPeek(token.RBRACE) { // move to "}"
+				return nil
+			}
+
 			break
 		}
 
-		if p.peekTokenIs(token.COMMA) {
-			p.nextToken() // move to ","
-			p.nextToken() // skip ","
-		}
+		p.nextToken() // move to ","
+		p.nextToken() // skip ","
 	}
 
 	return obj
-- 
2.43.0


From 3930a33f89bc764e2ca1bfdd620152b8aaaacb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 12/37] fix: parse blocks up to their end, empty and
 unterminated blocks included

---
 parser/parser.go | 57 +++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 78ead58..541b370 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -623,8 +623,6 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			if !p.expectPeek(token.RPAREN) { // move to ")"
 				return nil
 			}
-
-			p.nextToken() // skip ")"
 		}
 
 		slots = append(slots, &ast.SlotStmt{
@@ -633,12 +631,22 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			Body:  p.parseBlockStmt(),
 		})
 
-		p.nextToken() // skip block statement
-		p.nextToken() // skip "@end"
+		if !p.expectPeek(token.END) { // move to "@end" of the slot
+			return nil
+		}
 
-		for p.curTokenIs(token.HTML) {
+		for p.peekTokenIs(token.HTML) {
 			p.nextToken() // skip whitespace
 		}
+
+		if p.peekTokenIs(token.SLOT) {
+			p.nextToken() // move to "@slot"
+			continue
+		}
+
+		if !p.expectPeek(token.END) { // move to "@end" of the component
+			return nil
+		}
 	}
 
 	return slots
@@ -704,8 +712,11 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 	}
 
 	if hasBody {
-		p.nextToken() // skip ")"
 		stmt.Block = p.parseBlockStmt()
+
+		if !p.expectPeek(token.END) { // move to "@end"
+			return nil
+		}
 	}
 
 	p.inserts[stmt.Name.Value] = stmt
@@ -851,8 +862,6 @@ func (p *Parser) parseIfStmt() *ast.IfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Consequence = p.parseBlockStmt()
 
 	for p.peekTokenIs(token.ELSE_IF) {
@@ -885,7 +894,10 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "@elseif"
+	if !p.expectPeek(token.LPAREN) { // move to "("
+		return nil
+	}
+
 	p.nextToken() // skip "("
 
 	condition := p.parseExpression(LOWEST)
@@ -894,10 +906,8 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	return &ast.ElseIfStmt{
-		Token:       p.curToken,
+		Token:       p.peekToken,
 		Condition:   condition,
 		Consequence: p.parseBlockStmt(),
 	}
@@ -905,7 +915,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 
 func (p *Parser) parseAlternativeBlock() *ast.BlockStmt {
 	p.nextToken() // move to "@else"
-	p.nextToken() // skip "@else"
 
 	alt := p.parseBlockStmt()
 
@@ -952,12 +961,10 @@ func (p *Parser) parseForStmt() *ast.ForStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -994,12 +1001,10 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -1010,21 +1015,19 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 	return stmt
 }
 
+// parseBlockStmt parses the statements that follow the current token.
+// It stops before the token that ends the block or before the end of input.
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
-	stmt := &ast.BlockStmt{Token: p.curToken}
+	stmt := &ast.BlockStmt{Token: p.peekToken}
+
+	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF) {
+		p.nextToken() // move to statement
 
-	for !p.curTokenIs(token.END) {
 		block := p.parseStatement()
 
 		if block != nil {
 			stmt.Statements = append(stmt.Statements, block)
 		}
-
-		if p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END) {
-			break
-		}
-
-		p.nextToken() // skip statement
 	}
 
 	return stmt
-- 
2.43.0


From f3a2b5a9fb5d12e31024992964c99f7ec73e6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 13/37] fix: directives with arguments must be closed with a
 parenthesis

---
 parser/parser.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 541b370..2f137fd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -455,6 +455,10 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		Value: p.parseAliasPathShortcut("layouts"),
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.useStmt = stmt
 
 	return stmt
@@ -473,6 +477,10 @@ func (p *Parser) parseBreakIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -489,6 +497,10 @@ func (p *Parser) parseContinueIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -668,6 +680,10 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		Value: p.curToken.Literal,
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.reserves[stmt.Name.Value] = stmt
 
 	return stmt
@@ -701,6 +717,10 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		p.nextToken() // skip ","
 		stmt.Argument = p.parseExpression(LOWEST)
 
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
+
 		p.inserts[stmt.Name.Value] = stmt
 		hasBody = false
 
-- 
2.43.0


From 4aca74e1272ac2b705817a6eb40b86e76f09ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 14/37] fix: name every token type

---
 token/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/utils.go b/token/utils.go
index cb1b181..9ae153b 100644
--- a/token/utils.go
+++ b/token/utils.go
@@ -63,6 +63,8 @@ var tokens = [...]string{
 	END:         "@end",
 	COMPONENT:   "@component",
 	SLOT:        "@slot",
+	EACH:        "@each",
+	DUMP:        "@dump",
 }
 
 func String(t TokenType) string {
-- 
2.43.0


From 180e954f7830d62041c56145390f30aa9b332b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 15/37] fix: keep the whitespace that follows a component
 without slots

---
 parser/parser.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2f137fd..5f47488 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -58,6 +58,9 @@ type Parser struct {
 	curToken  token.Token
 	peekToken token.Token
 
+	// aheadToken is the token after peekToken, when it is already read.
+	aheadToken *token.Token
+
 	prefixParseFns map[token.TokenType]prefixParseFn
 	infixParseFns  map[token.TokenType]infixParseFn
 
@@ -239,6 +242,16 @@ func (p *Parser) peekTokenIs(tokens ...token.TokenType) bool {
 	return false
 }
 
+// aheadTokenIs looks at the token after peekToken.
+func (p *Parser) aheadTokenIs(tok token.TokenType) bool {
+	if p.aheadToken == nil {
+		ahead := p.l.NextToken()
+		p.aheadToken = &ahead
+	}
+
+	return p.aheadToken.Type == tok
+}
+
 func (p *Parser) peekPrecedence() int {
 	result, ok := precedences[p.peekToken.Type]
 
@@ -292,7 +305,13 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
-	p.peekToken = p.l.NextToken()
+
+	if p.aheadToken != nil {
+		p.peekToken = *p.aheadToken
+		p.aheadToken = nil
+	} else {
+		p.peekToken = p.l.NextToken()
+	}
 
 	if p.curTokenIs(token.ILLEGAL) {
 		p.newError(
@@ -541,13 +560,10 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	if p.peekTokenIs(token.SLOT) {
 		p.nextToken() // skip ")"
 		stmt.Slots = p.parseSlots()
-	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) {
+	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) && p.aheadTokenIs(token.SLOT) {
 		p.nextToken() // skip ")"
-
-		if p.peekTokenIs(token.SLOT) {
-			p.nextToken() // skip whitespace
-			stmt.Slots = p.parseSlots()
-		}
+		p.nextToken() // skip whitespace
+		stmt.Slots = p.parseSlots()
 	}
 
 	p.components = append(p.components, stmt)
-- 
2.43.0


From 217d8682bee22ce4a57a352f8dac7c30d490ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 16/37] fix: every use of a component renders its own slots

---
 ast/program.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/program.go b/ast/program.go
index 22e1ec8..843fe9f 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -78,7 +78,8 @@ func (p *Program) ApplyLayout(prog *Program) {
 
 func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string) *fail.Error {
 	for _, comp := range p.Components {
-		if comp.Name.Value != name {
+		// every use of a component has its own program
+		if comp.Name.Value != name || comp.Block != nil {
 			continue
 		}
 
@@ -111,6 +112,8 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		comp.Block = prog
+
+		break
 	}
 
 	return nil
-- 
2.43.0


From ce13bde2b4e2e1543fffff8cb4b2a56a21335676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 17/37] fix: fill all placeholders of a slot, nested ones
 included

---
 ast/program.go   | 22 +++++++++++++++++-----
 parser/parser.go | 15 +++++++++++----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 843fe9f..01bcd59 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -13,6 +13,7 @@ type Program struct {
 	UseStmt    *UseStmt
 	Statements []Statement
 	Components []*ComponentStmt
+	Slots      []*SlotStmt // all slot placeholders, nested ones included
 	Reserves   map[string]*ReserveStmt
 	Inserts    map[string]*InsertStmt
 	Pos        token.Position
@@ -96,9 +97,7 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		for _, slot := range comp.Slots {
-			idx := findSlotStmtIndex(prog.Statements, slot.Name.Value)
-
-			if idx == -1 {
+			if !prog.fillSlots(slot) {
 				if slot.Name.Value == "" {
 					return fail.New(prog.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
@@ -107,8 +106,6 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 				return fail.New(prog.Line(), progFilePath, "parser",
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
-
-			prog.Statements[idx].(*SlotStmt).Body = slot.Body
 		}
 
 		comp.Block = prog
@@ -119,6 +116,21 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 	return nil
 }
 
+// fillSlots gives the body of the slot to all its placeholders in
+// the component. It returns false if there are no such placeholders.
+func (p *Program) fillSlots(slot *SlotStmt) bool {
+	isFound := false
+
+	for _, placeholder := range p.Slots {
+		if placeholder.Name.Value == slot.Name.Value {
+			placeholder.Body = slot.Body
+			isFound = true
+		}
+	}
+
+	return isFound
+}
+
 func (p *Program) HasReserveStmt() bool {
 	return len(p.Reserves) > 0
 }
diff --git a/parser/parser.go b/parser/parser.go
index 5f47488..63c8737 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -66,6 +66,7 @@ type Parser struct {
 
 	useStmt    *ast.UseStmt
 	components []*ast.ComponentStmt
+	slots      []*ast.SlotStmt
 	inserts    map[string]*ast.InsertStmt
 	reserves   map[string]*ast.ReserveStmt
 }
@@ -145,6 +146,7 @@ func (p *Parser) ParseProgram() *ast.Program {
 	}
 
 	prog.Components = p.components
+	prog.Slots = p.slots
 	prog.Inserts = p.inserts
 	prog.UseStmt = p.useStmt
 	prog.Reserves = p.reserves
@@ -592,10 +594,10 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 	tok := p.curToken
 
 	if !p.peekTokenIs(token.LPAREN) {
-		return &ast.SlotStmt{
+		return p.addSlot(&ast.SlotStmt{
 			Token: tok, // "@slot"
 			Name:  &ast.StringLiteral{Value: ""},
-		}
+		})
 	}
 
 	p.nextToken() // skip "@slot"
@@ -610,10 +612,15 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 		return nil
 	}
 
-	return &ast.SlotStmt{
+	return p.addSlot(&ast.SlotStmt{
 		Token: tok, // "@slot"
 		Name:  slotName,
-	}
+	})
+}
+
+func (p *Parser) addSlot(slot *ast.SlotStmt) *ast.SlotStmt {
+	p.slots = append(p.slots, slot)
+	return slot
 }
 
 func (p *Parser) parseDumpStmt() *ast.DumpStmt {
-- 
2.43.0


From 3d3be5144b6b72474b1abc7393afd516a78f087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 18/37] fix: report slot errors at the slot, the first
 duplicate slot always

---
 ast/program.go | 15 +++++----------
 ast/utils.go   | 13 +++++++------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 01bcd59..28d5df9 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -84,26 +84,21 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 			continue
 		}
 
-		duplicateName, times := findDuplicateSlot(comp.Slots)
+		duplicate, times := findDuplicateSlot(comp.Slots)
 
 		if times > 0 {
-			if name == "" {
-				return fail.New(prog.Line(), progFilePath, "parser",
-					fail.ErrDuplicateDefaultSlotUsage, times, name)
-			}
-
-			return fail.New(prog.Line(), progFilePath, "parser",
-				fail.ErrDuplicateSlotUsage, duplicateName, times, name)
+			return fail.New(duplicate.Line(), progFilePath, "parser",
+				fail.ErrDuplicateSlotUsage, duplicate.Name.Value, times, name)
 		}
 
 		for _, slot := range comp.Slots {
 			if !prog.fillSlots(slot) {
 				if slot.Name.Value == "" {
-					return fail.New(prog.Line(), progFilePath, "parser",
+					return fail.New(slot.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
 				}
 
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(slot.Line(), progFilePath, "parser",
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 		}
diff --git a/ast/utils.go b/ast/utils.go
index 528b829..e2488bb 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -16,19 +16,20 @@ func findSlotStmtIndex(stmts []Statement, slotName string) int {
 	return -1
 }
 
-func findDuplicateSlot(slots []*SlotStmt) (string, int) {
+// findDuplicateSlot returns the first slot whose name is used more than
+// once and the number of its uses.
+func findDuplicateSlot(slots []*SlotStmt) (*SlotStmt, int) {
 	counts := make(map[string]int)
 
 	for _, slot := range slots {
 		counts[slot.Name.Value]++
 	}
 
-	// find the first slot name that has a count greater than 1
-	for name, times := range counts {
-		if times > 1 {
-			return name, times
+	for _, slot := range slots {
+		if times := counts[slot.Name.Value]; times > 1 {
+			return slot, times
 		}
 	}
 
-	return "", 0
+	return nil, 0
 }
-- 
2.43.0


From 885f340dc469e240bf3cf3a4635f3a63a7415e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 19/37] fix: the paths of templates do not depend on the calls
 made before

---
 files.go    | 8 +++-----
 textwire.go | 9 ---------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/files.go b/files.go
index 379ee3f..e103555 100644
--- a/files.go
+++ b/files.go
@@ -7,13 +7,11 @@ import (
 	"strings"
 )
 
+// getFullPath returns the absolute path of the file. With appendExt it's
+// the path of the template with the given name
 func getFullPath(filename string, appendExt bool) (string, error) {
-	if usesTemplates {
-		filename = joinPaths(userConfig.TemplateDir, filename)
-	}
-
 	if appendExt {
-		filename += userConfig.TemplateExt
+		filename = joinPaths(userConfig.TemplateDir, filename) + userConfig.TemplateExt
 	}
 
 	absPath, err := filepath.Abs(filename)
diff --git a/textwire.go b/textwire.go
index d384894..8c1d828 100644
--- a/textwire.go
+++ b/textwire.go
@@ -13,9 +13,6 @@ import (
 var userConfig = config.New("templates", ".tw.html", "", false)
 var customFunc = config.NewFunc()
 
-// usesTemplates is a flag to check if user uses Textwire templates or not
-var usesTemplates = false
-
 func NewTemplate(opt *config.Config) (*Template, error) {
 	Configure(opt)
 
@@ -34,8 +31,6 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	prog, errs := parseStr(inp)
 
 	if len(errs) != 0 {
@@ -60,8 +55,6 @@ func EvaluateString(inp string, data map[string]any) (string, error) {
 }
 
 func EvaluateFile(absPath string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	content, err := fileContent(absPath)
 	if err != nil {
 		return "", fail.FromError(err, 0, absPath, "template").Error()
@@ -126,8 +119,6 @@ func RegisterBoolFunc(name string, fn config.BoolCustomFunc) error {
 }
 
 func Configure(opt *config.Config) {
-	usesTemplates = true
-
 	if opt == nil {
 		return
 	}
-- 
2.43.0


From 39658c188d59a98e765c041c00d384580f337311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 20/37] fix: templates are the files that end in the extension,
 named relative to the directory

---
 files.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/files.go b/files.go
index e103555..ab536cc 100644
--- a/files.go
+++ b/files.go
@@ -46,17 +46,21 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		if info.IsDir() || !strings.Contains(path, userConfig.TemplateExt) {
+		if info.IsDir() || !strings.HasSuffix(info.Name(), userConfig.TemplateExt) {
 			return nil
 		}
 
 		absPath, err := filepath.Abs(path)
+		if err != nil {
+			return err
+		}
 
+		name, err := nameFromPath(path)
 		if err != nil {
 			return err
 		}
 
-		result[nameFromPath(path)] = absPath
+		result[name] = absPath
 
 		return nil
 	})
@@ -68,8 +72,13 @@ func findTextwireFiles() (map[string]string, error) {
 	return result, nil
 }
 
-func nameFromPath(path string) string {
-	name := strings.Replace(path, userConfig.TemplateDir+"/", "", 1)
-	name = strings.Replace(name, userConfig.TemplateExt, "", 1)
-	return name
+// nameFromPath returns the path relative to the template directory
+// without the extension
+func nameFromPath(path string) (string, error) {
+	name, err := filepath.Rel(userConfig.TemplateDir, path)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(filepath.ToSlash(name), userConfig.TemplateExt), nil
 }
-- 
2.43.0


From 7114e811599ac9744de31004a8c792ec5f7c165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 21/37] fix: error texts are not format strings

---
 fail/fail.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fail/fail.go b/fail/fail.go
index dd7897b..9beb65d 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -144,10 +144,10 @@ func (e *Error) Error() error {
 	return errors.New(e.String())
 }
 
-func FromError(err error, line uint, absPath, origin string, args ...any) *Error {
+func FromError(err error, line uint, absPath, origin string) *Error {
 	if err == nil {
 		return nil
 	}
 
-	return New(line, absPath, origin, err.Error(), args...)
+	return New(line, absPath, origin, "%s", err.Error())
 }
-- 
2.43.0


From 264c747ad5fb20fee35ab5866a384c32cf79894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 22/37] fix: report the first faulty file and the first
 undefined insert

---
 ast/insert_stmt.go | 11 +++++++++++
 ast/program.go     | 17 +++++++++++------
 parser_utils.go    | 13 ++++++++++++-
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/ast/insert_stmt.go b/ast/insert_stmt.go
index 09afd50..49cf20d 100644
--- a/ast/insert_stmt.go
+++ b/ast/insert_stmt.go
@@ -41,6 +41,17 @@ func (is *InsertStmt) String() string {
 	return out.String()
 }
 
+// isBefore determines if the insert comes before the other one in the file
+func (is *InsertStmt) isBefore(other *InsertStmt) bool {
+	pos, otherPos := is.Token.Pos, other.Token.Pos
+
+	if pos.StartLine != otherPos.StartLine {
+		return pos.StartLine < otherPos.StartLine
+	}
+
+	return pos.StartCol < otherPos.StartCol
+}
+
 func (is *InsertStmt) Line() uint {
 	return is.Token.ErrorLine()
 }
diff --git a/ast/program.go b/ast/program.go
index 28d5df9..79349a7 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -135,17 +135,22 @@ func (p *Program) HasUseStmt() bool {
 }
 
 func (p *Program) checkUndefinedInsert(inserts map[string]*InsertStmt) *fail.Error {
-	for name := range inserts {
+	var first *InsertStmt
+
+	for name, insert := range inserts {
 		if _, ok := p.Reserves[name]; ok {
 			continue
 		}
 
-		line := inserts[name].Line()
-		path := inserts[name].FilePath
-		name := inserts[name].Name.Value
+		if first == nil || insert.isBefore(first) {
+			first = insert
+		}
+	}
 
-		return fail.New(line, path, "parser", fail.ErrUndefinedInsert, name)
+	if first == nil {
+		return nil
 	}
 
-	return nil
+	return fail.New(first.Line(), first.FilePath, "parser",
+		fail.ErrUndefinedInsert, first.Name.Value)
 }
diff --git a/parser_utils.go b/parser_utils.go
index 906b8f4..941d8ba 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -3,6 +3,7 @@ package textwire
 import (
 	"errors"
 	"os"
+	"sort"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/fail"
@@ -44,7 +45,17 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	for name, absPath := range paths {
+	names := make([]string, 0, len(paths))
+	for name := range paths {
+		names = append(names, name)
+	}
+
+	// the first faulty file must always be the same
+	sort.Strings(names)
+
+	for _, name := range names {
+		absPath := paths[name]
+
 		prog, failErr, parseErr := parseProgram(absPath)
 		if parseErr != nil {
 			return nil, fail.FromError(parseErr, 0, absPath, "template")
-- 
2.43.0


From f7d89016f9409c8ff8b648db0a1eb7fb2e88344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 23/37] fix: a missing layout is reported at the @use of the
 page

---
 parser_utils.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser_utils.go b/parser_utils.go
index 941d8ba..899268c 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -65,7 +65,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 			return nil, failErr
 		}
 
-		if err := applyLayoutToProgram(prog); err != nil {
+		if err := applyLayoutToProgram(prog, absPath); err != nil {
 			return nil, err
 		}
 
@@ -81,7 +81,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 	return result, nil
 }
 
-func applyLayoutToProgram(prog *ast.Program) *fail.Error {
+func applyLayoutToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 	if !prog.HasUseStmt() {
 		return nil
 	}
@@ -95,7 +95,8 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 
 	layoutProg, failErr, parseErr := parseProgram(layoutAbsPath)
 	if parseErr != nil {
-		return fail.FromError(parseErr, stmt.Line(), layoutAbsPath, "template")
+		// the faulty construct is in the page, the message names the layout
+		return fail.FromError(parseErr, stmt.Line(), progFilePath, "template")
 	}
 
 	if failErr != nil {
-- 
2.43.0


From 7043c446505d6ca243226d5301f54a36dcc341e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 24/37] fix: modulo by zero is an error

---
 evaluator/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b4fcc06..0a56d85 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -844,6 +844,10 @@ func (e *Evaluator) evalIntegerInfixExp(
 
 		return &object.Int{Value: leftVal / rightVal}
 	case "%":
+		if rightVal == 0 {
+			return e.newError(leftNode, fail.ErrDivisionByZero)
+		}
+
 		return &object.Int{Value: leftVal % rightVal}
 	case "==":
 		return nativeBoolToBooleanObject(leftVal == rightVal)
-- 
2.43.0


From 383f87ee9729a47f613ad83e93bb8ed19686217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 25/37] fix: negate booleans and nil by value, not by identity

---
 evaluator/evaluator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 0a56d85..938023e 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -946,12 +946,10 @@ func (e *Evaluator) evalBangOperatorExp(
 	right object.Object,
 	node ast.Node,
 ) object.Object {
-	switch right {
-	case FALSE:
-		return TRUE
-	case TRUE:
-		return FALSE
-	case NIL:
+	switch right := right.(type) {
+	case *object.Bool:
+		return nativeBoolToBooleanObject(!right.Value)
+	case *object.Nil:
 		return TRUE
 	}
 
-- 
2.43.0


From 7eae796c5f0cf583b0ad7e0072fefe4f015126aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 26/37] fix: decrement floats below one

---
 object/float.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/object/float.go b/object/float.go
index 00ae395..26f6edc 100644
--- a/object/float.go
+++ b/object/float.go
@@ -37,17 +37,15 @@ func (f *Float) SubtractFromFloat(num uint) error {
 	// Convert the float to a string
 	strValue := strconv.FormatFloat(f.Value, 'f', -1, 64)
 
-	if !strings.Contains(strValue, ".") {
-		f.Value -= float64(num)
-		return nil
-	}
-
 	nums := strings.Split(strValue, ".")
 
 	// Parse the integer part
 	intPart, err := strconv.ParseUint(nums[0], 10, 64)
-	if err != nil {
-		return err
+
+	// the decimal part can only be kept when the sign stays the same
+	if len(nums) != 2 || err != nil || intPart < uint64(num) {
+		f.Value -= float64(num)
+		return nil
 	}
 
 	// Subtract the uint value from the integer part
-- 
2.43.0


From d5028812eadb2fffd36def44fd22c0c42d7e6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 27/37] fix: for loops with absent clauses and assignments as
 post statements

---
 evaluator/evaluator.go | 53 ++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 938023e..82f4f43 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -308,14 +308,17 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 	// loop through the block until the user's condition is false
 	for {
-		cond := e.Eval(node.Condition, newEnv)
+		// without a condition only break ends the loop
+		if node.Condition != nil {
+			cond := e.Eval(node.Condition, newEnv)
 
-		if isError(cond) {
-			return cond
-		}
+			if isError(cond) {
+				return cond
+			}
 
-		if !isTruthy(cond) {
-			break
+			if !isTruthy(cond) {
+				break
+			}
 		}
 
 		block := e.Eval(node.Block, newEnv)
@@ -326,33 +329,53 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 		blocks.WriteString(block.String())
 
+		if hasBreakStmt(block) {
+			break
+		}
+
+		if node.Post == nil {
+			continue
+		}
+
 		post := e.Eval(node.Post, newEnv)
 
 		if isError(post) {
 			return post
 		}
 
-		if node.Init == nil || node.Post == nil {
+		varName, ok := forPostVarName(node)
+		if !ok {
 			continue
 		}
 
-		varName := node.Init.(*ast.AssignStmt).Name.Value
-
 		err := newEnv.Set(varName, post)
 		if err != nil {
 			return e.newError(node, "%s", err.Error())
 		}
+	}
 
-		if hasBreakStmt(block) {
-			break
-		}
+	return &object.HTML{Value: blocks.String()}
+}
 
-		if hasContinueStmt(block) {
-			continue
+// forPostVarName returns the name of the variable that gets the value of
+// the post expression. An assignment is already done by its evaluation.
+func forPostVarName(node *ast.ForStmt) (string, bool) {
+	stmt, ok := node.Post.(*ast.ExpressionStmt)
+	if !ok {
+		return "", false
+	}
+
+	if postfix, ok := stmt.Expression.(*ast.PostfixExp); ok {
+		if ident, ok := postfix.Left.(*ast.Identifier); ok {
+			return ident.Value, true
 		}
 	}
 
-	return &object.HTML{Value: blocks.String()}
+	if init, ok := node.Init.(*ast.AssignStmt); ok {
+		return init.Name.Value, true
+	}
+
+	return "", false
 }
 
 func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Object {
-- 
2.43.0


From 43d4035a6b36074302422946b6927d80501a10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 28/37] fix: iterating a non-array, a property of a non-object
 and empty or multi-byte names do not crash

---
 evaluator/evaluator.go | 19 +++++++++++++------
 evaluator/str_func.go  |  8 +-------
 evaluator/utils.go     |  7 +++++++
 fail/fail.go           |  1 +
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 82f4f43..68fd4c6 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -390,7 +390,12 @@ func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Obj
 		return arrObj
 	}
 
-	elems := arrObj.(*object.Array).Elements
+	arr, ok := arrObj.(*object.Array)
+	if !ok {
+		return e.newError(node.Array, fail.ErrEachNotSupported, arrObj.Type())
+	}
+
+	elems := arr.Elements
 	elemsLen := len(elems)
 
 	// evaluate alternative block if array is empty
@@ -559,10 +564,7 @@ func (e *Evaluator) evalObjectIndexExp(
 		return pair
 	}
 
-	// make first letter lowercase on idx
-	idxUpper := strings.ToUpper(idx[:1]) + idx[1:]
-
-	if pair, ok = objObj.Pairs[idxUpper]; !ok {
+	if pair, ok = objObj.Pairs[capitalize(idx)]; !ok {
 		return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
 	}
 
@@ -576,9 +578,14 @@ func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object
 		return left
 	}
 
+	obj, ok := left.(*object.Obj)
+	if !ok {
+		return e.newError(node, fail.ErrDotOperatorNotSupported, left.Type())
+	}
+
 	key := node.Key.(*ast.Identifier)
 
-	return e.evalObjectIndexExp(left.(*object.Obj), key.Value, node)
+	return e.evalObjectIndexExp(obj, key.Value, node)
 }
 
 func (e *Evaluator) evalString(node *ast.StringLiteral, _ *object.Env) object.Object {
diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 7f5b215..a7192b4 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -90,13 +90,7 @@ func strLowerFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (o
 func strCapitalizeFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Str).Value
 
-	if len(val) == 0 {
-		return &object.Str{Value: ""}, nil
-	}
-
-	newVal := strings.ToUpper(val[:1]) + val[1:]
-
-	return &object.Str{Value: newVal}, nil
+	return &object.Str{Value: capitalize(val)}, nil
 }
 
 // strReverseFunc returns a string with the characters reversed
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 4893614..a9e60b0 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/config"
 	"github.com/textwire/textwire/v2/fail"
@@ -30,6 +31,12 @@ func isTruthy(obj object.Object) bool {
 	return true
 }
 
+// capitalize returns the string with the first character in uppercase
+func capitalize(str string) string {
+	_, size := utf8.DecodeRuneInString(str)
+	return strings.ToUpper(str[:size]) + str[size:]
+}
+
 func isError(obj object.Object) bool {
 	return obj.Is(object.ERR_OBJ)
 }
diff --git a/fail/fail.go b/fail/fail.go
index 9beb65d..c209d4c 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -40,6 +40,7 @@ const (
 	ErrUseStmtMustHaveProgram  = "use statement must have a program attached"
 	ErrLoopVariableIsReserved  = "loop variable is reserved. You cannot use it as a variable name"
 	ErrVariableTypeMismatch    = "cannot assign variable '%s' of type '%s' to type '%s'"
+	ErrEachNotSupported        = "the each loop is not supported for type '%s'"
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
-- 
2.43.0


From 4c8d53d43322683cca1d5c35b7f9cb20604f9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 29/37] fix: a component argument that cannot be bound is an
 error

---
 evaluator/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 68fd4c6..e78b4ed 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -266,7 +266,9 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 				return val
 			}
 
-			newEnv.Set(key, val)
+			if err := newEnv.Set(key, val); err != nil {
+				return e.newError(node, "%s", err.Error())
+			}
 		}
 	}
 
-- 
2.43.0


From 5ce39490292d2a0174298d0690e280695bbca0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 30/37] fix: index an object with the text of the string
 literal

---
 evaluator/evaluator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index e78b4ed..9a9327e 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -533,7 +533,14 @@ func (e *Evaluator) evalIndexExp(
 	case left.Is(object.ARR_OBJ) && idx.Is(object.INT_OBJ):
 		return e.evalArrayIndexExp(left, idx)
 	case left.Is(object.OBJ_OBJ) && idx.Is(object.STR_OBJ):
-		return e.evalObjectIndexExp(left.(*object.Obj), idx.(*object.Str).Value, node.Index)
+		key := idx.(*object.Str).Value
+
+		// a literal names the property as it is written
+		if str, ok := node.Index.(*ast.StringLiteral); ok {
+			key = str.Value
+		}
+
+		return e.evalObjectIndexExp(left.(*object.Obj), key, node.Index)
 	}
 
 	return e.newError(node, fail.ErrIndexNotSupported, left.Type())
-- 
2.43.0


From bba70c88eb15d96e4c4afa6a5eca84ea2f0ff4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 31/37] fix: an error inside of @dump fails the render

---
 evaluator/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 9a9327e..f2dc449 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -496,6 +496,11 @@ func (e *Evaluator) evalDumpStmt(node *ast.DumpStmt, env *object.Env) object.Obj
 
 	for _, arg := range node.Arguments {
 		val := e.Eval(arg, env)
+
+		if isError(val) {
+			return val
+		}
+
 		values = append(values, val.Dump(0))
 	}
 
-- 
2.43.0


From 85f5ca8dd1fb49b97eb976a4f8c5726c7338f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 32/37] fix: string functions count characters, bad counts and
 bounds do not crash

---
 evaluator/array_func.go |  4 ++++
 evaluator/str_func.go   | 33 ++++++++++++++++++++++++++-------
 evaluator/utils.go      | 14 ++++++++++++++
 fail/fail.go            | 17 ++++++++++-------
 4 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index e913f39..5cf78b4 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -126,6 +126,10 @@ func arraySliceFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Objec
 		end = elemsLen
 	}
 
+	if start > end {
+		start = end
+	}
+
 	return &object.Array{Elements: elems[start:end]}, nil
 }
 
diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index a7192b4..bc5538f 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"html"
 	"strings"
-	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/ctx"
 	"github.com/textwire/textwire/v2/fail"
@@ -143,9 +142,15 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 	}
 
 	val := receiver.(*object.Str).Value
-	limit := int(firstArg.Value)
+	chars := []rune(val)
+	limit := firstArg.Value
+
+	if limit < 0 {
+		msg := fmt.Sprintf(fail.ErrFuncFirstArgNegative, "truncate", object.STR_OBJ)
+		return nil, errors.New(msg)
+	}
 
-	if limit >= utf8.RuneCountInString(val) {
+	if limit >= int64(len(chars)) {
 		return &object.Str{Value: val}, nil
 	}
 
@@ -162,7 +167,7 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	newVal := val[:firstArg.Value] + ellipsis
+	newVal := string(chars[:limit]) + ellipsis
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -198,7 +203,7 @@ func strAtFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object) (o
 		index = len(chars) + index
 	}
 
-	if index >= len(chars) {
+	if index < 0 || index >= len(chars) {
 		return &object.Nil{}, nil
 	}
 
@@ -270,7 +275,21 @@ func strRepeatFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object
 	}
 
 	val := receiver.(*object.Str).Value
-	repeated := strings.Repeat(val, int(firstArg.Value))
+	times := firstArg.Value
+
+	if times < 0 {
+		msg := fmt.Sprintf(fail.ErrFuncFirstArgNegative, "repeat", object.STR_OBJ)
+		return nil, errors.New(msg)
+	}
+
+	if len(val) > 0 && times > int64(maxStrSize/len(val)) {
+		msg := fmt.Sprintf(fail.ErrFuncResultTooLong, "repeat", object.STR_OBJ)
+		return nil, errors.New(msg)
+	}
+
+	if val == "" {
+		return &object.Str{Value: ""}, nil
+	}
 
-	return &object.Str{Value: repeated}, nil
+	return &object.Str{Value: strings.Repeat(val, int(times))}, nil
 }
diff --git a/evaluator/utils.go b/evaluator/utils.go
index a9e60b0..9ef4b14 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -12,6 +12,10 @@ import (
 	"github.com/textwire/textwire/v2/utils"
 )
 
+// maxStrSize is the maximum size in bytes of a string that is
+// built by a function that repeats its receiver or argument
+const maxStrSize = 1 << 24
+
 func isTruthy(obj object.Object) bool {
 	switch obj := obj.(type) {
 	case *object.Bool:
@@ -136,6 +140,16 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 			return nil, errors.New(msg)
 		}
 
+		if decimalArg.Value < 0 {
+			msg := fmt.Sprintf(fail.ErrFuncSecondArgNegative, "decimal", objType)
+			return nil, errors.New(msg)
+		}
+
+		if decimalArg.Value > maxStrSize {
+			msg := fmt.Sprintf(fail.ErrFuncResultTooLong, "decimal", objType)
+			return nil, errors.New(msg)
+		}
+
 		decimals = int(decimalArg.Value)
 	}
 
diff --git a/fail/fail.go b/fail/fail.go
index c209d4c..4442b72 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -46,13 +46,16 @@ const (
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-	ErrNoFuncForThisType  = "function '%s' doesn't exist for type '%s'"
-	ErrFuncRequiresOneArg = "function '%s' on type '%s' requires at least one argument"
-	ErrFuncFirstArgInt    = "first argument for function '%s' on type '%s' must be an INTEGER"
-	ErrFuncFirstArgStr    = "first argument for function '%s' on type '%s' must be a STRING"
-	ErrFuncSecondArgInt   = "second argument for function '%s' on type '%s' must be an INTEGER"
-	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
-	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
+	ErrNoFuncForThisType     = "function '%s' doesn't exist for type '%s'"
+	ErrFuncRequiresOneArg    = "function '%s' on type '%s' requires at least one argument"
+	ErrFuncFirstArgInt       = "first argument for function '%s' on type '%s' must be an INTEGER"
+	ErrFuncFirstArgStr       = "first argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncSecondArgInt      = "second argument for function '%s' on type '%s' must be an INTEGER"
+	ErrFuncSecondArgStr      = "second argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncFirstArgNegative  = "first argument for function '%s' on type '%s' cannot be negative"
+	ErrFuncSecondArgNegative = "second argument for function '%s' on type '%s' cannot be negative"
+	ErrFuncResultTooLong     = "the result of function '%s' on type '%s' is too long"
+	ErrFuncMaxArgs           = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
 
 	// Template errors
 	ErrUnsupportedType   = "unsupported type '%T'"
-- 
2.43.0


From 6dbd995aaa9dde28a855edb29ae35253b92b9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 33/37] fix: compare array elements by structure, abs of
 negative zero is zero

---
 evaluator/array_func.go | 14 +-------------
 evaluator/float_func.go |  6 +-----
 evaluator/utils.go      | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index 5cf78b4..5a2cc25 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
-	"reflect"
 	"time"
 
 	"github.com/textwire/textwire/v2/ctx"
@@ -174,18 +173,7 @@ func arrayContainsFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Ob
 	target := args[0]
 
 	for _, el := range elems {
-		isObj := el.Type() == object.OBJ_OBJ && target.Type() == object.OBJ_OBJ
-		isArr := el.Type() == object.ARR_OBJ && target.Type() == object.ARR_OBJ
-
-		if isObj || isArr {
-			if reflect.DeepEqual(el, target) {
-				return &object.Bool{Value: true}, nil
-			}
-
-			continue
-		}
-
-		if el.Val() == target.Val() {
+		if isEqual(el, target) {
 			return &object.Bool{Value: true}, nil
 		}
 	}
diff --git a/evaluator/float_func.go b/evaluator/float_func.go
index 6374d7c..9bc6d6b 100644
--- a/evaluator/float_func.go
+++ b/evaluator/float_func.go
@@ -24,11 +24,7 @@ func floatStrFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (o
 func floatAbsFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Float).Value
 
-	if val < 0 {
-		return &object.Float{Value: -val}, nil
-	}
-
-	return receiver, nil
+	return &object.Float{Value: math.Abs(val)}, nil
 }
 
 // floatCeilFunc returns the rounded up value of a float to the nearest integer
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 9ef4b14..ff4ee49 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -41,6 +41,41 @@ func capitalize(str string) string {
 	return strings.ToUpper(str[:size]) + str[size:]
 }
 
+// isEqual determines if the objects have the same type and content
+func isEqual(left, right object.Object) bool {
+	switch left := left.(type) {
+	case *object.Array:
+		right, ok := right.(*object.Array)
+		if !ok || len(left.Elements) != len(right.Elements) {
+			return false
+		}
+
+		for i, elem := range left.Elements {
+			if !isEqual(elem, right.Elements[i]) {
+				return false
+			}
+		}
+
+		return true
+	case *object.Obj:
+		right, ok := right.(*object.Obj)
+		if !ok || len(left.Pairs) != len(right.Pairs) {
+			return false
+		}
+
+		for key, val := range left.Pairs {
+			rightVal, ok := right.Pairs[key]
+			if !ok || !isEqual(val, rightVal) {
+				return false
+			}
+		}
+
+		return true
+	}
+
+	return left.Type() == right.Type() && left.Val() == right.Val()
+}
+
 func isError(obj object.Object) bool {
 	return obj.Is(object.ERR_OBJ)
 }
-- 
2.43.0


From 5ff8d4c49e0c3f3c0a2f5ec8c4088253e06cc296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 34/37] fix: convert native values by kind, nil pointers to
 nil, and report unsupported ones at any depth

---
 object/utils.go | 127 ++++++++++++++++++++++++------------------------
 1 file changed, 64 insertions(+), 63 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index 0dccc70..1bb203a 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -4,89 +4,80 @@ import (
 	"reflect"
 )
 
+// maxNativeDepth is the maximum nesting of a native value. It is only
+// exceeded by values that contain themselves.
+const maxNativeDepth = 10000
+
+// NativeToObject converts a native Go value to an object. It returns nil
+// when the value or a value nested in it has an unsupported type.
 func NativeToObject(val any) Object {
-	switch v := val.(type) {
-	case string:
-		return &Str{Value: v}
-	case bool:
-		return &Bool{Value: v}
-	case float32:
-		return &Float{Value: float64(v)}
-	case float64:
-		return &Float{Value: v}
-	case int64:
-		return &Int{Value: v}
-	case int:
-		return &Int{Value: int64(v)}
-	case int8:
-		return &Int{Value: int64(v)}
-	case int16:
-		return &Int{Value: int64(v)}
-	case int32:
-		return &Int{Value: int64(v)}
-	case uint:
-		return &Int{Value: int64(v)}
-	case uint8:
-		return &Int{Value: int64(v)}
-	case uint16:
-		return &Int{Value: int64(v)}
-	case uint32:
-		return &Int{Value: int64(v)}
-	case uint64:
-		return &Int{Value: int64(v)}
-	case nil:
+	return nativeToObject(val, 0)
+}
+
+func nativeToObject(val any, depth int) Object {
+	if val == nil {
 		return &Nil{}
 	}
 
-	valType := reflect.TypeOf(val)
+	if depth > maxNativeDepth {
+		return nil
+	}
 
-	switch valType.Kind() {
+	value := reflect.ValueOf(val)
+
+	switch value.Kind() {
+	case reflect.String:
+		return &Str{Value: value.String()}
+	case reflect.Bool:
+		return &Bool{Value: value.Bool()}
+	case reflect.Float32, reflect.Float64:
+		return &Float{Value: value.Float()}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &Int{Value: value.Int()}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &Int{Value: int64(value.Uint())}
 	case reflect.Struct:
-		return nativeStructToObject(val)
+		return nativeStructToObject(value, depth+1)
 	case reflect.Slice:
-		return nativeSliceToArrayObject(convertToInterfaceSlice(val))
+		return nativeSliceToArrayObject(value, depth+1)
 	case reflect.Map:
-		return nativeMapToObject(val)
+		return nativeMapToObject(value, depth+1)
 	case reflect.Pointer:
-		// NativeToObject is used recursively to handle pointers
-		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
+		if value.IsNil() {
+			return &Nil{}
+		}
+
+		// nativeToObject is used recursively to handle pointers
+		return nativeToObject(value.Elem().Interface(), depth+1)
 	}
 
 	return nil
 }
 
-func nativeMapToObject(val any) Object {
-	obj := &Obj{Pairs: make(map[string]Object)}
-
-	valValue := reflect.ValueOf(val)
-
-	for _, key := range valValue.MapKeys() {
-		obj.Pairs[key.String()] = NativeToObject(valValue.MapIndex(key).Interface())
+func nativeMapToObject(value reflect.Value, depth int) Object {
+	if value.Type().Key().Kind() != reflect.String {
+		return nil
 	}
 
-	return obj
-}
-
-func convertToInterfaceSlice(slice any) []any {
-	s := reflect.ValueOf(slice)
+	obj := &Obj{Pairs: make(map[string]Object)}
 
-	if s.Kind() != reflect.Slice {
-		panic("InterfaceSlice() given a non-slice type")
-	}
+	for _, key := range value.MapKeys() {
+		pair := nativeToObject(value.MapIndex(key).Interface(), depth)
 
-	ret := make([]any, s.Len())
+		if pair == nil {
+			return nil
+		}
 
-	for i := 0; i < s.Len(); i++ {
-		ret[i] = s.Index(i).Interface()
+		obj.Pairs[key.String()] = pair
 	}
 
-	return ret
+	return obj
 }
 
-func nativeStructToObject(val any) Object {
+func nativeStructToObject(value reflect.Value, depth int) Object {
 	obj := &Obj{Pairs: make(map[string]Object)}
 
-	valType := reflect.TypeOf(val)
+	valType := value.Type()
 
 	for i := 0; i < valType.NumField(); i++ {
 		field := valType.Field(i)
@@ -95,19 +86,29 @@ func nativeStructToObject(val any) Object {
 			continue
 		}
 
-		fieldVal := reflect.ValueOf(val).Field(i).Interface()
+		pair := nativeToObject(value.Field(i).Interface(), depth)
 
-		obj.Pairs[field.Name] = NativeToObject(fieldVal)
+		if pair == nil {
+			return nil
+		}
+
+		obj.Pairs[field.Name] = pair
 	}
 
 	return obj
 }
 
-func nativeSliceToArrayObject(slice []any) *Array {
+func nativeSliceToArrayObject(value reflect.Value, depth int) Object {
 	arr := &Array{}
 
-	for _, val := range slice {
-		arr.Elements = append(arr.Elements, NativeToObject(val))
+	for i := 0; i < value.Len(); i++ {
+		elem := nativeToObject(value.Index(i).Interface(), depth)
+
+		if elem == nil {
+			return nil
+		}
+
+		arr.Elements = append(arr.Elements, elem)
 	}
 
 	return arr
-- 
2.43.0


From 4fed519b8969efb98fa45b6aba6b92ae847c3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 35/37] fix: walk maps in the order of their keys

---
 evaluator/evaluator.go |  9 +++++----
 object/env.go          |  4 +++-
 object/obj.go          | 10 ++++++----
 parser_utils.go        | 11 ++---------
 utils/sorted_keys.go   | 16 ++++++++++++++++
 5 files changed, 32 insertions(+), 18 deletions(-)
 create mode 100644 utils/sorted_keys.go

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index f2dc449..ad8d697 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -9,6 +9,7 @@ import (
 	"github.com/textwire/textwire/v2/ctx"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/object"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 var (
@@ -259,8 +260,8 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 	newEnv := object.NewEnclosedEnv(env)
 
 	if node.Argument != nil {
-		for key, arg := range node.Argument.Pairs {
-			val := e.Eval(arg, env)
+		for _, key := range utils.SortedKeys(node.Argument.Pairs) {
+			val := e.Eval(node.Argument.Pairs[key], env)
 
 			if isError(val) {
 				return val
@@ -663,8 +664,8 @@ func (e *Evaluator) evalArrayLiteral(
 func (e *Evaluator) evalObjectLiteral(node *ast.ObjectLiteral, env *object.Env) object.Object {
 	pairs := make(map[string]object.Object)
 
-	for key, value := range node.Pairs {
-		valueObj := e.Eval(value, env)
+	for _, key := range utils.SortedKeys(node.Pairs) {
+		valueObj := e.Eval(node.Pairs[key], env)
 
 		if isError(valueObj) {
 			return valueObj
diff --git a/object/env.go b/object/env.go
index ab23e83..40b4039 100644
--- a/object/env.go
+++ b/object/env.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	fail "github.com/textwire/textwire/v2/fail"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Env struct {
@@ -26,7 +27,8 @@ func NewEnclosedEnv(outer *Env) *Env {
 func EnvFromMap(data map[string]any) (*Env, *fail.Error) {
 	env := NewEnv()
 
-	for key, val := range data {
+	for _, key := range utils.SortedKeys(data) {
+		val := data[key]
 		obj := NativeToObject(val)
 
 		if obj == nil {
diff --git a/object/obj.go b/object/obj.go
index ee2dad8..29caa64 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Obj struct {
@@ -22,8 +24,8 @@ func (o *Obj) String() string {
 	idx := 0
 	last := len(o.Pairs) - 1
 
-	for key, pair := range o.Pairs {
-		out.WriteString(key + ": " + pair.String())
+	for _, key := range utils.SortedKeys(o.Pairs) {
+		out.WriteString(key + ": " + o.Pairs[key].String())
 
 		if idx != last {
 			out.WriteString(", ")
@@ -48,11 +50,11 @@ func (o *Obj) Dump(ident int) string {
 
 	insideSpaces := strings.Repeat("  ", ident)
 
-	for key, pair := range o.Pairs {
+	for _, key := range utils.SortedKeys(o.Pairs) {
 		out.WriteString(insideSpaces)
 		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
 		out.WriteString(": ")
-		out.WriteString(pair.Dump(ident))
+		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
 	}
 
diff --git a/parser_utils.go b/parser_utils.go
index 899268c..0ec6e8c 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -3,12 +3,12 @@ package textwire
 import (
 	"errors"
 	"os"
-	"sort"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/lexer"
 	"github.com/textwire/textwire/v2/parser"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 func parseStr(text string) (*ast.Program, []*fail.Error) {
@@ -45,15 +45,8 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	names := make([]string, 0, len(paths))
-	for name := range paths {
-		names = append(names, name)
-	}
-
 	// the first faulty file must always be the same
-	sort.Strings(names)
-
-	for _, name := range names {
+	for _, name := range utils.SortedKeys(paths) {
 		absPath := paths[name]
 
 		prog, failErr, parseErr := parseProgram(absPath)
diff --git a/utils/sorted_keys.go b/utils/sorted_keys.go
new file mode 100644
index 0000000..183a2ba
--- /dev/null
+++ b/utils/sorted_keys.go
@@ -0,0 +1,16 @@
+package utils
+
+import "sort"
+
+// SortedKeys returns the keys of the map in ascending order
+func SortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+
+	for key := range m {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
-- 
2.43.0


From 51b06567cbdae2e840112a9e99a9031a90ec5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 36/37] fix: an unsupported result of a custom function is an
 error

---
 evaluator/evaluator.go | 8 +++++++-
 fail/fail.go           | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index ad8d697..8a10f33 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -778,7 +778,13 @@ func (e *Evaluator) evalCallExp(
 			fun := e.ctx.CustomFunc.Arr[funcName]
 			nativeElems := e.objectsToNativeType(receiverObj.(*object.Array).Elements)
 			res := fun(nativeElems, nativeArgs...)
-			return object.NativeToObject(res)
+
+			// elements of the array can be of any type
+			if obj := object.NativeToObject(res); obj != nil {
+				return obj
+			}
+
+			return e.newError(node, fail.ErrFuncUnsupportedResult, funcName, receiverType)
 		case object.INT_OBJ:
 			fun := e.ctx.CustomFunc.Int[funcName]
 			res := fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
diff --git a/fail/fail.go b/fail/fail.go
index 4442b72..df8df23 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -55,6 +55,7 @@ const (
 	ErrFuncFirstArgNegative  = "first argument for function '%s' on type '%s' cannot be negative"
 	ErrFuncSecondArgNegative = "second argument for function '%s' on type '%s' cannot be negative"
 	ErrFuncResultTooLong     = "the result of function '%s' on type '%s' is too long"
+	ErrFuncUnsupportedResult = "function '%s' on type '%s' returned a value of unsupported type"
 	ErrFuncMaxArgs           = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
 
 	// Template errors
-- 
2.43.0


From 6f515c6c48e3905fb4a18db27367e7041c170d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 37/37] fix: too deeply nested templates are an error, they do
 not exhaust the stack

---
 evaluator/evaluator.go | 15 +++++++++++++++
 fail/fail.go           |  1 +
 parser/parser.go       | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 57 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 8a10f33..f55a9e5 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -20,8 +20,15 @@ var (
 	CONTINUE = &object.Continue{}
 )
 
+// maxDepth is the maximum depth of the tree that is evaluated
+const maxDepth = 15000
+
 type Evaluator struct {
 	ctx *ctx.EvalCtx
+
+	// depth is the number of nodes that are being evaluated,
+	// one inside of the other.
+	depth int
 }
 
 func New(ctx *ctx.EvalCtx) *Evaluator {
@@ -29,6 +36,14 @@ func New(ctx *ctx.EvalCtx) *Evaluator {
 }
 
 func (e *Evaluator) Eval(node ast.Node, env *object.Env) object.Object {
+	// the recursion must not exhaust the stack
+	if e.depth >= maxDepth {
+		return e.newError(node, fail.ErrNestingTooDeep, maxDepth)
+	}
+
+	e.depth++
+	defer func() { e.depth-- }()
+
 	switch node := node.(type) {
 	// Statements
 	case *ast.Program:
diff --git a/fail/fail.go b/fail/fail.go
index df8df23..bd4d096 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -26,6 +26,7 @@ const (
 	ErrExpectedComponentName     = "expected component name, got empty string instead"
 	ErrUndefinedComponent        = "component '%s' is not defined. Check if component exists"
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
+	ErrNestingTooDeep            = "expressions and blocks cannot be nested deeper than %d levels"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
 
 	// Evaluator (interpreter) errors
diff --git a/parser/parser.go b/parser/parser.go
index 63c8737..343a303 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -50,6 +50,9 @@ var precedences = map[token.TokenType]int{
 	token.DEC:      POSTFIX,
 }
 
+// maxNesting is the maximum nesting of expressions and blocks
+const maxNesting = 5000
+
 type Parser struct {
 	l        *lexer.Lexer
 	errors   []*fail.Error
@@ -61,6 +64,10 @@ type Parser struct {
 	// aheadToken is the token after peekToken, when it is already read.
 	aheadToken *token.Token
 
+	// nesting is the number of expressions and blocks that are
+	// being parsed, one inside of the other.
+	nesting int
+
 	prefixParseFns map[token.TokenType]prefixParseFn
 	infixParseFns  map[token.TokenType]infixParseFn
 
@@ -305,6 +312,28 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 	p.errors = append(p.errors, newErr)
 }
 
+// beginNested returns false when the nesting is too deep. It ends the
+// input then, because the recursion must not exhaust the stack.
+func (p *Parser) beginNested() bool {
+	if p.nesting >= maxNesting {
+		p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxNesting)
+
+		p.l = lexer.New("")
+		p.peekToken = p.l.NextToken()
+		p.aheadToken = nil
+
+		return false
+	}
+
+	p.nesting++
+
+	return true
+}
+
+func (p *Parser) endNested() {
+	p.nesting--
+}
+
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
 
@@ -1063,6 +1092,12 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
 	stmt := &ast.BlockStmt{Token: p.peekToken}
 
+	if !p.beginNested() {
+		return stmt
+	}
+
+	defer p.endNested()
+
 	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF) {
 		p.nextToken() // move to statement
 
@@ -1083,6 +1118,12 @@ func (p *Parser) parseExpressionStmt() ast.Statement {
 }
 
 func (p *Parser) parseExpression(precedence int) ast.Expression {
+	if !p.beginNested() {
+		return nil
+	}
+
+	defer p.endNested()
+
 	prefix := p.prefixParseFns[p.curToken.Type]
 
 	if prefix == nil {
-- 
2.43.0

