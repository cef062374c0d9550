From d8505b30cd1347ec5ba4222105c7fa27379f1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 01/42] fix: parse the right operand at the operator's own
 precedence, assignments as full expressions

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 61eb7f7..850209a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -395,7 +395,7 @@ func (p *Parser) parseAssignStmt() ast.Statement {
 		return nil
 	}
 
-	stmt.Value = p.parseExpression(SUM)
+	stmt.Value = p.parseExpression(LOWEST)
 
 	return stmt
 }
@@ -762,6 +762,8 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		Left:     left,
 	}
 
+	precedence := precedences[p.curToken.Type]
+
 	p.nextToken() // skip operator
 
 	if p.curTokenIs(token.RBRACES) {
@@ -769,7 +771,7 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		return nil
 	}
 
-	exp.Right = p.parseExpression(SUM)
+	exp.Right = p.parseExpression(precedence)
 
 	return exp
 }
-- 
2.43.0


From 745bd1c81e81563cfb643a5cccb48f31da87a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 02/42] fix: report modulo by zero as an error

---
 evaluator/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b4fcc06..0a56d85 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -844,6 +844,10 @@ func (e *Evaluator) evalIntegerInfixExp(
 
 		return &object.Int{Value: leftVal / rightVal}
 	case "%":
+		if rightVal == 0 {
+			return e.newError(leftNode, fail.ErrDivisionByZero)
+		}
+
 		return &object.Int{Value: leftVal % rightVal}
 	case "==":
 		return nativeBoolToBooleanObject(leftVal == rightVal)
-- 
2.43.0


From 47eeeade8b18628c9342b37d443b257ddd1a1e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 03/42] fix: apply ! to every boolean and nil value, not only
 to literals

---
 evaluator/evaluator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 0a56d85..938023e 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -946,12 +946,10 @@ func (e *Evaluator) evalBangOperatorExp(
 	right object.Object,
 	node ast.Node,
 ) object.Object {
-	switch right {
-	case FALSE:
-		return TRUE
-	case TRUE:
-		return FALSE
-	case NIL:
+	switch right := right.(type) {
+	case *object.Bool:
+		return nativeBoolToBooleanObject(!right.Value)
+	case *object.Nil:
 		return TRUE
 	}
 
-- 
2.43.0


From 4fb807b40d856f3d7b7183ec6396051de6def2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 04/42] fix: decrement floats that are negative or below one

---
 object/float.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/object/float.go b/object/float.go
index 00ae395..46e428e 100644
--- a/object/float.go
+++ b/object/float.go
@@ -44,10 +44,12 @@ func (f *Float) SubtractFromFloat(num uint) error {
 
 	nums := strings.Split(strValue, ".")
 
-	// Parse the integer part
+	// Parse the integer part. The digits can only be subtracted as an unsigned
+	// number when the result stays non-negative
 	intPart, err := strconv.ParseUint(nums[0], 10, 64)
-	if err != nil {
-		return err
+	if err != nil || intPart < uint64(num) {
+		f.Value -= float64(num)
+		return nil
 	}
 
 	// Subtract the uint value from the integer part
-- 
2.43.0


From 2832849d154146f2f9efff425d02cac4294b94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 05/42] fix: name the @dump and @each tokens so that errors
 about them do not panic

---
 token/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/utils.go b/token/utils.go
index cb1b181..eb82ba6 100644
--- a/token/utils.go
+++ b/token/utils.go
@@ -53,6 +53,7 @@ var tokens = [...]string{
 	RESERVE:     "@reserve",
 	INSERT:      "@insert",
 	FOR:         "@for",
+	EACH:        "@each",
 	BREAK:       "@break",
 	CONTINUE:    "@continue",
 	BREAK_IF:    "@breakIf",
@@ -63,6 +64,7 @@ var tokens = [...]string{
 	END:         "@end",
 	COMPONENT:   "@component",
 	SLOT:        "@slot",
+	DUMP:        "@dump",
 }
 
 func String(t TokenType) string {
-- 
2.43.0


From a56d7757a74a5d48c856b39e99ac4824fde068c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 06/42] fix: parse empty and unterminated blocks, require @end
 after blocks, inserts and slots

---
 parser/parser.go | 70 ++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 850209a..f482e88 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -584,8 +584,6 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			if !p.expectPeek(token.RPAREN) { // move to ")"
 				return nil
 			}
-
-			p.nextToken() // skip ")"
 		}
 
 		slots = append(slots, &ast.SlotStmt{
@@ -594,12 +592,23 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			Body:  p.parseBlockStmt(),
 		})
 
-		p.nextToken() // skip block statement
-		p.nextToken() // skip "@end"
+		if !p.expectPeek(token.END) { // move to "@end" of the slot
+			return nil
+		}
 
-		for p.curTokenIs(token.HTML) {
+		for p.peekTokenIs(token.HTML) {
 			p.nextToken() // skip whitespace
 		}
+
+		if !p.peekTokenIs(token.SLOT) {
+			break
+		}
+
+		p.nextToken() // move to the next "@slot"
+	}
+
+	if !p.expectPeek(token.END) { // move to "@end" of the component
+		return nil
 	}
 
 	return slots
@@ -647,15 +656,16 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
-	hasBody := true
-
 	if p.peekTokenIs(token.COMMA) {
 		p.nextToken() // skip insert name
 		p.nextToken() // skip ","
 		stmt.Argument = p.parseExpression(LOWEST)
 
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
+
 		p.inserts[stmt.Name.Value] = stmt
-		hasBody = false
 
 		return stmt
 	}
@@ -664,9 +674,10 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
-	if hasBody {
-		p.nextToken() // skip ")"
-		stmt.Block = p.parseBlockStmt()
+	stmt.Block = p.parseBlockStmt()
+
+	if !p.expectPeek(token.END) { // move to "@end"
+		return nil
 	}
 
 	p.inserts[stmt.Name.Value] = stmt
@@ -812,8 +823,6 @@ func (p *Parser) parseIfStmt() *ast.IfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Consequence = p.parseBlockStmt()
 
 	for p.peekTokenIs(token.ELSE_IF) {
@@ -846,7 +855,12 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "@elseif"
+	tok := p.curToken // "@elseif"
+
+	if !p.expectPeek(token.LPAREN) { // move to "("
+		return nil
+	}
+
 	p.nextToken() // skip "("
 
 	condition := p.parseExpression(LOWEST)
@@ -855,10 +869,8 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	return &ast.ElseIfStmt{
-		Token:       p.curToken,
+		Token:       tok,
 		Condition:   condition,
 		Consequence: p.parseBlockStmt(),
 	}
@@ -866,7 +878,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 
 func (p *Parser) parseAlternativeBlock() *ast.BlockStmt {
 	p.nextToken() // move to "@else"
-	p.nextToken() // skip "@else"
 
 	alt := p.parseBlockStmt()
 
@@ -913,12 +924,10 @@ func (p *Parser) parseForStmt() *ast.ForStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -955,12 +964,10 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -971,21 +978,20 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 	return stmt
 }
 
+// parseBlockStmt parses the statements of a block, which can be empty. The
+// current token must be the one before the block. After parsing, the next token
+// is the one that ends the block, and the caller must check that it's expected.
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
-	stmt := &ast.BlockStmt{Token: p.curToken}
+	stmt := &ast.BlockStmt{Token: p.peekToken}
+
+	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF, token.ILLEGAL) {
+		p.nextToken() // move to the next statement
 
-	for !p.curTokenIs(token.END) {
 		block := p.parseStatement()
 
 		if block != nil {
 			stmt.Statements = append(stmt.Statements, block)
 		}
-
-		if p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END) {
-			break
-		}
-
-		p.nextToken() // skip statement
 	}
 
 	return stmt
-- 
2.43.0


From 1b759191400f340b37e58d71d2ce25d75720430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 07/42] fix: keep the whitespace after a component that has no
 slots

---
 parser/parser.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f482e88..f2615db 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -487,16 +487,13 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 		return nil
 	}
 
+	if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) && p.isSlotAfterPeek() {
+		p.nextToken() // move to whitespace
+	}
+
 	if p.peekTokenIs(token.SLOT) {
-		p.nextToken() // skip ")"
+		p.nextToken() // move to "@slot"
 		stmt.Slots = p.parseSlots()
-	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) {
-		p.nextToken() // skip ")"
-
-		if p.peekTokenIs(token.SLOT) {
-			p.nextToken() // skip whitespace
-			stmt.Slots = p.parseSlots()
-		}
 	}
 
 	p.components = append(p.components, stmt)
@@ -504,6 +501,14 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	return stmt
 }
 
+// isSlotAfterPeek checks if the token after the peek token is "@slot"
+// without consuming any tokens
+func (p *Parser) isSlotAfterPeek() bool {
+	lookahead := *p.l
+	tok := lookahead.NextToken()
+	return tok.Type == token.SLOT
+}
+
 func (p *Parser) parseAliasPathShortcut(shortenTo string) string {
 	name := p.curToken.Literal
 
-- 
2.43.0


From 1193333c9af821abf62afdb9ff3325d7b9a328e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 08/42] fix: reject unterminated object literals instead of
 parsing them forever

---
 parser/parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f2615db..56d0af2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -355,15 +355,16 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 			obj.Pairs[key] = p.parseExpression(LOWEST)
 		}
 
-		if p.peekTokenIs(token.RBRACE) {
-			p.nextToken() // skip "}"
+		if !p.peekTokenIs(token.COMMA) {
+			if !p.expectPeek(token.RBRACE) { // move to "}"
+				return nil
+			}
+
 			break
 		}
 
-		if p.peekTokenIs(token.COMMA) {
-			p.nextToken() // move to ","
-			p.nextToken() // skip ","
-		}
+		p.nextToken() // move to ","
+		p.nextToken() // skip ","
 	}
 
 	return obj
-- 
2.43.0


From 9755b1c327ef711b81e9a7117e561b0c4d7ab825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 09/42] fix: require string names and closing parentheses in
 directives

---
 parser/parser.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 56d0af2..df1ff68 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -410,13 +410,19 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken,
 		Value: p.parseAliasPathShortcut("layouts"),
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.useStmt = stmt
 
 	return stmt
@@ -435,6 +441,10 @@ func (p *Parser) parseBreakIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -451,6 +461,10 @@ func (p *Parser) parseContinueIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -463,7 +477,9 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken,
@@ -538,7 +554,10 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 	}
 
 	p.nextToken() // skip "@slot"
-	p.nextToken() // skip "("
+
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	slotName := &ast.StringLiteral{
 		Token: p.curToken,
@@ -582,7 +601,10 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 
 		if p.peekTokenIs(token.LPAREN) {
 			p.nextToken() // move to "("
-			p.nextToken() // skip "("
+
+			if !p.expectPeek(token.STR) { // move to the name
+				return nil
+			}
 
 			slotName.Token = p.curToken
 			slotName.Value = p.curToken.Literal
@@ -629,13 +651,19 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken,
 		Value: p.curToken.Literal,
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.reserves[stmt.Name.Value] = stmt
 
 	return stmt
@@ -651,7 +679,9 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.STR) { // move to the name
+		return nil
+	}
 
 	stmt.Name = &ast.StringLiteral{
 		Token: p.curToken, // The name of the insert statement
@@ -951,7 +981,9 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.IDENT) { // move to the variable name
+		return nil
+	}
 
 	stmt.Var = &ast.Identifier{
 		Token: p.curToken, // identifier
-- 
2.43.0


From a165724278cbcebb16ae1b7416914c4539e02269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 10/42] fix: reject code that is not closed by }} or separated
 by ;

---
 parser/parser.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index df1ff68..2649468 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -157,10 +157,8 @@ func (p *Parser) parseStatement() ast.Statement {
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
-	case token.LBRACES:
-		return p.parseEmbeddedCode()
-	case token.SEMI:
-		return p.parseEmbeddedCode()
+	case token.LBRACES, token.SEMI:
+		return p.parseBracesStmt()
 	case token.IF:
 		return p.parseIfStmt()
 	case token.FOR:
@@ -192,6 +190,22 @@ func (p *Parser) parseStatement() ast.Statement {
 	}
 }
 
+// parseBracesStmt parses a single statement inside of the braces. It must be
+// followed by ";" or by the closing braces.
+func (p *Parser) parseBracesStmt() ast.Statement {
+	stmt := p.parseEmbeddedCode()
+
+	if p.curTokenIs(token.RBRACES) || p.peekTokenIs(token.SEMI) {
+		return stmt
+	}
+
+	if !p.expectPeek(token.RBRACES) { // move to "}}"
+		return nil
+	}
+
+	return stmt
+}
+
 func (p *Parser) parseEmbeddedCode() ast.Statement {
 	p.nextToken() // skip "{{" or ";" or "("
 
@@ -344,6 +358,11 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 	}
 
 	for !p.curTokenIs(token.RBRACE) {
+		if p.curTokenIs(token.ILLEGAL) {
+			p.newError(p.curToken.ErrorLine(), fail.ErrIllegalToken, p.curToken.Literal)
+			return nil
+		}
+
 		key := p.curToken.Literal
 
 		if p.peekTokenIs(token.COLON) {
-- 
2.43.0


From 844a06381bf14064037e159295185867d0a42de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 11/42] fix: emit }} outside of code as text

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 942a59f..2cbc1b1 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -117,7 +117,7 @@ func (l *Lexer) NextToken() token.Token {
 		return tok
 	}
 
-	if l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
+	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
 		return l.bracesToken(token.RBRACES, "}}")
 	}
 
-- 
2.43.0


From e99a4d2c35f421e63ac028903e8c03e3ddfdad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 12/42] fix: detect the end of the input by position, not by a
 NUL byte

---
 lexer/lexer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 2cbc1b1..894123a 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,7 +101,7 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.char == 0 {
+	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -450,7 +450,7 @@ func (l *Lexer) readString() string {
 
 	pos := l.pos
 
-	for l.char != 0 {
+	for !l.isEOF() {
 		prevChar := l.char
 
 		l.readChar()
@@ -504,7 +504,7 @@ func (l *Lexer) readHTML() string {
 	var out bytes.Buffer
 	l.tokenBegins()
 
-	for l.isHTML && l.char != 0 {
+	for l.isHTML && !l.isEOF() {
 		isDirective, escapedDir := l.isDirectiveToken()
 		areBraces, escapedBraces := l.areBracesToken()
 
@@ -531,7 +531,18 @@ func (l *Lexer) prevChar() byte {
 	return 0
 }
 
+// isEOF checks if there are no more characters to read. A NUL byte
+// in the input doesn't mean that the input has ended.
+func (l *Lexer) isEOF() bool {
+	return l.pos >= len(l.input)
+}
+
 func (l *Lexer) readChar() {
+	// never move past the end of the input, it would shift the positions
+	if l.readPos > len(l.input) {
+		return
+	}
+
 	l.prevLine = l.line
 
 	if l.readPos >= len(l.input) {
@@ -574,7 +585,7 @@ func (l *Lexer) skipWhitespace() {
 }
 
 func (l *Lexer) skipComment() {
-	for l.char != 0 {
+	for !l.isEOF() {
 		if l.char != '-' || l.peekChar() != '-' {
 			l.readChar()
 			continue
-- 
2.43.0


From 702b39c8cab39fd2840434ac944850ac2b966638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 13/42] fix: treat both braces after a backslash as text

---
 lexer/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 894123a..d7db8d5 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -516,6 +516,11 @@ func (l *Lexer) readHTML() string {
 			out.Truncate(out.Len() - 1)
 		}
 
+		if escapedBraces {
+			out.WriteByte(l.char)
+			l.readChar() // skip the first brace, both of them are text
+		}
+
 		out.WriteByte(l.char)
 		l.readChar()
 	}
-- 
2.43.0


From 5032e98833f5273825331858856697221c13b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 14/42] fix: end comments exactly at --}} and reject unclosed
 comments

---
 lexer/lexer.go | 65 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index d7db8d5..198bc47 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,20 +101,19 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
+	for l.isComment() {
+		if !l.skipComment() {
+			return l.unclosedCommentToken()
+		}
+	}
+
 	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
 
 	if l.char == '{' && l.peekChar() == '{' {
-		tok := l.bracesToken(token.LBRACES, "{{")
-
-		if l.char == '-' && l.peekChar() == '-' {
-			l.skipComment()
-			return l.NextToken()
-		}
-
-		return tok
+		return l.bracesToken(token.LBRACES, "{{")
 	}
 
 	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
@@ -589,23 +588,47 @@ func (l *Lexer) skipWhitespace() {
 	}
 }
 
-func (l *Lexer) skipComment() {
-	for !l.isEOF() {
-		if l.char != '-' || l.peekChar() != '-' {
-			l.readChar()
-			continue
-		}
+func (l *Lexer) isComment() bool {
+	return !l.isEOF() && strings.HasPrefix(l.input[l.pos:], "{{--")
+}
 
-		l.readChar() // skip "-"
-		l.readChar() // skip "-"
+// skipComment moves past the end of the comment. It doesn't
+// move and returns false when the comment is not closed.
+func (l *Lexer) skipComment() bool {
+	bracesLen := len("{{")
+	length := strings.Index(l.input[l.pos+bracesLen:], "--}}")
 
-		if l.char == '}' || l.peekChar() == '}' {
-			break
-		}
+	if length == -1 {
+		return false
+	}
+
+	end := l.pos + bracesLen + length + len("--}}")
+
+	for l.pos < end {
+		l.readChar()
 	}
 
 	l.isHTML = true
 
-	l.readChar() // skip "}"
-	l.readChar() // skip "}"
+	return true
+}
+
+// unclosedCommentToken returns an illegal token for
+// the beginning of the comment and skips the rest of the input.
+func (l *Lexer) unclosedCommentToken() token.Token {
+	start := l.pos
+
+	l.tokenBegins()
+
+	for l.pos < start+len("{{--") {
+		l.readChar()
+	}
+
+	tok := l.newToken(token.ILLEGAL, "{{--")
+
+	for !l.isEOF() {
+		l.readChar()
+	}
+
+	return tok
 }
-- 
2.43.0


From fd9556c6957c55e9bff6eba9473f0beb2117fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 15/42] fix: consume the whole illegal character

---
 lexer/lexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 198bc47..f0e5fee 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"bytes"
 	"strings"
+	"unicode/utf8"
 
 	token "github.com/textwire/textwire/v2/token"
 )
@@ -143,7 +144,15 @@ func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 
 func (l *Lexer) illegalToken() token.Token {
 	l.tokenBegins()
-	return l.newToken(token.ILLEGAL, string(l.char))
+
+	start := l.pos
+	_, size := utf8.DecodeRuneInString(l.input[start:])
+
+	for l.pos < start+size {
+		l.readChar()
+	}
+
+	return l.newToken(token.ILLEGAL, l.input[start:l.pos])
 }
 
 func (l *Lexer) directiveToken() token.Token {
-- 
2.43.0


From 2d3eaad9a5761b8ef3f26f55d64004cbefda2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 16/42] fix: find the slots of a component behind a comment

---
 parser/parser.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2649468..8fed367 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -523,8 +523,10 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 		return nil
 	}
 
-	if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) && p.isSlotAfterPeek() {
-		p.nextToken() // move to whitespace
+	if p.isSlotAfterWhitespace() {
+		for p.peekTokenIs(token.HTML) {
+			p.nextToken() // move to whitespace
+		}
 	}
 
 	if p.peekTokenIs(token.SLOT) {
@@ -537,11 +539,16 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	return stmt
 }
 
-// isSlotAfterPeek checks if the token after the peek token is "@slot"
-// without consuming any tokens
-func (p *Parser) isSlotAfterPeek() bool {
+// isSlotAfterWhitespace checks if only whitespace separates the current token
+// from "@slot" without consuming any tokens. A comment splits whitespace.
+func (p *Parser) isSlotAfterWhitespace() bool {
 	lookahead := *p.l
-	tok := lookahead.NextToken()
+	tok := p.peekToken
+
+	for tok.Type == token.HTML && isWhitespace(tok.Literal) {
+		tok = lookahead.NextToken()
+	}
+
 	return tok.Type == token.SLOT
 }
 
-- 
2.43.0


From 73a72b7da2f3b10b67e7ea3d7e098374edb8c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 17/42] fix: limit the nesting of templates instead of
 exhausting the stack

---
 fail/fail.go     |  1 +
 parser/parser.go | 44 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/fail/fail.go b/fail/fail.go
index dd7897b..55f5ee5 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -26,6 +26,7 @@ const (
 	ErrExpectedComponentName     = "expected component name, got empty string instead"
 	ErrUndefinedComponent        = "component '%s' is not defined. Check if component exists"
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
+	ErrNestingTooDeep            = "expressions and blocks cannot be nested deeper than %d levels"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
 
 	// Evaluator (interpreter) errors
diff --git a/parser/parser.go b/parser/parser.go
index 8fed367..fcaee54 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,10 @@ const (
 	POSTFIX       // X++ or X--
 )
 
+// maxDepth is the maximum depth of nested expressions and blocks. Without
+// it, a hostile template can exhaust the stack and crash the process.
+const maxDepth = 10000
+
 var precedences = map[token.TokenType]int{
 	token.QUESTION: TERNARY,
 	token.EQ:       EQ,
@@ -58,6 +62,9 @@ type Parser struct {
 	curToken  token.Token
 	peekToken token.Token
 
+	// depth is the current depth of nested expressions and blocks
+	depth int
+
 	prefixParseFns map[token.TokenType]prefixParseFn
 	infixParseFns  map[token.TokenType]infixParseFn
 
@@ -274,6 +281,22 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 	p.errors = append(p.errors, newErr)
 }
 
+// isTooDeep checks if the depth exceeds the limit. If so, it adds
+// an error and skips the rest of the tokens to end the parsing.
+func (p *Parser) isTooDeep(depth int) bool {
+	if depth <= maxDepth {
+		return false
+	}
+
+	p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxDepth)
+
+	for !p.curTokenIs(token.EOF) {
+		p.nextToken()
+	}
+
+	return true
+}
+
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
 	p.peekToken = p.l.NextToken()
@@ -1048,6 +1071,13 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
 	stmt := &ast.BlockStmt{Token: p.peekToken}
 
+	p.depth++
+	defer func() { p.depth-- }()
+
+	if p.isTooDeep(p.depth) {
+		return stmt
+	}
+
 	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF, token.ILLEGAL) {
 		p.nextToken() // move to the next statement
 
@@ -1074,6 +1104,13 @@ func (p *Parser) parseExpressionStmt() ast.Statement {
 }
 
 func (p *Parser) parseExpression(precedence int) ast.Expression {
+	p.depth++
+	defer func() { p.depth-- }()
+
+	if p.isTooDeep(p.depth) {
+		return nil
+	}
+
 	prefix := p.prefixParseFns[p.curToken.Type]
 
 	if prefix == nil {
@@ -1087,7 +1124,12 @@ func (p *Parser) parseExpression(precedence int) ast.Expression {
 
 	leftExp := prefix()
 
-	for !p.peekTokenIs(token.RBRACES, token.SEMI, token.RPAREN) && precedence < p.peekPrecedence() {
+	// every operator puts the expression on the left one level deeper
+	for depth := p.depth; !p.peekTokenIs(token.RBRACES, token.SEMI, token.RPAREN) && precedence < p.peekPrecedence(); depth++ {
+		if p.isTooDeep(depth) {
+			return nil
+		}
+
 		infix := p.infixParseFns[p.peekToken.Type]
 
 		if infix == nil {
-- 
2.43.0


From 38869c955c84dece65ec543100272319145c313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 18/42] fix: report property access on a value that is not an
 object

---
 evaluator/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 938023e..8a08777 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -555,7 +555,11 @@ func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object
 
 	key := node.Key.(*ast.Identifier)
 
-	return e.evalObjectIndexExp(left.(*object.Obj), key.Value, node)
+	if !left.Is(object.OBJ_OBJ) {
+		return e.newError(node, fail.ErrDotOperatorNotSupported, left.Type())
+	}
+
+	return e.evalObjectIndexExp(left, key.Value, node)
 }
 
 func (e *Evaluator) evalString(node *ast.StringLiteral, _ *object.Env) object.Object {
-- 
2.43.0


From 07a3def8efd3dfb89ad67560197a9dda7f9a8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 19/42] fix: handle empty and non-ASCII property names

---
 evaluator/evaluator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 8a08777..4157cd2 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"html"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/ctx"
@@ -536,8 +537,9 @@ func (e *Evaluator) evalObjectIndexExp(
 		return pair
 	}
 
-	// make first letter lowercase on idx
-	idxUpper := strings.ToUpper(idx[:1]) + idx[1:]
+	// make first letter uppercase on idx
+	_, size := utf8.DecodeRuneInString(idx)
+	idxUpper := strings.ToUpper(idx[:size]) + idx[size:]
 
 	if pair, ok = objObj.Pairs[idxUpper]; !ok {
 		return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
-- 
2.43.0


From 2a7ca86b4512f41bcf382cf5ce40543d763f785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 20/42] fix: report iteration over a value that is not an array

---
 evaluator/evaluator.go | 8 +++++++-
 fail/fail.go           | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 4157cd2..e6b900c 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -368,7 +368,13 @@ func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Obj
 		return arrObj
 	}
 
-	elems := arrObj.(*object.Array).Elements
+	arr, isArr := arrObj.(*object.Array)
+
+	if !isArr {
+		return e.newError(node, fail.ErrEachRequiresArray, arrObj.Type())
+	}
+
+	elems := arr.Elements
 	elemsLen := len(elems)
 
 	// evaluate alternative block if array is empty
diff --git a/fail/fail.go b/fail/fail.go
index 55f5ee5..e775cbc 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -43,6 +43,7 @@ const (
 	ErrVariableTypeMismatch    = "cannot assign variable '%s' of type '%s' to type '%s'"
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
+	ErrEachRequiresArray       = "cannot iterate over the type '%s' with '@each', only over an array"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-- 
2.43.0


From a7ad5f0b2fdfd6f6aacfeb53a325052ae4183278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 21/42] fix: support absent clauses and assignments in @for,
 skip the post statement after a break

---
 evaluator/evaluator.go | 44 ++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index e6b900c..13c9d1f 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -285,11 +285,10 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Object {
 	newEnv := object.NewEnclosedEnv(env)
 
-	var init object.Object
 	var blocks bytes.Buffer
 
 	if node.Init != nil {
-		if init = e.Eval(node.Init, newEnv); isError(init) {
+		if init := e.Eval(node.Init, newEnv); isError(init) {
 			return init
 		}
 	}
@@ -309,14 +308,16 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 	// loop through the block until the user's condition is false
 	for {
-		cond := e.Eval(node.Condition, newEnv)
+		if node.Condition != nil {
+			cond := e.Eval(node.Condition, newEnv)
 
-		if isError(cond) {
-			return cond
-		}
+			if isError(cond) {
+				return cond
+			}
 
-		if !isTruthy(cond) {
-			break
+			if !isTruthy(cond) {
+				break
+			}
 		}
 
 		block := e.Eval(node.Block, newEnv)
@@ -327,29 +328,34 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 		blocks.WriteString(block.String())
 
+		if hasBreakStmt(block) {
+			break
+		}
+
+		if node.Post == nil {
+			continue
+		}
+
 		post := e.Eval(node.Post, newEnv)
 
 		if isError(post) {
 			return post
 		}
 
-		if node.Init == nil || node.Post == nil {
+		// an assignment has already changed its variable
+		if _, isAssign := node.Post.(*ast.AssignStmt); isAssign {
 			continue
 		}
 
-		varName := node.Init.(*ast.AssignStmt).Name.Value
-
-		err := newEnv.Set(varName, post)
-		if err != nil {
-			return e.newError(node, "%s", err.Error())
-		}
+		init, isAssign := node.Init.(*ast.AssignStmt)
 
-		if hasBreakStmt(block) {
-			break
+		if !isAssign {
+			continue
 		}
 
-		if hasContinueStmt(block) {
-			continue
+		err := newEnv.Set(init.Name.Value, post)
+		if err != nil {
+			return e.newError(node, "%s", err.Error())
 		}
 	}
 
-- 
2.43.0


From 499c0b67c0e017c92c579e49eef40ed3534b4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 22/42] fix: advance the variable of @for when the init clause
 is absent

---
 evaluator/evaluator.go |  6 +++---
 evaluator/utils.go     | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 13c9d1f..23fb332 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -347,13 +347,13 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 			continue
 		}
 
-		init, isAssign := node.Init.(*ast.AssignStmt)
+		varName, ok := forVarName(node)
 
-		if !isAssign {
+		if !ok {
 			continue
 		}
 
-		err := newEnv.Set(init.Name.Value, post)
+		err := newEnv.Set(varName, post)
 		if err != nil {
 			return e.newError(node, "%s", err.Error())
 		}
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 4893614..ed4d4a4 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/config"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/object"
@@ -67,6 +68,35 @@ func hasControlStmt(obj object.Object, controlType object.ObjectType) bool {
 	return false
 }
 
+// forVarName returns the name of the variable that takes the value of the
+// post statement, which is the one from the init statement. Without
+// the init statement, it's the one that is incremented or decremented.
+func forVarName(node *ast.ForStmt) (string, bool) {
+	if init, ok := node.Init.(*ast.AssignStmt); ok {
+		return init.Name.Value, true
+	}
+
+	post, ok := node.Post.(*ast.ExpressionStmt)
+
+	if !ok || node.Init != nil {
+		return "", false
+	}
+
+	postfix, ok := post.Expression.(*ast.PostfixExp)
+
+	if !ok {
+		return "", false
+	}
+
+	ident, ok := postfix.Left.(*ast.Identifier)
+
+	if !ok {
+		return "", false
+	}
+
+	return ident.Value, true
+}
+
 // hasCustomFunc checks if the object has a custom function
 func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string) bool {
 	if customFunc == nil {
-- 
2.43.0


From 982c37918eef38116ad87bf8228009dcf7941b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 23/42] fix: bind component arguments that shadow a variable of
 a different type

---
 evaluator/evaluator.go |  4 +++-
 object/env.go          | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 23fb332..d724d3a 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -267,7 +267,9 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 				return val
 			}
 
-			newEnv.Set(key, val)
+			if err := newEnv.Bind(key, val); err != nil {
+				return e.newError(node, "%s", err.Error())
+			}
 		}
 	}
 
diff --git a/object/env.go b/object/env.go
index ab23e83..2479ee5 100644
--- a/object/env.go
+++ b/object/env.go
@@ -67,6 +67,18 @@ func (e *Env) Set(key string, val Object) error {
 	return nil
 }
 
+// Bind sets the variable in the current scope. Unlike Set, it can
+// shadow a variable of the outer scopes that has a different type.
+func (e *Env) Bind(key string, val Object) error {
+	if key == "loop" {
+		return errors.New(fail.ErrLoopVariableIsReserved)
+	}
+
+	e.store[key] = val
+
+	return nil
+}
+
 func (e *Env) SetLoopVar(pairs map[string]Object) {
 	e.store["loop"] = &Obj{Pairs: pairs}
 }
-- 
2.43.0


From 4af417a254b5b6a89380811c3cd9780908165a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:08 +0000
Subject: [PATCH 24/42] fix: process maps in a sorted order to render the same
 output and errors every time

---
 ast/object_literal.go  |  5 +++--
 ast/program.go         |  3 ++-
 ast/utils.go           |  6 +++---
 evaluator/evaluator.go |  9 +++++----
 object/env.go          |  4 +++-
 object/obj.go          | 10 ++++++----
 parser_utils.go        |  5 ++++-
 utils/sort.go          | 17 +++++++++++++++++
 8 files changed, 43 insertions(+), 16 deletions(-)
 create mode 100644 utils/sort.go

diff --git a/ast/object_literal.go b/ast/object_literal.go
index d32af14..a656365 100644
--- a/ast/object_literal.go
+++ b/ast/object_literal.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/textwire/textwire/v2/token"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type ObjectLiteral struct {
@@ -25,8 +26,8 @@ func (ol *ObjectLiteral) String() string {
 
 	pairs := []string{}
 
-	for key, value := range ol.Pairs {
-		k := fmt.Sprintf(`"%s": %s`, key, value.String())
+	for _, key := range utils.SortedKeys(ol.Pairs) {
+		k := fmt.Sprintf(`"%s": %s`, key, ol.Pairs[key].String())
 		pairs = append(pairs, k)
 	}
 
diff --git a/ast/program.go b/ast/program.go
index 22e1ec8..8044641 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -5,6 +5,7 @@ import (
 
 	fail "github.com/textwire/textwire/v2/fail"
 	token "github.com/textwire/textwire/v2/token"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Program struct {
@@ -125,7 +126,7 @@ func (p *Program) HasUseStmt() bool {
 }
 
 func (p *Program) checkUndefinedInsert(inserts map[string]*InsertStmt) *fail.Error {
-	for name := range inserts {
+	for _, name := range utils.SortedKeys(inserts) {
 		if _, ok := p.Reserves[name]; ok {
 			continue
 		}
diff --git a/ast/utils.go b/ast/utils.go
index 528b829..8afb958 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -24,9 +24,9 @@ func findDuplicateSlot(slots []*SlotStmt) (string, int) {
 	}
 
 	// find the first slot name that has a count greater than 1
-	for name, times := range counts {
-		if times > 1 {
-			return name, times
+	for _, slot := range slots {
+		if times := counts[slot.Name.Value]; times > 1 {
+			return slot.Name.Value, times
 		}
 	}
 
diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index d724d3a..88995e5 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -10,6 +10,7 @@ import (
 	"github.com/textwire/textwire/v2/ctx"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/object"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 var (
@@ -260,8 +261,8 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 	newEnv := object.NewEnclosedEnv(env)
 
 	if node.Argument != nil {
-		for key, arg := range node.Argument.Pairs {
-			val := e.Eval(arg, env)
+		for _, key := range utils.SortedKeys(node.Argument.Pairs) {
+			val := e.Eval(node.Argument.Pairs[key], env)
 
 			if isError(val) {
 				return val
@@ -639,8 +640,8 @@ func (e *Evaluator) evalArrayLiteral(
 func (e *Evaluator) evalObjectLiteral(node *ast.ObjectLiteral, env *object.Env) object.Object {
 	pairs := make(map[string]object.Object)
 
-	for key, value := range node.Pairs {
-		valueObj := e.Eval(value, env)
+	for _, key := range utils.SortedKeys(node.Pairs) {
+		valueObj := e.Eval(node.Pairs[key], env)
 
 		if isError(valueObj) {
 			return valueObj
diff --git a/object/env.go b/object/env.go
index 2479ee5..dca8488 100644
--- a/object/env.go
+++ b/object/env.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	fail "github.com/textwire/textwire/v2/fail"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Env struct {
@@ -26,7 +27,8 @@ func NewEnclosedEnv(outer *Env) *Env {
 func EnvFromMap(data map[string]any) (*Env, *fail.Error) {
 	env := NewEnv()
 
-	for key, val := range data {
+	for _, key := range utils.SortedKeys(data) {
+		val := data[key]
 		obj := NativeToObject(val)
 
 		if obj == nil {
diff --git a/object/obj.go b/object/obj.go
index ee2dad8..29caa64 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+
+	"github.com/textwire/textwire/v2/utils"
 )
 
 type Obj struct {
@@ -22,8 +24,8 @@ func (o *Obj) String() string {
 	idx := 0
 	last := len(o.Pairs) - 1
 
-	for key, pair := range o.Pairs {
-		out.WriteString(key + ": " + pair.String())
+	for _, key := range utils.SortedKeys(o.Pairs) {
+		out.WriteString(key + ": " + o.Pairs[key].String())
 
 		if idx != last {
 			out.WriteString(", ")
@@ -48,11 +50,11 @@ func (o *Obj) Dump(ident int) string {
 
 	insideSpaces := strings.Repeat("  ", ident)
 
-	for key, pair := range o.Pairs {
+	for _, key := range utils.SortedKeys(o.Pairs) {
 		out.WriteString(insideSpaces)
 		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
 		out.WriteString(": ")
-		out.WriteString(pair.Dump(ident))
+		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
 	}
 
diff --git a/parser_utils.go b/parser_utils.go
index 906b8f4..6118e15 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -8,6 +8,7 @@ import (
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/lexer"
 	"github.com/textwire/textwire/v2/parser"
+	"github.com/textwire/textwire/v2/utils"
 )
 
 func parseStr(text string) (*ast.Program, []*fail.Error) {
@@ -44,7 +45,9 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	for name, absPath := range paths {
+	for _, name := range utils.SortedKeys(paths) {
+		absPath := paths[name]
+
 		prog, failErr, parseErr := parseProgram(absPath)
 		if parseErr != nil {
 			return nil, fail.FromError(parseErr, 0, absPath, "template")
diff --git a/utils/sort.go b/utils/sort.go
new file mode 100644
index 0000000..93e65ed
--- /dev/null
+++ b/utils/sort.go
@@ -0,0 +1,17 @@
+package utils
+
+import "sort"
+
+// SortedKeys returns the keys of the map in a sorted order.
+// Use it when the order of iterating over the map matters.
+func SortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+
+	for key := range m {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
-- 
2.43.0


From 2700af9daaf06de5d4030e9489cdc49263d3b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 25/42] fix: give every use of a component its own program and
 slots

---
 ast/program.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/program.go b/ast/program.go
index 8044641..aa48c4b 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -79,7 +79,8 @@ func (p *Program) ApplyLayout(prog *Program) {
 
 func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string) *fail.Error {
 	for _, comp := range p.Components {
-		if comp.Name.Value != name {
+		// every use of the component has its own program
+		if comp.Name.Value != name || comp.Block != nil {
 			continue
 		}
 
@@ -112,6 +113,8 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		comp.Block = prog
+
+		return nil
 	}
 
 	return nil
-- 
2.43.0


From d95c10439c4038cdf111274b6beb03b0a7484fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 26/42] fix: fill slot placeholders at any depth of a component

---
 ast/program.go   |  9 ++++++---
 ast/utils.go     | 13 +++++++++++++
 parser/parser.go | 15 +++++++++++++--
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index aa48c4b..0dc3dfd 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -14,6 +14,7 @@ type Program struct {
 	UseStmt    *UseStmt
 	Statements []Statement
 	Components []*ComponentStmt
+	Slots      []*SlotStmt // slot placeholders at any depth
 	Reserves   map[string]*ReserveStmt
 	Inserts    map[string]*InsertStmt
 	Pos        token.Position
@@ -97,9 +98,9 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		}
 
 		for _, slot := range comp.Slots {
-			idx := findSlotStmtIndex(prog.Statements, slot.Name.Value)
+			placeholders := findSlots(prog.Slots, slot.Name.Value)
 
-			if idx == -1 {
+			if len(placeholders) == 0 {
 				if slot.Name.Value == "" {
 					return fail.New(prog.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
@@ -109,7 +110,9 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 
-			prog.Statements[idx].(*SlotStmt).Body = slot.Body
+			for _, placeholder := range placeholders {
+				placeholder.Body = slot.Body
+			}
 		}
 
 		comp.Block = prog
diff --git a/ast/utils.go b/ast/utils.go
index 8afb958..275bf5f 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -16,6 +16,19 @@ func findSlotStmtIndex(stmts []Statement, slotName string) int {
 	return -1
 }
 
+// findSlots returns all the slots with the given name
+func findSlots(slots []*SlotStmt, slotName string) []*SlotStmt {
+	var result []*SlotStmt
+
+	for _, slot := range slots {
+		if slot.Name.Value == slotName {
+			result = append(result, slot)
+		}
+	}
+
+	return result
+}
+
 func findDuplicateSlot(slots []*SlotStmt) (string, int) {
 	counts := make(map[string]int)
 
diff --git a/parser/parser.go b/parser/parser.go
index fcaee54..a0b1280 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -70,6 +70,7 @@ type Parser struct {
 
 	useStmt    *ast.UseStmt
 	components []*ast.ComponentStmt
+	slots      []*ast.SlotStmt
 	inserts    map[string]*ast.InsertStmt
 	reserves   map[string]*ast.ReserveStmt
 }
@@ -80,6 +81,7 @@ func New(lexer *lexer.Lexer, filepath string) *Parser {
 		filepath:   filepath,
 		errors:     []*fail.Error{},
 		components: []*ast.ComponentStmt{},
+		slots:      []*ast.SlotStmt{},
 		inserts:    map[string]*ast.InsertStmt{},
 		reserves:   map[string]*ast.ReserveStmt{},
 	}
@@ -153,6 +155,7 @@ func (p *Parser) ParseProgram() *ast.Program {
 	}
 
 	prog.Components = p.components
+	prog.Slots = p.slots
 	prog.Inserts = p.inserts
 	prog.UseStmt = p.useStmt
 	prog.Reserves = p.reserves
@@ -596,10 +599,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 	tok := p.curToken
 
 	if !p.peekTokenIs(token.LPAREN) {
-		return &ast.SlotStmt{
+		stmt := &ast.SlotStmt{
 			Token: tok, // "@slot"
 			Name:  &ast.StringLiteral{Value: ""},
 		}
+
+		p.slots = append(p.slots, stmt)
+
+		return stmt
 	}
 
 	p.nextToken() // skip "@slot"
@@ -617,10 +624,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 		return nil
 	}
 
-	return &ast.SlotStmt{
+	stmt := &ast.SlotStmt{
 		Token: tok, // "@slot"
 		Name:  slotName,
 	}
+
+	p.slots = append(p.slots, stmt)
+
+	return stmt
 }
 
 func (p *Parser) parseDumpStmt() *ast.DumpStmt {
-- 
2.43.0


From f5e5ae141bdbff9a4fe8a5a2eb31e0c168000500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 27/42] fix: report slot errors at the line of the slot

---
 ast/program.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 0dc3dfd..458027a 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -88,12 +88,14 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 		duplicateName, times := findDuplicateSlot(comp.Slots)
 
 		if times > 0 {
+			duplicate := findSlots(comp.Slots, duplicateName)[0]
+
 			if name == "" {
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(duplicate.Line(), progFilePath, "parser",
 					fail.ErrDuplicateDefaultSlotUsage, times, name)
 			}
 
-			return fail.New(prog.Line(), progFilePath, "parser",
+			return fail.New(duplicate.Line(), progFilePath, "parser",
 				fail.ErrDuplicateSlotUsage, duplicateName, times, name)
 		}
 
@@ -102,11 +104,11 @@ func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string
 
 			if len(placeholders) == 0 {
 				if slot.Name.Value == "" {
-					return fail.New(prog.Line(), progFilePath, "parser",
+					return fail.New(slot.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
 				}
 
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(slot.Line(), progFilePath, "parser",
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 
-- 
2.43.0


From f88e56461014b3706a13903da46812604e634940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 28/42] fix: report negative and oversized counts of repeat()
 and decimal() instead of panicking

---
 evaluator/str_func.go |  6 +++++-
 evaluator/utils.go    | 29 ++++++++++++++++++++++++++---
 fail/fail.go          |  2 ++
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 7f5b215..f75f67e 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -276,7 +276,11 @@ func strRepeatFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object
 	}
 
 	val := receiver.(*object.Str).Value
-	repeated := strings.Repeat(val, int(firstArg.Value))
+
+	repeated, err := repeatStr("repeat", object.STR_OBJ, val, firstArg.Value)
+	if err != nil {
+		return nil, err
+	}
 
 	return &object.Str{Value: repeated}, nil
 }
diff --git a/evaluator/utils.go b/evaluator/utils.go
index ed4d4a4..014b19f 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -12,6 +12,9 @@ import (
 	"github.com/textwire/textwire/v2/utils"
 )
 
+// maxRepeatedLen is the maximum length in bytes of a repeated string
+const maxRepeatedLen = 1 << 26
+
 func isTruthy(obj object.Object) bool {
 	switch obj := obj.(type) {
 	case *object.Bool:
@@ -119,6 +122,23 @@ func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string
 	}
 }
 
+// repeatStr repeats the string count times for the given built-in function
+func repeatStr(funcName string, t object.ObjectType, str string, count int64) (string, error) {
+	if count < 0 {
+		return "", fmt.Errorf(fail.ErrFuncNegativeCount, funcName, t, count)
+	}
+
+	if str == "" {
+		return "", nil
+	}
+
+	if count > maxRepeatedLen/int64(len(str)) {
+		return "", fmt.Errorf(fail.ErrFuncResultTooLong, funcName, t, maxRepeatedLen)
+	}
+
+	return strings.Repeat(str, int(count)), nil
+}
+
 func addDecimals(receiver object.Object, objType object.ObjectType, args ...object.Object) (object.Object, error) {
 	var val string
 
@@ -133,7 +153,7 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 	}
 
 	separator := "."
-	decimals := 2
+	decimals := int64(2)
 
 	if len(args) > 2 {
 		msg := fmt.Sprintf(fail.ErrFuncMaxArgs, "decimal", objType, 2)
@@ -159,10 +179,13 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 			return nil, errors.New(msg)
 		}
 
-		decimals = int(decimalArg.Value)
+		decimals = decimalArg.Value
 	}
 
-	zeros := strings.Repeat("0", decimals)
+	zeros, err := repeatStr("decimal", objType, "0", decimals)
+	if err != nil {
+		return nil, err
+	}
 
 	if decimals == 0 {
 		return &object.Str{Value: val}, nil
diff --git a/fail/fail.go b/fail/fail.go
index e775cbc..a7abfb1 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -54,6 +54,8 @@ const (
 	ErrFuncSecondArgInt   = "second argument for function '%s' on type '%s' must be an INTEGER"
 	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
 	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
+	ErrFuncNegativeCount  = "function '%s' on type '%s' doesn't accept the negative count '%d'"
+	ErrFuncResultTooLong  = "function '%s' on type '%s' cannot return a string longer than %d bytes"
 
 	// Template errors
 	ErrUnsupportedType   = "unsupported type '%T'"
-- 
2.43.0


From e7ae25a1a20718ab8ba5bc4e6b4970612961bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 29/42] fix: return nil from at() for an index before the start
 of the string

---
 evaluator/str_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index f75f67e..87f80e4 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -204,7 +204,7 @@ func strAtFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object) (o
 		index = len(chars) + index
 	}
 
-	if index >= len(chars) {
+	if index < 0 || index >= len(chars) {
 		return &object.Nil{}, nil
 	}
 
-- 
2.43.0


From d6acb11a390167f5302d2d48a314cac307319640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 30/42] fix: cut and capitalize strings by characters in
 truncate() and capitalize()

---
 evaluator/str_func.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 87f80e4..8f8aaf5 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -94,7 +94,8 @@ func strCapitalizeFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Objec
 		return &object.Str{Value: ""}, nil
 	}
 
-	newVal := strings.ToUpper(val[:1]) + val[1:]
+	_, size := utf8.DecodeRuneInString(val)
+	newVal := strings.ToUpper(val[:size]) + val[size:]
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -149,9 +150,13 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 	}
 
 	val := receiver.(*object.Str).Value
-	limit := int(firstArg.Value)
+	limit := firstArg.Value
 
-	if limit >= utf8.RuneCountInString(val) {
+	if limit < 0 {
+		return nil, fmt.Errorf(fail.ErrFuncNegativeCount, "truncate", object.STR_OBJ, limit)
+	}
+
+	if limit >= int64(utf8.RuneCountInString(val)) {
 		return &object.Str{Value: val}, nil
 	}
 
@@ -168,7 +173,8 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	newVal := val[:firstArg.Value] + ellipsis
+	chars := []rune(val)
+	newVal := string(chars[:limit]) + ellipsis
 
 	return &object.Str{Value: newVal}, nil
 }
-- 
2.43.0


From 9245912d4b457912233920ae8d3c29e52057b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 31/42] fix: return an empty array from slice() when the start
 is after the end

---
 evaluator/array_func.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index e913f39..5cf78b4 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -126,6 +126,10 @@ func arraySliceFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Objec
 		end = elemsLen
 	}
 
+	if start > end {
+		start = end
+	}
+
 	return &object.Array{Elements: elems[start:end]}, nil
 }
 
-- 
2.43.0


From 18b60d908176e75aa621f80447137f0bfcdf8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 32/42] fix: compare the elements by their structure in
 contains() of arrays

---
 evaluator/array_func.go | 14 +-------------
 evaluator/utils.go      | 42 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index 5cf78b4..5a2cc25 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
-	"reflect"
 	"time"
 
 	"github.com/textwire/textwire/v2/ctx"
@@ -174,18 +173,7 @@ func arrayContainsFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Ob
 	target := args[0]
 
 	for _, el := range elems {
-		isObj := el.Type() == object.OBJ_OBJ && target.Type() == object.OBJ_OBJ
-		isArr := el.Type() == object.ARR_OBJ && target.Type() == object.ARR_OBJ
-
-		if isObj || isArr {
-			if reflect.DeepEqual(el, target) {
-				return &object.Bool{Value: true}, nil
-			}
-
-			continue
-		}
-
-		if el.Val() == target.Val() {
+		if isEqual(el, target) {
 			return &object.Bool{Value: true}, nil
 		}
 	}
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 014b19f..fcd862a 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -34,6 +34,48 @@ func isTruthy(obj object.Object) bool {
 	return true
 }
 
+// isEqual checks if two objects have the same type and content
+func isEqual(left, right object.Object) bool {
+	if left.Type() != right.Type() {
+		return false
+	}
+
+	switch left := left.(type) {
+	case *object.Array:
+		elems := right.(*object.Array).Elements
+
+		if len(left.Elements) != len(elems) {
+			return false
+		}
+
+		for i, el := range left.Elements {
+			if !isEqual(el, elems[i]) {
+				return false
+			}
+		}
+
+		return true
+	case *object.Obj:
+		pairs := right.(*object.Obj).Pairs
+
+		if len(left.Pairs) != len(pairs) {
+			return false
+		}
+
+		for key, val := range left.Pairs {
+			rightVal, ok := pairs[key]
+
+			if !ok || !isEqual(val, rightVal) {
+				return false
+			}
+		}
+
+		return true
+	}
+
+	return left.Val() == right.Val()
+}
+
 func isError(obj object.Object) bool {
 	return obj.Is(object.ERR_OBJ)
 }
-- 
2.43.0


From 5bb783debe998cf47c6375164c09e5e28ba2fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 33/42] fix: convert nil pointers, named types and nested
 values of the data, reject unsupported values at any depth

---
 object/utils.go | 151 +++++++++++++++++++++++++-----------------------
 1 file changed, 80 insertions(+), 71 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index 0dccc70..a7cd704 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -4,110 +4,119 @@ import (
 	"reflect"
 )
 
-func NativeToObject(val any) Object {
-	switch v := val.(type) {
-	case string:
-		return &Str{Value: v}
-	case bool:
-		return &Bool{Value: v}
-	case float32:
-		return &Float{Value: float64(v)}
-	case float64:
-		return &Float{Value: v}
-	case int64:
-		return &Int{Value: v}
-	case int:
-		return &Int{Value: int64(v)}
-	case int8:
-		return &Int{Value: int64(v)}
-	case int16:
-		return &Int{Value: int64(v)}
-	case int32:
-		return &Int{Value: int64(v)}
-	case uint:
-		return &Int{Value: int64(v)}
-	case uint8:
-		return &Int{Value: int64(v)}
-	case uint16:
-		return &Int{Value: int64(v)}
-	case uint32:
-		return &Int{Value: int64(v)}
-	case uint64:
-		return &Int{Value: int64(v)}
-	case nil:
-		return &Nil{}
-	}
+// visit identifies a reference in the native value that is being converted
+type visit struct {
+	ptr     uintptr
+	len     int
+	valType reflect.Type
+}
 
-	valType := reflect.TypeOf(val)
+// NativeToObject converts the native Go value to an object. It returns nil
+// when the value or any value inside of it has an unsupported type.
+func NativeToObject(val any) Object {
+	return reflectToObject(reflect.ValueOf(val), map[visit]bool{})
+}
 
-	switch valType.Kind() {
+// reflectToObject converts the value to an object. The path contains
+// references that lead to the value, to detect recursive values.
+func reflectToObject(val reflect.Value, path map[visit]bool) Object {
+	switch val.Kind() {
+	case reflect.Invalid:
+		return &Nil{}
+	case reflect.String:
+		return &Str{Value: val.String()}
+	case reflect.Bool:
+		return &Bool{Value: val.Bool()}
+	case reflect.Float32, reflect.Float64:
+		return &Float{Value: val.Float()}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &Int{Value: val.Int()}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &Int{Value: int64(val.Uint())}
 	case reflect.Struct:
-		return nativeStructToObject(val)
-	case reflect.Slice:
-		return nativeSliceToArrayObject(convertToInterfaceSlice(val))
-	case reflect.Map:
-		return nativeMapToObject(val)
-	case reflect.Pointer:
-		// NativeToObject is used recursively to handle pointers
-		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
-	}
+		return nativeStructToObject(val, path)
+	case reflect.Interface:
+		return reflectToObject(val.Elem(), path)
+	case reflect.Pointer, reflect.Slice, reflect.Map:
+		v := visit{ptr: val.Pointer(), valType: val.Type()}
+
+		if val.Kind() == reflect.Slice {
+			v.len = val.Len()
+		}
 
-	return nil
-}
+		if path[v] {
+			return nil
+		}
 
-func nativeMapToObject(val any) Object {
-	obj := &Obj{Pairs: make(map[string]Object)}
+		path[v] = true
+		defer delete(path, v)
 
-	valValue := reflect.ValueOf(val)
+		switch val.Kind() {
+		case reflect.Slice:
+			return nativeSliceToArrayObject(val, path)
+		case reflect.Map:
+			return nativeMapToObject(val, path)
+		}
 
-	for _, key := range valValue.MapKeys() {
-		obj.Pairs[key.String()] = NativeToObject(valValue.MapIndex(key).Interface())
+		return reflectToObject(val.Elem(), path)
 	}
 
-	return obj
+	return nil
 }
 
-func convertToInterfaceSlice(slice any) []any {
-	s := reflect.ValueOf(slice)
-
-	if s.Kind() != reflect.Slice {
-		panic("InterfaceSlice() given a non-slice type")
+func nativeMapToObject(val reflect.Value, path map[visit]bool) Object {
+	if val.Type().Key().Kind() != reflect.String {
+		return nil
 	}
 
-	ret := make([]any, s.Len())
+	obj := &Obj{Pairs: make(map[string]Object, val.Len())}
+
+	for _, key := range val.MapKeys() {
+		elem := reflectToObject(val.MapIndex(key), path)
 
-	for i := 0; i < s.Len(); i++ {
-		ret[i] = s.Index(i).Interface()
+		if elem == nil {
+			return nil
+		}
+
+		obj.Pairs[key.String()] = elem
 	}
 
-	return ret
+	return obj
 }
 
-func nativeStructToObject(val any) Object {
+func nativeStructToObject(val reflect.Value, path map[visit]bool) Object {
 	obj := &Obj{Pairs: make(map[string]Object)}
 
-	valType := reflect.TypeOf(val)
-
-	for i := 0; i < valType.NumField(); i++ {
-		field := valType.Field(i)
+	for i := 0; i < val.NumField(); i++ {
+		field := val.Type().Field(i)
 
 		if !field.IsExported() {
 			continue
 		}
 
-		fieldVal := reflect.ValueOf(val).Field(i).Interface()
+		elem := reflectToObject(val.Field(i), path)
+
+		if elem == nil {
+			return nil
+		}
 
-		obj.Pairs[field.Name] = NativeToObject(fieldVal)
+		obj.Pairs[field.Name] = elem
 	}
 
 	return obj
 }
 
-func nativeSliceToArrayObject(slice []any) *Array {
+func nativeSliceToArrayObject(val reflect.Value, path map[visit]bool) Object {
 	arr := &Array{}
 
-	for _, val := range slice {
-		arr.Elements = append(arr.Elements, NativeToObject(val))
+	for i := 0; i < val.Len(); i++ {
+		elem := reflectToObject(val.Index(i), path)
+
+		if elem == nil {
+			return nil
+		}
+
+		arr.Elements = append(arr.Elements, elem)
 	}
 
 	return arr
-- 
2.43.0


From 21e4c01dc92002ed1ce174b1788933ad2a21b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 34/42] fix: report unsupported values in the result of a
 custom function

---
 evaluator/evaluator.go |  9 +++++++--
 fail/fail.go           | 19 ++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 88995e5..12ef472 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -753,8 +753,13 @@ func (e *Evaluator) evalCallExp(
 		case object.ARR_OBJ:
 			fun := e.ctx.CustomFunc.Arr[funcName]
 			nativeElems := e.objectsToNativeType(receiverObj.(*object.Array).Elements)
-			res := fun(nativeElems, nativeArgs...)
-			return object.NativeToObject(res)
+			res := object.NativeToObject(fun(nativeElems, nativeArgs...))
+
+			if res == nil {
+				return e.newError(node, fail.ErrFuncUnsupportedResult, funcName, receiverType)
+			}
+
+			return res
 		case object.INT_OBJ:
 			fun := e.ctx.CustomFunc.Int[funcName]
 			res := fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
diff --git a/fail/fail.go b/fail/fail.go
index a7abfb1..8d17597 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -47,15 +47,16 @@ const (
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-	ErrNoFuncForThisType  = "function '%s' doesn't exist for type '%s'"
-	ErrFuncRequiresOneArg = "function '%s' on type '%s' requires at least one argument"
-	ErrFuncFirstArgInt    = "first argument for function '%s' on type '%s' must be an INTEGER"
-	ErrFuncFirstArgStr    = "first argument for function '%s' on type '%s' must be a STRING"
-	ErrFuncSecondArgInt   = "second argument for function '%s' on type '%s' must be an INTEGER"
-	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
-	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
-	ErrFuncNegativeCount  = "function '%s' on type '%s' doesn't accept the negative count '%d'"
-	ErrFuncResultTooLong  = "function '%s' on type '%s' cannot return a string longer than %d bytes"
+	ErrNoFuncForThisType     = "function '%s' doesn't exist for type '%s'"
+	ErrFuncRequiresOneArg    = "function '%s' on type '%s' requires at least one argument"
+	ErrFuncFirstArgInt       = "first argument for function '%s' on type '%s' must be an INTEGER"
+	ErrFuncFirstArgStr       = "first argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncSecondArgInt      = "second argument for function '%s' on type '%s' must be an INTEGER"
+	ErrFuncSecondArgStr      = "second argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncMaxArgs           = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
+	ErrFuncNegativeCount     = "function '%s' on type '%s' doesn't accept the negative count '%d'"
+	ErrFuncUnsupportedResult = "function '%s' on type '%s' returned a value of an unsupported type"
+	ErrFuncResultTooLong     = "function '%s' on type '%s' cannot return a string longer than %d bytes"
 
 	// Template errors
 	ErrUnsupportedType   = "unsupported type '%T'"
-- 
2.43.0


From dd534a2bf79219b395d4185d702a32d139f80fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 35/42] fix: keep percent signs of native error messages as
 they are

---
 fail/fail.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fail/fail.go b/fail/fail.go
index 8d17597..0c8bf71 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -149,10 +149,10 @@ func (e *Error) Error() error {
 	return errors.New(e.String())
 }
 
-func FromError(err error, line uint, absPath, origin string, args ...any) *Error {
+func FromError(err error, line uint, absPath, origin string) *Error {
 	if err == nil {
 		return nil
 	}
 
-	return New(line, absPath, origin, err.Error(), args...)
+	return New(line, absPath, origin, "%s", err.Error())
 }
-- 
2.43.0


From d25a22fd709a1f97057b2b474b4818e53a769552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 36/42] fix: resolve template paths independently of earlier
 calls

---
 files.go        | 10 ++++++----
 parser_utils.go |  4 ++--
 template.go     |  2 +-
 textwire.go     |  9 ---------
 4 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/files.go b/files.go
index 379ee3f..c28ea6d 100644
--- a/files.go
+++ b/files.go
@@ -7,11 +7,13 @@ import (
 	"strings"
 )
 
-func getFullPath(filename string, appendExt bool) (string, error) {
-	if usesTemplates {
-		filename = joinPaths(userConfig.TemplateDir, filename)
-	}
+// getTemplatePath returns the absolute path of the template with the
+// given name, which is relative to the template directory
+func getTemplatePath(name string) (string, error) {
+	return getFullPath(joinPaths(userConfig.TemplateDir, name), true)
+}
 
+func getFullPath(filename string, appendExt bool) (string, error) {
 	if appendExt {
 		filename += userConfig.TemplateExt
 	}
diff --git a/parser_utils.go b/parser_utils.go
index 6118e15..f1d2336 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -80,7 +80,7 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 
 	layoutName := prog.UseStmt.Name.Value
 	stmt := prog.UseStmt
-	layoutAbsPath, err := getFullPath(layoutName, true)
+	layoutAbsPath, err := getTemplatePath(layoutName)
 	if err != nil {
 		return fail.FromError(err, stmt.Line(), layoutAbsPath, "template")
 	}
@@ -109,7 +109,7 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 	for _, comp := range prog.Components {
 		compName := comp.Name.Value
-		compAbsPath, err := getFullPath(compName, true)
+		compAbsPath, err := getTemplatePath(compName)
 		if err != nil {
 			return fail.FromError(err, 0, "", "template")
 		}
diff --git a/template.go b/template.go
index 21271a2..02f00df 100644
--- a/template.go
+++ b/template.go
@@ -22,7 +22,7 @@ func (t *Template) String(filename string, data map[string]any) (string, *fail.E
 		return "", envErr
 	}
 
-	absPath, err := getFullPath(filename, true)
+	absPath, err := getTemplatePath(filename)
 	if err != nil {
 		return "", fail.New(0, filename, "template", "%s", err.Error())
 	}
diff --git a/textwire.go b/textwire.go
index d384894..8c1d828 100644
--- a/textwire.go
+++ b/textwire.go
@@ -13,9 +13,6 @@ import (
 var userConfig = config.New("templates", ".tw.html", "", false)
 var customFunc = config.NewFunc()
 
-// usesTemplates is a flag to check if user uses Textwire templates or not
-var usesTemplates = false
-
 func NewTemplate(opt *config.Config) (*Template, error) {
 	Configure(opt)
 
@@ -34,8 +31,6 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	prog, errs := parseStr(inp)
 
 	if len(errs) != 0 {
@@ -60,8 +55,6 @@ func EvaluateString(inp string, data map[string]any) (string, error) {
 }
 
 func EvaluateFile(absPath string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	content, err := fileContent(absPath)
 	if err != nil {
 		return "", fail.FromError(err, 0, absPath, "template").Error()
@@ -126,8 +119,6 @@ func RegisterBoolFunc(name string, fn config.BoolCustomFunc) error {
 }
 
 func Configure(opt *config.Config) {
-	usesTemplates = true
-
 	if opt == nil {
 		return
 	}
-- 
2.43.0


From c2ee445fcee4a149648f16afb1e4ee3e812be831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 37/42] fix: register exactly the files that end in the
 extension, under their path relative to the template directory

---
 files.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/files.go b/files.go
index c28ea6d..b913e58 100644
--- a/files.go
+++ b/files.go
@@ -50,7 +50,7 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		if info.IsDir() || !strings.Contains(path, userConfig.TemplateExt) {
+		if info.IsDir() || !strings.HasSuffix(info.Name(), userConfig.TemplateExt) {
 			return nil
 		}
 
@@ -60,7 +60,12 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		result[nameFromPath(path)] = absPath
+		name, err := nameFromPath(path)
+		if err != nil {
+			return err
+		}
+
+		result[name] = absPath
 
 		return nil
 	})
@@ -72,8 +77,13 @@ func findTextwireFiles() (map[string]string, error) {
 	return result, nil
 }
 
-func nameFromPath(path string) string {
-	name := strings.Replace(path, userConfig.TemplateDir+"/", "", 1)
-	name = strings.Replace(name, userConfig.TemplateExt, "", 1)
-	return name
+// nameFromPath returns the path of the file relative to
+// the template directory and without the extension
+func nameFromPath(path string) (string, error) {
+	name, err := filepath.Rel(userConfig.TemplateDir, path)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(filepath.ToSlash(name), userConfig.TemplateExt), nil
 }
-- 
2.43.0


From 5773983612bb0f2ad9bf9231b8a7f816f4c94162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 38/42] fix: report missing and unreadable layouts and
 components at the file that uses them

---
 parser_utils.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser_utils.go b/parser_utils.go
index f1d2336..ce9ced3 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -57,7 +57,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 			return nil, failErr
 		}
 
-		if err := applyLayoutToProgram(prog); err != nil {
+		if err := applyLayoutToProgram(prog, absPath); err != nil {
 			return nil, err
 		}
 
@@ -73,7 +73,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 	return result, nil
 }
 
-func applyLayoutToProgram(prog *ast.Program) *fail.Error {
+func applyLayoutToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 	if !prog.HasUseStmt() {
 		return nil
 	}
@@ -82,12 +82,12 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 	stmt := prog.UseStmt
 	layoutAbsPath, err := getTemplatePath(layoutName)
 	if err != nil {
-		return fail.FromError(err, stmt.Line(), layoutAbsPath, "template")
+		return fail.FromError(err, stmt.Line(), progFilePath, "template")
 	}
 
 	layoutProg, failErr, parseErr := parseProgram(layoutAbsPath)
 	if parseErr != nil {
-		return fail.FromError(parseErr, stmt.Line(), layoutAbsPath, "template")
+		return fail.FromError(parseErr, stmt.Line(), progFilePath, "template")
 	}
 
 	if failErr != nil {
@@ -122,7 +122,7 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error
 					fail.ErrUndefinedComponent, comp.Name.Value)
 			}
 
-			return fail.FromError(parseErr, comp.Line(), compAbsPath, "template")
+			return fail.FromError(parseErr, comp.Line(), progFilePath, "template")
 		}
 
 		if failErr != nil {
-- 
2.43.0


From 571ccdcc3652f519c4eaf486e848cf1ac0983c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 39/42] fix: look up object properties by the exact text of a
 string literal

---
 evaluator/evaluator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 12ef472..b417e52 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -519,7 +519,14 @@ func (e *Evaluator) evalIndexExp(
 	case left.Is(object.ARR_OBJ) && idx.Is(object.INT_OBJ):
 		return e.evalArrayIndexExp(left, idx)
 	case left.Is(object.OBJ_OBJ) && idx.Is(object.STR_OBJ):
-		return e.evalObjectIndexExp(left.(*object.Obj), idx.(*object.Str).Value, node.Index)
+		key := idx.(*object.Str).Value
+
+		// the value of a string literal is escaped, keys of objects are not
+		if literal, ok := node.Index.(*ast.StringLiteral); ok {
+			key = literal.Value
+		}
+
+		return e.evalObjectIndexExp(left.(*object.Obj), key, node.Index)
 	}
 
 	return e.newError(node, fail.ErrIndexNotSupported, left.Type())
-- 
2.43.0


From 4c37a91849fe6ae4f7f9cdc174c04c88efe4e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 40/42] fix: the absolute value of a negative float zero is
 zero

---
 evaluator/float_func.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/evaluator/float_func.go b/evaluator/float_func.go
index 6374d7c..cc26aa5 100644
--- a/evaluator/float_func.go
+++ b/evaluator/float_func.go
@@ -23,12 +23,7 @@ func floatStrFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (o
 // floatAbsFunc returns the absolute value of an float
 func floatAbsFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Float).Value
-
-	if val < 0 {
-		return &object.Float{Value: -val}, nil
-	}
-
-	return receiver, nil
+	return &object.Float{Value: math.Abs(val)}, nil
 }
 
 // floatCeilFunc returns the rounded up value of a float to the nearest integer
-- 
2.43.0


From d6f82dce2318b0ed0076c987d370c4255971d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 41/42] fix: report data that is nested too deep instead of
 overflowing the stack

---
 object/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index a7cd704..f80d19d 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -4,6 +4,10 @@ import (
 	"reflect"
 )
 
+// maxNativeDepth is the limit of nested pointers, slices and maps in
+// the native value. Much deeper values would overflow the stack.
+const maxNativeDepth = 100_000
+
 // visit identifies a reference in the native value that is being converted
 type visit struct {
 	ptr     uintptr
@@ -12,7 +16,8 @@ type visit struct {
 }
 
 // NativeToObject converts the native Go value to an object. It returns nil
-// when the value or any value inside of it has an unsupported type.
+// when the value or any value inside of it has an unsupported type or is
+// nested too deep.
 func NativeToObject(val any) Object {
 	return reflectToObject(reflect.ValueOf(val), map[visit]bool{})
 }
@@ -44,7 +49,7 @@ func reflectToObject(val reflect.Value, path map[visit]bool) Object {
 			v.len = val.Len()
 		}
 
-		if path[v] {
+		if path[v] || len(path) >= maxNativeDepth {
 			return nil
 		}
 
-- 
2.43.0


From cd4ce08a0830878e5068ed4376c4274275eff1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 42/42] fix: report a use statement inside of an insert

The insert is put into the layout that the use statement renders, so
that rendering such a page never ended and overflowed the stack.
---
 fail/fail.go     | 1 +
 parser/parser.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/fail/fail.go b/fail/fail.go
index 0c8bf71..0378bc1 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -28,6 +28,7 @@ const (
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
 	ErrNestingTooDeep            = "expressions and blocks cannot be nested deeper than %d levels"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
+	ErrUseStmtInInsert           = "the 'use' statement is not allowed in an insert. It will cause infinite recursion"
 
 	// Evaluator (interpreter) errors
 	ErrUnknownNodeType         = "unknown node type '%T'"
diff --git a/parser/parser.go b/parser/parser.go
index a0b1280..5e3c113 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -770,8 +770,15 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
+	useStmt := p.useStmt
+
 	stmt.Block = p.parseBlockStmt()
 
+	if p.useStmt != useStmt {
+		p.newError(p.useStmt.Line(), fail.ErrUseStmtInInsert)
+		return nil
+	}
+
 	if !p.expectPeek(token.END) { // move to "@end"
 		return nil
 	}
-- 
2.43.0

