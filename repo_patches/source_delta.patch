From f05ab2f50eb8bcef687b893084de5e2c76d4c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 01/58] fix: a minus sign after an operand is an operator, not
 the sign of a number

---
 lexer/lexer.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 330a093..45ea2fc 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -230,6 +230,25 @@ func char(s string, position int) string {
 	return c
 }
 
+// endsOperand returns true if the last token terminates an operand. In this case a
+// following "-" is always an operator and never the sign of a number.
+func endsOperand(tokens []Token) bool {
+	length := len(tokens)
+
+	if length == 0 {
+		return false
+	}
+	return slices.Contains([]TokenType{
+		IDENTIFIER,
+		NUMBER_LITERAL,
+		BOOL_LITERAL,
+		STRING_LITERAL,
+		NIL_LITERAL,
+		CLOSING_ROUND_BRACKET,
+		CLOSING_SQUARE_BRACKET,
+	}, tokens[length-1].tokenType)
+}
+
 func Tokenize(source string) ([]Token, error) {
 	var err error = nil
 	tokens := []Token{}
@@ -302,7 +321,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" && (c0 != "-" || !endsOperand(tokens)) {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 39b5ac6b0169e6b4c3614a30b082e08d64a5a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 02/58] fix: comparison chains associate to the left

---
 parser/parser.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 819565f..509f2b5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2260,12 +2260,17 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	operatorToken := p.peek()
-	operator := operatorToken.Value()
 
-	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
+	// To implement associativity, use for-loop and keep appending same prio-expressions.
+	for {
+		operatorToken := p.peek()
+		operator := operatorToken.Value()
+
+		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
+			break
+		}
 		p.eat() // Eat operator token.
-		rightExpression, err := p.evaluateComparison(ctx)
+		rightExpression, err := p.evaluateAddition(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2281,7 +2286,7 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if !slices.Contains(allowedOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		return NewComparison(leftExpression, operator, rightExpression), nil
+		leftExpression = NewComparison(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
-- 
2.43.0


From a560e923fde9da7179d308f93891d2232076474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 03/58] fix: accept repeated negation

---
 parser/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 509f2b5..4cb77db 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2098,7 +2098,13 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 		}
 	}
 	valueToken := p.peek()
-	expr, err := p.evaluateSingleExpression(ctx)
+	operandCallout := p.evaluateSingleExpression
+
+	// A negated value might be negated itself (e.g. !!x).
+	if negate {
+		operandCallout = p.evaluateUnaryOperation
+	}
+	expr, err := operandCallout(ctx)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 087c1419fee2cfc1ac6200b547c43c6eeb8a6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 04/58] fix: nested Bash loops do not share their
 first-iteration variable

---
 converters/bash/converter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..c4b6f4c 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -19,6 +19,7 @@ type converter struct {
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	fors                          []int
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -167,6 +168,10 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	// Every loop requires its own variable, also if it's nested.
+	c.fors = append(c.fors, c.forCounter)
+	c.forCounter++
+
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
 	return nil
@@ -190,8 +195,9 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
-	c.forCounter++
 
+	lastIndex := len(c.fors) - 1
+	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 	return nil
 }
 
@@ -542,7 +548,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return fmt.Sprintf("_fv%d", c.fors[len(c.fors)-1])
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From 146247c47cd43114cc9c95c2ec5b556d721bc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 05/58] fix: range loops evaluate their operand once and keep
 their own counter

---
 parser/parser.go | 52 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4cb77db..6a8aa65 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -188,6 +188,7 @@ type Parser struct {
 	path      string
 	prefix    string
 	currFunc  string
+	internals int                 // Amount of internal variables which have been created so far.
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
 }
 
@@ -482,6 +483,14 @@ func (p *Parser) cleanProgram(program Program) (Program, error) {
 	}, nil
 }
 
+// newInternalVariable creates a local variable which is not accessible by the program itself.
+func (p *Parser) newInternalVariable(valueType ValueType) Variable {
+	variable := NewVariable(fmt.Sprintf("_iv%d", p.internals), valueType, false, false)
+	p.internals++
+
+	return variable
+}
+
 func (p *Parser) evaluateVarNames() ([]lexer.Token, error) {
 	nameTokens := []lexer.Token{}
 
@@ -1781,26 +1790,39 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		indexVar := NewVariable(indexVarName, NewValueType(DATA_TYPE_INTEGER, false), false, false)
 		var iterableEvaluation Expression
 
+		// Evaluate the iterable only once and count separately to make sure that the loop is not
+		// affected if the iterable or the index variable is modified within the loop body.
+		iterableVar := p.newInternalVariable(iterableValueType)
+		counterVar := p.newInternalVariable(indexVar.ValueType())
+		iterable := VariableEvaluation{iterableVar}
+		counter := VariableEvaluation{counterVar}
+
 		if iterableValueType.IsSlice() {
 			iterableEvaluation = SliceEvaluation{
-				value:    iterableExpression,
-				index:    VariableEvaluation{indexVar},
+				value:    iterable,
+				index:    counter,
 				dataType: iterableValueType.DataType(),
 			}
 		} else if iterableValueType.IsString() {
 			iterableEvaluation = StringSubscript{
-				value:      iterableExpression,
-				startIndex: VariableEvaluation{indexVar},
+				value:      iterable,
+				startIndex: counter,
 			}
 		} else {
 			return nil, p.expectedError("slice or string", nextToken)
 		}
 		iterableValueType.isSlice = false // Make sure the value var is not a slice.
-		forRangeStatements := []Statement{}
 
 		// Add count variable.
 		ctx.addVariables(p.prefix, false, indexVar)
 
+		forRangeStatements := []Statement{
+			VariableAssignment{
+				variables: []Variable{indexVar},
+				values:    []Expression{counter},
+			},
+		}
+
 		// If no value variable has been provided, there's no need to add it.
 		if hasNamedVar {
 			valueVar := NewVariable(valueVarName, iterableValueType, false, false)
@@ -1808,24 +1830,22 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			// Add value variable.
 			ctx.addVariables(p.prefix, false, valueVar)
 
-			forRangeStatements = []Statement{
-				VariableAssignment{
-					variables: []Variable{valueVar},
-					values:    []Expression{iterableEvaluation},
-				},
-			}
+			forRangeStatements = append(forRangeStatements, VariableAssignment{
+				variables: []Variable{valueVar},
+				values:    []Expression{iterableEvaluation},
+			})
 		}
 
 		init := VariableAssignment{
-			variables: []Variable{indexVar},
-			values:    []Expression{IntegerLiteral{0}},
+			variables: []Variable{iterableVar, counterVar},
+			values:    []Expression{iterableExpression, IntegerLiteral{0}},
 		}
 		condition := Comparison{
-			left:     VariableEvaluation{indexVar},
+			left:     counter,
 			operator: COMPARE_OPERATOR_LESS,
-			right:    Len{iterableExpression},
+			right:    Len{iterable},
 		}
-		increment := incrementDecrementStatement(indexVar, true)
+		increment := incrementDecrementStatement(counterVar, true)
 		statements, err := p.evaluateBlock(nil, ctx, SCOPE_FOR)
 
 		if err != nil {
-- 
2.43.0


From cf4a9856d56c47b21d709506726e2441604e8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 06/58] fix: switch evaluates its value once

---
 parser/if.go             |  5 +++++
 parser/parser.go         | 10 +++++++++-
 transpiler/transpiler.go |  9 +++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/parser/if.go b/parser/if.go
index d9b0d46..1175e23 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -22,6 +22,7 @@ func (e Else) Body() []Statement {
 }
 
 type If struct {
+	init         Statement // Statement which shall be evaluated before the conditions (might be nil).
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
@@ -31,6 +32,10 @@ func (i If) StatementType() StatementType {
 	return STATEMENT_TYPE_IF
 }
 
+func (i If) Init() Statement {
+	return i.init
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 6a8aa65..aa65b05 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1641,6 +1641,13 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if switchExprValueType.IsSlice() {
 		return nil, p.atError("slices are not allowed in switch statements", exprToken)
 	}
+
+	// Store the switch value to make sure that it's only evaluated once.
+	switchVar := p.newInternalVariable(switchExprValueType)
+	init := VariableAssignment{
+		variables: []Variable{switchVar},
+		values:    []Expression{switchExpr},
+	}
 	beginToken := p.eat()
 
 	if beginToken.Type() != lexer.OPENING_CURLY_BRACKET {
@@ -1652,6 +1659,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		return nil, p.expectedNewlineError(nextToken)
 	}
 	fakeIf := If{
+		init: init,
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
@@ -1700,7 +1708,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 				return nil, p.atError(fmt.Sprintf("%s value cannot be compared with switch's %s value", compareExprValueType.String(), switchExprValueType.String()), compareExprToken)
 			}
 			ifBranch := IfBranch{
-				condition: NewComparison(switchExpr, COMPARE_OPERATOR_EQUAL, compareExpr),
+				condition: NewComparison(VariableEvaluation{switchVar}, COMPARE_OPERATOR_EQUAL, compareExpr),
 				body:      statements,
 			}
 
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..77f7a1d 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -246,6 +246,15 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
+	init := ifStatement.Init()
+
+	if init != nil {
+		err := t.evaluate(init)
+
+		if err != nil {
+			return err
+		}
+	}
 	ifBranch := ifStatement.IfBranch()
 	result, err := t.evaluateExpression(ifBranch.Condition(), true)
 
-- 
2.43.0


From c809f3ff03249bc02ae8e637d8967473c5eff3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 07/58] fix: assignments write the variable which has been
 found, not a local one

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa65b05..93e1cf9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1288,7 +1288,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
-- 
2.43.0


From 445300ef494fbe26ed98bca6cd7c112bba5bfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 08/58] fix: simultaneous assignments use the old values on the
 right side

---
 transpiler/transpiler.go | 57 ++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 77f7a1d..15f6647 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -374,14 +374,48 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 	return conv.ForEnd()
 }
 
-func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
-	for i, variable := range definition.Variables() {
-		result, err := t.evaluateExpression(definition.Values()[i], true)
+// evaluateAssignedValues evaluates all values before any of them is assigned.
+func (t *transpiler) evaluateAssignedValues(expressions []parser.Expression) ([]string, error) {
+	values := []string{}
+
+	for _, expr := range expressions {
+		result, err := t.evaluateExpression(expr, true)
 
 		if err != nil {
-			return err
+			return nil, err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		values = append(values, result.firstValue())
+	}
+
+	// If several values are assigned, store them first to make sure that no
+	// value is affected by the assignment of another (e.g. a, b = b, a).
+	if len(values) > 1 {
+		for i, value := range values {
+			name := fmt.Sprintf("_mv%d", i)
+			err := t.converter.VarDefinition(name, value, false)
+
+			if err != nil {
+				return nil, err
+			}
+			values[i], err = t.converter.VarEvaluation(name, true, false)
+
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+	return values, nil
+}
+
+func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
+	values, err := t.evaluateAssignedValues(definition.Values())
+
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range definition.Variables() {
+		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -416,13 +450,14 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 }
 
 func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment) error {
-	for i, variable := range assignment.Variables() {
-		result, err := t.evaluateExpression(assignment.Values()[i], true)
+	values, err := t.evaluateAssignedValues(assignment.Values())
 
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range assignment.Variables() {
+		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
 
 		if err != nil {
 			return err
-- 
2.43.0


From 020a33a2ab3cde22b9b11aa9bd4c71ba756e7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 09/58] fix: break within a switch leaves the switch, not the
 surrounding loop

---
 converters/bash/converter.go  | 35 +++++++++++++++++++++++++++++++++--
 converters/batch/converter.go | 10 ++++++++++
 parser/if.go                  |  5 +++++
 parser/parser.go              |  3 ++-
 transpiler/converter.go       |  2 ++
 transpiler/transpiler.go      | 19 ++++++++++++++++++-
 6 files changed, 70 insertions(+), 4 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c4b6f4c..b1e065d 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -20,6 +20,7 @@ type converter struct {
 	varCounter                    int
 	forCounter                    int
 	fors                          []int
+	loops                         []bool // Current loops of the script (true if it's a for-loop, false if it's a switch).
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -167,7 +168,25 @@ func (c *converter) ElseEnd() error {
 	return nil
 }
 
+func (c *converter) SwitchStart() error {
+	// Use a loop which is only executed once to be able to leave the switch by break.
+	c.addLine("while true; do")
+	c.loops = append(c.loops, false)
+
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.addLine("break")
+	c.addLine("done")
+	c.popLoop()
+
+	return nil
+}
+
 func (c *converter) ForStart() error {
+	c.loops = append(c.loops, true)
+
 	// Every loop requires its own variable, also if it's nested.
 	c.fors = append(c.fors, c.forCounter)
 	c.forCounter++
@@ -195,6 +214,7 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
+	c.popLoop()
 
 	lastIndex := len(c.fors) - 1
 	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
@@ -202,12 +222,18 @@ func (c *converter) ForEnd() error {
 }
 
 func (c *converter) Break() error {
-	c.addLine("break") // TODO: Break within switch. This might be a good solution -> https://stackoverflow.com/a/30874026.
+	c.addLine("break")
 	return nil
 }
 
 func (c *converter) Continue() error {
-	c.addLine("continue")
+	levels := 1
+
+	// Skip switch loops which are located within the current for-loop.
+	for i := len(c.loops) - 1; i >= 0 && !c.loops[i]; i-- {
+		levels++
+	}
+	c.addLine(fmt.Sprintf("continue %d", levels))
 	return nil
 }
 
@@ -547,6 +573,11 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
+func (c *converter) popLoop() {
+	lastIndex := len(c.loops) - 1
+	c.loops = slices.Delete(c.loops, lastIndex, lastIndex+1)
+}
+
 func (c *converter) mustCurrentForVar() string {
 	return fmt.Sprintf("_fv%d", c.fors[len(c.fors)-1])
 }
diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..e618913 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -340,6 +340,16 @@ func (c *converter) ElseEnd() error {
 	return nil
 }
 
+func (c *converter) SwitchStart() error {
+	c.nextEndLabel()
+	return nil
+}
+
+func (c *converter) SwitchEnd() error {
+	c.addLine(c.popEndLabel())
+	return nil
+}
+
 func (c *converter) ForStart() error {
 	label := c.nextForLabel()
 	c.nextEndLabel()
diff --git a/parser/if.go b/parser/if.go
index 1175e23..c958ea0 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -26,6 +26,7 @@ type If struct {
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
+	isSwitch     bool // If set, the statement is a switch which can be left by break.
 }
 
 func (i If) StatementType() StatementType {
@@ -36,6 +37,10 @@ func (i If) Init() Statement {
 	return i.init
 }
 
+func (i If) IsSwitch() bool {
+	return i.isSwitch
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 93e1cf9..208972c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1659,7 +1659,8 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		return nil, p.expectedNewlineError(nextToken)
 	}
 	fakeIf := If{
-		init: init,
+		init:     init,
+		isSwitch: true,
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
diff --git a/transpiler/converter.go b/transpiler/converter.go
index c0561c4..bc172a5 100644
--- a/transpiler/converter.go
+++ b/transpiler/converter.go
@@ -67,6 +67,8 @@ type Converter interface {
 	ElseIfEnd() error
 	ElseStart() error
 	ElseEnd() error
+	SwitchStart() error
+	SwitchEnd() error
 	ForStart() error
 	ForIncrementStart() error
 	ForIncrementEnd() error
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 15f6647..b37bcb8 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -272,6 +272,14 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 		}
 		elifConditions = append(elifConditions, result.firstValue())
 	}
+
+	if ifStatement.IsSwitch() {
+		err = conv.SwitchStart()
+
+		if err != nil {
+			return err
+		}
+	}
 	err = conv.IfStart(result.firstValue())
 
 	if err != nil {
@@ -318,7 +326,16 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 			return err
 		}
 	}
-	return conv.IfEnd()
+	err = conv.IfEnd()
+
+	if err != nil {
+		return err
+	}
+
+	if ifStatement.IsSwitch() {
+		return conv.SwitchEnd()
+	}
+	return nil
 }
 
 func (t *transpiler) evaluateFor(forStatement parser.For) error {
-- 
2.43.0


From 966aa3348df3487f7cef3019056bee015a5052ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 10/58] fix: Batch loops use unique end labels and continue
 their own loop

---
 converters/batch/converter.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index e618913..0c16641 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -31,7 +31,8 @@ type funcInfo struct {
 }
 
 type forInfo struct {
-	label string
+	label    string
+	variable string
 }
 
 type ifInfo struct {
@@ -48,6 +49,7 @@ type converter struct {
 	varCounter                    int
 	ifCounter                     int
 	forCounter                    int
+	endCounter                    int
 	endLabels                     []string
 	funcs                         []funcInfo
 	funcCounter                   int
@@ -351,10 +353,12 @@ func (c *converter) SwitchEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	variable := fmt.Sprintf("_fv%d", c.forCounter)
 	label := c.nextForLabel()
 	c.nextEndLabel()
 	c.fors = append(c.fors, forInfo{
-		label: label,
+		label:    label,
+		variable: variable,
 	})
 	c.addLine(fmt.Sprintf(`set "%s="`, c.mustCurrentForVar()))
 	c.addLine(label)
@@ -828,11 +832,11 @@ func (c *converter) addEndLine(line string) {
 }
 
 func (c *converter) mustCurrentForLabel() string {
-	return forLabel(c.forCounter - 1)
+	return c.fors[len(c.fors)-1].label
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter-1)
+	return c.fors[len(c.fors)-1].variable
 }
 
 func (c *converter) nextForLabel() string {
@@ -890,7 +894,9 @@ func (c *converter) popEndLabel() string {
 }
 
 func (c *converter) nextEndLabel() string {
-	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", len(c.endLabels)))
+	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", c.endCounter))
+	c.endCounter++
+
 	return c.mustCurrentEndLabel()
 }
 
-- 
2.43.0


From 00f0c3559774ebfca06c5ab3da44ddf871ac9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 11/58] fix: emitted names never collide with names of the
 compiler, the shell or the environment

---
 parser/parser.go         |  1 +
 parser/variable.go       | 13 +++++++---
 transpiler/transpiler.go | 54 ++++++++++++++++++++++++++++++++--------
 3 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 208972c..92d3bad 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -486,6 +486,7 @@ func (p *Parser) cleanProgram(program Program) (Program, error) {
 // newInternalVariable creates a local variable which is not accessible by the program itself.
 func (p *Parser) newInternalVariable(valueType ValueType) Variable {
 	variable := NewVariable(fmt.Sprintf("_iv%d", p.internals), valueType, false, false)
+	variable.internal = true
 	p.internals++
 
 	return variable
diff --git a/parser/variable.go b/parser/variable.go
index 0b71669..e55e947 100644
--- a/parser/variable.go
+++ b/parser/variable.go
@@ -5,14 +5,15 @@ type Variable struct {
 	valueType ValueType
 	global    bool
 	public    bool
+	internal  bool // If set, the variable has been created by the compiler.
 }
 
 func NewVariable(name string, valueType ValueType, global bool, public bool) Variable {
 	return Variable{
-		name,
-		valueType,
-		global,
-		public,
+		name:      name,
+		valueType: valueType,
+		global:    global,
+		public:    public,
 	}
 }
 
@@ -32,6 +33,10 @@ func (v Variable) Public() bool {
 	return v.public
 }
 
+func (v Variable) Internal() bool {
+	return v.internal
+}
+
 type VariableDefinition struct {
 	variables []Variable
 	values    []Expression
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index b37bcb8..c7c8188 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -2,6 +2,7 @@ package transpiler
 
 import (
 	"fmt"
+	"math/big"
 	"strconv"
 
 	"github.com/monstermichl/typeshell/parser"
@@ -43,6 +44,39 @@ func IntToString(i int) string {
 	return strconv.Itoa(i)
 }
 
+// uniqueName builds a name which neither collides with the names that are used by the
+// compiler, the shell or the environment, nor with another name that only differs in case
+// (the latter is required because Batch names are case-insensitive).
+func uniqueName(prefix string, name string) string {
+	mask := new(big.Int)
+
+	for i, r := range []byte(name) {
+		if r >= 'A' && r <= 'Z' {
+			mask.SetBit(mask, i, 1)
+		}
+	}
+	maskString := ""
+
+	if mask.Sign() > 0 {
+		maskString = mask.Text(16)
+	}
+	return fmt.Sprintf("%s%s_%s", prefix, maskString, name)
+}
+
+func varName(variable parser.Variable) string {
+	name := variable.Name()
+
+	// Internal variables already have a reserved name.
+	if !variable.Internal() {
+		name = uniqueName("v", name)
+	}
+	return name
+}
+
+func funcName(name string) string {
+	return uniqueName("fn", name)
+}
+
 type transpiler struct {
 	converter Converter
 }
@@ -432,7 +466,7 @@ func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition)
 	}
 
 	for i, variable := range definition.Variables() {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(varName(variable), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -457,7 +491,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(varName(variable), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -474,7 +508,7 @@ func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment)
 	}
 
 	for i, variable := range assignment.Variables() {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(varName(variable), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -499,7 +533,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(varName(variable), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -526,11 +560,11 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(varName(assignment.Variable), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
-	s, err := t.converter.VarEvaluation(evaluation.Name(), valueUsed, evaluation.Global())
+	s, err := t.converter.VarEvaluation(varName(evaluation.Variable), valueUsed, evaluation.Global())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -630,10 +664,10 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 	params := []string{}
 
 	for _, param := range functionDefinition.Params() {
-		params = append(params, param.Name())
+		params = append(params, varName(param))
 	}
 	conv := t.converter
-	err := conv.FuncStart(name, params, functionDefinition.ReturnTypes())
+	err := conv.FuncStart(funcName(name), params, functionDefinition.ReturnTypes())
 
 	if err != nil {
 		return err
@@ -659,7 +693,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		args = append(args, result.firstValue())
 	}
 	returnTypes := functionCall.ReturnTypes()
-	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
+	values, err := t.converter.FuncCall(funcName(name), args, returnTypes, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -749,7 +783,7 @@ func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionR
 		return expressionResult{}, err
 	}
 	destination := copy.Destination()
-	amount, err := t.converter.Copy(destination.Name(), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(varName(destination), expr.firstValue(), valueUsed, destination.Global())
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 9e502c0e861d8f1ba6d3414fb5dc3fbb233bc8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 12/58] fix: Bash functions receive more than nine arguments

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index b1e065d..389d91c 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -120,7 +120,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false)
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
-- 
2.43.0


From 0cf17395c63c7daf16810e06a231b31a3890f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 13/58] fix: the index of a string subscript is evaluated once

---
 parser/parser.go         | 11 +++++++----
 parser/string.go         |  6 ++++++
 transpiler/transpiler.go | 11 ++++++++---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 92d3bad..bba2d56 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2656,7 +2656,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	}
 	nextToken = p.peek()
 	endToken := nextToken
-	endIndex := startIndex
+	var endIndex Expression
 
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
 		// If range but no end-index is provided, create one by using Len-expression.
@@ -2687,10 +2687,13 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			right:    IntegerLiteral{1},
 		}
 	}
-	endIndexValueType := endIndex.ValueType()
 
-	if !endIndexValueType.IsInt() {
-		return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+	if endIndex != nil {
+		endIndexValueType := endIndex.ValueType()
+
+		if !endIndexValueType.IsInt() {
+			return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		}
 	}
 
 	if !isSlice {
diff --git a/parser/string.go b/parser/string.go
index 0a80b43..d184344 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -22,6 +22,12 @@ func (s StringSubscript) StartIndex() Expression {
 	return s.startIndex
 }
 
+// IsRange returns true if the subscript has an end-index, otherwise only the
+// character at the start-index is meant.
+func (s StringSubscript) IsRange() bool {
+	return s.endIndex != nil
+}
+
 func (s StringSubscript) EndIndex() Expression {
 	endIndex := s.endIndex
 
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index c7c8188..e35cc13 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -599,10 +599,15 @@ func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, v
 	if err != nil {
 		return expressionResult{}, err
 	}
-	endIndexResult, err := t.evaluateIndex(subscript.EndIndex(), true)
+	endIndexResult := startIndexResult
 
-	if err != nil {
-		return expressionResult{}, err
+	// A single index must not be evaluated twice.
+	if subscript.IsRange() {
+		endIndexResult, err = t.evaluateIndex(subscript.EndIndex(), true)
+
+		if err != nil {
+			return expressionResult{}, err
+		}
 	}
 	value := subscript.Value()
 	str, err := t.evaluateExpression(value, true)
-- 
2.43.0


From 157471244f8d57e45df691d23b6d0867ab301681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 14/58] fix: subscripts require a colon between start- and
 end-index

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index bba2d56..77c40e4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2668,6 +2668,8 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			}
 		}
 		p.eat() // Eat square bracket.
+	} else if !gotRange {
+		return nil, p.expectedError(`":" or "]"`, nextToken)
 	} else {
 		endIndex, err = p.evaluateExpression(ctx)
 
-- 
2.43.0


From f37753d72613afe91ad8e4b7a2c186a869459313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 15/58] fix: input uses the value of its prompt in any case

---
 transpiler/transpiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index e35cc13..af9edcd 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -766,7 +766,7 @@ func (t *transpiler) evaluateInput(input parser.Input, valueUsed bool) (expressi
 	prompt := input.Prompt()
 
 	if prompt != nil {
-		result, err := t.evaluateExpression(prompt, valueUsed)
+		result, err := t.evaluateExpression(prompt, true)
 
 		if err != nil {
 			return expressionResult{}, err
-- 
2.43.0


From 26fa2a4990be765ad0d309c42bcbc52c70d91852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 16/58] fix: Bash string literals are not interpreted by the
 shell

---
 converters/bash/converter.go | 17 ++++++-----------
 std/os.tsh                   |  2 +-
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 389d91c..c34df34 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -36,7 +36,9 @@ func New() *converter {
 }
 
 func (c *converter) StringToString(value string) string {
-	return value
+	// Strings are always used within double quotes, therefore all characters
+	// which have a special meaning there must be escaped.
+	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`").Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -307,7 +309,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -590,15 +592,8 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
+	if len(value) > 0 {
+		value = fmt.Sprintf(`"%s"`, value)
 	}
 	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
 }
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
-- 
2.43.0


From 4787346d1f646065cb6d67a642f2bc98643070bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 17/58] fix: arguments of program calls are passed unchanged in
 Bash

---
 converters/bash/converter.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c34df34..a059a74 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -492,25 +492,15 @@ func (c *converter) FuncCall(name string, args []string, returnTypes []parser.Va
 }
 
 func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]string, error) {
-	callsCopy := calls
 	callStrings := []string{}
 
-	for _, call := range callsCopy {
-		argsCopy := call.Args()
+	for _, call := range calls {
+		words := []string{fmt.Sprintf(`"%s"`, c.StringToString(call.Name()))}
 
-		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
-		}
-		space := ""
-
-		if len(argsCopy) > 0 {
-			space = " "
+		for _, arg := range call.Args() {
+			words = append(words, fmt.Sprintf(`"%s"`, arg))
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, strings.Join(words, " "))
 	}
 	callString := strings.Join(callStrings, " | ")
 
-- 
2.43.0


From 22cb22d33b2cee8dc9ce91f5fe5a9bfab8d50010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 18/58] fix: Bash prints values which look like options of echo

---
 converters/bash/converter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index a059a74..881a1ee 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -240,12 +240,12 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addLine(c.printString(strings.Join(values, " ")))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addLine(c.printString(value))
 	c.addLine("exit 1")
 	return nil
 }
@@ -565,6 +565,11 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
+func (c *converter) printString(value string) string {
+	// In contrast to echo, printf doesn't interpret the value (e.g. -n).
+	return fmt.Sprintf(`printf '%%s\n' "%s"`, value)
+}
+
 func (c *converter) popLoop() {
 	lastIndex := len(c.loops) - 1
 	c.loops = slices.Delete(c.loops, lastIndex, lastIndex+1)
-- 
2.43.0


From 9e00d2db0e0206104a50f6ad67931c7dc3d5bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 19/58] fix: slice values are not interpreted by the shell

---
 converters/bash/converter.go | 51 ++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 881a1ee..307e0a6 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -23,9 +23,10 @@ type converter struct {
 	loops                         []bool // Current loops of the script (true if it's a for-loop, false if it's a switch).
 	funcs                         []funcInfo
 	funcCounter                   int
-	sliceAssignmentHelperRequired bool
-	sliceCopyHelperRequired       bool
-	stringSubscriptHelperRequired bool
+	sliceAssignmentHelperRequired    bool
+	sliceInstantiationHelperRequired bool
+	sliceCopyHelperRequired          bool
+	stringSubscriptHelperRequired    bool
 }
 
 func New() *converter {
@@ -70,9 +71,19 @@ func (c *converter) ProgramEnd() error {
 			"local _i=${2}",
 			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${1}")),
 			`for ((_c=${_l};_c<${_i};_c++)); do`,
-			c.sliceAssignmentString("${1}", "${_c}", "${4}", false),
+			c.sliceAssignmentString("${1}", "${_c}", "${4}"),
 			`done`,
-			c.sliceAssignmentString("${1}", "${_i}", "${3}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "${3}"),
+		)
+	}
+
+	if c.sliceInstantiationHelperRequired {
+		// $1: Slice name
+		// $2...: Values
+		c.addHelper("slice instantiation", "_sih",
+			"local _n=${1}",
+			"shift",
+			`eval "${_n}=(\"\${@}\")"`,
 		)
 	}
 
@@ -82,8 +93,9 @@ func (c *converter) ProgramEnd() error {
 			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
 			"local _n=$(eval \"echo \\${${1}}\")",
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
-			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
+			"local _v",
+			c.sliceEvaluationString("_v", "${2}", "${_i}"),
+			c.sliceAssignmentString("${_n}", "${_i}", "${_v}"),
 			"_i=$((${_i}+1))",
 			"done",
 		)
@@ -418,20 +430,18 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 		vals := ""
 
 		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
+			vals = fmt.Sprintf(`%s "%s"`, vals, value)
 		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+		c.sliceInstantiationHelperRequired = true
+		c.addLine(fmt.Sprintf(`_sih "%s"%s`, c.varEvaluationString(helper, false), vals))
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
+
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -536,7 +546,6 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	destination = c.varName(destination, global)
 
 	c.addLine(fmt.Sprintf("_sch %s %s", destination, source))
-	c.sliceAssignmentHelperRequired = true
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
@@ -597,13 +606,15 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 	return fmt.Sprintf("${%s}", c.varName(name, global))
 }
 
-func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
-	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+// sliceAssignmentString creates the assignment of a variable's value (e.g. ${_v}) to a slice. The
+// variable is not evaluated before eval is executed to make sure its value is not interpreted.
+func (c *converter) sliceAssignmentString(name string, index string, variable string) string {
+	return fmt.Sprintf(`eval "%s[%s]=\"\%s\""`, name, index, variable)
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+// sliceEvaluationString creates the assignment of a slice value to the passed variable.
+func (c *converter) sliceEvaluationString(variable string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\"\${%s[%s]}\""`, variable, name, index)
 }
 
 func (c *converter) sliceLenString(name string) string {
-- 
2.43.0


From b416c54560a5ac01d15bb646b67df634100b8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 20/58] fix: write and read do not interpret path and content

---
 converters/bash/converter.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 307e0a6..759f2c2 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -263,10 +263,13 @@ func (c *converter) Panic(value string) error {
 }
 
 func (c *converter) WriteFile(path string, content string, append string) error {
-	helper := c.nextHelperVar()
+	printString := c.printString(content)
 
-	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
+	c.addLine(fmt.Sprintf(`if [ "%s" -eq "%s" ]; then`, append, transpiler.BoolToString(true)))
+	c.addLine(fmt.Sprintf(`%s >> "%s"`, printString, path))
+	c.addLine("else")
+	c.addLine(fmt.Sprintf(`%s > "%s"`, printString, path))
+	c.addLine("fi")
 	return nil
 }
 
@@ -570,7 +573,13 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+	name := c.varName(helper, false)
+
+	// Command substitutions remove all newlines at the end. To only remove the last one, an
+	// additional character is added temporarily.
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; echo "_")`, path), false)
+	c.VarAssignment(helper, fmt.Sprintf(`${%s%%_}`, name), false)
+	c.VarAssignment(helper, fmt.Sprintf(`${%s%%$'\n'}`, name), false)
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From f867b6e0a8fd0098625a1a5e760fa2092bf0bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 21/58] fix: input reads a line unchanged, also within
 functions

---
 converters/bash/converter.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 759f2c2..a162b05 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -14,15 +14,15 @@ type funcInfo struct {
 }
 
 type converter struct {
-	interpreter                   string
-	startCode                     []string
-	code                          []string
-	varCounter                    int
-	forCounter                    int
-	fors                          []int
-	loops                         []bool // Current loops of the script (true if it's a for-loop, false if it's a switch).
-	funcs                         []funcInfo
-	funcCounter                   int
+	interpreter                      string
+	startCode                        []string
+	code                             []string
+	varCounter                       int
+	forCounter                       int
+	fors                             []int
+	loops                            []bool // Current loops of the script (true if it's a for-loop, false if it's a switch).
+	funcs                            []funcInfo
+	funcCounter                      int
 	sliceAssignmentHelperRequired    bool
 	sliceInstantiationHelperRequired bool
 	sliceCopyHelperRequired          bool
@@ -541,7 +541,7 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From 408a1efec015359ab45c9ebfab63ba5817c9920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 22/58] fix: copy returns the number of copied values in Bash

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index a162b05..d0ba2f6 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -552,7 +552,7 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(c.varEvaluationString(destination, true)), false)
+	c.VarAssignment(helper, c.sliceLenString(source), false)
 
 	return c.varEvaluationString(helper, false), nil
 }
-- 
2.43.0


From f8a617dd385f402d22edf0d0e69e7aadfc776eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 23/58] fix: lexer ends comments at their first terminator and
 keeps strings and positions exact

---
 lexer/lexer.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 45ea2fc..b859a63 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -6,6 +6,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type TokenType int8
@@ -276,15 +277,20 @@ func Tokenize(source string) ([]Token, error) {
 				c0 = char(source, i)
 				appended := false
 
-				if match := regexp.MustCompile(`^\\.`).FindString(source[i:]); !raw && match != "" {
-					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#Unquote).
-					parsed, err := strconv.Unquote(fmt.Sprintf(`"%s"`, match))
+				if !raw && c0 == `\` && i+1 < sourceLength {
+					// Convert escape sequence (https://pkg.go.dev/strconv#UnquoteChar).
+					parsed, multibyte, tail, err := strconv.UnquoteChar(source[i:], '"')
 
 					if err != nil {
-						return nil, fmt.Errorf(`invalid escape sequence "%s"`, match)
+						return nil, fmt.Errorf(`invalid escape sequence "%s"`, source[i:i+2])
 					}
-					str += parsed
-					i += len(match)
+
+					if parsed < utf8.RuneSelf || multibyte {
+						str += string(parsed)
+					} else {
+						str += string([]byte{byte(parsed)})
+					}
+					i = sourceLength - len(tail)
 					appended = true
 				} else if (raw && c0 == "`") || (!raw && c0 == `"`) {
 					// Detected string end.
@@ -294,7 +300,10 @@ func Tokenize(source string) ([]Token, error) {
 				}
 
 				if !appended {
-					str += c0
+					// Copy the byte unchanged, carriage returns are not part of raw strings.
+					if !raw || c0 != "\r" {
+						str += source[i : i+1]
+					}
 					i++
 				}
 			}
@@ -303,7 +312,15 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
+
+			// Strings may span several lines.
+			if lines := strings.Split(source[ogI:i], "\n"); len(lines) > 1 {
+				lastLinesIndex := len(lines) - 1
+				row += lastLinesIndex
+				ogColumn = startIndex
+				ogI = i - len(lines[lastLinesIndex])
+			}
+		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
@@ -317,7 +334,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^(true|false)`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^(true|false)\b`).FindString(source[i:]); match != "" {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 022a735eca29c761490d5fff96d5632cc68b21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 24/58] fix: blank and comment lines are allowed in switches
 and import groups, imports may end the file

---
 parser/parser.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 77c40e4..e5c3efa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -423,6 +423,14 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+// skipNewlines eats all upcoming newlines and returns the next token without eating it.
+func (p *Parser) skipNewlines() lexer.Token {
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
+	return p.peek()
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -637,17 +645,8 @@ func (p *Parser) evaluateProgram() (Program, error) {
 }
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
-	var nextToken lexer.Token
 	statementsTemp := []Statement{}
-
-	// Skip empty characters.
-	for {
-		nextToken = p.peek()
-		if !slices.Contains([]lexer.TokenType{lexer.NEWLINE}, nextToken.Type()) {
-			break
-		}
-		p.eat()
-	}
+	nextToken := p.skipNewlines()
 
 	if nextToken.Type() == lexer.IMPORT {
 		p.eat()
@@ -661,6 +660,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if nextToken.Type() != lexer.NEWLINE {
 				return nil, p.expectedNewlineError(nextToken)
 			}
+			p.skipNewlines()
 		}
 
 		for {
@@ -731,12 +731,13 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				}
 			}
 
-			nextToken = p.peek()
-			nextTokenType := nextToken.Type()
-
 			if !multiple {
 				break
-			} else if nextTokenType == lexer.CLOSING_ROUND_BRACKET {
+			}
+			nextToken = p.skipNewlines()
+			nextTokenType := nextToken.Type()
+
+			if nextTokenType == lexer.CLOSING_ROUND_BRACKET {
 				p.eat()
 				break
 			} else if slices.Contains([]lexer.TokenType{lexer.IDENTIFIER, lexer.STRING_LITERAL}, nextTokenType) {
@@ -793,9 +794,11 @@ func (p *Parser) evaluateImport() (evaluatedImport, error) {
 		return evaluatedImport{}, p.expectedError("import path", nextToken)
 	}
 	path := nextToken.Value()
-	nextToken = p.eat()
+	nextToken = p.peek()
 
-	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.EOF}, nextToken.Type()) {
+	if nextToken.Type() == lexer.NEWLINE {
+		p.eat()
+	} else if nextToken.Type() != lexer.EOF {
 		return evaluatedImport{}, p.expectedError("newline or end-of-file", nextToken)
 	}
 	return evaluatedImport{
@@ -1668,7 +1671,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		},
 	}
 	useMock := true
-	nextToken = p.peek()
+	nextToken = p.skipNewlines()
 	defaultSet := false
 
 	// While switch has not been terminated, evaluate cases.
-- 
2.43.0


From 79dc65747389bda5befbeeed8b80d90029d95c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 25/58] fix: link imported files once, detect import cycles and
 find globals of imported files within functions

---
 parser/parser.go         | 162 ++++++++++++++++++++++++---------------
 transpiler/transpiler.go |   7 ++
 2 files changed, 109 insertions(+), 60 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e5c3efa..0cda926 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -126,8 +126,12 @@ func (c context) findImport(alias string) (string, bool) {
 	return hash, exists
 }
 
-func (c context) findVariable(name string, prefix string, global bool) (Variable, bool) {
-	prefixedName, err := c.buildPrefixedName(name, prefix, global, true)
+func (c context) findVariable(name string, prefix string) (Variable, bool) {
+	// Local variables are stored without prefix.
+	if variable, exists := c.variables[name]; exists {
+		return variable, true
+	}
+	prefixedName, err := c.buildPrefixedName(name, prefix, true, true)
 
 	if err != nil {
 		return Variable{}, false
@@ -180,6 +184,13 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 	return multi, call
 }
 
+// module is a source file which is part of the program.
+type module struct {
+	prefix   string
+	body     []Statement
+	finished bool
+}
+
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
@@ -190,12 +201,66 @@ type Parser struct {
 	currFunc  string
 	internals int                 // Amount of internal variables which have been created so far.
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	modules   map[string]*module  // Stores all files (by path) which are part of the program.
 }
 
 func New() Parser {
 	return Parser{
 		usedFuncs: map[string][]string{},
+		modules:   map[string]*module{},
+	}
+}
+
+// modulePath returns a path which identifies a file, no matter how it's referenced.
+func modulePath(path string) string {
+	if realPath, err := filepath.EvalSymlinks(path); err == nil {
+		return realPath
+	}
+	return path
+}
+
+// importModule parses the file if it's not part of the program yet.
+func (p *Parser) importModule(path string) (mod *module, added bool, err error) {
+	mod, exists := p.modules[modulePath(path)]
+
+	if exists {
+		if !mod.finished {
+			return nil, false, fmt.Errorf(`import cycle: "%s" is imported by "%s"`, path, p.path)
+		}
+		return mod, false, nil
+	}
+	importParser := New()
+	importParser.usedFuncs = p.usedFuncs // The call graph includes all files.
+	importParser.modules = p.modules
+	program, err := importParser.parse(path, true)
+
+	if err != nil {
+		return nil, false, err
+	}
+	mod = p.modules[modulePath(path)]
+	mod.body = program.Body()
+	mod.finished = true
+
+	return mod, true, nil
+}
+
+// newPrefix creates a prefix from the source hash which is not used by any other file.
+func (p *Parser) newPrefix(source []byte) string {
+	hash := fmt.Sprintf("%x", sha256.Sum256(source))[0:7] // Only use the 7 first characters (inspired by Git).
+	prefix := hash
+	used := func() bool {
+		for _, mod := range p.modules {
+			if mod.prefix == prefix {
+				return true
+			}
+		}
+		return false
+	}
+
+	for i := 2; used(); i++ {
+		prefix = fmt.Sprintf("%s_%d", hash, i)
 	}
+	return prefix
 }
 
 func (p *Parser) Parse(path string) (Program, error) {
@@ -234,11 +299,9 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 
 	// If it's an imported file, use source hash as prefix.
 	if imported {
-		h := sha256.New()
-		h.Write(source)
-
-		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		p.prefix = p.newPrefix(source)
 	}
+	p.modules[modulePath(path)] = &module{prefix: p.prefix}
 	program, err := p.evaluateProgram()
 
 	if err != nil {
@@ -331,9 +394,13 @@ func isPublic(name string) bool {
 	return false
 }
 
+// PREFIX_SEPARATOR separates the prefix of an imported file from the name. It's not part of any
+// identifier to make sure that prefixed names don't collide with names of the importing file.
+const PREFIX_SEPARATOR = "."
+
 func buildPrefixedName(prefix string, funcName string) string {
 	if len(prefix) > 0 {
-		prefix = fmt.Sprintf("%s_", prefix)
+		prefix = fmt.Sprintf("%s%s", prefix, PREFIX_SEPARATOR)
 
 		// Only prefix if it doesn't already have the prefix.
 		if !strings.HasPrefix(funcName, prefix) {
@@ -440,7 +507,7 @@ func (p *Parser) isShortVarInit() bool {
 
 func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error {
 	name := token.Value()
-	_, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	_, exists := ctx.findVariable(name, p.prefix)
 
 	if exists {
 		return p.atError(fmt.Sprintf("variable %s has already been defined", name), token)
@@ -645,7 +712,7 @@ func (p *Parser) evaluateProgram() (Program, error) {
 }
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
-	statementsTemp := []Statement{}
+	statements := []Statement{}
 	nextToken := p.skipNewlines()
 
 	if nextToken.Type() == lexer.IMPORT {
@@ -701,8 +768,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
-			importedProg, err := importParser.parse(absPath, true)
+			mod, added, err := p.importModule(absPath)
 
 			if err != nil {
 				return nil, err
@@ -711,23 +777,30 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if _, exists := ctx.findImport(alias); exists {
 				return nil, fmt.Errorf(`import alias "%s" already exists`, alias)
 			}
-			err = ctx.addImport(alias, importParser.prefix)
+			err = ctx.addImport(alias, mod.prefix)
 
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
 
-			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
+			// A file is only added once, no matter how often it's imported.
+			if added {
+				statements = append(statements, mod.body...)
+			}
+
+			// Add functions and variables.
+			for _, statement := range mod.body {
+				switch statement.StatementType() {
+				case STATEMENT_TYPE_VAR_DEFINITION:
+					for _, variable := range statement.(VariableDefinition).Variables() {
+						if variable.Public() {
+							ctx.variables[variable.Name()] = variable
 						}
 					}
+				case STATEMENT_TYPE_FUNCTION_DEFINITION:
+					if function := statement.(FunctionDefinition); function.Public() {
+						ctx.functions[function.Name()] = function
+					}
 				}
 			}
 
@@ -747,37 +820,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
-
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
-
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
-
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
-
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
-
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
-		}
-
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
-	}
 	return statements, nil
 }
 
@@ -1065,7 +1107,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		prefix := p.prefix
 		global := ctx.global()
 		name := nameToken.Value()
-		variable, exists := ctx.findVariable(name, prefix, global)
+		variable, exists := ctx.findVariable(name, prefix)
 		variableValueType := variable.ValueType()
 
 		// If the variable already exists, make sure it has the same type as the specified type.
@@ -1210,7 +1252,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	name := nameToken.Value()
 
 	// Make sure variable has been defined.
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1281,7 +1323,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		name := nameToken.Value()
 
 		// Make sure variable has been defined.
-		definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+		definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 		if !exists {
 			return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1324,7 +1366,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		p.eat()
 
 		name := nameToken.Value()
-		_, exists := ctx.findVariable(name, p.prefix, false)
+		_, exists := ctx.findVariable(name, p.prefix)
 
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
@@ -1987,7 +2029,7 @@ func (p *Parser) evaluateVarEvaluation(ctx context) (Expression, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
@@ -2224,7 +2266,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 					stmt, err = p.evaluateVarAssignment(ctx)
 				default:
 					// Handle slice assignment.
-					variable, exists := ctx.findVariable(token.Value(), p.prefix, ctx.global())
+					variable, exists := ctx.findVariable(token.Value(), p.prefix)
 
 					// If variable has been defined and is a slice, handles slice assignment.
 					if exists && variable.ValueType().IsSlice() {
@@ -2722,7 +2764,7 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 		return nil, p.expectedError("slice variable", nameToken)
 	}
 	name := nameToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -2784,7 +2826,7 @@ func (p *Parser) evaluateIncrementDecrement(ctx context) (Statement, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index af9edcd..e47fdb0 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math/big"
 	"strconv"
+	"strings"
 
 	"github.com/monstermichl/typeshell/parser"
 )
@@ -60,6 +61,12 @@ func uniqueName(prefix string, name string) string {
 	if mask.Sign() > 0 {
 		maskString = mask.Text(16)
 	}
+
+	// Names of imported files are marked to not collide with names of the importing file.
+	if strings.Contains(name, parser.PREFIX_SEPARATOR) {
+		prefix = fmt.Sprintf("%sm", prefix)
+		name = strings.ReplaceAll(name, parser.PREFIX_SEPARATOR, "_")
+	}
 	return fmt.Sprintf("%s%s_%s", prefix, maskString, name)
 }
 
-- 
2.43.0


From 4dd744880d3a7eec4003e1bdfdde7fc37bd88eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 26/58] fix: unused function removal visits each function once

---
 parser/parser.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0cda926..1a54db6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -517,25 +517,24 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 
 func (p *Parser) getUsedFuncs(startFunc string) []string {
 	usedFuncs := []string{}
-	startFunc = strings.TrimSpace(startFunc)
+	visited := map[string]bool{}
+	pending := []string{startFunc}
 
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
-		}
+	// Visit each function only once.
+	for len(pending) > 0 {
+		last := len(pending) - 1
+		currFunc := pending[last]
+		pending = pending[:last]
 
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
+		if visited[currFunc] {
+			continue
+		}
+		visited[currFunc] = true
 
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
-			}
+		if len(currFunc) > 0 {
+			usedFuncs = append(usedFuncs, currFunc)
 		}
+		pending = append(pending, p.usedFuncs[currFunc]...)
 	}
 	return usedFuncs
 }
-- 
2.43.0


From c293dee7319993191cf6f5849c22cd074c9586c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 27/58] fix: check the values of all return statements

---
 parser/literals.go |  1 +
 parser/parser.go   | 64 +++++++++++++++++++++++++++++-----------------
 2 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/parser/literals.go b/parser/literals.go
index 8171ee3..f3eebdc 100644
--- a/parser/literals.go
+++ b/parser/literals.go
@@ -34,6 +34,7 @@ func (l IntegerLiteral) Value() int {
 
 type StringLiteral struct {
 	value string
+	isNil bool
 }
 
 func (l StringLiteral) StatementType() StatementType {
diff --git a/parser/parser.go b/parser/parser.go
index 1a54db6..85a3b0f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -194,14 +194,15 @@ type module struct {
 type blockCallback func(statements []Statement, last bool) error
 
 type Parser struct {
-	tokens    []lexer.Token
-	index     int
-	path      string
-	prefix    string
-	currFunc  string
-	internals int                 // Amount of internal variables which have been created so far.
-	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
-	modules   map[string]*module  // Stores all files (by path) which are part of the program.
+	tokens      []lexer.Token
+	index       int
+	path        string
+	prefix      string
+	currFunc    string
+	checkReturn func(values []Expression) error // Checks the return values of the current function.
+	internals   int                             // Amount of internal variables which have been created so far.
+	usedFuncs   map[string][]string             // Stores which function (key) calls which functions (values).
+	modules     map[string]*module              // Stores all files (by path) which are part of the program.
 }
 
 func New() Parser {
@@ -387,6 +388,11 @@ func incrementDecrementStatement(variable Variable, increment bool) Statement {
 	}
 }
 
+func isNil(expr Expression) bool {
+	literal, ok := expr.(StringLiteral)
+	return ok && literal.isNil
+}
+
 func isPublic(name string) bool {
 	if len(name) > 0 {
 		return unicode.IsUpper([]rune(name)[0]) // https://www.reddit.com/r/golang/comments/11cig0a/comment/ja371qd/?utm_source=share&utm_medium=web3x&utm_name=web3xcss&utm_term=1&utm_content=share_button
@@ -1485,6 +1491,25 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 	// Make sure sub-statements know in which function they are currently in.
 	p.currFunc = prefixedName
 
+	// Make sure return statements (at any nesting depth) know what to return.
+	p.checkReturn = func(values []Expression) error {
+		if len(returnTypes) == 0 {
+			return fmt.Errorf("function %s must not have a return statement", name)
+		} else if len(values) != len(returnTypes) {
+			return fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(values))
+		}
+
+		for i, returnValue := range values {
+			returnType := returnTypes[i]
+			returnValueType := returnValue.ValueType()
+
+			if !returnValueType.Equals(returnType) && !(isNil(returnValue) && returnType.IsSlice()) {
+				return fmt.Errorf(`function "%s" returns %s but expects %s`, name, returnValueType.String(), returnType.String())
+			}
+		}
+		return nil
+	}
+
 	statements, err := p.evaluateBlock(func(statements []Statement, last bool) error {
 		var errTemp error
 		var lastStatement Statement
@@ -1500,22 +1525,8 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 				// TODO: Add token position to errors to raise clearer error messages.
 				if lastStatement == nil || lastStatement.StatementType() != STATEMENT_TYPE_RETURN {
 					errTemp = fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
-				} else if returnStatement := lastStatement.(Return); len(returnStatement.Values()) != len(returnTypes) {
-					errTemp = fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(returnStatement.Values()))
-				} else {
-					for i, returnValue := range returnStatement.Values() {
-						returnType := returnTypes[i]
-						returnValueType := returnValue.ValueType()
-
-						if !returnValueType.Equals(returnType) {
-							errTemp = fmt.Errorf(`function "%s" returns %s but expects %s`, name, returnValueType.String(), returnType.String())
-							break
-						}
-					}
 				}
 			}
-		} else if lastStatement != nil && lastStatement.StatementType() == STATEMENT_TYPE_RETURN {
-			errTemp = fmt.Errorf("function %s must not have a return statement", name)
 		}
 		return errTemp
 	}, ctx, SCOPE_FUNCTION)
@@ -1545,6 +1556,11 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 	}
 	evaluatedVals, err := p.evaluateValues(ctx)
 
+	if err != nil {
+		return nil, err
+	}
+	err = p.checkReturn(evaluatedVals.values)
+
 	if err != nil {
 		return nil, err
 	}
@@ -2071,8 +2087,8 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 			value: integer,
 		}
 	case lexer.NIL_LITERAL:
-		p.eat()                // Eat string token.
-		expr = StringLiteral{} // nil is an empty string literal.
+		p.eat()                           // Eat string token.
+		expr = StringLiteral{isNil: true} // nil is an empty string literal.
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
 		expr = StringLiteral{
-- 
2.43.0


From 678d79db8cc6da9711ca5dfc5cca40763dcf5012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 28/58] fix: check types of logical operands, slice elements,
 written data, prompts and re-defined variables

---
 parser/parser.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 85a3b0f..22391ab 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1179,6 +1179,10 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 			variableValueType := variable.ValueType()
 
 			if variableValueType.DataType() == DATA_TYPE_UNKNOWN {
+				// If the variable is being re-defined, the type must not change.
+				if definedVariable, exists := ctx.findVariable(nameTokens[i].Value(), p.prefix); exists && !definedVariable.ValueType().Equals(valueValueType) {
+					return nil, p.expectedError(fmt.Sprintf("%s but got %s for variable %s", definedVariable.ValueType().String(), valueValueType.String(), nameTokens[i].Value()), nextToken)
+				}
 				variables[i].valueType = valueValueType // Use index here to make sure the original variable is modified, not the copy.
 			} else if !variableValueType.Equals(valueValueType) {
 				return nil, p.expectedError(fmt.Sprintf("%s but got %s for variable %s", variableValueType.String(), valueValueType.String(), variable.Name()), nextToken)
@@ -2407,11 +2411,16 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		}
 		p.eat() // Eat operator token.
 		operatorValue := operatorToken.Value()
+		valueToken := p.peek()
 		rightExpression, errTemp := higherPrioOperation(ctx)
 
 		if errTemp != nil {
 			return nil, errTemp
 		}
+
+		if !rightExpression.ValueType().IsBool() {
+			return nil, p.expectedError("boolean value", valueToken)
+		}
 		leftExpression = LogicalOperation{
 			left:     leftExpression,
 			operator: operatorValue,
@@ -2821,11 +2830,11 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 	if err != nil {
 		return nil, err
 	}
-	variableDataType := variableValueType.DataType()
-	assignedDataType := value.ValueType().DataType()
+	elementValueType := NewValueType(variableValueType.DataType(), false)
+	assignedValueType := value.ValueType()
 
-	if variableDataType != assignedDataType {
-		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", variableDataType, assignedDataType), valueToken)
+	if !elementValueType.Equals(assignedValueType) {
+		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", elementValueType.String(), assignedValueType.String()), valueToken)
 	}
 	return SliceAssignment{
 		Variable: variable,
@@ -2890,6 +2899,10 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 		if len(expressions) > 0 {
 			expr = expressions[0]
+
+			if !expr.ValueType().IsString() {
+				return nil, p.expectedError("prompt string", keywordToken)
+			}
 		}
 		return Input{
 			prompt: expr,
@@ -3017,7 +3030,7 @@ func (p *Parser) evaluateWrite(ctx context) (Expression, error) {
 		}
 		data := expressions[1]
 
-		if !path.ValueType().IsString() {
+		if !data.ValueType().IsString() {
 			return nil, p.expectedError("data string as second parameter", keywordToken)
 		}
 		var append Expression = BooleanLiteral{false}
-- 
2.43.0


From 54a0efd7e2f39b65b043046e040352bbd3a33252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 29/58] fix: calls which return no or several values are not
 accepted as a single value

---
 parser/function.go |  4 +++-
 parser/parser.go   | 49 ++++++++++++++++++++++++++++++++++------------
 parser/types.go    |  9 +++++++++
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c330183..1b9000a 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -65,7 +65,9 @@ func (e FunctionCall) Args() []Expression {
 func functionValueType(returnTypes []ValueType) ValueType {
 	var valueType ValueType
 
-	if len(returnTypes) > 1 {
+	if len(returnTypes) == 0 {
+		valueType = NewValueType(DATA_TYPE_VOID, false)
+	} else if len(returnTypes) > 1 {
 		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
 	} else {
 		valueType = returnTypes[0]
diff --git a/parser/parser.go b/parser/parser.go
index 22391ab..aebeec8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -597,7 +597,7 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 
 	for {
 		exprToken := p.peek()
-		expr, err := p.evaluateExpression(ctx)
+		expr, err := p.evaluateExpressionOrCall(ctx)
 
 		if err != nil {
 			return evaluatedValues{}, err
@@ -607,9 +607,8 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 		returnValuesLength := -1
 		funcName := ""
 
-		// If expression is a function, check if it returns a value.
-		if expr.StatementType() == STATEMENT_TYPE_FUNCTION_CALL {
-			call := expr.(FunctionCall)
+		// If expression is a call, check if it returns a value.
+		if call, ok := expr.(Call); ok {
 			returnValuesLength = len(call.ReturnTypes())
 			funcName = call.Name()
 
@@ -617,16 +616,18 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 				return evaluatedValues{}, p.expectedError(fmt.Sprintf(`return value from function "%s"`, funcName), exprToken)
 			}
 		}
+		followed := nextToken.Type() == lexer.COMMA
+
+		// If there are other values, function must only return one value.
+		if returnValuesLength > 1 && (followed || len(expressions) > 1) {
+			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
+		}
+
 		// Check if other values follow.
-		if nextToken.Type() != lexer.COMMA {
+		if !followed {
 			break
 		}
 		p.eat() // Eat comma token.
-
-		// If other values follow, function must only return one value.
-		if returnValuesLength > 1 {
-			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
-		}
 	}
 	return evaluatedValues{
 		values: expressions,
@@ -651,7 +652,8 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 	// Evaluate arguments if it's a print call with arguments.
 	if nextToken.Type() != lexer.CLOSING_ROUND_BRACKET {
 		for {
-			expr, err := p.evaluateExpression(ctx)
+			exprToken := p.peek()
+			expr, err := p.evaluateExpressionOrCall(ctx)
 
 			if err != nil {
 				return nil, err
@@ -659,6 +661,12 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 			expressions = append(expressions, expr)
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
+			valueType := expr.ValueType()
+
+			// Only print supports several values if they are returned by its only argument.
+			if valueType.IsVoid() || (valueType.IsMultiple() && (tokenType != lexer.PRINT || len(expressions) > 1 || nextTokenType == lexer.COMMA)) {
+				return nil, p.expectedError("exactly one value", exprToken)
+			}
 
 			if nextTokenType == lexer.COMMA {
 				p.eat()
@@ -2236,6 +2244,23 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
+	exprToken := p.peek()
+	expr, err := p.evaluateLogicalOr(ctx)
+
+	if err != nil {
+		return nil, err
+	}
+	valueType := expr.ValueType()
+
+	// Calls without or with several values cannot be used as a value.
+	if valueType.IsVoid() || valueType.IsMultiple() {
+		return nil, p.expectedError("exactly one value", exprToken)
+	}
+	return expr, nil
+}
+
+// evaluateExpressionOrCall also allows calls which return no or several values.
+func (p *Parser) evaluateExpressionOrCall(ctx context) (Expression, error) {
 	return p.evaluateLogicalOr(ctx)
 }
 
@@ -2295,7 +2320,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 			}
 
 			if err == nil && stmt == nil {
-				stmt, err = p.evaluateExpression(ctx)
+				stmt, err = p.evaluateExpressionOrCall(ctx)
 			}
 		}
 	}
diff --git a/parser/types.go b/parser/types.go
index a38d93a..bd99aca 100644
--- a/parser/types.go
+++ b/parser/types.go
@@ -54,6 +54,14 @@ func (vt ValueType) IsString() bool {
 	return vt.isNonSliceType(DATA_TYPE_STRING)
 }
 
+func (vt ValueType) IsVoid() bool {
+	return vt.isNonSliceType(DATA_TYPE_VOID)
+}
+
+func (vt ValueType) IsMultiple() bool {
+	return vt.isNonSliceType(DATA_TYPE_MULTIPLE)
+}
+
 func (vt ValueType) isNonSliceType(dataType DataType) bool {
 	return vt.DataType() == dataType && !vt.IsSlice()
 }
@@ -101,6 +109,7 @@ const (
 
 const (
 	DATA_TYPE_UNKNOWN  DataType = "unknown"
+	DATA_TYPE_VOID     DataType = "void"
 	DATA_TYPE_MULTIPLE DataType = "multiple"
 	DATA_TYPE_BOOLEAN  DataType = "bool"
 	DATA_TYPE_INTEGER  DataType = "int"
-- 
2.43.0


From f4c3467348c4900fe30beaa8acdd2f0778a2641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 30/58] fix: names of parameters, simultaneous definitions and
 range variables must be unique

---
 parser/parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index aebeec8..20456e4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1054,6 +1054,13 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	nameTokensLength := len(nameTokens)
 	firstNameToken := nameTokens[0]
 
+	// Make sure each variable is only defined once.
+	for i, nameToken := range nameTokens {
+		if slices.ContainsFunc(nameTokens[:i], func(token lexer.Token) bool { return token.Value() == nameToken.Value() }) {
+			return nil, p.atError(fmt.Sprintf("variable %s has already been defined", nameToken.Value()), nameToken)
+		}
+	}
+
 	// Check if all variables are already defined.
 	if nameTokensLength > 1 {
 		alreadyDefined := 0
@@ -1388,6 +1395,11 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
 		}
+
+		// Parameter names must be unique.
+		if slices.ContainsFunc(params, func(param Variable) bool { return param.Name() == name }) {
+			return params, p.atError(fmt.Sprintf("parameter %s has already been defined", name), nameToken)
+		}
 		valueType, err := p.evaluateValueType()
 
 		if err != nil {
@@ -1850,6 +1862,10 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 				return nil, err
 			}
 			valueVarName = nextToken.Value()
+
+			if valueVarName == indexVarName {
+				return nil, p.atError(fmt.Sprintf("variable %s has already been defined", valueVarName), nextToken)
+			}
 		}
 		nextToken = p.eat()
 		hasNamedVar := len(valueVarName) > 0
-- 
2.43.0


From 801ea5fde662152ae8253655f3b980c46b90c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 31/58] fix: loops accept assignments of several returned
 values in their header

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 20456e4..f592f3c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1994,7 +1994,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					if err != nil {
 						return nil, err
 					}
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment or variable definition", nextToken)
 				}
@@ -2033,7 +2033,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					return nil, err
 				}
 				switch increment.StatementType() {
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment", nextToken)
 				}
-- 
2.43.0


From ee79c0a7726b6858a22da9d300f0989fca1498b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 32/58] fix: nesting of blocks and expressions is limited
 instead of exhausting the stack

---
 parser/parser.go | 61 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f592f3c..510a26c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -200,6 +200,7 @@ type Parser struct {
 	prefix      string
 	currFunc    string
 	checkReturn func(values []Expression) error // Checks the return values of the current function.
+	depth       int                             // Current nesting depth of blocks and expressions.
 	internals   int                             // Amount of internal variables which have been created so far.
 	usedFuncs   map[string][]string             // Stores which function (key) calls which functions (values).
 	modules     map[string]*module              // Stores all files (by path) which are part of the program.
@@ -388,6 +389,25 @@ func incrementDecrementStatement(variable Variable, increment bool) Statement {
 	}
 }
 
+// The nesting depth and the amount of chained operators are limited to make sure that the stack
+// is sufficient for each program.
+const (
+	MAX_DEPTH           = 1000
+	MAX_CHAIN_OPERATORS = 10000
+)
+
+// nested runs the callout one nesting level deeper.
+func nested[T any](p *Parser, callout func() (T, error)) (T, error) {
+	p.depth++
+	defer func() { p.depth-- }()
+
+	if p.depth > MAX_DEPTH {
+		var empty T
+		return empty, p.atError("nesting is too deep", p.peek())
+	}
+	return callout()
+}
+
 func isNil(expr Expression) bool {
 	literal, ok := expr.(StringLiteral)
 	return ok && literal.isNil
@@ -987,7 +1007,9 @@ func (p *Parser) evaluateBlock(callback blockCallback, ctx context, scope scope)
 	if err != nil {
 		return nil, err
 	}
-	statements, err := p.evaluateBlockContent([]lexer.TokenType{lexer.CLOSING_CURLY_BRACKET}, callback, ctx, scope)
+	statements, err := nested(p, func() ([]Statement, error) {
+		return p.evaluateBlockContent([]lexer.TokenType{lexer.CLOSING_CURLY_BRACKET}, callback, ctx, scope)
+	})
 
 	if err != nil {
 		return nil, err
@@ -1780,7 +1802,9 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		if colonToken.Type() != lexer.COLON {
 			return nil, p.expectedError(`":"`, colonToken)
 		}
-		statements, err := p.evaluateBlockContent([]lexer.TokenType{lexer.CASE, lexer.DEFAULT, lexer.CLOSING_CURLY_BRACKET}, nil, ctx, SCOPE_SWITCH)
+		statements, err := nested(p, func() ([]Statement, error) {
+			return p.evaluateBlockContent([]lexer.TokenType{lexer.CASE, lexer.DEFAULT, lexer.CLOSING_CURLY_BRACKET}, nil, ctx, SCOPE_SWITCH)
+		})
 
 		if err != nil {
 			return nil, err
@@ -2220,7 +2244,11 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 
 	// A negated value might be negated itself (e.g. !!x).
 	if negate {
-		operandCallout = p.evaluateUnaryOperation
+		operandCallout = func(ctx context) (Expression, error) {
+			return nested(p, func() (Expression, error) {
+				return p.evaluateUnaryOperation(ctx)
+			})
+		}
 	}
 	expr, err := operandCallout(ctx)
 
@@ -2261,7 +2289,7 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 
 func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
 	exprToken := p.peek()
-	expr, err := p.evaluateLogicalOr(ctx)
+	expr, err := p.evaluateExpressionOrCall(ctx)
 
 	if err != nil {
 		return nil, err
@@ -2277,7 +2305,9 @@ func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
 
 // evaluateExpressionOrCall also allows calls which return no or several values.
 func (p *Parser) evaluateExpressionOrCall(ctx context) (Expression, error) {
-	return p.evaluateLogicalOr(ctx)
+	return nested(p, func() (Expression, error) {
+		return p.evaluateLogicalOr(ctx)
+	})
 }
 
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
@@ -2359,10 +2389,14 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 	}
 
 	// To implement associativity, use for-loop and keep appending same prio-expressions.
-	for {
+	for i := 0; ; i++ {
 		operatorToken := p.peek()
 		operator := operatorToken.Value()
 
+		if i > MAX_CHAIN_OPERATORS {
+			return nil, p.atError("too many chained operators", operatorToken)
+		}
+
 		if operatorToken.Type() != lexer.BINARY_OPERATOR || !slices.Contains(allowedOperators, operator) {
 			break
 		}
@@ -2403,10 +2437,14 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	}
 
 	// To implement associativity, use for-loop and keep appending same prio-expressions.
-	for {
+	for i := 0; ; i++ {
 		operatorToken := p.peek()
 		operator := operatorToken.Value()
 
+		if i > MAX_CHAIN_OPERATORS {
+			return nil, p.atError("too many chained operators", operatorToken)
+		}
+
 		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
 			break
 		}
@@ -2440,9 +2478,12 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		return nil, err
 	}
 
-	for {
+	for i := 0; ; i++ {
 		operatorToken := p.peek()
 
+		if i > MAX_CHAIN_OPERATORS {
+			return nil, p.atError("too many chained operators", operatorToken)
+		}
 		if operatorToken.Type() != lexer.LOGICAL_OPERATOR || operatorToken.Value() != operator {
 			break
 		}
@@ -2632,7 +2673,9 @@ func (p *Parser) evaluateAppCall(ctx context) (Call, error) {
 
 	if p.peek().Type() == lexer.PIPE {
 		p.eat() // Eat pipe token.
-		nextCall, err := p.evaluateAppCall(ctx)
+		nextCall, err := nested(p, func() (Call, error) {
+			return p.evaluateAppCall(ctx)
+		})
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e1ebf6b98899aa25aa96f0cefd33cddbcca906af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 33/58] fix: loops may define several variables in their header

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 510a26c..0c1d6b7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1862,7 +1862,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 	ctx = ctx.clone()
 
 	// If next token is an identifier and the one after it a comma or a short-init operator and range keyword, parse a for-range statement.
-	if nextTokenType == lexer.IDENTIFIER && (nextAfterNextTokenType == lexer.COMMA || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
+	if nextTokenType == lexer.IDENTIFIER && ((nextAfterNextTokenType == lexer.COMMA && p.peekAt(3).Type() == lexer.SHORT_INIT_OPERATOR && p.peekAt(4).Type() == lexer.RANGE) || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
 		p.eat()
 		err := p.checkNewVariableNameToken(nextToken, ctx)
 
-- 
2.43.0


From e714dbea3b3c81c20e8811aba17d4f6ea6c82008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 34/58] fix: std/strings returns the same results as Go's
 strings package in corner cases

---
 std/strings.tsh | 77 +++++++++++++++----------------------------------
 1 file changed, 24 insertions(+), 53 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index e9426f9..da25441 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -2,19 +2,8 @@ func Index(s string, substr string) int {
 	sul := len(substr)
 	ind := -1
 
-	for i := 0; i < len(s); i++ {
-		j := 0
-
-		for ; j < sul; j++ {
-			si := i + j
-			char := s[si]
-
-			if s[i+j] != substr[j] {
-				break
-			}
-		}
-
-		if j == sul {
+	for i := 0; i <= len(s)-sul; i++ {
+		if s[i:i+sul] == substr {
 			ind = i
 			break
 		}
@@ -53,8 +42,7 @@ func HasSuffix(s string, suffix string) bool {
 	l := len(suffix)
 
 	if len(s) >= l {
-		l *= -1
-		return s[l:] == suffix
+		return s[len(s)-l:] == suffix
 	}
 	return false
 }
@@ -84,48 +72,36 @@ func Split(s string, sep string) []string {
 	sepLen := len(sep)
 	elems := []string{}
 
-	// If s and sep are empty, slice will be empty.
-	if sLen > 0 || sepLen > 0 {
+	if sepLen == 0 {
+		// If sep is empty, split after every char.
+		for i, c := range s {
+			elems[i] = c
+		}
+	} else {
 		startI := 0
-		endI := 0
 		elIndex := 0
-		boundary := len(s)
-
-		if sLen > 0 {
-			boundary -= sepLen
-		}
 
-		for endI <= boundary {
-			if s[endI:endI+sepLen] == sep {
-				sepEmpty := sepLen == 0
-
-				// If sep is empty, split after every char.
-				if sepEmpty {
-					endI++
-				}
-
-				if !sepEmpty || endI <= boundary {
-					elems[elIndex] = s[startI:endI]
-					endI += sepLen
-					startI = endI
-				}
+		for i := 0; i <= sLen-sepLen; {
+			if s[i:i+sepLen] == sep {
+				elems[elIndex] = s[startI:i]
 				elIndex++
-			} else if endI == boundary {
-				// Add last element to slice.
-				elems[elIndex] = s[startI:]
-				break
+				i += sepLen
+				startI = i
 			} else {
-				endI++
+				i++
 			}
 		}
+
+		// Add last element to slice.
+		elems[elIndex] = s[startI:]
 	}
 	return elems
 }
 
 func Repeat(s string, count int) string {
-	new := s
+	new := ""
 
-	for i := 1; i < count; i++ {
+	for i := 0; i < count; i++ {
 		new += s
 	}
 	return new
@@ -136,9 +112,8 @@ func Replace(s string, old string, new string, n int) string {
 	rep := 0
 	i := 0
 	lenOld := len(old)
-	lenNew := len(new)
 
-	if lenOld == 0 {
+	if lenOld == 0 && n != 0 {
 		res = new
 		rep++
 	}
@@ -181,14 +156,10 @@ func CutSuffix(s string, suffix string) (string, bool) {
 }
 
 func Cut(s string, sep string) (string, string, bool) {
-	lenS := len(s)
+	i := Index(s, sep)
 
-	if lenS > 0 {
-		i := Index(s, sep)
-
-		if i >= 0 {
-			return s[0:i], s[i+len(sep):], true
-		}
+	if i >= 0 {
+		return s[0:i], s[i+len(sep):], true
 	}
 	return s, "", false
 }
-- 
2.43.0


From af7db3e99315e9d20c72da67c258511849796076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 35/58] fix: tsh writes complete output files only, reports
 write errors and never overwrites its input

---
 tsh.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..2b2dfbe 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,15 +16,16 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+// Each transpilation requires a new converter because converters collect the code.
+var convMapping = map[string]func() transpiler.Converter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
 	in         string
 	out        string
-	converters []transpiler.Converter
+	converters []func() transpiler.Converter
 }
 
 func parseOptions() options {
@@ -36,8 +37,12 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
-	for i := 1; i < (len(args) - 1); i += 2 {
+	for i := 1; i < len(args); i += 2 {
 		cSwitch := args[i]
+
+		if i+1 >= len(args) {
+			panic(fmt.Errorf("option %s requires a value", cSwitch))
+		}
 		cValue := args[i+1]
 
 		switch cSwitch {
@@ -83,7 +88,8 @@ func main() {
 	options := parseOptions()
 	t := transpiler.New()
 
-	for _, conv := range options.converters {
+	for _, newConv := range options.converters {
+		conv := newConv()
 		in := options.in
 		dump, err := t.Transpile(in, conv)
 
@@ -93,6 +99,43 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		err = writeOutput(in, filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), dump)
+
+		if err != nil {
+			panic(err)
+		}
+	}
+}
+
+// writeOutput either writes the whole file or leaves an existing one unchanged.
+func writeOutput(in string, out string, content string) error {
+	inStat, err := os.Stat(in)
+
+	if err != nil {
+		return err
+	}
+
+	// Make sure the input is not overwritten.
+	if outStat, err := os.Stat(out); err == nil && os.SameFile(inStat, outStat) {
+		return fmt.Errorf("output %s would overwrite the input file", out)
+	}
+	temp := filepath.Join(filepath.Dir(out), fmt.Sprintf(".tsh%d.tmp", os.Getpid()))
+	file, err := os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0777)
+
+	if err != nil {
+		return err
+	}
+	_, err = file.WriteString(content)
+	errClose := file.Close()
+
+	if err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(temp, out)
+	}
+	if err != nil {
+		os.Remove(temp)
 	}
+	return err
 }
-- 
2.43.0


From 6b3572c61b451e1ff58180ed916667de80759781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 36/58] fix: names of imported files do not depend on their
 layout

---
 parser/parser.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c1d6b7..4d6a3b8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -246,9 +246,16 @@ func (p *Parser) importModule(path string) (mod *module, added bool, err error)
 	return mod, true, nil
 }
 
-// newPrefix creates a prefix from the source hash which is not used by any other file.
-func (p *Parser) newPrefix(source []byte) string {
-	hash := fmt.Sprintf("%x", sha256.Sum256(source))[0:7] // Only use the 7 first characters (inspired by Git).
+// newPrefix creates a prefix from the token hash (to be independent of the layout) which is not used by any other file.
+func (p *Parser) newPrefix(tokens []lexer.Token) string {
+	h := sha256.New()
+
+	for _, token := range tokens {
+		if token.Type() != lexer.NEWLINE {
+			fmt.Fprintf(h, "%d %q\n", token.Type(), token.Value())
+		}
+	}
+	hash := fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
 	prefix := hash
 	used := func() bool {
 		for _, mod := range p.modules {
@@ -299,9 +306,9 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	p.path = path
 	p.prefix = ""
 
-	// If it's an imported file, use source hash as prefix.
+	// If it's an imported file, use token hash as prefix.
 	if imported {
-		p.prefix = p.newPrefix(source)
+		p.prefix = p.newPrefix(tokens)
 	}
 	p.modules[modulePath(path)] = &module{prefix: p.prefix}
 	program, err := p.evaluateProgram()
-- 
2.43.0


From f6d4338bfd39b253d936a22a314b59bbb7bdba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 37/58] fix: column after a block comment within a line

---
 lexer/lexer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index b859a63..b5ebd9c 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -324,12 +324,15 @@ func Tokenize(source string) ([]Token, error) {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
-			lines := strings.Split(match, "\n")
-			lastLinesIndex := len(lines) - 1
-			row += lastLinesIndex
-			ogColumn = startIndex
 			i += len(match)
-			ogI = i - len(lines[lastLinesIndex])
+
+			// Comments may span several lines.
+			if lines := strings.Split(match, "\n"); len(lines) > 1 {
+				lastLinesIndex := len(lines) - 1
+				row += lastLinesIndex
+				ogColumn = startIndex
+				ogI = i - len(lines[lastLinesIndex])
+			}
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-- 
2.43.0


From 6da0718b5de062b96cb4f8f239bdede09745ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 38/58] fix: captured program output only loses its trailing
 newline in Bash

---
 converters/bash/converter.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index d0ba2f6..637fb9f 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -518,17 +518,21 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callString := strings.Join(callStrings, " | ")
 
 	if valueUsed {
-		callString = fmt.Sprintf("$(%s)", callString)
 		helper1 := c.nextHelperVar()
 		helper2 := c.nextHelperVar()
+		name1 := c.varName(helper1, false)
 
-		c.VarDefinition(helper1, callString, false)
+		// Command substitutions remove all newlines at the end. To only remove the last one, an
+		// additional character is added temporarily.
+		c.VarDefinition(helper1, fmt.Sprintf(`$(%s; _s=$?; echo "_"; exit ${_s})`, callString), false)
+		c.VarDefinition(helper2, "$?", false)
+		c.VarAssignment(helper1, fmt.Sprintf(`${%s%%_}`, name1), false)
+		c.VarAssignment(helper1, fmt.Sprintf(`${%s%%$'\n'}`, name1), false)
 		eval, err := c.VarEvaluation(helper1, valueUsed, false)
 
 		if err != nil {
 			return nil, err
 		}
-		c.VarDefinition(helper2, "$?", false)
 		return []string{eval, "", c.varEvaluationString(helper2, false)}, nil // TODO: Return stderr (https://github.com/monstermichl/TypeShell/issues/28).
 	}
 	c.addLine(callString)
-- 
2.43.0


From 2df9ea8cd5680a957c89e587f0900fbeca989769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:35 +0000
Subject: [PATCH 39/58] fix: program calls never call a function of the script
 in Bash

---
 converters/bash/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 637fb9f..8cf8116 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -508,7 +508,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callStrings := []string{}
 
 	for _, call := range calls {
-		words := []string{fmt.Sprintf(`"%s"`, c.StringToString(call.Name()))}
+		// Use command to make sure that a program is called, even if a function has the same name.
+		words := []string{"command --", fmt.Sprintf(`"%s"`, c.StringToString(call.Name()))}
 
 		for _, arg := range call.Args() {
 			words = append(words, fmt.Sprintf(`"%s"`, arg))
-- 
2.43.0


From ed69ebd6fd24a25f40ec0707898c09de86652809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 40/58] fix: Batch prints blank values and values which look
 like switches of echo

---
 converters/batch/converter.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 0c16641..74c95b2 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -239,9 +239,8 @@ func (c *converter) ProgramEnd() error {
 	}
 
 	if c.echoHelperRequired {
-		v := c.varEvaluationString(funcArgVar(0), true)
 		c.addHelper("echo", echoHelper,
-			fmt.Sprintf(`if "%s" neq "" (echo %s) else echo.`, v, v), // echo. could be problematic (see discussion: https://stackoverflow.com/a/20691061).
+			fmt.Sprintf("echo(!%s!", funcArgVar(0)), // echo( also prints empty values and the words on and off (see discussion: https://stackoverflow.com/a/20691061).
 		)
 	}
 	c.addEndLine(":end")
-- 
2.43.0


From b5ea0a93b1a7e5f7f2ac4da997a46c26a6a2b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 41/58] fix: Batch slice helpers compare lengths and indices
 numerically, assignments never shrink a slice

---
 converters/batch/converter.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 74c95b2..0496ed0 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -172,14 +172,16 @@ func (c *converter) ProgramEnd() error {
 		c.addHelper("slice copy", sliceCopyHelper,
 			`set "_i=0"`,
 			c.callFuncString(sliceLenGetHelper, []string{}, "%2"),
+			`set "_n=!_len!"`,
+			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"),
 			":_sch_loop",
-			`if "!_i!" lss "!_len!" (`,
+			"if !_i! lss !_n! (",
 			`for /f "delims=" %%i in ("%2_!_i!") do set "_v=!%%i!"`,
 			c.sliceAssignmentString("!%1!", "!_i!", "!_v!", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sch_loop",
 			")",
-			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!"),
+			fmt.Sprintf("if !_len! lss !_n! %s", c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_n!")),
 		)
 	}
 
@@ -196,11 +198,12 @@ func (c *converter) ProgramEnd() error {
 			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"), // Get current slice length.
 			`set "_i=!_len!"`,
 			":_sah_loop",
-			`if "!_i!" lss "%2" (`,
+			"if !_i! lss %2 (",
 			c.sliceAssignmentString("!%1!", "!_i!", "%3", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sah_loop",
-			") else (",
+			")",
+			"if !_len! leq %2 (",
 			`set /A "_len=%2+1"`,
 			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_len!"),
 			")",
-- 
2.43.0


From 88090817cbc258b8c1afce4d97efa14a10f5aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 42/58] fix: the result of copy is the number of copied values
 in Batch

---
 converters/batch/converter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 0496ed0..6e304d4 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -742,8 +742,10 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
 
-	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	return c.varEvaluationString("_len", true), nil
+	helper := c.nextHelperVar()
+	c.VarAssignment(helper, c.varEvaluationString("_n", true), false)
+
+	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
-- 
2.43.0


From 87dbde43ade74edfea56daab63437f02ff6158d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 43/58] fix: Batch scripts contain slice helpers only if they
 are used

---
 converters/batch/converter.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 6e304d4..f7bad19 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -165,7 +165,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceCopyHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Destination slice
 		// %2: Source slice
@@ -188,7 +187,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceAssignmentHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Slice name
 		// %2: Assigned index
@@ -599,7 +597,7 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, "_dv!_dvc!", false)
 
-	c.sliceAssignmentHelperRequired = true
+	c.sliceLenSetHelperRequired = true
 	c.callFunc(sliceLenSetHelper, []string{}, c.varEvaluationString(helper, false), strconv.Itoa(len(values)))
 
 	// Init slice values.
-- 
2.43.0


From c750be282b35aee3296785e1f7ce65b50224553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 44/58] fix: Batch subscripts of empty strings are empty

---
 converters/batch/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index f7bad19..2647a34 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -224,7 +224,8 @@ func (c *converter) ProgramEnd() error {
 	if c.stringSubscriptHelperRequired {
 		c.addHelper("string subscript", stringSubscriptHelper,
 			`set /A "_sh=(%2-%1)+1"`,
-			fmt.Sprintf(`set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0)), // https://stackoverflow.com/a/636391
+			`set "_sub="`,
+			fmt.Sprintf(`if defined %s set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0), funcArgVar(0)), // https://stackoverflow.com/a/636391
 		)
 	}
 
-- 
2.43.0


From 6380d8e43e8151d687569eb41ef648a110815a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 45/58] fix: a panic within a Batch function ends the script

---
 converters/batch/converter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2647a34..7037955 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -671,6 +671,7 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
 	returnValues := []string{}
 	c.callFunc(name, args)
+	c.addLine(`if "!_e!" neq "0" goto :end`) // Leave the caller as well if the function panicked.
 
 	if valueUsed {
 		for i := range returnTypes {
-- 
2.43.0


From d179bab14cb8bd0fba824d5cb20e1f793b6dc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 46/58] fix: Batch input uses the variable which it reads and
 does not keep old values

---
 converters/batch/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 7037955..3de44b7 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -734,7 +734,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 
 func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, helper, prompt))
+	c.VarAssignment(helper, "", false) // An empty input leaves the variable unchanged.
+	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, c.varName(helper, false), prompt))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From 51eafb10b0753334a3d9c9d9d968ca7f67ad6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 47/58] fix: Batch calculates with the smallest integer

---
 converters/batch/converter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 3de44b7..60f18a0 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -80,6 +80,15 @@ func funcArgVar(subscript int) string {
 	return fmt.Sprintf("_fa%d", subscript)
 }
 
+// arithmeticOperand returns the operand as it has to be used with set /A which doesn't
+// support the smallest integer as a number, but as a value of a variable.
+func arithmeticOperand(value string) string {
+	if value == "-2147483648" {
+		return "(-2147483647-1)"
+	}
+	return strings.Trim(value, "!")
+}
+
 func forLabel(count int) string {
 	return fmt.Sprintf(":_f%d", count)
 }
@@ -476,7 +485,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 		default:
 			return notAllowedError()
 		}
-		c.addLine(fmt.Sprintf(`set /A "%s=%s%s%s"`, c.varName(helper, false), left, operator, right))
+		c.addLine(fmt.Sprintf(`set /A "%s=%s%s%s"`, c.varName(helper, false), arithmeticOperand(left), operator, arithmeticOperand(right)))
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-- 
2.43.0


From ac7946f4df8dcace8def79ac8505aff8f2c601da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 48/58] fix: quotes and percent signs of string literals do not
 break Batch scripts

---
 converters/batch/converter.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 60f18a0..ea79bec 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -26,6 +26,8 @@ const (
 	echoHelper            helperName = "_ech"  // Echo
 )
 
+const quoteValue = "!_dq!" // Value of the variable which contains a quote.
+
 type funcInfo struct {
 	name string
 }
@@ -56,6 +58,7 @@ type converter struct {
 	fors                          []forInfo
 	ifs                           []ifInfo
 	lfSet                         bool
+	quoteSet                      bool
 	appCallHelperRequired         bool
 	readHelperRequired            bool
 	sliceAssignmentHelperRequired bool
@@ -99,6 +102,15 @@ func (c *converter) StringToString(value string) string {
 	// Escape all "!".
 	value = strings.ReplaceAll(value, "!", "^!")
 
+	// Escape all "%".
+	value = strings.ReplaceAll(value, "%", "%%")
+
+	// Replace quotes as they would end the surrounding quotes.
+	if strings.Contains(value, `"`) {
+		c.addQuote()
+		value = strings.ReplaceAll(value, `"`, quoteValue)
+	}
+
 	// Replace "\n" with Batch newline value.
 	value = strings.ReplaceAll(value, "\n", "!LF!")
 
@@ -926,6 +938,13 @@ func (c *converter) sliceAssignmentString(name string, index string, value strin
 	return fmt.Sprintf(`set "%s_%s=%s"`, name, index, value)
 }
 
+func (c *converter) addQuote() {
+	if !c.quoteSet {
+		c.addStartLine(`set "_dq=""`)
+		c.quoteSet = true
+	}
+}
+
 func (c *converter) addLf() {
 	if !c.lfSet {
 		c.addStartLine("(set LF=^") // https://stackoverflow.com/a/60389149
-- 
2.43.0


From e8d7873702884d1da0fe150d499946c2875b1e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 49/58] fix: paths of read and write are quoted in Batch

---
 converters/batch/converter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index ea79bec..2f5ca1f 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -153,7 +153,7 @@ func (c *converter) ProgramEnd() error {
 			`set "_a=>"`,
 			fmt.Sprintf(`if "%%2" equ "%s" set "_a=>>"`, transpiler.BoolToString(true)),
 			fmt.Sprintf(`for /f "delims=" %%%%i in ("!%s!") do (`, funcArgVar(0)),
-			`for /f "delims=" %%j in ('echo %%i!_a! %~1') do (`,
+			`for /f "delims=" %%j in ('echo %%i!_a! "%~1"') do (`,
 			"rem", // NOP (https://stackoverflow.com/a/7191952). The for-loop is just required to expand !_a! delayed.
 			`)`,
 			`set "_a=>>"`,
@@ -176,7 +176,7 @@ func (c *converter) ProgramEnd() error {
 	if c.readHelperRequired {
 		c.addHelper("read", fileReadHelper,
 			`set "_h="`,
-			`for /f "delims=" %%i in (%~1) do (`,
+			`for /f "usebackq delims=" %%i in ("%~1") do (`,
 			`if defined _h set "_h=!_h!!LF!"`,
 			`set "_h=!_h!%%i"`,
 			")",
@@ -445,7 +445,7 @@ func (c *converter) WriteFile(path string, content string, append string) error
 
 	// Use global variable to pass content to write file helper because Batch doesn't
 	// support newline passing because it splits arguments at newlines.
-	c.callFunc(fileWriteHelper, []string{content}, path, append)
+	c.callFunc(fileWriteHelper, []string{content}, fmt.Sprintf(`"%s"`, path), append)
 
 	return nil
 }
@@ -786,7 +786,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	c.readHelperRequired = true
 
 	c.addLf()
-	c.callFunc(fileReadHelper, []string{}, path)
+	c.callFunc(fileReadHelper, []string{}, fmt.Sprintf(`"%s"`, path))
 	c.VarAssignment(helper, c.varEvaluationString("_h", true), false)
 
 	return c.VarEvaluation(helper, valueUsed, false)
-- 
2.43.0


From ca2d7ec68bce53587e1ad12fea796fc8bb63fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 50/58] fix: names and arguments of program calls do not break
 Batch scripts

---
 converters/batch/converter.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2f5ca1f..4bac298 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -711,25 +711,26 @@ func (c *converter) FuncCall(name string, args []string, returnTypes []parser.Va
 }
 
 func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]string, error) {
-	callsCopy := calls
 	callStrings := []string{}
+	quote := `"`
 
-	for _, call := range callsCopy {
-		argsCopy := call.Args()
+	if valueUsed {
+		// The call is assigned to a variable where quotes would end the surrounding quotes.
+		c.addQuote()
+		quote = quoteValue
+	}
 
-		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "%") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf(`"%s"`, arg)
-			}
-			argsCopy[j] = arg
-		}
-		space := ""
+	for _, call := range calls {
+		words := []string{}
 
-		if len(argsCopy) > 0 {
-			space = " "
+		for _, word := range append([]string{c.StringToString(call.Name())}, call.Args()...) {
+			// If word is empty or contains characters which separate words or commands, quote it.
+			if len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>()^:") {
+				word = fmt.Sprintf("%s%s%s", quote, word, quote)
+			}
+			words = append(words, word)
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, strings.Join(words, " "))
 	}
 
 	if valueUsed {
-- 
2.43.0


From 4cd3d9427ad87b38a236e7fef9a12e355126ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 51/58] fix: blocks of expressions which result in no code are
 not empty

---
 transpiler/transpiler.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index e47fdb0..c16bfee 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -637,9 +637,22 @@ func (t *transpiler) evaluateGroup(group parser.Group, valueUsed bool) (expressi
 func (t *transpiler) evaluateBlock(block parser.Block) error {
 	body := block.Body()
 	length := len(body)
+	onlyExpressions := true
 
-	if length == 0 {
-		return t.converter.Nop()
+	for _, statement := range body {
+		if _, ok := statement.(parser.Expression); !ok {
+			onlyExpressions = false
+			break
+		}
+	}
+
+	// Expressions might not result in any code (e.g. literals) but blocks must not be empty.
+	if onlyExpressions {
+		err := t.converter.Nop()
+
+		if err != nil {
+			return err
+		}
 	}
 	for index, statement := range body {
 		err := t.evaluate(statement)
-- 
2.43.0


From 464e64fa1bd3dede8d794c3cedfe37df7ba0378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 52/58] fix: program names which are Batch keywords do not
 break the script

---
 converters/batch/converter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 4bac298..73e8725 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -723,9 +723,11 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	for _, call := range calls {
 		words := []string{}
 
-		for _, word := range append([]string{c.StringToString(call.Name())}, call.Args()...) {
-			// If word is empty or contains characters which separate words or commands, quote it.
-			if len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>()^:") {
+		for i, word := range append([]string{c.StringToString(call.Name())}, call.Args()...) {
+			keyword := i == 0 && slices.Contains([]string{"if", "for", "rem"}, strings.ToLower(word))
+
+			// If word is a keyword, is empty or contains characters which separate words or commands, quote it.
+			if keyword || len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>()^:") {
 				word = fmt.Sprintf("%s%s%s", quote, word, quote)
 			}
 			words = append(words, word)
-- 
2.43.0


From 4e0dbbe18ab99473f3243a946170dffa90cf960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 53/58] fix: slice literals are allowed within the header of a
 three-part for statement

---
 parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 4d6a3b8..e4b5c48 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -498,11 +498,21 @@ func (p Parser) findAllowed(searchTokenType lexer.TokenType, allowed ...lexer.To
 
 func (p Parser) findBefore(searchTokenType lexer.TokenType, before ...lexer.TokenType) (lexer.Token, error) {
 	tokens := p.tokens
+	sliceDepth := 0
 
 	for i := p.index; i < len(tokens); i++ {
 		token := tokens[i]
 		tokenType := token.Type()
 
+		// The curly brackets of a slice literal belong to an expression. Therefore skip them.
+		if tokenType == lexer.OPENING_CURLY_BRACKET && i-p.index >= 3 && tokens[i-1].Type() == lexer.DATA_TYPE && tokens[i-2].Type() == lexer.CLOSING_SQUARE_BRACKET && tokens[i-3].Type() == lexer.OPENING_SQUARE_BRACKET {
+			sliceDepth++
+			continue
+		} else if tokenType == lexer.CLOSING_CURLY_BRACKET && sliceDepth > 0 {
+			sliceDepth--
+			continue
+		}
+
 		if tokenType == searchTokenType {
 			return token, nil
 		}
-- 
2.43.0


From 60020d141bcedd23af5f695be84ef98b80cf9ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 54/58] fix: carets of string literals got lost within Batch
 lines which evaluate variables

---
 converters/batch/converter.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 73e8725..9a71d89 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -27,6 +27,7 @@ const (
 )
 
 const quoteValue = "!_dq!" // Value of the variable which contains a quote.
+const caretValue = "!_ca!" // Value of the variable which contains a caret.
 
 type funcInfo struct {
 	name string
@@ -59,6 +60,7 @@ type converter struct {
 	ifs                           []ifInfo
 	lfSet                         bool
 	quoteSet                      bool
+	caretSet                      bool
 	appCallHelperRequired         bool
 	readHelperRequired            bool
 	sliceAssignmentHelperRequired bool
@@ -99,8 +101,12 @@ func forLabel(count int) string {
 func (c *converter) StringToString(value string) string {
 	c.addLf()
 
-	// Escape all "!".
-	value = strings.ReplaceAll(value, "!", "^!")
+	if strings.Contains(value, "^") {
+		c.addCaret()
+	}
+
+	// Escape all "!" and replace carets as they would get lost if a variable is evaluated in the same line.
+	value = strings.NewReplacer("!", "^!", "^", caretValue).Replace(value)
 
 	// Escape all "%".
 	value = strings.ReplaceAll(value, "%", "%%")
@@ -727,7 +733,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 			keyword := i == 0 && slices.Contains([]string{"if", "for", "rem"}, strings.ToLower(word))
 
 			// If word is a keyword, is empty or contains characters which separate words or commands, quote it.
-			if keyword || len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>()^:") {
+			if keyword || len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>():") || strings.Contains(word, caretValue) {
 				word = fmt.Sprintf("%s%s%s", quote, word, quote)
 			}
 			words = append(words, word)
@@ -948,6 +954,13 @@ func (c *converter) addQuote() {
 	}
 }
 
+func (c *converter) addCaret() {
+	if !c.caretSet {
+		c.addStartLine(`set "_ca=^"`)
+		c.caretSet = true
+	}
+}
+
 func (c *converter) addLf() {
 	if !c.lfSet {
 		c.addStartLine("(set LF=^") // https://stackoverflow.com/a/60389149
-- 
2.43.0


From 88971a2fba88f54a070bb2140ea49deadff1ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 55/58] fix: evaluated arguments of program calls were split
 and lost within Batch scripts

---
 converters/batch/converter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 9a71d89..1f30794 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -732,8 +732,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		for i, word := range append([]string{c.StringToString(call.Name())}, call.Args()...) {
 			keyword := i == 0 && slices.Contains([]string{"if", "for", "rem"}, strings.ToLower(word))
 
-			// If word is a keyword, is empty or contains characters which separate words or commands, quote it.
-			if keyword || len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>():") || strings.Contains(word, caretValue) {
+			// If word is a keyword, is evaluated, is empty or contains characters which separate words or commands, quote it.
+			if keyword || len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>():!") || strings.Contains(word, caretValue) {
 				word = fmt.Sprintf("%s%s%s", quote, word, quote)
 			}
 			words = append(words, word)
-- 
2.43.0


From 2f3d64228df1f99c21596d3e421bd805040462be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 56/58] fix: the captured output of programs which end without
 a newline was taken for their exit status within Batch scripts

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 1f30794..206dbec 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -171,7 +171,7 @@ func (c *converter) ProgramEnd() error {
 		c.addHelper("app call", appCallHelper,
 			`set "_h="`,
 			`set "_te="`, // Temporary error variable.
-			fmt.Sprintf(`for /f "delims=" %%%%i in ('cmd /V:ON /C "!%s! & echo ^!errorlevel^!"') do (`, funcArgVar(0)), // Use the carets in ^!errorlevel^! to make sure errorlevel is expanded within cmd.
+			fmt.Sprintf(`for /f "delims=" %%%%i in ('cmd /V:ON /C "!%s!&echo(&echo ^!errorlevel^!"') do (`, funcArgVar(0)), // echo( ends a last line without newline, empty lines are ignored. Use the carets in ^!errorlevel^! to make sure errorlevel is expanded within cmd.
 			`if defined _h set "_h=!_h!!LF!"`,
 			`set "_h=!_h!!_te!"`,
 			`set _te=%%i`,
-- 
2.43.0


From 26a9d2f3e66df971c182a847d1a2ce9d923e6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 57/58] fix: lines of captured output which start with a
 semicolon got lost within Batch scripts

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 206dbec..17b8808 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -171,7 +171,7 @@ func (c *converter) ProgramEnd() error {
 		c.addHelper("app call", appCallHelper,
 			`set "_h="`,
 			`set "_te="`, // Temporary error variable.
-			fmt.Sprintf(`for /f "delims=" %%%%i in ('cmd /V:ON /C "!%s!&echo(&echo ^!errorlevel^!"') do (`, funcArgVar(0)), // echo( ends a last line without newline, empty lines are ignored. Use the carets in ^!errorlevel^! to make sure errorlevel is expanded within cmd.
+			fmt.Sprintf(`for /f delims^=^ eol^= %%%%i in ('cmd /V:ON /C "!%s!&echo(&echo ^!errorlevel^!"') do (`, funcArgVar(0)), // No eol character as lines may start with it, echo( ends a last line without newline, empty lines are ignored. Use the carets in ^!errorlevel^! to make sure errorlevel is expanded within cmd.
 			`if defined _h set "_h=!_h!!LF!"`,
 			`set "_h=!_h!!_te!"`,
 			`set _te=%%i`,
-- 
2.43.0


From fde8be8beb7b2843eec3b076f9ad6a8398c61cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:32 +0000
Subject: [PATCH 58/58] fix: the @ of program names got lost within Batch
 scripts

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 17b8808..0c99c0a 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -730,7 +730,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 		words := []string{}
 
 		for i, word := range append([]string{c.StringToString(call.Name())}, call.Args()...) {
-			keyword := i == 0 && slices.Contains([]string{"if", "for", "rem"}, strings.ToLower(word))
+			keyword := i == 0 && (slices.Contains([]string{"if", "for", "rem"}, strings.ToLower(word)) || strings.HasPrefix(word, "@"))
 
 			// If word is a keyword, is evaluated, is empty or contains characters which separate words or commands, quote it.
 			if keyword || len(word) == 0 || strings.ContainsAny(word, " \t,;=&|<>():!") || strings.Contains(word, caretValue) {
-- 
2.43.0

