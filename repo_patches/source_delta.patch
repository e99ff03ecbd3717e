From 2a1436b5b63e08b22cfcd89befe3e4844ffa0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 01/16] fix: clone the type of a function-level declaration

FuncDecl.Clone copied the Type pointer, so the clone shared (and could
modify) the original's type node.
---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 3f2bce4..c80d461 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -195,7 +195,7 @@ func (n *FuncDecl) Clone() *FuncDecl {
 		ASTNode:  n.ASTNode.Clone(),
 		DeclType: n.DeclType,
 		Label:    n.Label,
-		Type:     n.Type,
+		Type:     n.Type.Clone(),
 		Value:    n.Value.Clone(),
 	}
 }
-- 
2.43.0


From 772f6a9ddc6f0738063614f19632996f601c6021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 02/16] fix: clone heredocs deeply

Value.Clone replaced the deep clone of its heredoc by a shallow struct
copy, so both values shared the heredoc's fragments (and the copy kept the
original's parent link).
---
 pkg/etx/value.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 0e39ef0..ef0254d 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -45,11 +45,6 @@ func (v *Value) Clone() *Value {
 		Map:     v.Map.Clone(),
 	}
 
-	if v.Heredoc != nil {
-		s := *v.Heredoc
-		out.Heredoc = &s
-	}
-
 	return &out
 }
 
-- 
2.43.0


From 9d9c248919b0fe9f3c25f7fce2453065e36bf790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 03/16] fix: list the post-expression among a postfix
 expression's children

ExprPostfix.Children omitted Post, so in a[1].b or (a).b everything after
the dot had no parent links.
---
 pkg/etx/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index ed89063..f852e86 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -774,6 +774,10 @@ func (e *ExprPostfix) Children() (children []Node) {
 		children = append(children, e.Index)
 	}
 
+	if e.Post != nil {
+		children = append(children, e.Post)
+	}
+
 	return
 }
 
-- 
2.43.0


From 6f510c05de8ba1064fbdc8b464888d31e2e874ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 04/16] fix: format comments and blank lines inside enum and
 object types

Comment and blank-line items were formatted as if they were labelled
entries, which panicked on the unset value.
---
 pkg/etx/type.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/etx/type.go b/pkg/etx/type.go
index 0ee5399..57dbd61 100644
--- a/pkg/etx/type.go
+++ b/pkg/etx/type.go
@@ -97,8 +97,15 @@ func (n TypeEnum) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
-		fillLength := maxLabelLength - len(item.Label)
-		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.Comment.FormattedString(), "\n"))
+		case item.EmptyLine != "":
+			sb.WriteString(item.EmptyLine)
+		default:
+			fillLength := maxLabelLength - len(item.Label)
+			mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
+		}
 	}
 
 	return sb.String()
@@ -190,8 +197,15 @@ func (n TypeObject) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
-		fillLength := maxLabelLength - len(item.Label)
-		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.Comment.FormattedString(), "\n"))
+		case item.EmptyLine != "":
+			sb.WriteString(item.EmptyLine)
+		default:
+			fillLength := maxLabelLength - len(item.Label)
+			mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
+		}
 	}
 
 	return sb.String()
-- 
2.43.0


From bc2c8454bfde16568e4e0182c9fc3233578b64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 05/16] fix: format comments and blank lines inside maps

Formatting a map dereferenced the key of every item, which panicked on
items that hold a comment or a blank line.
---
 pkg/etx/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index ef0254d..a961d39 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -552,6 +552,12 @@ func (v ValueMap) FormattedString() string {
 	sb.WriteString("{\n")
 
 	for _, e := range v.Items {
+		if e.Key == nil {
+			sb.WriteString(indent(e.FormattedString(), indentationChar))
+
+			continue
+		}
+
 		sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
 		sb.WriteString(",\n")
 	}
-- 
2.43.0


From 54511697769c7f3204b4c4cfe0f284cd1fbe786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 06/16] fix: keep the else branch of an if expression with an
 empty then branch

Formatting 'if a { } else { b }' silently dropped the else branch.
---
 pkg/etx/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index f852e86..51c49be 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -92,6 +92,8 @@ func (e *ExprIf) Children() (children []Node) {
 
 func (e ExprIf) FormattedString() string {
 	switch {
+	case e.Left == nil && e.Right != nil:
+		return fmt.Sprintf("if %s { } else {\n%s\n}", e.Condition.FormattedString(), indent(e.Right.FormattedString(), indentationChar))
 	case e.Left == nil:
 		return fmt.Sprintf("if %s { }", e.Condition.FormattedString())
 	case e.Right == nil:
-- 
2.43.0


From c5c00fa91b57add38eaa51d8465b70e51af5a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 07/16] fix: separate the items of a block when formatting it

The items of a block body were written back to back, so adjacent items
fused (two attributes a and b became 'ab') and blank lines vanished.
---
 pkg/etx/block.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/block.go b/pkg/etx/block.go
index da9c8ca..0ffa000 100644
--- a/pkg/etx/block.go
+++ b/pkg/etx/block.go
@@ -48,10 +48,17 @@ func (n Block) FormattedString() string {
 	}
 
 	if len(n.Body) != 0 {
-		sb.WriteString(" {\n")
+		sb.WriteString(" {")
 
 		for _, item := range n.Body {
-			sb.WriteString(indent(item.FormattedString(), indentationChar))
+			if item.EmptyLine != "" {
+				sb.WriteString(item.EmptyLine)
+
+				continue
+			}
+
+			sb.WriteString("\n")
+			sb.WriteString(indent(strings.TrimSuffix(item.FormattedString(), "\n"), indentationChar))
 		}
 
 		sb.WriteString("\n}")
@@ -117,6 +124,7 @@ func (n BlockItem) FormattedString() string {
 	case n.Attribute != nil:
 		sb.WriteString(n.Attribute.FormattedString())
 	default:
+		sb.WriteString(n.EmptyLine)
 	}
 
 	return sb.String()
-- 
2.43.0


From a4b215ee02a42668c215dc4fa1f462ea6452afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 08/16] fix: do not double the backslash of escape sequences
 when formatting

The tokeniser keeps the backslash in an escape fragment, and the formatter
added another one, which turned \n into an escaped backslash and an n.
---
 pkg/etx/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index a961d39..acef8d9 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -412,7 +412,7 @@ func (f *StringFragment) Children() (children []Node) {
 func (f StringFragment) FormattedString() string {
 	switch {
 	case f.Escaped != "":
-		return fmt.Sprintf("\\%s", f.Escaped)
+		return fmt.Sprintf("\\%s", strings.TrimPrefix(f.Escaped, "\\"))
 	case f.Unicode != "":
 		return fmt.Sprintf("\\u%s", f.Unicode)
 	case f.Expr != nil:
-- 
2.43.0


From aee0c1600956817a36a67288aa45b368e3075e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 09/16] fix: keep single quotes around strings that contain
 double quotes

Formatting always used double quotes, so 'a"b' was written as "a"b",
which no longer is one string.
---
 pkg/etx/value.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index acef8d9..2abb647 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -361,13 +361,24 @@ func (v *ValueString) Children() (children []Node) {
 func (v ValueString) FormattedString() string {
 	var sb strings.Builder
 
-	sb.WriteString(`"`)
+	// Text can only contain double quotes if the string was single-quoted.
+	quote := `"`
+
+	for _, f := range v.Fragment {
+		if strings.Contains(f.Text, quote) {
+			quote = `'`
+
+			break
+		}
+	}
+
+	sb.WriteString(quote)
 
 	for _, f := range v.Fragment {
 		sb.WriteString(f.FormattedString())
 	}
 
-	sb.WriteString(`"`)
+	sb.WriteString(quote)
 
 	return sb.String()
 }
-- 
2.43.0


From d727e394866224c832a24b62367d605f6dc50517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 10/16] fix: keep grouping parentheses when formatting
 expressions

A parenthesised sub-expression was written without its parentheses, so
(1 + 2) * 3 became 1 + 2 * 3. A lone literal still is written bare.
---
 pkg/etx/expr.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 51c49be..aeb9ea1 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -53,6 +53,35 @@ func (e Expr) FormattedString() string {
 	}
 }
 
+// literal returns the literal value that makes up the whole expression,
+// or nil if the expression is anything else.
+func (e *Expr) literal() *Value {
+	if e.Left == nil || e.Left.ConditionOp {
+		return nil
+	}
+
+	or := &e.Left.Condition
+	and := &or.Left
+	bitOr := &and.Left
+	bitXor := &bitOr.Left
+	bitAnd := &bitXor.Left
+	equality := &bitAnd.Left
+	relational := &equality.Left
+	shift := &relational.Left
+	additive := &shift.Left
+	multiplicative := &additive.Left
+	unary := &multiplicative.Left
+	postfix := &unary.Right
+
+	if or.Op != "" || and.Op != "" || bitOr.Op != "" || bitXor.Op != "" || bitAnd.Op != "" ||
+		equality.Op != "" || relational.Op != "" || shift.Op != "" || additive.Op != "" ||
+		multiplicative.Op != "" || unary.Op != "" || postfix.Index != nil || postfix.Post != nil {
+		return nil
+	}
+
+	return postfix.Value.Value
+}
+
 // /////////////////////////////////////
 
 type ExprIf struct {
@@ -851,7 +880,12 @@ func (e *ExprPrimary) Children() (children []Node) {
 
 func (e ExprPrimary) FormattedString() string {
 	if e.SubExpression != nil {
-		return e.SubExpression.FormattedString()
+		// Only a lone literal is certain not to need its parentheses.
+		if v := e.SubExpression.literal(); v != nil {
+			return v.FormattedString()
+		}
+
+		return fmt.Sprintf("(%s)", e.SubExpression.FormattedString())
 	}
 
 	if e.Value != nil {
-- 
2.43.0


From 68dbd26acfe0360b4727b22e8d450bd9df5e27ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 11/16] fix: parenthesise a lone function type returned by a
 function

'def f() ((a) -> b) {}' was formatted as 'def f() (a) -> b {}', which the
grammar reads as a list of return types followed by an unexpected arrow.
---
 pkg/etx/func.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index c80d461..c08eeea 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -55,6 +55,9 @@ func (n Func) FormattedString() string {
 	mustFprintf(&sb, "def %s(%s)", n.Label, strings.Join(params, ", "))
 
 	switch l := len(n.Return); {
+	case l == 1 && n.Return[0].Func != nil:
+		// Without parentheses the parameters would read as a list of types.
+		mustFprintf(&sb, " (%s)", n.Return[0].FormattedString())
 	case l == 1:
 		mustFprintf(&sb, " %s", n.Return[0].FormattedString())
 	case l > 1:
-- 
2.43.0


From 820751d2e9e0b58971e5fa36e516d24dece6cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 12/16] fix: let a walk be stopped at any time

The walker only looked at the stop signal before blocking on the next
send, so a consumer that stopped receiving after signalling left the
goroutine blocked forever; and it closed the signal channel, so a stop
signalled after the last vertex panicked.
---
 pkg/dag/dag.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 7e29c32..b24711a 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -437,7 +437,6 @@ func (g *AcyclicGraph[K, T]) AncestorsWalker(id K) (chan K, chan bool, error) {
 	go func() {
 		g.walkAncestors(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -469,11 +468,17 @@ func (g *AcyclicGraph[K, T]) walkAncestors(id K, ids chan K, signal chan bool) {
 			}
 		}
 
+		// Once a stop is requested, no further vertex is offered.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
@@ -496,7 +501,6 @@ func (g *AcyclicGraph[K, T]) DescendantsWalker(id K) (chan K, chan bool, error)
 	go func() {
 		g.walkDescendants(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -528,11 +532,17 @@ func (g *AcyclicGraph[K, T]) walkDescendants(id K, ids chan K, signal chan bool)
 			}
 		}
 
+		// Once a stop is requested, no further vertex is offered.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
-- 
2.43.0


From 9f6b35c91f84870ba967d9f8277edd109341c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 13/16] fix: accept lone dollar and percent signs in strings
 and heredocs

No token matched a $ or % that does not start an interpolation, so
ordinary text such as "100%" could not be parsed.
---
 pkg/etx/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index c0021a3..a0434f4 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -124,7 +124,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Char", Pattern: `[^$%"'\\]+`},
+			{Name: "Char", Pattern: `[^$%"'\\]+|[$%]`},
 		},
 		lexerUnicode: {
 			{Name: "UnicodeLong", Pattern: `[0-9a-fA-F]{8}`, Action: lexer.Pop()},
@@ -136,7 +136,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Body", Pattern: `[^\n$%]+`},
+			{Name: "Body", Pattern: `[$%]?[^\n$%]+|[$%]`},
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
-- 
2.43.0


From 1f50caf9d5e8d900714b591ae8a413a75aad199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 14/16] fix: end a heredoc only at its complete delimiter

A line that merely started with the delimiter, such as EOFoo in a heredoc
delimited by EOF, ended the heredoc in the middle of a word.
---
 pkg/etx/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index a0434f4..dec6048 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -131,7 +131,7 @@ func lexRules() lexer.Rules {
 			{Name: "UnicodeShort", Pattern: `[0-9a-fA-F]{4}`, Action: lexer.Pop()},
 		},
 		lexerHeredoc: {
-			{Name: "HeredocEnd", Pattern: `^\1`, Action: lexer.Pop()},
+			{Name: "HeredocEnd", Pattern: `^\1\b`, Action: lexer.Pop()},
 			{Name: "EOL", Pattern: `\n`},
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
-- 
2.43.0


From f9348e31c1ccccda7e806b2a87866462bf32d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 15/16] fix: reject numbers too large to be represented

---
 pkg/etx/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 2abb647..2932391 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -169,6 +169,11 @@ func (v *ValueNumber) Capture(values []string) error {
 		return fmt.Errorf("failed to parse number value '%s': %w", v.Source, err)
 	}
 
+	// Too large an exponent overflows to infinity without an error.
+	if v.Value.IsInf() {
+		return fmt.Errorf("failed to parse number value '%s': out of range", v.Source)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f5d49c72dc061bb035aae05a190240da882edc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 16/16] fix: match braces inside interpolations

---
 pkg/etx/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index dec6048..73fa170 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -139,7 +139,9 @@ func lexRules() lexer.Rules {
 			{Name: "Body", Pattern: `[$%]?[^\n$%]+|[$%]`},
 		},
 		lexerStringExpr: {
+			// Braces inside the expression are closed before the expression is.
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
+			{Name: `BlockStart`, Pattern: regexp.QuoteMeta(OpLBrace), Action: lexer.Push(lexerStringExpr)},
 
 			lexer.Include(lexerCore),
 		},
-- 
2.43.0

