From 70bd3a9959d2fb57f92424f94057419ee7b843b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 01/10] fix: truncate a pre-existing output file before writing
 it

Without O_TRUNC, compiling a schema whose JSON is shorter than the file
already at the output path left the old tail behind the new JSON.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..40f150c 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -102,7 +102,7 @@ func init() {
 }
 
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f19e41d544467fb002141d68f660440e4039680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 02/10] fix: report a failed write of the output file

The deferred Close overwrote the error of Write, so a full disk was
reported as success with exit code 0.
---
 cmd/root.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 40f150c..4c91000 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -108,15 +107,11 @@ func writeToFile(data []byte, filePath string) (err error) {
 	}
 
 	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
 		}
 	}()
 
-	if _, err := f.Write(data); err != nil {
-		return err
-	}
-
+	_, err = f.Write(data)
 	return err
 }
-- 
2.43.0


From e114542af01816b828a466ec51776a2207f6762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 03/10] fix: bind the --trace flag to its variable

The flag was declared but never read, so -t had no effect.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index 4c91000..6125639 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -95,7 +95,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From b231666a7bcce8e1be06dd57c3f74322ff5acdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/10] fix: keep words apart in call statements

The text of a call statement was put together without white space, so
'not lower($a)' became 'notlower($a)' and '$a and $b' became
'$aand$b', which reads as another expression or none at all.
---
 kfparser/visitor.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 673b38d..d964506 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -440,8 +440,40 @@ func (v *KFVisitor) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext
 
 // VisitAction_stmt is called when parsing action statement, return string
 func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
-	stmt := strings.TrimSpace(ctx.GetText())
-	return stmt
+	var stmt strings.Builder
+	writeTokens(&stmt, ctx, "")
+	return strings.TrimSpace(stmt.String())
+}
+
+// writeTokens writes the tokens under node one after another, prev being the
+// token written last, and returns the last token written. White space is not
+// preserved, except between two words, which would otherwise become one.
+func writeTokens(b *strings.Builder, node antlr.Tree, prev string) string {
+	if t, ok := node.(antlr.TerminalNode); ok {
+		text := t.GetText()
+		if isWord(prev) && text != "" && isWordChar(text[0]) {
+			b.WriteByte(' ')
+		}
+		b.WriteString(text)
+		return text
+	}
+	for _, child := range node.GetChildren() {
+		prev = writeTokens(b, child, prev)
+	}
+	return prev
+}
+
+// isWord tells if a token is a name, a keyword or a variable.
+func isWord(token string) bool {
+	return token != "" && (token[0] == '$' || token[0] == '@' || isWordChar(token[0]) && !isDigit(token[0]))
+}
+
+func isWordChar(c byte) bool {
+	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || isDigit(c)
+}
+
+func isDigit(c byte) bool {
+	return c >= '0' && c <= '9'
 }
 
 // VisitInit_decl is called when parsing init declaration, return schema.Action
-- 
2.43.0


From 6c6baff69bacc2d07919a6271cef845aaef91d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 05/10] fix: an index does not stand in for a column

Columns and indexes of a table share one lookup table, so an index or a
foreign key could refer to the name of an index as if it were a column.
---
 schema/validator.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..5b15623 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -88,7 +88,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if !c.hasColumn(t.Name, col) {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -169,20 +169,25 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if !c.hasColumn(c.currentDecl, col) {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
 	return nil
 }
 
+// hasColumn tells if a table has a column, indexes of that name do not count.
+func (c *ContextValidator) hasColumn(table, name string) bool {
+	return c.tableCtx[table][name] == "column"
+}
+
 func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	if _, ok := c.tableCtx[fk.ParentTable]; !ok {
 		return fmt.Errorf("%w: %s", ErrTableNotFound, fk.ParentTable)
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if !c.hasColumn(fk.ParentTable, col) {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From 3096bb194c029654f980d7ba0272e5c1775ba395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 06/10] fix: check variables nested in call arguments

Only an argument that is nothing but a variable was checked, so an
undefined variable inside an expression, such as x($nope + 1) or
x(lower($nope)), was accepted.
---
 schema/validator.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5b15623..39d2111 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -213,7 +213,8 @@ func isSqlStatement(stmt string) bool {
 		strings.HasPrefix(stmt, "with")
 }
 
-// checkArgRef check if the argument(bind parameter) is a valid reference
+// checkArgRef check if the argument(bind parameter) is a valid reference,
+// at any depth of an expression
 func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) error {
 	switch t := arg.(type) {
 	case *tree.ExpressionBindParameter:
@@ -234,6 +235,24 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRef(t.Operand, ctx, localCtx)
+	case *tree.ExpressionBinaryComparison:
+		return checkArgRefs([]tree.Expression{t.Left, t.Right}, ctx, localCtx)
+	case *tree.ExpressionArithmetic:
+		return checkArgRefs([]tree.Expression{t.Left, t.Right}, ctx, localCtx)
+	case *tree.ExpressionFunction:
+		return checkArgRefs(t.Inputs, ctx, localCtx)
+	}
+
+	return nil
+}
+
+func checkArgRefs(args []tree.Expression, ctx declCtx, localCtx map[string]bool) error {
+	for _, arg := range args {
+		if err := checkArgRef(arg, ctx, localCtx); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 63f96c45ab5d31dde0d685bbbb0ff7029b98ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 07/10] fix: escaped quotes in annotation strings

A string ended at its first quote even if escaped, so the rest of the
string was lost or read as further attributes.
---
 utils/annotation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/annotation.go b/utils/annotation.go
index 20dbf31..4d8e3eb 100644
--- a/utils/annotation.go
+++ b/utils/annotation.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`
+	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|'(?:[^'\\]|\\(?s:.))*')`
 )
 
 var (
-- 
2.43.0


From 7e857811a0b8d40e7929f0aa57b451c030f441ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 08/10] fix: do not add the error list to itself

A syntax error was returned as the listener's list of errors, which was
then added to that same list: one error too many in the message, and a
list that contains itself.
---
 kfparser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kfparser/parser.go b/kfparser/parser.go
index 8b845a0..6e6d2c3 100644
--- a/kfparser/parser.go
+++ b/kfparser/parser.go
@@ -47,7 +47,8 @@ func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (resul
 			}
 		}
 
-		if err != nil {
+		// the listener's own errors are in there already
+		if err != nil && err != errorListener.Err() {
 			errorListener.Add(err)
 		}
 
-- 
2.43.0


From efef91d6ccc8ec5021db28d6cd5a4d8fd00a57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 09/10] hook: mark the phases of a compilation for monitoring

A no-op unless built with the verif tag.
---
 kfparser/hook.go       |  7 +++++++
 kfparser/hook_verif.go | 15 +++++++++++++++
 kfparser/parser.go     |  4 ++++
 3 files changed, 26 insertions(+)
 create mode 100644 kfparser/hook.go
 create mode 100644 kfparser/hook_verif.go

diff --git a/kfparser/hook.go b/kfparser/hook.go
new file mode 100644
index 0000000..b1557e7
--- /dev/null
+++ b/kfparser/hook.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package kfparser
+
+// hookPhase marks the start of a phase of a compilation. It does nothing,
+// unless built with the verif tag.
+func hookPhase(string) {}
diff --git a/kfparser/hook_verif.go b/kfparser/hook_verif.go
new file mode 100644
index 0000000..952437f
--- /dev/null
+++ b/kfparser/hook_verif.go
@@ -0,0 +1,15 @@
+//go:build verif
+
+package kfparser
+
+import "sync/atomic"
+
+// PhaseHook, if set, is called at the start of every phase of a compilation,
+// on the goroutine of the compilation.
+var PhaseHook atomic.Pointer[func(phase string)]
+
+func hookPhase(phase string) {
+	if f := PhaseHook.Load(); f != nil {
+		(*f)(phase)
+	}
+}
diff --git a/kfparser/parser.go b/kfparser/parser.go
index 6e6d2c3..a3d8f80 100644
--- a/kfparser/parser.go
+++ b/kfparser/parser.go
@@ -62,18 +62,22 @@ func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (resul
 
 	visitor := NewKuneiformVisitor(mode)
 
+	hookPhase("parse")
 	parseTree := p.Source_unit()
 	if errorListener.Err() != nil {
 		return result, errorListener.Err()
 	}
 
+	hookPhase("visit")
 	result, ok := visitor.Visit(parseTree).(ast.Ast)
 	if !ok {
 		return result, errors.New("failed to parse")
 	}
 
+	hookPhase("validate")
 	v := schema.NewCtxValidator()
 	err = result.Accept(v)
+	hookPhase("done")
 	if err != nil {
 		return result, err
 	}
-- 
2.43.0


From b09569f2eab66d09eeb3a7e51960198e2de5f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 10/10] fix: validating an extension on its own panicked

---
 schema/validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 39d2111..7d855c3 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -109,8 +109,9 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 }
 
 func (c *ContextValidator) VisitExtension(extension *Extension) error {
-	//TODO implement me
-	panic("implement me")
+	// there is no rule about an extension on its own, VisitSchema checks that
+	// aliases are unique
+	return nil
 }
 
 func (c *ContextValidator) VisitTable(t *Table) error {
-- 
2.43.0

