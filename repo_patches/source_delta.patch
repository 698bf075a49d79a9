From efdadd2621d45069de44418dc9afdd620d1f45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:20 +0000
Subject: [PATCH 01/23] fix: keep every table of a comma separated FROM
 (postgres)

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 409ecb2..50c8fac 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -92,7 +92,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 
-		scope.Tables = tables
+		scope.Tables = append(scope.Tables, tables...)
 		foundFields = append(foundFields, fields...)
 	}
 	if stmt.Where != nil {
-- 
2.43.0


From d76cb7ae0d5e33e651c81e81ee3229051e851982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 02/23] fix: descend into parenthesized table expressions
 instead of recursing forever

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 50c8fac..1796822 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -510,7 +510,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 		case *tree.AliasedTableExpr:
 			sc.lastError = lib.NewInvalidAstError("nested AS is unexpected")
 		case *tree.ParenTableExpr:
-			return sc.collectTables(tt)
+			return sc.collectTables(tt.Expr)
 		case *tree.JoinTableExpr:
 			tables, fields = sc.collectJoinReferences(tt)
 		case *tree.RowsFromExpr:
@@ -528,7 +528,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
 		}
 	case *tree.ParenTableExpr:
-		return sc.collectTables(t)
+		return sc.collectTables(t.Expr)
 	case *tree.JoinTableExpr:
 		tables, fields = sc.collectJoinReferences(t)
 	case *tree.RowsFromExpr:
-- 
2.43.0


From 508847f36bbdef68b71bbfc0fd79d657199ae682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 03/23] fix: refuse UNION, VALUES and nested parentheses
 instead of crashing (postgres)

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 1796822..d66a9ec 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -68,6 +68,10 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 
 	stmt, ok := selectNode.Select.(*tree.SelectClause)
 	if !ok {
+		// e.g.) UNION, VALUES and SELECT wrapped with extra parentheses
+		sc.errors = append(sc.errors, lib.NewUnsupportedError(
+			fmt.Sprintf("only simple SELECT is supported (type: %T)", selectNode.Select),
+		))
 		return false
 	}
 
@@ -167,7 +171,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 }
 
 func (sc *scopeCollector) Leave(node interface{}) bool {
-	if sc.scopeStack.Top().node == node {
+	if top := sc.scopeStack.Top(); top != nil && top.node == node {
 		sc.scopeStack.Pop()
 	}
 
-- 
2.43.0


From 0d813acfb258962ebe60342a6d427c2001dd36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 04/23] fix: accept window frames without an end bound
 (postgres)

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index d66a9ec..ae2dfd0 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -396,8 +396,12 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 				res = append(res, sc.collectExprReferences(o.Expr, defaultType)...)
 			}
 			if frame := e.WindowDef.Frame; frame != nil {
-				res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
-				res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				if b := frame.Bounds.StartBound; b != nil {
+					res = append(res, sc.collectExprReferences(b.OffsetExpr, defaultType)...)
+				}
+				if b := frame.Bounds.EndBound; b != nil {
+					res = append(res, sc.collectExprReferences(b.OffsetExpr, defaultType)...)
+				}
 			}
 		}
 
-- 
2.43.0


From a831f6f9c095ed1880c5194111c92ad9287c94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 05/23] fix: visit DISTINCT ON, OFFSET and ORDER BY of
 functions (postgres)

---
 database/postgres/pservice/ast/ast_walker.go         |  6 +++---
 .../postgres/pservice/parser/collect_stmt_scopes.go  | 12 ++++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index a07fe32..b6bcf48 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -129,7 +129,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				if node.WindowDef != nil {
 					walk(node.WindowDef)
 				}
-				walk(node.Exprs, node.Filter)
+				walk(node.Exprs, node.Filter, node.OrderBy)
 			case *tree.IndexTableDef:
 			case *tree.JoinTableExpr:
 				walk(node.Left, node.Right, node.Cond)
@@ -166,7 +166,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 				walk(node.Select)
 			case *tree.Limit:
-				walk(node.Count)
+				walk(node.Count, node.Offset)
 			case *tree.SelectClause:
 				walk(node.Exprs)
 				if node.Where != nil {
@@ -226,7 +226,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 					walk(windowDef)
 				}
 			case *tree.WindowDef:
-				walk(node.Partitions)
+				walk(node.Partitions, node.OrderBy)
 				if node.Frame != nil {
 					walk(node.Frame)
 				}
diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index ae2dfd0..cc388dd 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -90,6 +90,14 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			Columns: cols,
 		})
 	}
+	for _, d := range stmt.DistinctOn {
+		f, err := sc.createFieldFromExpr(d, dparser.FieldReference)
+		if err == nil {
+			foundFields = append(foundFields, f)
+		} else {
+			sc.errors = append(sc.errors, err)
+		}
+	}
 	for _, t := range stmt.From.Tables {
 		tables, fields := sc.collectTables(t)
 		if err := sc.getAndClearLastError(); err != nil {
@@ -154,7 +162,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 		}
 	}
 	if selectNode.With != nil {
-		sc.lastError = lib.NewInvalidAstError("WITH is not expected")
+		sc.errors = append(sc.errors, lib.NewInvalidAstError("WITH is not expected"))
 	}
 
 	for _, f := range foundFields {
@@ -463,7 +471,7 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 		if sc.isSchemaSpecified2(e.TableName, 1) {
 			sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 		} else {
-			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: e.ColumnName.Normalize()}}
+			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: e.ColumnName.Normalize(), Type: defaultType}}
 		}
 	default:
 		t := reflect.TypeOf(e).Name()
-- 
2.43.0


From ff4d154254c2bd48df0fd69f055f43ad082016c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:43 +0000
Subject: [PATCH 06/23] fix: collect columns of COLLATE, USING, := and ORDER BY
 of aggregates, report VALUES (mysql)

---
 .../mservice/parser/collect_stmt_scopes.go    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index fdbe560..5e8bf0b 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -126,10 +126,10 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 		}
 	}
 	if stmt.Kind == ast.SelectStmtKindValues {
-		sc.lastError = lib.NewInvalidAstError("SELECT for VALUES is not expected")
+		sc.errors = append(sc.errors, lib.NewInvalidAstError("SELECT for VALUES is not expected"))
 	}
 	if stmt.With != nil {
-		sc.lastError = lib.NewInvalidAstError("WITH is not expected")
+		sc.errors = append(sc.errors, lib.NewInvalidAstError("WITH is not expected"))
 	}
 
 	for _, f := range foundFields {
@@ -234,7 +234,8 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 	case *ast.ValuesExpr:
 		sc.lastError = lib.NewInvalidAstError("VALUES is not expected")
 	case *ast.VariableExpr:
-		// do nothing as variable doesn't relate to table's column
+		// variable itself doesn't relate to table's column but its value can (e.g. `@a := name`)
+		res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
 	case *ast.MaxValueExpr:
 		// MAXVALUE appears in table definition for partition
 		sc.lastError = lib.NewInvalidAstError("MAXVALUE is not expected")
@@ -244,7 +245,7 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
 		}
 	case *ast.SetCollationExpr:
-		// do nothing as COLLATE doesn't relate to table's column
+		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
 	case *ast.FuncCallExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
@@ -258,6 +259,11 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
 		}
+		if e.Order != nil {
+			for _, i := range e.Order.Items {
+				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
+			}
+		}
 	case *ast.WindowFuncExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
@@ -359,6 +365,13 @@ func (sc *scopeCollector) collectJoinReferences(j *ast.Join) ([]*dparser.Table,
 	tables = append(tables, rTables...)
 	fields = append(fields, rFields...)
 
+	if j.NaturalJoin {
+		sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")
+		return nil, nil
+	}
+	for _, c := range j.Using {
+		fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: c.Table.L, Name: c.Name.L, Type: dparser.FieldCondition}}})
+	}
 	if j.On != nil {
 		fields = append(fields, &dparser.Field{Columns: sc.collectExprReferences(j.On.Expr, dparser.FieldCondition)})
 	}
-- 
2.43.0


From 2aa9776f370b96f2a0ff280a4bb2d46cb8f95647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:51 +0000
Subject: [PATCH 07/23] fix: refuse queries with no statement or, for MySQL,
 several of them

---
 database/mysql/mservice/parse.go    | 8 ++++++++
 database/postgres/pservice/parse.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 82b8d4a..14bb0ee 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -1,6 +1,7 @@
 package mservice
 
 import (
+	"github.com/mrasu/GravityR/lib"
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
 )
@@ -11,5 +12,12 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 		return nil, err
 	}
 
+	if len(stmtNodes) == 0 {
+		return nil, lib.NewUnsupportedError("query has no statement")
+	}
+	if len(stmtNodes) > 1 {
+		return nil, lib.NewUnsupportedError("not supporting query having multiple statements")
+	}
+
 	return stmtNodes[0], nil
 }
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 5018253..7aadaf9 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -11,6 +11,9 @@ func Parse(query string) (*parser.Statement, error) {
 		return nil, errors.Wrap(err, "failed to parse sql")
 	}
 
+	if len(stmts) == 0 {
+		return nil, errors.New("query has no statement")
+	}
 	if len(stmts) > 1 {
 		return nil, errors.New("not supporting query having multiple statements")
 	}
-- 
2.43.0


From e1fd765813409278159fa5a2458132380d81a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:16 +0000
Subject: [PATCH 08/23] fix: refuse unsupported queries before EXPLAIN ANALYZE
 executes them

---
 cmd/db/suggest/mysql.go             |  5 +++++
 cmd/db/suggest/postgres.go          |  5 +++++
 database/mysql/mservice/parse.go    | 19 +++++++++++++++++++
 database/postgres/pservice/parse.go | 19 +++++++++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/cmd/db/suggest/mysql.go b/cmd/db/suggest/mysql.go
index a128264..a2dac45 100644
--- a/cmd/db/suggest/mysql.go
+++ b/cmd/db/suggest/mysql.go
@@ -64,6 +64,11 @@ func (mr *mysqlRunner) suggest(outputPath string, db *mysql.DB, dbName string) e
 		return err
 	}
 
+	err = mservice.EnsureSupported(mr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
 	if err != nil {
 		return err
diff --git a/cmd/db/suggest/postgres.go b/cmd/db/suggest/postgres.go
index 54a7b78..9415237 100644
--- a/cmd/db/suggest/postgres.go
+++ b/cmd/db/suggest/postgres.go
@@ -64,6 +64,11 @@ func (pr *postgresRunner) suggest(outputPath string, db *postgres.DB, schema str
 		return err
 	}
 
+	err = pservice.EnsureSupported(pr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := pservice.NewExplainer(db).ExplainWithAnalyze(pr.query)
 	if err != nil {
 		return err
diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 14bb0ee..86f3c9b 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -1,6 +1,7 @@
 package mservice
 
 import (
+	mParser "github.com/mrasu/GravityR/database/mysql/mservice/parser"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
@@ -21,3 +22,21 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 
 	return stmtNodes[0], nil
 }
+
+// EnsureSupported returns an error when the query cannot be analyzed.
+// Call this before running the query with EXPLAIN ANALYZE as it really executes the statement.
+func EnsureSupported(query string) error {
+	rootNode, err := Parse(parser.New(), query)
+	if err != nil {
+		return err
+	}
+
+	if _, errs := mParser.CollectTableNames(rootNode); len(errs) > 0 {
+		return errs[0]
+	}
+	if _, errs := mParser.CollectStmtScopes(rootNode); len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 7aadaf9..cdf11c1 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -2,6 +2,7 @@ package pservice
 
 import (
 	"github.com/auxten/postgresql-parser/pkg/sql/parser"
+	pParser "github.com/mrasu/GravityR/database/postgres/pservice/parser"
 	"github.com/pkg/errors"
 )
 
@@ -19,3 +20,21 @@ func Parse(query string) (*parser.Statement, error) {
 	}
 	return &stmts[0], nil
 }
+
+// EnsureSupported returns an error when the query cannot be analyzed.
+// Call this before running the query with EXPLAIN ANALYZE as it really executes the statement.
+func EnsureSupported(query string) error {
+	stmt, err := Parse(query)
+	if err != nil {
+		return err
+	}
+
+	if _, errs := pParser.CollectTableNames(stmt); len(errs) > 0 {
+		return errs[0]
+	}
+	if _, errs := pParser.CollectStmtScopes(stmt, "public"); len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
-- 
2.43.0


From 3859370c7e207e26c8ad99304ba1db2aa07b9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:44 +0000
Subject: [PATCH 09/23] fix: keep the last plan node when no summary follows
 (postgres)

---
 database/postgres/pservice/explain_analyze_tree_builder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..baf4abb 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -75,9 +75,6 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	summaryStartLine := 0
 	for i, line := range explainLines {
 		if summaryReg.MatchString(line) {
-			if len(nodeLines) > 0 {
-				lineNodes = append(lineNodes, nodeLines)
-			}
 			summaryStartLine = i
 			break
 		}
@@ -119,6 +116,10 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 		}
 	}
 
+	if len(nodeLines) > 0 {
+		lineNodes = append(lineNodes, nodeLines)
+	}
+
 	sLine := ""
 	if summaryStartLine > 0 {
 		sLine = strings.Join(explainLines[summaryStartLine:], "\n")
-- 
2.43.0


From c7a43f8ae461c968576aaf113f9649aca05e7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:47 +0000
Subject: [PATCH 10/23] fix: report unexpected rows from Hasura instead of
 crashing

---
 infra/hasura/client.go      | 3 +--
 infra/hasura/column_info.go | 8 ++++++--
 infra/hasura/index_info.go  | 4 ++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..69c8e9b 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -94,8 +94,7 @@ func (c *Client) GetTableColumns(schema string, tableNames []string) ([]*ColumnI
 	if err != nil {
 		return nil, err
 	}
-	cols := parseColumnFetchResult(res)
-	return cols, nil
+	return parseColumnFetchResult(res)
 }
 
 func (c *Client) GetIndexes(schema string, tableNames []string) ([]*IndexInfo, error) {
diff --git a/infra/hasura/column_info.go b/infra/hasura/column_info.go
index 3be333f..b0747f6 100644
--- a/infra/hasura/column_info.go
+++ b/infra/hasura/column_info.go
@@ -52,7 +52,7 @@ func buildColumnFetchQuery(schema string, tableNames []string) (string, error) {
 	return q, nil
 }
 
-func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
+func parseColumnFetchResult(res *RunSQLResponse) ([]*ColumnInfo, error) {
 	var cols []*ColumnInfo
 	for i, r := range res.Result {
 		if i == 0 {
@@ -60,6 +60,10 @@ func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
 			continue
 		}
 
+		if len(r) < 3 {
+			return nil, errors.Errorf("unexpected result from hasura to fetch columns: %d values exist in a row", len(r))
+		}
+
 		isPk := false
 		if r[2] == "t" {
 			isPk = true
@@ -72,5 +76,5 @@ func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
 		})
 	}
 
-	return cols
+	return cols, nil
 }
diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 45b12de..c17e71a 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -57,6 +57,10 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 			continue
 		}
 
+		if len(r) < 2 {
+			return nil, errors.Errorf("unexpected result from hasura to fetch indexes: %d values exist in a row", len(r))
+		}
+
 		cols := pq.StringArray{}
 		err := cols.Scan(r[1])
 		if err != nil {
-- 
2.43.0


From 76096973c55e35c5386ee8479ef3947288258fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:22 +0000
Subject: [PATCH 11/23] fix: read every page of DB instances and metrics from
 AWS

---
 infra/aws/performance_insights.go | 29 +++++++++++++++++------------
 infra/aws/rds.go                  | 22 +++++++++++++---------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 0bb20b0..84ef097 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -29,27 +29,27 @@ func NewPerformanceInsightsWithCli(cli aPi.GetResourceMetricsAPIClient) *Perform
 }
 
 func (pi *PerformanceInsights) GetHalfDaySqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql.statement", "db.sql.tokenized_id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql.statement", "db.sql.tokenized_id")
 	return res, nil
 }
 
 func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql_tokenized.statement", "db.sql_tokenized.id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
 	return res, nil
 }
 
-func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) (*aPi.GetResourceMetricsOutput, error) {
-	output, err := pi.client.GetResourceMetrics(context.Background(), &aPi.GetResourceMetricsInput{
+func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) ([]types.MetricKeyDataPoints, error) {
+	paginator := aPi.NewGetResourceMetricsPaginator(pi.client, &aPi.GetResourceMetricsInput{
 		Identifier: &db.DbiResourceId,
 		MetricQueries: []types.MetricQuery{
 			{
@@ -66,17 +66,22 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		PeriodInSeconds: lib.Ptr(int32(300)),
 	})
 
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+	var metrics []types.MetricKeyDataPoints
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+		}
+		metrics = append(metrics, output.MetricList...)
 	}
 
-	return output, nil
+	return metrics, nil
 }
 
-func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
+func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
-	for _, m := range output.MetricList {
-		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
+	for _, m := range metrics {
+		if m.Key == nil || m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
 		if m.Key.Dimensions == nil {
diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index 744c93c..852fa7e 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -25,21 +25,25 @@ func NewRdsWithCli(cli aRds.DescribeDBInstancesAPIClient) *Rds {
 }
 
 func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
-	output, err := rds.client.DescribeDBInstances(context.Background(), &aRds.DescribeDBInstancesInput{
+	paginator := aRds.NewDescribeDBInstancesPaginator(rds.client, &aRds.DescribeDBInstancesInput{
 		Filters: []types.Filter{
 			{Name: lib.Ptr("engine"), Values: engines},
 		},
 	})
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to describe db instances")
-	}
 
 	var res []*RdsDB
-	for _, ins := range output.DBInstances {
-		res = append(res, &RdsDB{
-			InstanceIdentifier: *ins.DBInstanceIdentifier,
-			DbiResourceId:      *ins.DbiResourceId,
-		})
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to describe db instances")
+		}
+
+		for _, ins := range output.DBInstances {
+			res = append(res, &RdsDB{
+				InstanceIdentifier: aws.ToString(ins.DBInstanceIdentifier),
+				DbiResourceId:      aws.ToString(ins.DbiResourceId),
+			})
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 970afecb0d7a4a8259b30b11fd507cc457e2f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 12/23] fix: close the report file and report a failure of it

---
 html/html_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/html/html_builder.go b/html/html_builder.go
index 1ed1c41..26bce5b 100644
--- a/html/html_builder.go
+++ b/html/html_builder.go
@@ -58,8 +58,14 @@ func CreateHtml(htmlType, filename string, bo *BuildOption) error {
 
 	err = tpl.Execute(f, m)
 	if err != nil {
+		_ = f.Close()
 		return errors.Wrap(err, "failed to write template to html")
 	}
 
+	err = f.Close()
+	if err != nil {
+		return errors.Wrap(err, "failed to close html file")
+	}
+
 	return nil
 }
-- 
2.43.0


From b6f7b45f223f6d4c72cc40220c60186b400e6341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:57 +0000
Subject: [PATCH 13/23] fix: escape values of the connection string (postgres)

---
 infra/postgres/config.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 0c5a871..6e5b73e 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -47,19 +47,19 @@ func NewConfigFromEnv() (*Config, error) {
 func (cfg *Config) GetKVConnectionString() string {
 	var texts []string
 	if cfg.user != "" {
-		texts = append(texts, "user='"+cfg.user+"'")
+		texts = append(texts, "user="+quoteKVValue(cfg.user))
 	}
 	if cfg.password != "" {
-		texts = append(texts, "password='"+cfg.password+"'")
+		texts = append(texts, "password="+quoteKVValue(cfg.password))
 	}
 	if cfg.host != "" {
-		texts = append(texts, "host='"+cfg.host+"'")
+		texts = append(texts, "host="+quoteKVValue(cfg.host))
 	}
 	if cfg.port != "" {
-		texts = append(texts, "port='"+cfg.port+"'")
+		texts = append(texts, "port="+quoteKVValue(cfg.port))
 	}
 	if cfg.DBName != "" {
-		texts = append(texts, "dbname='"+cfg.DBName+"'")
+		texts = append(texts, "dbname="+quoteKVValue(cfg.DBName))
 	}
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
@@ -69,6 +69,11 @@ func (cfg *Config) GetKVConnectionString() string {
 	return strings.Join(texts, " ")
 }
 
+// quoteKVValue quotes a value of libpq's connection string. Backslash and single quote have special meanings inside quotes.
+func quoteKVValue(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, "'", `\'`).Replace(value) + "'"
+}
+
 func (cfg *Config) GetSearchPathOrPublic() string {
 	if cfg.searchPath == "" {
 		return "public"
-- 
2.43.0


From 6b61519a1b17cb24bb26e5b219f0959ae39d2cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:59 +0000
Subject: [PATCH 14/23] fix: accept attributes having no value

---
 otel/jaeger/v1_converter.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 05a039b..7f07db7 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -85,7 +85,10 @@ func (c *v1Converter) toAnyValue(v *v1.AnyValue) *omodel.AnyValue {
 }
 
 func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
-	switch vv := v.Value.(type) {
+	switch vv := v.GetValue().(type) {
+	case nil:
+		// value is optional for OpenTelemetry
+		return nil
 	case *v1.AnyValue_StringValue:
 		return &omodel.AnyValueString{StringValue: vv.StringValue}
 	case *v1.AnyValue_BoolValue:
@@ -96,13 +99,13 @@ func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
 		return &omodel.AnyValueDouble{DoubleValue: vv.DoubleValue}
 	case *v1.AnyValue_ArrayValue:
 		var vals []omodel.AnyValueDatum
-		for _, v := range vv.ArrayValue.Values {
+		for _, v := range vv.ArrayValue.GetValues() {
 			vals = append(vals, c.toAnyValueData(v))
 		}
 		return &omodel.AnyValueArray{ArrayValues: vals}
 	case *v1.AnyValue_KvlistValue:
 		vals := map[string]omodel.AnyValueDatum{}
-		for _, v := range vv.KvlistValue.Values {
+		for _, v := range vv.KvlistValue.GetValues() {
 			vals[v.Key] = c.toAnyValueData(v.Value)
 		}
 		return &omodel.AnyValueKV{KVValue: vals}
-- 
2.43.0


From b5d981366ce0172cb74dfd44c408c459699bdd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:31 +0000
Subject: [PATCH 15/23] fix: let DB_PARAM_TEXT choose sslmode (postgres)

---
 infra/postgres/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 6e5b73e..79cc05d 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -61,10 +61,11 @@ func (cfg *Config) GetKVConnectionString() string {
 	if cfg.DBName != "" {
 		texts = append(texts, "dbname="+quoteKVValue(cfg.DBName))
 	}
+	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
+		// the last value is used when a key appears several times
 		texts = append(texts, cfg.paramText)
 	}
-	texts = append(texts, "sslmode=disable")
 
 	return strings.Join(texts, " ")
 }
-- 
2.43.0


From 411e48745e8e25c47b63b7eddaf4bb47a72d87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:33 +0000
Subject: [PATCH 16/23] fix: do not underflow when children outlive their span
 or a span ends before its start

---
 otel/jaeger/trace_picker.go |  4 +---
 otel/omodel/span.go         | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/otel/jaeger/trace_picker.go b/otel/jaeger/trace_picker.go
index 9347423..23e18d1 100644
--- a/otel/jaeger/trace_picker.go
+++ b/otel/jaeger/trace_picker.go
@@ -22,9 +22,7 @@ func (tp *TracePicker) PickSameServiceAccessTraces(threshold int) []*omodel.Trac
 
 func (tp *TracePicker) PickSlowTraces(num int) []*omodel.TraceTree {
 	slowTraces := lib.NewLimitedHeap[*omodel.TraceTree](num, func(a1, a2 *omodel.TraceTree) bool {
-		d1 := a1.Root.EndTimeUnixNano - a1.Root.StartTimeUnixNano
-		d2 := a2.Root.EndTimeUnixNano - a2.Root.StartTimeUnixNano
-		return d1 < d2
+		return a1.Root.Duration() < a2.Root.Duration()
 	})
 
 	for _, tree := range tp.traces {
diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..4e547ff 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -67,6 +67,14 @@ func (s *Span) IsSame(other *Span) bool {
 	return bytes.Equal(s.TraceId, other.TraceId) && bytes.Equal(s.SpanId, other.SpanId)
 }
 
+// Duration returns zero when the span ends before it starts, which happens with unfinished spans or skewed clocks.
+func (s *Span) Duration() uint64 {
+	if s.EndTimeUnixNano < s.StartTimeUnixNano {
+		return 0
+	}
+	return s.EndTimeUnixNano - s.StartTimeUnixNano
+}
+
 func (s *Span) CalcConsumedTime() uint64 {
 	var childTimes [][]uint64
 	for _, c := range s.Children {
@@ -77,6 +85,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 	consumedTime := uint64(0)
 	lastEndTime := s.StartTimeUnixNano
 	for _, t := range childTimes {
+		if t[0] >= s.EndTimeUnixNano {
+			break
+		}
 		if lastEndTime < t[0] {
 			consumedTime += t[0] - lastEndTime
 		}
@@ -84,7 +95,10 @@ func (s *Span) CalcConsumedTime() uint64 {
 			lastEndTime = t[1]
 		}
 	}
-	consumedTime += s.EndTimeUnixNano - lastEndTime
+	// children can finish after their parent
+	if lastEndTime < s.EndTimeUnixNano {
+		consumedTime += s.EndTimeUnixNano - lastEndTime
+	}
 
 	return consumedTime
 }
-- 
2.43.0


From c48f2143bc391bc4c7364e5b20b3c8b724911b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:36 +0000
Subject: [PATCH 17/23] fix: aggregate loads by hours of UTC so that no time
 zone loses data

---
 infra/aws/pi_sql_load_avg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..34eb8a4 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -26,7 +26,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 	dbLoadMap := map[time.Time]map[string]*viewmodel.VmDbLoad{}
 	for _, avg := range avgs {
 		for _, v := range avg.Values {
-			baseTime := lib.NormalizeTimeByHour(v.Time)
+			baseTime := lib.NormalizeTimeByHour(v.Time.UTC())
 			if _, ok := sqlLoadMap[baseTime]; !ok {
 				sqlLoadMap[baseTime] = viewmodel.NewVmTimeDbLoad(baseTime)
 			}
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From 1474841668909ef1440d6b3fce4a228dabda19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:07 +0000
Subject: [PATCH 18/23] fix: report errors of GraphQL instead of measuring
 failed queries (hasura)

---
 infra/hasura/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 69c8e9b..455a080 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,22 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	b, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// Errors of GraphQL are returned with status 200
+	var res struct {
+		Errors []json.RawMessage `json:"errors"`
+	}
+	err = json.Unmarshal(b, &res)
+	if err != nil {
+		return errors.Wrap(err, "failed to decode response from Hasura")
+	}
+	if len(res.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", string(b))
+	}
 	return nil
 }
 
-- 
2.43.0


From 2a09364ec7d7476d2d18342b096e96889091a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:34 +0000
Subject: [PATCH 19/23] fix: build traces in the order of received spans and
 break ties of services by name

---
 otel/jaeger/v1_converter.go                 | 10 ++++++++--
 otel/omodel/compact_info_collect_visitor.go |  2 +-
 otel/omodel/span.go                         |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 7f07db7..7c2f5cb 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -24,16 +24,22 @@ func ToTraceTrees(resourceSpans []*v1Trace.ResourceSpans) []*omodel.TraceTree {
 
 func (c *v1Converter) toTraceTrees(resourceSpans []*v1Trace.ResourceSpans) []*omodel.TraceTree {
 	spanIdMap := map[string]*spanHolder{}
+	var spanIds []string
 	for _, rSpan := range resourceSpans {
 		for _, lSpan := range rSpan.InstrumentationLibrarySpans {
 			for _, span := range lSpan.Spans {
-				spanIdMap[string(span.SpanId)] = &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
+				id := string(span.SpanId)
+				if _, ok := spanIdMap[id]; !ok {
+					spanIds = append(spanIds, id)
+				}
+				spanIdMap[id] = &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
 			}
 		}
 	}
 
 	var roots []*omodel.Span
-	for _, h := range spanIdMap {
+	for _, id := range spanIds {
+		h := spanIdMap[id]
 		if c.isRootSpan(h.orig) {
 			roots = append(roots, h.span)
 			continue
diff --git a/otel/omodel/compact_info_collect_visitor.go b/otel/omodel/compact_info_collect_visitor.go
index 80f1259..44858af 100644
--- a/otel/omodel/compact_info_collect_visitor.go
+++ b/otel/omodel/compact_info_collect_visitor.go
@@ -23,7 +23,7 @@ func (v *traceInfoCollectVisitor) GetMostTimeConsumedService() string {
 	maxTime := uint64(0)
 
 	for s, t := range v.serviceConsumedTime {
-		if maxTime < t {
+		if maxTime < t || (maxTime == t && s < maxService) {
 			maxService = s
 			maxTime = t
 		}
diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 4e547ff..d33998d 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -23,7 +23,7 @@ type Span struct {
 }
 
 func (s *Span) SortChildren() {
-	sort.Slice(s.Children, func(i, j int) bool {
+	sort.SliceStable(s.Children, func(i, j int) bool {
 		return s.Children[i].StartTimeUnixNano < s.Children[j].StartTimeUnixNano
 	})
 
-- 
2.43.0


From b5ee77715154984438bb0e244058baa69dac95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 20/23] fix: resolve columns without depending on map order

---
 .../dservice/dparser/build_table_fields.go    | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 2be983a..0038308 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
+	"sort"
 )
 
 type tableOutputCols map[string][]*outputCol
@@ -59,12 +60,13 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 	visibleCols := info.getVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
-		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
+		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		info.addSubqueryInfo(s.Name, s.Name, cols, newFieldColumns)
+		// columns of a subquery used as a value are not visible from this scope
+		info.addReferencingFields(newFieldColumns)
 	}
 
 	var outputCols []*outputCol
@@ -212,10 +214,12 @@ func (si *scopeInfo) addReferencingField(tableName string, col *FieldColumn) {
 
 func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputCol, error) {
 	var res []*outputCol
-	for _, tName := range si.starTables.Values() {
+	starTables := si.starTables.Values()
+	sort.Strings(starTables)
+	for _, tName := range starTables {
 		if tName == "" {
-			for _, cols := range si.refTables.internalCols {
-				res = append(res, cols...)
+			for _, name := range sortedKeys(si.refTables.internalCols) {
+				res = append(res, si.refTables.internalCols[name]...)
 			}
 			continue
 		}
@@ -332,8 +336,8 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 }
 
 func (t *refTables) getColumnInfosFromTableOutputCols(tableOutputs tableOutputCols, colName string) ([]*columnInfo, bool) {
-	for _, fCols := range tableOutputs {
-		for _, fc := range fCols {
+	for _, name := range sortedKeys(tableOutputs) {
+		for _, fc := range tableOutputs[name] {
 			if colName == fc.name {
 				return fc.referencingColumns, true
 			}
@@ -342,3 +346,9 @@ func (t *refTables) getColumnInfosFromTableOutputCols(tableOutputs tableOutputCo
 
 	return nil, false
 }
+
+func sortedKeys(cols tableOutputCols) []string {
+	keys := lo.Keys(cols)
+	sort.Strings(keys)
+	return keys
+}
-- 
2.43.0


From cabdd60763158482b76a6ac20bc94d9b4358f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:12 +0000
Subject: [PATCH 21/23] fix: accept queries having no index to suggest

---
 database/dservice/existing_index_remover.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..b68331e 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -26,6 +26,10 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
 	idxTargets := lo.Uniq(r.idxTargets)
 
+	if len(idxTargets) == 0 {
+		return idxTargets, nil
+	}
+
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
 	tNames = lo.Uniq(tNames)
 
-- 
2.43.0


From bd765060bb52ed25873cebe703ff00a1b49ca6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 22/23] fix: resolve columns of a subquery in the nearest scope
 which has them

---
 .../dservice/dparser/build_table_fields.go    | 63 ++++++++++---------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 0038308..c7ab2db 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -24,7 +24,7 @@ type tableFieldsBuilder struct{}
 
 func buildTableFields(dbTables map[string]*TableSchema, scope *StmtScope) (tableFieldColumns, error) {
 	tfb := &tableFieldsBuilder{}
-	info := newScopeInfo(dbTables, scope, tableOutputCols{})
+	info := newScopeInfo(dbTables, scope, nil)
 	_, tableFields, err := tfb.calculateReferences(info)
 	if err != nil {
 		return nil, err
@@ -45,7 +45,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+			subScopeVisibleCols = info.listVisibleColumns()
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -57,7 +57,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.getVisibleColumns()
+	visibleCols := info.listVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
@@ -110,8 +110,9 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 type scopeInfo struct {
 	dbTables map[string]*TableSchema
 
-	scope                *StmtScope
-	originalExternalCols tableOutputCols
+	scope *StmtScope
+	// columns of the scopes around, from the innermost to the outermost
+	originalExternalCols []tableOutputCols
 
 	referencingFields tableFieldColumns
 
@@ -120,7 +121,7 @@ type scopeInfo struct {
 	starTables *lib.Set[string]
 }
 
-func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	referencingColumns := buildReferencingColumns(dbTables, scope.Tables)
 	refTables := newRefTables(referencingColumns, scope.Tables, externalCols)
 
@@ -155,7 +156,7 @@ func buildReferencingColumns(dbTables map[string]*TableSchema, tables []*Table)
 	return res
 }
 
-func (si *scopeInfo) createChild(childScope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func (si *scopeInfo) createChild(childScope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	return newScopeInfo(si.dbTables, childScope, externalCols)
 }
 
@@ -238,6 +239,11 @@ func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputC
 	return res, nil
 }
 
+// listVisibleColumns returns columns visible from child scopes, from the innermost scope to the outermost
+func (si *scopeInfo) listVisibleColumns() []tableOutputCols {
+	return append([]tableOutputCols{si.getVisibleColumns()}, si.originalExternalCols...)
+}
+
 func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 	res := tableOutputCols{}
 	for asName, name := range si.refTables.asToName {
@@ -251,18 +257,19 @@ func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 
 type refTables struct {
 	internalCols tableOutputCols
-	externalCols tableOutputCols
+	externalCols []tableOutputCols
 
 	asToName        map[string]string
 	subqueryAsNames *lib.Set[string]
 }
 
-func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols tableOutputCols) *refTables {
+func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols []tableOutputCols) *refTables {
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
-	for tName := range externalCols {
-		asToName[tName] = tName
-		subqueryAsNames.Add(tName)
+	for _, cols := range externalCols {
+		for tName := range cols {
+			subqueryAsNames.Add(tName)
+		}
 	}
 	for _, t := range tables {
 		asToName[t.AsOrName()] = t.Name
@@ -282,25 +289,19 @@ func (t *refTables) addSubquery(name, asName string, cols []*outputCol) {
 	t.subqueryAsNames.Add(asName)
 }
 
-func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
-	if cols, ok := t.internalCols[name]; ok {
-		return cols, nil
-	}
-	res, ok := t.externalCols[name]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
-	}
-
-	return res, nil
-}
-
 func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
-	name, ok := t.asToName[asName]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
+	if name, ok := t.asToName[asName]; ok {
+		if cols, ok := t.internalCols[name]; ok {
+			return cols, nil
+		}
+	}
+	for _, external := range t.externalCols {
+		if cols, ok := external[asName]; ok {
+			return cols, nil
+		}
 	}
 
-	return t.getTableColsFromName(name)
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
 }
 
 func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
@@ -322,8 +323,10 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
 	}
-	if cols, ok := t.getColumnInfosFromTableOutputCols(t.externalCols, colName); ok {
-		return cols, nil
+	for _, external := range t.externalCols {
+		if cols, ok := t.getColumnInfosFromTableOutputCols(external, colName); ok {
+			return cols, nil
+		}
 	}
 
 	if t.subqueryAsNames.Contains(colName) {
-- 
2.43.0


From 3cea10b6ec92cccdeb86d023421b19964d2c2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 23/23] fix: report an empty list when no index was examined

---
 database/dmodel/examination_result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/examination_result.go b/database/dmodel/examination_result.go
index e492522..351a7df 100644
--- a/database/dmodel/examination_result.go
+++ b/database/dmodel/examination_result.go
@@ -15,7 +15,7 @@ func NewExaminationResult(irs []*ExaminationIndexResult, time int64) *Examinatio
 }
 
 func (er *ExaminationResult) ToViewModel() *viewmodel.VmExaminationResult {
-	var virs []*viewmodel.VmExaminationIndexResult
+	virs := []*viewmodel.VmExaminationIndexResult{}
 	for _, ir := range er.IndexResults {
 		virs = append(virs, ir.ToViewModel())
 	}
-- 
2.43.0

