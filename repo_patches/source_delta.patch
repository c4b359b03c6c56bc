From dc29a1da54ae1c677fc727b412cc3a9ee8ae1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:01 +0000
Subject: [PATCH 01/56] fix: move MySQL columns by their simulated positions

Comparing absolute positions missed moves when columns were added, dropped or
moved in the same run, so columns could end up in a wrong order.
---
 schema/generator.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..27e4137 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -232,6 +232,14 @@ func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
 
+	// Positions of the columns that are kept or already added, which decide whether a column needs to be moved in MySQL.
+	columnOrder := []string{}
+	for _, column := range currentTable.columns {
+		if containsString(convertColumnsToColumnNames(desired.table.columns), column.name) {
+			columnOrder = append(columnOrder, column.name)
+		}
+	}
+
 	// Examine each column
 	for i, desiredColumn := range desired.table.columns {
 		currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
@@ -263,13 +271,14 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			}
 
 			ddls = append(ddls, ddl)
+			columnOrder = moveString(columnOrder, desiredColumn.name, i)
 		} else {
 			// Change column data type or order as needed.
 			switch g.mode {
 			case GeneratorModeMysql:
-				currentPos := currentColumn.position
-				desiredPos := desiredColumn.position
-				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
+				// Columns on the left of this one are already at their desired positions.
+				changeOrder := i < len(columnOrder) && columnOrder[i] != desiredColumn.name
+				columnOrder = moveString(columnOrder, desiredColumn.name, i)
 
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
 				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
@@ -1553,6 +1562,23 @@ func containsString(strs []string, str string) bool {
 	return false
 }
 
+// Return strs with str at the given position, moved there if it is already in strs.
+func moveString(strs []string, str string, position int) []string {
+	ret := []string{}
+	for _, s := range strs {
+		if s != str {
+			ret = append(ret, s)
+		}
+	}
+	if position > len(ret) {
+		position = len(ret)
+	}
+	ret = append(ret, "")
+	copy(ret[position+1:], ret[position:])
+	ret[position] = str
+	return ret
+}
+
 func removeTableByName(tables []*Table, name string) []*Table {
 	removed := false
 	ret := []*Table{}
-- 
2.43.0


From c38f6b6fe9e02cfa29aa75b9d4bc1512262a672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 02/56] fix: keep the desired column definition when removing
 AUTO_INCREMENT

The statement removing AUTO_INCREMENT repeated the current definition, which
reverted a change of the same column made just before.
---
 schema/generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 27e4137..854c0ad 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -437,8 +437,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 		for _, currentColumn := range currentTable.columns {
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
 			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
-				currentColumn.autoIncrement = false
-				definition, err := g.generateColumnDefinition(currentColumn, false)
+				column := currentColumn
+				if desiredColumn != nil {
+					column = *desiredColumn // The rest of the definition may have been changed already.
+				}
+				column.autoIncrement = false
+				definition, err := g.generateColumnDefinition(column, false)
 				if err != nil {
 					return ddls, err
 				}
-- 
2.43.0


From 4a0ff244fd978a08516145907435be0eaf6a4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 03/56] fix: drop obsolete objects after what depends on them

Obsolete foreign keys are dropped before tables, and tables before the tables
they refer to; PostgreSQL views are dropped before the tables they use.
---
 schema/generator.go | 88 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 81 insertions(+), 7 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 854c0ad..665af34 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -141,17 +141,18 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
-	// Clean up obsoleted tables, indexes, columns
+	// Clean up obsoleted views. PostgreSQL doesn't drop tables and columns used by a view, so it needs to be done first.
+	if g.mode == GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
+	// Clean up obsoleted foreign keys prior to the tables, indexes and columns they depend on
 	for _, currentTable := range g.currentTables {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 		if desiredTable == nil {
-			// Obsoleted table found. Drop table.
-			ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(currentTable.name)))
-			g.currentTables = removeTableByName(g.currentTables, currentTable.name)
-			continue
+			continue // Dropped with the table.
 		}
 
-		// Table is expected to exist. Drop foreign keys prior to index deletion
 		for _, foreignKey := range currentTable.foreignKeys {
 			if containsString(convertForeignKeysToConstraintNames(desiredTable.foreignKeys), foreignKey.constraintName) {
 				continue // Foreign key is expected to exist.
@@ -162,6 +163,14 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			ddls = append(ddls, foreignKeyDDLs...)
 			// TODO: simulate to remove foreign key from `currentTable.foreignKeys`?
 		}
+	}
+
+	// Clean up obsoleted tables
+	ddls = append(ddls, g.generateDDLsForAbsentTables()...)
+
+	// Clean up obsoleted indexes, columns
+	for _, currentTable := range g.currentTables {
+		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 
 		// Check indexes
 		for _, index := range currentTable.indexes {
@@ -201,14 +210,60 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	}
 
 	// Clean up obsoleted views
+	if g.mode != GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
+	return ddls, nil
+}
+
+func (g *Generator) generateDDLsForAbsentViews() []string {
+	ddls := []string{}
 	for _, currentView := range g.currentViews {
 		if containsString(convertViewNames(g.desiredViews), currentView.name) {
 			continue
 		}
 		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
 	}
+	return ddls
+}
 
-	return ddls, nil
+// Tables are dropped after the obsoleted tables referring to them.
+func (g *Generator) generateDDLsForAbsentTables() []string {
+	ddls := []string{}
+
+	obsoletedTables := []*Table{}
+	for _, currentTable := range g.currentTables {
+		if findTableByName(g.desiredTables, currentTable.name) == nil {
+			obsoletedTables = append(obsoletedTables, currentTable)
+		}
+	}
+
+	for len(obsoletedTables) > 0 {
+		target := obsoletedTables[0]
+		for _, table := range obsoletedTables {
+			if !isReferredTable(table, obsoletedTables) {
+				target = table
+				break
+			}
+		}
+
+		// Foreign keys still remain here only when they are circular.
+		for _, table := range obsoletedTables {
+			for _, foreignKey := range table.foreignKeys {
+				if table.name == target.name || !isReferenceTo(foreignKey, target) {
+					continue
+				}
+				ddls = append(ddls, g.generateDDLsForAbsentForeignKey(foreignKey, *table, Table{})...)
+			}
+		}
+
+		ddls = append(ddls, fmt.Sprintf("DROP TABLE %s", g.escapeTableName(target.name)))
+		obsoletedTables = removeTableByName(obsoletedTables, target.name)
+		g.currentTables = removeTableByName(g.currentTables, target.name)
+	}
+
+	return ddls
 }
 
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
@@ -1194,6 +1249,25 @@ func findTableByName(tables []*Table, name string) *Table {
 	return nil
 }
 
+func isReferredTable(target *Table, tables []*Table) bool {
+	for _, table := range tables {
+		if table.name == target.name {
+			continue
+		}
+		for _, foreignKey := range table.foreignKeys {
+			if isReferenceTo(foreignKey, target) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+func isReferenceTo(foreignKey ForeignKey, table *Table) bool {
+	// Table names may have a schema while references don't.
+	return table.name == foreignKey.referenceName || strings.HasSuffix(table.name, "."+foreignKey.referenceName)
+}
+
 func findColumnByName(columns []Column, name string) *Column {
 	for _, column := range columns {
 		if column.name == name {
-- 
2.43.0


From 3dd162754a6f9cd356ffcb2ee470c6285d276429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 04/56] fix: write default values as they were specified

Quotes and backslashes of strings were not escaped, numbers lost precision or
overflowed, bit strings were cut to one bit, and booleans were an error.
---
 schema/generator.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 665af34..bd70077 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -400,7 +400,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
 					} else {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -469,7 +469,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 					if desiredColumn.defaultDef != nil {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -873,7 +873,7 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.defaultDef != nil && column.defaultDef.value != nil {
-		def, err := generateDefaultDefinition(*column.defaultDef.value)
+		def, err := g.generateDefaultDefinition(*column.defaultDef.value)
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
@@ -1711,23 +1711,27 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
-func generateDefaultDefinition(defaultVal Value) (string, error) {
+func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
-	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
-	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
+		return fmt.Sprintf("DEFAULT %s", g.quoteString(defaultVal.strVal)), nil
+	case ValueTypeInt, ValueTypeFloat, ValueTypeHexNum, ValueTypeBool:
+		// Use the literal as is. Numbers may not fit in Go's types.
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
+	case ValueTypeHex:
+		return fmt.Sprintf("DEFAULT X'%s'", string(defaultVal.raw)), nil
 	case ValueTypeBit:
-		if defaultVal.bitVal {
-			return "DEFAULT b'1'", nil
-		} else {
-			return "DEFAULT b'0'", nil
-		}
+		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
 		return "", fmt.Errorf("unsupported default value type (valueType: '%d')", defaultVal.valueType)
 	}
 }
+
+func (g *Generator) quoteString(str string) string {
+	if g.mode == GeneratorModeMysql {
+		str = strings.Replace(str, "\\", "\\\\", -1)
+	}
+	return "'" + strings.Replace(str, "'", "''", -1) + "'"
+}
-- 
2.43.0


From b24ae2be4961e9318b35a2cdd8e97de4930c990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 05/56] fix: allow moving the primary key to another column
 given inline

The key is already replaced by then, as with a table-level PRIMARY KEY.
---
 schema/generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index bd70077..bccd498 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -797,6 +797,8 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 			if g.mode == GeneratorModeMssql && (primaryKeyColumn == nil || primaryKeyColumn.name != currentIndex.columns[0].column) {
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name)))
 			}
+		} else if g.mode == GeneratorModeMysql || g.mode == GeneratorModePostgres {
+			// The primary key has been replaced together with the columns.
 		} else if primaryKeyColumn.name != currentIndex.columns[0].column { // TODO: check length of currentIndex.columns
 			// TODO: handle this. Rename primary key column...?
 			return ddls, fmt.Errorf(
-- 
2.43.0


From 90ef659dda54d541d407edd988bd0d868b8589dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 06/56] fix: drop obsolete composite unique keys starting with
 a UNIQUE column

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index bccd498..644ccc5 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -809,7 +809,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	} else if currentIndex.unique {
 		var uniqueKeyColumn *Column
 		for _, column := range desiredTable.columns {
-			if column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
+			if len(currentIndex.columns) == 1 && column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
 				uniqueKeyColumn = &column
 				break
 			}
-- 
2.43.0


From 07cc2b357ac50bcbd43bff7e83dac603c1944a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 07/56] fix: detect a changed scale of a column type

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 644ccc5..d702227 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1358,8 +1358,8 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) && // also only when both are set explicitly
 		current.array == desired.array
-	// TODO: scale
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From 34397f2a3e91257c8a05ff44fe19f78344d3a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 08/56] fix: recreate views by their original statement

The definition printed by the parser is for MySQL, and SQLite and SQL Server
do not necessarily understand it in the same way.
---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index d702227..b7fb64e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -700,7 +700,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
-				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
+				ddls = append(ddls, desiredView.statement)
 			} else {
 				ddls = append(ddls, fmt.Sprintf("CREATE OR REPLACE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
 			}
-- 
2.43.0


From 2dbe09bbd06f0d6fec15ba669bb5692f9827e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 09/56] fix: write strings in expressions as they were
 specified

CHECK constraints, conditions of indexes and views of PostgreSQL, SQL Server
and SQLite were printed with MySQL's escapes of quotes and backslashes.
---
 schema/generator.go |  6 +++---
 schema/parser.go    | 37 +++++++++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index b7fb64e..f393845 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1716,7 +1716,7 @@ func generateSequenceClause(sequence *Sequence) string {
 func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT %s", g.quoteString(defaultVal.strVal)), nil
+		return fmt.Sprintf("DEFAULT %s", quoteString(g.mode, defaultVal.strVal)), nil
 	case ValueTypeInt, ValueTypeFloat, ValueTypeHexNum, ValueTypeBool:
 		// Use the literal as is. Numbers may not fit in Go's types.
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
@@ -1731,8 +1731,8 @@ func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error)
 	}
 }
 
-func (g *Generator) quoteString(str string) string {
-	if g.mode == GeneratorModeMysql {
+func quoteString(mode GeneratorMode, str string) string {
+	if mode == GeneratorModeMysql {
 		str = strings.Replace(str, "\\", "\\\\", -1)
 	}
 	return "'" + strings.Replace(str, "'", "''", -1) + "'"
diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..b8b1aa4 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -121,7 +121,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-				definition:        sqlparser.String(parsedCol.Type.Check.Where.Expr),
+				definition:        formatNode(mode, parsedCol.Type.Check.Where.Expr),
 				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
@@ -209,7 +209,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	}, nil
 }
 
-func parseIndex(stmt *sqlparser.DDL) (Index, error) {
+func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	if stmt.IndexSpec == nil {
 		return Index{}, fmt.Errorf("stmt.IndexSpec was null on parseIndex: %#v", stmt)
 	}
@@ -237,7 +237,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 		if parenExpr, ok := expr.(*sqlparser.ParenExpr); ok {
 			expr = parenExpr.Expr
 		}
-		where = sqlparser.String(expr)
+		where = formatNode(mode, expr)
 	}
 
 	includedColumns := []string{}
@@ -276,6 +276,23 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 	}, nil
 }
 
+// Print a node like `sqlparser.String`, whose string literals are for MySQL.
+func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
+	if mode == GeneratorModeMysql || node == nil {
+		return sqlparser.String(node)
+	}
+
+	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
+		if val, ok := node.(*sqlparser.SQLVal); ok && val.Type == sqlparser.StrVal {
+			buf.WriteString(quoteString(mode, string(val.Val)))
+		} else {
+			node.Format(buf)
+		}
+	})
+	buf.Myprintf("%v", node)
+	return buf.String()
+}
+
 // Parse DDL like `CREATE TABLE` or `ALTER TABLE`.
 // This doesn't support destructive DDL like `DROP TABLE`.
 func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
@@ -311,7 +328,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				table:     table,
 			}, nil
 		} else if stmt.Action == "create index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -321,7 +338,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -331,7 +348,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add primary key" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -371,10 +388,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = sqlparser.String(stmt.Policy.Using.Expr)
+				using = formatNode(mode, stmt.Policy.Using.Expr)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = sqlparser.String(stmt.Policy.WithCheck.Expr)
+				withCheck = formatNode(mode, stmt.Policy.WithCheck.Expr)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -392,12 +409,12 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &View{
 				statement:  ddl,
 				name:       stmt.View.Name.Name.String(),
-				definition: sqlparser.String(stmt.View.Definition),
+				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
-				body = append(body, sqlparser.String(triggerStatement))
+				body = append(body, formatNode(mode, triggerStatement))
 			}
 
 			return &Trigger{
-- 
2.43.0


From aa11dccbdd9151d309302ac7cb6e805abb7e6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 10/56] fix: detect changes of string cases in views and
 policies

String literals were compared regardless of cases, and the rest of a policy
was not compared at all when its expressions differ only in parentheses.
---
 schema/generator.go | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index f393845..8f017e6 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -669,7 +669,7 @@ func (g *Generator) generateDDLsForCreatePolicy(tableName string, desiredPolicy
 		currentTable.policies = append(currentTable.policies, desiredPolicy)
 	} else {
 		// policy found. If it's different, drop and add or alter policy.
-		if !areSamePolicies(*currentPolicy, desiredPolicy) {
+		if !g.areSamePolicies(*currentPolicy, desiredPolicy) {
 			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(currentPolicy.name), g.escapeTableName(currentTable.name)))
 			ddls = append(ddls, statement)
 		}
@@ -697,7 +697,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		ddls = append(ddls, desiredView.statement)
 	} else {
 		// View found. If it's different, create or replace view.
-		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
+		if !g.areSameExpressions(currentView.definition, desiredView.definition) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, desiredView.statement)
@@ -1525,18 +1525,48 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	return true
 }
 
-func areSamePolicies(policyA, policyB Policy) bool {
+// Cases are ignored except for string literals.
+func (g *Generator) areSameExpressions(exprA, exprB string) bool {
+	return g.lowerExceptStrings(exprA) == g.lowerExceptStrings(exprB)
+}
+
+func (g *Generator) lowerExceptStrings(expr string) string {
+	var builder strings.Builder
+	start := 0 // of the current string literal, or of what is between them
+	inString := false
+	for i := 0; i < len(expr); i++ {
+		if inString && expr[i] == '\\' && g.mode == GeneratorModeMysql {
+			i++ // escaped
+		} else if expr[i] == '\'' {
+			if inString {
+				builder.WriteString(expr[start:i])
+			} else {
+				builder.WriteString(strings.ToLower(expr[start:i]))
+			}
+			start = i
+			inString = !inString
+		}
+	}
+	if inString {
+		builder.WriteString(expr[start:])
+	} else {
+		builder.WriteString(strings.ToLower(expr[start:]))
+	}
+	return builder.String()
+}
+
+func (g *Generator) areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
 		return false
 	}
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
+	if !g.areSameExpressions(policyA.using, policyB.using) && !g.areSameExpressions(fmt.Sprintf("(%s)", policyA.using), policyB.using) {
+		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if !g.areSameExpressions(policyA.withCheck, policyB.withCheck) && !g.areSameExpressions(fmt.Sprintf("(%s)", policyA.withCheck), policyB.withCheck) {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
-- 
2.43.0


From b9e993e56cbeb747b734cb3f8231c65a0304bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 11/56] fix: drop obsolete views before obsolete columns

SQLite refuses to drop a column while an obsolete view uses it, or while a
view refers to a table that has been dropped.
---
 schema/generator.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 8f017e6..32e6198 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -168,6 +168,11 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	// Clean up obsoleted tables
 	ddls = append(ddls, g.generateDDLsForAbsentTables()...)
 
+	// Clean up obsoleted views. SQLite doesn't drop columns while a view refers to an inexistent table or column.
+	if g.mode != GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
 	// Clean up obsoleted indexes, columns
 	for _, currentTable := range g.currentTables {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
@@ -209,11 +214,6 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
-	// Clean up obsoleted views
-	if g.mode != GeneratorModePostgres {
-		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
-	}
-
 	return ddls, nil
 }
 
-- 
2.43.0


From 7535cc9abd33b8ef0e3201a29a63e048c1d95718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 12/56] fix: keep backslashes in string literals of standard
 SQL

Only MySQL takes them as escapes.
---
 sqlparser/token.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index fb64320..c039be1 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -849,6 +849,12 @@ exit:
 }
 
 func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
+	// A backslash is an ordinary character of standard SQL strings.
+	escape := uint16('\\')
+	if tkn.mode != ParserModeMysql {
+		escape = eofChar
+	}
+
 	var buffer bytes2.Buffer
 	for {
 		ch := tkn.lastChar
@@ -857,14 +863,14 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 			return LEX_ERROR, buffer.Bytes()
 		}
 
-		if ch != delim && ch != '\\' {
+		if ch != delim && ch != escape {
 			buffer.WriteByte(byte(ch))
 
 			// Scan ahead to the next interesting character.
 			start := tkn.bufPos
 			for ; tkn.bufPos < tkn.bufSize; tkn.bufPos++ {
 				ch = uint16(tkn.buf[tkn.bufPos])
-				if ch == delim || ch == '\\' {
+				if ch == delim || ch == escape {
 					break
 				}
 			}
@@ -884,7 +890,7 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 		}
 		tkn.next() // Read one past the delim or escape character.
 
-		if ch == '\\' {
+		if ch == escape {
 			if tkn.lastChar == eofChar {
 				// String terminates mid escape character.
 				return LEX_ERROR, buffer.Bytes()
-- 
2.43.0


From b3d39cb33abd6b87c09380342241df9abf93bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 13/56] fix: escape separators of GROUP_CONCAT

---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..1b0a5e7 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -7217,7 +7217,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line sqlparser/parser.y:3342
 		{
-			yyVAL.str = " separator '" + string(yyDollar[2].bytes) + "'"
+			yyVAL.str = " separator " + String(NewStrVal(yyDollar[2].bytes))
 		}
 	case 651:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..1701b16 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -3340,7 +3340,7 @@ separator_opt:
   }
 | SEPARATOR STRING
   {
-    $$ = " separator '"+string($2)+"'"
+    $$ = " separator " + String(NewStrVal($2))
   }
 
 when_expression_list:
-- 
2.43.0


From 8841c6509ad71c20830866374bb01b3f9ecb9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 14/56] fix: keep the minus signs of negated negative numbers
 apart

---
 sqlparser/ast.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 299e0ec..6121359 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2736,6 +2736,11 @@ func (node *UnaryExpr) Format(buf *TrackedBuffer) {
 		buf.Myprintf("%s %v", node.Operator, node.Expr)
 		return
 	}
+	if val, ok := node.Expr.(*SQLVal); ok && node.Operator == UMinusStr && len(val.Val) > 0 && val.Val[0] == '-' {
+		// "--" would start a comment
+		buf.Myprintf("%s %v", node.Operator, node.Expr)
+		return
+	}
 	buf.Myprintf("%s%v", node.Operator, node.Expr)
 }
 
-- 
2.43.0


From ad723e01441e028bb57dacb3bed32bfa5f49edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 15/56] fix: walk ORDER BY and LIMIT of unions

---
 sqlparser/ast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 6121359..f6b87fd 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -435,6 +435,8 @@ func (node *Union) walkSubtree(visit Visit) error {
 		visit,
 		node.Left,
 		node.Right,
+		node.OrderBy,
+		node.Limit,
 	)
 }
 
-- 
2.43.0


From 2c5c6fa3eedc08046c45204e101977efeb67bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 16/56] fix: keep the signs of negated negative variables apart

---
 sqlparser/parsed_query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/parsed_query.go b/sqlparser/parsed_query.go
index b0f9b72..fa6d0c5 100644
--- a/sqlparser/parsed_query.go
+++ b/sqlparser/parsed_query.go
@@ -61,6 +61,10 @@ func (pq *ParsedQuery) GenerateQuery(bindVariables map[string]*querypb.BindVaria
 			if err != nil {
 				return nil, err
 			}
+			// The minus signs of a negated negative value would start a comment.
+			if b := buf.Bytes(); len(b) > 0 && b[len(b)-1] == '-' && len(supplied.Value) > 0 && supplied.Value[0] == '-' {
+				buf.WriteByte(' ')
+			}
 			EncodeValue(buf, supplied)
 		}
 		current = loc.offset + loc.length
-- 
2.43.0


From 33a8fb9e41c7381c6bea714916ed2c1fc39acb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 17/56] fix: split schema files only outside of quotes and
 comments

---
 schema/parser.go | 74 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 10 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index b8b1aa4..d0d0c2f 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -4,7 +4,6 @@ package schema
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -439,18 +438,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
-	re := regexp.MustCompilePOSIX("^--.*")
-	str = re.ReplaceAllString(str, "")
-
-	ddls := strings.Split(str, ";")
+	ddls := splitDDLs(mode, str)
 	result := []DDL{}
 
 	for _, ddl := range ddls {
-		ddl = strings.TrimSpace(ddl) // TODO: trim trailing comment as well, or ignore it by parser somehow?
-		if len(ddl) == 0 {
-			continue
-		}
-
 		parsed, err := parseDDL(mode, ddl)
 		if err != nil {
 			return result, err
@@ -460,6 +451,69 @@ func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	return result, nil
 }
 
+// Split `str` at the semicolons outside of quotes and comments. Lines of `--` comments
+// are removed, and so are pieces of nothing but blanks and comments.
+func splitDDLs(mode GeneratorMode, str string) []string {
+	ddls := []string{}
+	ddl := strings.Builder{}
+	empty := true
+	for i := 0; i < len(str); {
+		length := 1
+		switch rest := str[i:]; {
+		case rest[0] == ';':
+			if !empty {
+				ddls = append(ddls, strings.TrimSpace(ddl.String()))
+			}
+			ddl.Reset()
+			empty = true
+			i++
+			continue
+		case strings.HasPrefix(rest, "--"), rest[0] == '#' && mode == GeneratorModeMysql:
+			if length = strings.IndexByte(rest, '\n'); length < 0 {
+				length = len(rest)
+			}
+			if rest[0] == '-' && (i == 0 || str[i-1] == '\n') {
+				i += length
+				continue
+			}
+		case strings.HasPrefix(rest, "/*"):
+			if end := strings.Index(rest[2:], "*/"); end >= 0 {
+				length = end + 4
+				empty = empty && rest[2] != '!'
+			} else {
+				length = len(rest)
+				empty = false
+			}
+		case rest[0] == '\'', rest[0] == '"', rest[0] == '`' && mode != GeneratorModePostgres:
+			length = quotedLength(rest, rest[0], mode == GeneratorModeMysql && rest[0] != '`')
+			empty = false
+		case rest[0] == '[' && mode == GeneratorModeMssql:
+			length = quotedLength(rest, ']', false)
+			empty = false
+		default:
+			empty = empty && strings.TrimSpace(rest[:1]) == ""
+		}
+		ddl.WriteString(str[i : i+length])
+		i += length
+	}
+	if !empty {
+		ddls = append(ddls, strings.TrimSpace(ddl.String()))
+	}
+	return ddls
+}
+
+// The length of the quoted token at the beginning of `str`, including its quotes.
+func quotedLength(str string, end byte, backslash bool) int {
+	for i := 1; i < len(str); i++ {
+		if str[i] == '\\' && backslash {
+			i++
+		} else if str[i] == end {
+			return i + 1
+		}
+	}
+	return len(str)
+}
+
 // Replace pseudo collation "binary" with "{charset}_bin"
 func normalizeCollate(collate string, table sqlparser.TableSpec) string {
 	if collate == "binary" {
-- 
2.43.0


From dfa3403da1ca815d928baea103d335b393af775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 18/56] fix: accept comments without text

---
 sqlparser/comments.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlparser/comments.go b/sqlparser/comments.go
index a0f7f1b..9f63408 100644
--- a/sqlparser/comments.go
+++ b/sqlparser/comments.go
@@ -170,6 +170,9 @@ func ExtractMysqlComment(sql string) (version string, innerSQL string) {
 		digitCount++
 		return !unicode.IsDigit(c) || digitCount == 6
 	})
+	if endOfVersionIndex < 0 {
+		endOfVersionIndex = len(sql)
+	}
 	version = sql[0:endOfVersionIndex]
 	innerSQL = strings.TrimFunc(sql[endOfVersionIndex:], unicode.IsSpace)
 
@@ -197,7 +200,7 @@ func ExtractCommentDirectives(comments Comments) CommentDirectives {
 
 	for _, comment := range comments {
 		commentStr := string(comment)
-		if commentStr[0:5] != commentDirectivePreamble {
+		if !strings.HasPrefix(commentStr, commentDirectivePreamble) {
 			continue
 		}
 
-- 
2.43.0


From dbdd7d889d37f72556aea326b4f019d7f3a88f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 19/56] fix: read streams in the mode of strings

---
 sqlparser/token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index c039be1..e4bdba2 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -78,6 +78,7 @@ func NewTokenizer(r io.Reader) *Tokenizer {
 	return &Tokenizer{
 		InStream: r,
 		buf:      make([]byte, defaultBufSize),
+		mode:     ParserModeMysql,
 	}
 }
 
-- 
2.43.0


From 57f0cefe6a5682fa371d874b1518d0a1f656f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 20/56] fix: do not split inside MySQL comments

---
 sqlparser/ast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index f6b87fd..ef254b5 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -107,6 +107,9 @@ func SplitStatement(blob string) (string, string, error) {
 	tkn := 0
 	for {
 		tkn, _ = tokenizer.Scan()
+		if tkn == ';' && tokenizer.specialComment != nil {
+			continue // inside /*! */
+		}
 		if tkn == 0 || tkn == ';' || tkn == eofChar {
 			break
 		}
@@ -131,6 +134,9 @@ func SplitStatementToPieces(blob string) (pieces []string, err error) {
 	stmtBegin := 0
 	for {
 		tkn, _ = tokenizer.Scan()
+		if tkn == ';' && tokenizer.specialComment != nil {
+			continue // inside /*! */
+		}
 		if tkn == ';' {
 			stmt = blob[stmtBegin : tokenizer.Position-2]
 			pieces = append(pieces, stmt)
-- 
2.43.0


From 1d61c8ac438d90bbd46ffeaf94fc297a9ec1b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 21/56] fix: skip only statements with DROP as a keyword

--skip-drop also skipped statements with DROP in a name, a string or a comment.
---
 adapter/database.go | 19 ++++++++++++++++++-
 sqldef.go           |  3 +--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..1234c00 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -4,6 +4,7 @@ package adapter
 import (
 	"database/sql"
 	"fmt"
+	"regexp"
 	"strings"
 )
 
@@ -64,7 +65,7 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	}
 	fmt.Println("-- Apply --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && IsDropDDL(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
@@ -77,3 +78,19 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	transaction.Commit()
 	return nil
 }
+
+// A string literal, a comment, a quoted name, or a word. `DROP` can be a keyword only as a word.
+var ddlTokenRegexp = regexp.MustCompile("(?s)'|--[^\n]*|/\\*.*?\\*/|\"[^\"]*\"|`[^`]*`|\\[[^\\]]*\\]|[\\p{L}\\p{N}_$]+")
+
+// Whether `ddl` drops something. `DROP` in a name, a string or a comment doesn't count.
+func IsDropDDL(ddl string) bool {
+	for _, token := range ddlTokenRegexp.FindAllString(ddl, -1) {
+		if token == "'" {
+			return false // `DROP` never follows a string literal
+		}
+		if strings.EqualFold(token, "DROP") {
+			return true
+		}
+	}
+	return false
+}
diff --git a/sqldef.go b/sqldef.go
index b5e7241..4029704 100644
--- a/sqldef.go
+++ b/sqldef.go
@@ -5,7 +5,6 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
-	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
 	"github.com/k0kubun/sqldef/schema"
@@ -85,7 +84,7 @@ func readFile(filepath string) (string, error) {
 func showDDLs(ddls []string, skipDrop bool) {
 	fmt.Println("-- dry run --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && adapter.IsDropDDL(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
-- 
2.43.0


From 45d302edde0694d895786d5b04818378f733b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 22/56] fix: report errors of COMMIT

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 1234c00..957a67f 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -75,8 +75,7 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
 
 // A string literal, a comment, a quoted name, or a word. `DROP` can be a keyword only as a word.
-- 
2.43.0


From 8872aa80f7c4077563fd73c6425aa0edd6ff5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 23/56] fix: connect with any characters in user, password and
 socket

MySQL DSNs cannot have a colon in the user name. PostgreSQL URLs were
made with "+" for blanks, and a socket directory became a part of the
database name.
---
 adapter/mysql/mysql.go       |  9 +++++----
 adapter/postgres/postgres.go | 25 ++++++++++++++-----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..ef141f2 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -14,13 +14,14 @@ type MysqlDatabase struct {
 }
 
 func NewDatabase(config adapter.Config) (adapter.Database, error) {
-	db, err := sql.Open("mysql", mysqlBuildDSN(config))
+	// Not `sql.Open`, because DSNs can't have some characters like ":" in a user name
+	connector, err := driver.NewConnector(mysqlBuildConfig(config))
 	if err != nil {
 		return nil, err
 	}
 
 	return &MysqlDatabase{
-		db:     db,
+		db:     sql.OpenDB(connector),
 		config: config,
 	}, nil
 }
@@ -104,7 +105,7 @@ func (d *MysqlDatabase) Close() error {
 	return d.db.Close()
 }
 
-func mysqlBuildDSN(config adapter.Config) string {
+func mysqlBuildConfig(config adapter.Config) *driver.Config {
 	c := driver.NewConfig()
 	c.User = config.User
 	c.Passwd = config.Password
@@ -116,5 +117,5 @@ func mysqlBuildDSN(config adapter.Config) string {
 		c.Net = "unix"
 		c.Addr = config.Socket
 	}
-	return c.FormatDSN()
+	return c
 }
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..00c20de 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -412,27 +412,30 @@ func (d *PostgresDatabase) Close() error {
 }
 
 func postgresBuildDSN(config adapter.Config) string {
-	user := config.User
-	password := config.Password
-	database := config.DbName
-	host := ""
+	u := &url.URL{
+		Scheme: "postgres",
+		User:   url.UserPassword(config.User, config.Password),
+		Path:   "/" + config.DbName,
+	}
+
+	options := url.Values{}
 	if config.Socket == "" {
-		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		u.Host = fmt.Sprintf("%s:%d", config.Host, config.Port)
 	} else {
-		host = config.Socket
+		options.Set("host", config.Socket)
+		options.Set("port", fmt.Sprint(config.Port))
 	}
 
-	var options []string
 	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
+		options.Set("sslmode", sslmode)
 	}
 
 	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+		options.Set("sslrootcert", sslrootcert)
 	}
 
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	u.RawQuery = options.Encode()
+	return u.String()
 }
 
 func splitTableName(table string) (string, string) {
-- 
2.43.0


From 296e5fd6104b29159021f4aa652932b75dd56990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 24/56] fix: don't unquote users and passwords given by flags

---
 cmd/mssqldef/mssqldef.go | 4 ++--
 cmd/mysqldef/mysqldef.go | 4 ++--
 cmd/psqldef/psqldef.go   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/mssqldef/mssqldef.go b/cmd/mssqldef/mssqldef.go
index b99b028..34d4d3d 100644
--- a/cmd/mssqldef/mssqldef.go
+++ b/cmd/mssqldef/mssqldef.go
@@ -20,8 +20,8 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"MSSQL user name" value-name:"user_name" default:"sa"`
-		Password string `short:"P" long:"password" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password"`
+		User     string `short:"U" long:"user" description:"MSSQL user name" value-name:"user_name" default:"sa" unquote:"false"`
+		Password string `short:"P" long:"password" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password" unquote:"false"`
 		Host     string `short:"h" long:"host" description:"Host to connect to the MSSQL server" value-name:"host_name" default:"127.0.0.1"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port_num" default:"1433"`
 		Prompt   bool   `long:"password-prompt" description:"Force MSSQL user password prompt"`
diff --git a/cmd/mysqldef/mysqldef.go b/cmd/mysqldef/mysqldef.go
index 700dc9a..c5254f3 100644
--- a/cmd/mysqldef/mysqldef.go
+++ b/cmd/mysqldef/mysqldef.go
@@ -20,8 +20,8 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"u" long:"user" description:"MySQL user name" value-name:"user_name" default:"root"`
-		Password string `short:"p" long:"password" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password"`
+		User     string `short:"u" long:"user" description:"MySQL user name" value-name:"user_name" default:"root" unquote:"false"`
+		Password string `short:"p" long:"password" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password" unquote:"false"`
 		Host     string `short:"h" long:"host" description:"Host to connect to the MySQL server" value-name:"host_name" default:"127.0.0.1"`
 		Port     uint   `short:"P" long:"port" description:"Port used for the connection" value-name:"port_num" default:"3306"`
 		Socket   string `short:"S" long:"socket" description:"The socket file to use for connection" value-name:"socket"`
diff --git a/cmd/psqldef/psqldef.go b/cmd/psqldef/psqldef.go
index 220153e..5e20981 100644
--- a/cmd/psqldef/psqldef.go
+++ b/cmd/psqldef/psqldef.go
@@ -20,8 +20,8 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"PostgreSQL user name" value-name:"username" default:"postgres"`
-		Password string `short:"W" long:"password" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password"`
+		User     string `short:"U" long:"user" description:"PostgreSQL user name" value-name:"username" default:"postgres" unquote:"false"`
+		Password string `short:"W" long:"password" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password" unquote:"false"`
 		Host     string `short:"h" long:"host" description:"Host or socket directory to connect to the PostgreSQL server" value-name:"hostname" default:"127.0.0.1"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port" default:"5432"`
 		Prompt   bool   `long:"password-prompt" description:"Force PostgreSQL user password prompt"`
-- 
2.43.0


From 603db0a35427ffd648269726736dcde97777739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 25/56] fix: write all options of an added index

USING had no value, which crashed, and comments were not quoted.
---
 schema/generator.go | 14 ++++++++++----
 schema/parser.go    | 40 ++++++++++++++++++++--------------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 32e6198..9e1ba33 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1012,11 +1012,17 @@ func (g *Generator) generateIndexOptionDefinition(indexOptions []IndexOption) st
 	if len(indexOptions) > 0 {
 		switch g.mode {
 		case GeneratorModeMysql:
-			indexOption := indexOptions[0]
-			if indexOption.optionName == "parser" {
-				indexOption.optionName = "WITH " + indexOption.optionName
+			for _, indexOption := range indexOptions {
+				optionName := indexOption.optionName
+				optionValue := string(indexOption.value.raw)
+				switch optionName {
+				case "parser":
+					optionName = "WITH " + optionName
+				case "comment":
+					optionValue = quoteString(g.mode, optionValue)
+				}
+				optionDefinition += fmt.Sprintf(" %s %s", optionName, optionValue)
 			}
-			optionDefinition = fmt.Sprintf(" %s %s", indexOption.optionName, string(indexOption.value.raw))
 		case GeneratorModeMssql:
 			options := []string{}
 			for _, indexOption := range indexOptions {
diff --git a/schema/parser.go b/schema/parser.go
index d0d0c2f..052941f 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -146,16 +146,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			)
 		}
 
-		indexOptions := []IndexOption{}
-		for _, option := range indexDef.Options {
-			indexOptions = append(
-				indexOptions,
-				IndexOption{
-					optionName: option.Name,
-					value:      parseValue(option.Value),
-				},
-			)
-		}
+		indexOptions := parseIndexOptions(indexDef.Options)
 
 		indexPartition := IndexPartition{}
 		if indexDef.Partition != nil {
@@ -244,16 +235,7 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 		includedColumns = append(includedColumns, includedColumn.String())
 	}
 
-	indexOptions := []IndexOption{}
-	for _, option := range stmt.IndexSpec.Options {
-		indexOptions = append(
-			indexOptions,
-			IndexOption{
-				optionName: option.Name,
-				value:      parseValue(option.Value),
-			},
-		)
-	}
+	indexOptions := parseIndexOptions(stmt.IndexSpec.Options)
 
 	indexParition := IndexPartition{}
 	if stmt.IndexSpec.Partition != nil {
@@ -275,6 +257,24 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	}, nil
 }
 
+func parseIndexOptions(options []*sqlparser.IndexOption) []IndexOption {
+	indexOptions := []IndexOption{}
+	for _, option := range options {
+		value := parseValue(option.Value)
+		if option.Using != "" {
+			value = &Value{valueType: ValueTypeStr, raw: []byte(strings.ToUpper(option.Using))}
+		}
+		indexOptions = append(
+			indexOptions,
+			IndexOption{
+				optionName: option.Name,
+				value:      value,
+			},
+		)
+	}
+	return indexOptions
+}
+
 // Print a node like `sqlparser.String`, whose string literals are for MySQL.
 func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	if mode == GeneratorModeMysql || node == nil {
-- 
2.43.0


From 8f473bd19620ba03ffa254a52cfc35464e6b2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 26/56] fix: drop a redundant unique key of a column with
 UNIQUE

---
 schema/generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 9e1ba33..452e0bd 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -810,6 +810,13 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 		var uniqueKeyColumn *Column
 		for _, column := range desiredTable.columns {
 			if len(currentIndex.columns) == 1 && column.name == currentIndex.columns[0].column && column.keyOption.isUnique() {
+				// The key of the column itself is named like the column.
+				if g.mode == GeneratorModeMysql && currentIndex.name != column.name {
+					columnIndex := findIndexByName(currentTable.indexes, column.name)
+					if columnIndex != nil && columnIndex.unique && len(columnIndex.columns) == 1 && columnIndex.columns[0].column == column.name {
+						break
+					}
+				}
 				uniqueKeyColumn = &column
 				break
 			}
-- 
2.43.0


From 62a672f1099648f6d95251b2c67e90c08c343e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 27/56] fix: don't crash on NOT FOR REPLICATION without
 IDENTITY

---
 sqlparser/parser.go | 4 ++++
 sqlparser/parser.y  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 1b0a5e7..2b183ed 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4218,6 +4218,10 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line sqlparser/parser.y:1017
 		{
+			if yyDollar[1].columnType.Identity == nil {
+				yylex.Error("expecting identity before not for replication")
+				return 1
+			}
 			yyDollar[1].columnType.Identity.NotForReplication = true
 			yyVAL.columnType = yyDollar[1].columnType
 		}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 1701b16..4f0b0e1 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1015,6 +1015,10 @@ column_definition_type:
 // for MSSQL: IDENTITY(N,M) NOT FOR REPLICATION
 | column_definition_type NOT FOR REPLICATION
   {
+    if $1.Identity == nil {
+      yylex.Error("expecting identity before not for replication")
+      return 1
+    }
     $1.Identity.NotForReplication = true
     $$ = $1
   }
-- 
2.43.0


From 4c7b757ce0f37ca8fe3db2c357d575bdb695766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 28/56] fix: don't crash when formatting a type cast without
 operand

---
 sqlparser/ast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index ef254b5..0b28602 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2998,6 +2998,10 @@ type ConvertExpr struct {
 
 // Format formats the node.
 func (node *ConvertExpr) Format(buf *TrackedBuffer) {
+	if node.Expr == nil {
+		buf.Myprintf("::%v", node.Type)
+		return
+	}
 	buf.Myprintf("convert(%v, %v)", node.Expr, node.Type)
 }
 
-- 
2.43.0


From f50291d3d0062eaee320eb813d44c00f753bf274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 29/56] fix: quote names in the dump of PostgreSQL as needed

---
 adapter/postgres/postgres.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 00c20de..f1c4c80 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -10,7 +10,7 @@ import (
 	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
-	_ "github.com/lib/pq"
+	"github.com/lib/pq"
 )
 
 const indent = "    "
@@ -85,7 +85,7 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(
 			ddls, fmt.Sprintf(
-				"CREATE VIEW %s AS %s", schema+"."+name, definition,
+				"CREATE VIEW %s AS %s", quoteIdent(schema)+"."+quoteIdent(name), definition,
 			),
 		)
 	}
@@ -122,13 +122,14 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 
 func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
 	var queryBuilder strings.Builder
-	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
+	schema, name := splitTableName(table)
+	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s.%s (", quoteIdent(schema), quoteIdent(name))
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
-		fmt.Fprintf(&queryBuilder, "\"%s\" %s", col.Name, col.GetDataType())
+		fmt.Fprintf(&queryBuilder, "%s %s", pq.QuoteIdentifier(col.Name), col.GetDataType())
 		if col.Length > 0 {
 			fmt.Fprintf(&queryBuilder, "(%d)", col.Length)
 		}
@@ -150,7 +151,11 @@ func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, fore
 	}
 	if len(pkeyCols) > 0 {
 		fmt.Fprint(&queryBuilder, ",\n"+indent)
-		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (\"%s\")", strings.Join(pkeyCols, "\", \""))
+		quotedCols := make([]string, 0, len(pkeyCols))
+		for _, col := range pkeyCols {
+			quotedCols = append(quotedCols, pq.QuoteIdentifier(col))
+		}
+		fmt.Fprintf(&queryBuilder, "PRIMARY KEY (%s)", strings.Join(quotedCols, ", "))
 	}
 	fmt.Fprintf(&queryBuilder, "\n);\n")
 	for _, v := range indexDefs {
@@ -246,7 +251,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 				return nil, err
 			}
 		}
-		col.Name = strings.Trim(colName, `" `)
+		col.Name = colName
 		if colDefault != nil {
 			col.Default = *colDefault
 		}
@@ -355,7 +360,8 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		def := fmt.Sprintf(
 			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s.%s(%s) ON UPDATE %s ON DELETE %s",
-			tableSchema, tableName, constraintName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule,
+			quoteIdent(tableSchema), quoteIdent(tableName), pq.QuoteIdentifier(constraintName), pq.QuoteIdentifier(columnName),
+			quoteIdent(foreignTableSchema), quoteIdent(foreignTableName), pq.QuoteIdentifier(foreignColumnName), foreignUpdateRule, foreignDeleteRule,
 		)
 		defs = append(defs, def)
 	}
@@ -389,8 +395,8 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		roles = policyRolesPrefixRegex.ReplaceAllString(roles, "")
 		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
 		def := fmt.Sprintf(
-			"CREATE POLICY %s ON %s AS %s FOR %s TO %s",
-			policyName, table, permissive, cmd, roles,
+			"CREATE POLICY %s ON %s.%s AS %s FOR %s TO %s",
+			pq.QuoteIdentifier(policyName), quoteIdent(schema), quoteIdent(table), permissive, cmd, roles,
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING %s", using.String)
@@ -447,3 +453,13 @@ func splitTableName(table string) (string, string) {
 	}
 	return schema, table
 }
+
+var plainIdent = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
+
+// Quote a name of a schema or what belongs to one, unless it's always the same without quotes
+func quoteIdent(name string) string {
+	if plainIdent.MatchString(name) {
+		return name
+	}
+	return pq.QuoteIdentifier(name)
+}
-- 
2.43.0


From 58e312ca6189fd671522301d28f9658d66577241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 30/56] fix: keep the schemas of PostgreSQL views

---
 adapter/postgres/postgres.go | 2 +-
 schema/parser.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f1c4c80..976c244 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -63,7 +63,7 @@ var (
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
 		`select table_schema, table_name, definition from information_schema.tables
-		 inner join pg_views on table_name = viewname
+		 inner join pg_views on table_schema = schemaname and table_name = viewname
 		 where table_schema not in ('information_schema', 'pg_catalog')
 		 and (table_schema != 'public' or table_name != 'pg_buffercache')
 		 and table_type = 'VIEW';`,
diff --git a/schema/parser.go b/schema/parser.go
index 052941f..3924c5c 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -407,7 +407,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 		} else if stmt.Action == "create view" {
 			return &View{
 				statement:  ddl,
-				name:       stmt.View.Name.Name.String(),
+				name:       normalizedTableName(mode, stmt.View.Name),
 				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
-- 
2.43.0


From 5df53af9b54f496ab1500848725a867712e4c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 31/56] fix: show casted default values of PostgreSQL as they
 can be parsed

---
 adapter/postgres/postgres.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 976c244..cf4cba3 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -253,7 +253,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		col.Name = colName
 		if colDefault != nil {
-			col.Default = *colDefault
+			col.Default = normalizeDefault(*colDefault)
 		}
 		col.IsUnique = isUnique
 		if colDefault != nil && strings.HasPrefix(*colDefault, "nextval(") {
@@ -273,6 +273,31 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	return cols, nil
 }
 
+var (
+	castedLiteral = regexp.MustCompile(`(?s)^('(?:[^']|'')*')::([a-z].*)$`)
+	quotedNumber  = regexp.MustCompile(`^'(-?[0-9]+(?:\.[0-9]+)?)'$`)
+)
+
+// PostgreSQL shows literals with the type of the column or the literal, like '-1'::integer.
+// They are shown as they can be specified in CREATE TABLE, unless the cast is parsable.
+func normalizeDefault(def string) string {
+	match := castedLiteral.FindStringSubmatch(def)
+	if match == nil {
+		return def
+	}
+	literal, dataType := match[1], match[2]
+
+	switch dataType {
+	case "character varying", "text", "bpchar":
+		return def
+	case "smallint", "integer", "bigint", "real", "double precision", "numeric":
+		if number := quotedNumber.FindStringSubmatch(literal); number != nil {
+			return number[1]
+		}
+	}
+	return literal
+}
+
 func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	const query = "SELECT indexName, indexdef FROM pg_indexes WHERE schemaname=$1 AND tablename=$2"
 	schema, table := splitTableName(table)
-- 
2.43.0


From de203ad9c2a3235028c152bfa3bf244106da4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 32/56] fix: add and drop UNIQUE of PostgreSQL columns as
 constraints

---
 schema/generator.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 452e0bd..9291e84 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -423,6 +423,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// UNIQUE of the column itself
+				if desiredColumn.keyOption.isUnique() && !currentColumn.keyOption.isUnique() {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ADD CONSTRAINT %s UNIQUE (%s)", g.escapeTableName(desired.table.name), g.escapeSQLName(uniqueConstraintName(desired.table.name, desiredColumn.name)), g.escapeSQLName(desiredColumn.name)))
+				}
+
 				// TODO: support adding a column's `references`
 			case GeneratorModeMssql:
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
@@ -822,6 +827,24 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 			}
 		}
 
+		if g.mode == GeneratorModePostgres && len(currentIndex.columns) == 1 {
+			// The key of UNIQUE in a column definition is a constraint, which can't be dropped as an index.
+			keyColumn := currentIndex.columns[0].column
+			currentColumn := findColumnByName(currentTable.columns, keyColumn)
+			if currentColumn != nil && currentColumn.keyOption.isUnique() {
+				constraintName := uniqueConstraintName(currentTable.name, keyColumn)
+				if currentIndex.name == constraintName {
+					if uniqueKeyColumn == nil {
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(constraintName)))
+					}
+					return ddls, nil
+				}
+				if findIndexByName(currentTable.indexes, constraintName) != nil {
+					uniqueKeyColumn = nil
+				}
+			}
+		}
+
 		if uniqueKeyColumn == nil {
 			// No unique column. Drop unique key index.
 			ddls = append(ddls, g.generateDropIndex(currentTable.name, currentIndex.name))
@@ -833,6 +856,16 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 	return ddls, nil
 }
 
+// Name of the constraint that PostgreSQL makes for UNIQUE in a column definition
+func uniqueConstraintName(tableName string, columnName string) string {
+	return fmt.Sprintf("%s_%s_key", withoutSchema(tableName), columnName)
+}
+
+func withoutSchema(tableName string) string {
+	schemaTable := strings.SplitN(tableName, ".", 2)
+	return schemaTable[len(schemaTable)-1]
+}
+
 func generateDataType(column Column) string {
 	suffix := ""
 	if column.array {
-- 
2.43.0


From 084280e5b54f948e45918613b2deaa0a38d73226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 33/56] fix: fold unquoted names of PostgreSQL to lower case

---
 sqlparser/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index e4bdba2..9e216dd 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -713,6 +713,10 @@ func (tkn *Tokenizer) scanIdentifier(firstByte byte, isDbSystemVariable bool) (i
 	if loweredStr == "dual" {
 		return ID, lowered
 	}
+	// PostgreSQL folds unquoted names to lower case
+	if tkn.mode == ParserModePostgres {
+		return ID, lowered
+	}
 	return ID, buffer.Bytes()
 }
 
-- 
2.43.0


From 54e559718fc0af16924cd3fb563bd4d09bbd43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 34/56] fix: write expressions of PostgreSQL and SQL Server in
 their syntax

---
 schema/parser.go | 51 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 3924c5c..9faa212 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -275,23 +275,64 @@ func parseIndexOptions(options []*sqlparser.IndexOption) []IndexOption {
 	return indexOptions
 }
 
-// Print a node like `sqlparser.String`, whose string literals are for MySQL.
+// Print a node like `sqlparser.String`, whose syntax is for MySQL.
 func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	if mode == GeneratorModeMysql || node == nil {
 		return sqlparser.String(node)
 	}
 
 	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
-		if val, ok := node.(*sqlparser.SQLVal); ok && val.Type == sqlparser.StrVal {
-			buf.WriteString(quoteString(mode, string(val.Val)))
-		} else {
-			node.Format(buf)
+		switch node := node.(type) {
+		case *sqlparser.SQLVal:
+			if node.Type == sqlparser.StrVal {
+				buf.WriteString(quoteString(mode, string(node.Val)))
+				return
+			}
+		case sqlparser.ColIdent:
+			buf.WriteString(formatName(mode, sqlparser.String(node), node.String()))
+			return
+		case sqlparser.TableIdent:
+			buf.WriteString(formatName(mode, sqlparser.String(node), node.String()))
+			return
+		case *sqlparser.Limit:
+			if mode == GeneratorModePostgres && node != nil && node.Offset != nil {
+				buf.Myprintf(" limit %v offset %v", node.Rowcount, node.Offset)
+				return
+			}
+		case *sqlparser.ConvertExpr:
+			if mode == GeneratorModePostgres && node.Expr != nil {
+				buf.Myprintf("cast(%v as %v)", node.Expr, node.Type)
+				return
+			}
+		case *sqlparser.Select:
+			if mode == GeneratorModePostgres && sqlparser.String(node.From) == "dual" { // no FROM
+				buf.Myprintf("select %v%s%s%s%v%v%v%v%v%v%s",
+					node.Comments, node.Cache, node.Distinct, node.Hints, node.SelectExprs,
+					node.Where, node.GroupBy, node.Having, node.OrderBy, node.Limit, node.Lock)
+				return
+			}
 		}
+		node.Format(buf)
 	})
 	buf.Myprintf("%v", node)
 	return buf.String()
 }
 
+// Quote a name like the database does, not with backticks.
+func formatName(mode GeneratorMode, formatted string, name string) string {
+	switch mode {
+	case GeneratorModePostgres:
+		if formatted != name || strings.ToLower(name) != name {
+			return `"` + strings.ReplaceAll(name, `"`, `""`) + `"`
+		}
+	case GeneratorModeMssql:
+		if formatted != name {
+			return "[" + strings.ReplaceAll(name, "]", "]]") + "]"
+		}
+	}
+	return formatted
+}
+
 // Parse DDL like `CREATE TABLE` or `ALTER TABLE`.
 // This doesn't support destructive DDL like `DROP TABLE`.
 func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
-- 
2.43.0


From a155b327b7661d82c1bce686b4a77e77cb94eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 35/56] fix: add and change foreign keys given by ALTER TABLE

---
 schema/generator.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 9291e84..e20939e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -644,7 +644,21 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-	// TODO: Simulate currentTable.foreignKeys too
+	currentTable := findTableByName(g.currentTables, tableName)
+	if currentTable == nil {
+		return nil, fmt.Errorf("%s is performed for inexistent table '%s': '%s'", action, tableName, statement)
+	}
+
+	currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName)
+	if currentForeignKey == nil {
+		// Foreign key not found, add foreign key.
+		ddls = append(ddls, statement)
+		currentTable.foreignKeys = append(currentTable.foreignKeys, desiredForeignKey)
+	} else if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
+		// Foreign key found. If it's different, drop and add foreign key.
+		ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
+		ddls = append(ddls, statement)
+	}
 
 	// Examine indexes in desiredTable to delete obsoleted indexes later
 	desiredTable := findTableByName(g.desiredTables, tableName)
-- 
2.43.0


From 59e24ab5cb22b549ada81628e5ea88cf03650d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 36/56] fix: keep default values of now()

---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 2b183ed..21ae848 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4289,7 +4289,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1066
 		{
-			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
+			yyVAL.optVal = NewValArg([]byte("now()"))
 		}
 	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 4f0b0e1..8eddbf7 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1068,7 +1068,7 @@ default_val:
   }
 | NOW openb closeb
   {
-    $$ = NewBitVal($1)
+    $$ = NewValArg([]byte("now()"))
   }
 
 identity_behavior:
-- 
2.43.0


From 22f24dedd117209f036966a78c1f32ce9be29bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 37/56] fix: regard smallserial as NOT NULL

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index e20939e..2f7b80b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1188,7 +1188,7 @@ func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial"
+			return column.typeName == "smallserial" || column.typeName == "serial" || column.typeName == "bigserial"
 		default:
 			return false
 		}
-- 
2.43.0


From e29620ad071af15430d1b44cb4a5df4a9682069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 38/56] fix: show casted NULL defaults of PostgreSQL as NULL

---
 adapter/postgres/postgres.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index cf4cba3..06beb88 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -274,7 +274,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 }
 
 var (
-	castedLiteral = regexp.MustCompile(`(?s)^('(?:[^']|'')*')::([a-z].*)$`)
+	castedLiteral = regexp.MustCompile(`(?s)^('(?:[^']|'')*'|NULL)::([a-z].*)$`)
 	quotedNumber  = regexp.MustCompile(`^'(-?[0-9]+(?:\.[0-9]+)?)'$`)
 )
 
@@ -289,7 +289,9 @@ func normalizeDefault(def string) string {
 
 	switch dataType {
 	case "character varying", "text", "bpchar":
-		return def
+		if literal != "NULL" {
+			return def
+		}
 	case "smallint", "integer", "bigint", "real", "double precision", "numeric":
 		if number := quotedNumber.FindStringSubmatch(literal); number != nil {
 			return number[1]
-- 
2.43.0


From 87b0c7c37636b107fcdd232c11f6c4a9719c1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 39/56] fix: drop obsolete policies before the columns they use

---
 schema/generator.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f7b80b..44e0365 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -193,6 +193,14 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			// TODO: simulate to remove index from `currentTable.indexes`?
 		}
 
+		// Check policies, which may use obsoleted columns.
+		for _, policy := range currentTable.policies {
+			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
+				continue
+			}
+			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
+		}
+
 		// Check columns.
 		for _, column := range currentTable.columns {
 			if containsString(convertColumnsToColumnNames(desiredTable.columns), column.name) {
@@ -204,14 +212,6 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			ddls = append(ddls, columnDDLs...)
 			// TODO: simulate to remove column from `currentTable.columns`?
 		}
-
-		// Check policies.
-		for _, policy := range currentTable.policies {
-			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
-				continue
-			}
-			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
-		}
 	}
 
 	return ddls, nil
-- 
2.43.0


From 9da087d9d6fcbb3dbeb5baed8dcc9bd9809ce817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 40/56] fix: detect changes of WITH TIME ZONE

---
 schema/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 44e0365..5a50d1d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -360,9 +360,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 			case GeneratorModePostgres:
-				if !g.haveSameDataType(*currentColumn, desiredColumn) {
+				if !g.haveSameDataType(*currentColumn, desiredColumn) || currentColumn.timezone != desiredColumn.timezone {
 					// Change type
 					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(desiredColumn))
+					if desiredColumn.timezone {
+						ddl += " WITH TIME ZONE"
+					}
 					ddls = append(ddls, ddl)
 				}
 
-- 
2.43.0


From 4fc19c7ed75235ba74e12b17eb031cd42b584b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 41/56] fix: show precisions of PostgreSQL types

---
 adapter/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 06beb88..c50d5d8 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -214,7 +214,7 @@ func (c *column) GetDataType() string {
 
 func (d *PostgresDatabase) getColumns(table string) ([]column, error) {
 	const query = `SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length,
-	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
+	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED', 'numeric') OR s.data_type LIKE 'time%' THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
 	CASE WHEN p.contype = 'u' THEN true ELSE false END AS uniquekey,
 	CASE WHEN pc.contype = 'c' THEN pg_get_constraintdef(pc.oid, true) ELSE NULL END AS check,
 	s.identity_generation
-- 
2.43.0


From 1bdea2475aeeab253ab60a895e7da701c660eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 42/56] fix: order changes of identities, defaults and NOT NULL
 of PostgreSQL

---
 schema/generator.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 5a50d1d..ff500af 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -369,6 +369,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 
+				// GENERATED AS IDENTITY needs to be removed prior to NOT NULL
+				if currentColumn.identity != nil && desiredColumn.identity == nil {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				if !isPrimaryKey(*currentColumn, currentTable) { // Primary Key implies NOT NULL
 					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
@@ -377,6 +382,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 				}
 
+				// A default needs to be removed prior to adding GENERATED AS IDENTITY
+				changeDefault := !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef)
+				if changeDefault && desiredColumn.defaultDef == nil {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				// GENERATED AS IDENTITY
 				if !areSameIdentityDefinition(currentColumn.identity, desiredColumn.identity) {
 					if currentColumn.identity == nil {
@@ -386,10 +397,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 							alter += " (" + generateSequenceClause(desiredColumn.sequence) + ")"
 						}
 						ddls = append(ddls, alter)
-					} else if desiredColumn.identity == nil {
-						// remove
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
-					} else {
+					} else if desiredColumn.identity != nil {
 						// set
 						// not support changing sequence
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET GENERATED %s", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name), desiredColumn.identity.behavior))
@@ -397,18 +405,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				// default
-				if !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) {
-					if desiredColumn.defaultDef == nil {
-						// drop
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
-					} else {
-						// set
-						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
-						if err != nil {
-							return ddls, err
-						}
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name), definition))
+				if changeDefault && desiredColumn.defaultDef != nil {
+					definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
+					if err != nil {
+						return ddls, err
 					}
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name), definition))
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-- 
2.43.0


From f6a47cd51d3d07e93cb78af59539250a4dead205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 43/56] fix: drop PostgreSQL indexes in their schemas

---
 schema/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index ff500af..8b727b3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1148,6 +1148,10 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	case GeneratorModeMysql:
 		return fmt.Sprintf("ALTER TABLE %s DROP INDEX %s", g.escapeTableName(tableName), g.escapeSQLName(indexName))
 	case GeneratorModePostgres:
+		// An index is in the schema of its table. The default one can be omitted.
+		if schema := strings.TrimSuffix(tableName, "."+withoutSchema(tableName)); schema != tableName && schema != "public" {
+			return fmt.Sprintf("DROP INDEX %s.%s", g.escapeSQLName(schema), g.escapeSQLName(indexName))
+		}
 		return fmt.Sprintf("DROP INDEX %s", g.escapeSQLName(indexName))
 	case GeneratorModeMssql:
 		return fmt.Sprintf("DROP INDEX %s ON %s", g.escapeSQLName(indexName), g.escapeTableName(tableName))
-- 
2.43.0


From de2655be99c640f2e08616783e634af3a92806dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 44/56] fix: drop NOT NULL of former primary keys of PostgreSQL

---
 schema/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 8b727b3..8a78f8c 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -527,6 +527,14 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+
+				// NOT NULL of the primary key remains. It could not be removed until here.
+				for _, desiredColumn := range desired.table.columns {
+					currentColumn := findColumnByName(currentTable.columns, desiredColumn.name)
+					if currentColumn != nil && isPrimaryKey(*currentColumn, currentTable) && !isPrimaryKey(desiredColumn, desired.table) && !g.notNull(desiredColumn) {
+						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(desiredColumn.name)))
+					}
+				}
 			default:
 			}
 		}
-- 
2.43.0


From 79a70e5d4314f1e535b6b1e68d936cb56125a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 45/56] fix: regard omitted options of policies as the defaults

---
 schema/generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 8a78f8c..2af28cb 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1633,10 +1633,10 @@ func (g *Generator) lowerExceptStrings(expr string) string {
 }
 
 func (g *Generator) areSamePolicies(policyA, policyB Policy) bool {
-	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
+	if normalizePolicyOption(policyA.scope, "all") != normalizePolicyOption(policyB.scope, "all") {
 		return false
 	}
-	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
+	if normalizePolicyOption(policyA.permissive, "permissive") != normalizePolicyOption(policyB.permissive, "permissive") {
 		return false
 	}
 	if !g.areSameExpressions(policyA.using, policyB.using) && !g.areSameExpressions(fmt.Sprintf("(%s)", policyA.using), policyB.using) {
@@ -1662,6 +1662,13 @@ func (g *Generator) areSamePolicies(policyA, policyB Policy) bool {
 	return true
 }
 
+func normalizePolicyOption(option string, defaultOption string) string {
+	if option == "" {
+		return defaultOption
+	}
+	return strings.ToLower(option)
+}
+
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
-- 
2.43.0


From 140513354a8cd5f1f7a61fb799ecbd63648b1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 46/56] fix: don't mix columns and keys of PostgreSQL schemas
 in the dump

---
 adapter/postgres/postgres.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index c50d5d8..a314561 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -224,7 +224,7 @@ FROM pg_attribute f
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
 	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
-	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname
+	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
 
 	schema, table := splitTableName(table)
@@ -332,6 +332,7 @@ FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
 		ON tc.constraint_name = kcu.constraint_name
+		AND tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name
 WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -366,10 +367,11 @@ FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
 		ON tc.constraint_name = kcu.constraint_name
+		AND tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name
 	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_name = ccu.constraint_name
+		ON tc.constraint_name = ccu.constraint_name AND tc.constraint_schema = ccu.constraint_schema
 	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_name = rc.constraint_name
+		ON tc.constraint_name = rc.constraint_name AND tc.constraint_schema = rc.constraint_schema
 WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
-- 
2.43.0


From 431071ffac25f92866c6fb535a1cfbb954245c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 47/56] fix: keep the schemas of tables referred to by
 PostgreSQL foreign keys

---
 schema/ast.go       |  1 +
 schema/generator.go | 10 +++++++++-
 schema/parser.go    | 10 ++++++++++
 sqlparser/ast.go    |  1 +
 sqlparser/parser.go |  1 +
 sqlparser/parser.y  |  1 +
 6 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/schema/ast.go b/schema/ast.go
index 0529ecf..082e4b4 100644
--- a/schema/ast.go
+++ b/schema/ast.go
@@ -113,6 +113,7 @@ type ForeignKey struct {
 	constraintName    string
 	indexName         string
 	indexColumns      []string
+	referenceSchema   string
 	referenceName     string
 	referenceColumns  []string
 	onDelete          string
diff --git a/schema/generator.go b/schema/generator.go
index 2af28cb..6e80d3d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1131,9 +1131,14 @@ func (g *Generator) generateForeignKeyDefinition(foreignKey ForeignKey) string {
 		referenceColumns = append(referenceColumns, g.escapeSQLName(column))
 	}
 
+	referenceName := g.escapeSQLName(foreignKey.referenceName)
+	if foreignKey.referenceSchema != "" {
+		referenceName = g.escapeSQLName(foreignKey.referenceSchema) + "." + referenceName
+	}
+
 	definition += fmt.Sprintf(
 		"(%s) REFERENCES %s (%s) ",
-		strings.Join(indexColumns, ","), g.escapeSQLName(foreignKey.referenceName),
+		strings.Join(indexColumns, ","), referenceName,
 		strings.Join(referenceColumns, ","),
 	)
 
@@ -1343,6 +1348,9 @@ func isReferredTable(target *Table, tables []*Table) bool {
 }
 
 func isReferenceTo(foreignKey ForeignKey, table *Table) bool {
+	if foreignKey.referenceSchema != "" {
+		return table.name == foreignKey.referenceSchema+"."+foreignKey.referenceName
+	}
 	// Table names may have a schema while references don't.
 	return table.name == foreignKey.referenceName || strings.HasSuffix(table.name, "."+foreignKey.referenceName)
 }
diff --git a/schema/parser.go b/schema/parser.go
index 9faa212..7ff0463 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -182,6 +182,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 			constraintName:    foreignKeyDef.ConstraintName.String(),
 			indexName:         foreignKeyDef.IndexName.String(),
 			indexColumns:      indexColumns,
+			referenceSchema:   referenceSchema(mode, foreignKeyDef),
 			referenceName:     foreignKeyDef.ReferenceName.String(),
 			referenceColumns:  referenceColumns,
 			onDelete:          foreignKeyDef.OnDelete.String(),
@@ -414,6 +415,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 					constraintName:    stmt.ForeignKey.ConstraintName.String(),
 					indexName:         stmt.ForeignKey.IndexName.String(),
 					indexColumns:      indexColumns,
+					referenceSchema:   referenceSchema(mode, stmt.ForeignKey),
 					referenceName:     stmt.ForeignKey.ReferenceName.String(),
 					referenceColumns:  referenceColumns,
 					onDelete:          stmt.ForeignKey.OnDelete.String(),
@@ -577,6 +579,14 @@ func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) stri
 	return table
 }
 
+// Databases other than PostgreSQL are managed without schemas.
+func referenceSchema(mode GeneratorMode, foreignKey *sqlparser.ForeignKeyDefinition) string {
+	if mode == GeneratorModePostgres {
+		return foreignKey.ReferenceSchema.String()
+	}
+	return ""
+}
+
 // TODO: parse charset in parser.y instead of "detecting" it
 func detectCharset(table sqlparser.TableSpec) string {
 	for _, option := range strings.Split(table.Options, " ") {
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 0b28602..beab5d1 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -1398,6 +1398,7 @@ type ForeignKeyDefinition struct {
 	ConstraintName    ColIdent
 	IndexName         ColIdent
 	IndexColumns      []ColIdent
+	ReferenceSchema   TableIdent
 	ReferenceName     ColIdent
 	ReferenceColumns  []ColIdent
 	OnDelete          ColIdent
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 21ae848..a12e321 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -5284,6 +5284,7 @@ yydefault:
 				ConstraintName:   yyDollar[2].colIdent,
 				IndexName:        yyDollar[5].colIdent,
 				IndexColumns:     yyDollar[7].colIdents,
+				ReferenceSchema:  yyDollar[10].tableName.Qualifier,
 				ReferenceName:    NewColIdent(yyDollar[10].tableName.Name.String()),
 				ReferenceColumns: yyDollar[12].colIdents,
 			}
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 8eddbf7..83d0330 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1814,6 +1814,7 @@ foreign_key_without_options:
       ConstraintName: $2,
       IndexName: $5,
       IndexColumns: $7,
+      ReferenceSchema: $10.Qualifier,
       ReferenceName: NewColIdent($10.Name.String()),
       ReferenceColumns: $12,
     }
-- 
2.43.0


From 14758ac79f274e2830dcab97a9501c2840d7916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 48/56] fix: detect changes of what a foreign key refers to

---
 schema/generator.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 6e80d3d..b42ac0e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1606,10 +1606,36 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	if foreignKeyA.notForReplication != foreignKeyB.notForReplication {
 		return false
 	}
-	// TODO: check index, reference
+	if !strings.EqualFold(foreignKeyA.referenceName, foreignKeyB.referenceName) ||
+		g.normalizeReferenceSchema(foreignKeyA.referenceSchema) != g.normalizeReferenceSchema(foreignKeyB.referenceSchema) {
+		return false
+	}
+	// Composite foreign keys of PostgreSQL are not dumped together. TODO: detect changes between composite ones and the others
+	if len(foreignKeyA.referenceColumns) == len(foreignKeyB.referenceColumns) {
+		for i, referenceColumn := range foreignKeyA.referenceColumns {
+			if !strings.EqualFold(referenceColumn, foreignKeyB.referenceColumns[i]) {
+				return false
+			}
+		}
+	}
+	// MySQL keeps the index made for the foreign key. TODO: check index columns of MySQL
+	if g.mode != GeneratorModeMysql && len(foreignKeyA.indexColumns) == len(foreignKeyB.indexColumns) {
+		for i, indexColumn := range foreignKeyA.indexColumns {
+			if indexColumn != foreignKeyB.indexColumns[i] {
+				return false
+			}
+		}
+	}
 	return true
 }
 
+func (g *Generator) normalizeReferenceSchema(schema string) string {
+	if g.mode == GeneratorModePostgres && schema == "" {
+		return "public"
+	}
+	return schema
+}
+
 // Cases are ignored except for string literals.
 func (g *Generator) areSameExpressions(exprA, exprB string) bool {
 	return g.lowerExceptStrings(exprA) == g.lowerExceptStrings(exprB)
-- 
2.43.0


From 3040f172aae8e6795c80d2a8337305086cdca488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 49/56] fix: name check constraints of PostgreSQL without
 schemas and with quotes

---
 schema/generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index b42ac0e..44ed123 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -7,6 +7,8 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+
+	"github.com/k0kubun/sqldef/sqlparser"
 )
 
 type GeneratorMode int
@@ -414,7 +416,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "public.", "", 1), desiredColumn.name)
+					constraintName := formatNode(g.mode, sqlparser.NewColIdent(fmt.Sprintf("%s_%s_check", withoutSchema(desired.table.name), desiredColumn.name)))
 					if currentColumn.check != nil {
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
 						ddls = append(ddls, ddl)
-- 
2.43.0


From d8e64c72b5e6d471db5afe05e3426074af013c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 50/56] fix: regard decimal and float as what PostgreSQL makes
 of them

---
 schema/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 44ed123..8e16098 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -26,10 +26,14 @@ var (
 		"int":     "integer",
 		"char":    "character",
 		"varchar": "character varying",
+		"decimal": "numeric",
 	}
 	mysqlDataTypeAliases = map[string]string{
 		"boolean": "tinyint",
 	}
+	postgresDataTypeAliases = map[string]string{
+		"float": "double precision",
+	}
 )
 
 // This struct holds simulated schema states during GenerateIdempotentDDLs().
@@ -1539,6 +1543,12 @@ func (g *Generator) normalizeDataType(dataType string) string {
 			dataType = alias
 		}
 	}
+	if g.mode == GeneratorModePostgres {
+		alias, ok = postgresDataTypeAliases[dataType]
+		if ok {
+			dataType = alias
+		}
+	}
 	return dataType
 }
 
-- 
2.43.0


From 52b9710249c122d0519dfd717292706257ba76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 51/56] fix: drop identities of PostgreSQL before changing the
 type

---
 schema/generator.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 8e16098..bfa6639 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -366,6 +366,11 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 			case GeneratorModePostgres:
+				// GENERATED AS IDENTITY needs to be removed prior to changes of the type and NOT NULL
+				if currentColumn.identity != nil && desiredColumn.identity == nil {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
+				}
+
 				if !g.haveSameDataType(*currentColumn, desiredColumn) || currentColumn.timezone != desiredColumn.timezone {
 					// Change type
 					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(desiredColumn))
@@ -375,11 +380,6 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					ddls = append(ddls, ddl)
 				}
 
-				// GENERATED AS IDENTITY needs to be removed prior to NOT NULL
-				if currentColumn.identity != nil && desiredColumn.identity == nil {
-					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP IDENTITY IF EXISTS", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
-				}
-
 				if !isPrimaryKey(*currentColumn, currentTable) { // Primary Key implies NOT NULL
 					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
-- 
2.43.0


From d9d6b0da2c1f8799d0e3b962d58f03a331c176cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 52/56] fix: drop obsolete unique indexes of PostgreSQL columns
 with UNIQUE

---
 schema/generator.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index bfa6639..78554f8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -864,17 +864,16 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 			// The key of UNIQUE in a column definition is a constraint, which can't be dropped as an index.
 			keyColumn := currentIndex.columns[0].column
 			currentColumn := findColumnByName(currentTable.columns, keyColumn)
-			if currentColumn != nil && currentColumn.keyOption.isUnique() {
-				constraintName := uniqueConstraintName(currentTable.name, keyColumn)
-				if currentIndex.name == constraintName {
-					if uniqueKeyColumn == nil {
-						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(constraintName)))
-					}
-					return ddls, nil
-				}
-				if findIndexByName(currentTable.indexes, constraintName) != nil {
-					uniqueKeyColumn = nil
+			isUniqueColumn := currentColumn != nil && currentColumn.keyOption.isUnique()
+			constraintName := uniqueConstraintName(currentTable.name, keyColumn)
+			if isUniqueColumn && currentIndex.name == constraintName {
+				if uniqueKeyColumn == nil {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(constraintName)))
 				}
+				return ddls, nil
+			}
+			if !isUniqueColumn || findIndexByName(currentTable.indexes, constraintName) != nil {
+				uniqueKeyColumn = nil // The index is not the one of the column.
 			}
 		}
 
-- 
2.43.0


From b5561c700728388fb97078810ec529718be47b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 53/56] fix: keep NOT NULL of PostgreSQL columns becoming
 primary keys

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 78554f8..c2758bf 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -381,7 +381,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !isPrimaryKey(*currentColumn, currentTable) { // Primary Key implies NOT NULL
-					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) {
+					if g.notNull(*currentColumn) && !g.notNull(desiredColumn) && !isPrimaryKey(desiredColumn, desired.table) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
 					} else if !g.notNull(*currentColumn) && g.notNull(desiredColumn) {
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s SET NOT NULL", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name)))
-- 
2.43.0


From fdffaa69b0824b81ef4075381157b9b29ceef95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 54/56] fix: don't show the keys of UNIQUE columns twice in the
 PostgreSQL dump

---
 adapter/postgres/postgres.go | 20 ++++++++++++-----
 schema/generator.go          | 43 ++++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index a314561..fdef3fd 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -105,7 +105,7 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	indexDefs, err := d.getIndexDefs(table)
+	indexDefs, err := d.getIndexDefs(table, cols)
 	if err != nil {
 		return "", err
 	}
@@ -222,7 +222,7 @@ FROM pg_attribute f
 	JOIN pg_class c ON c.oid = f.attrelid JOIN pg_type t ON t.oid = f.atttypid
 	LEFT JOIN pg_attrdef d ON d.adrelid = c.oid AND d.adnum = f.attnum
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
-	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
+	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u' AND array_length(p.conkey, 1) = 1
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
 	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
@@ -230,7 +230,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -300,15 +300,23 @@ func normalizeDefault(def string) string {
 	return literal
 }
 
-func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
+func (d *PostgresDatabase) getIndexDefs(table string, cols []column) ([]string, error) {
 	const query = "SELECT indexName, indexdef FROM pg_indexes WHERE schemaname=$1 AND tablename=$2"
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
+	// UNIQUE in column definitions makes them.
+	uniqueKeys := map[string]bool{}
+	for _, col := range cols {
+		if col.IsUnique {
+			uniqueKeys[fmt.Sprintf("%s_%s_key", table, col.Name)] = true
+		}
+	}
+
 	indexes := make([]string, 0)
 	for rows.Next() {
 		var indexName, indexdef string
@@ -317,7 +325,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 			return nil, err
 		}
 		indexName = strings.Trim(indexName, `" `)
-		if strings.HasSuffix(indexName, "_pkey") {
+		if strings.HasSuffix(indexName, "_pkey") || uniqueKeys[indexName] {
 			continue
 		}
 		indexes = append(indexes, indexdef)
diff --git a/schema/generator.go b/schema/generator.go
index c2758bf..a70f8e9 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -183,6 +183,20 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	for _, currentTable := range g.currentTables {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
 
+		// Check UNIQUE of columns, which is a constraint and not an index in PostgreSQL
+		if g.mode == GeneratorModePostgres {
+			for _, column := range currentTable.columns {
+				desiredColumn := findColumnByName(desiredTable.columns, column.name)
+				if desiredColumn == nil || !column.keyOption.isUnique() || desiredColumn.keyOption.isUnique() {
+					continue
+				}
+				constraintName := uniqueConstraintName(currentTable.name, column.name)
+				if findIndexByName(desiredTable.indexes, constraintName) == nil {
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(constraintName)))
+				}
+			}
+		}
+
 		// Check indexes
 		for _, index := range currentTable.indexes {
 			if containsString(convertIndexesToIndexNames(desiredTable.indexes), index.name) ||
@@ -625,7 +639,9 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 	}
 
 	currentIndex := findIndexByName(currentTable.indexes, desiredIndex.name)
-	if currentIndex == nil {
+	if currentIndex == nil && g.isIndexOfUniqueColumn(*currentTable, desiredIndex) {
+		// The index has been made by UNIQUE of the column, nothing to add.
+	} else if currentIndex == nil {
 		// Index not found, add index.
 		ddls = append(ddls, statement)
 		currentTable.indexes = append(currentTable.indexes, desiredIndex)
@@ -861,19 +877,9 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 		}
 
 		if g.mode == GeneratorModePostgres && len(currentIndex.columns) == 1 {
-			// The key of UNIQUE in a column definition is a constraint, which can't be dropped as an index.
-			keyColumn := currentIndex.columns[0].column
-			currentColumn := findColumnByName(currentTable.columns, keyColumn)
-			isUniqueColumn := currentColumn != nil && currentColumn.keyOption.isUnique()
-			constraintName := uniqueConstraintName(currentTable.name, keyColumn)
-			if isUniqueColumn && currentIndex.name == constraintName {
-				if uniqueKeyColumn == nil {
-					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(constraintName)))
-				}
-				return ddls, nil
-			}
-			if !isUniqueColumn || findIndexByName(currentTable.indexes, constraintName) != nil {
-				uniqueKeyColumn = nil // The index is not the one of the column.
+			currentColumn := findColumnByName(currentTable.columns, currentIndex.columns[0].column)
+			if currentColumn == nil || !currentColumn.keyOption.isUnique() {
+				uniqueKeyColumn = nil // The index is not the one of the column, which is added as a constraint.
 			}
 		}
 
@@ -893,6 +899,15 @@ func uniqueConstraintName(tableName string, columnName string) string {
 	return fmt.Sprintf("%s_%s_key", withoutSchema(tableName), columnName)
 }
 
+// PostgreSQL makes an index for UNIQUE in a column definition, which isn't listed among the indexes of the table.
+func (g *Generator) isIndexOfUniqueColumn(table Table, index Index) bool {
+	if g.mode != GeneratorModePostgres || !index.unique || len(index.columns) != 1 || index.where != "" {
+		return false
+	}
+	column := findColumnByName(table.columns, index.columns[0].column)
+	return column != nil && column.keyOption.isUnique() && index.name == uniqueConstraintName(table.name, column.name)
+}
+
 func withoutSchema(tableName string) string {
 	schemaTable := strings.SplitN(tableName, ".", 2)
 	return schemaTable[len(schemaTable)-1]
-- 
2.43.0


From fe531068d019dbd9d2d7f07b6b039e355c1b9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 55/56] fix: parenthesise the expressions of policies in the
 PostgreSQL dump

---
 adapter/postgres/postgres.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index fdef3fd..c3a8958 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -436,16 +436,42 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 			pq.QuoteIdentifier(policyName), quoteIdent(schema), quoteIdent(table), permissive, cmd, roles,
 		)
 		if using.Valid {
-			def += fmt.Sprintf(" USING %s", using.String)
+			def += fmt.Sprintf(" USING %s", parenthesize(using.String))
 		}
 		if withCheck.Valid {
-			def += fmt.Sprintf(" WITH CHECK %s", withCheck.String)
+			def += fmt.Sprintf(" WITH CHECK %s", parenthesize(withCheck.String))
 		}
 		defs = append(defs, def)
 	}
 	return defs, nil
 }
 
+// pg_policies shows a column or a constant without parentheses, which are required in CREATE POLICY.
+func parenthesize(expr string) string {
+	depth := 0
+	quote := rune(0)
+	for i, c := range expr {
+		if quote != 0 {
+			if c == quote {
+				quote = 0
+			}
+		} else if c == '\'' || c == '"' {
+			quote = c
+		} else if c == '(' {
+			depth++
+		} else if c == ')' {
+			depth--
+			if depth == 0 && i == len(expr)-1 && expr[0] == '(' {
+				return expr
+			}
+		}
+		if depth == 0 {
+			break
+		}
+	}
+	return fmt.Sprintf("(%s)", expr)
+}
+
 func (d *PostgresDatabase) DB() *sql.DB {
 	return d.db
 }
-- 
2.43.0


From e8e969978a02affc35e10cc653aa0c7c0d04892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 56/56] fix: drop partial unique indexes of UNIQUE columns in
 PostgreSQL

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index a70f8e9..f0c9bb7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -878,7 +878,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 
 		if g.mode == GeneratorModePostgres && len(currentIndex.columns) == 1 {
 			currentColumn := findColumnByName(currentTable.columns, currentIndex.columns[0].column)
-			if currentColumn == nil || !currentColumn.keyOption.isUnique() {
+			if currentColumn == nil || !currentColumn.keyOption.isUnique() || currentIndex.where != "" {
 				uniqueKeyColumn = nil // The index is not the one of the column, which is added as a constraint.
 			}
 		}
-- 
2.43.0

